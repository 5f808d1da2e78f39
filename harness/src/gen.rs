//! Workload generators: keys, messages, scalars, field operands and
//! adversarial verification triples. Structured values come first, random ones
//! fill the rest. A dictionary of constants that appear in the tree under test
//! but not in the tree this harness was written against steers some cases; it
//! never influences a verdict.
use crate::mon::Rng;
use crate::oracle as o;
use o::{Fe, Pt, Sc};
use std::sync::OnceLock;

#[derive(Default, Clone)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
}
impl Dict {
    pub fn load() -> Dict {
        let mut d = Dict::default();
        if let Ok(p) = std::env::var("MON_DICT") {
            if let Ok(t) = std::fs::read_to_string(p) {
                if let Ok(v) = serde_json::from_str::<serde_json::Value>(&t) {
                    for i in v["ints"].as_array().into_iter().flatten() {
                        if let Some(u) = i.as_u64() {
                            d.ints.push(u);
                        }
                    }
                    for s in v["strs"].as_array().into_iter().flatten() {
                        if let Some(s) = s.as_str() {
                            d.strs.push(crate::mon::unhex(s));
                        }
                    }
                }
            }
        }
        d
    }
    pub fn is_empty(&self) -> bool {
        self.ints.is_empty() && self.strs.is_empty()
    }
}

// ------------------------------------------------------------- bytes
/// overwrite parts of a buffer with dictionary constants
pub fn dict_poke(r: &mut Rng, d: &Dict, b: &mut [u8]) {
    if b.is_empty() {
        return;
    }
    let n = 1 + r.below(3);
    for _ in 0..n {
        if !d.strs.is_empty() && r.one_in(4) {
            let s = r.pick(&d.strs);
            if !s.is_empty() && s.len() <= b.len() {
                let at = *r.pick(&[0, b.len() - s.len(), r.clone().below(b.len() - s.len() + 1)]);
                b[at..at + s.len()].copy_from_slice(s);
            }
            continue;
        }
        if d.ints.is_empty() {
            continue;
        }
        let v = *r.pick(&d.ints);
        // position: another dictionary int if it is a valid index, else anywhere
        let mut at = r.below(b.len());
        let p = *r.pick(&d.ints);
        if (p as usize) < b.len() && !r.one_in(4) {
            at = p as usize;
        }
        match r.below(6) {
            0 if at + 4 <= b.len() => b[at..at + 4].copy_from_slice(&(v as u32).to_le_bytes()),
            1 if at + 4 <= b.len() => b[at..at + 4].copy_from_slice(&(v as u32).to_be_bytes()),
            2 if at + 8 <= b.len() => b[at..at + 8].copy_from_slice(&v.to_le_bytes()),
            3 if at + 2 <= b.len() => b[at..at + 2].copy_from_slice(&(v as u16).to_le_bytes()),
            _ => b[at] = v as u8,
        }
    }
}

const WORDS: [u32; 10] = [0, 0xffffffff, 0x80000000, 0x7fffffff, 1, 0xfffffffe, 0x0fffffff, 0x10000000, 0xf0000000, 2];

/// structured 57-byte string
pub fn bytes57(r: &mut Rng, d: &Dict) -> [u8; 57] {
    let mut k: [u8; 57] = r.bytes();
    match r.below(20) {
        0 => k = [r.u32() as u8; 57],
        1 => {
            k = [0; 57];
            let b = r.below(456);
            k[b / 8] = 1 << (b % 8);
        }
        2 => {
            k = [0xff; 57];
            let b = r.below(456);
            k[b / 8] &= !(1 << (b % 8));
        }
        3 => {
            for c in k.chunks_mut(4) {
                let w = r.pick(&WORDS).to_le_bytes();
                let n = c.len();
                c.copy_from_slice(&w[..n]);
            }
        }
        4 => {
            let n = r.range(1, 57);
            k[..n].fill(if r.one_in(2) { 0 } else { 0xff });
        }
        5 => {
            let n = r.range(0, 56);
            k[n..].fill(if r.one_in(2) { 0 } else { 0xff });
        }
        6 => {
            let p = r.below(57);
            k[p] = *r.pick(&[0u8, 1, 2, 3, 4, 0x7f, 0x80, 0x81, 0xfc, 0xfe, 0xff]);
        }
        7 => {
            let w = r.below(14) * 4;
            let v = r.pick(&WORDS).to_le_bytes();
            k[w..w + 4].copy_from_slice(&v);
        }
        8 => {
            k[0] = r.u32() as u8;
            k[55] = *r.pick(&[0u8, 0x7f, 0x80, 0xff]);
            k[56] = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff]);
        }
        9 => {
            for b in k.iter_mut() {
                *b = *r.pick(b"0123456789abcdef");
            }
        }
        10 | 11 if !d.is_empty() => dict_poke(r, d, &mut k),
        _ => {}
    }
    if !d.is_empty() && r.one_in(3) {
        dict_poke(r, d, &mut k);
    }
    k
}

/// a clamp-shaped 56-byte integer (bit 447 set, multiple of 4) congruent to e
/// mod L, if there is one
pub fn key_for_scalar(e: &Sc) -> Option<[u8; 57]> {
    for k in 0..6u64 {
        if let Some(b) = o::s_plus_kl(e, k) {
            if b[56] == 0 && b[55] & 0x80 != 0 && b[0] & 3 == 0 {
                return Some(b);
            }
        }
    }
    None
}

/// structured scalar below L
pub fn scalar(r: &mut Rng) -> Sc {
    let mut w: [u32; 14] = [0; 14];
    for x in w.iter_mut() {
        *x = r.u32();
    }
    match r.below(16) {
        0 => {
            w = [0; 14];
            w[0] = r.below(64) as u32;
        }
        1 => return o::s_sub(&[0; 7], &o::s_from_bytes(&[r.below(64) as u8])),
        2 => {
            for x in w.iter_mut() {
                *x = *r.pick(&WORDS);
            }
        }
        3 => {
            let b = r.below(446);
            w = [0; 14];
            w[b / 32] = 1 << (b % 32);
        }
        4 => {
            // a run of ones
            w = [0; 14];
            let a = r.below(446);
            let b = r.range(a, 445);
            for i in a..=b {
                w[i / 32] |= 1 << (i % 32);
            }
        }
        5 => {
            // L/2, L/4, 3L/4 neighbourhoods
            let mut x = o::s_from_bytes(&[r.below(8) as u8]);
            for _ in 0..r.range(1, 3) {
                x = o::s_half(&x);
            }
            return x;
        }
        6 => {
            // L with low words perturbed
            let l = o::s_words(&o::L);
            let n = r.below(14);
            w = l;
            for x in w.iter_mut().take(n) {
                *x = *r.pick(&WORDS);
            }
            if n > 0 && r.one_in(2) {
                w[n - 1] = l[n - 1].wrapping_sub(r.below(3) as u32);
            }
        }
        7 => {
            // comb adjustment complements: s with s + adj = small after halving is
            // covered through base_mul stages; here alternating nibbles
            let p = *r.pick(&[0x55555555u32, 0xaaaaaaaa, 0x33333333, 0x0f0f0f0f, 0x42108421, 0x84210842]);
            w = [p; 14];
        }
        8 => {
            let n = r.below(14);
            for x in w.iter_mut().take(n) {
                *x = 0;
            }
        }
        9 => {
            let n = r.below(14);
            for x in w.iter_mut().take(n) {
                *x = 0xffffffff;
            }
        }
        10 => {
            let n = r.range(1, 13);
            for x in w.iter_mut().skip(n) {
                *x = 0;
            }
        }
        _ => {}
    }
    if w[13] >> 30 != 0 {
        w[13] &= 0x3fffffff;
    }
    // reduce
    let mut b = [0u8; 56];
    for i in 0..14 {
        b[4 * i..4 * i + 4].copy_from_slice(&w[i].to_le_bytes());
    }
    o::s_from_bytes(&b)
}

/// any private key: seed or raw form, with many raw keys steered to chosen scalars
pub fn key(r: &mut Rng, d: &Dict) -> [u8; 57] {
    let mut k = bytes57(r, d);
    if r.one_in(8) {
        for _ in 0..8 {
            if let Some(mut b) = key_for_scalar(&scalar(r)) {
                b[56] = 0x80 | r.u32() as u8;
                if r.one_in(2) {
                    b[0] |= r.below(4) as u8;
                    b[55] &= if r.one_in(2) { 0x7f } else { 0xff };
                }
                return b;
            }
        }
    }
    match r.below(8) {
        0 => k[56] |= 0x80,
        1 => k[56] &= 0x7f,
        _ => {}
    }
    k
}
pub fn seed_key(r: &mut Rng, d: &Dict) -> [u8; 57] {
    let mut k = bytes57(r, d);
    k[56] &= 0x7f;
    k
}
pub fn raw_key(r: &mut Rng, d: &Dict) -> [u8; 57] {
    let mut k = if r.one_in(3) { key_for_scalar(&scalar(r)).unwrap_or_else(|| bytes57(r, d)) } else { bytes57(r, d) };
    k[56] |= 0x80;
    if r.one_in(2) {
        k[56] = 0x80 | r.u32() as u8;
    }
    k
}

// ------------------------------------------------------------- messages
pub fn msg_len(r: &mut Rng, d: &Dict) -> usize {
    match r.below(16) {
        0 => 0,
        1 => r.below(8),
        2..=5 => r.below(300),
        6 => {
            // around the SHAKE256 rate for nonce (10+57+n) and challenge (10+114+n)
            let off = *r.pick(&[0usize, 67, 124, 10, 57]);
            let k = r.range(1, 12) * 136;
            (k + r.range(0, 2)).saturating_sub(off + 1)
        }
        7 => {
            let b = 1usize << r.range(3, 13);
            (b + r.range(0, 2)).saturating_sub(1)
        }
        8 => r.below(2048),
        9 if r.one_in(6) => {
            let b = 1usize << r.range(13, 17);
            (b + r.range(0, 2)).saturating_sub(1)
        }
        10 => 32,
        11 => 64,
        12 if !d.ints.is_empty() => {
            let v = *r.pick(&d.ints) as usize;
            if v <= 1 << 20 {
                (v + r.range(0, 2)).saturating_sub(1)
            } else {
                r.below(300)
            }
        }
        _ => r.below(100),
    }
}
pub fn fill_msg(r: &mut Rng, d: &Dict, n: usize) -> Vec<u8> {
    let mut m = r.vec(n);
    match r.below(12) {
        0 => m.fill(0),
        1 => m.fill(0xff),
        2 => m.fill(r.u32() as u8),
        3 if n > 0 => {
            let z = r.range(1, n);
            m[n - z..].fill(0);
        }
        4 if n > 0 => {
            let z = r.range(1, n);
            m[..z].fill(0);
        }
        5 => m.iter_mut().for_each(|b| *b = b' ' + (*b % 95)),
        6 if n > 8 => m[..8].copy_from_slice(b"SigEd448"),
        7 if n > 0 => m[n - 1] = *r.pick(&[0u8, 1, 0x0a, 0x80, 0xff, 0x1f]),
        _ => {}
    }
    if !d.is_empty() && r.one_in(3) {
        dict_poke(r, d, &mut m);
    }
    m
}
pub fn msg(r: &mut Rng, d: &Dict) -> Vec<u8> {
    let n = msg_len(r, d);
    fill_msg(r, d, n)
}

// ------------------------------------------------------------- field operands
/// 16 limbs, structured; `max` is the largest limb allowed
pub fn limbs(r: &mut Rng, max: u32) -> [u32; 16] {
    const M: u32 = (1 << 28) - 1;
    let mut l = [0u32; 16];
    let special = |r: &mut Rng| -> u32 {
        let v = *r.pick(&[0, 1, 2, M, M - 1, M - 2, 1 << 27, (1 << 27) - 1, 0x5555555, 0xaaaaaaa, M + 1, M + 2, max, max - 1, 0x0ffff, 0xfff0000]);
        v.min(max)
    };
    match r.below(16) {
        0 => {
            // p + k, in one carry-free layout
            l = [M; 16];
            l[8] = M - 1;
            if r.one_in(2) {
                l[0] = (M + r.below(200) as u32).min(max);
            } else {
                l[0] = M - r.below(200) as u32;
            }
        }
        1 => {
            l[0] = r.below(64) as u32;
        }
        2 => l = [special(r); 16],
        3 | 4 => {
            for x in l.iter_mut() {
                *x = special(r);
            }
        }
        5 => {
            for x in l.iter_mut() {
                *x = if r.one_in(4) { special(r) } else { r.u32() & M };
            }
        }
        6 => {
            let i = r.below(16);
            l[i] = special(r);
        }
        7 => {
            l = [M; 16];
            let i = r.below(16);
            l[i] = special(r);
            if r.one_in(2) {
                l[8] = l[8].min(M - 1);
            }
        }
        8 => {
            // long carry run: ones in a window
            let a = r.below(16);
            let b = r.range(a, 15);
            for x in l.iter_mut().take(b + 1).skip(a) {
                *x = M;
            }
            l[a] = (M + r.below(3) as u32).min(max);
        }
        9 => l = [max; 16],
        10 => {
            for x in l.iter_mut() {
                *x = max - r.below(4) as u32;
            }
        }
        _ => {
            for x in l.iter_mut() {
                *x = r.u32() & M;
            }
        }
    }
    l
}

// ------------------------------------------------------------- small-y points
/// low-order and special encodings (canonical or not), no known discrete log
/// needed; each with a tag
pub fn special_encodings() -> &'static Vec<(&'static str, [u8; 57])> {
    static V: OnceLock<Vec<(&'static str, [u8; 57])>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v = vec![];
        let put = |y: &Fe, sign: u8| {
            let mut e = [0u8; 57];
            e[..56].copy_from_slice(&o::f_to_bytes(y));
            e[56] = sign;
            e
        };
        let addu = |base: &Fe, k: u64| -> Fe {
            let mut y = *base;
            let mut c = k;
            for x in y.iter_mut() {
                let (r, ov) = x.overflowing_add(c);
                *x = r;
                c = ov as u64;
            }
            y
        };
        let subu = |base: &Fe, k: u64| -> Fe {
            let mut y = *base;
            let mut c = k;
            for x in y.iter_mut() {
                let (r, ov) = x.overflowing_sub(c);
                *x = r;
                c = ov as u64;
            }
            y
        };
        for sign in [0u8, 0x80] {
            for k in 0..40 {
                v.push(("small_y", put(&addu(&o::ZERO, k), sign)));
                v.push(("y_near_p_above", put(&addu(&o::P, k), sign)));
                v.push(("y_near_p_below", put(&subu(&o::P, k + 1), sign)));
                v.push(("y_all_ones_down", put(&subu(&[u64::MAX; 7], k), sign)));
            }
            for b in 0..448 {
                let mut y = o::ZERO;
                y[b / 64] = 1 << (b % 64);
                v.push(("y_power_of_two", put(&y, sign)));
                v.push(("y_p_minus_pow2", {
                    let mut z = o::P;
                    // p - 2^b
                    let mut bor = 0u64;
                    for i in 0..7 {
                        let (r1, o1) = z[i].overflowing_sub(y[i]);
                        let (r2, o2) = r1.overflowing_sub(bor);
                        z[i] = r2;
                        bor = (o1 | o2) as u64;
                    }
                    put(&z, sign)
                }));
                v.push(("y_p_plus_pow2", {
                    let mut z = o::P;
                    let mut c = 0u64;
                    for i in 0..7 {
                        let (r1, o1) = z[i].overflowing_add(y[i]);
                        let (r2, o2) = r1.overflowing_add(c);
                        z[i] = r2;
                        c = (o1 | o2) as u64;
                    }
                    put(&z, sign)
                }));
            }
        }
        for t in o::torsion() {
            let e = t.encode();
            v.push(("low_order", e));
            let mut f = e;
            f[56] ^= 0x80;
            v.push(("low_order_sign_flipped", f));
            for b in 0..7 {
                let mut f = e;
                f[56] |= 1 << b;
                v.push(("low_order_spare_bit", f));
            }
        }
        v
    })
}
pub fn crafted() -> &'static Vec<(bool, usize, [u8; 57])> {
    static V: OnceLock<Vec<(bool, usize, [u8; 57])>> = OnceLock::new();
    V.get_or_init(|| {
        include_str!("../vectors/crafted.txt")
            .lines()
            .filter(|l| !l.starts_with('#') && !l.is_empty())
            .map(|l| {
                let f: Vec<&str> = l.split_whitespace().collect();
                (f[0] == "on", f[1].parse().unwrap(), crate::mon::unhex(f[2]).try_into().unwrap())
            })
            .collect()
    })
}
/// random encoding-shaped string steered to y patterns in 28-bit limbs
pub fn encoding(r: &mut Rng) -> [u8; 57] {
    let mut e = [0u8; 57];
    match r.below(6) {
        0 => {
            let l = limbs(r, (1 << 28) - 1);
            // raw 448-bit little-endian packing, possibly >= p
            let mut acc: u128 = 0;
            let mut n = 0;
            let mut k = 0;
            for x in l {
                acc |= (x as u128) << n;
                n += 28;
                while n >= 8 && k < 56 {
                    e[k] = acc as u8;
                    acc >>= 8;
                    n -= 8;
                    k += 1;
                }
            }
        }
        1 => {
            e[..56].copy_from_slice(&bytes57(r, &Dict::default())[..56]);
        }
        2 => e = r.pick(special_encodings()).1,
        3 => e = r.pick(crafted()).2,
        4 => {
            e = o::base_mul(&scalar(r)).encode();
            if r.one_in(2) {
                e = o::decode(&e).expect("oracle point").add(r.pick(&o::torsion())).encode();
            }
        }
        _ => {
            r.fill(&mut e[..56]);
        }
    }
    match r.below(5) {
        0 => e[56] ^= 0x80,
        1 => e[56] = *r.pick(&[0u8, 0x80]),
        2 if r.one_in(3) => e[56] ^= 1 << r.below(8),
        _ => {}
    }
    e
}

// ------------------------------------------------------------- triples
#[derive(Clone)]
pub struct Triple {
    pub class: &'static str,
    pub pk: Vec<u8>,
    pub sig: Vec<u8>,
    pub msg: Vec<u8>,
}
pub fn assemble(r_enc: &[u8; 57], s: &[u8; 57]) -> Vec<u8> {
    let mut v = r_enc.to_vec();
    v.extend_from_slice(s);
    v
}
/// sign over arbitrary (possibly non-standard) encodings: S = r + H(R,A,m) a
pub fn mal_sign(a: &Sc, a_enc: &[u8], rr: &Sc, r_enc: &[u8; 57], m: &[u8]) -> Vec<u8> {
    let k = o::challenge(r_enc, a_enc, m);
    let s = o::s_add(rr, &o::s_mul(&k, a));
    assemble(r_enc, &o::s_to_bytes(&s))
}
pub fn honest(r: &mut Rng, d: &Dict) -> (Sc, Triple) {
    let k = key(r, d);
    let m = msg(r, d);
    let a = if o::is_secret(&k) { o::clamped_scalar(&k) } else { o::clamped_scalar(&o::expand(&k).0) };
    (a, Triple { class: "honest", pk: o::derive(&k).to_vec(), sig: o::sign(&k, &m).to_vec(), msg: m })
}
pub const TRIPLE_CLASSES: usize = 46;
pub fn triple(r: &mut Rng, d: &Dict) -> Triple {
    let c = r.below(TRIPLE_CLASSES);
    triple_of(r, d, c)
}
pub fn triple_of(r: &mut Rng, d: &Dict, which: usize) -> Triple {
    let m0 = {
        let mut m = msg(r, d);
        m.truncate(4096);
        m
    };
    let tors = o::torsion();
    let t = |class, pk: &[u8], sig: Vec<u8>, m: Vec<u8>| Triple { class, pk: pk.to_vec(), sig, msg: m };
    match which {
        0..=3 => honest(r, d).1,
        4 => {
            let (_, mut x) = honest(r, d);
            let b = r.below(912);
            x.sig[b / 8] ^= 1 << (b % 8);
            x.class = "sig_bit_flipped";
            x
        }
        5 => {
            let (_, mut x) = honest(r, d);
            let b = r.below(456);
            x.pk[b / 8] ^= 1 << (b % 8);
            x.class = "key_bit_flipped";
            x
        }
        6 => {
            let (_, mut x) = honest(r, d);
            if x.msg.is_empty() {
                x.msg.push(0);
            } else {
                let b = r.below(x.msg.len() * 8);
                x.msg[b / 8] ^= 1 << (b % 8);
            }
            x.class = "msg_bit_flipped";
            x
        }
        7 => {
            let (_, mut x) = honest(r, d);
            match r.below(5) {
                0 => x.msg.push(0),
                1 => {
                    x.msg.pop();
                }
                2 => x.msg.insert(0, 0),
                3 => x.msg.reverse(),
                _ => {
                    let e = r.vec(5);
                    x.msg.extend(e);
                }
            }
            x.class = "msg_edited";
            x
        }
        8 | 9 => {
            let (_, mut x) = honest(r, d);
            let s: [u8; 57] = x.sig[57..].try_into().expect("57");
            let k = if r.one_in(2) { 1 + r.below(4) as u64 } else { 1 + r.below(1000) as u64 };
            if let Some(b) = o::s_plus_kl(&o::s_from_bytes(&s), k) {
                x.sig[57..].copy_from_slice(&b);
            }
            x.class = "s_plus_multiple_of_order";
            x
        }
        10 => {
            // R with torsion, challenge recomputed: valid under the cofactored equation
            let (a, rr) = (scalar(r), scalar(r));
            let pk = o::base_mul(&a).encode();
            let re = o::base_mul(&rr).add(&tors[r.range(1, 3)]).encode();
            t("commitment_plus_torsion_resigned", &pk, mal_sign(&a, &pk, &rr, &re, &m0), m0)
        }
        11 => {
            let (a, rr) = (scalar(r), scalar(r));
            let pk = o::base_mul(&a).add(&tors[r.range(1, 3)]).encode();
            let re = o::base_mul(&rr).encode();
            t("key_plus_torsion_resigned", &pk, mal_sign(&a, &pk, &rr, &re, &m0), m0)
        }
        12 => {
            let (a, rr) = (scalar(r), scalar(r));
            let pk = o::base_mul(&a).add(&tors[r.range(1, 3)]).encode();
            let re = o::base_mul(&rr).add(&tors[r.range(1, 3)]).encode();
            t("both_plus_torsion_resigned", &pk, mal_sign(&a, &pk, &rr, &re, &m0), m0)
        }
        13 | 14 => {
            // low-order key: any S with R = S B is valid
            let s = scalar(r);
            let pk = tors[r.below(4)].encode();
            let mut rp = o::base_mul(&s);
            if r.one_in(3) {
                rp = rp.add(&tors[r.below(4)]);
            }
            let re = rp.encode();
            t("low_order_key_any_s", &pk, assemble(&re, &o::s_to_bytes(&s)), m0)
        }
        15 => {
            // low order R and key
            let pk = tors[r.below(4)].encode();
            let re = tors[r.below(4)].encode();
            let s = if r.one_in(2) { o::s_from_bytes(&[0]) } else { scalar(r) };
            t("low_order_key_and_commitment", &pk, assemble(&re, &o::s_to_bytes(&s)), m0)
        }
        16 => {
            // r = 0 (+ torsion)
            let a = scalar(r);
            let pk = o::base_mul(&a).encode();
            let re = tors[r.below(4)].encode();
            t("low_order_commitment_resigned", &pk, mal_sign(&a, &pk, &o::s_from_bytes(&[0]), &re, &m0), m0)
        }
        17 => {
            // spare bits of byte 56 in the key, signature valid under lax decoding
            let (a, rr) = (scalar(r), scalar(r));
            let mut pk = o::base_mul(&a).encode();
            pk[56] |= 1 << r.below(7);
            let re = o::base_mul(&rr).encode();
            t("key_spare_bit_resigned", &pk, mal_sign(&a, &pk, &rr, &re, &m0), m0)
        }
        18 => {
            let (a, rr) = (scalar(r), scalar(r));
            let pk = o::base_mul(&a).encode();
            let mut re = o::base_mul(&rr).encode();
            re[56] |= 1 << r.below(7);
            t("commitment_spare_bit_resigned", &pk, mal_sign(&a, &pk, &rr, &re, &m0), m0)
        }
        19 | 20 => {
            // low-order encodings, canonical or not, as key; R = S B
            let lows: Vec<&(&str, [u8; 57])> = low_order_like();
            let pk = r.pick(&lows).1;
            let s = scalar(r);
            let re = o::base_mul(&s).encode();
            t("low_order_like_key", &pk, assemble(&re, &o::s_to_bytes(&s)), m0)
        }
        21 | 22 => {
            // low-order encodings, canonical or not, as R with S = k a
            let lows = low_order_like();
            let re = r.pick(&lows).1;
            let a = scalar(r);
            let pk = o::base_mul(&a).encode();
            t("low_order_like_commitment", &pk, mal_sign(&a, &pk, &o::s_from_bytes(&[0]), &re, &m0), m0)
        }
        23 => {
            // -R, challenge consistent
            let (a, rr) = (scalar(r), scalar(r));
            let pk = o::base_mul(&a).encode();
            let re = o::base_mul(&rr).neg().encode();
            t("negated_commitment", &pk, mal_sign(&a, &pk, &rr, &re, &m0), m0)
        }
        24 => {
            let (a, rr) = (scalar(r), scalar(r));
            let pk = o::base_mul(&a).neg().encode();
            let re = o::base_mul(&rr).encode();
            t("negated_key", &pk, mal_sign(&a, &pk, &rr, &re, &m0), m0)
        }
        25 => {
            // off by a small multiple in the equation
            let (a, rr) = (scalar(r), scalar(r));
            let pk = o::base_mul(&a).encode();
            let re = o::base_mul(&rr).encode();
            let mut sig = mal_sign(&a, &pk, &rr, &re, &m0);
            let s = o::s_from_bytes(&sig[57..]);
            let delta = scalar(r);
            let s2 = match r.below(6) {
                0 => o::s_add(&s, &o::s_from_bytes(&[1 + r.below(4) as u8])),
                1 => o::s_sub(&s, &o::s_from_bytes(&[1 + r.below(4) as u8])),
                2 => o::s_neg(&s),
                3 => o::s_add(&s, &a),
                4 => o::s_half(&s),
                _ => o::s_add(&s, &delta),
            };
            sig[57..].copy_from_slice(&o::s_to_bytes(&s2));
            t("s_near_miss", &pk, sig, m0)
        }
        26 => {
            // wrong domain separation / hash layout
            let (a, rr) = (scalar(r), scalar(r));
            let pk = o::base_mul(&a).encode();
            let re = o::base_mul(&rr).encode();
            let mut h = [0u8; 114];
            let mut h64 = [0u8; 64];
            o::shake256(&[&m0], &mut h64);
            match r.below(9) {
                0 => o::shake256(&[&re, &pk, &m0], &mut h),
                1 => o::shake256(&[b"SigEd448\x01\0", &re, &pk, &h64], &mut h),
                2 => o::shake256(&[b"SigEd448\0\x01x", &re, &pk, &m0], &mut h),
                3 => o::shake256(&[o::DOM, &pk, &re, &m0], &mut h),
                4 => o::shake256(&[o::DOM, &re, &m0], &mut h),
                5 => o::shake256(&[o::DOM, &pk, &m0], &mut h),
                6 => o::shake256(&[o::DOM, &re, &pk], &mut h),
                7 => o::shake256(&[o::DOM, &re, &pk, &h64], &mut h),
                _ => {
                    o::shake256(&[o::DOM, &re, &pk, &m0], &mut h);
                    h[113] ^= 1; // one challenge bit off
                }
            }
            let k = o::s_from_bytes(&h);
            let s = o::s_add(&rr, &o::s_mul(&k, &a));
            t("wrong_challenge_layout", &pk, assemble(&re, &o::s_to_bytes(&s)), m0)
        }
        27 => {
            let e = encoding(r);
            let (_, x) = honest(r, d);
            t("arbitrary_key_encoding", &e, x.sig, x.msg)
        }
        28 => {
            let e = encoding(r);
            let (_, mut x) = honest(r, d);
            x.sig[..57].copy_from_slice(&e);
            x.class = "arbitrary_commitment_encoding";
            x
        }
        29 => {
            // S extremes under a low-order key (decides the S range check alone)
            let pk = tors[0].encode();
            let s = scalar(r);
            let k = r.below(4) as u64;
            let b = o::s_plus_kl(&s, k).unwrap_or_else(|| o::s_to_bytes(&s));
            let re = o::base_mul(&s).encode();
            t("low_order_key_s_range", &pk, assemble(&re, &b), m0)
        }
        30 => {
            // S close to L on both sides, word by word
            let pk = tors[0].encode();
            let lw = o::s_words(&o::L);
            let mut w = lw;
            let i = r.below(14);
            w[i] = match r.below(3) {
                0 => w[i].wrapping_add(1),
                1 => w[i].wrapping_sub(1),
                _ => w[i] ^ 1 << r.below(32),
            };
            for x in w.iter_mut().take(if r.one_in(2) { i } else { 0 }) {
                *x = *r.pick(&WORDS);
            }
            let mut b = [0u8; 57];
            for i in 0..14 {
                b[4 * i..4 * i + 4].copy_from_slice(&w[i].to_le_bytes());
            }
            if r.one_in(4) {
                b[56] = 1 << r.below(8);
            }
            let re = o::base_mul(&o::s_from_bytes(&b)).encode();
            t("s_near_order", &pk, assemble(&re, &b), m0)
        }
        31 => {
            // zero key with an otherwise valid signature; zero signature
            let s = scalar(r);
            let re = o::base_mul(&s).encode();
            if r.one_in(2) {
                t("zero_key", &[0; 57], assemble(&re, &o::s_to_bytes(&s)), m0)
            } else {
                let pk = tors[r.below(4)].encode();
                t("zero_signature", &pk, vec![0; 114], m0)
            }
        }
        32 => {
            let (_, x) = honest(r, d);
            let (_, y) = honest(r, d);
            match r.below(4) {
                0 => t("mixed_parts", &y.pk, x.sig, x.msg),
                1 => t("mixed_parts", &x.pk, x.sig, y.msg),
                2 => t("mixed_parts", &x.pk, assemble(&x.sig[..57].try_into().expect("57"), &y.sig[57..].try_into().expect("57")), x.msg),
                _ => t("mixed_parts", &x.pk, assemble(&y.sig[..57].try_into().expect("57"), &x.sig[57..].try_into().expect("57")), x.msg),
            }
        }
        33 | 34 => {
            // small and extreme discrete logs on both sides
            let small = |r: &mut Rng| -> Sc {
                let v = o::s_from_bytes(&[r.below(20) as u8]);
                if r.one_in(2) {
                    o::s_neg(&v)
                } else {
                    v
                }
            };
            let (a, rr) = (small(r), small(r));
            let pk = o::base_mul(&a).encode();
            let re = o::base_mul(&rr).encode();
            t("tiny_discrete_logs", &pk, mal_sign(&a, &pk, &rr, &re, &m0), m0)
        }
        35 => {
            let (a, rr) = (scalar(r), scalar(r));
            let pk = o::base_mul(&a).encode();
            let re = o::base_mul(&rr).encode();
            t("structured_scalars_resigned", &pk, mal_sign(&a, &pk, &rr, &re, &m0), m0)
        }
        36 => {
            // key with torsion used against a signature for the clean key
            let (_, mut x) = honest(r, d);
            if let Some(p) = o::decode(&x.pk) {
                x.pk = p.add(&tors[r.range(1, 3)]).encode().to_vec();
            }
            x.class = "key_plus_torsion_not_resigned";
            x
        }
        37 => {
            let (_, mut x) = honest(r, d);
            if let Some(p) = o::decode(&x.sig[..57]) {
                let e = p.add(&tors[r.range(1, 3)]).encode();
                x.sig[..57].copy_from_slice(&e);
            }
            x.class = "commitment_plus_torsion_not_resigned";
            x
        }
        38 => {
            // wrong lengths
            let (_, mut x) = honest(r, d);
            match r.below(8) {
                0 => x.pk.truncate(r.below(57)),
                1 => {
                    let n = r.range(1, 120);
                    let e = r.vec(n);
                    x.pk.extend(e);
                }
                2 => x.sig.truncate(r.below(114)),
                3 => {
                    let n = r.range(1, 200);
                    let e = r.vec(n);
                    x.sig.extend(e);
                }
                4 => x.pk.clear(),
                5 => x.sig.clear(),
                6 => {
                    let p = x.pk.clone();
                    x.sig.extend(p);
                }
                _ => {
                    x.pk.push(0);
                    x.sig.push(0);
                }
            }
            x.class = "wrong_length";
            x
        }
        39 => {
            let n = r.below(130);
            let pk = r.vec(n);
            let n = r.below(260);
            let sig = r.vec(n);
            t("random_bytes", &pk, sig, m0)
        }
        40 => {
            let pk: [u8; 57] = bytes57(r, d);
            let mut sig = bytes57(r, d).to_vec();
            sig.extend(bytes57(r, d));
            t("structured_bytes", &pk, sig, m0)
        }
        41 => {
            // valid triple whose S has long zero / one runs, via low-order key offsets
            let s = scalar(r);
            let pk = tors[r.below(4)].encode();
            let re = o::base_mul(&s).encode();
            let mut sb = o::s_to_bytes(&s);
            if r.one_in(3) {
                let b = r.below(456);
                sb[b / 8] ^= 1 << (b % 8);
            }
            t("low_order_key_s_bit_flipped", &pk, assemble(&re, &sb), m0)
        }
        42 if !d.is_empty() => {
            // dictionary constants poked into each part; honest otherwise
            let (_, mut x) = honest(r, d);
            match r.below(3) {
                0 => dict_poke(r, d, &mut x.pk),
                1 => dict_poke(r, d, &mut x.sig),
                _ => dict_poke(r, d, &mut x.msg),
            }
            x.class = "dictionary_constants";
            x
        }
        43 => {
            // zero-padded or zero-suffixed lengths around the all-zero special case
            let n = r.below(60);
            let k = r.below(240);
            let mut pk = vec![0u8; n];
            let mut sig = vec![0u8; k];
            if r.one_in(2) {
                pk = vec![0; 57];
            }
            if r.one_in(2) {
                sig = vec![0; 114];
            }
            if r.one_in(2) && !sig.is_empty() {
                let i = r.below(sig.len());
                sig[i] = 1 << r.below(8);
            }
            if r.one_in(3) && !pk.is_empty() {
                let i = r.below(pk.len());
                pk[i] = 1 << r.below(8);
            }
            t("zeros", &pk, sig, m0)
        }
        44 => {
            // commitment, key and message tied to each other; all valid
            let a = scalar(r);
            let rr = match r.below(8) {
                0 | 1 => a,
                2 => o::s_neg(&a),
                3 => o::s_add(&a, &a),
                4 => o::s_half(&a),
                5 => o::s_half(&o::s_half(&a)),
                6 => o::s_mul(&a, &a),
                _ => o::s_add(&a, &o::s_from_bytes(&[1])),
            };
            let pk = o::base_mul(&a).encode();
            let re = o::base_mul(&rr).encode();
            let m = match r.below(7) {
                0 => pk.to_vec(),
                1 => re.to_vec(),
                2 => [re, pk].concat(),
                3 => mal_sign(&a, &pk, &rr, &re, b""),
                4 => o::s_to_bytes(&a).to_vec(),
                5 => vec![],
                _ => m0,
            };
            t("tied_parts_resigned", &pk, mal_sign(&a, &pk, &rr, &re, &m), m)
        }
        45 => {
            // parts of one valid triple in each other's places
            let (_, x) = honest(r, d);
            let (re, s): ([u8; 57], [u8; 57]) = (x.sig[..57].try_into().expect("57"), x.sig[57..].try_into().expect("57"));
            let pk: [u8; 57] = x.pk[..].try_into().expect("57");
            let (pk2, sig, m) = match r.below(9) {
                0 => (pk, assemble(&pk, &s), x.msg),
                1 => (re, x.sig, x.msg),
                2 => (pk, assemble(&s, &re), x.msg),
                3 => (pk, assemble(&re, &re), x.msg),
                4 => (pk, assemble(&s, &s), x.msg),
                5 => (re, assemble(&pk, &s), x.msg),
                6 => (s, x.sig, x.msg),
                7 => (pk, x.sig.clone(), x.sig),
                _ => (pk, x.sig, pk.to_vec()),
            };
            t("parts_in_other_places", &pk2, sig, m)
        }
        _ => {
            let (a, rr) = (scalar(r), scalar(r));
            let pk = o::base_mul(&a).encode();
            let re = o::base_mul(&rr).encode();
            t("structured_scalars_resigned", &pk, mal_sign(&a, &pk, &rr, &re, &m0), m0)
        }
    }
}
/// encodings that a lax decoder would map to a low-order point
pub fn low_order_like() -> Vec<&'static (&'static str, [u8; 57])> {
    static IDX: OnceLock<Vec<usize>> = OnceLock::new();
    let v = special_encodings();
    IDX.get_or_init(|| {
        let mut keep = vec![];
        for (i, (tag, e)) in v.iter().enumerate() {
            if tag.starts_with("low_order") {
                keep.push(i);
                continue;
            }
            // y reduced mod p in {0, 1, -1}
            let y = o::f_reduce_wide(&o::f_from_bytes(&e[..56]));
            if y == o::ZERO || y == o::ONE || y == o::f_neg(&o::ONE) {
                keep.push(i);
            }
        }
        keep
    })
    .iter()
    .map(|i| &v[*i])
    .collect()
}
pub fn prime_component(p: &Pt) -> Pt {
    // (1/4 mod L) * 4 P
    let q = o::s_half(&o::s_half(&o::s_from_bytes(&[1])));
    p.mul4().mul(&q)
}

// ------------------------------------------------------------------- texts
/// families of different messages that some normalisation would identify
pub fn families() -> Vec<Vec<Vec<u8>>> {
    const AFFIX: [&[u8]; 24] = [
        b"", b"\n", b"\n\n", b"\r\n", b"\r", b" ", b"  ", b"\t", b"\0", b"\0\0", b"\0\0\0\0\0\0\0\0", b"=", b"==", b".", b"\x1a", b"\x80", b"\xff", b"\xef\xbb\xbf", b"0x", b"\x01", b"\x7f", b"\x1f",
        b"\x06", b"0",
    ];
    let b32: Vec<u8> = (0..32u32).map(|i| (i * 73 + 19) as u8).collect();
    let b64: Vec<u8> = (0..64u32).map(|i| (i * 37 + 101) as u8).collect();
    let bases: Vec<Vec<u8>> = vec![
        vec![],
        b"a".to_vec(),
        b"text".to_vec(),
        b"Hello, World".to_vec(),
        b32.clone(),
        b64,
        b"SigEd448".to_vec(),
        crate::mon::hex(&b32).into_bytes(),
        b"{\"a\":1}".to_vec(),
        vec![b'x'; 200],
    ];
    let mut out: Vec<Vec<Vec<u8>>> = vec![];
    for b in &bases {
        out.push(AFFIX.iter().map(|s| [b.as_slice(), s].concat()).collect());
        out.push(AFFIX.iter().map(|s| [s, b.as_slice()].concat()).collect());
    }
    // cut at or freed of zero bytes, lossy decoding, stripped high bits
    out.push([&b"a\0b"[..], b"a\0c", b"a", b"a\0", b"ab", b"\0ab", b"a\0\0b", b"b\0a"].iter().map(|x| x.to_vec()).collect());
    out.push([&b"a\xffb"[..], b"a\xfeb", b"a\xef\xbf\xbdb", b"a\x7fb", b"ab", b"a?b", b"a\xc3\xbfb"].iter().map(|x| x.to_vec()).collect());
    out.push(["caf\u{e9}", "cafe\u{301}", "CAF\u{c9}", "cafe", "caf?"].iter().map(|x| x.as_bytes().to_vec()).collect());
    out.push(vec![b"caf\xe9".to_vec(), "caf\u{e9}".as_bytes().to_vec()]);
    // transformations
    for t in [&b"Hello World\nline two\r\nline 3 \t end\n"[..], b"  Transfer 100 to Bob ", &b32, b"00ff", b"AbCdEf0123456789"] {
        let t = t.to_vec();
        let mut f = vec![t.clone(), t.to_ascii_uppercase(), t.to_ascii_lowercase()];
        let s: Vec<u8> = t.iter().copied().filter(|b| *b != b'\r').collect();
        f.push(s.clone());
        f.push(s.split(|b| *b == b'\n').map(|l| l.to_vec()).collect::<Vec<_>>().join(&b"\r\n"[..]));
        f.push(t.iter().copied().filter(|b| !b.is_ascii_whitespace()).collect());
        f.push(t.trim_ascii().to_vec());
        f.push(t.trim_ascii_end().to_vec());
        f.push(t.trim_ascii_start().to_vec());
        f.push(t.split(|b| b.is_ascii_whitespace()).filter(|x| !x.is_empty()).map(|l| l.to_vec()).collect::<Vec<_>>().join(&b" "[..]));
        f.push(t.iter().rev().copied().collect());
        f.push([t.clone(), t.clone()].concat());
        f.push(crate::mon::hex(&t).into_bytes());
        f.push(crate::mon::hex(&t).to_uppercase().into_bytes());
        f.push([b"SigEd448\0\0", t.as_slice()].concat());
        f.push([b"\x19Ethereum Signed Message:\n32", t.as_slice()].concat());
        f.push([&(t.len() as u32).to_le_bytes(), t.as_slice()].concat());
        f.push([&[t.len() as u8], t.as_slice()].concat());
        for n in [32, 57, 64, 114] {
            let mut d = vec![0u8; n];
            crate::oracle::shake256(&[&t], &mut d);
            f.push(d);
        }
        f.push(t.chunks(2).flat_map(|c| c.iter().rev().copied().collect::<Vec<_>>()).collect());
        f.push(t.chunks(4).flat_map(|c| c.iter().rev().copied().collect::<Vec<_>>()).collect());
        f.push([&t[t.len() / 2..], &t[..t.len() / 2]].concat());
        let mut s = t.clone();
        s.sort();
        f.push(s.clone());
        s.dedup();
        f.push(s);
        f.push(t.iter().map(|b| b & 0x7f).collect());
        f.push(t.iter().map(|b| !b).collect());
        f.push(t.iter().map(|b| if b.is_ascii_alphabetic() { b ^ 0x20 } else { *b }).collect());
        out.push(f);
    }
    for f in out.iter_mut() {
        let mut seen = std::collections::HashSet::new();
        f.retain(|m| seen.insert(m.clone()));
    }
    out
}
/// every family member once
pub fn contents() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = families().into_iter().flatten().collect();
    v.sort();
    v.dedup();
    v
}
/// messages made of the signer's own data: nothing may treat them specially
pub fn tied_messages(k: &[u8; 57]) -> Vec<Vec<u8>> {
    let a = o::derive(k);
    let (sk, pre) = o::expand(k);
    let mut cl = *k;
    o::clamp(&mut cl);
    let sig = o::sign(k, b"");
    let cat = |p: &[&[u8]]| p.concat();
    let hx = |b: &[u8]| crate::mon::hex(b).into_bytes();
    let mut h64 = [0u8; 64];
    o::shake256(&[k], &mut h64);
    let mut rk = *k;
    rk.reverse();
    vec![
        k.to_vec(),
        a.to_vec(),
        cl.to_vec(),
        sk.to_vec(),
        pre.to_vec(),
        rk.to_vec(),
        k[..56].to_vec(),
        a[..56].to_vec(),
        a[..32].to_vec(),
        sig.to_vec(),
        sig[..57].to_vec(),
        sig[57..].to_vec(),
        cat(&[&sig, &a]),
        cat(&[&a, &sig]),
        cat(&[&sig[..57], &a]),
        cat(&[&a, &a]),
        cat(&[&a, b"m"]),
        cat(&[b"m", &a]),
        cat(&[k, b"m"]),
        cat(&[b"m", k]),
        cat(&[k, &a]),
        cat(&[&pre, b"m"]),
        cat(&[o::DOM, &pre]),
        cat(&[o::DOM, &sig[..57], &a]),
        cat(&[o::DOM, &a, b"m"]),
        cat(&[b"SigEd448\x01\0", &h64]),
        h64.to_vec(),
        hx(k),
        hx(&a),
        hx(&sig),
        hx(&a).to_ascii_uppercase(),
        vec![a[0]; 57],
        vec![k[56]],
        vec![a[56]],
        vec![0; 57],
        vec![0xff; 57],
        vec![0; 114],
        vec![0; 171],
    ]
}
/// nonce seeds related to the secret they are used with
pub fn tied_seeds(k: &[u8; 57], r: &mut Rng) -> Vec<[u8; 57]> {
    let mut v: Vec<[u8; 57]> = vec![*k, o::pub_of_secret(k), o::expand(k).0, o::expand(k).1, [0; 57], [0xff; 57]];
    let mut x = *k;
    o::clamp(&mut x);
    v.push(x);
    for b in [0x80u8, 0x40, 0x01] {
        let mut x = *k;
        x[56] ^= b;
        v.push(x);
        x[0] ^= b;
        v.push(x);
    }
    let mut x = *k;
    x.reverse();
    v.push(x);
    let mut x = *k;
    x.iter_mut().for_each(|b| *b = !*b);
    v.push(x);
    // equal in a prefix or a suffix only
    for n in [1usize, 8, 16, 28, 32, 48, 55, 56] {
        let mut x = *k;
        r.fill(&mut x[n..]);
        v.push(x);
        let mut x = *k;
        r.fill(&mut x[..n]);
        v.push(x);
    }
    v
}
/// signatures in which some quantity (key, commitment, response, challenge,
/// nonce, secret) has a pattern that is rarer than random sampling reaches;
/// found by a long search (tools/rare)
pub type Rare = (&'static str, [u8; 57], Vec<u8>);
pub fn rare() -> &'static Vec<Rare> {
    static V: OnceLock<Vec<Rare>> = OnceLock::new();
    V.get_or_init(|| {
        include_str!("../vectors/rare.txt")
            .lines()
            .filter(|l| !l.starts_with('#') && !l.is_empty())
            .map(|l| {
                let f: Vec<&str> = l.split_whitespace().collect();
                let name: &'static str = Box::leak(format!("rare_{}_{}", f[0], f[1]).into_boxed_str());
                (name, crate::mon::unhex(f[3]).try_into().unwrap(), f[4].parse::<u32>().unwrap().to_le_bytes().to_vec())
            })
            .collect()
    })
}
/// strings that contain the hex digits `h` of something but are not plain hex
/// of that length
pub fn decorated(h: &str) -> Vec<String> {
    let n = h.len();
    let mut v: Vec<String> = vec![];
    let join = |k: usize, sep: &str| h.as_bytes().chunks(k).map(|c| std::str::from_utf8(c).expect("ascii")).collect::<Vec<_>>().join(sep);
    let mut seps: Vec<String> = (0..128u8).filter(|b| !b.is_ascii_hexdigit()).map(|b| (b as char).to_string()).collect();
    for s in ["0x", "0X", "\\x", "x'", "#", "hex:", "&h", "%", ", ", " 0x", ",0x", "\r\n", "\u{a0}", "\u{2003}", "\u{200b}", "\u{feff}", "é", "\u{ff10}", "::", "--", "=="] {
        seps.push(s.to_string());
    }
    for s in &seps {
        v.push(format!("{}{}", s, h));
        v.push(format!("{}{}", h, s));
        v.push(format!("{}{}{}", s, h, s));
        for k in [1, 2, 4, 8, 16, 32, n / 2] {
            v.push(join(k, s));
        }
        v.push(format!("{}{}", s, join(2, s)));
        v.push(format!("{}{}", join(2, s), s));
        v.push(format!("{}{}{}", &h[..1], s, &h[1..]));
    }
    for (a, b) in [("{", "}"), ("[", "]"), ("(", ")"), ("<", ">"), ("\"", "\""), ("'", "'"), ("b\"", "\""), ("x\"", "\""), ("0x", "h"), ("", "h"), ("", "L"), ("\u{201c}", "\u{201d}")] {
        v.push(format!("{}{}{}", a, h, b));
    }
    v.push(h.chars().map(|c| if c.is_ascii_digit() { char::from_u32(c as u32 - 0x30 + 0xff10).expect("digit") } else { c }).collect());
    // the same ones cut to the right length: in characters, and in bytes
    let cut: Vec<String> = v
        .iter()
        .flat_map(|s| {
            let a: String = s.chars().take(n).collect();
            let r: String = s.chars().rev().take(n).collect::<Vec<_>>().into_iter().rev().collect();
            [a, r]
        })
        .collect();
    v.extend(cut);
    v.retain(|s| s.len() != n || !s.bytes().all(|b| b.is_ascii_hexdigit()));
    v.sort();
    v.dedup();
    v
}
