//! History properties: nonce uniqueness (C12), purity over histories and
//! threads (C13), build-profile equality and memory growth (C15), key
//! generation (C16).
use crate::deep;
use crate::gen;
use crate::mon::{fnv, guarded, hex, show, unhex, Case, Mon, Plan::*, Rng};
use crate::oracle as o;
use crate::props::{any_reference, len_cases, StreamRng};
use libgoldilocks::goldilocks as g;
use libgoldilocks::{PrehashSigner, SigningKey, VerifyingKey};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

// ------------------------------------------------------------------ C12
struct Nonces {
    seen: Vec<Mutex<HashMap<[u8; 57], (u64, String)>>>,
    bits: Vec<AtomicU64>,
    n: AtomicU64,
    rs: Mutex<HashSet<o::Sc>>,
}
impl Nonces {
    fn new() -> Self {
        Nonces { seen: (0..64).map(|_| Mutex::new(HashMap::new())).collect(), bits: (0..446).map(|_| AtomicU64::new(0)).collect(), n: AtomicU64::new(0), rs: Mutex::new(HashSet::new()) }
    }
    /// one signature observed; `id` identifies what the nonce must depend on
    fn observe(&self, c: &mut Case, id: &[&[u8]], m: &[u8], sig: &[u8; 114], desc: String) {
        let re: [u8; 57] = sig[..57].try_into().expect("57");
        let mut h = 0u64;
        for p in id {
            h = h.rotate_left(21) ^ fnv(p);
        }
        h = h.rotate_left(21) ^ fnv(m) ^ (m.len() as u64) << 40;
        let mut t = self.seen[re[3] as usize % 64].lock().unwrap();
        match t.get(&re) {
            Some((h0, d0)) if *h0 != h => {
                let d0 = d0.clone();
                drop(t);
                c.fail("two different (key, message) pairs share a nonce commitment", &[("first", d0), ("second", desc), ("commitment", hex(&re))]);
            }
            Some(_) => c.class("repeat_of_same_pair"),
            None => {
                if t.len() < 60_000 {
                    t.insert(re, (h, desc));
                }
            }
        }
    }
    /// the nonce itself, recovered from S with the known secret scalar
    fn recover(&self, c: &mut Case, a: &o::Sc, pk: &[u8; 57], m: &[u8], sig: &[u8; 114], k: &[u8]) {
        let s = o::s_from_bytes(&sig[57..]);
        let ch = o::challenge(&sig[..57], pk, m);
        let r = o::s_sub(&s, &o::s_mul(&ch, a));
        if r == [0u64; 7] {
            c.fail("the nonce is zero", &[("key", hex(k)), ("message", show(m)), ("signature", hex(sig))]);
        }
        for (i, b) in self.bits.iter().enumerate() {
            if r[i / 64] >> (i % 64) & 1 == 1 {
                b.fetch_add(1, Relaxed);
            }
        }
        self.n.fetch_add(1, Relaxed);
        c.class("nonce_recovered");
    }
}
fn scalar_of(k: &[u8; 57]) -> o::Sc {
    if o::is_secret(k) {
        o::clamped_scalar(k)
    } else {
        o::clamped_scalar(&o::expand(k).0)
    }
}
/// what the nonce of a key depends on: the seed, or the clamped raw secret
fn effective(k: &[u8; 57]) -> [u8; 58] {
    let mut e = [0u8; 58];
    let mut x = *k;
    if o::is_secret(k) {
        o::clamp(&mut x);
        e[57] = 1;
    }
    e[..57].copy_from_slice(&x);
    e
}
fn c12_sign(c: &mut Case, n: &Nonces, k: &[u8; 57], m: &[u8], full: bool) -> Option<[u8; 114]> {
    let i: [(&str, &[u8]); 2] = [("key", k), ("message", m)];
    let s = c.lib("signing", &i, || g::ed448_sign(k, m))?;
    c.checked(&[k, m]);
    n.observe(c, &[&effective(k)], m, &s, format!("key {} message {}", hex(k), show(m)));
    if full {
        let (pk, want) = any_reference(k, m);
        if s[..57] != want[..57] {
            c.fail("nonce commitment is not the one RFC 8032 prescribes", &[("key", hex(k)), ("message", hex(m)), ("got", hex(&s[..57])), ("expected", hex(&want[..57]))]);
        }
        n.recover(c, &scalar_of(k), &pk, m, &s, k);
    }
    Some(s)
}
fn related(r: &mut Rng, m: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![m.to_vec()];
    let mut push = |x: Vec<u8>| v.push(x);
    for t in [0u8, 0x80, 0xff, 0x1f] {
        let mut x = m.to_vec();
        x.push(t);
        push(x);
    }
    let mut x = vec![0u8];
    x.extend(m);
    push(x);
    if !m.is_empty() {
        let n = m.len();
        push(m[..n - 1].to_vec());
        push(m[1..].to_vec());
        for p in [0, n / 2, n - 1, r.below(n), r.below(n)] {
            let mut x = m.to_vec();
            x[p] ^= 1 << r.below(8);
            push(x);
        }
        let mut x = m.to_vec();
        x.extend(m);
        push(x);
        let mut x = m.to_vec();
        x.reverse();
        push(x);
        let mut x = m.to_vec();
        x.rotate_left(1);
        push(x);
    }
    v.sort();
    v.dedup();
    v
}
pub fn c12(mon: &Mon) {
    let n = Nonces::new();
    let n = &n;
    mon.stage("every_position", All(60), |c| {
        // one key, one message length, a flip in every byte position
        const LENS: [usize; 10] = [1, 8, 32, 64, 68, 69, 70, 136, 205, 300];
        let len = LENS[c.idx as usize % 10];
        let mut r = Rng::new(&[c.mon.seed, 0xc12, c.idx / 10, len as u64]);
        let k = if (c.idx / 10) % 2 == 0 { gen::seed_key(&mut r, &c.mon.dict) } else { gen::raw_key(&mut r, &c.mon.dict) };
        let m = r.vec(len);
        c12_sign(c, n, &k, &m, true);
        for p in 0..len {
            let mut x = m.clone();
            x[p] ^= 1 << (p % 8);
            c12_sign(c, n, &k, &x, false);
            if c.failed() {
                return;
            }
        }
    });
    let lens = len_cases(mon);
    mon.stage("message_lengths", All(lens.len() as u64), |c| {
        let len = lens[lens.len() - 1 - c.idx as usize];
        let k = gen::key(&mut c.rng, &c.mon.dict);
        let m = gen::fill_msg(&mut c.rng, &c.mon.dict, len);
        let a = c12_sign(c, n, &k, &m, true);
        let b = c12_sign(c, n, &k, &m, false);
        if a != b {
            c.fail("signing the same message twice gives different bytes", &[("key", hex(&k)), ("message", hex(&m))]);
        }
        if len > 0 {
            let mut x = m.clone();
            x[len - 1] ^= 1;
            c12_sign(c, n, &k, &x, false);
            let mut x = m.clone();
            let p = c.rng.below(len);
            x[p] ^= 0x10;
            c12_sign(c, n, &k, &x, false);
        }
        let mut x = m;
        x.push(0);
        c12_sign(c, n, &k, &x, false);
    });
    mon.stage("tied_messages", All(32), |c| {
        let k = gen::key(&mut c.rng, &c.mon.dict);
        for m in gen::tied_messages(&k) {
            c12_sign(c, n, &k, &m, true);
        }
    });
    let rare = gen::rare();
    mon.stage("rare_values", All(rare.len() as u64), |c| {
        let (name, k, m) = &rare[c.idx as usize];
        c.class(name);
        c12_sign(c, n, k, m, true);
    });
    let fams = gen::families();
    mon.stage("normalised_messages", All(fams.len() as u64 * 2), |c| {
        let k = if c.idx % 2 == 0 { gen::seed_key(&mut c.rng, &c.mon.dict) } else { gen::raw_key(&mut c.rng, &c.mon.dict) };
        for m in &fams[c.idx as usize / 2] {
            c12_sign(c, n, &k, m, true);
            if c.failed() {
                return;
            }
        }
    });
    mon.stage("related_messages", Share(5.0, 16), |c| {
        let k = gen::key(&mut c.rng, &c.mon.dict);
        let m = gen::msg(&mut c.rng, &c.mon.dict);
        let fam = related(&mut c.rng, &m);
        let mut first = None;
        for x in &fam {
            let full = c.rng.one_in(2);
            let s = c12_sign(c, n, &k, x, full);
            if x == &m {
                first = s;
            }
        }
        // again, after the whole family
        let again = c12_sign(c, n, &k, &m, false);
        if again != first {
            c.fail("signing the same message again gives different bytes", &[("key", hex(&k)), ("message", hex(&m))]);
        }
        c.class("family");
        let sz = fam.len();
        c.sample(|| serde_json::json!({"key": hex(&k), "base_message": show(&m), "related_messages_signed": sz, "commitment": first.map(|s| hex(&s[..57]))}));
    });
    mon.stage("related_keys", Share(3.0, 16), |c| {
        let k = gen::key(&mut c.rng, &c.mon.dict);
        let mut m = gen::msg(&mut c.rng, &c.mon.dict);
        m.truncate(2000);
        c12_sign(c, n, &k, &m, true);
        for _ in 0..8 {
            let mut x = k;
            let b = c.rng.below(456);
            x[b / 8] ^= 1 << (b % 8);
            c12_sign(c, n, &x, &m, false);
        }
    });
    mon.stage("explicit_nonces", Share(3.0, 16), |c| {
        let s = gen::bytes57(&mut c.rng, &c.mon.dict);
        let nn: [u8; 57] = gen::bytes57(&mut c.rng, &c.mon.dict);
        let mut m = gen::msg(&mut c.rng, &c.mon.dict);
        m.truncate(2000);
        let go = |c: &mut Case, s: &[u8; 57], nn: &[u8; 57], m: &[u8]| {
            let i: [(&str, &[u8]); 3] = [("secret", s), ("nonce seed", nn), ("message", m)];
            if let Some(sig) = c.lib("explicit-nonce signing", &i, || g::sign_with_secret_and_nonce(s, nn, m)) {
                c.checked(&[s, nn, m]);
                c.class("explicit");
                n.observe(c, &[nn, b"explicit"], m, &sig, format!("nonce seed {} message {}", hex(nn), show(m)));
                let want = o::sign_secret_nonce(s, nn, m);
                if sig[..57] != want[..57] {
                    c.fail("nonce commitment is not the hash of nonce seed and message", &[("secret", hex(s)), ("nonce seed", hex(nn)), ("message", hex(m)), ("got", hex(&sig[..57])), ("expected", hex(&want[..57]))]);
                }
            }
        };
        // a raw key signs with its clamped secret as nonce seed: keep the ids apart
        let mut cl = nn;
        o::clamp(&mut cl);
        if cl == nn {
            return;
        }
        go(c, &s, &nn, &m);
        for _ in 0..3 {
            let mut x = nn;
            let b = c.rng.below(456);
            x[b / 8] ^= 1 << (b % 8);
            let mut cl = x;
            o::clamp(&mut cl);
            if cl != x {
                go(c, &s, &x, &m);
            }
        }
        let mut x = m.clone();
        x.push(0);
        go(c, &s, &nn, &x);
    });
    deep::scalar_stage(mon, 0.5);
    if mon.plan_only || mon.only_stage.is_some() {
        return;
    }
    let total = n.n.load(Relaxed);
    let mut worst = 0f64;
    for i in 0..440 {
        let k = n.bits[i].load(Relaxed) as f64;
        let z = if total > 0 { (2.0 * k - total as f64) / (total as f64).sqrt() } else { 0.0 };
        if z.abs() > worst {
            worst = z.abs();
        }
        if total >= 2000 && z.abs() > 8.0 {
            mon.fail("nonce_bias", i as u64, format!("bit {} of the nonce is biased: set in {} of {} nonces (z = {:.1})", i, k, total, z), &[]);
        }
    }
    mon.fact("nonces_recovered", total.into());
    mon.fact("worst_bit_z_score", worst.into());
    let commits: usize = n.seen.iter().map(|s| s.lock().unwrap().len()).sum();
    mon.fact("distinct_commitments_recorded", commits.into());
    let _ = &n.rs;
}

// ------------------------------------------------------------------ operations as data
pub use crate::op::*;

/// a pool of operations on deliberately similar inputs
pub fn pool(seed: u64, dict: &gen::Dict, size: usize) -> Vec<Op> {
    let mut r = Rng::new(&[seed, 0xc13]);
    let mut v: Vec<Op> = vec![];
    let op = |kind: &'static str, a: &[u8], b: &[u8], m: &[u8]| Op { kind, a: a.to_vec(), b: b.to_vec(), m: m.to_vec() };
    let mut cluster = 0;
    while v.len() < size {
        let mut keys = vec![];
        let mut base = gen::key(&mut r, dict);
        base[56] = base[56] & 0x7f | (cluster as u8 & 1) << 7; // both forms in turn
        cluster += 1;
        keys.push(base);
        for p in [0usize, 1, 8, 31, 32, 55, 56] {
            if r.one_in(4) {
                let mut x = base;
                x[p] ^= 1 << r.below(8);
                keys.push(x);
            }
        }
        let mut x = base;
        x[56] ^= 0x80; // the same bytes in the other key form
        keys.push(x);
        let mut x = base;
        r.fill(&mut x[8..56]); // same ends
        keys.push(x);
        let m = {
            let mut m = gen::msg(&mut r, dict);
            m.truncate(400);
            // long ones too: buffers that are kept, chunked or handed to threads
            if cluster % 3 == 2 || r.one_in(8) {
                let n = *r.pick(&[900usize, 1100, 2100, 4200, 8300, 17_000, 33_000, 66_000]);
                let f = r.below(256) as u8;
                m.resize(n - r.below(200) as usize, f);
            }
            m
        };
        let mut msgs = vec![m.clone(), vec![]];
        let mut y = m.clone();
        y.push(0);
        msgs.push(y);
        if !m.is_empty() {
            let mut y = m.clone();
            let n = y.len();
            y[n - 1] ^= 1;
            msgs.push(y);
            let mut y = m.clone();
            y[0] ^= 1;
            msgs.push(y);
        }
        for k in &keys {
            let m1 = r.pick(&msgs).clone();
            let m2 = r.pick(&msgs).clone();
            v.push(op("derive", k, b"", b""));
            v.push(op("sign", k, b"", &m1));
            v.push(op("sign", k, b"", &m2));
            v.push(op("sign_private", k, b"", &m1));
            let n = r.pick(&keys).to_vec();
            v.push(op("sign_nonce", k, &n, &m1));
            v.push(op("to_secret", k, b"", b""));
            v.push(op("priv_pub", k, b"", b""));
            v.push(op("sec_pub", k, b"", b""));
            v.push(op("object", k, b"", &m1));
            v.push(op("object_hex", k, b"", &m2));
            v.push(op("from_bytes", k, b"", b""));
            v.push(op("from_bytes", &k[..r.below(57)], b"", b""));
            v.push(op("object", &k[..56], b"", &m1)); // refused by a panic
            v.push(op("hex_key", hex(k).as_bytes(), b"", b""));
            v.push(op("hex_key", hex(k)[1..].as_bytes(), b"", b""));
            v.push(op("serialize", k, b"", b""));
            v.push(op("deserialize", format!("\"{}\"", hex(k)).as_bytes(), b"", b""));
            v.push(op("deserialize", format!("\"{}zz\"", &hex(k)[2..]).as_bytes(), b"", b""));
            let (pk, sig) = any_reference(k, &m1);
            v.push(op("verify", &pk, &sig, &m1));
            v.push(op("verify_err", &pk, &sig, &m1));
            v.push(op("verify", &pk, &sig, &m2));
            let mut s2 = sig;
            s2[57 + r.below(56)] ^= 1 << r.below(8);
            v.push(op("verify", &pk, &s2, &m1));
            let mut s2 = sig;
            s2[r.below(57)] ^= 1 << r.below(8);
            v.push(op("verify_err", &pk, &s2, &m1));
            let mut p2 = pk;
            p2[r.below(57)] ^= 1 << r.below(8);
            v.push(op("verify", &p2, &sig, &m1));
            v.push(op("verify", &pk, &sig[..113], &m1));
            v.push(op("verify_err", &pk[..56], &sig, &m1));
            v.push(op("hex_sig", hex(&sig).as_bytes(), b"", b""));
            let mut sl = sig.to_vec();
            sl.extend(pk);
            v.push(op("verify", &pk, &sl, &m1));
            let t = gen::triple(&mut r, dict);
            v.push(op("verify", &t.pk, &t.sig, &t.msg));
            let h: [u8; 32] = r.bytes();
            v.push(op("hex_msg", hex(&h).as_bytes(), b"", b""));
        }
    }
    // keep whole clusters' structure but bound the size
    let mut out = vec![];
    let mut seen = HashSet::new();
    for o in v {
        if seen.insert(op_text(&o)) {
            out.push(o);
        }
        if out.len() >= size {
            break;
        }
    }
    out
}
/// result of each operation as the first and only call of a fresh process
fn isolated(ops: &[Op]) -> Vec<Option<Vec<u8>>> {
    let exe = std::env::current_exe().expect("exe");
    let out: Vec<Mutex<Option<Vec<u8>>>> = ops.iter().map(|_| Mutex::new(None)).collect();
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Relaxed) as usize;
                if i >= ops.len() {
                    break;
                }
                let o = std::process::Command::new(&exe)
                    .args(["--eval", "-"])
                    .stdin(std::process::Stdio::piped())
                    .stdout(std::process::Stdio::piped())
                    .stderr(std::process::Stdio::null())
                    .spawn()
                    .and_then(|mut k| {
                        use std::io::Write;
                        if let Some(mut i_) = k.stdin.take() {
                            let _ = i_.write_all(op_text(&ops[i]).as_bytes());
                        }
                        k.wait_with_output()
                    });
                if let Ok(o) = o {
                    let t = String::from_utf8_lossy(&o.stdout).trim().to_string();
                    if let Some(h) = t.strip_prefix("RESULT ") {
                        *out[i].lock().unwrap() = Some(if h == "-" { vec![] } else { unhex(h) });
                    }
                }
            });
        }
    });
    out.into_iter().map(|m| m.into_inner().unwrap()).collect()
}
fn c13_mismatch(mon: &Mon, stage: &str, idx: u64, op: &Op, got: &[u8], want: &[u8], before: &str) {
    // an isolated call again: if that one differs from the first isolated call
    // too, the operation is not even repeatable
    mon.fail(
        stage,
        idx,
        format!("{} gives another result in a history than in isolation", op.kind),
        &[("operation", op_text(op)), ("in isolation", hex(want)), ("in the history", hex(got)), ("previous operation", before.to_string())],
    );
}
/// byte strings of the same length that agree with x in part: at one end, in the
/// middle, in every n-th byte, in the sum or the exclusive or of the bytes, or as
/// a rearrangement
fn alike(x: &[u8], r: &mut Rng) -> Vec<Vec<u8>> {
    let n = x.len();
    let mut v: Vec<Vec<u8>> = vec![];
    for keep in [1usize, 2, 4, 8, 16, 24, 32, 48, 56, 64, 128, 1024] {
        if keep < n {
            let mut y = r.vec(n);
            y[..keep].copy_from_slice(&x[..keep]);
            v.push(y);
            let mut y = r.vec(n);
            y[n - keep..].copy_from_slice(&x[n - keep..]);
            v.push(y);
            if 2 * keep < n {
                let mut y = r.vec(n);
                y[..keep].copy_from_slice(&x[..keep]);
                y[n - keep..].copy_from_slice(&x[n - keep..]);
                v.push(y);
                let mut y = x.to_vec();
                r.fill(&mut y[..keep]);
                r.fill(&mut y[n - keep..]);
                v.push(y);
            }
        }
    }
    for step in [2usize, 3, 4, 8, 16, 57, 64, 256] {
        if step < n {
            let mut y = r.vec(n);
            for i in (0..n).step_by(step) {
                y[i] = x[i];
            }
            v.push(y);
        }
    }
    if n > 2 {
        let mut y = x.to_vec();
        y.reverse();
        v.push(y);
        let mut y = x.to_vec();
        y.rotate_left(1);
        v.push(y);
        for far in [0usize, 1, 4, 8, 16, 32, 64] {
            // the same place in another word, too
            let i = r.below(n - 1);
            let j = if far == 0 || n <= 2 * far { r.below(n - 1) } else { (i + far) % (n - n % far - 1) };
            let mut y = x.to_vec();
            y.swap(i, j);
            v.push(y);
            let mut y = x.to_vec();
            y[i] ^= 4;
            y[j] ^= 4;
            v.push(y);
            let mut y = x.to_vec();
            y[i] = y[i].wrapping_add(1);
            y[j] = y[j].wrapping_sub(1);
            v.push(y);
            let mut y = x.to_vec();
            y[i] ^= 1 << r.below(8);
            v.push(y);
        }
    }
    v.retain(|y| y != x);
    v
}
/// groups of operations on nearly equal arguments; all arguments live in the same
/// three buffers, rewritten in place from call to call: results must follow the
/// whole contents, not the addresses or a part of the contents
fn nearly_equal(mon: &Mon, round: u64) {
    let op = |kind: &'static str, a: &[u8], b: &[u8], m: &[u8]| Op { kind, a: a.to_vec(), b: b.to_vec(), m: m.to_vec() };
    let mut lens = vec![1usize, 57, 64, 114, 136, 200, 500, 1024, 2048, 4096, 5000, 8192, 16_384, 20_000];
    lens.extend(mon.dict.ints.iter().filter(|d| (2..1 << 15).contains(*d)).take(10).map(|d| *d as usize + 3));
    let mut groups: Vec<Vec<Op>> = vec![];
    for (q, n) in lens.iter().copied().enumerate() {
        let mut r = Rng::new(&[mon.seed, 0x1b0f, round, q as u64]);
        let k = gen::key(&mut r, &mon.dict);
        let k2 = gen::key(&mut r, &mon.dict);
        let m = r.vec(n);
        let (pk, sig) = crate::props::oracle_any(&k, &m);
        let flip = |m: &[u8], at: usize| {
            let mut v = m.to_vec();
            v[at] ^= 1;
            v
        };
        let (mid, any) = (n / 2, r.below(n));
        let mut ops = vec![];
        ops.push(op("verify", &pk, &sig, &m));
        ops.push(op("verify", &pk, &sig, &flip(&m, 0)));
        ops.push(op("verify", &pk, &sig, &flip(&m, mid)));
        ops.push(op("verify_err", &pk, &sig, &m));
        ops.push(op("verify_err", &pk, &sig, &flip(&m, n - 1)));
        ops.push(op("verify", &pk, &sig, &flip(&m, any)));
        ops.push(op("verify", &pk, &sig, &m[..n - 1]));
        ops.push(op("verify", &pk, &flip(&sig, 60 + r.below(40)), &m));
        ops.push(op("verify", &flip(&pk, r.below(57)), &sig, &m));
        for kind in ["sign", "sign_nonce", "sign_private", "object"] {
            ops.push(op(kind, &k, &k2, &m));
            ops.push(op(kind, &k, &k2, &flip(&m, any)));
            ops.push(op(kind, &flip(&k, 3), &k2, &m));
            ops.push(op(kind, &k, &flip(&k2, 20), &m));
        }
        for kind in ["derive", "sec_pub", "to_secret", "priv_pub", "serialize", "from_bytes"] {
            ops.push(op(kind, &k, b"", b""));
            ops.push(op(kind, &flip(&k, r.below(56)), b"", b""));
        }
        groups.push(ops);
    }
    let single = groups.len();
    for q in 0..if mon.thorough { 12 } else { 3u64 } {
        let mut r = Rng::new(&[mon.seed, 0x1b11, round, q]);
        let mut k: [u8; 57] = r.bytes();
        k[56] = k[56] & 0x7f | (q as u8 & 1) << 7;
        let k2: [u8; 57] = r.bytes();
        let n = *r.pick(&[40usize, 90, 300, 1500, 4500]);
        let m = r.vec(n);
        let (pk, sig) = crate::props::oracle_any(&k, &m);
        // keys and nonce seeds
        let mut by_kind: HashMap<&str, Vec<Op>> = HashMap::new();
        for x in std::iter::once(k.to_vec()).chain(alike(&k, &mut r)) {
            for kind in ["derive", "sign", "sign_nonce", "object", "sec_pub", "priv_pub", "to_secret", "sign_private"] {
                by_kind.entry(kind).or_default().push(op(kind, &x, &k2, &m));
            }
        }
        for x in alike(&k2, &mut r) {
            by_kind.entry("sign_nonce").or_default().push(op("sign_nonce", &k, &x, &m));
        }
        // messages, and signatures with the same parts
        for x in std::iter::once(m.clone()).chain(alike(&m, &mut r)) {
            by_kind.entry("sign_messages").or_default().push(op("sign", &k, b"", &x));
            by_kind.entry("verify_messages").or_default().push(op("verify", &pk, &sig, &x));
            let (_, s) = crate::props::oracle_any(&k, &x);
            by_kind.entry("verify_honest").or_default().push(op("verify", &pk, &s, &x));
        }
        for x in std::iter::once(sig.to_vec()).chain(alike(&sig, &mut r)) {
            by_kind.entry("verify_signatures").or_default().push(op("verify", &pk, &x, &m));
        }
        for x in std::iter::once(pk.to_vec()).chain(alike(&pk, &mut r)) {
            by_kind.entry("verify_keys").or_default().push(op("verify", &x, &sig, &m));
        }
        let mut names: Vec<_> = by_kind.into_iter().collect();
        names.sort_by_key(|x| x.0);
        groups.extend(names.into_iter().map(|x| x.1));
    }
    let flat: Vec<Op> = groups.iter().flatten().cloned().collect();
    let mut rest = isolated(&flat).into_iter();
    let want: Vec<Vec<Option<Vec<u8>>>> = groups.iter().map(|g| g.iter().map(|_| rest.next().flatten()).collect()).collect();
    mon.checks.fetch_add(flat.len() as u64, Relaxed);
    let calls = AtomicU64::new(0);
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..8usize {
            let (groups, want, calls, next) = (&groups, &want, &calls, &next);
            s.spawn(move || {
                crate::mon::bind_slot(t);
                let mut slot = Op { kind: "derive", a: Vec::with_capacity(4096), b: Vec::with_capacity(4096), m: Vec::with_capacity(1 << 16) };
                loop {
                    let q = next.fetch_add(1, Relaxed) as usize;
                    if q >= groups.len() || mon.stop.load(Relaxed) {
                        return;
                    }
                    let (g, w) = (&groups[q], &want[q]);
                    let mut r = Rng::new(&[mon.seed, 0x1b10, round, q as u64]);
                    let mut last = String::new();
                    let mut order: Vec<usize> = (0..g.len()).collect();
                    if q >= single {
                        // each against the first, both ways
                        order = (1..g.len()).flat_map(|i| [0, i, 0]).collect();
                    }
                    for _ in 0..g.len() * 2 {
                        order.push(r.below(g.len()));
                    }
                    for i in order {
                        let Some(w) = &w[i] else { continue };
                        slot.kind = g[i].kind;
                        for (d, s) in [(&mut slot.a, &g[i].a), (&mut slot.b, &g[i].b), (&mut slot.m, &g[i].m)] {
                            d.clear();
                            d.extend_from_slice(s);
                        }
                        let got = eval(&slot);
                        calls.fetch_add(1, Relaxed);
                        if got != *w {
                            c13_mismatch(mon, "nearly_equal", q as u64, &g[i], &got, w, &last);
                            return;
                        }
                        last = op_text(&slot);
                    }
                }
            });
        }
    });
    let n = calls.into_inner();
    mon.checks.fetch_add(n, Relaxed);
    mon.fact(&format!("nearly_equal_{}", round), serde_json::json!({"operations": flat.len(), "calls": n, "groups": groups.len(), "lengths": lens.len()}));
}
/// the first calls of a process, made by several threads at the same instant
pub fn run_first(file: &str, threads: usize) -> Result<String, String> {
    let text = std::fs::read_to_string(file).map_err(|e| e.to_string())?;
    let ops: Vec<(Op, Vec<u8>)> = text
        .lines()
        .map(|l| {
            let (o, w) = l.rsplit_once(' ').expect("line");
            (op_parse(o).expect("operation"), if w == "-" { vec![] } else { unhex(w) })
        })
        .collect();
    let go = AtomicU64::new(0);
    let bad: Mutex<Option<(usize, Vec<u8>)>> = Mutex::new(None);
    let calls = AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (ops, go, bad, calls) = (&ops, &go, &bad, &calls);
            s.spawn(move || {
                go.fetch_add(1, Relaxed);
                while (go.load(Relaxed) as usize) < threads {
                    std::hint::spin_loop();
                }
                for i in (t..ops.len()).step_by(threads) {
                    let got = eval(&ops[i].0);
                    calls.fetch_add(1, Relaxed);
                    if got != ops[i].1 {
                        *bad.lock().unwrap() = Some((i, got));
                        return;
                    }
                }
            });
        }
    });
    let mut out = serde_json::json!({"calls": calls.into_inner()});
    if let Some((i, got)) = bad.into_inner().unwrap() {
        out["violation"] = serde_json::json!({"op": op_text(&ops[i].0), "kind": ops[i].0.kind, "got": hex(&got), "want": hex(&ops[i].1), "position": i / threads});
    }
    Ok(out.to_string())
}
fn first_calls(mon: &Mon, round: u64, ops: &[Op], want: &[Vec<u8>], live: &[usize], dir: &std::path::Path) {
    let exe = std::env::current_exe().expect("exe");
    let live: Vec<usize> = live.iter().copied().filter(|i| want[*i] != b"<panicked>" && ops[*i].m.len() < 5000).collect();
    let n = if mon.thorough { 2000u64 } else { 160 };
    let calls = AtomicU64::new(0);
    let next = AtomicU64::new(0);
    let spent = std::time::Instant::now();
    std::thread::scope(|s| {
        for _ in 0..2 {
            let (exe, live, calls, next) = (&exe, &live, &calls, &next);
            s.spawn(move || loop {
                let q = next.fetch_add(1, Relaxed);
                if q >= n || mon.stop.load(Relaxed) || spent.elapsed().as_secs() > if mon.thorough { 120 } else { 15 } {
                    return;
                }
                let mut r = Rng::new(&[mon.seed, 0xf125, round, q]);
                let threads = *r.pick(&[2usize, 4, 8, 8, 16]);
                let one = live[r.below(live.len())];
                // one call by all, one kind by all, or anything; then a second one
                let pick = |r: &mut Rng| loop {
                    let i = live[r.below(live.len())];
                    match q % 4 {
                        0 => break one,
                        1 | 2 if ops[i].kind != ops[one].kind => continue,
                        _ => break i,
                    }
                };
                let text: String = (0..2 * threads)
                    .map(|_| {
                        let i = pick(&mut r);
                        format!("{} {}\n", op_text(&ops[i]), hexd(&want[i]))
                    })
                    .collect();
                let f = dir.join(format!("first-{}", q));
                if std::fs::write(&f, text).is_err() {
                    return;
                }
                let Ok(o) = std::process::Command::new(exe).args(["--first", f.to_str().expect("path"), &threads.to_string()]).stderr(std::process::Stdio::null()).output() else { continue };
                let v: serde_json::Value = serde_json::from_slice(&o.stdout).unwrap_or_default();
                calls.fetch_add(v["calls"].as_u64().unwrap_or(0), Relaxed);
                if let Some(x) = v.get("violation") {
                    mon.fail(
                        "first_calls",
                        q,
                        format!("{} gives another result when {} threads make the first calls of a process at once", x["kind"].as_str().unwrap_or("?"), threads),
                        &[("operation", x["op"].as_str().unwrap_or("").into()), ("in isolation", x["want"].as_str().unwrap_or("").into()), ("at once", x["got"].as_str().unwrap_or("").into())],
                    );
                }
                let _ = std::fs::remove_file(&f);
            });
        }
    });
    let n = calls.into_inner();
    mon.checks.fetch_add(n, Relaxed);
    mon.fact(&format!("first_calls_{}", round), serde_json::json!({"processes": next.into_inner().min(n), "calls": n}));
}
/// one single-threaded history; used by the child processes of C13
pub fn run_history(seed: u64, pool_seed: u64, pool_size: usize, part: u64, secs: f64, wants: &str) -> Result<String, String> {
    let dict = gen::Dict::load();
    let ops = pool(pool_seed, &dict, pool_size);
    let text = std::fs::read_to_string(wants).map_err(|e| e.to_string())?;
    let want: Vec<Vec<u8>> = text.lines().map(|l| if l == "-" { vec![] } else { unhex(l) }).collect();
    if want.len() != ops.len() {
        return Err("pool mismatch".into());
    }
    let mut r = Rng::new(&[seed, 0x715, part]);
    // parts 0 to 3: one kind of call only, for a long history (signing, cheap
    // refusals, verification, derivation); others: everything
    let idx: Vec<usize> = (0..ops.len())
        .filter(|i| want[*i] != b"<lost>")
        .filter(|i| match part {
            0 => ops[*i].m.len() < 600 && ops[*i].kind == "sign",
            1 => ops[*i].kind.starts_with("hex") || ops[*i].kind == "from_bytes" || ops[*i].kind == "to_secret" || ((ops[*i].kind == "verify" || ops[*i].kind == "verify_err") && want[*i].starts_with(b"Err")),
            2 => ops[*i].kind.starts_with("verify"),
            3 => ops[*i].m.len() < 600 && matches!(ops[*i].kind, "derive" | "sec_pub" | "to_secret" | "priv_pub" | "object" | "sign_nonce"),
            _ => true,
        })
        .collect();
    let t0 = std::time::Instant::now();
    let mut n = 0u64;
    let mut pairs = HashSet::new();
    let mut hist: Vec<usize> = vec![];
    let mut kinds: HashMap<&str, u64> = HashMap::new();
    let focus = r.below(idx.len().max(1));
    // operations on the same first argument
    let mut groups: HashMap<&[u8], Vec<usize>> = HashMap::new();
    for i in &idx {
        groups.entry(&ops[*i].a).or_default().push(*i);
    }
    let mut groups: Vec<Vec<usize>> = groups.into_values().filter(|g| g.len() > 1).collect();
    groups.sort();
    let mut queue: Vec<usize> = vec![];
    let mut streaks = 0u64;
    let mut aside = 0u64;
    while t0.elapsed().as_secs_f64() < secs {
        for _ in 0..16 {
            if queue.is_empty() && !groups.is_empty() && r.one_in(120) {
                // a streak of one operation, then others on the same argument
                let g = r.pick(&groups);
                let mut rest: Vec<usize> = (0..6.min(g.len())).map(|_| *r.pick(g)).collect();
                let one = *r.pick(g);
                // equal verdicts in a row (refusals above all)
                let same: Vec<usize> = g.iter().copied().filter(|j| ops[*j].kind == ops[one].kind && (want[*j] == b"Ok(true)") == (want[one] == b"Ok(true)")).collect();
                let n = *r.pick(&[3usize, 5, 8, 10, 16, 17, 32, 40, 64, 100]);
                for _ in 0..n {
                    rest.push(if r.one_in(2) { one } else { *r.pick(&same) });
                }
                queue = rest;
                streaks += 1;
            }
            let i = if let Some(i) = queue.pop() { i } else { match (r.below(8), hist.len()) {
                (0, l) if l > 0 => hist[l - 1],            // repeat
                (1, l) if l > 1 => hist[l - 2],            // A B A
                (2, _) => idx[(focus + r.below(12)) % idx.len()], // stay among neighbours
                (3, l) if l > 0 => {
                    // a similar operation
                    let j = hist[l - 1] + 1;
                    if j < ops.len() && idx.contains(&j) {
                        j
                    } else {
                        idx[r.below(idx.len())]
                    }
                }
                _ => idx[r.below(idx.len())],
            } };
            if r.one_in(64) {
                // operations outside the pool, some of which fail half-way
                let ok = r.below(80);
                let mut s = FailingRng { inner: ShakeRng::new(&[part as u8]), ok, down: 3, partial: true, given: 0, failures: 0 };
                let _ = guarded(|| SigningKey::random(&mut s));
                let _ = guarded(g::ed448_generate_key);
                aside += 1;
            }
            let got = eval(&ops[i]);
            n += 1;
            *kinds.entry(ops[i].kind).or_insert(0) += 1;
            if let Some(p) = hist.last() {
                pairs.insert((*p, i));
            }
            if got != want[i] {
                let before: Vec<String> = hist.iter().rev().take(6).map(|j| op_text(&ops[*j])).collect();
                return Ok(serde_json::json!({"violation": {"op": op_text(&ops[i]), "kind": ops[i].kind, "got": hex(&got), "want": hex(&want[i]), "call": n, "before": before}, "calls": n, "pairs": pairs.len()}).to_string());
            }
            hist.push(i);
            if hist.len() > 4096 {
                hist.drain(..2048);
            }
        }
    }
    let clock = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0);
    let cpus = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(0);
    Ok(serde_json::json!({"calls": n, "pairs": pairs.len(), "kinds": kinds, "streaks": streaks, "aside": aside, "clock": clock, "cpus": cpus}).to_string())
}
pub fn c13(mon: &Mon) {
    if mon.plan_only {
        return;
    }
    let size = if mon.thorough { 2400 } else { 1000 };
    let rounds = if mon.thorough { 3 } else { 1 };
    let mut total_calls = 0u64;
    let mut total_pairs = 0u64;
    for round in 0..rounds {
        let pseed = mon.seed.wrapping_mul(1000) + round;
        let ops = pool(pseed, &mon.dict, size);
        let iso = isolated(&ops);
        let lost = iso.iter().filter(|x| x.is_none()).count();
        if lost > 0 {
            // an isolated call that kills its process is judged by C07/C15; it
            // takes no part in the histories
            mon.fact("isolated_calls_without_result", lost.into());
            if lost * 2 > ops.len() {
                *mon.inconclusive.lock().unwrap() = Some(format!("{} of {} isolated reference calls gave no result", lost, ops.len()));
                return;
            }
        }
        let want: Vec<Vec<u8>> = iso.into_iter().map(|x| x.unwrap_or_else(|| b"<lost>".to_vec())).collect();
        let live: Vec<usize> = (0..ops.len()).filter(|i| want[*i] != b"<lost>").collect();
        let live = &live;
        mon.checks.fetch_add(ops.len() as u64, Relaxed);
        let dir = std::env::temp_dir().join(format!("mon-c13-{}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("tmp");
        let wf = dir.join("wants");
        std::fs::write(&wf, want.iter().map(|w| hexd(w) + "\n").collect::<String>()).expect("write");
        // phase 1: single-threaded histories, one process each
        let secs = mon.budget.as_secs_f64() * 0.35;
        let exe = std::env::current_exe().expect("exe");
        let kids: Vec<_> = (0..8u64)
            .map(|p| {
                let mut c = std::process::Command::new(&exe);
                c.args(["--history", &mon.seed.to_string(), &pseed.to_string(), &size.to_string(), &p.to_string(), &format!("{}", secs), wf.to_str().expect("path")]);
                // vary what the process sees of its surroundings
                if p % 3 == 1 {
                    let keep: Vec<(String, String)> = std::env::vars().filter(|(k, _)| k == "MON_DICT").collect();
                    c.env_clear().envs(keep);
                }
                if p % 3 == 2 {
                    c.env("RUST_LOG", "trace").env("RUST_BACKTRACE", "1").env("DEBUG", "1").env("TZ", "Asia/Tokyo").env("LANG", "tr_TR.UTF-8").current_dir("/");
                    for s in mon.dict.strs.iter() {
                        if let Ok(t) = std::str::from_utf8(s) {
                            if !t.is_empty() && t.len() < 60 && t.chars().all(|ch| ch.is_ascii_alphanumeric() || ch == '_') {
                                c.env(t, "1");
                            }
                        }
                    }
                }
                // another time of day, month, century and since the start
                if let (Ok(so), Some(at)) = (std::env::var("MON_CLOCK"), ["", "", "1930000000", "", "any", "2180000000", "any", "5"].get(p as usize).filter(|a| !a.is_empty())) {
                    c.env("LD_PRELOAD", so).env("MON_CLOCK_AT", at).env("MON_CLOCK_UP", (p * p * 1_000_000).to_string());
                }
                #[cfg(target_os = "linux")]
                if p == 7 {
                    use std::os::unix::process::CommandExt;
                    // SAFETY: plain system calls between fork and exec
                    unsafe {
                        c.pre_exec(|| {
                            let mut set: libc::cpu_set_t = std::mem::zeroed();
                            if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) == 0 {
                                if let Some(one) = (0..1024).find(|i| libc::CPU_ISSET(*i, &set)) {
                                    libc::CPU_ZERO(&mut set);
                                    libc::CPU_SET(one, &mut set);
                                    libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
                                }
                            }
                            Ok(())
                        });
                    }
                }
                c.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn()
            })
            .collect();
        for (p, k) in kids.into_iter().enumerate() {
            let out = match k.and_then(|k| k.wait_with_output()) {
                Ok(o) => o,
                Err(e) => {
                    *mon.inconclusive.lock().unwrap() = Some(format!("history process: {}", e));
                    continue;
                }
            };
            let text = String::from_utf8_lossy(&out.stdout).to_string();
            let v: serde_json::Value = match serde_json::from_str(text.trim()) {
                Ok(v) => v,
                Err(_) => {
                    let err = String::from_utf8_lossy(&out.stderr).to_string();
                    if err.contains("in_library=1") {
                        mon.fail("histories", p as u64, "a call in the history killed the process".into(), &[("stderr", err)]);
                    } else {
                        *mon.inconclusive.lock().unwrap() = Some(format!("history process {}: {} {}", p, out.status, err));
                    }
                    continue;
                }
            };
            total_calls += v["calls"].as_u64().unwrap_or(0);
            total_pairs += v["pairs"].as_u64().unwrap_or(0);
            mon.checks.fetch_add(v["calls"].as_u64().unwrap_or(0), Relaxed);
            mon.fact(&format!("history_{}_{}", round, p), serde_json::json!({"calls": v["calls"], "distinct_adjacent_pairs": v["pairs"], "calls_by_kind": v["kinds"], "streaks": v["streaks"], "failed_and_random_key_calls_between": v["aside"], "clock": v["clock"], "cpus": v["cpus"]}));
            if let Some(x) = v.get("violation") {
                mon.fail(
                    "histories",
                    p as u64,
                    format!("{} gives another result at call {} of a history than in isolation", x["kind"].as_str().unwrap_or("?"), x["call"]),
                    &[("operation", x["op"].as_str().unwrap_or("").into()), ("in isolation", x["want"].as_str().unwrap_or("").into()), ("in the history", x["got"].as_str().unwrap_or("").into()), ("previous operations, latest first", x["before"].to_string())],
                );
            }
        }
        if !mon.stop.load(Relaxed) {
            first_calls(mon, round, &ops, &want, live, &dir);
        }
        std::fs::remove_dir_all(&dir).ok();
        if mon.stop.load(Relaxed) {
            return;
        }
        nearly_equal(mon, round);
        if mon.stop.load(Relaxed) {
            return;
        }
        // phase 2: the same operations from many threads at once; in turns
        // everything, one kind only, long messages only, one first argument only
        let threads = 24;
        let slices = 16u64;
        let slice = mon.budget.as_secs_f64() * 0.15 / slices as f64;
        let calls = AtomicU64::new(0);
        let overlaps = AtomicU64::new(0);
        let running: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
        let seen_pairs = Mutex::new(HashSet::new());
        for sl in 0..slices {
            let mut r = Rng::new(&[mon.seed, 0x7eac, round, sl]);
            let some = live[r.below(live.len())];
            let sub: Vec<usize> = match sl % 4 {
                0 => live.clone(),
                1 => live.iter().copied().filter(|i| ops[*i].kind == ops[some].kind).collect(),
                2 => live.iter().copied().filter(|i| ops[*i].m.len() > 800 && (sl < 8 || !ops[*i].kind.starts_with("verify"))).collect(),
                _ => live.iter().copied().filter(|i| ops[*i].a == ops[some].a).collect(),
            };
            let sub = if sub.is_empty() { live.clone() } else { sub };
            let barrier = std::sync::Barrier::new(threads);
            std::thread::scope(|s| {
                for t in 0..threads {
                    let (ops, want, calls, running, seen_pairs, barrier, overlaps, sub) = (&ops, &want, &calls, &running, &seen_pairs, &barrier, &overlaps, &sub);
                    s.spawn(move || {
                        crate::mon::bind_slot(t);
                        let mut r = Rng::new(&[mon.seed, 0x7ead, round, sl, t as u64]);
                        let mut local = HashSet::new();
                        let hot: Vec<usize> = (0..6).map(|j| sub[Rng::new(&[mon.seed, 9, sl, t as u64 % 2, j]).below(sub.len())]).collect();
                        barrier.wait();
                        let t0 = std::time::Instant::now();
                        while t0.elapsed().as_secs_f64() < slice && !mon.stop.load(Relaxed) {
                            let i = if r.one_in(3) { hot[r.below(6)] } else { sub[r.below(sub.len())] };
                            running[t].store(i as u64, Relaxed);
                            let got = eval(&ops[i]);
                            for (u, x) in running.iter().enumerate() {
                                let j = x.load(Relaxed);
                                if u != t && j != u64::MAX {
                                    overlaps.fetch_add(1, Relaxed);
                                    local.insert((i as u64, j));
                                }
                            }
                            running[t].store(u64::MAX, Relaxed);
                            calls.fetch_add(1, Relaxed);
                            if got != want[i] {
                                c13_mismatch(mon, "threads", t as u64, &ops[i], &got, &want[i], "concurrent calls on the other threads");
                                break;
                            }
                            if r.one_in(16) {
                                std::thread::yield_now();
                            }
                        }
                        seen_pairs.lock().unwrap().extend(local);
                    });
                }
            });
        }
        // phase 3: one operation at a time, called as often as possible from
        // several threads: large call counts in one process
        let bulk: Vec<(&str, Vec<usize>)> = ["sign", "verify", "derive", "sign_nonce", "object", "verify_err", "sign_private", "hex_key", "deserialize"]
            .iter()
            .map(|kind| {
                let v: Vec<usize> = live.iter().copied().filter(|i| ops[*i].kind == *kind && ops[*i].m.len() < 300 && want[*i] != b"<panicked>").collect();
                (*kind, v)
            })
            .filter(|x| !x.1.is_empty())
            .collect();
        let weight = |k: &str| match k {
            "verify" => 12.0,
            "sign" => 5.0,
            "hex_key" => 0.4,
            _ => 1.0,
        };
        let per = mon.budget.as_secs_f64() * 0.55 / bulk.iter().map(|b| weight(b.0)).sum::<f64>().max(1.0);
        let mut counts = HashMap::new();
        for (kind, v) in &bulk {
            let n = AtomicU64::new(0);
            let per = per * weight(kind);
            std::thread::scope(|s| {
                for t in 0..8usize {
                    let (n, v, ops, want) = (&n, v, &ops, &want);
                    s.spawn(move || {
                        crate::mon::bind_slot(t);
                        let t0 = std::time::Instant::now();
                        let mut k = t;
                        while t0.elapsed().as_secs_f64() < per && !mon.stop.load(Relaxed) {
                            let i = v[k % v.len()];
                            k += 1;
                            let got = eval(&ops[i]);
                            let calls = n.fetch_add(1, Relaxed);
                            if got != want[i] {
                                c13_mismatch(mon, "bulk", t as u64, &ops[i], &got, &want[i], &format!("about {} calls of the same kind in this process", calls));
                                break;
                            }
                        }
                    });
                }
            });
            let n = n.into_inner();
            counts.insert(*kind, n);
            total_calls += n;
            mon.checks.fetch_add(n, Relaxed);
        }
        mon.fact(&format!("bulk_{}", round), serde_json::json!(counts));
        let c = calls.load(Relaxed);
        total_calls += c;
        mon.checks.fetch_add(c, Relaxed);
        mon.fact(&format!("threads_{}", round), serde_json::json!({"threads": threads, "calls": c, "distinct_overlapping_operation_pairs": seen_pairs.lock().unwrap().len(), "overlaps": overlaps.load(Relaxed)}));
        total_pairs += seen_pairs.lock().unwrap().len() as u64;
        let mut d = mon.distinct[0].lock().unwrap();
        for p in seen_pairs.lock().unwrap().iter() {
            if d.len() < 400_000 {
                d.insert(fnv(format!("{:?}", p).as_bytes()));
            }
        }
        let mut s = mon.samples.lock().unwrap();
        for o in ops.iter().step_by(ops.len() / 6 + 1) {
            s.push(serde_json::json!({"operation": op_text(o).chars().take(400).collect::<String>()}));
        }
    }
    mon.fact("total_calls", total_calls.into());
    mon.fact("distinct_adjacent_or_overlapping_pairs", total_pairs.into());
}

// ------------------------------------------------------------------ C15
pub struct Counting;
pub static LIVE: AtomicU64 = AtomicU64::new(0);
thread_local! {
    // bytes this thread holds, and the most it held since the last mark
    static HELD: std::cell::Cell<(i64, i64, i64)> = const { std::cell::Cell::new((0, 0, 0)) };
}
pub fn heap_mark() {
    HELD.with(|h| h.set((h.get().0, h.get().0, h.get().0)));
}
/// most heap held beyond what was held at the mark
pub fn heap_peak() -> u64 {
    HELD.with(|h| (h.get().1 - h.get().2).max(0) as u64)
}
/// what this thread holds now beyond what it held at the mark
pub fn heap_left() -> i64 {
    HELD.with(|h| h.get().0 - h.get().2)
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as u64, Relaxed);
        let _ = HELD.try_with(|h| {
            let (n, p, m) = h.get();
            let n = n + l.size() as i64;
            h.set((n, p.max(n), m));
        });
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        let _ = HELD.try_with(|h| h.set((h.get().0 - l.size() as i64, h.get().1, h.get().2)));
        std::alloc::System.dealloc(p, l)
    }
}
/// random operation on arbitrary well-typed input
pub fn any_op(r: &mut Rng, d: &gen::Dict) -> Op {
    let op = |kind: &'static str, a: &[u8], b: &[u8], m: &[u8]| Op { kind, a: a.to_vec(), b: b.to_vec(), m: m.to_vec() };
    let k = gen::key(r, d);
    let mut m = gen::msg(r, d);
    m.truncate(3000);
    match r.below(12) {
        0 => op("derive", &k, b"", b""),
        1 => op("sign", &k, b"", &m),
        2 => op("sign_private", &k, b"", &m),
        3 => {
            let n = gen::bytes57(r, d);
            op("sign_nonce", &k, &n, &m)
        }
        4 => op("sec_pub", &k, b"", b""),
        5 => op("object", &k, b"", &m),
        6 => op("serialize", &k, b"", b""),
        7 => {
            let n = r.below(120);
            let v = r.vec(n);
            op("from_bytes", &v, b"", b"")
        }
        _ => {
            let t = gen::triple(r, d);
            let mut m = t.msg;
            m.truncate(3000);
            op(if r.one_in(2) { "verify" } else { "verify_err" }, &t.pk, &t.sig, &m)
        }
    }
}
/// operations with their results in this build, one per line; short messages,
/// every kind of operation early
pub fn dump_ops(seed: u64, n: usize) -> String {
    let d = gen::Dict::load();
    let mut out = String::new();
    let mut r = Rng::new(&[seed, 0xd0]);
    let p = pool(seed, &d, n.max(60));
    for i in 0..n {
        let o = if i % 2 == 0 { p[(i / 2 * 7) % p.len()].clone() } else { any_op(&mut r, &d) };
        let w = eval(&o);
        out += &format!("{} {}\n", op_text(&o), hexd(&w));
    }
    out
}
/// replay them: every thread starts at another offset, so that different
/// operations overlap; key generation runs in between
pub fn replay_ops(file: &str, threads: usize, rounds: usize) -> Result<String, String> {
    let text = std::fs::read_to_string(file).map_err(|e| e.to_string())?;
    let ops: Vec<(Op, Vec<u8>)> = text
        .lines()
        .map(|l| {
            let (o, w) = l.rsplit_once(' ').expect("line");
            (op_parse(o).expect("operation"), if w == "-" { vec![] } else { unhex(w) })
        })
        .collect();
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let calls = AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (ops, bad, calls) = (&ops, &bad, &calls);
            s.spawn(move || {
                for k in 0..rounds * ops.len() {
                    let (o, w) = &ops[(k + t * ops.len() / threads) % ops.len()];
                    let got = eval(o);
                    calls.fetch_add(1, Relaxed);
                    if got != *w {
                        *bad.lock().unwrap() = Some(format!("{} gives {} here, {} in the optimised build", op_text(o), hexd(&got), hexd(w)));
                        return;
                    }
                    if k % 16 == 0 {
                        let _ = generate(1);
                    }
                }
            });
        }
    });
    match bad.into_inner().unwrap() {
        Some(b) => Err(b),
        None => Ok(format!("REPLAYED {}", calls.load(Relaxed))),
    }
}
/// the same operations in every build: per-case result hashes, compared by the
/// driver across builds
pub fn digests(mon: &Mon) {
    let n = std::env::var("MON_DIGESTS").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1500);
    let hashes: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    mon.stage("profile_digest", All(n), |c| {
        let op = any_op(&mut c.rng, &c.mon.dict);
        let r = eval(&op);
        c.checked(&[op_text(&op).as_bytes()]);
        c.class(op.kind);
        c.log(|| format!("{} -> {}", op_text(&op), hex(&r)));
        if r == b"<panicked>" {
            c.fail(format!("{} panicked on well-typed input", op.kind), &[("operation", op_text(&op))]);
        }
        hashes[c.idx as usize].store(fnv(&r), Relaxed);
        c.sample(|| serde_json::json!({"operation": op_text(&op).chars().take(300).collect::<String>(), "result": show(&r)}));
    });
    if !mon.plan_only {
        if let Ok(p) = std::env::var("MON_DIGEST_FILE") {
            std::fs::write(p, hashes.iter().map(|h| format!("{:016x}\n", h.load(Relaxed))).collect::<String>()).expect("digests");
        }
    }
}
pub fn c15(mon: &Mon) {
    crate::props::beside_huge(mon, || c15_calls(mon));
    c15_heap(mon);
}
fn c15_calls(mon: &Mon) {
    digests(mon);
    let lens = len_cases(mon);
    mon.stage("message_lengths", All(lens.len() as u64), |c| {
        let len = lens[lens.len() - 1 - c.idx as usize];
        let k = gen::key(&mut c.rng, &c.mon.dict);
        let m = gen::fill_msg(&mut c.rng, &c.mon.dict, len);
        c.checked(&[&k, &m]);
        c.class("sign_and_verify");
        let i: [(&str, &[u8]); 2] = [("key", &k), ("message", &m)];
        c.lib("signing and verification", &i, || {
            let s = g::ed448_sign(&k, &m);
            let p = g::ed448_derive_public(&k);
            let _ = g::ed448_verify(&p, &s, &m);
            SigningKey::from_slice(&k).sign_prehash(&m).is_ok()
        });
    });
    mon.stage("no_overflow", Share(4.0, 64), |c| {
        let op = any_op(&mut c.rng, &c.mon.dict);
        c.checked(&[op_text(&op).as_bytes()]);
        c.class(op.kind);
        if eval(&op) == b"<panicked>" {
            c.fail(format!("{} panicked on well-typed input", op.kind), &[("operation", op_text(&op))]);
        }
    });
    deep::field_stage(mon, 1.0);
    deep::scalar_stage(mon, 0.7);
    deep::point_stage(mon, 1.0);
}
fn c15_heap(mon: &Mon) {
    if mon.plan_only {
        return;
    }
    // memory growth: live heap after warm-up vs after many more calls
    if mon.only_stage.is_none() {
        let grow = |seed: u64, n: usize| {
            let mut r = Rng::new(&[mon.seed, 0xa110c, seed]);
            for _ in 0..n {
                let k = r.bytes::<57>();
                let m = r.vec(100);
                let _ = guarded(|| {
                    let s = g::ed448_sign(&k, &m);
                    let p = g::ed448_derive_public(&k);
                    let _ = g::ed448_verify(&p, &s, &m);
                    let _ = g::ed448_verify(&p, &s[..100], &m);
                    let _ = SigningKey::from_slice(&k).sign_prehash(&m).is_ok();
                    let _ = serde_json::from_str::<SigningKey>("\"00\"").is_err();
                    let _ = serde_json::to_string(&SigningKey::from_slice(&k)).map(|t| serde_json::from_str::<VerifyingKey>(&t).is_ok());
                    let _ = g::ed448_verify_with_error(&k, &s, &m);
                    let _ = g::sign_with_secret_and_nonce(&k, &k, &m);
                    let _ = g::private_to_public(&g::ed448_generate_key());
                    let _ = SigningKey::from_bytes(&k[..50]).is_err();
                });
            }
        };
        let n = if cfg!(debug_assertions) { 150 } else { 600 };
        grow(0, n);
        let a = LIVE.load(Relaxed);
        grow(1, n);
        let b = LIVE.load(Relaxed);
        grow(2, n);
        let c = LIVE.load(Relaxed);
        let per = c.saturating_sub(a) as f64 / (2 * n) as f64;
        mon.fact("heap_growth_bytes_per_round", per.into());
        mon.fact("heap_live_after", serde_json::json!([a, b, c]));
        if b > a && c > b && per >= 16.0 {
            mon.fail("memory_growth", 0, format!("live heap grows by {:.1} bytes per round of calls", per), &[("live", format!("{} {} {}", a, b, c))]);
        }
    }
}

// ------------------------------------------------------------------ C16
struct Stats {
    n: u64,
    ones: Vec<u64>,
    bytes: Vec<[u64; 256]>,
}
fn key_stats(keys: &[[u8; 57]]) -> Stats {
    let mut s = Stats { n: keys.len() as u64, ones: vec![0; 456], bytes: vec![[0; 256]; 57] };
    for k in keys {
        for (i, b) in k.iter().enumerate() {
            s.bytes[i][*b as usize] += 1;
            for j in 0..8 {
                s.ones[i * 8 + j] += (b >> j & 1) as u64;
            }
        }
    }
    s
}
/// randomness monitors; every threshold is at least 7.5 standard deviations
fn judge_keys(mon: &Mon, what: &str, keys: &[[u8; 57]]) {
    let n = keys.len() as f64;
    let fail = |m: String, k: String| mon.fail(&format!("{}_statistics", what), 0, m, &[("detail", k)]);
    let mut set = HashSet::with_capacity(keys.len());
    for k in keys {
        if !set.insert(*k) {
            fail(format!("{}: the same key was generated twice", what), hex(k));
            return;
        }
    }
    // no 8-byte window may ever repeat
    for w in 0..8usize {
        let at = if w == 7 { 49 } else { w * 8 };
        let mut set: HashMap<[u8; 8], usize> = HashMap::with_capacity(keys.len());
        for (i, k) in keys.iter().enumerate() {
            let x: [u8; 8] = k[at..at + 8].try_into().expect("8");
            if let Some(j) = set.insert(x, i) {
                fail(format!("{}: bytes {}..{} of two generated keys coincide", what, at, at + 8), format!("{} {}", hex(&keys[j]), hex(k)));
                return;
            }
        }
    }
    // nor may one reappear at another position of this or any other key
    {
        let take = keys.len().min(100_000);
        let mut all: Vec<(u64, u32)> = Vec::with_capacity(take * 50);
        for (i, k) in keys[..take].iter().enumerate() {
            for at in 0..50 {
                all.push((u64::from_le_bytes(k[at..at + 8].try_into().expect("8")), i as u32));
            }
        }
        all.sort_unstable();
        for w in all.windows(2) {
            if w[0].0 == w[1].0 {
                fail(
                    format!("{}: eight generated bytes appear again at another place", what),
                    format!("{} {}", hex(&keys[w[0].1 as usize]), hex(&keys[w[1].1 as usize])),
                );
                return;
            }
        }
    }
    let s = key_stats(keys);
    let mut worst = 0f64;
    for (i, o) in s.ones.iter().enumerate() {
        let z = (2.0 * *o as f64 - n) / n.sqrt();
        worst = worst.max(z.abs());
        if z.abs() > 7.5 {
            fail(format!("{}: bit {} of byte {} is not uniform: set in {} of {} keys (z = {:.1})", what, i % 8, i / 8, o, s.n, z), String::new());
            return;
        }
    }
    let mut worst_chi = 0f64;
    if n >= 20_000.0 {
        for (i, b) in s.bytes.iter().enumerate() {
            let e = n / 256.0;
            let chi: f64 = b.iter().map(|x| (*x as f64 - e).powi(2) / e).sum();
            // Wilson-Hilferty
            let z = ((chi / 255.0).powf(1.0 / 3.0) - (1.0 - 2.0 / (9.0 * 255.0))) / (2.0f64 / (9.0 * 255.0)).sqrt();
            worst_chi = worst_chi.max(z.abs());
            if z.abs() > 8.0 {
                fail(format!("{}: byte {} is not uniform (chi-square {:.0} over 255 degrees)", what, i, chi), String::new());
                return;
            }
        }
    }
    // pairwise independence of bits (bit-sliced), and of consecutive keys
    let m = keys.len().min(24_000) / 64 * 64;
    let mut worst_pair = 0f64;
    if m >= 2048 {
        let mut cols = vec![vec![0u64; m / 64]; 456];
        for (r, k) in keys[..m].iter().enumerate() {
            for i in 0..456 {
                if k[i / 8] >> (i % 8) & 1 == 1 {
                    cols[i][r / 64] |= 1 << (r % 64);
                }
            }
        }
        for i in 0..456 {
            for j in i + 1..456 {
                let d: u32 = cols[i].iter().zip(&cols[j]).map(|(a, b)| (a ^ b).count_ones()).sum();
                let z = (2.0 * d as f64 - m as f64) / (m as f64).sqrt();
                worst_pair = worst_pair.max(z.abs());
                if z.abs() > 8.0 {
                    fail(format!("{}: bits {} and {} of generated keys are correlated (z = {:.1})", what, i, j, z), String::new());
                    return;
                }
            }
        }
        // every bit against every bit of the following keys
        for lag in 1..=8usize {
            let rows = m - 64;
            let shifted: Vec<Vec<u64>> = cols
                .iter()
                .map(|c| (0..rows / 64).map(|w| c[w] >> lag | c[w + 1] << (64 - lag)).collect())
                .collect();
            for i in 0..456 {
                for j in 0..456 {
                    let d: u32 = cols[i].iter().zip(&shifted[j]).map(|(a, b)| (a ^ b).count_ones()).sum();
                    let z = (2.0 * d as f64 - rows as f64) / (rows as f64).sqrt();
                    worst_pair = worst_pair.max(z.abs());
                    if z.abs() > 8.5 {
                        fail(format!("{}: bit {} of a key predicts bit {} of the key generated {} later (z = {:.1})", what, i, j, lag, z), String::new());
                        return;
                    }
                }
            }
        }
    }
    mon.checks.fetch_add(keys.len() as u64, Relaxed);
    let raw = keys.iter().filter(|k| k[56] & 0x80 != 0).count();
    mon.fact(
        what,
        serde_json::json!({"keys": keys.len(), "raw_form": raw, "seed_form": keys.len() - raw, "worst_bit_z": worst, "worst_byte_chi_z": worst_chi, "worst_pair_z": worst_pair}),
    );
    for k in keys {
        let h = fnv(k);
        let mut d = mon.distinct[(h >> 58) as usize % mon.distinct.len()].lock().unwrap();
        if d.len() < 400_000 {
            d.insert(h);
        }
    }
    let mut sm = mon.samples.lock().unwrap();
    for k in keys.iter().take(3) {
        sm.push(serde_json::json!({"source": what, "key": hex(k)}));
    }
}
pub fn generate(n: usize) -> Vec<[u8; 57]> {
    (0..n).map(|_| guarded(g::ed448_generate_key).unwrap_or([0; 57])).collect()
}
/// deterministic strong generator for the caller-source tests
pub struct ShakeRng {
    seed: Vec<u8>,
    ctr: u64,
    buf: Vec<u8>,
}
impl ShakeRng {
    pub fn new(seed: &[u8]) -> Self {
        ShakeRng { seed: seed.to_vec(), ctr: 0, buf: vec![] }
    }
    fn take(&mut self, out: &mut [u8]) {
        for b in out.iter_mut() {
            if self.buf.is_empty() {
                let mut x = [0u8; 136];
                o::shake256(&[&self.seed, &self.ctr.to_le_bytes()], &mut x);
                self.ctr += 1;
                self.buf = x.to_vec();
                self.buf.reverse();
            }
            *b = self.buf.pop().expect("buffered");
        }
    }
}
impl rand_core::RngCore for ShakeRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.take(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.take(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        self.take(b)
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand_core::Error> {
        self.take(b);
        Ok(())
    }
}
impl rand_core::CryptoRng for ShakeRng {}
/// a source that gives `ok` bytes and then fails for `down` calls: the fallible
/// method with an error (after writing a part), the others by panicking
pub struct FailingRng {
    inner: ShakeRng,
    ok: usize,
    down: usize,
    partial: bool,
    /// bytes handed out by calls that succeeded
    pub given: usize,
    pub failures: usize,
}
impl FailingRng {
    fn draw(&mut self, b: &mut [u8]) -> Result<(), rand_core::Error> {
        if self.ok < b.len() && self.down > 0 {
            if self.partial {
                let n = self.ok;
                self.inner.take(&mut b[..n]);
            }
            self.ok = 0;
            self.down -= 1;
            self.failures += 1;
            return Err(rand_core::Error::new("source out of order"));
        }
        self.ok = self.ok.saturating_sub(b.len());
        self.inner.take(b);
        self.given += b.len();
        Ok(())
    }
}
impl rand_core::RngCore for FailingRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.draw(&mut b).unwrap_or_else(|e| panic!("{}", e));
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.draw(&mut b).unwrap_or_else(|e| panic!("{}", e));
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        self.draw(b).unwrap_or_else(|e| panic!("{}", e))
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand_core::Error> {
        self.draw(b)
    }
}
impl rand_core::CryptoRng for FailingRng {}
/// key generation in fresh processes whose operating system refuses random
/// bytes: none at all, no system call, or no device
#[cfg(target_arch = "x86_64")]
fn starved(mon: &Mon) {
    let exe = std::env::current_exe().expect("exe");
    let mut seen: Vec<Vec<u8>> = vec![];
    let mut counts = vec![];
    for mode in 0..4 {
        let (mut refused, mut keys, mut unable) = (0, 0, 0);
        let from = seen.len();
        for _ in 0..if mon.thorough { 24 } else { 8 } {
            let Ok(o) = std::process::Command::new(&exe).args(["--starved", &mode.to_string()]).stderr(std::process::Stdio::null()).output() else { continue };
            let text = String::from_utf8_lossy(&o.stdout).to_string();
            for l in text.lines() {
                mon.checks.fetch_add(1, Relaxed);
                match l.split_once(' ') {
                    Some(("KEY", h)) => {
                        keys += 1;
                        if mode == 0 {
                            mon.fail("starved", 0, "a key is generated although the operating system gives no random bytes".into(), &[("key", h.to_string())]);
                            return;
                        }
                        seen.push(unhex(h));
                    }
                    _ if l == "REFUSED" => refused += 1,
                    _ => unable += 1,
                }
            }
        }
        let new = &seen[from..];
        if new.len() >= 8 {
            let fixed = (0..57).find(|i| new.iter().all(|k| k[*i] == new[0][*i]));
            let set: HashSet<_> = new.iter().collect();
            if set.len() < new.len() || fixed.is_some() {
                mon.fail("starved", mode, "keys repeat, wholly or in one byte, when one way to the system's random bytes is closed".into(), &[("key", hex(&new[0])), ("another", hex(&new[1]))]);
                return;
            }
        }
        let name = ["no random bytes", "system call missing", "system call forbidden", "no device"][mode as usize];
        counts.push(serde_json::json!({"mode": name, "keys": keys, "refused": refused, "not applicable": unable}));
    }
    mon.fact("starved_generators", serde_json::json!(counts));
}
/// a long history on eight threads: no 16-byte end of a key ever returns. A
/// generator that starts each key from a state of up to some 40 bits shows here.
fn bulk_unique(mon: &Mon) {
    if mon.stop.load(Relaxed) {
        return;
    }
    let n = if mon.thorough { 5_000_000usize } else { 500_000 };
    let limit = std::time::Duration::from_secs(if mon.thorough { 60 } else { 6 });
    let out: Mutex<Vec<(u128, u128)>> = Mutex::new(Vec::with_capacity(8 * n));
    let bad = Mutex::new(None);
    std::thread::scope(|s| {
        for t in 0..8usize {
            let (out, bad) = (&out, &bad);
            s.spawn(move || {
                crate::mon::bind_slot(t);
                let t0 = std::time::Instant::now();
                let mut v = Vec::with_capacity(n);
                while v.len() < n && t0.elapsed() < limit {
                    for _ in 0..1000 {
                        match guarded(g::ed448_generate_key) {
                            Ok(k) => v.push((u128::from_le_bytes(k[..16].try_into().expect("16")), u128::from_le_bytes(k[41..].try_into().expect("16")))),
                            Err(e) => {
                                *bad.lock().unwrap() = Some(e);
                                return;
                            }
                        }
                    }
                }
                out.lock().unwrap().extend(v);
            });
        }
    });
    if let Some(e) = bad.into_inner().unwrap() {
        mon.fail("bulk_keys", 0, format!("key generation panicked: {}", e), &[]);
        return;
    }
    let mut v = out.into_inner().unwrap();
    mon.fact("keys_in_bulk_history", v.len().into());
    for end in ["first", "last"] {
        let get = |x: &(u128, u128)| if end == "first" { x.0 } else { x.1 };
        v.sort_unstable_by_key(get);
        if let Some(w) = v.windows(2).find(|w| get(&w[0]) == get(&w[1])) {
            mon.fail("bulk_keys", 0, format!("two generated keys share their {} sixteen bytes", end), &[("bytes", hex(&get(&w[0]).to_le_bytes())), ("keys generated", v.len().to_string())]);
            return;
        }
    }
}
pub fn c16(mon: &Mon) {
    // caller-supplied source: determined by it, and by at least 456 bits of it
    mon.stage("source_dependence", All(if mon.thorough { 64 } else { 6 }), |c| {
        let data: Vec<u8> = c.rng.vec(512);
        let gen1 = |d: &[u8]| {
            let mut r = StreamRng::new(d);
            let k = SigningKey::random(&mut r);
            (k.to_bytes(), r.pos)
        };
        let i: [(&str, &[u8]); 1] = [("source", &data)];
        let Some((k0, used)) = c.lib("key from a caller's source", &i, || gen1(&data)) else { return };
        let Some((k1, _)) = c.lib("key from a caller's source", &i, || gen1(&data)) else { return };
        c.checked(&[&data]);
        if k0 != k1 {
            c.fail("two keys from the same source stream differ", &[("source", hex(&data)), ("first", hex(&k0)), ("second", hex(&k1))]);
        }
        let mut influential = 0;
        let mut seen = HashSet::new();
        seen.insert(k0);
        let span = used.clamp(57, 512) * 8;
        for b in 0..span {
            let mut d = data.clone();
            d[b / 8] ^= 1 << (b % 8);
            if let Some((k, _)) = c.lib("key from a caller's source", &[("source", &d)], || gen1(&d)) {
                if k != k0 {
                    influential += 1;
                    if !seen.insert(k) {
                        c.fail("two different source streams give the same key", &[("source", hex(&data)), ("bit", b.to_string()), ("key", hex(&k))]);
                    }
                }
            }
        }
        c.class("streams");
        if influential < 456 {
            c.fail(format!("only {} bits of the caller's source reach the key", influential), &[("source", hex(&data)), ("bytes drawn", used.to_string()), ("key", hex(&k0))]);
        }
    });
    mon.stage("source_sequences", All(8), |c| {
        // successive keys from one source: all different, and reproducible
        let seed = c.rng.vec(16);
        let go = || {
            let mut r = ShakeRng::new(&seed);
            (0..20).map(|_| SigningKey::random(&mut r).to_bytes()).collect::<Vec<_>>()
        };
        let i: [(&str, &[u8]); 1] = [("seed", &seed)];
        let (Some(a), Some(b)) = (c.lib("keys from a source", &i, go), c.lib("keys from a source", &i, go)) else { return };
        c.checked(&[&seed]);
        if a != b {
            c.fail("keys from a caller's source are not determined by it", &[("seed", hex(&seed))]);
        }
        let set: HashSet<_> = a.iter().collect();
        if set.len() != a.len() {
            c.fail("successive keys from one source repeat", &[("seed", hex(&seed))]);
        }
        c.class("sequence");
    });
    mon.stage("failing_sources", All(58 * 6), |c| {
        let (ok, how) = ((c.idx / 6) as usize, c.idx % 6);
        let mut r = FailingRng { inner: ShakeRng::new(&c.rng.vec(16)), ok, down: [1, 2, 1000][how as usize / 2], partial: how % 2 == 1, given: 0, failures: 0 };
        let k = guarded(|| SigningKey::random(&mut r).to_bytes());
        c.checked(&[&c.idx.to_le_bytes()]);
        c.class(if k.is_ok() { "key" } else { "no key" });
        if let Ok(k) = k {
            if r.given < 57 {
                c.fail(
                    "a key is built although the caller's source failed",
                    &[("bytes given", r.given.to_string()), ("failed calls", r.failures.to_string()), ("source gives before failing", ok.to_string()), ("key", hex(&k))],
                );
            }
        }
    });
    if mon.plan_only || mon.only_stage.is_some() || mon.stop.load(Relaxed) {
        return;
    }
    #[cfg(target_arch = "x86_64")]
    starved(mon);
    if mon.stop.load(Relaxed) {
        return;
    }
    // keys from the caller's source: distribution
    let per = if mon.thorough { 12_000 } else { 2_000 };
    let out = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..8u64 {
            let out = &out;
            s.spawn(move || {
                crate::mon::bind_slot(t as usize);
                let mut r = ShakeRng::new(&[&mon.seed.to_le_bytes()[..], &t.to_le_bytes()[..]].concat());
                let v: Vec<[u8; 57]> = (0..per).filter_map(|_| guarded(|| SigningKey::random(&mut r).to_bytes()).ok()).collect();
                out.lock().unwrap().push(v);
            });
        }
    });
    let from_source: Vec<[u8; 57]> = out.into_inner().unwrap().concat();
    if from_source.len() < per * 8 {
        mon.fail("source_distribution", 0, "building a key from a caller's source panicked".into(), &[]);
        return;
    }
    judge_keys(mon, "keys_from_caller_source", &from_source);
    // the generator: many threads, short-lived threads, one long history
    let n = if mon.thorough { 400_000 } else { 60_000 };
    let out = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..8usize {
            let out = &out;
            s.spawn(move || {
                crate::mon::bind_slot(t);
                let v = generate(n / 8);
                out.lock().unwrap().push(v);
            });
        }
    });
    let mut keys: Vec<[u8; 57]> = out.into_inner().unwrap().concat();
    for _ in 0..40 {
        // first keys of fresh threads
        let v = std::thread::spawn(|| generate(8)).join().unwrap_or_default();
        keys.extend(v);
    }
    let short = if mon.thorough { 20_000 } else { 3_000 };
    for _ in 0..short {
        keys.extend(std::thread::spawn(|| generate(1)).join().unwrap_or_default());
    }
    // first keys of threads released together
    let groups = if mon.thorough { 400 } else { 40 };
    for _ in 0..groups {
        let b = std::sync::Arc::new(std::sync::Barrier::new(64));
        let hs: Vec<_> = (0..64)
            .filter_map(|_| {
                let b = b.clone();
                std::thread::Builder::new()
                    .spawn(move || {
                        b.wait();
                        generate(2)
                    })
                    .ok()
            })
            .collect();
        if hs.len() < 64 {
            // cannot happen on a healthy machine; do not wait for a barrier nobody reaches
            break;
        }
        for h in hs {
            keys.extend(h.join().unwrap_or_default());
        }
    }
    mon.fact("keys_from_short_lived_threads", (short + groups * 128 + 320).into());
    keys.extend(generate(n / 4)); // a longer history on one thread
    // fresh processes
    let exe = std::env::current_exe().expect("exe");
    let procs = if mon.thorough { 200 } else { 40 };
    let mut got = 0;
    for _ in 0..procs {
        // eight started together
        let cs: Vec<_> = (0..8)
            .filter_map(|_| std::process::Command::new(&exe).arg("--genkeys").arg("4").stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().ok())
            .collect();
        for c in cs {
            let Ok(o) = c.wait_with_output() else { continue };
            for l in String::from_utf8_lossy(&o.stdout).lines() {
                if l.len() == 114 {
                    keys.push(unhex(l).try_into().expect("57"));
                    got += 1;
                }
            }
        }
    }
    mon.fact("keys_from_fresh_processes", got.into());
    // processes that fork: parent, four children, one grandchild, after 0.. keys
    let mut got = 0;
    let pre = if mon.thorough { 300 } else { 40 };
    for n in 0..pre {
        let n = if n < 20 { n } else { n * n / 10 };
        let Ok(o) = std::process::Command::new(&exe).arg("--forkkeys").arg(n.to_string()).stderr(std::process::Stdio::null()).output() else { continue };
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            if l.len() == 114 {
                keys.push(unhex(l).try_into().expect("57"));
                got += 1;
            }
        }
    }
    mon.fact("keys_around_forks", got.into());
    judge_keys(mon, "generated_keys", &keys);
    bulk_unique(mon);
    // a generated key is a usable key
    for k in keys.iter().take(20) {
        let r = guarded(|| {
            let p = g::ed448_derive_public(k);
            g::ed448_verify(&p, &g::ed448_sign(k, b"m"), b"m") == Ok(true)
        });
        if r != Ok(true) {
            mon.fact("note", "a generated key failed to sign and verify; judged by C03".into());
        }
    }
}
