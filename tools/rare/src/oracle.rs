//! Independent reference model of Ed448 (RFC 8032 section 5.2), written from the
//! RFC: 64-bit limbs, untwisted projective Edwards arithmetic, own SHAKE256.
//! Shares no code, no representation, no table and no curve model (the library
//! works on the 4-isogenous twisted curve) with the code under test.
#![allow(dead_code)]

// ---------------------------------------------------------------- SHAKE256
const RC: [u64; 24] = [
    0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000,
    0x000000000000808b, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009,
    0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
    0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003,
    0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a,
    0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
];
const ROT: [u32; 25] = [
    0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14,
];

fn keccak(a: &mut [u64; 25]) {
    for rc in RC.iter() {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut b = [0u64; 25];
        for x in 0..5 {
            for y in 0..5 {
                b[y + 5 * ((2 * x + 3 * y) % 5)] = a[x + 5 * y].rotate_left(ROT[x + 5 * y]);
            }
        }
        for x in 0..5 {
            for y in 0..5 {
                a[x + 5 * y] = b[x + 5 * y] ^ (!b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
            }
        }
        a[0] ^= rc;
    }
}

pub fn shake256(parts: &[&[u8]], out: &mut [u8]) {
    const RATE: usize = 136;
    let mut st = [0u64; 25];
    let mut pos = 0usize;
    let mut absorb = |st: &mut [u64; 25], byte: u8| {
        st[pos / 8] ^= (byte as u64) << (8 * (pos % 8));
        pos += 1;
        if pos == RATE {
            keccak(st);
            pos = 0;
        }
    };
    for p in parts {
        for b in p.iter() {
            absorb(&mut st, *b);
        }
    }
    st[pos / 8] ^= 0x1fu64 << (8 * (pos % 8));
    st[(RATE - 1) / 8] ^= 0x80u64 << 56;
    keccak(&mut st);
    let mut k = 0;
    for o in out.iter_mut() {
        if k == RATE {
            keccak(&mut st);
            k = 0;
        }
        *o = (st[k / 8] >> (8 * (k % 8))) as u8;
        k += 1;
    }
}

// ---------------------------------------------------------------- field mod p
// p = 2^448 - 2^224 - 1; elements always fully reduced.
pub type Fe = [u64; 7];
pub const P: Fe = [
    u64::MAX, u64::MAX, u64::MAX, 0xfffffffe_ffffffff, u64::MAX, u64::MAX, u64::MAX,
];
pub const ZERO: Fe = [0; 7];
pub const ONE: Fe = [1, 0, 0, 0, 0, 0, 0];

fn cmp(a: &[u64], b: &[u64]) -> core::cmp::Ordering {
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    core::cmp::Ordering::Equal
}
fn sub_assign(a: &mut [u64], b: &[u64]) -> bool {
    let mut bo = false;
    for i in 0..a.len() {
        let bi = if i < b.len() { b[i] } else { 0 };
        let (r, o1) = a[i].overflowing_sub(bi);
        let (r, o2) = r.overflowing_sub(bo as u64);
        a[i] = r;
        bo = o1 | o2;
    }
    bo
}
fn add_assign(a: &mut [u64], b: &[u64]) -> bool {
    let mut c = false;
    for i in 0..a.len() {
        let bi = if i < b.len() { b[i] } else { 0 };
        let (r, o1) = a[i].overflowing_add(bi);
        let (r, o2) = r.overflowing_add(c as u64);
        a[i] = r;
        c = o1 | o2;
    }
    c
}
pub fn ge_p(a: &Fe) -> bool {
    cmp(a, &P) != core::cmp::Ordering::Less
}
/// value of a little-endian wide integer mod p
pub fn f_reduce_wide(w: &[u64]) -> Fe {
    // repeatedly fold: hi*2^448 = hi*(2^224 + 1)
    let mut v: Vec<u64> = w.to_vec();
    while v.len() > 7 && v[7..].iter().any(|&x| x != 0) {
        let hi: Vec<u64> = v[7..].to_vec();
        let n = (hi.len() + 4).max(7) + 1;
        let mut r = vec![0u64; n];
        r[..7].copy_from_slice(&v[..7]);
        add_assign(&mut r, &hi);
        let mut sh = vec![0u64; hi.len() + 4]; // hi << 224 = 3 limbs + 32 bits
        for i in 0..hi.len() {
            sh[i + 3] |= hi[i] << 32;
            sh[i + 4] |= hi[i] >> 32;
        }
        add_assign(&mut r, &sh);
        v = r;
    }
    let mut o = ZERO;
    for i in 0..7.min(v.len()) {
        o[i] = v[i];
    }
    while ge_p(&o) {
        sub_assign(&mut o, &P);
    }
    o
}
pub fn f_add(a: &Fe, b: &Fe) -> Fe {
    let mut r = [0u64; 8];
    r[..7].copy_from_slice(a);
    add_assign(&mut r, b);
    let mut p8 = [0u64; 8];
    p8[..7].copy_from_slice(&P);
    if cmp(&r, &p8) != core::cmp::Ordering::Less {
        sub_assign(&mut r, &p8);
    }
    let mut o = ZERO;
    o.copy_from_slice(&r[..7]);
    o
}
pub fn f_sub(a: &Fe, b: &Fe) -> Fe {
    let mut r = *a;
    if sub_assign(&mut r, b) {
        add_assign(&mut r, &P);
    }
    r
}
pub fn f_neg(a: &Fe) -> Fe {
    f_sub(&ZERO, a)
}
pub fn f_mul(a: &Fe, b: &Fe) -> Fe {
    let mut w = [0u64; 14];
    for i in 0..7 {
        let mut c = 0u128;
        for j in 0..7 {
            c += (a[i] as u128) * (b[j] as u128) + w[i + j] as u128;
            w[i + j] = c as u64;
            c >>= 64;
        }
        w[i + 7] = c as u64;
    }
    // fold without allocation: lo + hi + hi<<224
    let mut r = [0u64; 12];
    r[..7].copy_from_slice(&w[..7]);
    let mut sh = [0u64; 11];
    for i in 0..7 {
        sh[i + 3] |= w[7 + i] << 32;
        sh[i + 4] |= w[7 + i] >> 32;
    }
    add_assign(&mut r, &w[7..14]);
    add_assign(&mut r, &sh);
    // r < 2^448*(2^224+2): fold r[7..12] (< 2^226)
    let hi = [r[7], r[8], r[9], r[10], r[11]];
    let mut q = [0u64; 9];
    q[..7].copy_from_slice(&r[..7]);
    let mut sh2 = [0u64; 9];
    for i in 0..5 {
        sh2[i + 3] |= hi[i] << 32;
        sh2[i + 4] |= hi[i] >> 32;
    }
    add_assign(&mut q, &hi);
    add_assign(&mut q, &sh2);
    // tiny remainder in q[7]
    while q[7] != 0 || q[8] != 0 {
        let h = q[7];
        q[7] = 0;
        q[8] = 0;
        add_assign(&mut q, &[h]);
        add_assign(&mut q, &[0, 0, 0, h << 32, h >> 32]);
    }
    let mut o = ZERO;
    o.copy_from_slice(&q[..7]);
    while ge_p(&o) {
        sub_assign(&mut o, &P);
    }
    o
}
pub fn f_sq(a: &Fe) -> Fe {
    f_mul(a, a)
}
pub fn f_pow(a: &Fe, e: &Fe) -> Fe {
    let mut r = ONE;
    for i in (0..448).rev() {
        r = f_sq(&r);
        if (e[i / 64] >> (i % 64)) & 1 == 1 {
            r = f_mul(&r, a);
        }
    }
    r
}
pub fn f_inv(a: &Fe) -> Fe {
    let mut e = P;
    sub_assign(&mut e, &[2]);
    f_pow(a, &e)
}
/// (p-3)/4
pub fn exp_p34() -> Fe {
    let mut e = P;
    sub_assign(&mut e, &[3]);
    let mut o = ZERO;
    for i in 0..7 {
        o[i] = e[i] >> 2 | if i < 6 { e[i + 1] << 62 } else { 0 };
    }
    o
}
pub fn f_small(v: i64) -> Fe {
    let mut r = ZERO;
    r[0] = v.unsigned_abs();
    if v < 0 {
        f_neg(&r)
    } else {
        r
    }
}
pub fn f_from_bytes(b: &[u8]) -> Fe {
    // 56 bytes, NOT reduced (caller checks range)
    let mut r = ZERO;
    for i in 0..56 {
        r[i / 8] |= (b[i] as u64) << (8 * (i % 8));
    }
    r
}
pub fn f_to_bytes(a: &Fe) -> [u8; 56] {
    let mut o = [0u8; 56];
    for i in 0..56 {
        o[i] = (a[i / 8] >> (8 * (i % 8))) as u8;
    }
    o
}
/// value mod p of 16 radix-2^28 limbs of arbitrary size (the library's layout)
pub fn f_from_limbs28(l: &[u32; 16]) -> Fe {
    let mut w = [0u64; 9];
    for i in 0..16 {
        let bit = 28 * i;
        let v = (l[i] as u128) << (bit % 64);
        add_assign(&mut w[bit / 64..], &[v as u64, (v >> 64) as u64][..2.min(9 - bit / 64)]);
    }
    f_reduce_wide(&w)
}
/// canonical radix-2^28 limbs
pub fn f_to_limbs28(a: &Fe) -> [u32; 16] {
    let mut o = [0u32; 16];
    for i in 0..16 {
        let bit = 28 * i;
        let mut v = a[bit / 64] >> (bit % 64);
        if bit % 64 > 36 && bit / 64 < 6 {
            v |= a[bit / 64 + 1] << (64 - bit % 64);
        }
        o[i] = (v & 0xfffffff) as u32;
    }
    o
}
pub fn f_is_square(a: &Fe) -> bool {
    // a^((p-1)/2)
    if *a == ZERO {
        return true;
    }
    let mut e = P;
    sub_assign(&mut e, &[1]);
    let mut h = ZERO;
    for i in 0..7 {
        h[i] = e[i] >> 1 | if i < 6 { e[i + 1] << 63 } else { 0 };
    }
    f_pow(a, &h) == ONE
}

// ---------------------------------------------------------------- scalars mod L
pub type Sc = [u64; 7];
// L = 2^446 - 13818066809895115352007386748515426880336692474882178609894547503885
pub const L: Sc = [
    0x2378c292ab5844f3, 0x216cc2728dc58f55, 0xc44edb49aed63690, 0xffffffff7cca23e9,
    0xffffffffffffffff, 0xffffffffffffffff, 0x3fffffffffffffff,
];
pub fn s_reduce_wide(w: &[u64]) -> Sc {
    // plain binary long division
    let mut r = [0u64; 8];
    for i in (0..w.len() * 64).rev() {
        for k in (1..8).rev() {
            r[k] = r[k] << 1 | r[k - 1] >> 63;
        }
        r[0] = r[0] << 1 | (w[i / 64] >> (i % 64)) & 1;
        let mut l8 = [0u64; 8];
        l8[..7].copy_from_slice(&L);
        if cmp(&r, &l8) != core::cmp::Ordering::Less {
            sub_assign(&mut r, &l8);
        }
    }
    let mut o = [0u64; 7];
    o.copy_from_slice(&r[..7]);
    o
}
pub fn s_from_bytes(b: &[u8]) -> Sc {
    let mut w = vec![0u64; b.len() / 8 + 1];
    for (i, x) in b.iter().enumerate() {
        w[i / 8] |= (*x as u64) << (8 * (i % 8));
    }
    s_reduce_wide(&w)
}
pub fn s_to_bytes(s: &Sc) -> [u8; 57] {
    let mut o = [0u8; 57];
    for i in 0..56 {
        o[i] = (s[i / 8] >> (8 * (i % 8))) as u8;
    }
    o
}
pub fn s_add(a: &Sc, b: &Sc) -> Sc {
    let mut r = [0u64; 8];
    r[..7].copy_from_slice(a);
    add_assign(&mut r, b);
    s_reduce_wide(&r)
}
pub fn s_neg(a: &Sc) -> Sc {
    let a = s_reduce_wide(a);
    let mut r = L;
    sub_assign(&mut r, &a);
    s_reduce_wide(&r)
}
pub fn s_sub(a: &Sc, b: &Sc) -> Sc {
    s_add(a, &s_neg(b))
}
pub fn s_mul(a: &Sc, b: &Sc) -> Sc {
    let mut w = [0u64; 14];
    for i in 0..7 {
        let mut c = 0u128;
        for j in 0..7 {
            c += (a[i] as u128) * (b[j] as u128) + w[i + j] as u128;
            w[i + j] = c as u64;
            c >>= 64;
        }
        w[i + 7] = c as u64;
    }
    s_reduce_wide(&w)
}
pub fn s_half(a: &Sc) -> Sc {
    // a * (L+1)/2
    let mut h = L;
    add_assign(&mut h, &[1]);
    let mut o = [0u64; 7];
    for i in 0..7 {
        o[i] = h[i] >> 1 | if i < 6 { h[i + 1] << 63 } else { 0 };
    }
    s_mul(a, &o)
}
pub fn s_words(a: &Sc) -> [u32; 14] {
    let mut o = [0u32; 14];
    for i in 0..14 {
        o[i] = (a[i / 2] >> (32 * (i % 2))) as u32;
    }
    o
}
pub fn s_from_words(w: &[u32; 14]) -> Sc {
    let mut o = [0u64; 7];
    for i in 0..14 {
        o[i / 2] |= (w[i] as u64) << (32 * (i % 2));
    }
    o
}
/// raw little-endian 57-byte integer < L ?
pub fn s_bytes_canonical(b: &[u8; 57]) -> bool {
    if b[56] != 0 {
        return false;
    }
    let v = f_from_bytes(&b[..56]);
    cmp(&v, &L) == core::cmp::Ordering::Less
}
/// s + k*L as 57 little-endian bytes (None if it does not fit)
pub fn s_plus_kl(s: &Sc, k: u64) -> Option<[u8; 57]> {
    let mut w = [0u64; 8];
    w[..7].copy_from_slice(s);
    let mut c = 0u128;
    for i in 0..8 {
        let li = if i < 7 { L[i] } else { 0 };
        c += (li as u128) * (k as u128) + w[i] as u128;
        w[i] = c as u64;
        c >>= 64;
    }
    if w[7] > 0xff || c != 0 {
        return None;
    }
    let mut o = [0u8; 57];
    for i in 0..57 {
        o[i] = (w[i / 8] >> (8 * (i % 8))) as u8;
    }
    Some(o)
}

// ---------------------------------------------------------------- group
pub const D: i64 = -39081;
#[derive(Clone, Copy, Debug)]
pub struct Pt {
    pub x: Fe,
    pub y: Fe,
    pub z: Fe,
}
pub const IDENT: Pt = Pt { x: ZERO, y: ONE, z: ONE };

impl Pt {
    pub fn add(&self, o: &Pt) -> Pt {
        // RFC 8032 5.2.4
        let a = f_mul(&self.z, &o.z);
        let b = f_sq(&a);
        let c = f_mul(&self.x, &o.x);
        let d = f_mul(&self.y, &o.y);
        let e = f_neg(&f_mul(&f_small(-D), &f_mul(&c, &d)));
        let f = f_sub(&b, &e);
        let g = f_add(&b, &e);
        let h = f_mul(&f_add(&self.x, &self.y), &f_add(&o.x, &o.y));
        let hcd = f_sub(&f_sub(&h, &c), &d);
        Pt {
            x: f_mul(&f_mul(&a, &f), &hcd),
            y: f_mul(&f_mul(&a, &g), &f_sub(&d, &c)),
            z: f_mul(&f, &g),
        }
    }
    pub fn dbl(&self) -> Pt {
        let b = f_sq(&f_add(&self.x, &self.y));
        let c = f_sq(&self.x);
        let d = f_sq(&self.y);
        let e = f_add(&c, &d);
        let h = f_sq(&self.z);
        let j = f_sub(&e, &f_add(&h, &h));
        Pt {
            x: f_mul(&f_sub(&b, &e), &j),
            y: f_mul(&e, &f_sub(&c, &d)),
            z: f_mul(&e, &j),
        }
    }
    pub fn neg(&self) -> Pt {
        Pt { x: f_neg(&self.x), ..*self }
    }
    pub fn mul_words(&self, s: &[u64]) -> Pt {
        // 4-bit window
        let mut tab = [IDENT; 16];
        for i in 1..16 {
            tab[i] = tab[i - 1].add(self);
        }
        let mut r = IDENT;
        let mut started = false;
        for i in (0..s.len() * 16).rev() {
            if started {
                r = r.dbl().dbl().dbl().dbl();
            }
            let n = (s[i / 16] >> (4 * (i % 16))) & 15;
            if n != 0 {
                r = r.add(&tab[n as usize]);
                started = true;
            }
        }
        r
    }
    pub fn mul(&self, s: &Sc) -> Pt {
        self.mul_words(s)
    }
    pub fn eq(&self, o: &Pt) -> bool {
        f_mul(&self.x, &o.z) == f_mul(&o.x, &self.z) && f_mul(&self.y, &o.z) == f_mul(&o.y, &self.z)
    }
    pub fn is_ident(&self) -> bool {
        self.eq(&IDENT)
    }
    pub fn affine(&self) -> (Fe, Fe) {
        let zi = f_inv(&self.z);
        (f_mul(&self.x, &zi), f_mul(&self.y, &zi))
    }
    pub fn encode(&self) -> [u8; 57] {
        let (x, y) = self.affine();
        let mut o = [0u8; 57];
        o[..56].copy_from_slice(&f_to_bytes(&y));
        o[56] = ((x[0] & 1) as u8) << 7;
        o
    }
    pub fn mul4(&self) -> Pt {
        self.dbl().dbl()
    }
}

/// RFC 8032 5.2.3 decoding, strict.
pub fn decode(b: &[u8]) -> Option<Pt> {
    if b.len() != 57 || b[56] & 0x7f != 0 {
        return None;
    }
    let sign = b[56] >> 7;
    let y = f_from_bytes(&b[..56]);
    if ge_p(&y) {
        return None;
    }
    let x = recover_x(&y)?;
    let x = if x == ZERO {
        if sign == 1 {
            return None;
        }
        x
    } else if (x[0] & 1) as u8 != sign {
        f_neg(&x)
    } else {
        x
    };
    Some(Pt { x, y, z: ONE })
}
/// a square root of (y^2-1)/(d y^2-1), if any
pub fn recover_x(y: &Fe) -> Option<Fe> {
    let y2 = f_sq(y);
    let u = f_sub(&y2, &ONE);
    let v = f_sub(&f_mul(&f_small(D), &y2), &ONE);
    let u3 = f_mul(&f_sq(&u), &u);
    let v3 = f_mul(&f_sq(&v), &v);
    let u5v3 = f_mul(&f_mul(&u3, &f_sq(&u)), &v3);
    let x = f_mul(&f_mul(&u3, &v), &f_pow(&u5v3, &exp_p34()));
    if f_mul(&v, &f_sq(&x)) == u {
        Some(x)
    } else {
        None
    }
}

pub fn base() -> Pt {
    use std::sync::OnceLock;
    static B: OnceLock<Pt> = OnceLock::new();
    *B.get_or_init(|| {
        // RFC 8032 5.2 table: y coordinate of B, x is the even/odd root given there
        let y = dec_to_fe("298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660");
        let x = dec_to_fe("224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710");
        Pt { x, y, z: ONE }
    })
}
pub fn dec_to_fe(s: &str) -> Fe {
    let mut r = ZERO;
    let ten = f_small(10);
    for c in s.bytes() {
        r = f_add(&f_mul(&r, &ten), &f_small((c - b'0') as i64));
    }
    r
}
/// fixed-base multiplication with a cached radix-16 table (oracle's own)
pub fn base_mul(s: &Sc) -> Pt {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<[Pt; 16]>> = OnceLock::new();
    let t = T.get_or_init(|| {
        let mut out = Vec::new();
        let mut b = base();
        for _ in 0..112 {
            let mut row = [IDENT; 16];
            for i in 1..16 {
                row[i] = row[i - 1].add(&b);
            }
            out.push(row);
            b = b.dbl().dbl().dbl().dbl();
        }
        out
    });
    let mut r = IDENT;
    for i in 0..112 {
        let n = (s[i / 16] >> (4 * (i % 16))) & 15;
        if n != 0 {
            r = r.add(&t[i][n as usize]);
        }
    }
    r
}
/// the four points of the torsion subgroup: O, (0,-1), (1,0), (-1,0)
pub fn torsion() -> [Pt; 4] {
    let m1 = f_neg(&ONE);
    [
        IDENT,
        Pt { x: ZERO, y: m1, z: ONE },
        Pt { x: ONE, y: ZERO, z: ONE },
        Pt { x: m1, y: ZERO, z: ONE },
    ]
}
pub fn on_curve(p: &Pt) -> bool {
    let (x, y) = p.affine();
    let x2 = f_sq(&x);
    let y2 = f_sq(&y);
    f_add(&x2, &y2) == f_add(&ONE, &f_mul(&f_small(D), &f_mul(&x2, &y2)))
}

// ---------------------------------------------------------------- EdDSA
pub const DOM: &[u8] = b"SigEd448\0\0";

pub fn clamp(k: &mut [u8]) {
    k[0] &= 0xfc;
    k[55] |= 0x80;
    k[56] = 0;
}
/// integer of the clamped 57-byte string, mod L
pub fn clamped_scalar(sk: &[u8; 57]) -> Sc {
    let mut k = *sk;
    clamp(&mut k);
    s_from_bytes(&k)
}
pub fn pub_of_secret(sk: &[u8; 57]) -> [u8; 57] {
    base_mul(&clamped_scalar(sk)).encode()
}
pub fn expand(seed: &[u8; 57]) -> ([u8; 57], [u8; 57]) {
    let mut h = [0u8; 114];
    shake256(&[seed], &mut h);
    let mut a = [0u8; 57];
    let mut b = [0u8; 57];
    a.copy_from_slice(&h[..57]);
    b.copy_from_slice(&h[57..]);
    (a, b)
}
pub fn pub_of_seed(seed: &[u8; 57]) -> [u8; 57] {
    pub_of_secret(&expand(seed).0)
}
pub fn challenge(r: &[u8], a: &[u8], m: &[u8]) -> Sc {
    let mut h = [0u8; 114];
    shake256(&[DOM, r, a, m], &mut h);
    s_from_bytes(&h)
}
pub fn sign_raw(a: &Sc, pk: &[u8; 57], nonce_key: &[u8], m: &[u8]) -> [u8; 114] {
    let mut h = [0u8; 114];
    shake256(&[DOM, nonce_key, m], &mut h);
    let r = s_from_bytes(&h);
    let renc = base_mul(&r).encode();
    let k = challenge(&renc, pk, m);
    let s = s_add(&r, &s_mul(&k, a));
    let mut o = [0u8; 114];
    o[..57].copy_from_slice(&renc);
    o[57..].copy_from_slice(&s_to_bytes(&s));
    o
}
pub fn sign_seed(seed: &[u8; 57], m: &[u8]) -> [u8; 114] {
    let (sk, pre) = expand(seed);
    sign_raw(&clamped_scalar(&sk), &pub_of_secret(&sk), &pre, m)
}
pub fn sign_secret_nonce(sk: &[u8; 57], n: &[u8; 57], m: &[u8]) -> [u8; 114] {
    sign_raw(&clamped_scalar(sk), &pub_of_secret(sk), n, m)
}
/// the library's two-format key rule: top bit of the last byte selects
pub fn is_secret(k: &[u8; 57]) -> bool {
    k[56] & 0x80 != 0
}
pub fn derive(k: &[u8; 57]) -> [u8; 57] {
    if is_secret(k) {
        pub_of_secret(k)
    } else {
        pub_of_seed(k)
    }
}
pub fn sign(k: &[u8; 57], m: &[u8]) -> [u8; 114] {
    if is_secret(k) {
        let mut c = *k;
        clamp(&mut c);
        sign_secret_nonce(&c, &c, m)
    } else {
        sign_seed(k, m)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum V {
    Accept,
    /// every component decodes, the group equation fails
    Reject,
    /// refused before the equation; the set of true defects is in Diag
    Malformed,
}
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, Hash)]
pub struct Diag {
    pub pub_len: bool,
    pub sig_len: bool,
    pub zero_pub: bool,
    pub zero_sig: bool,
    pub bad_pub: bool,
    pub bad_r: bool,
    pub bad_s: bool,
}
/// RFC 8032 5.2.7 (cofactored equation), plus the library's refusal of the
/// all-zero key and all-zero signature.
pub fn verify(pk: &[u8], sig: &[u8], m: &[u8]) -> (V, Diag) {
    verify_as(pk, sig, m, true)
}
/// the verdict on the first 114 bytes of an over-long buffer: the all-zero
/// signature rule speaks of exactly 114 bytes, so it does not apply here
pub fn verify_prefix(pk: &[u8], sig: &[u8], m: &[u8]) -> (V, Diag) {
    verify_as(pk, &sig[..114], m, false)
}
fn verify_as(pk: &[u8], sig: &[u8], m: &[u8], zero_rule: bool) -> (V, Diag) {
    let mut d = Diag {
        pub_len: pk.len() != 57,
        sig_len: sig.len() != 114,
        ..Default::default()
    };
    d.zero_pub = !d.pub_len && pk.iter().all(|b| *b == 0);
    d.zero_sig = !d.sig_len && sig.iter().all(|b| *b == 0);
    let a = if d.pub_len { None } else { decode(pk) };
    d.bad_pub = !d.pub_len && a.is_none();
    let mut r = None;
    let mut s = None;
    if !d.sig_len {
        r = decode(&sig[..57]);
        d.bad_r = r.is_none();
        let mut sb = [0u8; 57];
        sb.copy_from_slice(&sig[57..]);
        d.bad_s = !s_bytes_canonical(&sb);
        if !d.bad_s {
            s = Some(s_from_bytes(&sb));
        }
    }
    if (d != Diag { zero_sig: d.zero_sig, ..Default::default() }) || (d.zero_sig && zero_rule) {
        return (V::Malformed, d);
    }
    let (a, r, s) = (a.unwrap(), r.unwrap(), s.unwrap());
    let k = challenge(&sig[..57], pk, m);
    let lhs = base_mul(&s).mul4();
    let rhs = r.add(&a.mul(&k)).mul4();
    (if lhs.eq(&rhs) { V::Accept } else { V::Reject }, d)
}
