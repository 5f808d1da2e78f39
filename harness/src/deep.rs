//! Monitors on the guarded hooks: every field, scalar and group operation is
//! compared with the independent reference on extreme operands.
#![allow(unused_imports, unused_variables)]
use crate::gen;
use crate::mon::{hex, Case, Mon, Plan};
use crate::oracle as o;
use o::{Fe, Pt, Sc};

pub fn available() -> Vec<&'static str> {
    let mut v = vec![];
    if cfg!(verif_field) {
        v.push("field");
    }
    if cfg!(verif_scalar) {
        v.push("scalar");
    }
    if cfg!(verif_point) {
        v.push("point");
    }
    v
}

#[cfg(verif_field)]
mod field {
    use super::*;
    use libgoldilocks::verif_hooks::field as h;
    use std::hint::black_box as bb;

    fn lb(l: &[u32; 16]) -> Vec<u8> {
        l.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
    fn ls(l: &[u32; 16]) -> String {
        l.iter().map(|x| format!("{:08x}", x)).collect::<Vec<_>>().join(" ")
    }
    // operand bounds the library itself keeps: products see at most one
    // unreduced addition or biased subtraction, everything else weakly reduced
    // values
    const MUL_MAX: u32 = (1 << 29) + (1 << 8);
    const RED_MAX: u32 = (1 << 28) + (1 << 8);

    fn bad(c: &mut Case, op: &str, x: &[u32; 16], y: &[u32; 16], got: String, want: &Fe) {
        c.fail(
            format!("field {}: wrong result", op),
            &[("x limbs", ls(x)), ("y limbs", ls(y)), ("got", got), ("expected", hex(&o::f_to_bytes(want)))],
        );
    }
    fn cmp(c: &mut Case, op: &'static str, x: &[u32; 16], y: &[u32; 16], got: Result<[u32; 16], String>, want: &Fe) {
        c.class(op);
        c.checked(&[op.as_bytes(), &lb(x), &lb(y)]);
        match got {
            Ok(g) => {
                if o::f_from_limbs28(&g) != *want {
                    bad(c, op, x, y, ls(&g), want);
                }
            }
            Err(p) => bad(c, op, x, y, format!("panic {}", p), want),
        }
    }
    fn one(c: &mut Case) {
        use crate::mon::guarded;
        for _ in 0..24 {
            let x = gen::limbs(&mut c.rng, MUL_MAX);
            let y = if c.rng.one_in(8) { x } else { gen::limbs(&mut c.rng, MUL_MAX) };
            let (fx, fy) = (o::f_from_limbs28(&x), o::f_from_limbs28(&y));
            cmp(c, "mul", &x, &y, guarded(|| h::mul(bb(&x), bb(&y))), &o::f_mul(&fx, &fy));
            cmp(c, "square", &x, &x, guarded(|| h::square(bb(&x))), &o::f_sq(&fx));
            for k in [-39081i64, -78164, 39082] {
                let want = o::f_mul(&fx, &o::f_small(k));
                cmp(c, "mul_const", &x, &x, guarded(|| h::mul_const(bb(&x), k)), &want);
            }
            let x = gen::limbs(&mut c.rng, RED_MAX);
            let y = if c.rng.one_in(8) { x } else { gen::limbs(&mut c.rng, RED_MAX) };
            let (fx, fy) = (o::f_from_limbs28(&x), o::f_from_limbs28(&y));
            cmp(c, "add", &x, &y, guarded(|| h::add(bb(&x), bb(&y))), &o::f_add(&fx, &fy));
            cmp(c, "sub", &x, &y, guarded(|| h::sub(bb(&x), bb(&y))), &o::f_sub(&fx, &fy));
            for m in [0u32, u32::MAX] {
                let want = if m == 0 { fx } else { o::f_neg(&fx) };
                let g = guarded(|| h::negate_if(bb(&x), m));
                match g {
                    Ok((a, b)) => {
                        cmp(c, "negate_if", &x, &x, Ok(a), &want);
                        cmp(c, "decaf_negate_if", &x, &x, Ok(b), &want);
                    }
                    Err(p) => bad(c, "negate_if", &x, &x, format!("panic {}", p), &want),
                }
            }
            // canonical results
            c.class("reduce");
            c.checked(&[b"reduce", &lb(&x)]);
            match guarded(|| h::reduce(bb(&x))) {
                Ok(g) if g == o::f_to_limbs28(&fx) => {}
                g => bad(c, "strong reduction", &x, &x, format!("{:?}", g), &fx),
            }
            c.class("to_bytes");
            match guarded(|| h::to_bytes(bb(&x))) {
                Ok(g) if g == o::f_to_bytes(&fx) => {}
                g => bad(c, "serialization", &x, &x, format!("{:?}", g), &fx),
            }
            c.class("low_bit");
            match guarded(|| h::low_bit(bb(&x))) {
                Ok(g) if (g != 0) == (fx[0] & 1 == 1) && (g == 0 || g == u32::MAX) => {}
                g => bad(c, "low bit", &x, &x, format!("{:?}", g), &fx),
            }
            // equality: same value in another layout, and values one limb or bit apart
            let z = match c.rng.below(5) {
                0 => x,
                1 => o::f_to_limbs28(&fx),
                2 => {
                    let mut z = o::f_to_limbs28(&fx);
                    let i = c.rng.below(16);
                    z[i] ^= 1 << c.rng.below(28);
                    z
                }
                3 => {
                    let mut z = x;
                    let i = c.rng.below(16);
                    z[i] = z[i].wrapping_sub(1).min(RED_MAX);
                    z
                }
                _ => y,
            };
            let same = o::f_from_limbs28(&z) == fx;
            c.class(if same { "equal_true" } else { "equal_false" });
            c.checked(&[b"equal", &lb(&x), &lb(&z)]);
            match guarded(|| h::equal(bb(&x), bb(&z))) {
                Ok(g) if (g != 0) == same && (g == 0 || g == u32::MAX) => {}
                g => bad(c, "equality", &x, &z, format!("{:?}, values equal: {}", g, same), &fx),
            }
            if c.failed() {
                return;
            }
        }
        // roots, inversion
        let x = gen::limbs(&mut c.rng, RED_MAX);
        let fx = o::f_from_limbs28(&x);
        c.class("inverse_sqrt");
        c.checked(&[b"isr", &lb(&x)]);
        match guarded(|| h::inverse_sqrt(bb(&x))) {
            Ok(g) => {
                let r = o::f_from_limbs28(&g);
                let v = o::f_mul(&o::f_sq(&r), &fx);
                let want = if fx == o::ZERO {
                    o::ZERO
                } else if o::f_is_square(&fx) {
                    o::ONE
                } else {
                    o::f_neg(&o::ONE)
                };
                if v != want {
                    bad(c, "inverse square root: r^2 x", &x, &x, hex(&o::f_to_bytes(&v)), &want);
                }
            }
            Err(p) => bad(c, "inverse square root", &x, &x, format!("panic {}", p), &fx),
        }
        if fx != o::ZERO {
            cmp(c, "invert", &x, &x, guarded(|| h::invert(bb(&x))), &o::f_inv(&fx));
        }
        // decoding of y
        for _ in 0..8 {
            let e = gen::encoding(&mut c.rng);
            let y = o::f_from_bytes(&e[..56]);
            let ok = !o::ge_p(&y);
            c.class(if ok { "from_bytes_below_p" } else { "from_bytes_not_below_p" });
            c.checked(&[b"from_bytes", &e]);
            match guarded(|| h::from_bytes(bb(&e[..56]))) {
                Ok((l, m)) => {
                    if (m != 0) != ok || (ok && o::f_from_limbs28(&l) != y) {
                        c.fail("field deserialization: wrong value or range verdict", &[("bytes", hex(&e[..56])), ("got", format!("{} ok={:#x}", ls(&l), m)), ("below p", ok.to_string())]);
                    }
                }
                Err(p) => c.fail(format!("field deserialization panicked: {}", p), &[("bytes", hex(&e[..56]))]),
            }
        }
    }
    pub fn stage(mon: &Mon, share: f64) {
        mon.stage("deep_field", Plan::Share(share, 16), one);
    }
}

#[cfg(verif_scalar)]
mod scalar {
    use super::*;
    use crate::mon::guarded;
    use libgoldilocks::verif_hooks::scalar as h;
    use std::hint::black_box as bb;
    fn cmp(c: &mut Case, op: &'static str, a: &Sc, b: &Sc, got: Result<[u32; 14], String>, want: &Sc) {
        c.class(op);
        c.checked(&[op.as_bytes(), &o::s_to_bytes(a), &o::s_to_bytes(b)]);
        if got.as_ref().ok() != Some(&o::s_words(want)) {
            c.fail(
                format!("scalar {}: wrong result", op),
                &[("a", hex(&o::s_to_bytes(a))), ("b", hex(&o::s_to_bytes(b))), ("got", format!("{:08x?}", got)), ("expected", format!("{:08x?}", o::s_words(want)))],
            );
        }
    }
    fn one(c: &mut Case) {
        for _ in 0..32 {
            let a = gen::scalar(&mut c.rng);
            let b = match c.rng.below(8) {
                0 => a,
                1 => o::s_neg(&a),
                2 => o::s_add(&o::s_neg(&a), &o::s_from_bytes(&[1])),
                3 => o::s_add(&a, &o::s_from_bytes(&[1])),
                _ => gen::scalar(&mut c.rng),
            };
            let (wa, wb) = (o::s_words(&a), o::s_words(&b));
            cmp(c, "add", &a, &b, guarded(|| h::add(bb(&wa), bb(&wb))), &o::s_add(&a, &b));
            cmp(c, "sub", &a, &b, guarded(|| h::sub(bb(&wa), bb(&wb))), &o::s_sub(&a, &b));
            cmp(c, "mul", &a, &b, guarded(|| h::mul(bb(&wa), bb(&wb))), &o::s_mul(&a, &b));
            cmp(c, "halve", &a, &a, guarded(|| h::halve(bb(&wa))), &o::s_half(&a));
            c.class("to_bytes");
            match guarded(|| h::to_bytes(bb(&wa))) {
                Ok(g) if g == o::s_to_bytes(&a) => {}
                g => c.fail("scalar encoding: wrong bytes", &[("a", hex(&o::s_to_bytes(&a))), ("got", format!("{:?}", g))]),
            }
            // wide reduction: 57-byte (secret, S) and 114-byte (hash) strings
            let mut buf = vec![];
            match c.rng.below(4) {
                0 => buf.extend(gen::bytes57(&mut c.rng, &c.mon.dict)),
                1 => {
                    let k = c.rng.below(1000) as u64;
                    buf.extend(o::s_plus_kl(&a, k).unwrap_or_else(|| o::s_to_bytes(&a)));
                }
                2 => {
                    buf.extend(gen::bytes57(&mut c.rng, &c.mon.dict));
                    buf.extend(gen::bytes57(&mut c.rng, &c.mon.dict));
                }
                _ => {
                    // a + k L with a huge k: exercises every reduction step
                    let w: Vec<u64> = (0..14).map(|_| *c.rng.clone().pick(&[0u64, u64::MAX, 1, 1 << 63])).collect();
                    let _ = w;
                    buf = c.rng.vec(114);
                    let n = c.rng.below(114);
                    let f = *c.rng.pick(&[0u8, 0xff]);
                    if c.rng.one_in(2) {
                        buf[..n].fill(f);
                    } else {
                        buf[n..].fill(f);
                    }
                }
            }
            let want = o::s_from_bytes(&buf);
            c.class(if buf.len() == 57 { "from_bytes_57" } else { "from_bytes_114" });
            c.checked(&[b"from_bytes", &buf]);
            match guarded(|| h::from_bytes(bb(&buf))) {
                Ok(g) if g == o::s_words(&want) => {}
                g => c.fail("scalar decoding: wrong residue", &[("bytes", hex(&buf)), ("got", format!("{:08x?}", g)), ("expected", format!("{:08x?}", o::s_words(&want)))]),
            }
            if c.failed() {
                return;
            }
        }
    }
    pub fn stage(mon: &Mon, share: f64) {
        mon.stage("deep_scalar", Plan::Share(share, 16), one);
    }
}

#[cfg(verif_point)]
mod point {
    use super::*;
    use crate::mon::guarded;
    use libgoldilocks::verif_hooks::point as h;
    use std::hint::black_box as bb;

    fn expect(c: &mut Case, op: &'static str, key: &[&[u8]], got: Result<[u8; 57], String>, want: &Pt, what: &[(&str, String)]) {
        c.class(op);
        let mut k: Vec<&[u8]> = vec![op.as_bytes()];
        k.extend(key);
        c.checked(&k);
        let w = want.encode();
        if got.as_ref().ok() != Some(&w) {
            let mut d: Vec<(&str, String)> = what.to_vec();
            d.push(("got", match &got {
                Ok(g) => hex(g),
                Err(p) => format!("panic {}", p),
            }));
            d.push(("expected", hex(&w)));
            c.fail(format!("point {}: wrong result", op), &d);
        }
    }
    fn some_point(c: &mut Case) -> [u8; 57] {
        match c.rng.below(6) {
            0 => c.rng.pick(&o::torsion()).encode(),
            1 => {
                let s = o::s_from_bytes(&[c.rng.below(40) as u8]);
                o::base_mul(&s).encode()
            }
            2 => {
                let t = *c.rng.pick(&o::torsion());
                o::base_mul(&gen::scalar(&mut c.rng)).add(&t).encode()
            }
            3 => {
                let on: Vec<_> = gen::crafted().iter().filter(|x| x.0).collect();
                c.rng.pick(&on).2
            }
            _ => o::base_mul(&gen::scalar(&mut c.rng)).encode(),
        }
    }
    fn one(c: &mut Case) {
        // decode / encode
        for _ in 0..6 {
            let e = gen::encoding(&mut c.rng);
            let want = o::decode(&e);
            c.class(if want.is_some() { "decode_valid" } else { "decode_invalid" });
            c.checked(&[b"decode", &e]);
            match guarded(|| h::decode(bb(&e)).map(|p| (p.on_curve(), p.encode()))) {
                Ok(g) => {
                    if g.is_some() != want.is_some() {
                        c.fail("point decoding: wrong verdict", &[("encoding", hex(&e)), ("library accepts", g.is_some().to_string())]);
                    } else if let (Some((on, enc)), Some(w)) = (g, want) {
                        if !on {
                            c.fail("decoded point is not on the curve", &[("encoding", hex(&e))]);
                        }
                        expect(c, "decode_encode", &[&e], Ok(enc), &gen::prime_component(&w), &[("encoding", hex(&e))]);
                    }
                }
                Err(p) => c.fail(format!("point decoding panicked: {}", p), &[("encoding", hex(&e))]),
            }
        }
        // fixed-base
        for _ in 0..3 {
            let s = gen::scalar(&mut c.rng);
            let sb = o::s_to_bytes(&s);
            let w = o::s_words(&s);
            let want = o::base_mul(&s).mul4();
            expect(c, "base_mul", &[&sb], guarded(|| h::base_mul(bb(&w)).encode()), &want, &[("scalar", hex(&sb))]);
        }
        if c.failed() {
            return;
        }
        // variable-base, combined, group law
        let (ea, eb) = (some_point(c), some_point(c));
        let (pa, pb) = match (o::decode(&ea), o::decode(&eb)) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        let (ca, cb) = (gen::prime_component(&pa), gen::prime_component(&pb));
        let (la, lb) = match guarded(|| (h::decode(&ea), h::decode(&eb))) {
            Ok((Some(a), Some(b))) => (a, b),
            _ => {
                c.fail("valid encoding refused", &[("a", hex(&ea)), ("b", hex(&eb))]);
                return;
            }
        };
        let (s, t) = (gen::scalar(&mut c.rng), gen::scalar(&mut c.rng));
        let (sb, tb) = (o::s_to_bytes(&s), o::s_to_bytes(&t));
        let (sw, tw) = (o::s_words(&s), o::s_words(&t));
        let d = [("point", hex(&ea)), ("s", hex(&sb)), ("t", hex(&tb))];
        let four = o::s_words(&o::s_from_bytes(&[4]));
        expect(c, "mul", &[&ea, &tb], guarded(|| la.mul(bb(&tw)).encode()), &ca.mul(&t), &d);
        expect(c, "mul_by_four", &[&ea], guarded(|| la.mul(bb(&four)).encode()), &ca.mul4(), &d);
        let comb = o::base_mul(&s).mul4().add(&ca.mul(&t));
        expect(c, "double_mul", &[&ea, &sb, &tb], guarded(|| la.double_mul(bb(&sw), bb(&tw)).encode()), &comb, &d);
        if c.failed() {
            return;
        }
        // group law on points with arbitrary Z
        let d = [("a", hex(&ea)), ("b", hex(&eb)), ("s", hex(&sb)), ("t", hex(&tb))];
        let r = guarded(|| {
            let x = la.mul(&sw);
            let y = match tb[0] % 4 {
                0 => x.clone(),
                1 => la.mul(&sw).double(),
                _ => lb.mul(&tw),
            };
            (x.encode(), y.encode(), x.add(&y).encode(), x.sub(&y).encode(), x.double().encode(), x.equal(&y), x.equal(&la.mul(&sw)), x.add(&y).on_curve() && x.sub(&y).on_curve() && x.double().on_curve())
        });
        match r {
            Ok((ex, ey, add, sub, dbl, eq, eqs, on)) => {
                let x = ca.mul(&s);
                let y = match tb[0] % 4 {
                    0 => x,
                    1 => x.dbl(),
                    _ => cb.mul(&t),
                };
                expect(c, "mul", &[&ea, &sb], Ok(ex), &x, &d);
                expect(c, "mul", &[&eb, &tb], Ok(ey), &y, &d);
                expect(c, "add", &[&ex, &ey], Ok(add), &x.add(&y), &d);
                expect(c, "sub", &[&ex, &ey], Ok(sub), &x.add(&y.neg()), &d);
                expect(c, "double", &[&ex], Ok(dbl), &x.dbl(), &d);
                c.class(if eq { "equal_true" } else { "equal_false" });
                if eq != x.eq(&y) || !eqs {
                    c.fail("point equality: wrong verdict", &d);
                }
                if !on {
                    c.fail("a group operation left the curve", &d);
                }
            }
            Err(p) => c.fail(format!("group operation panicked: {}", p), &d),
        }
    }
    /// small and aligned pairs of scalars, and every digit of every window
    const SMALL: u64 = 64 * 16;
    const ALIGNED: u64 = 446 * 8;
    const NEGATIVE: u64 = 16 * 16;
    const DIGITS: u64 = 90 * 32;
    pub const GRID: u64 = SMALL + ALIGNED + NEGATIVE + DIGITS;
    fn shifted(k: u64, bit: u64) -> Sc {
        // k * 2^bit mod L
        let mut w = [0u64; 8];
        w[(bit / 64) as usize] = k << (bit % 64);
        if bit % 64 != 0 {
            w[(bit / 64) as usize + 1] = k >> (64 - bit % 64);
        }
        o::s_reduce_wide(&w)
    }
    fn grid(c: &mut Case) {
        let mut n = c.idx;
        let small = |k: u64| o::s_from_bytes(&[k as u8]);
        let (s, t) = if n < SMALL {
            (small(n / 16), small(n % 16))
        } else if n - SMALL < ALIGNED {
            n -= SMALL;
            let (a, b) = [(1, 1), (3, 7), (63, 15), (0, 1), (1, 0), (33, 9), (31, 1), (1, 5)][(n % 8) as usize];
            (shifted(a, n / 8), shifted(b, n / 8))
        } else if n - SMALL - ALIGNED < NEGATIVE {
            n -= SMALL + ALIGNED;
            (o::s_neg(&small(n / 16)), o::s_neg(&small(n % 16)))
        } else {
            n -= SMALL + ALIGNED + NEGATIVE;
            let (d, j) = (n % 32, n / 32);
            let x = shifted(d, 5 * j);
            (x, x)
        };
        let e = if c.idx % 3 == 0 { some_point(c) } else { o::base_mul(&small(5 + c.idx % 7)).encode() };
        let Some(p) = o::decode(&e) else { return };
        let p = gen::prime_component(&p);
        let Ok(Some(l)) = guarded(|| h::decode(&e)) else {
            c.fail("valid encoding refused", &[("a", hex(&e))]);
            return;
        };
        let (sb, tb) = (o::s_to_bytes(&s), o::s_to_bytes(&t));
        let (sw, tw) = (o::s_words(&s), o::s_words(&t));
        let d = [("point", hex(&e)), ("s", hex(&sb)), ("t", hex(&tb))];
        let (sg, tp) = (o::base_mul(&s).mul4(), p.mul(&t));
        expect(c, "grid_base_mul", &[&sb], guarded(|| h::base_mul(bb(&sw)).encode()), &sg, &d);
        expect(c, "grid_mul", &[&e, &tb], guarded(|| l.mul(bb(&tw)).encode()), &tp, &d);
        expect(c, "grid_double_mul", &[&e, &sb, &tb], guarded(|| l.double_mul(bb(&sw), bb(&tw)).encode()), &sg.add(&tp), &d);
    }
    pub fn stage(mon: &Mon, share: f64) {
        if mon.prop == "C14" {
            mon.stage("deep_point_grid", Plan::All(GRID), grid);
        }
        mon.stage("deep_point", Plan::Share(share, 16), one);
    }
}

pub fn field_stage(mon: &Mon, share: f64) {
    #[cfg(verif_field)]
    field::stage(mon, share);
}
pub fn scalar_stage(mon: &Mon, share: f64) {
    #[cfg(verif_scalar)]
    scalar::stage(mon, share);
}
pub fn point_stage(mon: &Mon, share: f64) {
    #[cfg(verif_point)]
    point::stage(mon, share);
}
