//! One workload + online monitor per property (C01..C12, C14, C17); the
//! history properties are in hist.rs.
use crate::deep;
use crate::gen::{self, Triple};
use crate::mon::{guarded, hex, show, unhex, Case, Mon, Plan::*, Rng};
use crate::oracle as o;
use libgoldilocks::errors::LibgoldilockErrors as E;
use libgoldilocks::goldilocks as g;
use libgoldilocks::{PrehashSigner, SecretKey, SigningKey, VerifyingKey};
use o::{Diag, V};

// ------------------------------------------------------------------ helpers
pub fn eq_bytes(c: &mut Case, what: &str, got: &[u8], want: &[u8], inputs: &[(&str, &[u8])]) -> bool {
    if got == want {
        return true;
    }
    let mut d: Vec<(&str, String)> = inputs.iter().map(|(k, v)| (*k, hex(v))).collect();
    d.push(("got", hex(got)));
    d.push(("expected", hex(want)));
    c.fail(format!("{} differs from the reference", what), &d);
    false
}
pub fn kats() -> Vec<(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, bool)> {
    include_str!("../vectors/kats.txt")
        .lines()
        .filter(|l| !l.starts_with('#') && !l.is_empty())
        .map(|l| {
            let f: Vec<&str> = l.split_whitespace().collect();
            let m = if f[2] == "-" { vec![] } else { unhex(f[2]) };
            (unhex(f[0]), unhex(f[1]), m, unhex(f[3]), f[4] == "1")
        })
        .collect()
}
/// the reference must reproduce every OpenSSL vector before it may judge anything
pub fn self_test() -> Result<usize, String> {
    let ks = kats();
    for (seed, pk, m, sig, ok) in &ks {
        let seed: [u8; 57] = seed.as_slice().try_into().map_err(|_| "len")?;
        if o::pub_of_seed(&seed).as_slice() != pk.as_slice() {
            return Err("oracle public key".into());
        }
        if *ok && o::sign_seed(&seed, m).as_slice() != sig.as_slice() {
            return Err("oracle signature".into());
        }
        if (o::verify(pk, sig, m).0 == V::Accept) != *ok {
            return Err("oracle verdict".into());
        }
    }
    if !o::on_curve(&o::base()) || !o::base().mul(&o::L).is_ident() {
        return Err("oracle base point".into());
    }
    Ok(ks.len())
}
fn oracle_seed(k: &[u8; 57], m: &[u8]) -> ([u8; 57], [u8; 114], [u8; 57]) {
    let (sk, pre) = o::expand(k);
    let a = o::clamped_scalar(&sk);
    let pk = o::base_mul(&a).encode();
    (pk, o::sign_raw(&a, &pk, &pre, m), sk)
}
fn oracle_raw(k: &[u8; 57], n: &[u8; 57], m: &[u8]) -> ([u8; 57], [u8; 114]) {
    let a = o::clamped_scalar(k);
    let pk = o::base_mul(&a).encode();
    (pk, o::sign_raw(&a, &pk, n, m))
}
pub fn oracle_any(k: &[u8; 57], m: &[u8]) -> ([u8; 57], [u8; 114]) {
    if o::is_secret(k) {
        let mut cl = *k;
        o::clamp(&mut cl);
        oracle_raw(&cl, &cl, m)
    } else {
        let (a, b, _) = oracle_seed(k, m);
        (a, b)
    }
}

/// systematic keys: every single bit set, every single bit clear, every value of
/// the bytes that clamping and format dispatch look at
pub const SYS_KEYS: u64 = 456 * 2 + 3 * 256 + 57 * 4;
pub fn sys_key(i: u64, r: &mut Rng) -> [u8; 57] {
    let i = i as usize;
    let mut k = [0u8; 57];
    if i < 456 {
        k[i / 8] = 1 << (i % 8);
        return k;
    }
    if i < 912 {
        let b = i - 456;
        k = [0xff; 57];
        k[b / 8] &= !(1 << (b % 8));
        return k;
    }
    k = r.bytes();
    if i < 912 + 768 {
        let j = i - 912;
        k[[0, 55, 56][j / 256]] = j as u8;
        return k;
    }
    let j = i - 912 - 768;
    let p = j / 4;
    match j % 4 {
        0 => k[p] = 0,
        1 => k[p] = 0xff,
        2 => k[p..].fill(0),
        _ => k[..=p].fill(0),
    }
    k
}
/// message lengths that are always all visited
pub fn sys_lens(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if thorough { 2400 } else { 700 }).collect();
    for b in 10..=17 {
        let n = 1usize << b;
        v.extend([n - 1, n, n + 1, n + 137]);
    }
    // the hashed input is longer than the message by a key, a point and a prefix:
    // every total near the widths of narrow integers
    for b in 9..=16 {
        let n = 1usize << b;
        v.extend(n - 130..n);
    }
    for k in 5..40usize {
        for d in [0usize, 10, 67, 124] {
            let n = k * 136 * 3;
            v.extend([n - d - 1, n - d, n - d + 1]);
        }
    }
    v.extend([100_000, 250_000, 1 << 20, (1 << 20) + 1]);
    if !cfg!(debug_assertions) {
        v.extend([(5 << 20) + 77, (17 << 20) + 41]);
    }
    if thorough {
        v.extend([(1 << 21) + 5, 1 << 23, (1 << 24) + 1]);
    }
    v.sort();
    v.dedup();
    v
}
pub fn len_cases(mon: &Mon) -> Vec<usize> {
    let mut v = sys_lens(mon.thorough);
    // few new constants: try them as lengths, large ones too
    let few = mon.dict.ints.len() <= 24;
    for d in mon.dict.ints.iter().filter(|d| **d < 1 << if few { 20 } else { 13 }).take(60) {
        {
            let d = *d as usize;
            v.extend([d.saturating_sub(1), d, d + 1, d.saturating_sub(67), d.saturating_sub(124), d.saturating_sub(10), d.saturating_sub(57), d.saturating_sub(114)]);
        }
    }
    if few && !cfg!(debug_assertions) {
        for d in mon.dict.ints.iter().filter(|d| (1 << 20..1 << 26).contains(*d)).take(4) {
            let d = *d as usize;
            v.extend([d - 1, d, d + 1, d + 130]);
        }
    }
    v.sort();
    v.dedup();
    v
}
fn check_seed(c: &mut Case, k: &[u8; 57], m: &[u8], full: bool) {
    let i: [(&str, &[u8]); 2] = [("private key", k), ("message", m)];
    let (pk, sig, sk) = oracle_seed(k, m);
    c.checked(&[k, m]);
    c.log(|| format!("key {} msg {}", hex(k), show(m)));
    if !o::is_secret(k) {
        c.class("seed_form");
        if let Some(x) = c.lib("public key derivation", &i, || g::ed448_derive_public(k)) {
            eq_bytes(c, "derived public key", &x, &pk, &i);
        }
        if let Some(x) = c.lib("signing", &i, || g::ed448_sign(k, m)) {
            eq_bytes(c, "signature", &x, &sig, &i);
        }
    }
    if full || o::is_secret(k) {
        c.class("seed_entry_points");
        if let Some(x) = c.lib("secret expansion", &i, || g::private_to_secret(k)) {
            let mut want = sk;
            want[56] |= 0x80;
            eq_bytes(c, "expanded secret", &x, &want, &i);
        }
        if let Some(x) = c.lib("public key from private", &i, || g::private_to_public(k)) {
            eq_bytes(c, "public key from private", &x, &pk, &i);
        }
        if let Some(x) = c.lib("sign by private", &i, || g::sign_by_private(k, m)) {
            eq_bytes(c, "signature by private key", &x, &sig, &i);
        }
    }
    c.sample(|| serde_json::json!({"private_key": hex(k), "message": show(m), "public_key": hex(&pk), "signature": hex(&sig)}));
}
fn check_raw(c: &mut Case, k: &[u8; 57], m: &[u8]) {
    let i: [(&str, &[u8]); 2] = [("secret key", k), ("message", m)];
    let mut cl = *k;
    o::clamp(&mut cl);
    let (pk, sig) = oracle_raw(&cl, &cl, m);
    c.checked(&[k, m]);
    c.class("raw_form");
    c.log(|| format!("secret {} msg {}", hex(k), show(m)));
    if let Some(x) = c.lib("public key derivation", &i, || g::ed448_derive_public(k)) {
        eq_bytes(c, "derived public key", &x, &pk, &i);
    }
    if let Some(x) = c.lib("signing", &i, || g::ed448_sign(k, m)) {
        eq_bytes(c, "signature", &x, &sig, &i);
    }
    c.sample(|| serde_json::json!({"secret": hex(k), "message": show(m), "public_key": hex(&pk), "signature": hex(&sig)}));
}
fn check_explicit(c: &mut Case, k: &[u8; 57], n: &[u8; 57], m: &[u8]) {
    let i: [(&str, &[u8]); 3] = [("secret key", k), ("nonce seed", n), ("message", m)];
    let (pk, sig) = oracle_raw(k, n, m);
    c.checked(&[k, n, m]);
    c.class("explicit_nonce");
    if let Some(x) = c.lib("secret to public", &i, || g::secret_to_public(k)) {
        eq_bytes(c, "public key of a secret", &x, &pk, &i);
    }
    if let Some(x) = c.lib("explicit-nonce signing", &i, || g::sign_with_secret_and_nonce(k, n, m)) {
        eq_bytes(c, "explicit-nonce signature", &x, &sig, &i);
    }
}

// ------------------------------------------------------------------ C01
pub fn c01(mon: &Mon) {
    let ks = kats();
    mon.stage("openssl_vectors", All(ks.len() as u64), |c| {
        let (seed, pk, m, sig, ok) = &ks[c.idx as usize];
        let k: [u8; 57] = seed.as_slice().try_into().expect("vector");
        if !*ok {
            return;
        }
        c.checked(&[seed, m]);
        c.class("vector");
        let i: [(&str, &[u8]); 2] = [("private key", &k), ("message", m)];
        if o::is_secret(&k) {
            if let Some(x) = c.lib("sign by private", &i, || g::sign_by_private(&k, m)) {
                eq_bytes(c, "signature (OpenSSL vector)", &x, sig, &i);
            }
            return;
        }
        if let Some(x) = c.lib("public key derivation", &i, || g::ed448_derive_public(&k)) {
            eq_bytes(c, "public key (OpenSSL vector)", &x, pk, &i);
        }
        if let Some(x) = c.lib("signing", &i, || g::ed448_sign(&k, m)) {
            eq_bytes(c, "signature (OpenSSL vector)", &x, sig, &i);
        }
    });
    mon.stage("systematic_keys", All(SYS_KEYS), |c| {
        let k = sys_key(c.idx, &mut c.rng);
        let n = c.idx as usize % 5;
        let m = c.rng.vec(n);
        check_seed(c, &k, &m, true);
    });
    let texts = gen::contents();
    mon.stage("contents", All(texts.len() as u64), |c| {
        let m = texts[c.idx as usize].clone();
        let k = gen::seed_key(&mut c.rng, &c.mon.dict);
        check_seed(c, &k, &m, true);
    });
    mon.stage("tied_messages", All(40), |c| {
        let k = gen::seed_key(&mut c.rng, &c.mon.dict);
        for m in gen::tied_messages(&k) {
            check_seed(c, &k, &m, true);
        }
    });
    let rare = gen::rare();
    mon.stage("rare_values", All(rare.len() as u64), |c| {
        let (name, k, m) = &rare[c.idx as usize];
        c.class(name);
        check_seed(c, k, m, c.idx % 3 == 0);
    });
    let lens = len_cases(mon);
    mon.stage("message_lengths", All(lens.len() as u64), |c| {
        let n = lens[lens.len() - 1 - c.idx as usize];
        let k = gen::seed_key(&mut c.rng, &c.mon.dict);
        let m = gen::fill_msg(&mut c.rng, &c.mon.dict, n);
        check_seed(c, &k, &m, n < 5000);
    });
    mon.stage("mixed", Share(8.0, 64), |c| {
        let mut k = gen::seed_key(&mut c.rng, &c.mon.dict);
        let mut full = c.rng.one_in(6);
        if c.rng.one_in(12) {
            k[56] |= 0x80;
            full = true;
        }
        let m = gen::msg(&mut c.rng, &c.mon.dict);
        check_seed(c, &k, &m, full);
    });
    deep::field_stage(mon, 0.8);
    deep::scalar_stage(mon, 0.6);
    deep::point_stage(mon, 0.6);
}

// ------------------------------------------------------------------ C02
pub fn c02(mon: &Mon) {
    mon.stage("systematic_keys", All(SYS_KEYS), |c| {
        let mut k = sys_key(c.idx, &mut c.rng);
        let n = c.idx as usize % 5;
        let m = c.rng.vec(n);
        let nn = gen::bytes57(&mut c.rng, &c.mon.dict);
        check_explicit(c, &k, &nn, &m);
        check_explicit(c, &nn, &k, &m);
        k[56] |= 0x80;
        check_raw(c, &k, &m);
    });
    // secrets congruent to tiny and to maximal scalars
    mon.stage("steered_scalars", All(2048), |c| {
        let i = c.idx as usize;
        let e = o::s_from_bytes(&[(i / 4) as u8, (i / 4 / 256) as u8]);
        let e = if i % 2 == 0 { e } else { o::s_neg(&e) };
        if let Some(mut k) = gen::key_for_scalar(&e) {
            k[56] = 0x80;
            if i % 4 < 2 {
                k[0] |= 3;
                k[56] = 0xff;
            }
            c.class("steered");
            check_raw(c, &k, b"m");
            check_explicit(c, &k, &k, b"m");
        }
    });
    let texts = gen::contents();
    mon.stage("contents", All(texts.len() as u64), |c| {
        let m = texts[c.idx as usize].clone();
        let k = gen::raw_key(&mut c.rng, &c.mon.dict);
        check_raw(c, &k, &m);
        let nn = gen::bytes57(&mut c.rng, &c.mon.dict);
        check_explicit(c, &k, &nn, &m);
    });
    mon.stage("tied_inputs", All(40), |c| {
        let k = gen::raw_key(&mut c.rng, &c.mon.dict);
        let ms = gen::tied_messages(&k);
        for m in &ms {
            check_raw(c, &k, m);
        }
        for n in gen::tied_seeds(&k, &mut c.rng) {
            let m = &ms[c.rng.below(ms.len())];
            check_explicit(c, &k, &n, m);
            check_explicit(c, &k, &n, &n);
            check_explicit(c, &n, &k, b"");
        }
    });
    // the same rare scalars, reached through the raw form
    let rare = gen::rare();
    mon.stage("rare_values", All(rare.len() as u64), |c| {
        let (name, k, m) = &rare[c.idx as usize];
        c.class(name);
        let (sk, pre) = o::expand(k);
        check_explicit(c, &sk, &pre, m);
        let mut raw = sk;
        raw[56] |= 0x80;
        check_raw(c, &raw, m);
    });
    let lens = len_cases(mon);
    mon.stage("message_lengths", All(lens.len() as u64), |c| {
        let n = lens[lens.len() - 1 - c.idx as usize];
        let k = gen::raw_key(&mut c.rng, &c.mon.dict);
        let m = gen::fill_msg(&mut c.rng, &c.mon.dict, n);
        check_raw(c, &k, &m);
        if n < 5000 {
            let nn = gen::bytes57(&mut c.rng, &c.mon.dict);
            check_explicit(c, &k, &nn, &m);
        }
    });
    mon.stage("mixed", Share(8.0, 64), |c| {
        let k = gen::raw_key(&mut c.rng, &c.mon.dict);
        let m = gen::msg(&mut c.rng, &c.mon.dict);
        if c.rng.one_in(2) {
            check_raw(c, &k, &m);
        } else {
            let s = if c.rng.one_in(2) { gen::bytes57(&mut c.rng, &c.mon.dict) } else { k };
            let n = if c.rng.one_in(6) { s } else { gen::bytes57(&mut c.rng, &c.mon.dict) };
            check_explicit(c, &s, &n, &m);
        }
    });
    deep::field_stage(mon, 0.6);
    deep::scalar_stage(mon, 0.9);
    deep::point_stage(mon, 0.6);
}

// ------------------------------------------------------------------ C03
fn must_verify(c: &mut Case, how: &'static str, pk: &[u8], sig: &[u8], m: &[u8], k: &[u8]) {
    c.class(how);
    c.checked(&[how.as_bytes(), k, m]);
    let i: [(&str, &[u8]); 4] = [("private key", k), ("message", m), ("public key", pk), ("signature", sig)];
    let d: Vec<(&str, String)> = i.iter().map(|(a, b)| (*a, hex(b))).collect();
    if let Some(r) = c.lib("verification", &i, || g::ed448_verify(pk, sig, m)) {
        if r != Ok(true) {
            c.fail(format!("signature made by {} does not verify: {:?}", how, r), &d);
        }
    }
    if c.rng.one_in(3) {
        if let Some(r) = c.lib("verification with error", &i, || g::ed448_verify_with_error(pk, sig, m)) {
            if r != Ok(()) {
                c.fail(format!("signature made by {} does not verify: {:?}", how, r), &d);
            }
        }
    }
}
fn sign_verify(c: &mut Case, k: &[u8; 57], m: &[u8], how: usize) {
    let i: [(&str, &[u8]); 2] = [("private key", k), ("message", m)];
    match how {
        0 => {
            if let Some((pk, s)) = c.lib("signing", &i, || (g::ed448_derive_public(k), g::ed448_sign(k, m))) {
                must_verify(c, "direct signing", &pk, &s, m, k);
            }
        }
        1 => {
            if let Some((pk, s)) = c.lib("signing", &i, || (g::private_to_public(k), g::sign_by_private(k, m))) {
                must_verify(c, "seed signing", &pk, &s, m, k);
            }
        }
        2 => {
            let n = gen::bytes57(&mut c.rng, &c.mon.dict);
            if let Some((pk, s)) = c.lib("signing", &i, || (g::secret_to_public(k), g::sign_with_secret_and_nonce(k, &n, m))) {
                must_verify(c, "explicit-nonce signing", &pk, &s, m, k);
            }
        }
        _ => {
            let r = c.lib("signing", &i, || {
                let sk = SigningKey::from_slice(k);
                sk.sign_prehash(m).map(|s| (sk.verifying_key().as_bytes().to_vec(), s.as_slice().to_vec()))
            });
            match r {
                Some(Ok((pk, s))) if s.len() >= 114 => must_verify(c, "key object signing", &pk, &s[..114], m, k),
                Some(x) => c.fail(format!("key object signing failed: {:?}", x.map(|_| ())), &[("private key", hex(k))]),
                None => {}
            }
        }
    }
    c.sample(|| serde_json::json!({"private_key": hex(k), "message": show(m), "entry": how}));
}
/// run the monitors while another thread signs and verifies one message of the
/// size that MON_HUGE names (beyond the range of narrow counters of bits or bytes)
pub fn beside_huge(mon: &Mon, f: impl FnOnce()) {
    let n: usize = std::env::var("MON_HUGE").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    if mon.plan_only || mon.only_stage.is_some() || n == 0 {
        return f();
    }
    std::thread::scope(|s| {
        let h = s.spawn(move || {
            let mut r = Rng::new(&[mon.seed, 0x4096]);
            let k: [u8; 57] = r.bytes();
            let mut m = vec![0x5au8; n];
            r.fill(&mut m[..4096]);
            r.fill(&mut m[n - 4096..]);
            let got = guarded(|| {
                let p = g::ed448_derive_public(&k);
                let s = g::ed448_sign(&k, &m);
                let ok = matches!(g::ed448_verify(&p, &s, &m), Ok(true));
                (ok, s)
            });
            // the message is hashed to its last byte
            let tail = match &got {
                Ok((true, s)) if n < 1 << 30 => {
                    m[n - 1] ^= 1;
                    guarded(|| matches!(g::ed448_verify(&g::ed448_derive_public(&k), s, &m), Ok(true))).ok()
                }
                _ => Some(false),
            };
            (k, got, tail)
        });
        f();
        let t0 = std::time::Instant::now();
        if let Ok((k, got, tail)) = h.join() {
            mon.checks.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let d = [("private key", hex(&k)), ("message length", n.to_string())];
            match got {
                Ok((true, _)) if tail != Some(true) => {}
                Ok((true, _)) => mon.fail("huge_message", 0, "a changed huge message verifies".into(), &d),
                Ok(_) => mon.fail("huge_message", 0, "the signature of a huge message is refused".into(), &d),
                Err(e) => mon.fail("huge_message", 0, format!("signing or verifying a huge message panicked: {}", e), &d),
            }
        }
        mon.fact("huge_message", serde_json::json!({"bytes": n, "waited_ms": t0.elapsed().as_millis() as u64}));
    });
}
pub fn c03(mon: &Mon) {
    beside_huge(mon, || c03_all(mon));
}
fn c03_all(mon: &Mon) {
    mon.stage("systematic_keys", All(SYS_KEYS), |c| {
        let k = sys_key(c.idx, &mut c.rng);
        let n = c.idx as usize % 9;
        let m = c.rng.vec(n);
        sign_verify(c, &k, &m, if c.idx < 912 { 0 } else { c.idx as usize % 4 });
    });
    let texts = gen::contents();
    mon.stage("contents", All(texts.len() as u64), |c| {
        let m = texts[c.idx as usize].clone();
        let k = gen::key(&mut c.rng, &c.mon.dict);
        sign_verify(c, &k, &m, c.idx as usize % 4);
    });
    mon.stage("tied_messages", All(40), |c| {
        let k = gen::key(&mut c.rng, &c.mon.dict);
        for m in gen::tied_messages(&k) {
            let how = c.rng.below(4);
            sign_verify(c, &k, &m, how);
        }
        for n in gen::tied_seeds(&k, &mut c.rng) {
            let i: [(&str, &[u8]); 2] = [("secret", &k), ("nonce seed", &n)];
            if let Some((pk, s)) = c.lib("signing", &i, || (g::secret_to_public(&k), g::sign_with_secret_and_nonce(&k, &n, b"m"))) {
                must_verify(c, "explicit-nonce signing, related nonce seed", &pk, &s, b"m", &k);
            }
        }
    });
    let rare = gen::rare();
    mon.stage("rare_values", All(rare.len() as u64), |c| {
        let (name, k, m) = &rare[c.idx as usize];
        c.class(name);
        sign_verify(c, k, m, if c.idx % 2 == 0 { 0 } else { 3 });
    });
    let lens = len_cases(mon);
    mon.stage("message_lengths", All(lens.len() as u64), |c| {
        let n = lens[lens.len() - 1 - c.idx as usize];
        let k = gen::key(&mut c.rng, &c.mon.dict);
        let m = gen::fill_msg(&mut c.rng, &c.mon.dict, n);
        sign_verify(c, &k, &m, c.idx as usize % 4);
    });
    mon.stage("steered_scalars", All(256), |c| {
        let i = c.idx as usize;
        let e = o::s_from_bytes(&[(i / 2) as u8]);
        let e = if i % 2 == 0 { e } else { o::s_neg(&e) };
        if let Some(mut k) = gen::key_for_scalar(&e) {
            k[56] = 0x80;
            sign_verify(c, &k, &[i as u8], if i % 4 < 2 { 0 } else { 2 });
        }
    });
    mon.stage("mixed", Share(8.0, 64), |c| {
        let k = gen::key(&mut c.rng, &c.mon.dict);
        let m = gen::msg(&mut c.rng, &c.mon.dict);
        let how = c.rng.below(4);
        sign_verify(c, &k, &m, how);
    });
    // validly signed triples of every algebraic shape must be accepted too: they
    // drive the verifier through scalars honest hashing reaches with negligible
    // probability
    mon.stage("extreme_scalars", Share(2.0, 32), |c| {
        let (a, rr) = (gen::scalar(&mut c.rng), gen::scalar(&mut c.rng));
        let mut k = [0u8; 57];
        if let Some(x) = gen::key_for_scalar(&a) {
            k = x;
            k[56] = 0x80;
        }
        let m = gen::msg(&mut c.rng, &c.mon.dict);
        if k[56] == 0x80 {
            sign_verify(c, &k, &m, 0);
        }
        let pk = o::base_mul(&a).encode();
        let re = o::base_mul(&rr).encode();
        let _ = (pk, re);
    });
    deep::field_stage(mon, 0.6);
    deep::scalar_stage(mon, 0.4);
    deep::point_stage(mon, 1.0);
}

// ------------------------------------------------------------------ C04, C07, C08
pub type Both = (Result<bool, E>, Result<(), E>);
pub fn verify_both(c: &mut Case, t: &Triple, both: bool) -> Option<Both> {
    let i: [(&str, &[u8]); 3] = [("public key", &t.pk), ("signature", &t.sig), ("message", &t.msg)];
    let a = c.lib("verification", &i, || g::ed448_verify(&t.pk, &t.sig, &t.msg))?;
    let b = if both { c.lib("verification with error", &i, || g::ed448_verify_with_error(&t.pk, &t.sig, &t.msg))? } else { Ok(()) };
    Some((a, b))
}
fn tdetail(t: &Triple) -> Vec<(&'static str, String)> {
    vec![("class", t.class.to_string()), ("public key", hex(&t.pk)), ("signature", hex(&t.sig)), ("message", if t.msg.len() > 1 << 16 { show(&t.msg) } else { hex(&t.msg) })]
}
/// reference verdict on the buffers as given, and on the 114-byte prefix of an
/// over-long signature
pub fn reference(t: &Triple) -> (V, Diag, V) {
    let (v, d) = o::verify(&t.pk, &t.sig, &t.msg);
    let p = if t.sig.len() > 114 { o::verify_prefix(&t.pk, &t.sig, &t.msg).0 } else { v };
    (v, d, p)
}
fn c04_judge(c: &mut Case, t: &Triple) {
    let both = c.rng.one_in(4);
    let (v, _, prefix) = reference(t);
    c.checked(&[&t.pk, &t.sig, &t.msg]);
    c.class(t.class);
    c.class(match v {
        V::Accept => "ref:accept",
        V::Reject => "ref:reject",
        V::Malformed => "ref:malformed",
    });
    c.log(|| format!("{} ref {:?} pk {} sig {} msg {}", t.class, v, hex(&t.pk), hex(&t.sig), show(&t.msg)));
    if let Some((a, b)) = verify_both(c, t, both) {
        let acc = a == Ok(true);
        let want = v == V::Accept;
        let bad = if t.sig.len() > 114 { acc && prefix != V::Accept } else { acc != want };
        if bad {
            c.fail(format!("verification {} but the standard {} ({:?})", if acc { "accepts" } else { "does not accept" }, if want { "accepts" } else { "refuses" }, a), &tdetail(t));
        }
        if both {
            let acc = b == Ok(());
            let bad = if t.sig.len() > 114 { acc && prefix != V::Accept } else { acc != want };
            if bad {
                c.fail(format!("error-reporting verification {} but the standard {} ({:?})", if acc { "accepts" } else { "does not accept" }, if want { "accepts" } else { "refuses" }, b), &tdetail(t));
            }
        }
        c.sample(|| serde_json::json!({"class": t.class, "public_key": show(&t.pk), "signature": show(&t.sig), "message": show(&t.msg), "verdict": format!("{:?}", a)}));
    }
}
/// every special and crafted encoding, as key and as commitment, with the
/// signature a lax verifier would accept where one can be made
pub fn encoding_triple(i: usize, r: &mut Rng) -> Triple {
    let sp = gen::special_encodings();
    let cr = gen::crafted();
    let n = sp.len() + cr.len();
    let e = if i % n < sp.len() { sp[i % n].1 } else { cr[i % n - sp.len()].2 };
    let as_key = i / n == 0;
    let m = r.vec(3);
    if as_key {
        let s = gen::scalar(r);
        let re = o::base_mul(&s).encode();
        Triple { class: "special_key", pk: e.to_vec(), sig: gen::assemble(&re, &o::s_to_bytes(&s)), msg: m }
    } else {
        let a = gen::scalar(r);
        let pk = o::base_mul(&a).encode();
        Triple { class: "special_commitment", pk: pk.to_vec(), sig: gen::mal_sign(&a, &pk, &o::s_from_bytes(&[0]), &e, &m), msg: m }
    }
}
fn encoding_count() -> u64 {
    2 * (gen::special_encodings().len() + gen::crafted().len()) as u64
}
pub fn c04(mon: &Mon) {
    let ks = kats();
    mon.stage("openssl_verdicts", All(ks.len() as u64), |c| {
        let (_, pk, m, sig, ok) = &ks[c.idx as usize];
        let t = Triple { class: "openssl", pk: pk.clone(), sig: sig.clone(), msg: m.clone() };
        c.checked(&[pk, sig, m]);
        c.class(if *ok { "openssl_accepts" } else { "openssl_refuses" });
        if let Some((a, _)) = verify_both(c, &t, false) {
            if (a == Ok(true)) != *ok {
                c.fail("verdict differs from OpenSSL", &tdetail(&t));
            }
        }
    });
    mon.stage("special_encodings", All(encoding_count()), |c| {
        let t = encoding_triple(c.idx as usize, &mut c.rng);
        c04_judge(c, &t);
    });
    let texts = gen::contents();
    mon.stage("contents", All(texts.len() as u64), |c| {
        let m = texts[c.idx as usize].clone();
        let k = gen::key(&mut c.rng, &c.mon.dict);
        let (pk, sig) = oracle_any(&k, &m);
        c04_judge(c, &Triple { class: "honest", pk: pk.to_vec(), sig: sig.to_vec(), msg: m });
    });
    mon.stage("tied_messages", All(40), |c| {
        let k = gen::key(&mut c.rng, &c.mon.dict);
        let ms = gen::tied_messages(&k);
        for (i, m) in ms.iter().enumerate() {
            let (pk, sig) = oracle_any(&k, m);
            c04_judge(c, &Triple { class: "tied_honest", pk: pk.to_vec(), sig: sig.to_vec(), msg: m.clone() });
            c04_judge(c, &Triple { class: "tied_mismatch", pk: pk.to_vec(), sig: sig.to_vec(), msg: ms[(i + 1) % ms.len()].clone() });
        }
    });
    let rare = gen::rare();
    mon.stage("rare_values", All(rare.len() as u64), |c| {
        let (name, k, m) = &rare[c.idx as usize];
        let (pk, sig) = oracle_any(k, m);
        let mut t = Triple { class: name, pk: pk.to_vec(), sig: sig.to_vec(), msg: m.clone() };
        c04_judge(c, &t);
        let b = c.rng.below(912);
        t.sig[b / 8] ^= 1 << (b % 8);
        t.class = "rare_tampered";
        c04_judge(c, &t);
    });
    let lens = len_cases(mon);
    mon.stage("message_lengths", All(lens.len() as u64), |c| {
        let n = lens[lens.len() - 1 - c.idx as usize];
        let (k, m) = (gen::key(&mut c.rng, &c.mon.dict), gen::fill_msg(&mut c.rng, &c.mon.dict, n));
        let (pk, sig) = oracle_any(&k, &m);
        let mut t = Triple { class: "honest", pk: pk.to_vec(), sig: sig.to_vec(), msg: m };
        c04_judge(c, &t);
        // same signature, last byte / one more byte / one fewer
        t.class = "msg_edited";
        match c.idx % 3 {
            0 if n > 0 => t.msg[n - 1] ^= 1,
            1 => t.msg.push(0),
            _ => {
                if t.msg.pop().is_none() {
                    t.msg.push(1)
                }
            }
        }
        c04_judge(c, &t);
    });
    mon.stage("all_classes", All(gen::TRIPLE_CLASSES as u64 * 24), |c| {
        let w = c.idx as usize % gen::TRIPLE_CLASSES;
        let t = gen::triple_of(&mut c.rng, &c.mon.dict, w);
        c04_judge(c, &t);
    });
    mon.stage("mixed", Share(8.0, 64), |c| {
        let t = gen::triple(&mut c.rng, &c.mon.dict);
        c04_judge(c, &t);
    });
    deep::field_stage(mon, 0.7);
    deep::scalar_stage(mon, 0.5);
    deep::point_stage(mon, 1.2);
}

// ------------------------------------------------------------------ C05
fn tampered(c: &mut Case, t: &Triple) {
    c.checked(&[&t.pk, &t.sig, &t.msg]);
    c.class(t.class);
    let both = c.rng.one_in(6);
    if let Some((a, b)) = verify_both(c, t, both) {
        if a == Ok(true) || (both && b == Ok(())) {
            // confirm that this really is not a valid triple in its own right
            if o::verify(&t.pk, &t.sig, &t.msg).0 != V::Accept {
                c.fail("a tampered triple verifies", &tdetail(t));
            }
        }
    }
}
pub fn c05(mon: &Mon) {
    let sweeps: u64 = if mon.thorough { 24 } else { 2 };
    // complete single-bit sweeps; case = (sweep, chunk)
    let chunk = 16usize;
    let per = (912 + 456 + 40 * 8) / chunk as u64 + 1;
    let base: Vec<Triple> = (0..sweeps)
        .map(|s| {
            let mut r = Rng::new(&[mon.seed, 0xc05, s]);
            let k = gen::key(&mut r, &mon.dict);
            let m = r.vec(if s % 2 == 0 { 40 } else { 33 });
            let (pk, sig) = oracle_any(&k, &m);
            Triple { class: "honest", pk: pk.to_vec(), sig: sig.to_vec(), msg: m }
        })
        .collect();
    mon.stage("bit_sweep", All(sweeps * per), |c| {
        let s = (c.idx / per) as usize;
        let ch = (c.idx % per) as usize;
        for b in ch * chunk..(ch + 1) * chunk {
            let mut t = base[s].clone();
            if b < 912 {
                t.sig[b / 8] ^= 1 << (b % 8);
                t.class = "signature_bit";
            } else if b < 912 + 456 {
                let b = b - 912;
                t.pk[b / 8] ^= 1 << (b % 8);
                t.class = "key_bit";
            } else {
                let b = b - 912 - 456;
                if b / 8 >= t.msg.len() {
                    continue;
                }
                t.msg[b / 8] ^= 1 << (b % 8);
                t.class = "message_bit";
            }
            tampered(c, &t);
            if c.failed() {
                return;
            }
        }
    });
    // every multiple of the order that fits in 57 bytes
    let ks: Vec<u64> = (1..=if mon.thorough { 1030 } else { 260 }).chain((0..30).map(|i| 300 + 25 * i)).collect();
    mon.stage("s_plus_kl", All(ks.len() as u64), |c| {
        let mut r = Rng::new(&[c.mon.seed, 0x5c05, c.idx % 7]);
        let (_, mut t) = gen::honest(&mut r, &c.mon.dict);
        let s = o::s_from_bytes(&t.sig[57..]);
        if let Some(b) = o::s_plus_kl(&s, ks[c.idx as usize]) {
            t.sig[57..].copy_from_slice(&b);
            t.class = "s_plus_multiple_of_order";
            tampered(c, &t);
        }
        // small S, so that S + L still has a clear top: identity key
        let s = gen::scalar(&mut c.rng);
        let pk = o::torsion()[c.rng.below(4)].encode();
        let re = o::base_mul(&s).encode();
        if let Some(b) = o::s_plus_kl(&s, ks[c.idx as usize]) {
            let t = Triple { class: "s_plus_multiple_of_order_structured", pk: pk.to_vec(), sig: gen::assemble(&re, &b), msg: vec![1] };
            tampered(c, &t);
        }
    });
    // very long messages: no byte, and no length, is without weight
    let mut long = vec![70_000usize, 300_000, (1 << 20) + 3];
    if !cfg!(debug_assertions) {
        long.extend([(5 << 20) + 77, (17 << 20) + 41]);
        long.extend(mon.dict.ints.iter().filter(|d| (1 << 16..1 << 26).contains(*d)).take(4).map(|d| *d as usize + 130));
    }
    mon.stage("long_messages", All(long.len() as u64), |c| {
        let n = long[long.len() - 1 - c.idx as usize];
        let k = gen::key(&mut c.rng, &c.mon.dict);
        let m = c.rng.vec(n);
        let i: [(&str, &[u8]); 1] = [("private key", &k)];
        let Some((pk, sig)) = c.lib("signing", &i, || (g::ed448_derive_public(&k), g::ed448_sign(&k, &m))) else { return };
        let mut t = Triple { class: "long_message", pk: pk.to_vec(), sig: sig.to_vec(), msg: m };
        if verify_both(c, &t, false).is_none() {
            return;
        }
        for j in 0..6 {
            let at = match j {
                0 => n - 1,
                1 => n / 2,
                2 => 0,
                _ => c.rng.below(n),
            };
            match j {
                4 => t.msg.truncate(n - 1),
                5 => t.msg.resize(n + 1, 0),
                _ => t.msg[at] ^= 1,
            }
            tampered(c, &t);
            if c.failed() {
                return;
            }
            if j < 4 {
                t.msg[at] ^= 1;
            }
        }
    });
    // accepted first, then changed in the same buffers
    let near: Vec<usize> = [0usize, 1, 31, 32, 57, 64, 114, 135, 136, 137, 200, 256, 272, 500, 1000, 1024, 1100, 2048, 4000, 4096, 5000, 8192, 10_000, 16_384, 40_000, 65_536]
        .into_iter()
        .chain(mon.dict.ints.iter().filter(|d| (2..1 << 16).contains(*d)).take(24).map(|d| *d as usize + 3))
        .collect();
    mon.stage("after_acceptance", All(near.len() as u64 * 2), |c| {
        let n = near[near.len() - 1 - c.idx as usize % near.len()];
        let k = gen::key(&mut c.rng, &c.mon.dict);
        let m = gen::fill_msg(&mut c.rng, &c.mon.dict, n);
        let (pk, sig) = oracle_any(&k, &m);
        let mut t = Triple { class: "changed_after_acceptance", pk: pk.to_vec(), sig: sig.to_vec(), msg: m };
        t.msg.reserve(8);
        for j in 0..12 {
            let i: [(&str, &[u8]); 2] = [("public key", &pk), ("signature", &sig)];
            let (a, b, m) = (&t.pk, &t.sig, &t.msg);
            let ok = c.lib("verification", &i, || matches!(g::ed448_verify(a, b, m), Ok(true)) & g::ed448_verify_with_error(a, b, m).is_ok());
            if ok != Some(true) {
                return; // an honest signature refused: C03
            }
            let (at, bit) = match j {
                0 => (0, 1u8),
                1 => (n / 2, 0x80),
                2 => (n.max(1) - 1, 1),
                _ => (c.rng.below(n.max(1)), 1 << c.rng.below(8)),
            };
            let (sa, pa) = (c.rng.below(114), c.rng.below(57));
            let edit = |t: &mut Triple, undo: bool| match j {
                8 | 9 => t.sig[sa] ^= bit,
                10 => t.pk[pa] ^= bit,
                11 => {
                    if undo {
                        t.msg.pop();
                    } else {
                        t.msg.push(bit);
                    }
                }
                7 if n > 1 && at + 1 < n => {
                    t.msg[at] ^= bit;
                    t.msg[at + 1] ^= bit;
                }
                _ if n > 0 => t.msg[at] ^= bit,
                _ => t.sig[sa] ^= bit,
            };
            edit(&mut t, false);
            tampered(c, &t);
            if c.failed() {
                return;
            }
            edit(&mut t, true);
        }
    });
    // messages that some normalisation would identify, under each other's signatures
    let fams = gen::families();
    let cross: Vec<(usize, usize)> = fams.iter().enumerate().flat_map(|(f, v)| (0..v.len()).map(move |i| (f, i))).collect();
    mon.stage("normalised_messages", All(cross.len() as u64), |c| {
        let (f, i) = cross[c.idx as usize];
        let k = gen::key(&mut c.rng, &c.mon.dict);
        let (pk, sig) = oracle_any(&k, &fams[f][i]);
        for (j, m) in fams[f].iter().enumerate() {
            if j != i {
                tampered(c, &Triple { class: "message_normalised", pk: pk.to_vec(), sig: sig.to_vec(), msg: m.clone() });
                if c.failed() {
                    return;
                }
            }
        }
    });
    mon.stage("tied_messages", All(24), |c| {
        let k = gen::key(&mut c.rng, &c.mon.dict);
        let ms = gen::tied_messages(&k);
        for m in &ms {
            let (pk, sig) = oracle_any(&k, m);
            for x in [c.rng.below(ms.len()), c.rng.below(ms.len())] {
                if ms[x] != *m {
                    tampered(c, &Triple { class: "message_replaced_by_tied", pk: pk.to_vec(), sig: sig.to_vec(), msg: ms[x].clone() });
                }
            }
        }
    });
    let rare = gen::rare();
    mon.stage("rare_values", All(rare.len() as u64), |c| {
        let (name, k, m) = &rare[c.idx as usize];
        c.class(name);
        let (pk, sig) = oracle_any(k, m);
        let t = Triple { class: "rare_tampered", pk: pk.to_vec(), sig: sig.to_vec(), msg: m.clone() };
        for part in 0..4 {
            let mut x = t.clone();
            match part {
                0 => x.sig[c.rng.below(57)] ^= 1 << c.rng.below(8),
                1 => x.sig[57 + c.rng.below(57)] ^= 1 << c.rng.below(8),
                2 => x.pk[c.rng.below(57)] ^= 1 << c.rng.below(8),
                _ => {
                    if let Some(b) = o::s_plus_kl(&o::s_from_bytes(&t.sig[57..]), 1) {
                        x.sig[57..].copy_from_slice(&b);
                    }
                }
            }
            tampered(c, &x);
        }
    });
    let lens = len_cases(mon);
    mon.stage("message_edits_at_length", All(lens.len() as u64), |c| {
        let n = lens[lens.len() - 1 - c.idx as usize];
        let (k, m) = (gen::key(&mut c.rng, &c.mon.dict), gen::fill_msg(&mut c.rng, &c.mon.dict, n));
        let (pk, sig) = oracle_any(&k, &m);
        let mk = |class, m: Vec<u8>| Triple { class, pk: pk.to_vec(), sig: sig.to_vec(), msg: m };
        let mut e = m.clone();
        e.push(*c.rng.clone().pick(&[0u8, 0x80, 0xff, 1]));
        tampered(c, &mk("message_extended", e));
        if n > 0 {
            tampered(c, &mk("message_truncated", m[..n - 1].to_vec()));
            let mut e = m.clone();
            e[n - 1] ^= 1 << c.rng.below(8);
            tampered(c, &mk("message_last_byte", e));
            let mut e = m.clone();
            let p = c.rng.below(n);
            e[p] ^= 1 << c.rng.below(8);
            tampered(c, &mk("message_random_byte", e));
        }
        if n > 1 {
            let mut e = m.clone();
            let (p, q) = (c.rng.below(n), c.rng.below(n));
            e.swap(p, q);
            if e != m {
                tampered(c, &mk("message_permuted", e));
            }
        }
    });
    mon.stage("mixed", Share(8.0, 64), |c| {
        // 0: sig bit 1: key bit 2: msg bit 3: edit 4: S+kL 5: key+T 6: R+T 7.. others
        const W: [usize; 14] = [4, 5, 6, 7, 8, 36, 37, 17, 18, 19, 21, 29, 25, 32];
        let w = W[c.rng.below(W.len())];
        let t = gen::triple_of(&mut c.rng, &c.mon.dict, w);
        tampered(c, &t);
        // multi-bit tampering of an honest triple
        let (_, mut t) = gen::honest(&mut c.rng, &c.mon.dict);
        let orig = t.clone();
        for _ in 0..c.rng.range(1, 4) {
            match c.rng.below(5) {
                0 => {
                    let b = c.rng.below(912);
                    t.sig[b / 8] ^= 1 << (b % 8)
                }
                1 => {
                    let i = c.rng.below(114);
                    t.sig[i] = c.rng.u32() as u8
                }
                2 => {
                    let i = c.rng.below(57);
                    t.pk[i] = c.rng.u32() as u8
                }
                3 if !t.msg.is_empty() => {
                    let i = c.rng.below(t.msg.len());
                    t.msg[i] = c.rng.u32() as u8
                }
                _ => t.sig.swap(c.rng.clone().below(114), c.rng.clone().below(100)),
            }
        }
        t.class = "random_tampering";
        if (&t.pk, &t.sig, &t.msg) != (&orig.pk, &orig.sig, &orig.msg) {
            tampered(c, &t);
        }
    });
}

// ------------------------------------------------------------------ C06
fn encoding_judge(c: &mut Case, e: &[u8; 57], fixed: &Triple) {
    let valid = o::decode(e).is_some();
    c.class(if valid { "canonical" } else { "not_canonical" });
    c.checked(&[e]);
    if e.iter().any(|b| *b != 0) {
        let t = Triple { class: "as_key", pk: e.to_vec(), sig: fixed.sig.clone(), msg: fixed.msg.clone() };
        if let Some((a, _)) = verify_both(c, &t, false) {
            if a.is_ok() != valid {
                c.fail(format!("encoding {} as a public key: {:?}", if valid { "of a curve point is refused" } else { "that is not canonical is accepted" }, a), &[("encoding", hex(e)), ("signature", hex(&t.sig)), ("message", hex(&t.msg))]);
            }
        }
    }
    let mut sig = fixed.sig.clone();
    sig[..57].copy_from_slice(e);
    let t = Triple { class: "as_commitment", pk: fixed.pk.clone(), sig, msg: fixed.msg.clone() };
    if let Some((a, _)) = verify_both(c, &t, false) {
        if a.is_ok() != valid {
            c.fail(format!("encoding {} as a commitment: {:?}", if valid { "of a curve point is refused" } else { "that is not canonical is accepted" }, a), &[("encoding", hex(e)), ("public key", hex(&t.pk)), ("signature", hex(&t.sig))]);
        }
    }
    c.sample(|| serde_json::json!({"encoding": hex(e), "canonical": valid}));
}
pub fn c06(mon: &Mon) {
    let mut r = Rng::new(&[mon.seed, 0xc06]);
    let k = gen::seed_key(&mut r, &mon.dict);
    let m = r.vec(9);
    let (pk, sig) = oracle_any(&k, &m);
    let fixed = Triple { class: "fixed", pk: pk.to_vec(), sig: sig.to_vec(), msg: m };
    let sp = gen::special_encodings();
    let cr = gen::crafted();
    mon.stage("special_encodings", All((sp.len() + cr.len()) as u64), |c| {
        let i = c.idx as usize;
        let e = if i < sp.len() { sp[i].1 } else { cr[i - sp.len()].2 };
        if i >= sp.len() {
            c.class(if cr[i - sp.len()].0 { "crafted_on_curve" } else { "crafted_off_by_one_limb" });
        }
        encoding_judge(c, &e, &fixed);
    });
    // every value of the last byte, on points and on non-points
    mon.stage("last_byte", All(256), |c| {
        let mut e = if c.rng.one_in(3) { gen::encoding(&mut c.rng) } else { o::base_mul(&gen::scalar(&mut c.rng)).encode() };
        e[56] = c.idx as u8;
        encoding_judge(c, &e, &fixed);
    });
    mon.stage("mixed", Share(6.0, 64), |c| {
        let mut e = gen::encoding(&mut c.rng);
        if c.rng.one_in(6) {
            gen::dict_poke(&mut c.rng, &c.mon.dict, &mut e);
        }
        encoding_judge(c, &e, &fixed);
    });
    let rare = gen::rare();
    mon.stage("rare_values", All(rare.len() as u64), |c| {
        let (name, k, m) = &rare[c.idx as usize];
        c.class(name);
        let i: [(&str, &[u8]); 2] = [("private key", k), ("message", m)];
        if let Some((pk, sig)) = c.lib("derivation and signing", &i, || (g::ed448_derive_public(k), g::ed448_sign(k, m))) {
            let (wpk, wsig) = oracle_any(k, m);
            if pk != wpk || sig[..57] != wsig[..57] {
                c.fail("emitted encoding is not the canonical encoding of the point", &[("private key", hex(k)), ("message", hex(m)), ("public key", hex(&pk)), ("commitment", hex(&sig[..57])), ("expected public key", hex(&wpk)), ("expected commitment", hex(&wsig[..57]))]);
            }
            encoding_judge(c, &wpk, &fixed);
            encoding_judge(c, &wsig[..57].try_into().expect("57"), &fixed);
        }
    });
    // what the library emits is canonical and means what it should
    mon.stage("emitted", Share(3.0, 64), |c| {
        let k = gen::key(&mut c.rng, &c.mon.dict);
        let m = gen::msg(&mut c.rng, &c.mon.dict);
        let i: [(&str, &[u8]); 2] = [("private key", &k), ("message", &m)];
        let got = c.lib("derivation and signing", &i, || (g::ed448_derive_public(&k), g::ed448_sign(&k, &m)));
        if let Some((pk, sig)) = got {
            for (what, e) in [("public key", &pk[..]), ("commitment", &sig[..57])] {
                c.class("emitted");
                c.checked(&[e]);
                match o::decode(e) {
                    None => c.fail(format!("emitted {} is not a canonical encoding", what), &[("private key", hex(&k)), ("message", hex(&m)), ("encoding", hex(e))]),
                    Some(p) => {
                        if p.encode().as_slice() != e {
                            c.fail(format!("emitted {} does not re-encode to itself", what), &[("encoding", hex(e))]);
                        }
                    }
                }
            }
            let (wpk, _) = oracle_any(&k, &m);
            if pk != wpk {
                c.fail("emitted public key encodes another point", &[("private key", hex(&k)), ("got", hex(&pk)), ("expected", hex(&wpk))]);
            }
        }
    });
    deep::field_stage(mon, 1.5);
    deep::point_stage(mon, 1.5);
}

// ------------------------------------------------------------------ C07
fn truthful(e: &E, d: &Diag, prefix: &Diag, t: &Triple) -> bool {
    match e {
        E::InvalidPubkeyLengthError => d.pub_len,
        E::DecodePubkeyError => d.bad_pub,
        E::InvalidSignatureLengthError => d.sig_len,
        E::DecodeSignatureError => prefix.bad_r || prefix.bad_s,
        E::InvalidSignatureError => d.zero_pub || prefix.zero_sig || (t.sig.len() == 114 && d.zero_sig),
        _ => false,
    }
}
fn c07_judge(c: &mut Case, t: &Triple) {
    let (v, d) = o::verify(&t.pk, &t.sig, &t.msg);
    let prefix = if t.sig.len() > 114 { o::verify_prefix(&t.pk, &t.sig, &t.msg) } else { (v, d) };
    c.checked(&[&t.pk, &t.sig, &t.msg]);
    c.class(t.class);
    let both = c.rng.one_in(2);
    if let Some((a, b)) = verify_both(c, t, both) {
        let well_formed = v != V::Malformed;
        match &a {
            Ok(x) => {
                c.class("verdict:ok");
                let lax_ok = t.sig.len() > 114 && prefix.0 != V::Malformed;
                if !well_formed && !lax_ok && (*x || d.pub_len || t.sig.len() < 114) {
                    c.fail(format!("malformed input gives the verdict {:?}", a), &tdetail(t));
                } else if !well_formed && !lax_ok {
                    // refusing with `false` instead of an error is still not a truthful error
                    c.fail(format!("malformed input is reported as a well-formed mismatch: {:?}", a), &tdetail(t));
                }
            }
            Err(e) => {
                c.class(match e {
                    E::InvalidPubkeyLengthError => "verdict:key_length",
                    E::DecodePubkeyError => "verdict:key_encoding",
                    E::InvalidSignatureLengthError => "verdict:signature_length",
                    E::DecodeSignatureError => "verdict:signature_encoding",
                    E::InvalidSignatureError => "verdict:zero",
                    _ => "verdict:other",
                });
                if well_formed {
                    c.fail(format!("well-formed input gives an error instead of a verdict: {:?}", a), &tdetail(t));
                } else if !truthful(e, &d, &prefix.1, t) {
                    c.fail(format!("the error names a defect the input does not have: {:?}; true defects {:?}", e, d), &tdetail(t));
                }
            }
        }
        if both {
            if let Err(e) = &b {
                let plain_reject = *e == E::InvalidSignatureError && (v == V::Reject || prefix.0 == V::Reject);
                if !plain_reject && !truthful(e, &d, &prefix.1, t) {
                    c.fail(format!("the error names a defect the input does not have: {:?}; true defects {:?}", e, d), &tdetail(t));
                }
            }
        }
        c.sample(|| serde_json::json!({"class": t.class, "key_len": t.pk.len(), "sig_len": t.sig.len(), "result": format!("{:?}", a), "defects": format!("{:?}", d)}));
    }
}
fn length_case(i: usize, r: &mut Rng, dict: &gen::Dict) -> Triple {
    let (_, mut x) = gen::honest(r, dict);
    x.msg.truncate(64);
    x.class = "length_grid";
    let fill = |r: &mut Rng, v: &mut Vec<u8>, n: usize| {
        let old = v.clone();
        v.truncate(n);
        while v.len() < n {
            let j = v.len();
            v.push(match n % 4 {
                0 => 0,
                1 => 0xff,
                2 => old[j % old.len()],
                _ => r.u32() as u8,
            });
        }
    };
    if i < 300 {
        let mut p = x.pk.clone();
        fill(r, &mut p, i);
        x.pk = p;
    } else if i < 800 {
        let mut p = x.sig.clone();
        fill(r, &mut p, i - 300);
        x.sig = p;
    } else {
        let (mut p, mut q) = (x.pk.clone(), x.sig.clone());
        let n = r.below(130);
        fill(r, &mut p, n);
        let n = r.below(260);
        fill(r, &mut q, n);
        x.pk = p;
        x.sig = q;
    }
    x
}
pub fn c07(mon: &Mon) {
    mon.stage("length_grid", All(1200), |c| {
        let t = length_case(c.idx as usize, &mut c.rng, &c.mon.dict);
        c07_judge(c, &t);
    });
    mon.stage("special_encodings", All(encoding_count()), |c| {
        let t = encoding_triple(c.idx as usize, &mut c.rng);
        c07_judge(c, &t);
    });
    let big: [usize; 6] = [1 << 22, 1 << 20, (1 << 16) + 1, 65535, 4096, 0];
    mon.stage("message_sizes", All(big.len() as u64), |c| {
        let n = big[c.idx as usize];
        let k = gen::key(&mut c.rng, &c.mon.dict);
        let m = gen::fill_msg(&mut c.rng, &c.mon.dict, n);
        let (pk, sig) = oracle_any(&k, &m);
        let mut t = Triple { class: "honest", pk: pk.to_vec(), sig: sig.to_vec(), msg: m };
        c07_judge(c, &t);
        t.sig[57 + c.rng.below(50)] ^= 1;
        t.class = "sig_bit_flipped";
        c07_judge(c, &t);
    });
    // wrong-length inputs that are huge
    mon.stage("huge_parts", All(12), |c| {
        let n = [58usize, 115, 1000, 65536, 1 << 20, 1 << 22][c.idx as usize % 6];
        let (_, mut t) = gen::honest(&mut c.rng, &c.mon.dict);
        t.class = "huge_part";
        if c.idx < 6 {
            t.pk = c.rng.vec(n);
        } else {
            t.sig = c.rng.vec(n.max(115));
        }
        c07_judge(c, &t);
    });
    mon.stage("all_classes", All(gen::TRIPLE_CLASSES as u64 * 16), |c| {
        let w = c.idx as usize % gen::TRIPLE_CLASSES;
        let t = gen::triple_of(&mut c.rng, &c.mon.dict, w);
        c07_judge(c, &t);
    });
    mon.stage("mixed", Share(6.0, 64), |c| {
        let t = if c.rng.one_in(3) {
            let i = c.rng.below(1200);
            length_case(i, &mut c.rng, &c.mon.dict)
        } else {
            gen::triple(&mut c.rng, &c.mon.dict)
        };
        c07_judge(c, &t);
    });
    mon.stage("byte_soup", Share(3.0, 64), |c| {
        let n = c.rng.below(80);
        let mut pk = c.rng.vec(n);
        if c.rng.one_in(2) {
            pk = gen::encoding(&mut c.rng).to_vec();
        }
        let n = c.rng.below(180);
        let mut sig = c.rng.vec(n);
        if c.rng.one_in(2) {
            sig = gen::encoding(&mut c.rng).to_vec();
            sig.extend(gen::bytes57(&mut c.rng, &c.mon.dict));
        }
        let n = c.rng.below(40);
        let t = Triple { class: "byte_soup", pk, sig, msg: c.rng.vec(n) };
        c07_judge(c, &t);
    });
    deep::field_stage(mon, 0.7);
    deep::point_stage(mon, 0.7);
}

// ------------------------------------------------------------------ C08
fn c08_judge(c: &mut Case, t: &Triple) {
    c.checked(&[&t.pk, &t.sig, &t.msg]);
    c.class(t.class);
    // either may be broken in a way that panics: agreement then means both panic
    let a = guarded(|| g::ed448_verify(&t.pk, &t.sig, &t.msg));
    let b = guarded(|| g::ed448_verify_with_error(&t.pk, &t.sig, &t.msg));
    let agree = match (&a, &b) {
        (Ok(Ok(true)), Ok(Ok(()))) => {
            c.class("agree:accept");
            true
        }
        (Ok(Ok(false)), Ok(Err(E::InvalidSignatureError))) => {
            c.class("agree:refuse");
            true
        }
        (Ok(Err(x)), Ok(Err(y))) => {
            c.class(match x {
                E::InvalidPubkeyLengthError => "agree:key_length",
                E::DecodePubkeyError => "agree:key_encoding",
                E::InvalidSignatureLengthError => "agree:signature_length",
                E::DecodeSignatureError => "agree:signature_encoding",
                E::InvalidSignatureError => "agree:zero",
                _ => "agree:other_error",
            });
            x == y
        }
        (Err(_), Err(_)) => {
            c.class("agree:both_panic");
            true
        }
        _ => false,
    };
    if !agree {
        let mut d = tdetail(t);
        d.push(("boolean", format!("{:?}", a)));
        d.push(("error-reporting", format!("{:?}", b)));
        c.fail("the two verification entry points disagree", &d);
    }
    c.sample(|| serde_json::json!({"class": t.class, "boolean": format!("{:?}", a), "error_reporting": format!("{:?}", b)}));
}
pub fn c08(mon: &Mon) {
    mon.stage("length_grid", All(1100), |c| {
        let t = length_case(c.idx as usize, &mut c.rng, &c.mon.dict);
        c08_judge(c, &t);
    });
    mon.stage("special_encodings", All(encoding_count()), |c| {
        let t = encoding_triple(c.idx as usize, &mut c.rng);
        c08_judge(c, &t);
    });
    let lens = len_cases(mon);
    mon.stage("message_lengths", All(lens.len() as u64), |c| {
        let n = lens[lens.len() - 1 - c.idx as usize];
        let (k, m) = (gen::key(&mut c.rng, &c.mon.dict), gen::fill_msg(&mut c.rng, &c.mon.dict, n));
        let (pk, sig) = oracle_any(&k, &m);
        let mut t = Triple { class: "honest", pk: pk.to_vec(), sig: sig.to_vec(), msg: m };
        if c.idx % 2 == 0 {
            t.sig[60] ^= 1;
            t.class = "sig_bit_flipped";
        }
        c08_judge(c, &t);
    });
    mon.stage("all_classes", All(gen::TRIPLE_CLASSES as u64 * 16), |c| {
        let w = c.idx as usize % gen::TRIPLE_CLASSES;
        let t = gen::triple_of(&mut c.rng, &c.mon.dict, w);
        c08_judge(c, &t);
    });
    mon.stage("mixed", Share(8.0, 64), |c| {
        let t = gen::triple(&mut c.rng, &c.mon.dict);
        c08_judge(c, &t);
    });
}

// ------------------------------------------------------------------ C09
/// bytes of a secret key object, by the only observable route
fn secret_bytes(s: &SecretKey) -> Option<Vec<u8>> {
    match serde_json::to_value(s) {
        Ok(serde_json::Value::String(h)) if h.len() == 114 && h.is_ascii() => Some(unhex(&h)),
        _ => None,
    }
}
/// a source whose every output is a function of one byte stream
pub struct StreamRng {
    pub data: Vec<u8>,
    pub pos: usize,
    /// bytes handed out by filling buffers
    pub filled: Vec<u8>,
    /// words handed out
    pub words: usize,
}
impl StreamRng {
    pub fn new(data: &[u8]) -> Self {
        StreamRng { data: data.to_vec(), pos: 0, filled: vec![], words: 0 }
    }
    fn take(&mut self, b: &mut [u8]) {
        for x in b.iter_mut() {
            *x = self.data[self.pos % self.data.len()];
            self.pos += 1;
        }
    }
}
impl rand_core::RngCore for StreamRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.take(&mut b);
        self.words += 1;
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.take(&mut b);
        self.words += 1;
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        self.take(b);
        self.filled.extend_from_slice(b);
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(b);
        Ok(())
    }
}
impl rand_core::CryptoRng for StreamRng {}

fn mixed_case(r: &mut Rng, h: &str) -> String {
    h.chars().map(|c| if r.one_in(2) { c.to_ascii_uppercase() } else { c }).collect()
}
fn c09_case(c: &mut Case, k: [u8; 57], m: &[u8]) {
    let h = hex(&k);
    let hm = mixed_case(&mut c.rng, &h);
    let i: [(&str, &[u8]); 1] = [("key bytes", &k)];
    let other = {
        let mut x = k;
        let b = c.rng.below(456);
        x[b / 8] ^= 1 << (b % 8);
        x
    };
    let res = c.lib("building key objects", &i, || {
        let mut v: Vec<(&str, SigningKey)> = vec![
            ("from_slice", SigningKey::from_slice(&k)),
            ("from_str", SigningKey::from_str(&h)),
            ("from_str mixed case", SigningKey::from_str(&hm)),
            ("from SecretKey bytes", SigningKey::from(SecretKey::from_bytes(&k))),
            ("from SecretKey hex", SecretKey::from_str(&h).into()),
        ];
        if let Ok(x) = SigningKey::from_bytes(&k) {
            v.push(("from_bytes", x));
        }
        if let Ok(x) = serde_json::from_str::<SigningKey>(&format!("\"{}\"", h)) {
            v.push(("deserialized", x));
        }
        let mut rng = StreamRng::new(&k);
        let rk = SigningKey::random(&mut rng);
        (v, rk, rng)
    });
    let Some((objs, rk, rng)) = res else { return };
    if objs.len() != 7 {
        c.fail("a fallible constructor refused a 57-byte key", &[("key bytes", hex(&k))]);
        return;
    }
    c.checked(&[&k]);
    c.class("seven_routes");
    let wpk = o::derive(&k);
    let direct = match c.lib("direct derivation", &i, || (g::ed448_derive_public(&k), g::ed448_sign(&k, m))) {
        Some(x) => x,
        None => return,
    };
    for (how, x) in &objs {
        let d = |w: String| vec![("route", how.to_string()), ("key bytes", hex(&k)), ("observed", w)];
        if x.to_bytes() != k {
            c.fail("key object does not hold the bytes it was given", &d(hex(&x.to_bytes())));
        }
        if *x != objs[0].1 {
            c.fail("key objects built from the same bytes differ", &d(format!("{:?}", x)));
        }
        let v = x.verifying_key().as_bytes();
        if v != direct.0 {
            c.fail("public key of the key object differs from direct derivation", &d(hex(v)));
        }
        if v != wpk {
            c.fail("public key of the key object is not the key's public key", &d(hex(v)));
        }
        if secret_bytes(x.secret_key()) != Some(k.to_vec()) {
            c.fail("secret key inside the key object is not the bytes given", &d(format!("{:?}", x.secret_key())));
        }
        if *x.secret_key() != SecretKey::from_bytes(&k) || *x.secret_key() != SecretKey::from_str(&h) {
            c.fail("secret key objects of the same bytes differ", &d(format!("{:?}", x.secret_key())));
        }
        if *x.verifying_key() != VerifyingKey::from_bytes(&wpk) || *x.verifying_key() != VerifyingKey::from_str(&hex(&wpk)) {
            c.fail("verifying key objects of the same bytes differ", &d(hex(v)));
        }
        if *how == "from_str" || c.rng.one_in(5) {
            match c.lib("key object signing", &i, || x.sign_prehash(m).map(|s| s.as_slice().to_vec())) {
                Some(Ok(s)) if s.len() >= 114 && s[..114] == direct.1 => {}
                Some(o) => c.fail("key object signs differently from direct signing", &d(format!("{:?}", o.map(|s| hex(&s))))),
                None => return,
            }
        }
    }
    // distinct bytes, distinct objects
    let cmp = c.lib("building key objects", &i, || {
        let a = SigningKey::from_slice(&k) == SigningKey::from_slice(&other);
        let b = SecretKey::from_bytes(&k) == SecretKey::from_bytes(&other);
        let d = VerifyingKey::from_bytes(&k) == VerifyingKey::from_bytes(&other);
        let e = VerifyingKey::from_bytes(&k).as_bytes() == k && VerifyingKey::from_str(&hm).as_bytes() == k;
        (a, b, d, e)
    });
    if let Some((a, b, d, e)) = cmp {
        if a || b || d {
            c.fail("objects built from different bytes compare equal", &[("a", hex(&k)), ("b", hex(&other)), ("signing/secret/verifying", format!("{} {} {}", a, b, d))]);
        }
        if !e {
            c.fail("verifying key does not hold the bytes it was given", &[("bytes", hex(&k))]);
        }
    }
    // a random-built key holds the bytes its source yielded
    let rb = rk.to_bytes();
    let yielded = if rng.words > 0 {
        // drawn in words: judged only where the order of drawing cannot matter
        c.class("source_drawn_in_words");
        k.iter().any(|x| *x != k[0]) || rb == k
    } else {
        c.class("source_drawn_in_bytes");
        rng.filled.windows(57).any(|w| w == rb)
    };
    if !yielded {
        c.fail("a key built from a random source does not hold the bytes the source yielded", &[("source bytes", hex(&rng.filled)), ("key bytes", hex(&rb))]);
    }
    // and is the key of its own bytes
    if let Some(x) = c.lib("rebuilding", &[("key bytes", &rb)], || SigningKey::from_slice(&rb)) {
        if x != rk || rk.verifying_key().as_bytes() != o::derive(&rb) {
            c.fail("a key built from a random source is not the key of its own bytes", &[("source bytes", hex(&k)), ("key bytes", hex(&rb)), ("public", hex(rk.verifying_key().as_bytes()))]);
        }
    }
    c.sample(|| serde_json::json!({"key": hex(&k), "routes": objs.iter().map(|x| x.0).collect::<Vec<_>>(), "public": hex(&wpk)}));
}
fn c09_lengths(c: &mut Case, n: usize) {
    let mut b = c.rng.vec(n);
    match c.rng.below(3) {
        0 => b.fill(0),
        1 => b.fill(0xff),
        _ => {}
    }
    c.checked(&[b"len", &b]);
    c.class(if n == 57 { "right_length" } else { "wrong_length" });
    match guarded(|| SigningKey::from_bytes(&b).map(|k| k.to_bytes())) {
        Ok(Ok(k)) => {
            if n != 57 || k[..] != b[..] {
                c.fail("a key was built from bytes of the wrong length", &[("bytes", hex(&b)), ("key", hex(&k))]);
            }
        }
        Ok(Err(e)) => {
            if n == 57 || e != E::InvalidPrivKeyLengthErrro(n) {
                c.fail(format!("wrong error for a {}-byte key: {:?}", n, e), &[("bytes", hex(&b))]);
            }
        }
        Err(p) => c.fail(format!("the fallible constructor panicked on {} bytes: {}", n, p), &[("bytes", hex(&b))]),
    }
    // the panicking constructors must not return a key
    let rs: [(&str, Result<Vec<u8>, String>); 3] = [
        ("SigningKey::from_slice", guarded(|| SigningKey::from_slice(&b).to_bytes().to_vec())),
        ("SecretKey::from_bytes", guarded(|| secret_bytes(&SecretKey::from_bytes(&b)).unwrap_or_default())),
        ("VerifyingKey::from_bytes", guarded(|| VerifyingKey::from_bytes(&b).as_bytes().to_vec())),
    ];
    for (what, r) in rs {
        match r {
            Ok(k) if n != 57 || k != b => c.fail(format!("{} returned a key for {} bytes", what, n), &[("bytes", hex(&b)), ("key", hex(&k))]),
            Err(p) if n == 57 => c.fail(format!("{} refused 57 bytes: {}", what, p), &[("bytes", hex(&b))]),
            _ => {}
        }
    }
    let h = hex(&b);
    let rs: [(&str, Result<Vec<u8>, String>); 3] = [
        ("SigningKey::from_str", guarded(|| SigningKey::from_str(&h).to_bytes().to_vec())),
        ("SecretKey::from_str", guarded(|| secret_bytes(&SecretKey::from_str(&h)).unwrap_or_default())),
        ("VerifyingKey::from_str", guarded(|| VerifyingKey::from_str(&h).as_bytes().to_vec())),
    ];
    for (what, r) in rs {
        match r {
            Ok(k) if n != 57 || k != b => c.fail(format!("{} returned a key for the hex of {} bytes", what, n), &[("bytes", hex(&b)), ("key", hex(&k))]),
            Err(p) if n == 57 => c.fail(format!("{} refused the hex of 57 bytes: {}", what, p), &[("bytes", hex(&b))]),
            _ => {}
        }
    }
}
pub fn c09(mon: &Mon) {
    mon.stage("systematic_keys", All(SYS_KEYS), |c| {
        let k = sys_key(c.idx, &mut c.rng);
        c09_case(c, k, b"x");
    });
    mon.stage("lengths", All(400), |c| {
        let n = if c.idx < 300 { c.idx as usize } else { *c.rng.clone().pick(&[56usize, 57, 58, 114, 1000, 65536, 57 * 256, 57 + 256]) };
        c09_lengths(c, n);
    });
    let not_a_key = |c: &mut Case, s: &str| {
        c.checked(&[s.as_bytes()]);
        c.class("bad_string");
        for (w, r) in [
            ("SigningKey", guarded(|| hex(&SigningKey::from_str(s).to_bytes()))),
            ("SecretKey", guarded(|| format!("{:?}", SecretKey::from_str(s)))),
            ("VerifyingKey", guarded(|| hex(VerifyingKey::from_str(s).as_bytes()))),
        ] {
            if let Ok(k) = r {
                c.fail(format!("{} built from a string that is not 114 hex digits", w), &[("string", s.to_string()), ("key", k)]);
            }
        }
    };
    mon.stage("bad_strings", All(57 * 2 * 6), |c| {
        let mut s: Vec<char> = hex(&c.rng.bytes::<57>()).chars().collect();
        let p = c.idx as usize % 114;
        s[p] = *c.rng.pick(&['g', ' ', 'x', '-', '/', ':', '@', 'G', '`', '\0', 'é', '0']);
        if s[p] == '0' {
            s.remove(p);
        }
        let s: String = s.into_iter().collect();
        not_a_key(c, &s);
    });
    mon.stage("decorated_strings", All(32), |c| {
        let h = hex(&c.rng.bytes::<57>());
        for (i, s) in gen::decorated(&h).iter().enumerate() {
            if i % 32 == c.idx as usize {
                not_a_key(c, s);
                if c.failed() {
                    return;
                }
            }
        }
    });
    mon.stage("mixed", Share(8.0, 64), |c| {
        let k = gen::key(&mut c.rng, &c.mon.dict);
        let m = gen::msg(&mut c.rng, &c.mon.dict);
        c09_case(c, k, &m);
    });
}

// ------------------------------------------------------------------ C10
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Signing,
    Secret,
    Verifying,
}
/// (serialized text, bytes held) of a deserialized value
fn de(kind: Kind, route: usize, text: &str) -> Result<Result<Vec<u8>, String>, String> {
    fn go<T: serde::de::DeserializeOwned>(route: usize, text: &str) -> Result<T, String> {
        match route % 4 {
            0 => serde_json::from_str::<T>(text).map_err(|e| e.to_string()),
            1 => serde_json::from_slice::<T>(text.as_bytes()).map_err(|e| e.to_string()),
            2 => serde_json::from_reader::<_, T>(text.as_bytes()).map_err(|e| e.to_string()),
            _ => {
                let v: serde_json::Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
                serde_json::from_value::<T>(v).map_err(|e| e.to_string())
            }
        }
    }
    guarded(|| match kind {
        Kind::Signing => go::<SigningKey>(route, text).map(|k| k.to_bytes().to_vec()),
        Kind::Secret => go::<SecretKey>(route, text).map(|k| SigningKey::from(k).to_bytes().to_vec()),
        Kind::Verifying => go::<VerifyingKey>(route, text).map(|k| k.as_bytes().to_vec()),
    })
}
fn c10_round(c: &mut Case, k: [u8; 57]) {
    let h = hex(&k);
    let want = format!("\"{}\"", h);
    let i: [(&str, &[u8]); 1] = [("key bytes", &k)];
    for kind in [Kind::Signing, Kind::Secret, Kind::Verifying] {
        c.checked(&[format!("{:?}", kind).as_bytes(), &k]);
        c.class("round_trip");
        let text = c.lib("serialization", &i, || match kind {
            Kind::Signing => {
                let x = SigningKey::from_slice(&k);
                (serde_json::to_string(&x), serde_json::to_value(x), serde_json::to_string(&vec![x]))
            }
            Kind::Secret => {
                let x = SecretKey::from_bytes(&k);
                (serde_json::to_string(&x), serde_json::to_value(x), serde_json::to_string(&vec![x]))
            }
            Kind::Verifying => {
                let x = VerifyingKey::from_bytes(&k);
                (serde_json::to_string(&x), serde_json::to_value(x), serde_json::to_string(&vec![x]))
            }
        });
        let Some((t, v, arr)) = text else { return };
        if t.as_ref().ok() != Some(&want) || v.ok() != Some(serde_json::Value::String(h.clone())) || arr.ok() != Some(format!("[{}]", want)) {
            c.fail(format!("{:?} key does not serialize to its 114 lowercase hex digits", kind), &[("key bytes", h.clone()), ("text", format!("{:?}", t))]);
            return;
        }
        let r0 = c.rng.below(4);
        for (form, txt) in [
            ("lowercase", want.clone()),
            ("uppercase", want.to_uppercase()),
            ("mixed", format!("\"{}\"", mixed_case(&mut c.rng, &h))),
            ("escaped", {
                // every digit written as a JSON escape
                let mut s = String::from("\"");
                for (j, ch) in h.chars().enumerate() {
                    if j % 3 == 0 {
                        s.push_str(&format!("\\u{:04x}", ch as u32));
                    } else {
                        s.push(ch);
                    }
                }
                s.push('"');
                s
            }),
            ("spaced", format!(" \n{}\t ", want)),
        ] {
            let route = if form == "lowercase" { r0 } else { c.rng.below(4) };
            c.class(form);
            match de(kind, route, &txt) {
                Ok(Ok(b)) if b == k => {}
                r => c.fail(format!("{:?} key does not deserialize back ({}): {:?}", kind, form, r.map(|x| x.map(|b| hex(&b)))), &[("text", txt)]),
            }
        }
        // identical objects
        let same = c.lib("deserialization", &i, || match kind {
            Kind::Signing => serde_json::from_str::<SigningKey>(&want).ok() == Some(SigningKey::from_slice(&k)),
            Kind::Secret => serde_json::from_str::<SecretKey>(&want).ok() == Some(SecretKey::from_bytes(&k)),
            Kind::Verifying => serde_json::from_str::<VerifyingKey>(&want).ok() == Some(VerifyingKey::from_bytes(&k)),
        });
        if same == Some(false) {
            c.fail(format!("deserialized {:?} key is not identical to the original", kind), &[("key bytes", h.clone())]);
        }
        if kind == Kind::Signing {
            if let Some(Ok(x)) = c.lib("deserialization", &i, || serde_json::from_str::<SigningKey>(&want)) {
                if x.verifying_key().as_bytes() != o::derive(&k) {
                    c.fail("deserialized signing key has the wrong public key", &[("key bytes", h.clone())]);
                }
            }
        }
    }
    c.sample(|| serde_json::json!({"key": h, "serialized": want}));
}
fn bad_text(r: &mut Rng) -> (&'static str, String) {
    let h = hex(&r.bytes::<57>());
    let q = |s: &str| serde_json::to_string(s).expect("string");
    match r.below(20) {
        0 => {
            let n = r.below(114);
            ("short", q(&h[..n]))
        }
        1 => {
            let n = r.range(1, 130);
            let e = hex(&r.vec(n));
            ("long", q(&format!("{}{}", h, &e[..r.range(1, e.len())])))
        }
        2 => {
            let p = r.below(114);
            let mut s = h.clone().into_bytes();
            loop {
                let b = r.below(128) as u8;
                if !b.is_ascii_hexdigit() {
                    s[p] = b;
                    break;
                }
            }
            ("bad_digit", q(&String::from_utf8(s).expect("ascii")))
        }
        3 => {
            let p = r.below(112);
            let ch = *r.pick(&['é', 'ß', '０', 'Ａ', '\u{661}', '😀']);
            let n = ch.len_utf8();
            let mut s = h.clone();
            s.replace_range(p..(p + n).min(114), &ch.to_string());
            ("unicode", q(&s))
        }
        4 => ("empty", q("")),
        5 => ("prefix_0x", q(&format!("0x{}", h))),
        6 => ("prefix_0x_same_length", q(&format!("0x{}", &h[2..]))),
        7 => ("leading_space", q(&format!(" {}", h))),
        8 => ("trailing_newline", q(&format!("{}\n", h))),
        9 => ("inner_space_same_length", q(&format!("{} {}", &h[..50], &h[51..]))),
        10 => ("null", "null".into()),
        11 => ("number", format!("{}", r.u64())),
        12 => ("bool", "true".into()),
        13 => ("array_of_bytes", format!("{:?}", r.bytes::<57>())),
        14 => ("object", format!("{{\"key\":\"{}\"}}", h)),
        15 => ("array_of_string", format!("[\"{}\"]", h)),
        16 => ("odd", q(&h[..113])),
        17 => {
            let n = *r.pick(&[32usize, 56, 58, 64, 114, 171, 57 * 2, 57 + 256]);
            let n = if n == 57 { 58 } else { n };
            ("other_size", q(&hex(&r.vec(n))))
        }
        18 => ("separators", q(&h.as_bytes().chunks(2).map(|c| std::str::from_utf8(c).expect("ascii")).collect::<Vec<_>>().join(":"))),
        _ => ("broken_json", format!("\"{}", h)),
    }
}
pub fn c10(mon: &Mon) {
    mon.stage("systematic_keys", All(SYS_KEYS), |c| {
        let k = sys_key(c.idx, &mut c.rng);
        c10_round(c, k);
    });
    // every byte value at every position (as verifying keys: no derivation cost)
    mon.stage("positions", All(57), |c| {
        let p = c.idx as usize;
        for v in 0..=255u8 {
            let mut k = [0x5a; 57];
            k[p] = v;
            c.checked(&[&k]);
            c.class("byte_at_position");
            let want = format!("\"{}\"", hex(&k));
            let r = guarded(|| {
                let vk = VerifyingKey::from_bytes(&k);
                let sk = SecretKey::from_bytes(&k);
                (serde_json::to_string(&vk).ok(), serde_json::to_string(&sk).ok(), serde_json::from_str::<VerifyingKey>(&want).ok() == Some(vk), serde_json::from_str::<SecretKey>(&want).ok() == Some(sk))
            });
            if r != Ok((Some(want.clone()), Some(want.clone()), true, true)) {
                c.fail("round trip of a byte value fails", &[("key bytes", hex(&k)), ("observed", format!("{:?}", r))]);
                return;
            }
        }
    });
    mon.stage("malformed", Share(3.0, 4000), |c| {
        let (class, txt) = bad_text(&mut c.rng);
        c.class(class);
        c.checked(&[txt.as_bytes()]);
        let route = c.rng.below(4);
        for kind in [Kind::Signing, Kind::Secret, Kind::Verifying] {
            match de(kind, route, &txt) {
                Ok(Err(_)) => {}
                Ok(Ok(b)) => c.fail(format!("{:?} key deserialized from a malformed value", kind), &[("text", txt.clone()), ("key", hex(&b))]),
                Err(p) => c.fail(format!("deserializing a {:?} key panicked: {}", kind, p), &[("text", txt.clone())]),
            }
        }
        c.sample(|| serde_json::json!({"class": class, "text": txt.chars().take(160).collect::<String>(), "result": "error for all three key types"}));
    });
    // every invalid ASCII character at every position
    mon.stage("bad_digits", All(114), |c| {
        let p = c.idx as usize;
        let base = hex(&c.rng.bytes::<57>());
        for b in 0..128u8 {
            if b.is_ascii_hexdigit() {
                continue;
            }
            let mut s = base.clone().into_bytes();
            s[p] = b;
            let txt = serde_json::to_string(&String::from_utf8(s).expect("ascii")).expect("string");
            c.checked(&[txt.as_bytes()]);
            c.class("bad_digit");
            for kind in [Kind::Secret, Kind::Verifying, Kind::Signing] {
                if kind == Kind::Signing && b % 8 != 0 {
                    continue;
                }
                match de(kind, b as usize, &txt) {
                    Ok(Err(_)) => {}
                    r => {
                        c.fail(format!("{:?} key from a non-hex string: {:?}", kind, r.map(|x| x.map(|b| hex(&b)))), &[("text", txt.clone())]);
                        return;
                    }
                }
            }
        }
    });
    mon.stage("decorated", All(64), |c| {
        let h = hex(&c.rng.bytes::<57>());
        for (i, s) in gen::decorated(&h).iter().enumerate() {
            if i % 16 != c.idx as usize % 16 {
                continue;
            }
            let txt = serde_json::to_string(s).expect("string");
            c.checked(&[txt.as_bytes()]);
            c.class("decorated");
            for kind in [Kind::Signing, Kind::Secret, Kind::Verifying] {
                match de(kind, i, &txt) {
                    Ok(Err(_)) => {}
                    r => {
                        c.fail(format!("{:?} key from a string that is not plain hex: {:?}", kind, r.map(|x| x.map(|b| hex(&b)))), &[("text", txt.clone())]);
                        return;
                    }
                }
            }
        }
    });
    mon.stage("lengths", All(320), |c| {
        let n = c.idx as usize;
        if n == 114 {
            return;
        }
        let s: String = (0..n).map(|_| *c.rng.pick(b"0123456789abcdefABCDEF") as char).collect();
        let txt = format!("\"{}\"", s);
        c.checked(&[txt.as_bytes()]);
        c.class("wrong_length");
        for kind in [Kind::Signing, Kind::Secret, Kind::Verifying] {
            match de(kind, n, &txt) {
                Ok(Err(_)) => {}
                r => c.fail(format!("{:?} key from {} hex digits: {:?}", kind, n, r.map(|x| x.map(|b| hex(&b)))), &[("text", txt.clone())]),
            }
        }
    });
    mon.stage("binary_formats", All(200), |c| {
        let k = gen::key(&mut c.rng, &c.mon.dict);
        let h = hex(&k);
        // what a binary format would carry: the string, the raw bytes, a tuple, junk
        let mut junk = c.rng.vec(200);
        junk[..8].copy_from_slice(&114u64.to_le_bytes());
        let mut own = vec![];
        if let Ok(Ok(b)) = guarded(|| bincode::serialize(&SecretKey::from_bytes(&k))) {
            own = b;
        }
        let enc = bincode::serialize(&h).expect("bincode");
        let raw = bincode::serialize(&k.to_vec()).expect("bincode");
        for b in [&own, &enc, &raw, &k.to_vec(), &junk] {
            c.checked(&[b]);
            c.class("binary");
            let r = guarded(|| (bincode::deserialize::<SigningKey>(b).is_err(), bincode::deserialize::<SecretKey>(b).is_err(), bincode::deserialize::<VerifyingKey>(b).is_err()));
            if r != Ok((true, true, true)) {
                c.fail(format!("a binary format is not refused cleanly: {:?}", r), &[("bytes", hex(b))]);
            }
        }
    });
    mon.stage("mixed", Share(6.0, 64), |c| {
        let k = gen::key(&mut c.rng, &c.mon.dict);
        c10_round(c, k);
    });
}

// ------------------------------------------------------------------ C11
fn c11_case(c: &mut Case, k: &[u8; 57], m: &[u8], route: usize) {
    let i: [(&str, &[u8]); 2] = [("key", k), ("message", m)];
    let h = hex(k);
    let r = c.lib("key object signing", &i, || {
        let sk = match route {
            0 => SigningKey::from_slice(k),
            1 => SigningKey::from_str(&h),
            2 => SigningKey::from(SecretKey::from_bytes(k)),
            3 => match SigningKey::from_bytes(k) {
                Ok(x) => x,
                Err(_) => SigningKey::from_slice(k),
            },
            4 => serde_json::from_str(&format!("\"{}\"", h)).unwrap_or_else(|_| SigningKey::from_slice(k)),
            _ => {
                let s = SigningKey::from_slice(k);
                s // a copy of a copy
            }
        };
        sk.sign_prehash(m).map(|s| s.as_slice().to_vec())
    });
    let direct = c.lib("direct signing", &i, || (g::ed448_sign(k, m), g::ed448_derive_public(k)));
    let (Some(r), Some((ds, dp))) = (r, direct) else { return };
    c.checked(&[k, m, &[route as u8]]);
    c.class(["from_slice", "from_str", "from_secret", "from_bytes", "deserialized", "copied"][route.min(5)]);
    match r {
        Err(e) => c.fail(format!("key object signing failed: {:?}", e), &[("key", h), ("message", hex(m))]),
        Ok(s) => {
            let (wp, ws) = oracle_any(k, m);
            let mut want = ws.to_vec();
            want.extend(wp);
            let mut mine = ds.to_vec();
            mine.extend(dp);
            let d = [("key", h), ("message", hex(m)), ("got", hex(&s)), ("expected", hex(&mine))];
            if s.len() != 171 {
                c.fail(format!("extended signature has {} bytes", s.len()), &d);
            } else if s != mine {
                c.fail("extended signature is not direct signature followed by public key", &d);
            } else if s != want {
                c.fail("extended signature is not the standard signature followed by the public key", &d);
            }
            if c.rng.one_in(4) && s.len() == 171 {
                if let Some(v) = c.lib("verification", &i, || g::ed448_verify(&s[114..], &s[..114], m)) {
                    c.class("parts_verified");
                    if v != Ok(true) {
                        c.fail(format!("the parts of an extended signature do not verify: {:?}", v), &d);
                    }
                }
            }
            c.sample(|| serde_json::json!({"key": hex(k), "message": show(m), "extended": hex(&s)}));
        }
    }
}
pub fn c11(mon: &Mon) {
    mon.stage("systematic_keys", All(SYS_KEYS), |c| {
        let k = sys_key(c.idx, &mut c.rng);
        let n = c.idx as usize % 80;
        let m = c.rng.vec(n);
        c11_case(c, &k, &m, c.idx as usize % 6);
    });
    let texts = gen::contents();
    mon.stage("contents", All(texts.len() as u64), |c| {
        let m = texts[c.idx as usize].clone();
        let k = gen::key(&mut c.rng, &c.mon.dict);
        c11_case(c, &k, &m, c.idx as usize % 6);
    });
    mon.stage("tied_messages", All(40), |c| {
        let k = gen::key(&mut c.rng, &c.mon.dict);
        for m in gen::tied_messages(&k) {
            let r = c.rng.below(6);
            c11_case(c, &k, &m, r);
        }
    });
    let rare = gen::rare();
    mon.stage("rare_values", All(rare.len() as u64), |c| {
        let (name, k, m) = &rare[c.idx as usize];
        c.class(name);
        c11_case(c, k, m, c.idx as usize % 6);
    });
    let lens = len_cases(mon);
    mon.stage("message_lengths", All(lens.len() as u64), |c| {
        let n = lens[lens.len() - 1 - c.idx as usize];
        let k = gen::key(&mut c.rng, &c.mon.dict);
        let m = gen::fill_msg(&mut c.rng, &c.mon.dict, n);
        c11_case(c, &k, &m, c.idx as usize % 6);
    });
    mon.stage("mixed", Share(8.0, 64), |c| {
        let k = gen::key(&mut c.rng, &c.mon.dict);
        let m = gen::msg(&mut c.rng, &c.mon.dict);
        let r = c.rng.below(6);
        c11_case(c, &k, &m, r);
    });
}

// ------------------------------------------------------------------ C14
pub fn c14(mon: &Mon) {
    // public-API part: does not depend on the hooks
    mon.stage("base_multiples", All(3000), |c| {
        let i = c.idx as usize;
        let e = if i < 2000 {
            let v = o::s_from_bytes(&[(i / 2) as u8, (i / 512) as u8]);
            if i % 2 == 0 {
                v
            } else {
                o::s_neg(&v)
            }
        } else {
            gen::scalar(&mut c.rng)
        };
        if let Some(k) = gen::key_for_scalar(&e) {
            c.class("steered_base_multiple");
            c.checked(&[&k]);
            let want = o::base_mul(&e).encode();
            if let Some(x) = c.lib("base multiplication", &[("secret", &k)], || g::secret_to_public(&k)) {
                eq_bytes(c, "multiple of the base point", &x, &want, &[("secret", &k), ("scalar", &o::s_to_bytes(&e))]);
            }
        }
    });
    mon.stage("api_equations", Share(2.0, 64), |c| {
        const W: [usize; 12] = [10, 11, 12, 13, 15, 16, 23, 24, 25, 33, 35, 41];
        let w = W[c.rng.below(W.len())];
        let t = gen::triple_of(&mut c.rng, &c.mon.dict, w);
        c04_judge(c, &t);
    });
    mon.stage("api_multiples", Share(1.5, 64), |c| {
        let k = gen::raw_key(&mut c.rng, &c.mon.dict);
        let n = gen::bytes57(&mut c.rng, &c.mon.dict);
        check_explicit(c, &k, &n, b"");
    });
    deep::field_stage(mon, 3.0);
    deep::scalar_stage(mon, 2.0);
    deep::point_stage(mon, 4.0);
}

// ------------------------------------------------------------------ C17
fn dec(which: usize, s: &str) -> Result<Vec<u8>, String> {
    guarded(|| match which {
        0 => g::hex_to_private_key(s).to_vec(),
        1 => g::hex_to_signature(s).to_vec(),
        _ => g::hex_to_message_hash(s).to_vec(),
    })
}
const DEC_LEN: [usize; 3] = [57, 114, 32];
const DEC_NAME: [&str; 3] = ["key decoder", "signature decoder", "message hash decoder"];
fn c17_good(c: &mut Case, which: usize, b: &[u8], text: &str) {
    c.checked(&[&[which as u8], text.as_bytes()]);
    c.class(DEC_NAME[which]);
    match dec(which, text) {
        Ok(x) if x == b => {}
        Ok(x) => c.fail(format!("{} returns other bytes", DEC_NAME[which]), &[("text", text.into()), ("got", hex(&x))]),
        Err(p) => c.fail(format!("{} refuses a well-formed string: {}", DEC_NAME[which], p), &[("text", text.into())]),
    }
}
fn c17_bad(c: &mut Case, which: usize, text: &str) {
    c.checked(&[&[which as u8], text.as_bytes()]);
    c.class("malformed");
    if let Ok(x) = dec(which, text) {
        c.fail(format!("{} returns a value for a malformed string", DEC_NAME[which]), &[("text", text.into()), ("got", hex(&x))]);
    }
}
pub fn c17(mon: &Mon) {
    mon.stage("every_byte_every_position", All((57 + 114 + 32) as u64), |c| {
        let i = c.idx as usize;
        let (w, p) = if i < 57 { (0, i) } else if i < 171 { (1, i - 57) } else { (2, i - 171) };
        let base = c.rng.vec(DEC_LEN[w]);
        for v in 0..=255u8 {
            let mut b = base.clone();
            b[p] = v;
            let h = hex(&b);
            c17_good(c, w, &b, &h);
            c17_good(c, w, &b, &h.to_uppercase());
            let m = mixed_case(&mut c.rng, &h);
            c17_good(c, w, &b, &m);
            if c.failed() {
                return;
            }
        }
        let h = hex(&base);
        c.sample(|| serde_json::json!({"decoder": DEC_NAME[w], "position": p, "base": h, "values": 256, "cases": "lower, upper, mixed"}));
    });
    mon.stage("every_bad_char_every_position", All((57 + 114 + 32) as u64 * 2), |c| {
        let i = c.idx as usize;
        let (w, p) = if i < 114 { (0, i) } else if i < 342 { (1, i - 114) } else { (2, i - 342) };
        let base = hex(&c.rng.vec(DEC_LEN[w]));
        for b in 0..128u8 {
            if b.is_ascii_hexdigit() {
                continue;
            }
            let mut s = base.clone().into_bytes();
            s[p] = b;
            c17_bad(c, w, std::str::from_utf8(&s).expect("ascii"));
            if c.failed() {
                return;
            }
        }
    });
    mon.stage("decorated", All(3 * 64), |c| {
        let w = c.idx as usize % 3;
        let b = c.rng.vec(DEC_LEN[w]);
        let h = hex(&b);
        let h = if c.rng.one_in(4) { h.to_uppercase() } else { h };
        for (i, s) in gen::decorated(&h).iter().enumerate() {
            if i % 16 == c.idx as usize / 3 % 16 {
                c17_bad(c, w, s);
                if c.failed() {
                    return;
                }
            }
        }
    });
    mon.stage("every_length", All(3 * 520), |c| {
        let w = c.idx as usize % 3;
        let n = c.idx as usize / 3;
        if n == 2 * DEC_LEN[w] {
            return;
        }
        let s: String = (0..n).map(|_| *c.rng.pick(b"0123456789abcdefABCDEF") as char).collect();
        c17_bad(c, w, &s);
        c17_bad(c, w, &"0".repeat(n));
        c17_bad(c, w, &"f".repeat(n));
    });
    mon.stage("mixed", Share(2.0, 5000), |c| {
        let w = c.rng.below(3);
        let mut b = c.rng.vec(DEC_LEN[w]);
        match c.rng.below(6) {
            0 => b.fill(0),
            1 => b.fill(0xff),
            2 => gen::dict_poke(&mut c.rng, &c.mon.dict, &mut b),
            3 => {
                let p = c.rng.below(b.len());
                b[p..].fill(0)
            }
            _ => {}
        }
        let h = mixed_case(&mut c.rng, &hex(&b));
        c17_good(c, w, &b, &h);
        let mut bad: String = h.clone();
        match c.rng.below(8) {
            0 => bad.push('0'),
            1 => {
                bad.pop();
            }
            2 => bad.insert_str(0, "0x"),
            3 => bad.replace_range(0..2, "0x"),
            4 => bad.push('\n'),
            5 => bad.insert(0, ' '),
            6 => {
                let p = c.rng.below(bad.len() - 2);
                bad.replace_range(p..p + 2, "é")
            }
            _ => {
                let p = c.rng.below(bad.len() - 1);
                bad.replace_range(p..p + 1, *c.rng.pick(&["_", "-", "+", "g", "G", ".", ","]))
            }
        }
        c17_bad(c, w, &bad);
    });
}
pub use self::oracle_any as any_reference;
