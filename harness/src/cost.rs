//! C18: time and memory of every operation grow at most linearly with the length
//! of its inputs, and not with their values or with the number of earlier calls.
use crate::gen;
use crate::hist::{heap_left, heap_mark, heap_peak, LIVE};
use crate::mon::{clock_ns, guarded, hex, show, Case, Mon, Plan::*, Rng};
use libgoldilocks::goldilocks as g;
use libgoldilocks::{PrehashSigner, SecretKey, SigningKey, VerifyingKey};
use std::hint::black_box as bb;
use std::sync::atomic::Ordering::Relaxed;

fn cpu() -> u64 {
    clock_ns(libc::CLOCK_THREAD_CPUTIME_ID)
}
/// cpu nanoseconds and peak extra heap of one call
fn measure(f: &mut dyn FnMut()) -> (u64, u64) {
    heap_mark();
    let t = cpu();
    let _ = guarded(|| f());
    (cpu().saturating_sub(t), heap_peak())
}
const LONG: [&str; 15] = [
    "sign_seed", "sign_raw", "sign_by_private", "sign_with_nonce", "key_object_sign", "verify_good", "verify_bad", "verify_err_good", "verify_err_bad", "verify_long_signature", "verify_long_key", "hex_key",
    "deserialize_string", "deserialize_escapes", "from_bytes",
];
struct Inputs {
    k: [u8; 57],
    raw: [u8; 57],
    pk: [u8; 57],
    sig: [u8; 114],
    obj: SigningKey,
    msg: Vec<u8>,
    text: String,
}
const CONTENT: [&str; 8] = ["mixed", "zeros", "ones", "spaces", "line ends", "rising", "one hash state", "key repeated"];
fn inputs(seed: u64, content: usize, len: usize) -> Option<Inputs> {
    let mut r = Rng::new(&[seed, 0xc057, len as u64]);
    let mut k = r.bytes::<57>();
    k[56] &= 0x7f;
    let mut raw = k;
    raw[56] |= 0x80;
    let pk = guarded(|| g::ed448_derive_public(&k)).ok()?;
    let chunk = match content {
        0 => r.vec(4093),
        1 => vec![0],
        2 => vec![0xff],
        3 => vec![b' '],
        4 => b"\r\n".to_vec(),
        5 => (0..=255).collect(),
        6 => r.vec(136),
        _ => pk.to_vec(),
    };
    let msg: Vec<u8> = chunk.iter().copied().cycle().take(len).collect();
    guarded(|| Inputs { k, raw, pk, sig: g::ed448_sign(&k, &msg), obj: SigningKey::from_slice(&k), text: String::new(), msg: vec![] }).ok().map(|mut i| {
        i.msg = msg;
        i
    })
}
fn call(op: &str, i: &Inputs) {
    match op {
        "sign_seed" => {
            bb(g::ed448_sign(&i.k, &i.msg));
        }
        "sign_raw" => {
            bb(g::ed448_sign(&i.raw, &i.msg));
        }
        "sign_by_private" => {
            bb(g::sign_by_private(&i.k, &i.msg));
        }
        "sign_with_nonce" => {
            bb(g::sign_with_secret_and_nonce(&i.k, &i.raw, &i.msg));
        }
        "key_object_sign" => {
            bb(i.obj.sign_prehash(&i.msg).is_ok());
        }
        "verify_good" => {
            bb(g::ed448_verify(&i.pk, &i.sig, &i.msg).is_ok());
        }
        "verify_bad" => {
            bb(g::ed448_verify(&g::ed448_derive_public(&i.raw), &i.sig, &i.msg).is_ok());
        }
        "verify_err_good" => {
            bb(g::ed448_verify_with_error(&i.pk, &i.sig, &i.msg).is_ok());
        }
        "verify_err_bad" => {
            bb(g::ed448_verify_with_error(&g::ed448_derive_public(&i.raw), &i.sig, &i.msg).is_ok());
        }
        "verify_long_signature" => {
            bb(g::ed448_verify(&i.pk, &i.msg, b"m").is_ok());
        }
        "verify_long_key" => {
            bb(g::ed448_verify(&i.msg, &i.sig, b"m").is_ok());
        }
        "hex_key" => {
            bb(g::hex_to_private_key(&i.text));
        }
        "deserialize_string" | "deserialize_escapes" => {
            bb(serde_json::from_str::<SigningKey>(&i.text).is_ok());
            bb(serde_json::from_str::<VerifyingKey>(&i.text).is_ok());
            bb(serde_json::from_str::<SecretKey>(&i.text).is_ok());
        }
        _ => {
            bb(SigningKey::from_bytes(&i.msg).is_ok());
        }
    }
}
fn text_for(op: &str, content: usize, len: usize) -> String {
    let unit = ["0a", "00", "ff", "  ", "\\n", "zz", "0A", "é"][content % 8];
    match op {
        "hex_key" => unit.repeat(len / 2),
        "deserialize_string" => format!("\"{}\"", unit.repeat(len / 2)),
        "deserialize_escapes" => format!("\"{}\"", "\\u0061".repeat(len / 6)),
        _ => String::new(),
    }
}
fn scaling(c: &mut Case) {
    let op = LONG[c.idx as usize % LONG.len()];
    let content = c.idx as usize / LONG.len() % CONTENT.len();
    let big = match (content, cfg!(debug_assertions), c.mon.thorough) {
        (0, false, true) => 64 << 20,
        (0, false, false) => 16 << 20,
        (0, true, _) | (_, false, true) => 4 << 20,
        (_, false, false) => 512 << 10,
        _ => 256 << 10,
    };
    // from short to long, so that superlinear growth shows before it takes minutes
    let mut seen: Vec<(usize, u64, u64)> = vec![];
    let mut len = 32 << 10;
    c.class(op);
    c.class(CONTENT[content]);
    loop {
        let Some(mut i) = inputs(c.mon.seed, content, len) else { return };
        i.text = text_for(op, content, len);
        let before = seen.last().copied();
        let (mut best, mut peak) = (u64::MAX, 0);
        for rep in 0..8 {
            let (t, p) = measure(&mut || call(op, &i));
            best = best.min(t);
            peak = p.max(peak);
            // the ratio so far decides whether more repetitions are needed
            if rep >= 1 && before.map_or(rep >= 3, |(_, t0, _)| best < 12 * t0.max(200_000)) || best > 20_000_000_000 {
                break;
            }
        }
        seen.push((len, best, peak));
        c.checked(&[op.as_bytes(), &(len as u64).to_le_bytes(), &[content as u8]]);
        let d = [("operation", op.to_string()), ("content", CONTENT[content].to_string()), ("(bytes, best cpu ns, peak extra heap)", format!("{:?}", seen))];
        if let Some((_, t0, _)) = before {
            let (l0, first, _) = seen[0];
            if best > 20 * t0.max(200_000) || best > 4 * (len / l0) as u64 * first.max(200_000) {
                c.fail(format!("{}: {} bytes take {:.0} times as long as an eighth of it and {:.0} times as long as {} bytes", op, len, best as f64 / t0 as f64, best as f64 / first as f64, l0), &d);
            }
        }
        if peak > 14 * len as u64 + (1 << 20) {
            c.fail(format!("{}: an input of {} bytes takes {} bytes of extra memory", op, len, peak), &d);
        }
        if c.failed() || len >= big {
            break;
        }
        len = (8 * len).min(big);
    }
    c.sample(|| serde_json::json!({"operation": op, "content": CONTENT[content], "bytes_cpu_ns_peak_heap": seen}));
    c.mon.fact(&format!("scaling_{}_{}", op, CONTENT[content]), serde_json::json!(seen));
}

/// cost of one call on hostile values against the cost on ordinary ones
fn values(c: &mut Case) {
    let t = if c.idx % 2 == 0 { gen::triple_of(&mut c.rng, &c.mon.dict, (c.idx / 2) as usize % gen::TRIPLE_CLASSES) } else { crate::props::encoding_triple((c.idx / 2) as usize, &mut c.rng) };
    let (k, n) = (gen::key(&mut c.rng, &c.mon.dict), gen::key(&mut c.rng, &c.mon.dict));
    let plain_k = c.rng.bytes::<57>();
    c.class(t.class);
    c.checked(&[&t.pk, &t.sig, &t.msg, &k]);
    let m = [7u8; 40];
    let pairs: [(&str, Box<dyn Fn()>, Box<dyn Fn()>); 5] = [
        ("verification", Box::new(|| { bb(g::ed448_verify(&t.pk, &t.sig, &t.msg).is_ok()); }), Box::new(|| { bb(g::ed448_verify(&g::ed448_derive_public(&plain_k), &g::ed448_sign(&plain_k, &m), &m).is_ok()); })),
        ("verification with error", Box::new(|| { bb(g::ed448_verify_with_error(&t.pk, &t.sig, &t.msg).is_ok()); }), Box::new(|| { bb(g::ed448_verify_with_error(&g::ed448_derive_public(&plain_k), &g::ed448_sign(&plain_k, &m), &m).is_ok()); })),
        ("derivation", Box::new(|| { bb(g::ed448_derive_public(&k)); }), Box::new(|| { bb(g::ed448_derive_public(&plain_k)); })),
        ("signing", Box::new(|| { bb(g::ed448_sign(&k, &t.msg)); }), Box::new(|| { bb(g::ed448_sign(&plain_k, &m)); })),
        ("explicit-nonce signing", Box::new(|| { bb(g::sign_with_secret_and_nonce(&k, &n, &t.msg)); }), Box::new(|| { bb(g::sign_with_secret_and_nonce(&plain_k, &plain_k, &m)); })),
    ];
    for (what, hostile, plain) in pairs.iter() {
        let (mut h, mut p, mut heap) = (u64::MAX, u64::MAX, u64::MAX);
        for rep in 0..40 {
            let (a, mem) = measure(&mut || hostile());
            h = h.min(a);
            heap = heap.min(mem);
            p = p.min(measure(&mut || plain()).0);
            // messages here have at most a few kilobytes: nanoseconds, not milliseconds
            if h < 3 * p + 100 * t.msg.len() as u64 || (rep > 12 && h < 6 * p + 200 * t.msg.len() as u64) {
                break;
            }
        }
        let d = [("key", hex(&k)), ("public key", show(&t.pk)), ("signature", show(&t.sig)), ("message", show(&t.msg)), ("cpu ns, ordinary cpu ns, heap", format!("{} {} {}", h, p, heap))];
        if h > 8 * p + 400 * t.msg.len() as u64 {
            c.fail(format!("{} of particular values takes {:.0} times the ordinary time", what, h as f64 / p as f64), &d);
        }
        if heap > (1 << 20) + 14 * t.msg.len() as u64 {
            c.fail(format!("{} of short inputs takes {} bytes of memory", what, heap), &d);
        }
        // the first calls may fill caches of constant size; the same call made over and over may keep nothing more
        let mut kept = 0;
        for _ in 0..24 {
            heap_mark();
            let _ = guarded(|| hostile());
            kept += (heap_left() > 0) as u32;
            if kept == 0 {
                break;
            }
        }
        if kept == 24 {
            c.fail(format!("each {} of these values keeps memory after it returns", what), &d);
        }
        if c.failed() {
            return;
        }
        c.sample(|| serde_json::json!({"operation": what, "key": hex(&k), "public_key": show(&t.pk), "signature": show(&t.sig), "message": show(&t.msg), "cpu_ns": h, "ordinary_cpu_ns": p, "peak_heap": heap}));
    }
}

pub const KINDS: [&str; 15] = [
    "private_to_secret", "hex_key", "refused_length", "refused_encoding", "derive", "sign", "verify", "key_object", "serialize", "rejected", "accepted", "hostile", "generate", "refused_text", "sign_repeated",
];
pub fn block(kind: usize, r: &mut Rng, n: usize, d: &gen::Dict) -> u64 {
    // n calls on fresh values; cpu per call without making the values
    let ks: Vec<[u8; 57]> = (0..n).map(|_| r.bytes::<57>()).collect();
    let hs: Vec<String> = ks.iter().map(|k| hex(k)).collect();
    let objs: Vec<SecretKey> = ks.iter().map(|k| SecretKey::from_bytes(k)).collect();
    let sig = [3u8; 114];
    let triples: Vec<gen::Triple> = match KINDS[kind] {
        "hostile" => (0..n).map(|_| gen::triple(r, d)).filter(|t| t.msg.len() < 1000).collect(),
        _ => vec![],
    };
    let (pk0, msgs) = (if matches!(KINDS[kind], "rejected" | "accepted") { g::ed448_derive_public(&ks[0]) } else { [0; 57] }, r.vec(n + 20));
    let sigs: Vec<[u8; 114]> = if matches!(KINDS[kind], "rejected" | "accepted") { (0..n).map(|i| g::ed448_sign(&ks[0], &msgs[i..i + 16])).collect() } else { vec![] };
    let t = cpu();
    let _ = guarded(|| {
        for i in 0..n {
            let k = &ks[i];
            match KINDS[kind] {
                "private_to_secret" => { bb(g::private_to_secret(k)); }
                "hex_key" => { bb(g::hex_to_private_key(&hs[i])); }
                "refused_length" => { bb(g::ed448_verify(&k[..50], &sig, k).is_err()); bb(SigningKey::from_bytes(&k[..50]).is_err()); }
                "refused_encoding" => { let mut p = *k; p[56] = 0x55; bb(g::ed448_verify(&p, &sig, k).is_err()); }
                "derive" => { bb(g::ed448_derive_public(k)); }
                "sign" => { bb(g::ed448_sign(k, &k[..32])); }
                "verify" => { bb(g::ed448_verify(k, &sig, k).is_ok()); bb(g::ed448_verify_with_error(k, &sig, k).is_ok()); }
                "rejected" => { bb(g::ed448_verify(&pk0, &sigs[i], k).is_ok()); bb(g::ed448_verify_with_error(&pk0, &sigs[i], k).is_ok()); }
                "accepted" => { bb(g::ed448_verify(&pk0, &sigs[i], &msgs[i..i + 16]).is_ok()); bb(g::ed448_verify_with_error(&pk0, &sigs[i], &msgs[i..i + 16]).is_ok()); }
                "hostile" => {
                    if let Some(t) = triples.get(i) {
                        bb(guarded(|| (g::ed448_verify(&t.pk, &t.sig, &t.msg).is_ok(), g::ed448_verify_with_error(&t.pk, &t.sig, &t.msg).is_ok())).is_ok());
                    }
                }
                "generate" => { bb(g::ed448_generate_key()); }
                "refused_text" => {
                    let t = &hs[i][..100];
                    bb(serde_json::from_str::<SigningKey>(&format!("\"{}\"", t)).is_ok());
                    bb(serde_json::from_str::<VerifyingKey>(&format!("[{}]", i)).is_ok());
                    bb(guarded(|| g::hex_to_signature(t)).is_ok());
                }
                "sign_repeated" => { bb(g::ed448_sign(&[9; 57], b"the same message")); bb(g::ed448_sign(&[0x99; 57], b"the same message")); }
                "key_object" => { bb(SigningKey::from(objs[i]).sign_prehash(k).is_ok()); }
                _ => { bb(serde_json::to_string(&objs[i]).map(|t| serde_json::from_str::<VerifyingKey>(&t).is_ok()).is_ok()); }
            }
        }
    });
    cpu().saturating_sub(t) / n as u64
}
/// cost and retained memory over a long history
fn history(mon: &Mon) {
    if mon.plan_only || mon.stop.load(Relaxed) || mon.only_stage.is_some() {
        return;
    }
    let small = cfg!(debug_assertions);
    let mut last = vec![];
    // two rounds: numbers are compared within a round under the same load
    for kind in 0..KINDS.len() {
        let cheap = matches!(KINDS[kind], "private_to_secret" | "hex_key" | "refused_length" | "serialize" | "generate" | "refused_text");
        let slow = matches!(KINDS[kind], "rejected" | "accepted" | "hostile");
        let n = if cheap { 256 } else if slow { 8 } else { 16 };
        let bulk = match (cheap, small, mon.thorough) { _ if slow => if small { 4 } else if mon.thorough { 1500 } else { 40 }, (true, false, false) => 400, (true, false, true) => 4000, (true, true, _) => 60, (false, false, false) => 250, (false, false, true) => 8000, (false, true, _) => 30 };
        let med = |v: &mut Vec<u64>| { v.sort(); v[v.len() / 2] };
        let out = std::sync::Mutex::new(vec![]);
        let barrier = std::sync::Barrier::new(8);
        // heap in use early and at the end, all threads waiting: a bounded cache is full by the first reading, a
        // growing table at least doubles after it
        let held = [std::sync::atomic::AtomicU64::new(0), std::sync::atomic::AtomicU64::new(0)];
        std::thread::scope(|s| {
            for t in 0..8u64 {
                let (out, barrier, held) = (&out, &barrier, &held);
                let read = move |to: &std::sync::atomic::AtomicU64| {
                    barrier.wait();
                    if t == 0 {
                        to.store(LIVE.load(Relaxed), Relaxed);
                    }
                    barrier.wait();
                };
                s.spawn(move || {
                    crate::mon::bind_slot(t as usize);
                    let mut r = Rng::new(&[mon.seed, 0x415, kind as u64, t]);
                    let _ = block(kind, &mut r, 4, &mon.dict);
                    barrier.wait();
                    let mut a: Vec<u64> = (0..15).map(|_| block(kind, &mut r, n, &mon.dict)).collect();
                    for _ in 0..bulk / 4 { block(kind, &mut r, n, &mon.dict); }
                    read(&held[0]);
                    for _ in 0..bulk - bulk / 4 { block(kind, &mut r, n, &mon.dict); }
                    read(&held[1]);
                    let mut b: Vec<u64> = (0..15).map(|_| block(kind, &mut r, n, &mon.dict)).collect();
                    out.lock().unwrap().push((med(&mut a), med(&mut b)));
                });
            }
        });
        let kept = held[1].load(Relaxed).saturating_sub(held[0].load(Relaxed));
        let half = 8 * n * (bulk - bulk / 4);
        let calls = 8 * n * (bulk + 30);
        let v = out.into_inner().unwrap();
        let (mut a, mut b): (Vec<u64>, Vec<u64>) = (v.iter().map(|x| x.0).collect(), v.iter().map(|x| x.1).collect());
        let (a, b) = (med(&mut a), med(&mut b));
        last.push(serde_json::json!({"kind": KINDS[kind], "calls": calls, "first_ns": a, "last_ns": b, "bytes_kept_by_last_three_quarters": kept}));
        let d = [("kind", KINDS[kind].to_string()), ("calls", calls.to_string()), ("cpu ns per call at the start", a.to_string()), ("at the end", b.to_string())];
        if b > 5 * a + 3000 {
            mon.fail("history_cost", kind as u64, format!("{}: after {} calls a call takes {:.0} times as long", KINDS[kind], calls, b as f64 / a.max(1) as f64), &d);
            return;
        }
        if kept > 1024 + half as u64 / 2 {
            mon.fail("history_cost", kind as u64, format!("{}: {} bytes are kept by the last {} calls", KINDS[kind], kept, half), &d);
            return;
        }
    }
    mon.fact("history_cost", serde_json::json!(last));
}

pub fn c18(mon: &Mon) {
    mon.stage("length_scaling", All((LONG.len() * CONTENT.len()) as u64), scaling);
    mon.stage("value_cost_classes", All(4 * gen::TRIPLE_CLASSES as u64), values);
    mon.stage("value_cost", Share(1.0, 64), values);
    history(mon);
}
