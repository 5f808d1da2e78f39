mod oracle;
use libgoldilocks::verif_hooks::{point, scalar};
use oracle as o;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::sync::atomic::*;
const Q: [&str; 8] = ["A", "R", "S", "k", "r", "s", "r4", "s4"];
const P: [&str; 8] = ["lead0", "lead1", "trail0", "trail1", "run0", "run1", "limb", "word"];
fn w(b: &[u8]) -> [u64; 7] { let mut x = [0u64; 7]; for i in 0..7 { x[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()); } x }
fn lead(x: &[u64; 7], bits: u32) -> u32 { let mut n = 0; for v in x.iter().rev() { if *v == 0 { n += 64 } else { n += v.leading_zeros(); break } } n.saturating_sub(448 - bits) }
fn trail(x: &[u64; 7]) -> u32 { let mut n = 0; for v in x.iter() { if *v == 0 { n += 64 } else { n += v.trailing_zeros(); break } } n }
fn ones_run(mut x: [u64; 7]) -> u32 { let mut n = 0; while x.iter().any(|v| *v != 0) { let mut y = [0u64; 7]; for i in 0..7 { y[i] = x[i] >> 1 | if i < 6 { x[i + 1] << 63 } else { 0 }; } for i in 0..7 { x[i] &= y[i]; } n += 1; } n }
fn inv(x: &[u64; 7], bits: u32) -> [u64; 7] { let mut y = *x; for v in y.iter_mut() { *v = !*v; } if bits < 448 { y[6] &= (1u64 << (bits - 384)) - 1; } y }
fn scores(b: &[u8], bits: u32) -> [u32; 8] {
    let x = w(b); let nx = inv(&x, bits);
    let (r1, r0) = (ones_run(x), ones_run(nx));
    // number of aligned 28-bit / 32-bit groups that are all-zero or all-one, weighted
    let mut limb = 0; for i in 0..16 { let s = 28 * i; let mut v = x[s / 64] >> (s % 64); if s % 64 > 36 && s / 64 < 6 { v |= x[s / 64 + 1] << (64 - s % 64); } let v = v & 0xfffffff; let z = if v == 0 || v == 0xfffffff { 28 } else { (v as u32).leading_zeros() - 4 }; limb = limb.max(z); }
    let mut word = 0; for i in 0..14 { let v = (x[i / 2] >> (32 * (i % 2))) as u32; word = word.max(if i == 13 { 0 } else { v.leading_zeros().max(v.trailing_zeros()).max((!v).leading_zeros()).max((!v).trailing_zeros()) }); }
    [lead(&x, bits), if bits == 448 { lead(&nx, bits) } else { 0 }, trail(&x), trail(&inv(&x, 448)), r0, r1, limb, word]
}
type Best = HashMap<(usize, usize), Vec<(u32, u64, u32)>>;
fn key(i: u64) -> [u8; 57] { let mut k = [0u8; 57]; o::shake256(&[b"rare", &i.to_le_bytes()], &mut k); k[56] &= 0x7f; k }
fn main() {
    let start: u64 = std::env::args().nth(1).unwrap().parse().unwrap();
    let end: u64 = std::env::args().nth(2).unwrap().parse().unwrap();
    let out = std::env::args().nth(3).unwrap();
    let best: Arc<Mutex<Best>> = Default::default();
    let next = Arc::new(AtomicU64::new(start));
    let ts: Vec<_> = (0..8).map(|_| { let (best, next) = (best.clone(), next.clone()); std::thread::spawn(move || {
        let mut loc: Best = HashMap::new();
        let mut last = std::time::Instant::now();
        loop {
            let i = next.fetch_add(1, Ordering::Relaxed);
            let fin = i >= end;
            if !fin {
            let k = key(i);
            let (sk, pre) = o::expand(&k);
            let s = o::clamped_scalar(&sk);
            let s4 = o::s_half(&o::s_half(&s));
            let a = point::base_mul(&scalar::halve(&scalar::halve(&o::s_words(&s)))).encode();
            let mut rec = |q: usize, b: &[u8], bits: u32, m: u32| { let sc = scores(b, bits); for p in 0..8 { if sc[p] < 14 { continue } let v = loc.entry((q, p)).or_default(); if v.len() < 8 || v.last().unwrap().0 < sc[p] { v.push((sc[p], i, m)); v.sort_by(|a, b| b.0.cmp(&a.0)); v.truncate(8); } } };
            rec(0, &a[..56], 448, 0);
            rec(5, &o::s_to_bytes(&s)[..56], 446, 0);
            rec(7, &o::s_to_bytes(&s4)[..56], 446, 0);
            for m in 0..8u32 {
                let mb = m.to_le_bytes();
                let mut h = [0u8; 114];
                o::shake256(&[o::DOM, &pre, &mb], &mut h);
                let r = o::s_from_bytes(&h);
                let r4 = o::s_half(&o::s_half(&r));
                let re = point::base_mul(&o::s_words(&r4)).encode();
                let kk = o::challenge(&re, &a, &mb);
                let ss = o::s_add(&r, &o::s_mul(&kk, &s));
                rec(1, &re[..56], 448, m); rec(2, &o::s_to_bytes(&ss)[..56], 446, m); rec(3, &o::s_to_bytes(&kk)[..56], 446, m); rec(4, &o::s_to_bytes(&r)[..56], 446, m); rec(6, &o::s_to_bytes(&r4)[..56], 446, m);
            } }
            if fin || last.elapsed().as_secs() > 60 { last = std::time::Instant::now(); let mut b = best.lock().unwrap(); for (k, v) in loc.drain() { let e = b.entry(k).or_default(); e.extend(v); e.sort_by(|a, b| b.0.cmp(&a.0)); e.dedup(); e.truncate(8); } }
            if fin { break }
        } }) }).collect();
    let dump = |b: &Best| { let mut t = String::new(); for q in 0..8 { for p in 0..8 { if let Some(v) = b.get(&(q, p)) { for (s, i, m) in v { let k: String = key(*i).iter().map(|x| format!("{:02x}", x)).collect(); t += &format!("{} {} {} {} {}\n", Q[q], P[p], s, k, m); } } } } std::fs::write(&out, t).unwrap(); };
    while ts.iter().any(|t| !t.is_finished()) { std::thread::sleep(std::time::Duration::from_secs(5)); if next.load(Ordering::Relaxed) >= end { break } let b = best.lock().unwrap(); dump(&b); std::fs::write(format!("{}.pos", out), format!("{}", next.load(Ordering::Relaxed))).unwrap(); }
    for t in ts { t.join().unwrap(); }
    dump(&best.lock().unwrap());
}
