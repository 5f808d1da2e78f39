//! Entropy monitor: the library's key generator over generators that count what
//! they hand out and can be made to follow a script (vendor/).
use getrandom::mon::STATE;
use libgoldilocks::goldilocks::ed448_generate_key as gen;

fn hex(k: &[u8]) -> String { k.iter().map(|b| format!("{:02x}", b)).collect() }
fn script(seed: u64, flip: Option<u64>) { let mut s = STATE.lock().unwrap(); s.script = Some(seed); s.flip = flip; }

/// keys number 1..=n made in a forked child that has one script bit flipped
fn forked(seed: u64, flip: Option<u64>, n: usize) -> Option<(Vec<[u8; 57]>, u64)> {
    unsafe {
        let mut p = [0i32; 2];
        if libc::pipe(p.as_mut_ptr()) != 0 { return None; }
        let pid = libc::fork();
        if pid < 0 { return None; }
        if pid == 0 {
            libc::close(p[0]);
            script(seed, flip);
            let mut out = Vec::with_capacity(57 * n + 8);
            for _ in 0..n { out.extend_from_slice(&gen()); }
            out.extend_from_slice(&STATE.lock().unwrap().pos.to_le_bytes());
            let mut o = 0;
            while o < out.len() { let w = libc::write(p[1], out[o..].as_ptr() as *const _, out.len() - o); if w <= 0 { libc::_exit(3) } o += w as usize; }
            libc::_exit(0);
        }
        libc::close(p[1]);
        let mut b = vec![0u8; 57 * n + 8];
        let mut o = 0;
        while o < b.len() { let r = libc::read(p[0], b[o..].as_mut_ptr() as *mut _, b.len() - o); if r <= 0 { break } o += r as usize; }
        libc::close(p[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if o < b.len() { return None; }
        let keys = (0..n).map(|i| { let mut k = [0u8; 57]; k.copy_from_slice(&b[57 * i..57 * i + 57]); k }).collect();
        Some((keys, u64::from_le_bytes(b[57 * n..].try_into().unwrap())))
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("count") => {
            let n: usize = a[2].parse().unwrap();
            let mut last = [0u8; 57];
            for _ in 0..n { last = gen(); }
            let s = STATE.lock().unwrap();
            println!("{{\"keys\":{},\"root\":{},\"total\":{},\"last\":\"{}\",\"calls\":{:?}}}", n, s.root, s.total, hex(&last), s.log.iter().take(8).map(|x| [x.0 as usize, x.1]).collect::<Vec<_>>());
        }
        Some("flips") => {
            let seed: u64 = a[2].parse().unwrap();
            let n: usize = a[3].parse().unwrap();
            let cap: u64 = a[4].parse().unwrap();
            let none = || { println!("{{\"note\":\"no result\"}}"); std::process::exit(0) };
            let Some((k0, pos)) = forked(seed, None, n) else { return none() };
            let Some((k1, _)) = forked(seed, None, n) else { return none() };
            let det = k0 == k1;
            let Some((k2, _)) = forked(seed ^ 0x5555, None, n) else { return none() };
            // how many script bits change each key, and how many change it but not the key before
            let (mut infl, mut fresh, mut tried) = (vec![0u64; n], vec![0u64; n], 0u64);
            if det {
                for f in 0..(8 * pos).min(cap) {
                    let Some((k, _)) = forked(seed, Some(f), n) else { return none() };
                    tried += 1;
                    for i in 0..n { if k[i] != k0[i] { infl[i] += 1; if i == 0 || k[i - 1] == k0[i - 1] { fresh[i] += 1; } } }
                }
            }
            println!("{{\"script_bytes\":{},\"deterministic\":{},\"same_for_other_script\":{},\"tried\":{},\"influence\":{:?},\"fresh\":{:?}}}", pos, det, k0 == k2, tried, infl, fresh);
        }
        _ => std::process::exit(2),
    }
}
