//! work SEED FIRST STEP ROUNDS: run under callgrind. Each operation on secrets runs with
//! several secrets for the same form of key and the same message length; the counters
//! are cleared before and dumped after each call under the name "group/secret".
use libgoldilocks::goldilocks as g;
use libgoldilocks::{PrehashSigner, SecretKey, SigningKey};
use std::hint::black_box;

fn request(code: usize, a: usize) {
    let args = [(((b'C' as usize) << 24) | ((b'T' as usize) << 16)) + code, a, 0, 0, 0, 0];
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(), inout("rdx") 0usize => _, options(nostack)
        );
    }
}
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}
/// secrets with few or many digits, and ordinary ones
fn key(r: &mut Rng, i: u64, raw: bool) -> [u8; 57] {
    let mut k = [0u8; 57];
    match i % 20 {
        0 | 1 => k.copy_from_slice(&r.bytes(57)),
        2 => {}
        3 => k = [0xff; 57],
        4 => k[0] = 4,
        5 => k[r.below(55) as usize] = 1 << r.below(8),
        6 => k[..28].fill(0xff),
        7 => k[28..].fill(0xff),
        8 => k.fill([0x55, 0xaa, 0x11, 0x80, 0x0f, 0x01][r.below(6) as usize]),
        9 => {
            for _ in 0..4 {
                k[r.below(56) as usize] = r.next() as u8;
            }
        }
        10 => {
            k.copy_from_slice(&r.bytes(57));
            let n = 8 + r.below(46) as usize;
            k[n..].fill(0);
        }
        11 => {
            k.copy_from_slice(&r.bytes(57));
            let n = 8 + r.below(46) as usize;
            k[..n].fill(0xff * r.below(2) as u8);
        }
        _ => k.copy_from_slice(&r.bytes(57)),
    }
    k[56] = if raw { k[56] | 0x80 } else { k[56] & 0x7f };
    k
}
const KINDS: [&str; 12] = [
    "ed448_derive_public", "ed448_sign", "sign_by_private", "sign_with_secret_and_nonce", "private_to_secret", "private_to_public", "secret_to_public", "point_by_secret",
    "SigningKey::from_slice", "SigningKey::from_bytes", "SecretKey-into-SigningKey", "sign_prehash",
];
const LENGTHS: [usize; 6] = [0, 32, 200, 1100, 5000, 20000];
fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|s| s.parse().expect("number")).collect();
    let (seed, first, step, rounds) = (a[0], a[1] as usize, a[2] as usize, a[3]);
    let mut groups = vec![];
    for kind in 0..KINDS.len() {
        for raw in [false, true] {
            for len in LENGTHS {
                if len == 0 || matches!(kind, 1 | 2 | 3 | 11) {
                    groups.push((kind, raw, len));
                }
            }
        }
    }
    for (gi, &(kind, raw, len)) in groups.iter().enumerate().skip(first).step_by(step) {
        let r = &mut Rng(seed.wrapping_mul(1 << 32).wrapping_add((gi as u64).wrapping_mul(0x5851f42d4c957f2d)));
        for i in 0..rounds {
            let k = key(r, i, raw);
            let pick = r.below(12);
            let n = key(r, pick, raw);
            let m = r.bytes(len);
            // the first key only warms up: lazily built state, memory pools
            let s = SigningKey::from_slice(&k);
            let d = SecretKey::from_bytes(&k);
            let mut name = format!("{}/{}/{}/{}", KINDS[kind], if raw { "raw" } else { "seed" }, len, k.iter().map(|x| format!("{:02x}", x)).collect::<String>());
            name.push('\0');
            request(1, 0);
            match kind {
                0 => drop(black_box(g::ed448_derive_public(black_box(&k)))),
                1 => drop(black_box(g::ed448_sign(black_box(&k), &m))),
                2 => drop(black_box(g::sign_by_private(black_box(&k), &m))),
                3 => drop(black_box(g::sign_with_secret_and_nonce(black_box(&k), black_box(&n), &m))),
                4 => drop(black_box(g::private_to_secret(black_box(&k)))),
                5 => drop(black_box(g::private_to_public(black_box(&k)))),
                6 => drop(black_box(g::secret_to_public(black_box(&k)))),
                7 => drop(black_box(g::point_by_secret(black_box(&k)))),
                8 => drop(black_box(SigningKey::from_slice(black_box(&k)))),
                9 => drop(black_box(SigningKey::from_bytes(black_box(&k)).is_ok())),
                10 => drop(black_box(SigningKey::from(black_box(d)))),
                _ => drop(black_box(s.sign_prehash(&m).is_ok())),
            }
            if i == 0 {
                request(1, 0);
            } else {
                request(3, name.as_ptr() as usize);
            }
        }
    }
}
