//! plat FILE: replay operations (one per line, with the result the host gave) on
//! another platform; exit 0 and REPLAYED n, or exit 1 and MISMATCH.
#[path = "../../harness/src/op.rs"]
mod op;
mod mon {
    pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| String::new())
    }
    pub fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{:02x}", x)).collect()
    }
    pub fn unhex(s: &str) -> Vec<u8> {
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let text = std::fs::read_to_string(std::env::args().nth(1).expect("file")).expect("operations");
    let mut n = 0;
    for l in text.lines() {
        let (o, w) = l.rsplit_once(' ').expect("line");
        let o = op::op_parse(o).expect("operation");
        let got = op::hexd(&op::eval(&o));
        if got != w {
            println!("MISMATCH {} gives {} here, {} on the host", op::op_text(&o), got, w);
            std::process::exit(1);
        }
        n += 1;
    }
    println!("REPLAYED {} pointer_bits={} big_endian={}", n, usize::BITS, cfg!(target_endian = "big"));
}
