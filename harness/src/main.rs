//! mon <PROPERTY> --seed N --secs S [--tier quick|thorough] [--out FILE]
//!     [--stage NAME --case N]           (replay of one case)
//! exit 0 held, 1 violated, 3 inconclusive, 2 harness error
mod cost;
mod deep;
#[cfg(target_arch = "x86_64")]
mod effects;
mod gen;
mod hist;
mod mon;
mod op;
mod oracle;
mod props;
mod refuse;

use mon::Mon;
use std::sync::atomic::{AtomicBool, AtomicU64};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static A: hist::Counting = hist::Counting;

fn body(m: &Mon) {
    match m.prop.as_str() {
        "C01" => props::c01(m),
        "C02" => props::c02(m),
        "C03" => props::c03(m),
        "C04" => props::c04(m),
        "C05" => props::c05(m),
        "C06" => props::c06(m),
        "C07" => props::c07(m),
        "C08" => props::c08(m),
        "C09" => props::c09(m),
        "C10" => props::c10(m),
        "C11" => props::c11(m),
        "C12" => hist::c12(m),
        "C13" => hist::c13(m),
        "C14" => props::c14(m),
        "C15" => hist::c15(m),
        "C16" => hist::c16(m),
        "C17" => props::c17(m),
        "C18" => cost::c18(m),
        #[cfg(target_arch = "x86_64")]
        "C19" => effects::c19(m),
        "C20" => hist::digests(m),
        "C22" => refuse::c22(m),
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(2)
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    mon::install_hooks();
    match args.first().map(|s| s.as_str()) {
        Some("--eval") => {
            // from the argument, or from standard input (arguments are limited to 128 KiB)
            let text = if args[1] == "-" { std::io::read_to_string(std::io::stdin()).expect("stdin") } else { args[1].clone() };
            let op = hist::op_parse(text.trim_end_matches('\n')).expect("operation");
            let r = hist::eval(&op);
            println!("RESULT {}", if r.is_empty() { "-".into() } else { mon::hex(&r) });
            return;
        }
        Some("--history") => {
            let n = |i: usize| args[i].parse::<u64>().expect("number");
            match hist::run_history(n(1), n(2), n(3) as usize, n(4), args[5].parse().expect("secs"), &args[6]) {
                Ok(s) => println!("{}", s),
                Err(e) => {
                    eprintln!("{}", e);
                    std::process::exit(2)
                }
            }
            return;
        }
        Some("--first") => {
            match hist::run_first(&args[1], args[2].parse().expect("threads")) {
                Ok(s) => println!("{}", s),
                Err(e) => {
                    eprintln!("{}", e);
                    std::process::exit(2)
                }
            }
            return;
        }
        Some("--dump-ops") => {
            // seed, count, file: operations with their results in this build
            let t = hist::dump_ops(args[1].parse().expect("seed"), args[2].parse().expect("count"));
            std::fs::write(&args[3], t).expect("write");
            return;
        }
        Some("--replay-ops") => {
            // file, threads, rounds: the same operations in an instrumented build
            match hist::replay_ops(&args[1], args[2].parse().expect("threads"), args[3].parse().expect("rounds")) {
                Ok(s) => println!("{}", s),
                Err(e) => {
                    println!("MISMATCH {}", e);
                    std::process::exit(1)
                }
            }
            return;
        }
        Some("--genkeys") => {
            for k in hist::generate(args[1].parse().expect("n")) {
                println!("{}", mon::hex(&k));
            }
            return;
        }
        #[cfg(target_arch = "x86_64")]
        Some("--starved") => {
            let closed = effects::starve(args[1].parse().expect("mode"));
            for _ in 0..3 {
                match mon::guarded(libgoldilocks::goldilocks::ed448_generate_key) {
                    _ if !closed => println!("UNABLE"),
                    Ok(k) => println!("KEY {}", mon::hex(&k)),
                    Err(_) => println!("REFUSED"),
                }
            }
            return;
        }
        Some("--forkkeys") => {
            // keys made by a process, its children and a grandchild after a fork
            let n: usize = args[1].parse().expect("n");
            let mut out: String = hist::generate(n).iter().map(|k| mon::hex(k) + "\n").collect();
            let mut child = false;
            let mut kids = vec![];
            for i in 0..4 {
                // SAFETY: this process has one thread
                let pid = unsafe { libc::fork() };
                if pid == 0 {
                    out.clear();
                    kids.clear();
                    child = true;
                    if i != 3 {
                        break;
                    }
                    let pid = unsafe { libc::fork() };
                    if pid == 0 {
                        kids.clear();
                    } else if pid > 0 {
                        kids.push(pid);
                    }
                    break;
                } else if pid > 0 {
                    kids.push(pid);
                }
            }
            for k in hist::generate(6) {
                out += &(mon::hex(&k) + "\n");
            }
            unsafe { libc::write(1, out.as_ptr() as *const libc::c_void, out.len()) };
            for k in kids {
                unsafe { libc::waitpid(k, std::ptr::null_mut(), 0) };
            }
            if child {
                unsafe { libc::_exit(0) };
            }
            return;
        }
        Some("--oskey") => {
            // control for the entropy monitor: 57 bytes straight from the OS
            use rand_core::RngCore;
            let mut k = [0u8; 57];
            rand::rngs::OsRng.fill_bytes(&mut k);
            println!("{}", mon::hex(&k));
            return;
        }
        _ => {}
    }
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let prop = args.first().cloned().unwrap_or_default();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let wall: f64 = get("--wall").and_then(|s| s.parse().ok()).unwrap_or(secs * 6.0 + 120.0);
    let threads = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let now = Instant::now();
    let m: &'static mut Mon = Box::leak(Box::new(Mon {
        prop,
        seed,
        thorough: get("--tier").as_deref() == Some("thorough"),
        threads,
        budget: Duration::from_secs_f64(secs),
        hard_deadline: now + Duration::from_secs_f64(wall),
        only_stage: get("--stage"),
        only_case: get("--case").and_then(|s| s.parse().ok()),
        stop: AtomicBool::new(false),
        violation: Mutex::new(None),
        distinct: (0..64).map(|_| Mutex::new(Default::default())).collect(),
        stages: Mutex::new(vec![]),
        samples: Mutex::new(vec![]),
        facts: Mutex::new(Default::default()),
        total_weight: Mutex::new(0.0),
        checks: AtomicU64::new(0),
        out: get("--out"),
        inconclusive: Mutex::new(None),
        started: now,
        dict: gen::Dict::load(),
        lists: Mutex::new(vec![]),
        plan_only: true,
    }));
    match props::self_test() {
        Ok(n) => m.fact("oracle_self_test_vectors", n.into()),
        Err(e) => {
            eprintln!("reference self-test failed: {}", e);
            std::process::exit(2);
        }
    }
    body(m);
    m.plan_only = false;
    m.fact("hooks", serde_json::json!(deep::available()));
    m.fact("dictionary_constants", (m.dict.ints.len() + m.dict.strs.len()).into());
    let m: &'static Mon = m;
    #[cfg(not(miri))]
    m.watchdog(20.0);
    body(m);
    m.finish()
}
