//! C19: no operation has effects beyond its result. The calls run in threads
//! under a system-call filter that traps everything but memory management,
//! locking and queries; around them the environment, the floating-point control
//! word, the panic hook and the standard streams' buffers are compared.
use crate::gen;
use crate::hist::{any_op, eval, op_text, pool, Op};
use crate::mon::{guarded, hex, Case, Mon, Plan::*, Rng};
use libgoldilocks::goldilocks as g;
use libgoldilocks::{PrehashSigner, SecretKey, SigningKey, VerifyingKey};
use std::cell::Cell;
use std::hint::black_box as bb;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

thread_local! {
    /// first trapped system call of this thread, -1 for none
    static TRAPPED: Cell<(i64, u64)> = const { Cell::new((-1, 0)) };
}
static TRAPS: AtomicU64 = AtomicU64::new(0);
static FILTERED: AtomicU64 = AtomicU64::new(0);
const EPERM: i64 = 1;

extern "C" fn on_sys(_: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    // SAFETY: the kernel hands over a valid siginfo (si_syscall at offset 24) and ucontext
    unsafe {
        let nr = *((info as *const u8).add(24) as *const i32) as i64;
        let uc = ctx as *mut libc::ucontext_t;
        let arg = (*uc).uc_mcontext.gregs[libc::REG_RDI as usize] as u64;
        (*uc).uc_mcontext.gregs[libc::REG_RAX as usize] = -EPERM;
        // the end of a thread masks signals, too: outside library calls
        if crate::mon::in_library() {
            TRAPS.fetch_add(1, Relaxed);
            TRAPPED.with(|t| {
                if t.get().0 < 0 {
                    t.set((nr, arg));
                }
            });
        }
    }
}
/// memory, locks, thread exit, signal return, and queries that change nothing. Changing the signal mask is trapped
/// (starting a thread does it first, and a trap while SIGSYS is blocked would end the process)
const ALLOWED: [i64; 29] = [
    libc::SYS_brk, libc::SYS_mmap, libc::SYS_munmap, libc::SYS_mremap, libc::SYS_mprotect, libc::SYS_madvise, libc::SYS_futex, libc::SYS_sched_yield, libc::SYS_getrandom,
    libc::SYS_clock_gettime, libc::SYS_clock_getres, libc::SYS_gettimeofday, libc::SYS_time, libc::SYS_getpid, libc::SYS_gettid, libc::SYS_getppid, libc::SYS_getcpu,
    libc::SYS_sched_getaffinity, libc::SYS_sysinfo, libc::SYS_uname, libc::SYS_rt_sigreturn, libc::SYS_sigaltstack, libc::SYS_exit, libc::SYS_rseq,
    libc::SYS_set_robust_list, libc::SYS_membarrier, libc::SYS_restart_syscall, libc::SYS_getuid, libc::SYS_getrusage,
];
pub fn install_handler() {
    // SAFETY: plain registration of a handler
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_sys as extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void) as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGSYS, &sa, std::ptr::null_mut());
    }
}
/// put the calling thread under the filter, for good
fn filter_me(random_device: bool) -> bool {
    let f = |code: u32, k: u32, jt: u8, jf: u8| libc::sock_filter { code: code as u16, jt, jf, k };
    let mut p = vec![f(libc::BPF_LD | libc::BPF_W | libc::BPF_ABS, 0, 0, 0)];
    let device: &[i64] = if random_device { &[libc::SYS_open, libc::SYS_openat, libc::SYS_read, libc::SYS_close, libc::SYS_poll, libc::SYS_ppoll, libc::SYS_fstat, libc::SYS_newfstatat, libc::SYS_statx, libc::SYS_fcntl] } else { &[] };
    for &nr in ALLOWED.iter().chain(device) {
        p.push(f(libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K, nr as u32, 0, 1));
        p.push(f(libc::BPF_RET | libc::BPF_K, libc::SECCOMP_RET_ALLOW, 0, 0));
    }
    p.push(f(libc::BPF_RET | libc::BPF_K, libc::SECCOMP_RET_TRAP, 0, 0));
    let prog = libc::sock_fprog { len: p.len() as u16, filter: p.as_mut_ptr() };
    // SAFETY: the program outlives the calls; both affect this thread only
    unsafe { libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER, &prog as *const _, 0, 0) == 0 }
}
/// close the ways to the operating system's random bytes: all, the system call
/// only (missing, forbidden), the devices only. False if they are still open.
pub fn starve(mode: u64) -> bool {
    let f = |code: u32, k: u32, jt: u8, jf: u8| libc::sock_filter { code: code as u16, jt, jf, k };
    let mut p = vec![f(libc::BPF_LD | libc::BPF_W | libc::BPF_ABS, 0, 0, 0)];
    let call = [Some(libc::EIO), Some(libc::ENOSYS), Some(libc::EPERM), None][mode as usize];
    let open = [Some(libc::ENOENT), None, None, Some(libc::EMFILE)][mode as usize];
    for (nr, e) in [(libc::SYS_getrandom, call), (libc::SYS_open, open), (libc::SYS_openat, open), (libc::SYS_openat2, open)] {
        if let Some(e) = e {
            p.push(f(libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K, nr as u32, 0, 1));
            p.push(f(libc::BPF_RET | libc::BPF_K, libc::SECCOMP_RET_ERRNO | e as u32, 0, 0));
        }
    }
    p.push(f(libc::BPF_RET | libc::BPF_K, libc::SECCOMP_RET_ALLOW, 0, 0));
    let prog = libc::sock_fprog { len: p.len() as u16, filter: p.as_mut_ptr() };
    let mut b = [0u8; 1];
    // SAFETY: the program outlives the calls; the buffer holds one byte
    unsafe {
        libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0
            && libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER, &prog as *const _, 0, 0) == 0
            && (call.is_none() || libc::getrandom(b.as_mut_ptr() as *mut libc::c_void, 1, 0) < 0)
            && (open.is_none() || libc::open(c"/dev/urandom".as_ptr(), libc::O_RDONLY) < 0)
    }
}
/// floating-point control (rounding, masks), not the sticky exception flags
fn control_word() -> u32 {
    let mut w = 0u32;
    // SAFETY: stores four bytes
    unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut w) };
    w & !0x3f
}
fn environment() -> Vec<(std::ffi::OsString, std::ffi::OsString)> {
    std::env::vars_os().collect()
}
/// operations that `Op` does not describe
fn other(i: u64, r: &mut Rng, d: &gen::Dict) -> String {
    let k = gen::key(r, d);
    let h = hex(&k);
    let n = r.below(130) as usize;
    let v = r.vec(n);
    let text: String = match r.below(4) {
        0 => h[..r.below(114) as usize].to_string(),
        1 => h.to_uppercase(),
        2 => h.replacen(|c: char| c == 'a', "é", 1),
        _ => hex(&v),
    };
    let what = ["hex decoders", "refused constructors", "documents", "objects", "points", "random source"][i as usize % 6];
    let _ = guarded(|| match what {
        "hex decoders" => {
            bb(guarded(|| g::hex_to_private_key(&text)).is_ok());
            bb(guarded(|| g::hex_to_signature(&text)).is_ok());
            bb(guarded(|| g::hex_to_message_hash(&text)).is_ok());
        }
        "refused constructors" => {
            bb(guarded(|| SecretKey::from_str(&text)).is_ok());
            bb(guarded(|| SigningKey::from_str(&text)).is_ok());
            bb(guarded(|| VerifyingKey::from_str(&text)).is_ok());
            bb(guarded(|| SigningKey::from_slice(&v)).is_ok());
            bb(guarded(|| SigningKey::from_bytes(&v).is_ok()).is_ok());
        }
        "documents" => {
            for t in [format!("\"{}\"", text), format!("{:?}", v), text.clone(), format!("{{\"key\":\"{}\"}}", text)] {
                bb(serde_json::from_str::<SigningKey>(&t).is_ok());
                bb(serde_json::from_str::<SecretKey>(&t).is_ok());
                bb(serde_json::from_str::<VerifyingKey>(&t).is_ok());
            }
            bb(bincode::deserialize::<SigningKey>(&v).is_ok());
            bb(bincode::serialize(&SigningKey::from_slice(&k)).is_ok());
        }
        "objects" => {
            let a = SigningKey::from_slice(&k);
            let b = a;
            bb(a == b);
            bb(format!("{:?}{:?}{:?}", a, a.secret_key(), a.verifying_key()));
            bb(a.sign_prehash(&v).is_ok());
        }
        "points" => {
            bb(g::point_by_secret(&k));
        }
        _ => {
            bb(SigningKey::random(&mut crate::hist::ShakeRng::new(&v)));
        }
    });
    format!("{} {} {}", what, text, hex(&v))
}
fn case(c: &mut Case) {
    let d = &c.mon.dict;
    let mut r = Rng::new(&[c.mon.seed, 0xeffe, c.idx]);
    let from_pool: Vec<Op> = if c.idx < 40 { pool(c.mon.seed ^ c.idx, d, 60) } else { vec![] };
    let ops: Vec<Op> = if from_pool.is_empty() { (0..40).map(|_| any_op(&mut r, d)).collect() } else { from_pool };
    let (env, word, base) = (environment(), control_word(), c.idx);
    let found: Option<(String, String)> = std::thread::scope(|s| {
        let (env, ops) = (&env, &ops);
        s.spawn(move || {
            let _ = std::io::stdout().flush();
            // allocate what the harness needs, and warm the thread up, before the filter
            let _ = guarded(|| ());
            if filter_me(false) {
                FILTERED.fetch_add(1, Relaxed);
            }
            let bad = |what: &str| -> Option<(String, String)> {
                let (nr, arg) = TRAPPED.with(|t| t.get());
                if nr >= 0 {
                    return Some((format!("a call asked the system for call number {} ({})", nr, name(nr)), format!("{}; first argument {}", what, arg)));
                }
                (control_word() != word).then(|| ("a call changed the floating-point control word".to_string(), what.to_string()))
            };
            for o in ops {
                bb(eval(o));
                let b = bad("");
                if b.is_some() {
                    return b.map(|(a, t)| (a, op_text(o) + &t));
                }
            }
            for i in 0..12 {
                let t = other(base + i, &mut r, d);
                let b = bad(&t);
                if b.is_some() {
                    return b;
                }
            }
            // text left in a buffer leaves it now
            let _ = guarded(|| std::io::stdout().flush().is_ok());
            if let Some((a, _)) = bad("") {
                return Some((a + ", of buffered output", op_text(&ops[0])));
            }
            if environment() != *env {
                return Some(("a call changed the environment".into(), op_text(&ops[0])));
            }
            match guarded(|| panic!("is the hook still there")) {
                Err(m) if m.starts_with("is the hook still there at ") => {}
                e => return Some((format!("the panic hook was replaced: {:?}", e), op_text(&ops[0]))),
            }
            None
        })
        .join()
        .unwrap_or(None)
    });
    crate::mon::count_calls(ops.len() as u64 + 12);
    for o in &ops {
        c.class(o.kind);
        c.checked(&[o.kind.as_bytes(), &o.a, &o.b, &o.m]);
    }
    c.sample(|| serde_json::json!({"operations": ops.len() + 12, "first": op_text(&ops[0]), "trapped": 0}));
    if let Some((what, how)) = found {
        c.fail(what, &[("operation, or first of the operations", how)]);
    }
}
/// long messages, texts and buffers
fn long(c: &mut Case) {
    let len = [70_000usize, 200_000, 1_100_000, 5_000_000][c.idx as usize % 4];
    let mut k = c.rng.bytes::<57>();
    k[56] = if c.idx % 2 == 0 { 1 } else { 0x81 };
    let m = c.rng.vec(4096).into_iter().cycle().take(len).collect::<Vec<u8>>();
    let t = format!("\"{}\"", "0a".repeat(len / 2));
    let done = std::thread::scope(|s| {
        s.spawn(|| {
            if filter_me(false) {
                FILTERED.fetch_add(1, Relaxed);
            }
            let _ = guarded(|| {
                let (p, sig) = (g::ed448_derive_public(&k), g::ed448_sign(&k, &m));
                bb(g::ed448_verify(&p, &sig, &m).is_ok());
                bb(g::ed448_verify_with_error(&p, &sig, &m[1..]).is_ok());
                bb(g::sign_by_private(&k, &m));
                bb(g::sign_with_secret_and_nonce(&k, &k, &m));
                bb(SigningKey::from_slice(&k).sign_prehash(&m).is_ok());
                bb(g::ed448_verify(&m, &m, &m).is_ok());
                bb(SigningKey::from_bytes(&m).is_ok());
                bb(serde_json::from_str::<SigningKey>(&t).is_ok());
                bb(serde_json::from_str::<VerifyingKey>(&t).is_ok());
            });
            TRAPPED.with(|t| t.get())
        })
        .join()
        .unwrap_or((-1, 0))
    });
    crate::mon::count_calls(11);
    c.class("long");
    c.checked(&[&k, &(len as u64).to_le_bytes()]);
    if done.0 >= 0 {
        c.fail(format!("a call on {} bytes asked the system for call number {} ({})", len, done.0, name(done.0)), &[("key", hex(&k)), ("first argument", done.1.to_string())]);
    }
}
/// many calls of one kind in one filtered thread, several threads at once
fn bulk(mon: &Mon) {
    if mon.plan_only || mon.stop.load(Relaxed) || mon.only_stage.is_some() {
        return;
    }
    let rounds = if cfg!(debug_assertions) { 4 } else if mon.thorough { 400 } else { 16 };
    for (kind, what) in crate::cost::KINDS.iter().enumerate() {
        let cheap = matches!(*what, "private_to_secret" | "hex_key" | "refused_length" | "serialize" | "generate" | "refused_text");
        let n = if cheap { 1024 } else { 12 };
        let got: Vec<(i64, u64)> = std::thread::scope(|s| {
            let t: Vec<_> = (0..8u64)
                .map(|t| {
                    s.spawn(move || {
                        if filter_me(*what == "generate") {
                            FILTERED.fetch_add(1, Relaxed);
                        }
                        let mut r = Rng::new(&[mon.seed, 0xb01c, kind as u64, t]);
                        for _ in 0..rounds {
                            crate::cost::block(kind, &mut r, n, &mon.dict);
                        }
                        let _ = guarded(|| std::io::stdout().flush().is_ok());
                        TRAPPED.with(|t| t.get())
                    })
                })
                .collect();
            t.into_iter().map(|h| h.join().unwrap_or((-1, 0))).collect()
        });
        mon.fact(&format!("bulk_calls_{}", what), (8 * rounds * n).into());
        if let Some((nr, arg)) = got.into_iter().find(|g| g.0 >= 0) {
            mon.fail("effects_bulk", kind as u64, format!("one of {} calls ({}) asked the system for call number {} ({})", 8 * rounds * n, what, nr, name(nr)), &[("first argument", arg.to_string())]);
            return;
        }
    }
}
fn name(nr: i64) -> &'static str {
    match nr {
        libc::SYS_write | libc::SYS_writev => "write",
        libc::SYS_read => "read",
        libc::SYS_open | libc::SYS_openat => "open a file",
        libc::SYS_socket => "open a socket",
        libc::SYS_clone | libc::SYS_clone3 | libc::SYS_fork | libc::SYS_vfork => "start a thread or process",
        libc::SYS_rt_sigprocmask => "block signals, as starting a thread does",
        libc::SYS_rt_sigaction => "change a signal handler",
        libc::SYS_nanosleep | libc::SYS_clock_nanosleep => "sleep",
        _ => "see the system call table",
    }
}
pub fn c19(mon: &Mon) {
    if !mon.plan_only {
        install_handler();
        // does the filter trap at all here?
        let (ok, nr) = std::thread::spawn(|| {
            let ok = filter_me(false);
            let _ = guarded(|| unsafe { libc::close(-1) });
            (ok, TRAPPED.with(|t| t.get().0))
        })
        .join()
        .unwrap_or((false, -1));
        TRAPS.store(0, Relaxed);
        mon.fact("system_call_filter_traps", (ok && nr == libc::SYS_close).into());
    }
    mon.stage("effects_pool", All(40), case);
    mon.stage("effects", Share(1.0, 64), |c| {
        c.idx += 40;
        case(c);
        c.idx -= 40;
    });
    mon.stage("effects_long", All(if cfg!(debug_assertions) { 4 } else { 16 }), long);
    bulk(mon);
    if !mon.plan_only {
        mon.fact("threads_under_the_filter", FILTERED.load(Relaxed).into());
        mon.fact("system_calls_trapped", TRAPS.load(Relaxed).into());
    }
}
