//! P20: a call leaves no trace. A counting allocator, a system-call filter (seccomp, trapping into a recorder), the
//! floating-point control registers and a small stack watch every call of this property's workload.
use super::region::any_state;
use super::robust::{any_id, hostile};
use super::region::wet;
use crate::api::*;
use crate::core::*;
use crate::refm::*;
use crate::rng::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::*};

// ---- allocator: per-thread balance of live blocks and bytes, and the peak since the last reset
thread_local! {
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TRAPS: Cell<u64> = const { Cell::new(0) };
    static TRAP_NR: Cell<i32> = const { Cell::new(-1) };
    static FILTERED: Cell<u8> = const { Cell::new(0) };
}
pub struct Counting;
fn moved(blocks: i64, bytes: i64) { BLOCKS.with(|b| b.set(b.get() + blocks)); BYTES.with(|b| { let n = b.get() + bytes; b.set(n); PEAK.with(|p| if n > p.get() { p.set(n) }) }); }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { moved(1, l.size() as i64); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { moved(1, l.size() as i64); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { moved(-1, -(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { moved(0, n as i64 - l.size() as i64); System.realloc(p, l, n) }
}
pub static HOOKED: AtomicU64 = AtomicU64::new(0);

// ---- system calls: everything but memory management, locks, clock and random source traps
const ALLOWED: [u32; 24] = [9, 10, 11, 12, 14, 15, 24, 25, 28, 35, 39, 60, 102, 131, 186, 201, 202, 204, 228, 230, 231, 273, 318, 334];
fn sys_name(n: i32) -> String {
    let t = [(0, "read"), (1, "write"), (2, "open"), (3, "close"), (4, "stat"), (5, "fstat"), (8, "lseek"), (13, "rt_sigaction"), (16, "ioctl"), (20, "writev"), (22, "pipe"), (41, "socket"), (42, "connect"), (56, "clone"), (57, "fork"), (59, "execve"), (62, "kill"), (63, "uname"), (72, "fcntl"), (79, "getcwd"), (80, "chdir"), (82, "rename"), (83, "mkdir"), (87, "unlink"), (89, "readlink"), (157, "prctl"), (160, "setrlimit"), (200, "tkill"), (203, "sched_setaffinity"), (234, "tgkill"), (257, "openat"), (262, "newfstatat"), (263, "unlinkat"), (332, "statx"), (435, "clone3")];
    t.iter().find(|x| x.0 == n).map(|x| x.1.to_string()).unwrap_or(format!("system call {n}"))
}
#[repr(C)]
struct Act { handler: usize, mask: [u64; 16], flags: i32, restorer: usize }
#[repr(C)]
struct Prog { len: u16, f: *const [u8; 8] }
extern "C" {
    fn sigaction(n: i32, a: *const Act, o: *mut Act) -> i32;
    fn prctl(o: i32, a: usize, b: usize, c: usize, d: usize) -> i32;
    fn sigprocmask(how: i32, s: *const u8, o: *mut u8) -> i32;
}
extern "C" fn on_sys(_: i32, info: *const u8, uc: *mut u8) {
    unsafe {
        let nr = *(info.add(24) as *const i32);
        TRAPS.with(|t| { if t.get() == 0 { TRAP_NR.with(|n| n.set(nr)); } t.set(t.get() + 1) });
        *(uc.add(40 + 13 * 8) as *mut i64) = -38; // ENOSYS to the caller
    }
}
/// once per worker thread; false where the kernel refuses
fn filter() -> bool {
    FILTERED.with(|f| {
        if f.get() == 0 { f.set(if unsafe { install() } { 1 } else { 2 }); }
        f.get() == 1
    })
}
unsafe fn install() -> bool {
    let ins = |c: u16, jt: u8, jf: u8, k: u32| { let mut b = [0u8; 8]; b[..2].copy_from_slice(&c.to_le_bytes()); b[2] = jt; b[3] = jf; b[4..].copy_from_slice(&k.to_le_bytes()); b };
    let mut v = vec![ins(0x20, 0, 0, 0)];
    for n in ALLOWED { v.push(ins(0x15, 0, 1, n)); v.push(ins(0x06, 0, 0, 0x7fff_0000)); }
    v.push(ins(0x06, 0, 0, 0x0003_0000));
    let p = Prog { len: v.len() as u16, f: v.as_ptr() };
    prctl(38, 1, 0, 0, 0) == 0 && prctl(22, 2, &p as *const Prog as usize, 0, 0) == 0
}
/// rounding mode, flush-to-zero, denormals-are-zero, exception masks; x87 control word
fn fp_control() -> (u32, u16) {
    let (mut x, mut w) = (0u32, 0u16);
    unsafe { std::arch::asm!("stmxcsr [{0}]", "fnstcw [{1}]", in(reg) &mut x, in(reg) &mut w, options(nostack)); }
    (x & 0xffc0, w)
}
fn fp_restore(x: (u32, u16)) { let (a, w) = (x.0 | 0, x.1); unsafe { std::arch::asm!("ldmxcsr [{0}]", "fldcw [{1}]", in(reg) &a, in(reg) &w, options(nostack)); } }
fn sig_mask() -> u64 { let mut o = [0u8; 128]; unsafe { sigprocmask(0, std::ptr::null(), o.as_mut_ptr()); } u64::from_le_bytes(o[..8].try_into().unwrap()) }

static NET_BLOCKS: [AtomicI64; 2] = [const { AtomicI64::new(0) }; 2];
static NET_BYTES: [AtomicI64; 2] = [const { AtomicI64::new(0) }; 2];
static ALLOCS: AtomicI64 = AtomicI64::new(0);
static LEAKY: [AtomicU64; 6] = [const { AtomicU64::new(0) }; 6]; // the last call that kept memory
pub static STACK: AtomicUsize = AtomicUsize::new(0);
fn traced(m: &mut Mon, c: Call, k: usize) {
    let f0 = fp_control();
    let (b0, y0, t0) = (BLOCKS.with(|x| x.get()), BYTES.with(|x| x.get()), TRAPS.with(|x| x.get()));
    PEAK.with(|p| p.set(y0));
    let r = call_in(m.slot, &c);
    let (b1, y1, t1, pk) = (BLOCKS.with(|x| x.get()), BYTES.with(|x| x.get()), TRAPS.with(|x| x.get()), PEAK.with(|x| x.get()));
    let f1 = fp_control();
    m.calls += 1; m.verdicts += 4;
    m.case_mark(mix(c.a.to_bits()).wrapping_add(mix(c.b.to_bits())) ^ c.f as u64);
    if f0 != f1 { fp_restore(f0); m.fail("floating-point control", "fp-control", format!("{c} leaves the control registers of floating-point arithmetic at mxcsr {:04x}, x87 {:04x} (before: {:04x}, {:04x})", f1.0, f1.1, f0.0, f0.1), vec![c]); }
    if t1 != t0 { let nr = TRAP_NR.with(|n| n.replace(-1)); TRAPS.with(|t| t.set(0)); m.fail("system call", &format!("syscall {nr}"), format!("{c} made the system call {}", sys_name(nr)), vec![c]); }
    if pk - y0 > 64 << 20 { m.fail("memory in a call", "peak", format!("{c} needed {} bytes at once", pk - y0), vec![c]); }
    if r.is_ok() && (b1 != b0 || y1 != y0) {
        NET_BLOCKS[k].fetch_add(b1 - b0, Relaxed); NET_BYTES[k].fetch_add(y1 - y0, Relaxed);
        if y1 > y0 { for (s, x) in LEAKY.iter().zip([c.f as u64, c.a.to_bits(), c.b.to_bits(), c.o as u32 as u64, c.r as u32 as u64]) { s.store(x, Relaxed); } }
    }
    if pk != y0 { ALLOCS.fetch_add(1, Relaxed); }
}
fn held(c: &Ctx, f: F, k: usize, what: &str) {
    let (b, y) = (NET_BLOCKS[k].swap(0, Relaxed), NET_BYTES[k].swap(0, Relaxed));
    let l: Vec<u64> = LEAKY.iter().map(|x| x.load(Relaxed)).collect();
    c.par(&format!("held-{what}-{}", f.name()), 1, |_, m, _| {
        let call = Call { f: ALL[l[0] as usize % 12], a: f64::from_bits(l[1]), b: f64::from_bits(l[2]), o: l[3] as u32 as i32, r: l[4] as u32 as i32 };
        m.cntn(&format!("memory blocks still held after all {what} calls of {}", f.name()), b.max(0) as u64);
        m.ensure("memory kept", b < 2000 && y < 8 << 20, || format!("the {what} calls of {} left {b} blocks, {y} bytes of memory allocated, the last ones in {call}", f.name()), vec![call]);
        m.case_mark(mix(f as u64 + 1000 * k as u64));
    });
}
pub fn p20(c: &Ctx) -> Report {
    let act = Act { handler: on_sys as extern "C" fn(i32, *const u8, *mut u8) as usize, mask: [0; 16], flags: 4, restorer: 0 };
    unsafe { sigaction(31, &act, std::ptr::null_mut()); }
    let env0: Vec<(std::ffi::OsString, std::ffi::OsString)> = std::env::vars_os().collect();
    let dir0 = std::env::current_dir().ok();
    let fds = || std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0);
    let threads = || std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0);
    let (fd0, th0) = (fds(), threads());
    let n = c.n(30_000, 600_000);
    // first without the filter, so that the crash handler can report a call that does not fit into the small stack
    STACK.store(256 << 10, Relaxed);
    for f in ALL {
        c.par(&format!("stack-{}", f.name()), n * 3, |r, m, _| {
            let (mut a, mut b) = if f.is_x() { let (T, x) = wet(r); let w = Wet::from_T(T, x); (w.prop(f.ins().0), x) } else { any_state(r, f) };
            match r.below(8) { 0 => a = hostile(r), 1 => b = hostile(r), 2 => a *= 1.0 + r.sign() * r.tiny(1e-15, 1.0), 3 => b *= 1.0 + r.sign() * r.tiny(1e-15, 1.0), _ => {} }
            for _ in 0..4 { let (o, g) = (any_id(r), if f.is_x() || r.chance(0.7) { NOREG } else { r.int(0, 6) as i32 }); traced(m, Call { f, a, b, o, r: g }, 0); }
            m.sample("stack", || format!("{}({a:?}, {b:?}) on a stack of 256 kB", f.name()));
        });
        held(c, f, 0, "any");
    }
    STACK.store(0, Relaxed);
    for f in ALL {
        c.par(&format!("states-{}", f.name()), n, |r, m, _| {
            m.cnt(if filter() { "cases with the system-call filter on" } else { "cases without the system-call filter" });
            let mask = sig_mask();
            let (a, b) = if f.is_x() { let (T, x) = wet(r); let w = Wet::from_T(T, x); (w.prop(f.ins().0), x) } else { any_state(r, f) };
            for o in 0..36 { traced(m, Call { f, a, b, o, r: NOREG }, 0); }
            for _ in 0..4 { let o = any_id(r); traced(m, Call { f, a, b, o, r: NOREG }, 0); }
            if !f.is_x() { for g in 1..6 { let o = r.int(0, 35) as i32; traced(m, Call { f, a, b, o, r: g }, 0); } }
            let k = sig_mask();
            m.ensure("signal mask", k == mask, || format!("the calls of {}({a:?}, {b:?}) changed the signal mask from {mask:x} to {k:x}", f.name()), vec![]);
            m.sample("states", || format!("{}({a:?}, {b:?}) with all ids and regions: nothing left behind", f.name()));
        });
        held(c, f, 0, "valid");
        c.par(&format!("hostile-{}", f.name()), n * 8, |r, m, _| {
            filter();
            let (mut a, mut b) = if f.is_x() { let (T, x) = wet(r); let w = Wet::from_T(T, x); (w.prop(f.ins().0), x) } else { any_state(r, f) };
            let k = 1.0 + r.sign() * r.tiny(1e-15, 3.0);
            match r.below(6) { 0 => a = hostile(r), 1 => b = hostile(r), 2 => { a = hostile(r); b = hostile(r); } 3 => a *= k, 4 => b *= k, _ => { a *= k; b *= 1.0 + r.sign() * r.tiny(1e-15, 3.0); } }
            for _ in 0..3 { let o = any_id(r); let g = if f.is_x() || r.chance(0.7) { NOREG } else { r.int(-1, 11) as i32 }; traced(m, Call { f, a, b, o, r: g }, 1); }
            m.sample("hostile", || format!("{}({a:?}, {b:?}): nothing left behind", f.name()));
        });
        held(c, f, 1, "invalid");
        // the same calls again and again on one thread: a cache, bounded or by input, is full after the first pass
        c.par(&format!("again-{}", f.name()), c.threads as u64 * c.n(2, 20), |r, m, _| {
            filter();
            let v: Vec<Call> = (0..4000).map(|_| {
                let (mut a, mut b) = if f.is_x() { let (T, x) = wet(r); let w = Wet::from_T(T, x); (w.prop(f.ins().0), x) } else { any_state(r, f) };
                match r.below(8) { 0 => a = hostile(r), 1 => b = hostile(r), 2 => a *= 1.0 + r.sign() * r.tiny(1e-15, 1.0), 3 => b *= 1.0 + r.sign() * r.tiny(1e-15, 1.0), _ => {} }
                Call { f, a, b, o: if r.chance(0.1) { any_id(r) } else { r.int(0, 35) as i32 }, r: if f.is_x() || r.chance(0.8) { NOREG } else { r.int(1, 5) as i32 } }
            }).collect();
            let (mut blocks, mut bytes, mut last) = (0i64, 0i64, None);
            for pass in 0..4 {
                for c in &v {
                    let (b0, y0) = (BLOCKS.with(|x| x.get()), BYTES.with(|x| x.get()));
                    let ok = call_in(m.slot, c).is_ok();
                    let (b1, y1) = (BLOCKS.with(|x| x.get()), BYTES.with(|x| x.get()));
                    if pass > 0 && ok { blocks += b1 - b0; bytes += y1 - y0; if y1 > y0 { last = Some(*c); } }
                }
            }
            m.calls += 4 * v.len() as u64;
            m.case_mark(mix(v[0].a.to_bits()) ^ f as u64);
            m.cntn("calls repeated three times without more memory", v.len() as u64);
            m.ensure("memory grows", blocks <= 64 && bytes <= 4096, || format!("{} calls of {} repeated three times left {blocks} more blocks and {bytes} more bytes allocated{}", v.len(), f.name(), last.map(|c| format!(", the last ones in {c}")).unwrap_or_default()), last.into_iter().collect());
        });
    }
    c.par("surroundings", 1, |_, m, _| {
        let env1: Vec<(std::ffi::OsString, std::ffi::OsString)> = std::env::vars_os().collect();
        m.ensure("environment", env0 == env1, || format!("the environment of the process changed: {} variables before, {} after", env0.len(), env1.len()), vec![]);
        m.ensure("directory", std::env::current_dir().ok() == dir0, || "the working directory of the process changed".into(), vec![]);
        let (fd1, th1) = (fds(), threads());
        m.ensure("descriptors", fd1 <= fd0 + 1, || format!("open descriptors: {fd0} before, {fd1} after"), vec![]);
        m.ensure("threads", th1 <= th0 + c.threads + 1, || format!("threads: {th0} before, {th1} after"), vec![]);
        let h = HOOKED.load(Relaxed);
        let _ = std::panic::catch_unwind(|| panic!("probe"));
        m.ensure("panic hook", HOOKED.load(Relaxed) == h + 1, || "the panic hook of the process was replaced".into(), vec![]);
        m.cntn("calls that allocated at all", ALLOCS.load(Relaxed) as u64);
        m.case_mark(1);
    });
    Report { rule: "all twelve functions on single-phase and wet states with every id, invalid ids and explicit regions, and on hostile and pushed inputs, also in threads with a stack of 256 kB; around every call the monitor compares the floating-point control registers and the balance of a counting allocator, and a seccomp filter traps every system call other than memory management, locks, clock and random source; signal mask, environment, directory, descriptors, threads and panic hook are compared as well".into(), assumptions: vec!["memory: less than 2000 blocks and 8 MB may remain after some 100 000 calls of one function (a bounded cache is no leak)".into()] }
}
