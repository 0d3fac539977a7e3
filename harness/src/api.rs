//! The only door to the code under test: its public functions, called through one dispatcher that
//! keeps a per-thread record of the call in flight (for the watchdog) and turns a panic into an event.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::*};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum F { Pt, Ph, Ps, Hs, Pv, Tv, Th, Ts, Px, Tx, Hx, Sx }
pub use F::*;
pub const ALL: [F; 12] = [Pt, Ph, Ps, Hs, Pv, Tv, Th, Ts, Px, Tx, Hx, Sx];
pub const PAIRS8: [F; 8] = [Pt, Ph, Ps, Hs, Pv, Tv, Th, Ts];
impl F {
    pub fn name(self) -> &'static str { ["pt", "ph", "ps", "hs", "pv", "tv", "th", "ts", "px", "tx", "hx", "sx"][self as usize] }
    pub fn from_name(s: &str) -> Option<F> { ALL.iter().copied().find(|f| f.name() == s) }
    /// ids of the two inputs
    pub fn ins(self) -> (i32, i32) { [(0, 1), (0, 4), (0, 5), (4, 5), (0, 3), (1, 3), (1, 4), (1, 5), (0, 15), (1, 15), (4, 15), (5, 15)][self as usize] }
    pub fn is_x(self) -> bool { self as u8 >= 8 }
}
pub const NOREG: i32 = i32::MIN;
#[derive(Clone, Copy, Debug)]
pub struct Call { pub f: F, pub a: f64, pub b: f64, pub o: i32, pub r: i32 }
impl std::fmt::Display for Call {
    fn fmt(&self, w: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.r == NOREG { write!(w, "{}({:?}, {:?}, {})", self.f.name(), self.a, self.b, self.o) }
        else { write!(w, "{}({:?}, {:?}, ({}, {}))", self.f.name(), self.a, self.b, self.o, self.r) }
    }
}
#[inline(never)]
pub fn raw(c: &Call) -> f64 {
    let (a, b, o, r) = (c.a, c.b, c.o, c.r);
    macro_rules! two { ($f:path) => { if r == NOREG { $f(a, b, o) } else { $f(a, b, (o, r)) } }; }
    match c.f {
        Pt => two!(seuif97::pt), Ph => two!(seuif97::ph), Ps => two!(seuif97::ps), Hs => two!(seuif97::hs),
        Pv => two!(seuif97::pv), Tv => two!(seuif97::tv), Th => two!(seuif97::th), Ts => two!(seuif97::ts),
        Px => seuif97::px(a, b, o), Tx => seuif97::tx(a, b, o), Hx => seuif97::hx(a, b, o), Sx => seuif97::sx(a, b, o),
    }
}
pub const SLOTS: usize = 64;
pub struct Slot { pub seq: AtomicU64, pub f: AtomicU64, pub a: AtomicU64, pub b: AtomicU64, pub o: AtomicU64, pub who: AtomicU64, pub idx: AtomicU64 }
#[allow(clippy::declare_interior_mutable_const)]
const S0: Slot = Slot { seq: AtomicU64::new(0), f: AtomicU64::new(0), a: AtomicU64::new(0), b: AtomicU64::new(0), o: AtomicU64::new(0), who: AtomicU64::new(0), idx: AtomicU64::new(0) };
pub static SLOT: [Slot; SLOTS] = [S0; SLOTS];
static NEXT: AtomicU64 = AtomicU64::new(0);
thread_local! { pub static MY: usize = (NEXT.fetch_add(1, Relaxed) as usize) % SLOTS; }
pub fn my_slot() -> usize { MY.with(|m| *m) }
/// guarded call
pub fn call_in(slot: usize, c: &Call) -> Result<f64, String> {
    let s = &SLOT[slot];
    s.f.store(c.f as u64, Relaxed); s.a.store(c.a.to_bits(), Relaxed); s.b.store(c.b.to_bits(), Relaxed);
    s.o.store(((c.o as u32 as u64) << 32) | c.r as u32 as u64, Relaxed);
    s.seq.fetch_add(1, Release); // odd: in call
    let r = catch_unwind(AssertUnwindSafe(|| if c.o == -77777 && std::env::var("RV_TEST_CRASH").is_ok() { deep(c.a) } else { raw(c) }));
    s.seq.fetch_add(1, Release);
    r.map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or("panic".into()))
}
pub fn slot_call(s: &Slot) -> Call {
    let o = s.o.load(Relaxed);
    Call { f: ALL[s.f.load(Relaxed) as usize % 12], a: f64::from_bits(s.a.load(Relaxed)), b: f64::from_bits(s.b.load(Relaxed)), o: (o >> 32) as u32 as i32, r: o as u32 as i32 }
}

#[allow(unconditional_recursion)]
#[inline(never)]
fn deep(x: f64) -> f64 { let a = [x; 64]; std::hint::black_box(&a); deep(x + a[3]) + a[5] }
