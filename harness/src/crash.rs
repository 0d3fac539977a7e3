//! A crash of the library (stack overflow, abort, illegal instruction) is an observation too: the handler
//! dumps the calls in flight as a replay file and reports the violation.
use crate::api::*;
use std::sync::atomic::Ordering::*;
use std::sync::OnceLock;
extern "C" {
    fn signal(n: i32, h: usize) -> usize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn open(p: *const std::ffi::c_char, flags: i32, ...) -> i32;
    fn _exit(c: i32) -> !;
}
static WHO: OnceLock<(String, String)> = OnceLock::new();
struct W { fd: i32 }
impl W {
    fn s(&self, s: &str) { unsafe { write(self.fd, s.as_ptr(), s.len()); } }
    fn hex(&self, x: u64, digits: usize) { let mut b = [0u8; 16]; for i in 0..digits { b[i] = b"0123456789abcdef"[((x >> (4 * (digits - 1 - i))) & 15) as usize]; } unsafe { write(self.fd, b.as_ptr(), digits); } }
    fn int(&self, x: i32) { if x < 0 { self.s("-"); } let mut n = (x as i64).unsigned_abs(); let mut b = [0u8; 12]; let mut i = 12; loop { i -= 1; b[i] = b'0' + (n % 10) as u8; n /= 10; if n == 0 { break; } } unsafe { write(self.fd, b[i..].as_ptr(), 12 - i); } }
}
extern "C" fn on(sig: i32) {
    unsafe { signal(sig, 0); }
    let (id, path) = match WHO.get() { Some(w) => w, None => unsafe { _exit(2) } };
    let f = W { fd: unsafe { open(path.as_ptr() as *const std::ffi::c_char, 0o1 | 0o100 | 0o1000, 0o644u32) } };
    f.s("{\n  \"property\": \""); f.s(id); f.s("\",\n  \"kind\": \"crash\",\n  \"signal\": "); f.int(sig); f.s(",\n  \"what\": \"the process died inside one of these calls\",\n  \"calls\": [");
    let mut n = 0;
    for s in SLOT.iter() {
        if s.seq.load(Relaxed) % 2 == 0 { continue; }
        let o = s.o.load(Relaxed);
        f.s(if n == 0 { "\n" } else { ",\n" }); n += 1;
        f.s("    {\"fn\": \""); f.s(ALL[s.f.load(Relaxed) as usize % 12].name()); f.s("\", \"a_bits\": \""); f.hex(s.a.load(Relaxed), 16); f.s("\", \"b_bits\": \""); f.hex(s.b.load(Relaxed), 16);
        f.s("\", \"o_id\": "); f.int((o >> 32) as u32 as i32); f.s(", \"region\": "); f.int(o as u32 as i32); f.s("}");
    }
    f.s("\n  ]\n}\n");
    let w = W { fd: 1 };
    if n == 0 { w.s("the monitor itself crashed outside any library call: no verdict\n"); unsafe { _exit(3) } }
    w.s("the process died with signal "); w.int(sig); w.s(" inside a library call\nVIOLATION property="); w.s(id); w.s(" replay="); w.s(&path[..path.len() - 1]); w.s("\n");
    unsafe { _exit(1) }
}
pub fn install(id: &str) {
    let d = format!("{}/replays", crate::core::verif());
    let _ = std::fs::create_dir_all(&d);
    let _ = WHO.set((id.to_string(), format!("{d}/{id}-crash.json\0")));
    // SIGSEGV and SIGBUS stay with the Rust runtime, which turns a stack overflow into SIGABRT
    unsafe { for s in [6, 4, 8] { signal(s, on as extern "C" fn(i32) as usize); } }
}
