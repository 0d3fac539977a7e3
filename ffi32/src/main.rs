//! 32-bit driver: runs the exported stdcall functions and the Rust functions of the same name in one process.
//! usage: ffi32 IN OUT LIB     IN: records of (u32 function, i32 id, f64, f64); OUT: (f64 stdcall, f64 Rust) each
#![no_main]
use std::io::{Read, Write};
// no 32-bit crt files here: enter through libc directly
std::arch::global_asm!(".globl _start", "_start:", "xor %ebp, %ebp", "pop %esi", "mov %esp, %ecx", "and $-16, %esp", "push %esp", "push %esp", "call 2f", "2: pop %ebx", "add $_GLOBAL_OFFSET_TABLE_+(.-2b), %ebx", "push %edx", "push $0", "push $0", "push %ecx", "push %esi", "lea main@GOTOFF(%ebx), %eax", "push %eax", "call __libc_start_main@PLT", "hlt", options(att_syntax));
extern "C" { fn dlopen(f: *const u8, flags: i32) -> *mut u8; fn dlsym(h: *mut u8, n: *const u8) -> *mut u8; }
const N: [&str; 12] = ["pt", "ph", "ps", "hs", "pv", "tv", "th", "ts", "px", "tx", "hx", "sx"];
type S = unsafe extern "stdcall" fn(f64, f64, i32) -> f64;
fn run() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let mut inp = vec![];
    std::fs::File::open(&a[1]).unwrap().read_to_end(&mut inp).unwrap();
    let mut out = std::fs::File::create(&a[2]).unwrap();
    let lib = unsafe { dlopen(format!("{}\0", a[3]).as_ptr(), 2) };
    if lib.is_null() { println!("cannot load {}", a[3]); return 3; }
    let mut st: Vec<S> = vec![];
    for n in N {
        let p = unsafe { dlsym(lib, format!("{n}\0").as_ptr()) };
        if p.is_null() { println!("not exported: {n}"); return 4; }
        st.push(unsafe { std::mem::transmute::<*mut u8, S>(p) });
    }
    // by name, not through a fn pointer of another type: the Rust functions are generic over the id argument
    let ru: [fn(f64, f64, i32) -> f64; 12] = [|a, b, o| seuif97::pt(a, b, o), |a, b, o| seuif97::ph(a, b, o), |a, b, o| seuif97::ps(a, b, o), |a, b, o| seuif97::hs(a, b, o), |a, b, o| seuif97::pv(a, b, o), |a, b, o| seuif97::tv(a, b, o),
        |a, b, o| seuif97::th(a, b, o), |a, b, o| seuif97::ts(a, b, o), |a, b, o| seuif97::px(a, b, o), |a, b, o| seuif97::tx(a, b, o), |a, b, o| seuif97::hx(a, b, o), |a, b, o| seuif97::sx(a, b, o)];
    for ch in inp.chunks(24 * 4096) {
        let mut buf = vec![];
        for r in ch.chunks_exact(24) {
            let f = u32::from_le_bytes(r[0..4].try_into().unwrap()) as usize; let o = i32::from_le_bytes(r[4..8].try_into().unwrap());
            let (x, y) = (f64::from_le_bytes(r[8..16].try_into().unwrap()), f64::from_le_bytes(r[16..24].try_into().unwrap()));
            let p = unsafe { st[f](x, y, o) };
            let q = ru[f](x, y, o);
            buf.extend(p.to_le_bytes()); buf.extend(q.to_le_bytes());
        }
        out.write_all(&buf).unwrap();
    }
    0
}
#[no_mangle] pub extern "C" fn main(_c: i32, _v: *const *const u8) -> i32 { run() }
