//! Native replay: runs a harness against the real library with the inputs of a
//! file. Usage: replay FILE, with SX_DIR naming an empty scratch directory.
//! FILE: lines `harness NAME`, `param NAME VALUE`, `in NAME VALUE`.
#![allow(static_mut_refs)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::ffi::CStr;
use std::sync::atomic::{AtomicI64, AtomicU32, Ordering::SeqCst};

struct Count;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;

static mut INPUTS: Vec<(String, u64)> = vec![];
static mut NEXT: usize = 0;
static mut PARAMS: Vec<(String, u64)> = vec![];
static ALLOW: AtomicU32 = AtomicU32::new(0);
static FAILED: AtomicU32 = AtomicU32::new(0);
static DONE: AtomicU32 = AtomicU32::new(0);

extern "C" {
    fn _exit(c: i32) -> !;
    fn atexit(f: extern "C" fn()) -> i32;
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}
fn out(s: &str) {
    let s = format!("{}\n", s);
    unsafe {
        syscall(1, 1i64, s.as_ptr(), s.len());
    }
}
fn quit(c: i32) -> ! {
    DONE.store(1, SeqCst);
    unsafe { _exit(c) }
}
unsafe fn st(p: *const u8) -> String {
    CStr::from_ptr(p as *const _).to_string_lossy().into_owned()
}
unsafe fn next(name: String) -> u64 {
    if NEXT >= INPUTS.len() {
        out(&format!("SX-DIVERGED no input left for {}", name));
        quit(4);
    }
    let (n, v) = &INPUTS[NEXT];
    NEXT += 1;
    if *n != name {
        out(&format!("SX-DIVERGED input {} where the harness asks for {}", n, name));
        quit(4);
    }
    *v
}
#[no_mangle]
pub unsafe extern "C" fn sx_sym(n: *const u8, w: u64) -> u64 {
    within(next(st(n)), 0, if w < 64 { (1 << w) - 1 } else { u64::MAX })
}
fn within(v: u64, lo: u64, hi: u64) -> u64 {
    if v < lo || v > hi {
        out("SX-DIVERGED an input is out of its range");
        quit(4);
    }
    v
}
#[no_mangle]
pub unsafe extern "C" fn sx_range(n: *const u8, lo: u64, hi: u64) -> u64 {
    within(next(st(n)), lo, hi)
}
#[no_mangle]
pub extern "C" fn sx_conc(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn sx_assume(c: u32) {
    if c == 0 {
        out("SX-CUT assume");
        quit(0)
    }
}
#[no_mangle]
pub unsafe extern "C" fn sx_assert_(c: u32, l: *const u8) {
    if c == 0 {
        FAILED.store(1, SeqCst);
        out(&format!("SX-FAIL {}", st(l)));
    }
}
#[no_mangle]
pub unsafe extern "C" fn sx_cover_(l: *const u8) {
    out(&format!("SX-COVER {}", st(l)));
}
#[no_mangle]
pub extern "C" fn sx_observe(v: u64) {
    out(&format!("SX-OBS {}", v));
}
#[no_mangle]
pub extern "C" fn sx_allow(b: u32) {
    ALLOW.store(b, SeqCst);
}
#[no_mangle]
pub extern "C" fn sx_end() -> ! {
    out("SX-END");
    quit(if FAILED.load(SeqCst) != 0 { 1 } else { 0 })
}
#[no_mangle]
pub extern "C" fn sx_heap_live() -> u64 {
    LIVE.load(SeqCst) as u64
}
#[no_mangle]
pub extern "C" fn sx_ite(c: u32, a: u64, b: u64) -> u64 {
    if c != 0 { a } else { b }
}
#[no_mangle]
pub extern "C" fn sx_and(a: u32, b: u32) -> u32 {
    (a != 0 && b != 0) as u32
}
#[no_mangle]
pub extern "C" fn sx_or(a: u32, b: u32) -> u32 {
    (a != 0 || b != 0) as u32
}
#[no_mangle]
pub extern "C" fn sx_eq(a: u64, b: u64) -> u32 {
    (a == b) as u32
}
#[no_mangle]
pub extern "C" fn sx_ne(a: u64, b: u64) -> u32 {
    (a != b) as u32
}
#[no_mangle]
pub extern "C" fn sx_ult(a: u64, b: u64) -> u32 {
    (a < b) as u32
}
#[no_mangle]
pub extern "C" fn sx_ule(a: u64, b: u64) -> u32 {
    (a <= b) as u32
}
#[no_mangle]
pub extern "C" fn sx_flt(a: u32, b: u32) -> u32 {
    (f32::from_bits(a) < f32::from_bits(b)) as u32
}
#[no_mangle]
pub extern "C" fn sx_fle(a: u32, b: u32) -> u32 {
    (f32::from_bits(a) <= f32::from_bits(b)) as u32
}
#[no_mangle]
pub unsafe extern "C" fn sx_param(n: *const u8, d: u64) -> u64 {
    let n = st(n);
    PARAMS.iter().find(|p| p.0 == n).map_or(d, |p| p.1)
}
#[no_mangle]
pub unsafe extern "C" fn sx_fsize(p: *const u8) -> u64 {
    std::fs::metadata(st(p)).map_or(u64::MAX, |m| m.len())
}
#[no_mangle]
pub unsafe extern "C" fn sx_fget(p: *const u8, o: u64) -> u64 {
    std::fs::read(st(p)).ok().and_then(|v| v.get(o as usize).copied()).map_or(u64::MAX, |b| b as u64)
}
#[no_mangle]
pub unsafe extern "C" fn sx_fset(p: *const u8, o: u64, v: u64) {
    let p = st(p);
    let mut d = std::fs::read(&p).unwrap();
    d[o as usize] = v as u8;
    std::fs::write(&p, d).unwrap();
}
#[no_mangle]
pub unsafe extern "C" fn sx_ftruncate(p: *const u8, n: u64) {
    std::fs::OpenOptions::new().write(true).open(st(p)).unwrap().set_len(n).unwrap();
}
#[no_mangle]
pub unsafe extern "C" fn sx_fremove(p: *const u8) {
    let _ = std::fs::remove_file(st(p));
}
#[no_mangle]
pub extern "C" fn sx_fcount() -> u64 {
    let n = |p: String| std::fs::read_dir(p).map_or(0, |d| d.flatten().filter(|e| e.path().is_file()).count() as u64);
    let d = std::env::var("SX_DIR").unwrap();
    n(format!("{d}/sub")) + n(d)
}
// write faults: the real write is reached until the budget is used up
static mut WB: Option<u64> = None;
static mut WK: u32 = 0;
#[no_mangle]
pub unsafe extern "C" fn sx_wbudget(on: u32, n: u64) {
    WB = if on != 0 { Some(n) } else { None };
    WK = on;
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 {
    let s = st(p);
    if WB.is_some() && flags & 3 != 0 && (WK == 6 && s.ends_with(".data") || WK == 7 && s.ends_with(".graph")) {
        *__errno_location() = 13;
        return -1;
    }
    syscall(2, p, flags as i64, mode as i64) as i32
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    let mut n = n;
    if let Some(left) = WB {
        let hit = fd > 2 && n > 0 && WK < 6 && (WK < 2 || WK > 3 || {
            let w = WB.take();
            let p = std::fs::read_link(format!("/proc/self/fd/{}", fd)).map_or(String::new(), |p| p.to_string_lossy().into_owned());
            WB = w;
            p.ends_with(if WK == 2 { ".data" } else { ".graph" })
        });
        if hit {
            if left < n as u64 && WK > 3 {
                WB = None;
            }
            if left == 0 || left < n as u64 && WK == 5 {
                *__errno_location() = 28;
                return -1;
            }
            n = n.min(left as usize);
            if WB.is_some() {
                WB = Some(left - n as u64);
            }
        }
    }
    syscall(1, fd as i64, b, n) as isize
}
#[no_mangle]
pub extern "C" fn sx_open_fds() -> u64 {
    let d = std::fs::canonicalize(std::env::var("SX_DIR").unwrap()).unwrap();
    let mut n = 0;
    for e in std::fs::read_dir("/proc/self/fd").unwrap().flatten() {
        if let Ok(p) = std::fs::read_link(e.path()) {
            n += p.starts_with(&d) as u64;
        }
    }
    n
}
#[no_mangle]
pub extern "C" fn sx_open_maps() -> u64 {
    let d = std::fs::canonicalize(std::env::var("SX_DIR").unwrap()).unwrap();
    let d = d.to_string_lossy().into_owned();
    std::fs::read_to_string("/proc/self/maps").unwrap().lines().filter(|l| l.contains(&d)).count() as u64
}
// threads run one after the other here; schedules are replayed by the instrumented build
#[no_mangle]
pub extern "C" fn sx_spawn(f: extern "C" fn(u64), a: u64) -> u64 {
    f(a);
    0
}
#[no_mangle]
pub extern "C" fn sx_wait(_t: u64) {}
#[no_mangle]
pub extern "C" fn sx_join() {}
#[no_mangle]
pub extern "C" fn sx_sched(_n: i32) {}
#[no_mangle]
pub unsafe extern "C" fn sx_trace_(l: *const u8, v: u64) {
    out(&format!("SX-TRACE {} {}", st(l), v));
}

extern "C" fn at_exit() {
    if DONE.load(SeqCst) == 0 {
        if ALLOW.load(SeqCst) & 2 != 0 {
            out("SX-CUT exit");
            quit(0);
        }
        out("SX-EXIT the process was ended by exit()");
        quit(1);
    }
}

include!("entries.rs");

fn main() {
    let f = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let mut h = String::new();
    for l in f.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.first() {
            Some(&"harness") => h = w[1].into(),
            Some(&"param") => unsafe { PARAMS.push((w[1].into(), w[2].parse().unwrap())) },
            Some(&"in") => unsafe { INPUTS.push((w[1].into(), w[2].parse().unwrap())) },
            _ => {}
        }
    }
    std::env::set_current_dir(std::env::var("SX_DIR").unwrap()).unwrap();
    let _ = std::fs::create_dir("sub");
    let e = ENTRIES.iter().find(|e| e.0 == h).expect("unknown harness").1;
    unsafe {
        atexit(at_exit);
    }
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        if ALLOW.load(SeqCst) & 1 != 0 {
            out(&format!("SX-CUT panic {}", l));
            quit(0);
        }
        out(&format!("SX-PANIC {} {}", l, i));
        quit(1);
    }));
    e();
    sx_end();
}
