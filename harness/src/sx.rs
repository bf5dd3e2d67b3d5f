//! Interface between the harnesses and whatever runs them: the symbolic
//! executor (`--cfg sx`, where these stay undefined in the IR), or the native
//! replay runtime (replay.rs), which reads the inputs from a file.
mod ffi {
    extern "C" {
        pub fn sx_sym(name: *const u8, width: u64) -> u64;
        pub fn sx_range(name: *const u8, lo: u64, hi: u64) -> u64;
        pub fn sx_conc(v: u64) -> u64;
        pub fn sx_assume(c: u32);
        pub fn sx_assert_(c: u32, label: *const u8);
        pub fn sx_cover_(label: *const u8);
        pub fn sx_observe(v: u64);
        pub fn sx_allow(bits: u32);
        pub fn sx_end() -> !;
        pub fn sx_heap_live() -> u64;
        pub fn sx_ite(c: u32, a: u64, b: u64) -> u64;
        pub fn sx_and(a: u32, b: u32) -> u32;
        pub fn sx_or(a: u32, b: u32) -> u32;
        pub fn sx_eq(a: u64, b: u64) -> u32;
        pub fn sx_ne(a: u64, b: u64) -> u32;
        pub fn sx_ult(a: u64, b: u64) -> u32;
        pub fn sx_ule(a: u64, b: u64) -> u32;
        pub fn sx_flt(a: u32, b: u32) -> u32;
        pub fn sx_fle(a: u32, b: u32) -> u32;
        pub fn sx_param(name: *const u8, default: u64) -> u64;
        pub fn sx_fsize(path: *const u8) -> u64;
        pub fn sx_fget(path: *const u8, off: u64) -> u64;
        pub fn sx_fset(path: *const u8, off: u64, val: u64);
        pub fn sx_ftruncate(path: *const u8, len: u64);
        pub fn sx_fremove(path: *const u8);
        pub fn sx_fcount() -> u64;
        pub fn sx_wbudget(on: u32, bytes: u64);
        pub fn sx_open_fds() -> u64;
        pub fn sx_open_maps() -> u64;
        pub fn sx_spawn(f: extern "C" fn(u64), arg: u64) -> u64;
        pub fn sx_wait(t: u64);
        pub fn sx_join();
        pub fn sx_sched(n: i32);
        pub fn sx_trace_(label: *const u8, v: u64);
    }
}
use ffi::*;

/// A condition, possibly symbolic: combining two does not branch.
#[derive(Clone, Copy)]
pub struct B(pub u32);
impl From<bool> for B {
    fn from(b: bool) -> B {
        B(b as u32)
    }
}
impl B {
    pub fn and<X: Into<B>>(self, o: X) -> B {
        B(unsafe { sx_and(self.0, o.into().0) })
    }
    pub fn or<X: Into<B>>(self, o: X) -> B {
        B(unsafe { sx_or(self.0, o.into().0) })
    }
    pub fn not(self) -> B {
        eq(self.0 as u64, 0)
    }
    pub fn num(self) -> u64 {
        ite(self, 1, 0)
    }
}
pub fn eq(a: u64, b: u64) -> B {
    B(unsafe { sx_eq(a, b) })
}
pub fn ne(a: u64, b: u64) -> B {
    B(unsafe { sx_ne(a, b) })
}
pub fn ult(a: u64, b: u64) -> B {
    B(unsafe { sx_ult(a, b) })
}
pub fn ule(a: u64, b: u64) -> B {
    B(unsafe { sx_ule(a, b) })
}
pub fn flt(a: f32, b: f32) -> B {
    B(unsafe { sx_flt(a.to_bits(), b.to_bits()) })
}
pub fn fle(a: f32, b: f32) -> B {
    B(unsafe { sx_fle(a.to_bits(), b.to_bits()) })
}
/// the two floats have the same bits
pub fn feq(a: f32, b: f32) -> B {
    eq(a.to_bits() as u64, b.to_bits() as u64)
}
pub fn ite(c: B, a: u64, b: u64) -> u64 {
    unsafe { sx_ite(c.0, a, b) }
}
fn with(s: &str, f: impl FnOnce(*const u8)) {
    let mut buf = [0u8; 96];
    let n = s.len().min(95);
    buf[..n].copy_from_slice(&s.as_bytes()[..n]);
    f(buf.as_ptr())
}
pub fn sym(name: &str, width: u64) -> u64 {
    let mut r = 0;
    with(name, |p| r = unsafe { sx_sym(p, width) });
    r
}
/// a symbolic value in [lo, hi]
pub fn range(name: &str, lo: u64, hi: u64) -> u64 {
    let mut r = lo;
    with(name, |p| r = unsafe { sx_range(p, lo, hi) });
    r
}
/// every value in [lo, hi], one path each
pub fn pick(name: &str, lo: usize, hi: usize) -> usize {
    if lo == hi {
        return lo;
    }
    conc(range(name, lo as u64, hi as u64)) as usize
}
/// a choice outside the solver's variables: split into one path per value
pub fn conc(v: u64) -> u64 {
    unsafe { sx_conc(v) }
}
pub fn assume<X: Into<B>>(c: X) {
    unsafe { sx_assume(c.into().0) }
}
pub fn check<X: Into<B>>(c: X, label: &str) {
    let c: B = c.into();
    with(label, |p| unsafe { sx_assert_(c.0, p) })
}
pub fn cover(label: &str) {
    with(label, |p| unsafe { sx_cover_(p) })
}
pub fn observe(v: u64) {
    unsafe { sx_observe(v) }
}
/// 0: a panic or process exit is a violation; 1: panics are cut; 2: exit is cut
pub fn allow(bits: u32) {
    unsafe { sx_allow(bits) }
}
pub fn end() -> ! {
    unsafe { sx_end() }
}
pub fn heap_live() -> u64 {
    unsafe { sx_heap_live() }
}
pub fn param(name: &str, d: u64) -> u64 {
    let mut r = d;
    with(name, |p| r = unsafe { sx_param(p, d) });
    r
}
pub fn fsize(path: &str) -> u64 {
    let mut r = 0;
    with(path, |p| r = unsafe { sx_fsize(p) });
    r
}
pub fn fget(path: &str, o: u64) -> u64 {
    let mut r = 0;
    with(path, |p| r = unsafe { sx_fget(p, o) });
    r
}
pub fn fset(path: &str, o: u64, v: u64) {
    with(path, |p| unsafe { sx_fset(p, o, v) })
}
pub fn ftruncate(path: &str, n: u64) {
    with(path, |p| unsafe { sx_ftruncate(p, n) })
}
pub fn fremove(path: &str) {
    with(path, |p| unsafe { sx_fremove(p) })
}
pub fn fcount() -> u64 {
    unsafe { sx_fcount() }
}
/// kinds: 0 none, n bytes fit in 1 all files, 2 data files, 3 graph files; 4 one short write, 5 one failing write after n bytes;
/// 6 data files, 7 graph files cannot be opened for writing
pub fn wbudget(kind: u32, n: u64) {
    unsafe { sx_wbudget(kind, n) }
}
pub fn open_fds() -> u64 {
    unsafe { sx_open_fds() }
}
pub fn open_maps() -> u64 {
    unsafe { sx_open_maps() }
}
/// a new thread
pub fn spawn(f: extern "C" fn(u64), a: u64) -> u64 {
    unsafe { sx_spawn(f, a) }
}
/// until that thread has ended
pub fn wait(t: u64) {
    unsafe { sx_wait(t) }
}
pub fn join() {
    unsafe { sx_join() }
}
pub fn sched(n: i32) {
    unsafe { sx_sched(n) }
}
pub fn trace(l: &str, v: u64) {
    with(l, |p| unsafe { sx_trace_(p, v) })
}
/// directory of the dumps: in the executor the model file system, natively a scratch directory
#[cfg(sx)]
fn top() -> String {
    String::from("/sx/d")
}
#[cfg(not(sx))]
fn top() -> String {
    std::env::var("SX_DIR").expect("SX_DIR")
}
static mut REL: bool = false;
/// dump in a directory given relative to the current one
pub fn relative(on: bool) {
    unsafe { REL = on }
}
/// the directory of the dumps
pub fn dir() -> String {
    if unsafe { REL } { String::from("sub") } else { top() }
}
pub fn file(base: &str, ext: &str) -> String {
    let mut s = dir();
    s.push('/');
    s.push_str(base);
    s.push_str(ext);
    s
}
