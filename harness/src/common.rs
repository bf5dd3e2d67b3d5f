//! Shared parts of the harnesses.
use crate::sx::*;
pub use hnsw_rs::prelude::*;
pub use std::path::Path;

pub const NT: usize = 10;
/// symbolic distance table: TAB[i][j] is the distance between the vectors [i] and [j]
pub static mut TAB: [[f32; NT]; NT] = [[0.; NT]; NT];

/// Distance given by the table, on vectors of one u8.
#[derive(Clone, Copy, Default)]
pub struct Tab;
impl Distance<u8> for Tab {
    fn eval(&self, a: &[u8], b: &[u8]) -> f32 {
        tab(a[0] as usize, b[0] as usize)
    }
}
pub fn tab(i: usize, j: usize) -> f32 {
    unsafe { TAB[i][j] }
}
/// fill the table with arbitrary finite distances >= 0, symmetric, 0 on the diagonal
pub fn fill_tab(n: usize) {
    for i in 0..n {
        for j in 0..i {
            let mut nm = *b"d00";
            nm[1] = b'0' + j as u8;
            nm[2] = b'0' + i as u8;
            let b = range(unsafe { std::str::from_utf8_unchecked(&nm) }, 0, 0x7f7f_ffff) as u32;
            let f = f32::from_bits(b);
            unsafe {
                TAB[i][j] = f;
                TAB[j][i] = f;
            }
        }
    }
}

// ---- levels -------------------------------------------------------------
// The level of an inserted point is floor(-ln(xsi) * scale). `log` is defined
// here so that the harness chooses the level: for an argument below 1 it
// returns a value which gives the chosen level.
pub static mut LEVELS: [u8; 16] = [0; 16];
pub static mut LV_NEXT: usize = 0;
pub static mut LV_LN: f64 = 0.;
pub static mut LV_ON: bool = false;
/// log gives any value it has for a draw in [0, 1)
pub static mut SYMLOG: bool = false;
/// the last of them
pub static mut LAST_LN: f64 = 0.;
#[cfg(sx)]
extern "C" {
    fn sx_log(x: f64) -> f64;
}
#[cfg(not(sx))]
unsafe fn sx_log(x: f64) -> f64 {
    extern "C" {
        fn dlsym(h: *const u8, n: *const u8) -> *const u8;
    }
    let p = dlsym(-1isize as *const u8, b"log\0".as_ptr());
    let f: extern "C" fn(f64) -> f64 = std::mem::transmute(p);
    f(x)
}
#[no_mangle]
pub extern "C" fn log(x: f64) -> f64 {
    unsafe {
        if SYMLOG {
            // -inf for 0, else the logarithm of a multiple of 2^-53 below 1
            let low = param("lnlow", 0);
            let b = sym("ln", 64 - low) << low;
            assume(eq(b, f64::NEG_INFINITY.to_bits()).or(ult((-1e-17f64).to_bits(), b).and(ult(b, (-36.75f64).to_bits()))));
            let f = f64::from_bits(b);
            LAST_LN = f;
            return f;
        }
        if LV_ON && x < 1.0 {
            let l = if let Some(f) = LV_FN {
                LV_NEXT += 1;
                f(LV_NEXT - 1)
            } else if LV_POINT {
                MINE.with(|c| c.get())
            } else {
                LV_NEXT += 1;
                LEVELS[(LV_NEXT - 1) % 16]
            };
            return -(l as f64 + 0.5) * LV_LN;
        }
        sx_log(x)
    }
}
/// the next inserted points get these levels
/// levels go with points, not with the order of insertion
pub static mut LV_POINT: bool = false;
/// or are a function of the rank of the insertion
pub static mut LV_FN: Option<fn(usize) -> u8> = None;
thread_local! {
    static MINE: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}
pub fn by_point(on: bool) {
    unsafe { LV_POINT = on }
}
/// this thread inserts point i now
pub fn point_level(i: usize) {
    MINE.with(|c| c.set(unsafe { LEVELS[i] }))
}
pub fn set_levels(m: usize, l: &[u8]) {
    unsafe {
        LV_FN = None;
        LEVELS = [0; 16];
        LEVELS[..l.len()].copy_from_slice(l);
        LV_NEXT = 0;
        LV_LN = sx_log(m as f64);
        LV_ON = true;
    }
}
// ---- parallel tasks -------------------------------------------------------
/// how the two tasks of a rayon join run: 0 first a, 1 first b, 2 either, 3 at the same time
pub static mut JOIN: u32 = 0;
/// called by the vendored rayon-core for each join
#[no_mangle]
pub unsafe extern "C" fn hx_join(a: extern "C" fn(u64), pa: u64, b: extern "C" fn(u64), pb: u64) {
    let mode = if JOIN == 2 { pick("join", 0, 1) as u32 } else { JOIN };
    match mode {
        0 => {
            a(pa);
            b(pb)
        }
        1 => {
            b(pb);
            a(pa)
        }
        _ => {
            let t = spawn(b, pb);
            a(pa);
            wait(t)
        }
    }
}

// ---- random generator ---------------------------------------------------
/// number of leading 64-bit words of each block of the generator that are symbolic
pub static mut RNG_SYM: usize = 0;
/// the other words come in runs of this many equal ones
pub static mut RNG_REP: usize = 1;
/// called by the vendored rand_chacha in place of the block function
#[no_mangle]
pub unsafe extern "C" fn sx_rng_fill(p: *mut u8, n: usize) {
    for i in 0..n / 8 {
        let w = if i < RNG_SYM { sym("rng", 64) } else { 0x9E37_79B9_7F4A_7C15u64.wrapping_mul((i / RNG_REP) as u64 + 1) };
        std::ptr::write_unaligned((p as *mut u64).add(i), w);
    }
}

// ---- points -------------------------------------------------------------
/// identifier of the i-th point
pub fn id(i: usize) -> usize {
    [7, usize::MAX, 0, 1 << 33, 12, 1 << 63, 3, 1000, 99, 5][i]
}
/// which of the first n points has this identifier (n: none)
pub fn which(d: usize, n: usize) -> usize {
    let mut i = 0;
    while i < n && id(i) != d {
        i += 1;
    }
    i
}
/// distances between the first nc points are concrete, of one of several shapes
pub const SHAPES: usize = 5;
pub fn shape(s: usize, i: usize, j: usize) -> f32 {
    let (a, b) = if i < j { (i, j) } else { (j, i) };
    if a == b {
        return 0.;
    }
    match s {
        // points on a line, in order, distances all different
        0 => ((1 << b) - (1 << a)) as f32,
        // a line, alternately left and right
        1 => {
            let p = |k: usize| if k % 2 == 0 { k as f32 } else { -(k as f32) };
            (p(a) - p(b)).abs()
        }
        // all at the same distance
        2 => 1.,
        // two clusters of equal points
        3 => if (a ^ b) & 1 == 0 { 0. } else { 5. },
        // later points nearer to each other
        _ => 16. / (1. + (a + b) as f32),
    }
}
/// concrete shape s between the first nc points, symbolic distances to the others up to n
pub fn fill_part(s: usize, nc: usize, n: usize) {
    for i in 0..n {
        for j in 0..i {
            let f = if i < nc {
                shape(s, i, j)
            } else {
                let mut nm = *b"d00";
                nm[1] = b'0' + j as u8;
                nm[2] = b'0' + i as u8;
                f32::from_bits(range(unsafe { std::str::from_utf8_unchecked(&nm) }, 0, 0x7f7f_ffff) as u32)
            };
            unsafe {
                TAB[i][j] = f;
                TAB[j][i] = f;
            }
        }
    }
}
pub type H<'b> = Hnsw<'b, u8, Tab>;
/// insert the points lo..hi
pub fn insert(h: &H, lo: usize, hi: usize) {
    for i in lo..hi {
        h.insert((&[i as u8], id(i)));
    }
}
pub fn pick_levels(n: usize, lmax: usize, m: usize) -> [u8; 16] {
    let mut lv = [0u8; 16];
    for i in 0..n {
        lv[i] = pick("lv", 0, lmax) as u8;
    }
    set_levels(m, &lv);
    lv
}

// ---- rules --------------------------------------------------------------
/// the rules every answer of a search obeys; q: row of the table of the query
pub fn check_answer(r: &[Neighbour], n: usize, q: usize, k: usize) {
    check(r.len() <= k, "more answers than asked for");
    check(r.len() <= n, "more answers than points");
    for i in 0..r.len() {
        let w = which(r[i].d_id, n);
        observe(w as u64);
        check(w < n, "an answer names no inserted point");
        if w < n {
            check(feq(r[i].distance, tab(q, w)), "an answer has a wrong distance");
        }
        if i > 0 {
            check(fle(r[i - 1].distance, r[i].distance), "answers are not sorted");
        }
        for j in 0..i {
            check(r[j].d_id != r[i].d_id, "a point is reported twice");
        }
    }
}
/// r has exactly the min(k, accepted) nearest of the accepted points
pub fn check_exact(r: &[Neighbour], n: usize, q: usize, k: usize, acc: &[bool]) {
    let na = acc[..n].iter().filter(|x| **x).count();
    check(r.len() == na.min(k), "wrong number of answers");
    if r.is_empty() {
        return;
    }
    let worst = r[r.len() - 1].distance;
    for p in 0..n {
        if acc[p] && !r.iter().any(|x| x.d_id == id(p)) {
            check(fle(worst, tab(q, p)), "a nearer point is missing");
        }
    }
}
/// registry rules: n points, each once, readable back; returns the internal ids
pub fn check_registry<T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<T, D>, n: usize, nlayer: usize) -> Vec<PointId> {
    let pi = h.get_point_indexation();
    check(h.get_nb_point() == n, "wrong number of points");
    check(pi.get_nb_point() == n, "wrong number of points");
    let mut seen = vec![PointId(255, -2); n];
    let mut count = 0;
    let mut top = 0;
    let mut it = pi.into_iter();
    while let Some(p) = it.next() {
        count += 1;
        let w = which(p.get_origin_id(), n);
        check(w < n, "iteration gives a point which was not inserted");
        if w < n {
            check(seen[w].0 == 255, "iteration gives a point twice");
            seen[w] = p.get_point_id();
            top = top.max(p.get_point_id().0);
        }
        if count > n {
            break;
        }
    }
    drop(it);
    check(count == n, "iteration does not give every point once");
    check(h.get_max_level_observed() == top, "the maximum level is not the highest level of a point");
    check(pi.get_max_level_observed() == top, "the maximum level is not the highest level of a point");
    let mut sum = 0;
    for l in 0..nlayer {
        let c = pi.get_layer_nb_point(l);
        sum += c;
        let mut k = 0;
        let mut li = pi.get_layer_iterator(l);
        while let Some(p) = li.next() {
            check(p.get_point_id() == PointId(l as u8, k as i32), "layer iteration gives a wrong internal id");
            let w = which(p.get_origin_id(), n);
            check(w < n && seen[w] == p.get_point_id(), "layer iteration disagrees with iteration");
            k += 1;
        }
        check(k == c, "layer iteration disagrees with the count of the layer");
    }
    check(sum == n, "counts of the layers do not sum up to the number of points");
    check(pi.get_layer_nb_point(nlayer) == 0, "a layer that does not exist has points");
    seen
}
/// graph rules on the points of h; returns the number of links
pub fn check_graph<T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<T, D>, n: usize, m: usize, seen: &[PointId]) -> usize {
    let mut links = 0;
    for p in h.get_point_indexation() {
        let w = which(p.get_origin_id(), n);
        if w >= n {
            continue;
        }
        let nb = p.get_neighborhood_id();
        for l in 0..nb.len() {
            let v = &nb[l];
            links += v.len();
            check(v.len() <= if l == 0 { 2 * m } else { m }, "a neighbour list is longer than allowed");
            for i in 0..v.len() {
                let x = which(v[i].d_id, n);
                check(x < n, "a neighbour is no point of the index");
                if x >= n {
                    continue;
                }
                check(x != w, "a point is its own neighbour");
                check(seen[x] == v[i].p_id, "a neighbour has a wrong internal id");
                check(feq(v[i].distance, tab(w, x)), "a neighbour has a wrong distance");
                if i > 0 {
                    check(fle(v[i - 1].distance, v[i].distance), "a neighbour list is not sorted");
                }
                for j in 0..i {
                    check(v[j].d_id != v[i].d_id, "a neighbour list has a point twice");
                }
            }
        }
    }
    links
}
