//! Larger indexes: points at fixed places on a line, a few places and bytes symbolic.
use crate::common::*;
use crate::io::{must, same_answers, same_conf, D, G};
use crate::sx::*;
use hnsw_rs::anndists::dist::distances::NoDist;
use hnsw_rs::datamap::DataMap;
use hnsw_rs::flatten::FlatNeighborhood;
use hnsw_rs::hnswio::*;

/// distance of the places, the first element of a vector
#[derive(Clone, Copy, Default)]
pub struct Line;
/// distances between two places which are symbolic
static mut ANY: [(u32, u32, f32); 8] = [(0, 0, 0.); 8];
static mut NANY: usize = 0;
/// the first point is the nearest one of all others
static mut HUB: bool = false;
/// distances without any order, between 1 and 2
static mut MIXED: bool = false;
pub fn mixed(a: u32, b: u32) -> f32 {
    if a == b {
        return 0.;
    }
    let h = (a.min(b) as u64 + 1).wrapping_mul(0xD134_2543_DE82_EF95) ^ (a.max(b) as u64 + 3).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let h = (h ^ h >> 29).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    f32::from_bits(0x3f80_0000 + (h >> 41) as u32)
}
fn ldist(a: u32, b: u32) -> f32 {
    unsafe {
        for k in 0..NANY {
            let t = ANY[k];
            if t.0 == a && t.1 == b || t.0 == b && t.1 == a {
                return t.2;
            }
        }
    }
    let d = if a < b { b - a } else { a - b };
    // with a hub, points are near to it only
    if unsafe { HUB } && (a == 0) == (b == 0) && a != b {
        return f32::from_bits(0x7000_0000 + (d << 8));
    }
    if unsafe { MIXED } {
        return mixed(a, b);
    }
    f32::from_bits(d << 8)
}
impl Distance<u32> for Line {
    fn eval(&self, a: &[u32], b: &[u32]) -> f32 {
        ldist(a[0], b[0])
    }
}
pub type HB<'b> = Hnsw<'b, u32, Line>;
const ODD: usize = 0x9E37_79B9_7F4A_7C15;
/// identifiers over the whole range
pub fn bid(i: usize) -> usize {
    (i + 1).wrapping_mul(ODD)
}
pub fn bwhich(d: usize, n: usize) -> usize {
    // inverse of ODD modulo 2^64
    let mut inv = ODD;
    for _ in 0..6 {
        inv = inv.wrapping_mul(2usize.wrapping_sub(ODD.wrapping_mul(inv)));
    }
    let i = d.wrapping_mul(inv).wrapping_sub(1);
    if i < n { i } else { n }
}
/// places: all different for less than 1009 points, between 0 and 64512
fn place(i: usize) -> u32 {
    (i as u32 * 389 % 1009) * 64
}
/// the distances between place a and s of the n points are arbitrary
fn any(a: u32, n: usize, s: usize) {
    for k in 0..s.min(n) {
        // spread over the line and over the order of insertion
        let b = place([n / 2, 0, n - 1, n / 5, n / 3, 1][k % 6] % n);
        let f = f32::from_bits(range("d", 0, 0x7f7f_ffff) as u32);
        unsafe {
            ANY[NANY] = (a, b, f);
            NANY += 1;
        }
    }
}
/// a place between two others
const MID: u32 = 30001;
fn geometric(i: usize) -> u8 {
    if i % 37 == 20 {
        return 15;
    }
    let h = (i as u64 + 1).wrapping_mul(0xD134_2543_DE82_EF95) >> 40;
    (h.trailing_zeros() / 2).min(14) as u8
}
fn ground(_: usize) -> u8 {
    0
}
pub fn levels(m: usize, kind: u64) {
    set_levels(m, &[]);
    unsafe { LV_FN = Some(if kind == 0 { ground } else { geometric }) }
}
/// vectors: the place, then a payload
fn vector(i: usize, len: usize) -> Vec<u32> {
    let mut v = vec![place(i)];
    for k in 1..len {
        v.push((i * 1000 + k) as u32 ^ 0xa5a5_0000);
    }
    v
}
struct Made<'b> {
    h: HB<'b>,
    v: Vec<Vec<u32>>,
}
fn made<'b>(n: usize, m: usize, efc: usize, len: impl Fn(usize) -> usize, last: usize) -> Made<'b> {
    levels(m, param("lv", 1));
    unsafe {
        HUB = param("hub", 0) != 0;
        MIXED = param("mixed", 0) != 0;
    }
    let mut h: HB = Hnsw::new(m, 64, 16, efc, Line);
    h.set_extend_candidates(param("ext", 0) != 0);
    h.set_keeping_pruned(param("keep", 0) != 0);
    let mut v = vec![];
    for i in 0..n {
        let mut x = vector(i, len(i));
        if i + last >= n {
            x[0] = MID + 2 * (n - i) as u32;
            any(x[0], n - last, param("s", 2) as usize);
        }
        h.insert((&x, bid(i)));
        v.push(x);
    }
    Made { h, v }
}
fn answers(r: &[Neighbour], v: &[Vec<u32>], q: u32, k: usize) {
    let n = v.len();
    check(r.len() <= k, "more answers than asked for");
    check(r.len() <= n, "more answers than points");
    let mut seen = vec![false; n];
    for i in 0..r.len() {
        let w = bwhich(r[i].d_id, n);
        observe(w as u64);
        check(w < n, "an answer names no inserted point");
        if w < n {
            check(feq(r[i].distance, ldist(q, v[w][0])), "an answer has a wrong distance");
            check(!seen[w], "a point is reported twice");
            seen[w] = true;
        }
        if i > 0 {
            check(fle(r[i - 1].distance, r[i].distance), "answers are not sorted");
        }
    }
}
/// S01, S02, S03
#[no_mangle]
pub extern "C" fn h_bs() {
    let n = param("n", 60) as usize;
    let wide = param("wide", 0) as usize;
    let m = if wide > 0 { [255, 128, 127, 129, 200, 254, 64, 192][pick("m", 0, wide - 1)] } else { param("m", 6) as usize };
    let what = param("what", 0);
    let b = made(n, m, param("efc", 20) as usize, |_| 1, 0);
    let q = MID;
    any(q, n, param("s", 3) as usize);
    let ks = [1, n / 5, n, n + 1];
    let k = ks[pick("k", param("kmin", 0) as usize, param("kmax", 3) as usize)];
    let ef = [1, n / 4, n + 3][pick("ef", param("emin", 0) as usize, param("emax", 2) as usize)];
    if what == 0 {
        let r = b.h.search(&[q], k, ef);
        answers(&r, &b.v, q, k);
        check(!r.is_empty(), "no answer from an index with points");
        if param("exact", 0) != 0 {
            exact(&r, &b.v, q, k, |_| true);
        }
    } else {
        // accepted points: one of several sets
        let set = pick("set", 0, param("sets", 4) as usize - 1);
        let acc = |i: usize| match set {
            0 => i % 3 == 1,
            1 => i + 3 >= n,
            2 => false,
            3 => i == n / 2,
            _ => true,
        };
        let r = if pick("kind", 0, param("kinds", 2) as usize - 1) == 0 {
            let f = |d: &DataId| acc(bwhich(*d, n));
            b.h.search_filter(&[q], k, ef, Some(&f))
        } else {
            let mut l: Vec<usize> = (0..n).filter(|i| acc(*i)).map(bid).collect();
            l.sort_unstable();
            b.h.search_filter(&[q], k, ef, Some(&l))
        };
        answers(&r, &b.v, q, k);
        for x in &r {
            let w = bwhich(x.d_id, n);
            check(w < n && acc(w), "an answer is rejected by the filter");
        }
        if param("exact", 0) != 0 {
            exact(&r, &b.v, q, k, acc);
        }
        if !r.is_empty() {
            cover("answer");
        }
    }
    cover("end");
    std::mem::forget(b);
}
fn exact(r: &[Neighbour], v: &[Vec<u32>], q: u32, k: usize, acc: impl Fn(usize) -> bool) {
    let n = v.len();
    let na = (0..n).filter(|i| acc(*i)).count();
    check(r.len() == na.min(k), "wrong number of answers");
    if r.is_empty() {
        return;
    }
    let worst = r[r.len() - 1].distance;
    let mut got = vec![false; n + 1];
    for x in r {
        got[bwhich(x.d_id, n)] = true;
    }
    for i in 0..n {
        if acc(i) && !got[i] {
            check(fle(worst, ldist(q, v[i][0])), "a nearer point is missing");
        }
    }
}
fn registry<T: Clone + Send + Sync, X: Distance<T> + Send + Sync>(h: &Hnsw<T, X>, n: usize) -> Vec<PointId> {
    let pi = h.get_point_indexation();
    check(h.get_nb_point() == n && pi.get_nb_point() == n, "wrong number of points");
    let mut seen = vec![PointId(255, -2); n + 1];
    let mut count = 0;
    let mut top = 0;
    for p in pi {
        count += 1;
        let w = bwhich(p.get_origin_id(), n);
        check(w < n, "iteration gives a point which was not inserted");
        check(seen[w].0 == 255, "iteration gives a point twice");
        seen[w] = p.get_point_id();
        top = top.max(seen[w].0);
        if count > n {
            break;
        }
    }
    check(count == n, "iteration does not give every point once");
    check(h.get_max_level_observed() == top, "the maximum level is not the highest level of a point");
    let mut sum = 0;
    for l in 0..17 {
        let c = pi.get_layer_nb_point(l);
        sum += c;
        if l == 16 {
            check(c == 0, "a layer that does not exist has points");
            break;
        }
        let mut k = 0;
        for p in pi.get_layer_iterator(l) {
            check(p.get_point_id() == PointId(l as u8, k as i32), "layer iteration gives a wrong internal id");
            let w = bwhich(p.get_origin_id(), n);
            check(w < n && seen[w] == p.get_point_id(), "layer iteration disagrees with iteration");
            k += 1;
        }
        check(k == c, "layer iteration disagrees with the count of the layer");
    }
    check(sum == n, "counts of the layers do not sum up to the number of points");
    seen
}
fn data(h: &HB, v: &[Vec<u32>], seen: &[PointId]) {
    let pi = h.get_point_indexation();
    let mut next = [0i32; 16];
    for i in 0..v.len() {
        let d = pi.get_point_data(&seen[i]);
        check(d.is_some(), "no data for an internal id in use");
        if let Some(d) = d {
            check(d.len() == v[i].len(), "data of another length");
            for k in 0..d.len().min(v[i].len()) {
                check(eq(d[k] as u64, v[i][k] as u64), "other data");
            }
        }
        next[seen[i].0 as usize % 16] += 1;
    }
    for l in 0..16 {
        check(pi.get_point_data(&PointId(l, next[l as usize])).is_none(), "data for an internal id that was never issued");
    }
}
fn graph(h: &HB, v: &[Vec<u32>], m: usize, seen: &[PointId], links: bool) {
    let n = v.len();
    for p in h.get_point_indexation() {
        let w = bwhich(p.get_origin_id(), n);
        if w >= n {
            continue;
        }
        let nb = p.get_neighborhood_id();
        let mut deg = 0;
        for l in 0..nb.len() {
            let t = &nb[l];
            deg += t.len();
            check(t.len() <= if l == 0 { 2 * m } else { m }, "a neighbour list is longer than allowed");
            let mut has = vec![false; n + 1];
            for i in 0..t.len() {
                let x = bwhich(t[i].d_id, n);
                check(x < n, "a neighbour is no point of the index");
                if x >= n {
                    continue;
                }
                check(x != w, "a point is its own neighbour");
                check(!has[x], "a neighbour list has a point twice");
                has[x] = true;
                check(seen[x] == t[i].p_id, "a neighbour has a wrong internal id");
                check(feq(t[i].distance, ldist(v[w][0], v[x][0])), "a neighbour has a wrong distance");
                if i > 0 {
                    check(fle(t[i - 1].distance, t[i].distance), "a neighbour list is not sorted");
                }
            }
        }
        if links {
            check(n < 2 || deg > 0, "a point has no neighbour");
        }
    }
}
/// G01 (what & 2), R01 (what & 1)
#[no_mangle]
pub extern "C" fn h_bg() {
    let n = param("n", 60) as usize;
    let m = param("m", 3) as usize;
    let what = param("what", 3);
    let b = made(n, m, param("efc", 12) as usize, |i| 1 + i % 3, param("last", 1) as usize);
    let seen = registry(&b.h, n);
    if what & 1 != 0 {
        data(&b.h, &b.v, &seen);
        for i in 0..n {
            let l = if param("lv", 1) == 0 { 0 } else { geometric(i) };
            check(seen[i].0 == l, "a point is on another level than drawn");
        }
    }
    if what & 2 != 0 {
        graph(&b.h, &b.v, m, &seen, false);
    }
    cover("end");
    std::mem::forget(b);
}

fn first(_: usize) -> u8 {
    1
}
/// G02: the rule for each point of an index whose points are all on one layer
#[no_mangle]
pub extern "C" fn h_b02() {
    let n = param("n", 40) as usize;
    let m = param("m", 3) as usize;
    let layer = pick("layer", 0, param("layers", 1) as usize);
    let cap = if layer == 0 { 2 * m } else { m };
    let keep = pick("keep", 0, 1) != 0;
    let ext = pick("ext", 0, param("exts", 1) as usize) != 0;
    set_levels(m, &[]);
    unsafe {
        LV_FN = Some(if layer == 0 { ground } else { first });
        MIXED = pick("mixed", 0, 1) != 0;
    }
    let mut h: HB = Hnsw::new(m, 64, 16, n + 2, Line);
    h.set_keeping_pruned(keep);
    h.set_extend_candidates(ext);
    // links of each point, before and after
    let links = |i: usize| -> Vec<Vec<usize>> {
        let mut l = vec![vec![]; i];
        for p in h.get_point_indexation() {
            l[bwhich(p.get_origin_id(), i).min(i - 1)] = p.get_neighborhood_id()[layer].iter().map(|x| bwhich(x.d_id, i)).collect();
        }
        l
    };
    let mut v: Vec<u32> = vec![];
    for i in 0..n {
        let mut x = vector(i, 1);
        if i == n - 1 {
            x[0] = MID;
            any(MID, i, param("s", 1) as usize);
        }
        let q = x[0];
        if i == 0 {
            h.insert((&x, bid(i)));
            v.push(q);
            continue;
        }
        // the points that can be reached from the first one
        let l = links(i);
        let mut reach = vec![0];
        let mut seen = vec![false; i];
        seen[0] = true;
        let mut at = 0;
        while at < reach.len() {
            for &c in &l[reach[at]] {
                if c < i && !seen[c] {
                    seen[c] = true;
                    reach.push(c);
                }
            }
            at += 1;
        }
        h.insert((&x, bid(i)));
        v.push(q);
        let mut got = links(i + 1).pop().unwrap();
        check(got.len() <= cap, "more neighbours than allowed");
        // no ties
        let dq = |c: usize| ldist(q, v[c]);
        let mut ord: Vec<usize> = vec![];
        for &c in &reach {
            for &d in &ord {
                assume(ne(dq(c).to_bits() as u64, dq(d).to_bits() as u64));
            }
            ord.push(c);
        }
        ord.sort_unstable_by(|a, b| dq(*a).total_cmp(&dq(*b)));
        let mut kept: Vec<usize> = vec![];
        if ord.len() <= cap && !(ext && layer == 0) {
            kept = ord;
        } else {
            let mut out: Vec<usize> = vec![];
            for c in ord {
                if kept.len() >= cap {
                    break;
                }
                if kept.iter().all(|k| ldist(v[c], v[*k]) > dq(c)) {
                    kept.push(c);
                } else {
                    out.push(c);
                }
            }
            if keep {
                let left = cap - kept.len();
                kept.extend(out.into_iter().take(left));
            }
            cover("rule");
        }
        kept.sort_unstable();
        got.sort_unstable();
        for g in &got {
            observe(*g as u64);
        }
        check(kept.len() == got.len(), "the diversity rule keeps another number of neighbours");
        check(kept == got, "a neighbour the diversity rule keeps is missing");
    }
    cover("end");
    std::mem::forget(h);
}
// ---- dump and reload --------------------------------------------------------
/// lengths of the vectors
fn length(kind: usize, i: usize) -> usize {
    match kind {
        0 => 3,
        // every length from 1 to n
        1 => i + 1,
        2 => [1, 255, 256, 257, 2047, 2048, 2049, 5000, 16384, 40, 7, 64][i % 12],
        _ => 40,
    }
}
struct Pt {
    id: usize,
    p: PointId,
    v: Vec<u32>,
    nb: Vec<Vec<Neighbour>>,
}
fn pts<T: Clone + Send + Sync, X: Distance<T> + Send + Sync>(h: &Hnsw<T, X>, f: impl Fn(&[T]) -> Vec<u32>, n: usize) -> Vec<Pt> {
    let mut r = vec![];
    for p in h.get_point_indexation() {
        r.push(Pt { id: p.get_origin_id(), p: p.get_point_id(), v: f(p.get_v()), nb: p.get_neighborhood_id() });
        if r.len() > n {
            break;
        }
    }
    r
}
fn same(a: &[Pt], b: &[Pt], data: bool) {
    check(a.len() == b.len(), "another number of points");
    for i in 0..a.len().min(b.len()) {
        let (x, y) = (&a[i], &b[i]);
        check(x.id == y.id, "another identifier");
        check(x.p == y.p, "another level or rank");
        if data {
            check(x.v.len() == y.v.len(), "data of another length");
            let mut ok: B = true.into();
            for k in 0..x.v.len().min(y.v.len()) {
                ok = ok.and(eq(x.v[k] as u64, y.v[k] as u64));
            }
            check(ok, "other data");
        } else {
            check(y.v.is_empty(), "a graph-only reload has data");
        }
        check(x.nb.len() == y.nb.len(), "another number of lists");
        for l in 0..x.nb.len().min(y.nb.len()) {
            let (u, w) = (&x.nb[l], &y.nb[l]);
            check(u.len() == w.len(), "another number of neighbours");
            for k in 0..u.len().min(w.len()) {
                check(u[k].d_id == w[k].d_id, "another neighbour");
                check(u[k].p_id == w[k].p_id, "another internal id of a neighbour");
                check(feq(u[k].distance, w[k].distance), "another distance of a neighbour");
            }
        }
    }
}
fn words(v: &[u32]) -> Vec<u32> {
    v.to_vec()
}
fn reload(base: &str, mmap: Option<usize>) -> HnswIo {
    let mut o = ReloadOptions::default();
    if let Some(t) = mmap {
        o = o.set_mmap(true).set_mmap_threshold(t);
    }
    HnswIo::new_with_options(Path::new(&dir()), base, o)
}
fn dumped(h: &HB) -> String {
    match h.file_dump(Path::new(&dir()), "b") {
        Ok(s) => s,
        Err(_) => {
            check(false, "a dump fails");
            end()
        }
    }
}
/// D01 .. D05, F01: what tells which
#[no_mangle]
pub extern "C" fn h_bd() {
    let n = param("n", 60) as usize;
    let m = param("m", 6) as usize;
    let kind = pick("lens", param("kmin", 0) as usize, param("kmax", 0) as usize);
    let b = made(n, m, param("efc", 20) as usize, |i| length(kind, i), 0);
    let a = pts(&b.h, words, n);
    let name = dumped(&b.h);
    let q = [MID];
    any(q[0], n, param("s", 1) as usize);
    match param("what", 1) {
        // in memory
        1 => {
            let mut r = reload(&name, None);
            let h2: HB = must(r.load_hnsw());
            same(&a, &pts(&h2, words, n), true);
            same_conf(&b.h, &h2);
            let seen = registry(&h2, n);
            data(&h2, &b.v, &seen);
            let s = b.h.search(&q, 10, 15);
            same_answers(&s, &h2.search(&q, 10, 15));
            let name2 = must(h2.file_dump(Path::new(&dir()), "b"));
            let r3 = reload(&name2, None);
            let h3: HB = must(r3.load_hnsw_with_dist(Line));
            same(&a, &pts(&h3, words, n), true);
            same_answers(&s, &h3.search(&q, 10, 15));
            std::mem::forget((h2, h3));
        }
        // mapped
        2 => {
            let t = [0, 1, n / 2, n - 1, n, n + 5][pick("threshold", 0, 5)];
            let mut r = reload(&name, Some(t));
            let h2: HB = if pick("with", 0, 1) != 0 { must(r.load_hnsw_with_dist(Line)) } else { must(r.load_hnsw()) };
            same(&a, &pts(&h2, words, n), true);
            same_conf(&b.h, &h2);
            same_answers(&b.h.search(&q, 10, 15), &h2.search(&q, 10, 15));
            // the index lives on
            let mut x = vector(n, 1);
            x[0] = 11;
            h2.insert((&x, bid(n)));
            check(h2.get_nb_point() == n + 1, "wrong number of points");
            std::mem::forget(h2);
        }
        // extended after the reload, as the original
        16 => {
            let mut h = b.h;
            // what a reload sets
            h.set_extend_candidates(true);
            let t = [None, Some(0), Some(n / 2)][pick("mmap", 0, 2)];
            let r = Box::leak(Box::new(reload(&name, t)));
            let mut h2: HB = if pick("with", 0, 1) != 0 { must(r.load_hnsw_with_dist(Line)) } else { must(r.load_hnsw()) };
            let keep = pick("keep", 0, 1) != 0;
            h.set_keeping_pruned(keep);
            h2.set_keeping_pruned(keep);
            let more = param("more", 20) as usize;
            let mut v = b.v;
            for x in [&h, &h2] {
                levels(m, param("lv", 1));
                unsafe { LV_NEXT = n }
                v.truncate(n);
                for i in n..n + more {
                    let y = vector(i, 2);
                    x.insert((&y, bid(i)));
                    v.push(y);
                }
            }
            same(&pts(&h, words, n + more), &pts(&h2, words, n + more), true);
            same_conf(&h, &h2);
            let seen = registry(&h2, n + more);
            data(&h2, &v, &seen);
            graph(&h2, &v, m, &seen, false);
            same_answers(&h.search(&q, 10, 15), &h2.search(&q, 10, 15));
            std::mem::forget((h, h2));
            cover("end");
            return;
        }
        // data map
        4 => {
            let mp = must(DataMap::from_hnswdump::<u32>(Path::new(&dir()), &name).map_err(anyhow::Error::msg));
            check(mp.get_nb_data() == n, "the data map has another number of data");
            let mut c = 0;
            let mut seen = vec![false; n + 1];
            for d in mp.get_dataid_iter() {
                let w = bwhich(*d, n);
                check(w < n && !seen[w], "the data map does not list each identifier once");
                seen[w] = true;
                c += 1;
            }
            check(c == n, "the data map does not list each identifier once");
            for i in 0..n {
                let d = mp.get_data::<u32>(&bid(i));
                check(d.is_some(), "the data map has nothing for a dumped identifier");
                if let Some(d) = d {
                    check(d.len() == b.v[i].len(), "the data map gives another length");
                    for k in 0..d.len().min(b.v[i].len()) {
                        let x = unsafe { std::ptr::read_unaligned(d.as_ptr().add(k)) };
                        check(x == b.v[i][k], "the data map gives other data");
                    }
                }
            }
            for i in n..n + 20 {
                check(mp.get_data::<u32>(&bid(i)).is_none(), "the data map has data for an identifier that was not dumped");
            }
        }
        // graph only
        _ => {
            let mut r = reload(&name, [None, Some(0), Some(n / 2)][pick("mmap", 0, 2)]);
            let g: Hnsw<NoData, NoDist> = must(r.load_hnsw());
            same(&a, &pts(&g, |v| vec![0; v.len()], n), false);
            same_conf(&b.h, &g);
            let (f, f0) = (FlatNeighborhood::from(&g), FlatNeighborhood::from(&b.h));
            for x in &a {
                let (u, w) = (f.get_neighbours(x.id), f0.get_neighbours(x.id));
                check(u.is_some() && w.is_some(), "a point is missing");
                let (u, w) = (u.unwrap_or_default(), w.unwrap_or_default());
                let mut all: Vec<Neighbour> = x.nb.iter().flatten().copied().collect();
                check(u.len() == all.len() && w.len() == all.len(), "another number of neighbours");
                all.sort_unstable_by(|x, y| x.distance.total_cmp(&y.distance));
                for i in 0..u.len().min(w.len()).min(all.len()) {
                    check(feq(u[i].distance, all[i].distance), "the neighbours are not sorted");
                    check(feq(w[i].distance, all[i].distance), "the neighbours are not sorted");
                    let c = |v: &[Neighbour], y: &Neighbour| v.iter().filter(|x| x.d_id == y.d_id && x.p_id == y.p_id && x.distance.to_bits() == y.distance.to_bits()).count();
                    check(c(&u, &u[i]) == c(&all, &u[i]), "a neighbour is lost, added or changed");
                    check(c(&w, &w[i]) == c(&all, &w[i]), "a neighbour is lost, added or changed");
                }
            }
            for i in n..n + 20 {
                check(f0.get_neighbours(bid(i)).is_none(), "an unknown identifier has neighbours");
            }
            std::mem::forget(g);
        }
    }
    cover("end");
    std::mem::forget(b);
}
/// some offsets below size: the ends, around the multiples of the size of a buffer, and some between
fn offsets(size: usize, step: usize) -> Vec<usize> {
    let mut v = vec![0, 1, size - 1, size - 2, size - 5, size - 12];
    let mut k = 8192;
    while k < size + 8192 {
        for o in [k - 9, k - 1, k, k + 1, k + 8] {
            if o < size {
                v.push(o);
            }
        }
        k += 8192;
    }
    let mut k = 100;
    while k < size {
        v.push(k);
        k += step;
    }
    v
}
/// D06: the files cut
#[no_mangle]
pub extern "C" fn h_b06() {
    let n = param("n", 60) as usize;
    let b = made(n, 6, 20, |_| 40, 0);
    let name = dumped(&b.h);
    let f = file(&name, [G, D][pick("file", 0, 1)]);
    let size = fsize(&f) as usize;
    check(size > 9000, "a dump is smaller than its data");
    let v = offsets(size, 997);
    ftruncate(&f, v[pick("cut", 0, v.len() - 1)] as u64);
    let how = pick("how", 0, 3);
    let mut r = reload(&name, [None, Some(0), Some(n / 2), None][how]);
    let ok = if how < 3 {
        let x = r.load_hnsw::<u32, Line>();
        let ok = x.is_ok();
        std::mem::forget(x);
        ok
    } else {
        let x = r.load_hnsw_with_dist::<u32, Line>(Line);
        let ok = x.is_ok();
        std::mem::forget(x);
        ok
    };
    check(!ok, "a truncated dump is reloaded");
    cover("end");
    std::mem::forget(b);
}
/// D11: the device fills up
#[no_mangle]
pub extern "C" fn h_b11() {
    let n = param("n", 60) as usize;
    // a long vector is not buffered
    let long = param("long", 0) as usize;
    let b = made(n, 6, 20, |i| if i + 1 == n && long > 0 { long } else { 40 }, 0);
    let name = dumped(&b.h);
    let (lg, ld) = (fsize(&file(&name, G)) as usize, fsize(&file(&name, D)) as usize);
    let total = (fsize(&file(&name, G)) + fsize(&file(&name, D))) as usize;
    fremove(&file(&name, G));
    fremove(&file(&name, D));
    let kind = pick("kind", 1, 5);
    let size = match kind {
        2 => ld,
        3 => lg,
        _ => total,
    };
    let v = offsets(size, param("step", 1501) as usize);
    let k = pick("budget", 0, v.len());
    wbudget(kind as u32, if k < v.len() { v[k] } else { size } as u64);
    let x = b.h.file_dump(Path::new(&dir()), "b");
    wbudget(0, 0);
    match x {
        Ok(name) => {
            let mut r = reload(&name, None);
            let h2: HB = must(r.load_hnsw());
            same(&pts(&b.h, words, n), &pts(&h2, words, n), true);
            std::mem::forget(h2);
            cover("success");
        }
        Err(_) => cover("error"),
    }
    std::mem::forget(b);
}
fn join_mode(j: u32) {
    unsafe { JOIN = j }
}
/// C04: many requests
#[no_mangle]
pub extern "C" fn h_b04() {
    let n = param("n", 20) as usize;
    let b = made(n, param("m", 6) as usize, 12, |_| 1, 0);
    let r = [param("r", 300) as usize, 1, 2, 3, 5, 7, 64, 65, 129][pick("r", 0, param("rs", 9) as usize - 1)];
    let mut q: Vec<Vec<u32>> = (0..r).map(|i| vec![(i as u32 * 7919) % 65536]).collect();
    q[r / 2][0] = MID;
    any(MID, n, param("s", 1) as usize);
    let k = param("k", 4) as usize;
    let ef = [6, 40, 2][pick("ef", 0, param("es", 1) as usize - 1)];
    join_mode(pick("join", 0, 1) as u32);
    let a = b.h.parallel_search(&q, k, ef);
    join_mode(0);
    check(a.len() == r, "the number of answers is not the number of requests");
    for i in 0..r.min(a.len()) {
        let e = b.h.search(&q[i], k, ef);
        check(a[i].len() == e.len(), "an answer has another length than the single search");
        for j in 0..e.len().min(a[i].len()) {
            check(a[i][j].d_id == e[j].d_id, "an answer differs from the single search");
            check(a[i][j].p_id == e[j].p_id, "an answer differs from the single search");
            check(feq(a[i][j].distance, e[j].distance), "an answer differs from the single search");
        }
    }
    cover("end");
    std::mem::forget(b);
}
/// C05: large batches
#[no_mangle]
pub extern "C" fn h_b05() {
    let pre = [5, 0][pick("pre", 0, 1)];
    let r = [param("r", 130) as usize, 1, 2, 3, 5, 64, 65][pick("r", 0, param("rs", 7) as usize - 1)];
    let m = 3;
    let mut b = made(pre, m, 12, |_| 1, 0);
    for i in pre..pre + r {
        b.v.push(vector(i, 2));
    }
    b.v[pre + r / 2][0] = MID;
    any(MID, pre + r / 2, param("s", 1) as usize);
    let v = &b.v;
    join_mode(pick("join", 0, 1) as u32);
    if pick("slices", 0, 1) != 0 {
        let d: Vec<(&[u32], usize)> = (pre..pre + r).map(|i| (v[i].as_slice(), bid(i))).collect();
        b.h.parallel_insert_slice(&d);
    } else {
        let d: Vec<(&Vec<u32>, usize)> = (pre..pre + r).map(|i| (&v[i], bid(i))).collect();
        b.h.parallel_insert(&d);
    }
    join_mode(0);
    let seen = registry(&b.h, pre + r);
    data(&b.h, &b.v, &seen);
    graph(&b.h, &b.v, m, &seen, true);
    cover("end");
    std::mem::forget(b);
}
/// M01
#[no_mangle]
pub extern "C" fn h_bm() {
    let go = |n: usize, dump: bool, mmap: bool| {
        let b = made(n, 3, 12, |i| 1 + i % 3, 0);
        let _ = b.h.search(&[5], 3, 8);
        if dump {
            let name = must(b.h.file_dump(Path::new(&dir()), "m"));
            let mut r = reload(&name, if mmap { Some(n / 2) } else { None });
            {
                let h: HB = must(r.load_hnsw());
                h.insert((&[77], bid(n)));
                let _ = h.search(&[5], 3, 8);
            }
            drop(r);
            fremove(&file(&name, G));
            fremove(&file(&name, D));
        }
    };
    let dump = pick("dump", 0, 2);
    go(2, dump > 0, dump > 1);
    let (a, fds, maps) = (heap_live(), open_fds(), open_maps());
    go(param("n", 60) as usize, dump > 0, dump > 1);
    check(heap_live() == a, "memory is not released when the index is dropped");
    check(open_fds() == fds, "a file stays open when the index is dropped");
    check(open_maps() == maps, "a mapping stays when the index is dropped");
    cover("end");
}

// ---- threads ----------------------------------------------------------------
static mut BP: *const HB<'static> = std::ptr::null();
static mut BN: usize = 0;
/// the thread inserts point BN + a
extern "C" fn bins(a: u64) {
    let i = unsafe { BN } + a as usize;
    point_level(a as usize);
    let v = vector(i, 2);
    unsafe { (*BP).insert((&v, bid(i))) }
}
/// C01, C02: one thread inserts in a larger index, the other inserts, searches or iterates
#[no_mangle]
pub extern "C" fn h_bc() {
    let n = param("n", 16) as usize;
    let m = param("m", 2) as usize;
    let op = pick("op", param("opmin", 0) as usize, param("ops", 0) as usize);
    let mut b: Made<'static> = made(n, m, 6, |_| 2, 0);
    let lv = [pick("lv", 0, 1) as u8 * 2, pick("lv", 0, param("lmax", 1) as usize) as u8];
    set_levels(m, &lv);
    by_point(true);
    unsafe {
        BP = &b.h;
        BN = n;
    }
    let total = if op == 0 { n + 2 } else { n + 1 };
    for i in n..total {
        b.v.push(vector(i, 2));
    }
    sched(param("switches", 1) as i32);
    if param("first", 0) == 0 {
        spawn(bins, 0);
    }
    match op {
        0 => bins(1),
        1 => {
            let r = b.h.search(&[MID], 5, 8);
            answers(&r, &b.v, MID, 5);
            check(!r.is_empty(), "no answer from an index with points");
        }
        2 => {
            let f = |d: &DataId| bwhich(*d, total) % 2 == 0;
            let r = b.h.search_filter(&[MID], 5, 8, Some(&f));
            answers(&r, &b.v, MID, 5);
            for x in &r {
                check(bwhich(x.d_id, total) % 2 == 0, "an answer is rejected by the filter");
            }
        }
        _ => {
            let mut got = vec![0; total + 1];
            for p in b.h.get_point_indexation() {
                let w = bwhich(p.get_origin_id(), total);
                check(w < total, "iteration gives a point which was not inserted");
                got[w] += 1;
                check(got[w] == 1, "iteration gives a point twice");
                let d = p.get_v();
                check(d.len() == b.v[w].len() && d[0] == b.v[w][0], "other data");
            }
            for i in 0..n {
                check(got[i] == 1, "iteration misses a point inserted before");
            }
        }
    }
    join();
    sched(-1);
    let seen = registry(&b.h, total);
    data(&b.h, &b.v, &seen);
    graph(&b.h, &b.v, m, &seen, true);
    for i in n..total {
        check(seen[i].0 == lv[i - n], "a point is on another level than drawn");
    }
    let r = b.h.search(&[MID], 5, 20);
    answers(&r, &b.v, MID, 5);
    check(!r.is_empty(), "no answer from an index with points");
    cover("end");
    std::mem::forget(b);
}
