//! S01, S02, S03: what a search answers.
use crate::common::*;
use crate::sx::*;

/// a width below k counts as k
fn narrow(h: &H, q: usize, k: usize, ef: usize, r: &[Neighbour]) {
    if ef < k {
        let w = h.search(&[q as u8], k, k);
        check(r.len() == w.len() && (0..r.len()).all(|i| r[i].d_id == w[i].d_id), "a search width below the number of answers is not taken as that number");
    }
}
/// all distances symbolic
#[no_mangle]
pub extern "C" fn h_s01() {
    let n = param("n", 3) as usize;
    let m = param("m", 2) as usize;
    fill_tab(n + 1);
    let lv = pick_levels(n, param("lmax", 1) as usize, m);
    let h: H = Hnsw::new(m, 8, 16, param("efc", 8) as usize, Tab);
    insert(&h, 0, n);
    let k = pick("k", 0, n + 1);
    let ef = pick("ef", 0, n + 1);
    let r = h.search(&[n as u8], k, ef);
    check_answer(&r, n, n, k);
    check(k == 0 || n == 0 || !r.is_empty(), "no answer from an index with points");
    narrow(&h, n, k, ef, &r);
    let _ = lv;
    cover("end");
    std::mem::forget(h);
}
/// concrete shapes of the index, symbolic query
#[no_mangle]
pub extern "C" fn h_s01q() {
    let n = param("n", 5) as usize;
    let m = param("m", 2) as usize;
    let s = pick("shape", 0, SHAPES - 1);
    fill_part(s, n, n + 1);
    pick_levels(n, param("lmax", 1) as usize, m);
    let mut h: H = Hnsw::new(m, 8, 16, param("efc", 3) as usize, Tab);
    h.set_extend_candidates(param("ext", 0) != 0);
    h.set_keeping_pruned(param("keep", 0) != 0);
    insert(&h, 0, n);
    let k = pick("k", 1, param("kmax", 3) as usize);
    let ef = pick("ef", 1, param("efmax", 3) as usize);
    let r = h.search(&[n as u8], k, ef);
    check_answer(&r, n, n, k);
    check(!r.is_empty(), "no answer from an index with points");
    narrow(&h, n, k, ef, &r);
    cover("end");
    std::mem::forget(h);
}
/// any set of accepted points
fn accept(n: usize) -> [bool; NT] {
    let mut a = [false; NT];
    for i in 0..n {
        a[i] = pick("acc", 0, 1) != 0;
    }
    a
}
fn filtered(h: &H, q: usize, k: usize, ef: usize, n: usize, acc: &[bool; NT], kind: usize) -> Vec<Neighbour> {
    if kind == 0 {
        let f = |d: &DataId| {
            let w = which(*d, n);
            w < n && acc[w]
        };
        h.search_filter(&[q as u8], k, ef, Some(&f))
    } else {
        let mut v: Vec<usize> = (0..n).filter(|i| acc[*i]).map(id).collect();
        v.sort_unstable();
        if kind == 1 {
            h.search_filter(&[q as u8], k, ef, Some(&v))
        } else {
            h.search_possible_filter(&[q as u8], k, ef, Some(&v))
        }
    }
}
#[no_mangle]
pub extern "C" fn h_s02() {
    let n = param("n", 3) as usize;
    let m = param("m", 2) as usize;
    if param("full", 0) != 0 {
        fill_tab(n + 1);
    } else {
        fill_part(pick("shape", 0, SHAPES - 1), n, n + 1);
    }
    pick_levels(n, param("lmax", 1) as usize, m);
    let h: H = Hnsw::new(m, 8, 16, 8, Tab);
    insert(&h, 0, n);
    let acc = accept(n);
    let k = pick("k", 1, param("kmax", 3) as usize);
    let ef = pick("ef", 1, param("efmax", 3) as usize);
    let kind = pick("kind", 0, param("kinds", 3) as usize - 1);
    let r = filtered(&h, n, k, ef, n, &acc, kind);
    check_answer(&r, n, n, k);
    for x in &r {
        let w = which(x.d_id, n);
        check(w < n && acc[w], "an answer is rejected by the filter");
    }
    if !r.is_empty() {
        cover("answer");
    }
    cover("end");
    std::mem::forget(h);
}
#[no_mangle]
pub extern "C" fn h_s03() {
    let n = param("n", 3) as usize;
    let m = param("m", 2) as usize;
    if param("full", 1) != 0 {
        fill_tab(n + 1);
    } else {
        fill_part(pick("shape", param("smin", 0) as usize, param("smax", SHAPES as u64 - 1) as usize), n, n + 1);
    }
    set_levels(m, &[0; 16]);
    let mut h: H = Hnsw::new(m, 8, param("layers", 16) as usize, n + pick("efc", 0, param("efx", 1) as usize), Tab);
    h.set_extend_candidates(param("ext", 0) != 0);
    h.set_keeping_pruned(param("keep", 0) != 0);
    insert(&h, 0, n);
    let k = pick("k", param("kmin", 1) as usize, n + 1);
    let ef = n + pick("ef", 0, param("efx", 1) as usize);
    let (acc, r);
    if param("filter", 0) == 0 {
        acc = [true; NT];
        r = h.search(&[n as u8], k, ef);
    } else {
        acc = accept(n);
        r = filtered(&h, n, k, ef, n, &acc, pick("kind", 0, 1));
    }
    check_answer(&r, n, n, k);
    check_exact(&r, n, n, k, &acc);
    cover("end");
    std::mem::forget(h);
}
