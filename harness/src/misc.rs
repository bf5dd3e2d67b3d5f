//! O01, I01, F01, M01: orderings, filters, flattening, memory.
use crate::common::*;
use crate::io::{D, G};
use crate::sx::*;
use hnsw_rs::flatten::FlatNeighborhood;
use std::cmp::Ordering;
use std::collections::BinaryHeap;

// ---- O01 ------------------------------------------------------------------
fn any(name: &str) -> f32 {
    f32::from_bits(sym(name, 32) as u32)
}
fn number(name: &str) -> f32 {
    let f = any(name);
    assume(ule((f.to_bits() & 0x7fff_ffff) as u64, 0x7f80_0000));
    f
}
fn nb(i: usize, d: f32) -> Neighbour {
    Neighbour::new(i, d, PointId(0, i as i32))
}
fn agree<T: Ord>(a: &T, b: &T, x: f32, y: f32) {
    let o = a.cmp(b);
    let want = if x < y {
        Ordering::Less
    } else if x > y {
        Ordering::Greater
    } else {
        Ordering::Equal
    };
    check(o == want, "the total comparison is not that of the distances");
    check(b.cmp(a) == want.reverse(), "the total comparison is not antisymmetric");
    check((a == b) == (x == y), "equality is not that of the distances");
    check((a != b) == (x != y), "equality is not that of the distances");
    partial(a, b, x, y);
}
fn partial<T: PartialOrd>(a: &T, b: &T, x: f32, y: f32) {
    let p = a.partial_cmp(b);
    check(p == x.partial_cmp(&y), "the partial comparison is not that of the distances");
    check((a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "an operator is not that of the distances");
}
/// two distances, any but NaN
#[no_mangle]
pub extern "C" fn h_o01() {
    let (x, y) = (number("x"), number("y"));
    match pick("kind", 0, 2) {
        0 => agree(&nb(1, x), &nb(pick("same", 1, 2), y), x, y),
        1 => {
            let (a, b) = (PointIdWithOrder::new(PointId(0, 1), x), PointIdWithOrder::new(PointId(1, 0), y));
            partial(&a, &b, x, y);
            check((a == b) == (x == y), "equality is not that of the distances");
        }
        _ => agree(&verif_point_with_order(x), &verif_point_with_order(y), x, y),
    }
    cover("end");
}
/// a NaN distance: the total comparison has no answer
#[no_mangle]
pub extern "C" fn h_o01n() {
    let (mut x, mut y) = (any("x"), any("y"));
    let nan = f32::from_bits(0x7fc0_0000 | sym("nan", 9) as u32);
    let which = pick("which", 0, 2);
    if which != 1 {
        x = nan;
    }
    if which != 0 {
        y = nan;
    }
    let kind = pick("kind", 0, 2);
    if kind == 1 {
        let (a, b) = (PointIdWithOrder::new(PointId(0, 1), x), PointIdWithOrder::new(PointId(1, 0), y));
        check(a.partial_cmp(&b).is_none(), "a NaN is ordered");
        check(a != b, "a NaN is equal to a distance");
        cover("pair");
    } else {
        cover("cmp");
        allow(1);
        let _o = if kind == 0 { nb(1, x).cmp(&nb(2, y)) } else { verif_point_with_order(x).cmp(&verif_point_with_order(y)) };
        check(false, "a NaN is silently ordered by the total comparison");
    }
}
/// sorting and heaps
#[no_mangle]
pub extern "C" fn h_o01s() {
    let n = param("n", 3) as usize;
    let mut d = [0f32; 8];
    let mut v = vec![];
    for i in 0..n {
        d[i] = number("d");
        v.push(nb(i, d[i]));
    }
    let kind = pick("kind", 0, 2);
    let r: Vec<Neighbour> = match kind {
        0 => {
            v.sort_unstable();
            v
        }
        1 => {
            v.sort();
            v
        }
        _ => BinaryHeap::from(v).into_sorted_vec(),
    };
    check(r.len() == n, "sorting changes the number of answers");
    let mut seen = [false; 8];
    for i in 0..n {
        let w = r[i].d_id;
        check(w < n && !seen[w % 8], "sorting does not keep every answer once");
        seen[w % 8] = true;
        check(feq(r[i].distance, d[w % 8]), "sorting changes a distance");
        check(i == 0 || r[i - 1].distance <= r[i].distance, "sorted answers do not follow the distances");
        if kind == 1 && i > 0 && r[i - 1].distance == r[i].distance {
            check(r[i - 1].d_id < w, "a stable sort exchanges equal answers");
        }
    }
    cover("end");
}
/// the answers of a search where a distance is NaN
#[no_mangle]
pub extern "C" fn h_o01q() {
    let n = param("n", 3) as usize;
    fill_part(pick("shape", 0, SHAPES - 1), n, n + 1);
    set_levels(2, &[0; 16]);
    let h: H = Hnsw::new(2, 8, 16, 8, Tab);
    insert(&h, 0, n);
    let bad = pick("bad", 0, n - 1);
    unsafe {
        TAB[n][bad] = f32::NAN;
        TAB[bad][n] = f32::NAN;
    }
    cover("end");
    allow(1);
    let r = h.search(&[n as u8], pick("k", 2, n), n);
    if r.len() > 1 {
        for x in &r {
            check(!x.distance.is_nan(), "a NaN is silently ordered among the answers");
        }
    }
}

// ---- I01 ------------------------------------------------------------------
#[no_mangle]
pub extern "C" fn h_i01() {
    let n = pick("n", 0, param("n", 4) as usize);
    let mut v: Vec<usize> = vec![];
    for i in 0..n {
        let x = sym("id", 64) as usize;
        if i > 0 {
            assume(ule(v[i - 1] as u64, x as u64));
        }
        v.push(x);
    }
    let x = sym("x", 64) as usize;
    let mut want: B = false.into();
    for i in 0..n {
        want = want.or(eq(v[i] as u64, x as u64));
    }
    let f: &dyn FilterT = &v;
    let got = f.hnsw_filter(&x);
    check(eq(got as u64, want.num()), "a list accepts another identifier, or rejects one it contains");
    cover(if got { "accepted" } else { "rejected" });
}
#[no_mangle]
pub extern "C" fn h_i01c() {
    let (lo, hi) = (sym("lo", 64) as usize, sym("hi", 64) as usize);
    let x = sym("x", 64) as usize;
    let c = move |d: &DataId| *d >= lo && *d < hi;
    let f: &dyn FilterT = &c;
    let got = f.hnsw_filter(&x);
    check(got == (x >= lo && x < hi), "a closure filter does not answer as the closure");
    cover(if got { "accepted" } else { "rejected" });
}

// ---- F01 ------------------------------------------------------------------
#[no_mangle]
pub extern "C" fn h_f01() {
    let n = pick("n", param("nmin", 0) as usize, param("n", 3) as usize);
    let m = param("m", 2) as usize;
    if param("full", 1) != 0 {
        fill_tab(n);
    } else {
        fill_part(pick("shape", 0, SHAPES - 1), n.saturating_sub(param("sy", 1) as usize), n);
    }
    pick_levels(n, param("lmax", 1) as usize, m);
    let mut h: H = Hnsw::new(m, 8, 16, 4, Tab);
    h.set_extend_candidates(false);
    insert(&h, 0, n);
    let f = if n > 0 && param("reload", 0) != 0 {
        let d = dir();
        let name = h.file_dump(Path::new(&d), "f").unwrap();
        let mut io = HnswIo::new(Path::new(&d), &name);
        let g = io.load_hnsw::<NoData, hnsw_rs::anndists::dist::distances::NoDist>().unwrap();
        let f = FlatNeighborhood::from(&g);
        std::mem::forget(g);
        f
    } else {
        FlatNeighborhood::from(&h)
    };
    let mut lists = 0;
    for p in h.get_point_indexation() {
        let nb = p.get_neighborhood_id();
        let all: Vec<Neighbour> = nb.iter().flatten().copied().collect();
        let r = f.get_neighbours(p.get_origin_id());
        check(r.is_some(), "a point is missing");
        let r = r.unwrap_or_default();
        check(r.len() == all.len(), "another number of neighbours");
        for i in 0..r.len() {
            check(i == 0 || r[i - 1].distance <= r[i].distance, "the neighbours are not sorted");
            // as often as in the layers
            let same = |x: &&Neighbour| x.d_id == r[i].d_id && x.p_id == r[i].p_id && x.distance.to_bits() == r[i].distance.to_bits();
            check(all.iter().filter(same).count() == r.iter().filter(same).count(), "a neighbour is lost, added or changed");
            observe(which(r[i].d_id, n) as u64);
        }
        lists += 1;
    }
    check(lists == n, "iteration does not give every point once");
    for x in [1usize, 8, 1 << 62, id(n)] {
        check(f.get_neighbours(x).is_none(), "an unknown identifier has neighbours");
    }
    cover("end");
    std::mem::forget(h);
}

// ---- M01 ------------------------------------------------------------------
fn life(n: usize, m: usize, lv: &[u8], ops: usize) {
    set_levels(m, lv);
    let dim = 3;
    let mut h: H = Hnsw::new(m, 8, 16, 4, Tab);
    h.set_extend_candidates(param("ext", 0) != 0);
    let par = param("par", 0) != 0;
    let v: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8; dim]).collect();
    if par {
        let d: Vec<(&Vec<u8>, usize)> = (0..n).map(|i| (&v[i], id(i))).collect();
        h.parallel_insert(&d);
    } else {
        for i in 0..n {
            h.insert((&v[i], id(i)));
        }
    }
    drop(v);
    if ops & 1 != 0 {
        let r = h.search(&[n as u8], 2, 2);
        check_answer(&r, n, n, 2);
        let q = vec![vec![n as u8]];
        let _ = h.parallel_search(&q, 2, 2);
    }
    if ops & 2 != 0 {
        let f = FlatNeighborhood::from(&h);
        let _ = f.get_neighbours(id(0));
        let _ = h.get_point_indexation().into_iter().map(|p| p.get_neighborhood_id().len()).sum::<usize>();
    }
    if ops & 4 != 0 && n > 0 {
        let d = dir();
        let name = h.file_dump(Path::new(&d), "m").unwrap();
        drop(h);
        let mut o = ReloadOptions::default();
        if ops & 8 != 0 {
            o = o.set_mmap(true);
        }
        let mut io = HnswIo::new_with_options(Path::new(&d), &name, o);
        let mut g = io.load_hnsw_with_dist::<u8, Tab>(Tab).unwrap();
        g.set_searching_mode(true);
        let r = g.search(&[n as u8], 2, 2);
        check_answer(&r, n, n, 2);
        g.insert((&[n as u8, 1, 1], id(n)));
        drop(g);
        drop(io);
        fremove(&file(&name, G));
        fremove(&file(&name, D));
    }
}
/// everything allocated between two points of time has been released
#[no_mangle]
pub extern "C" fn h_m01() {
    let n = pick("n", 0, param("n", 3) as usize);
    let m = param("m", 2) as usize;
    fill_part(pick("shape", 0, param("smax", 1) as usize), if param("sym", 0) != 0 { n } else { n + 1 }, n + 1);
    let mut lv = [0u8; 16];
    for i in 0..n {
        lv[i] = [0, 1, 15][pick("lv", 0, param("lmax", 2) as usize)];
    }
    let ops = pick("ops", param("omin", 0) as usize, param("omax", 3) as usize);
    // first use of thread locals and tables
    if param("warm", 1) != 0 {
        life(1, m, &[0; 16], ops);
    }
    let (a, fds, maps) = (heap_live(), open_fds(), open_maps());
    life(n, m, &lv, ops);
    check(heap_live() == a, "memory is not released when the index is dropped");
    check(open_fds() == fds, "a file stays open when the index is dropped");
    check(open_maps() == maps, "a mapping stays when the index is dropped");
    cover("end");
}
