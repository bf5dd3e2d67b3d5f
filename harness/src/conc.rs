//! C01, C02, C04, C05: several threads.
use crate::common::*;
use crate::sx::*;
use hnsw_rs::datamap::DataMap;
use hnsw_rs::flatten::FlatNeighborhood;
use hnsw_rs::hnsw::Neighbour;
use hnsw_rs::hnswio::HnswIo;

pub type HS = H<'static>;
pub static mut HP: *const HS = std::ptr::null();
fn hp() -> &'static HS {
    unsafe { &*HP }
}
/// the thread inserts the points whose bits are set, in order
extern "C" fn ins(a: u64) {
    for i in 0..NT {
        if a >> i & 1 != 0 {
            point_level(i);
            hp().insert((&[i as u8], id(i)));
        }
    }
}
/// every point has a neighbour
fn linked(h: &HS, n: usize) {
    for p in h.get_point_indexation() {
        let d: usize = p.get_neighborhood_id().iter().map(|v| v.len()).sum();
        check(n < 2 || d > 0, "a point has no neighbour");
        check(p.get_neighborhood_id().len() == 16, "a point has another number of lists");
    }
}
/// all points are on the base layer and fit in one neighbourhood: the answer to a wide search has all of them
fn found(r: &[Neighbour], n: usize, lv: &[u8; 16], m: usize) {
    if n <= 2 * m + 1 && lv[..n].iter().all(|l| *l == 0) {
        check(r.len() == n, "a wide search does not find every point");
    }
}
/// `pre` points, then two threads (or three) insert the others
#[no_mangle]
pub extern "C" fn h_c01() {
    let pre = pick("pre", param("pmin", 0) as usize, param("pre", 1) as usize);
    // points of each thread
    let a = param("a", 1) as usize;
    let b = param("b", 1) as usize;
    let c = param("c", 0) as usize;
    let n = pre + a + b + c;
    let m = param("m", 2) as usize;
    if param("full", 0) != 0 {
        fill_tab(n + 1);
    } else {
        fill_part(pick("shape", param("smin", 0) as usize, param("smax", 4) as usize), if param("sym", 1) != 0 { n } else { n + 1 }, n + 1);
    }
    let lmax = param("lmax", 1) as usize;
    // fixed levels, as decimal digits, or any
    let fix = param("lv", 0) as usize;
    let mut lv = [0u8; 16];
    for i in 0..n {
        lv[i] = if fix != 0 { (fix / 10usize.pow(i as u32) % 10) as u8 } else { pick("lv", 0, lmax) as u8 };
    }
    set_levels(m, &lv);
    by_point(true);
    let mut h: HS = Hnsw::new(m, 8, 16, param("efc", 4) as usize, Tab);
    h.set_extend_candidates(param("ext", 0) != 0);
    h.set_keeping_pruned(param("keep", 0) != 0);
    unsafe {
        HP = &h;
    }
    ins((1 << pre) - 1);
    sched(param("switches", 2) as i32);
    spawn(ins, ((1 << a) - 1) << pre);
    if c > 0 {
        spawn(ins, ((1 << c) - 1) << (pre + a + b));
    }
    ins(((1 << b) - 1) << (pre + a));
    join();
    sched(-1);
    let seen = check_registry(&h, n, 16);
    check_graph(&h, n, m, &seen);
    linked(&h, n);
    for i in 0..n {
        check(seen[i].0 == lv[i], "a point is on another level than drawn");
    }
    let r = h.search(&[n as u8], n, n.max(4));
    check_answer(&r, n, n, n);
    check(!r.is_empty(), "no answer from an index with points");
    found(&r, n, &lv, m);
    cover("end");
    std::mem::forget(h);
}

// ---- C02 ------------------------------------------------------------------
/// points that may be seen, and those that must be
struct Seen {
    all: usize,
    pre: usize,
    /// those before are on the base layer
    flat: bool,
}
/// the points inserted before, of those in `acc`, are all in the answer
fn has_pre(r: &[Neighbour], s: &Seen, acc: usize) {
    if s.flat {
        for i in 0..s.pre {
            check(acc >> i & 1 == 0 || r.iter().any(|x| x.d_id == id(i)), "a wide search misses a point inserted before");
        }
    }
}
fn during(h: &HS, op: usize, s: &Seen) {
    let (all, pre) = (s.all, s.pre);
    let mut k = param("k", 2) as usize;
    let wide = op < 2 && all >= k && pick("wide", 0, 1) != 0;
    if wide {
        k = all + 1;
    }
    match op {
        0 => {
            let r = h.search(&[all as u8], k, k);
            check_answer(&r, all, all, k);
            check(pre == 0 || !r.is_empty(), "no answer from an index with points");
            if wide {
                has_pre(&r, s, !0);
            }
        }
        1 => {
            let acc = param("acc", 5) as usize;
            let f = |d: &DataId| acc >> which(*d, all) & 1 != 0;
            let r = h.search_filter(&[all as u8], k, k, Some(&f));
            check_answer(&r, all, all, k);
            for x in &r {
                check(acc >> which(x.d_id, all) & 1 != 0, "an answer is rejected by the filter");
            }
            if wide {
                has_pre(&r, s, acc);
            }
        }
        2 => {
            let mut got = [0u8; NT];
            let mut count = 0;
            for p in h.get_point_indexation() {
                let w = which(p.get_origin_id(), all);
                check(w < all, "iteration gives a point which was not inserted");
                if w < all {
                    check(p.get_v().len() == 1 && p.get_v()[0] as usize == w, "iteration gives other data");
                    got[w] += 1;
                    check(got[w] == 1, "iteration gives a point twice");
                }
                count += 1;
                if count > all {
                    break;
                }
            }
            for i in 0..pre {
                check(got[i] == 1, "iteration misses a point inserted before");
            }
        }
        3 => {
            let pi = h.get_point_indexation();
            let n0 = h.get_nb_point();
            check(n0 >= pre && n0 <= all, "wrong number of points");
            let lm = h.get_max_level_observed() as usize;
            let mut got = [0u8; NT];
            for l in 0..16 {
                for p in pi.get_layer_iterator(l) {
                    let w = which(p.get_origin_id(), all);
                    check(w < all, "iteration gives a point which was not inserted");
                    got[w % NT] += 1;
                    check(got[w % NT] == 1, "iteration gives a point twice");
                    check(p.get_point_id().0 as usize == l, "layer iteration gives a wrong internal id");
                }
            }
            for i in 0..pre {
                check(got[i] == 1, "iteration misses a point inserted before");
            }
            check(h.get_max_level_observed() as usize >= lm, "the maximum level goes down");
            check(h.get_nb_point() >= n0, "the number of points goes down");
        }
        _ => {
            let f = FlatNeighborhood::from(h);
            for i in 0..pre {
                check(f.get_neighbours(id(i)).is_some(), "flattening misses a point inserted before");
            }
            for i in 0..all {
                if let Some(v) = f.get_neighbours(id(i)) {
                    for (j, x) in v.iter().enumerate() {
                        let w = which(x.d_id, all);
                        check(w < all && w != i, "a neighbour is no point of the index");
                        check(w >= all || feq(x.distance, tab(i, w)).0 != 0, "a neighbour has a wrong distance");
                        check(j == 0 || v[j - 1].distance <= x.distance, "neighbours are not sorted");
                    }
                }
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c02() {
    let pre = pick("pre", param("pmin", 0) as usize, param("pre", 2) as usize);
    let b = param("b", 1) as usize;
    let all = pre + b;
    let m = 2;
    fill_part(pick("shape", param("smin", 0) as usize, param("smax", 1) as usize), if param("sym", 1) != 0 { all } else { all + 1 }, all + 1);
    let lmax = param("lmax", 1) as usize;
    let mut lv = [0u8; 16];
    for i in 0..all {
        lv[i] = pick("lv", 0, lmax) as u8;
    }
    set_levels(m, &lv);
    by_point(true);
    let mut h: HS = Hnsw::new(m, 8, 16, param("efc", 4) as usize, Tab);
    h.set_extend_candidates(param("ext", 0) != 0);
    unsafe {
        HP = &h;
    }
    let op = pick("op", param("opmin", 0) as usize, param("ops", 4) as usize);
    ins((1 << pre) - 1);
    let flat = lv[..pre].iter().all(|l| *l == 0) && all <= 2 * m;
    sched(param("switches", 2) as i32);
    spawn(ins, ((1 << b) - 1) << pre);
    if param("first", 0) == 0 {
        during(&h, op, &Seen { all, pre, flat });
    }
    join();
    sched(-1);
    let seen = check_registry(&h, all, 16);
    check_graph(&h, all, m, &seen);
    linked(&h, all);
    let r = h.search(&[all as u8], all, all.max(4));
    check_answer(&r, all, all, all);
    check(!r.is_empty(), "no answer from an index with points");
    cover("end");
    std::mem::forget(h);
}

// ---- C04, C05 -------------------------------------------------------------
fn parallel(on: bool) {
    if param("join", 2) == 3 {
        sched(if on { param("switches", 2) as i32 } else { -1 });
    }
    unsafe {
        JOIN = if on { param("join", 2) as u32 } else { 0 };
    }
}
#[no_mangle]
pub extern "C" fn h_c04() {
    let n = pick("n", param("nmin", 0) as usize, param("n", 3) as usize);
    let r = pick("r", param("rmin", 0) as usize, param("r", 3) as usize);
    let m = 2;
    // queries are the rows n, n+1 of the table
    let s = pick("shape", 0, param("smax", 1) as usize);
    fill_part(s, if param("full", 0) != 0 { n } else { n + 2 }, n + 2);
    pick_levels(n, param("lmax", 1) as usize, m);
    let h: HS = Hnsw::new(m, 8, 16, 4, Tab);
    for i in 0..n {
        h.insert((&[i as u8], id(i)));
    }
    let k = param("k", 2) as usize;
    let mut q: Vec<Vec<u8>> = vec![];
    for _ in 0..r {
        q.push(vec![(n + pick("q", 0, 1)) as u8]);
    }
    parallel(true);
    let a = h.parallel_search(&q, k, k);
    parallel(false);
    check(a.len() == r, "the number of answers is not the number of requests");
    if a.len() == r {
        for i in 0..r {
            let e = h.search(&q[i], k, k);
            check(a[i].len() == e.len(), "an answer has another length than the single search");
            if a[i].len() == e.len() {
                for j in 0..e.len() {
                    observe(which(a[i][j].d_id, n) as u64);
                    check(a[i][j].d_id == e[j].d_id, "an answer differs from the single search");
                    check(feq(a[i][j].distance, e[j].distance), "an answer differs from the single search");
                    check(a[i][j].p_id == e[j].p_id, "an answer differs from the single search");
                }
            }
            check_answer(&a[i], n, q[i][0] as usize, k);
        }
    }
    cover("end");
    std::mem::forget(h);
}
#[no_mangle]
pub extern "C" fn h_c05() {
    let pre = pick("pre", param("pmin", 0) as usize, param("pre", 1) as usize);
    let b = pick("b", param("bmin", 0) as usize, param("b", 3) as usize);
    let n = pre + b;
    let m = 2;
    fill_part(pick("shape", 0, param("smax", 1) as usize), if param("sym", 1) != 0 { n } else { n + 1 }, n + 1);
    let lv = pick_levels(n, param("lmax", 1) as usize, m);
    let mut h: HS = Hnsw::new(m, 8, 16, 4, Tab);
    h.set_extend_candidates(param("ext", 0) != 0);
    for i in 0..pre {
        h.insert((&[i as u8], id(i)));
    }
    let v: Vec<Vec<u8>> = (pre..n).map(|i| vec![i as u8]).collect();
    let slices = pick("slices", 0, 1) != 0;
    parallel(true);
    if slices {
        let d: Vec<(&[u8], usize)> = (0..b).map(|i| (v[i].as_slice(), id(pre + i))).collect();
        h.parallel_insert_slice(&d);
    } else {
        let d: Vec<(&Vec<u8>, usize)> = (0..b).map(|i| (&v[i], id(pre + i))).collect();
        h.parallel_insert(&d);
    }
    parallel(false);
    let seen = check_registry(&h, n, 16);
    check_graph(&h, n, m, &seen);
    linked(&h, n);
    let pi = h.get_point_indexation();
    let mut want = [0usize; 16];
    let mut got = [0usize; 16];
    for i in 0..n {
        want[lv[i] as usize] += 1;
        got[seen[i].0 as usize % 16] += 1;
        let d = pi.get_point_data(&seen[i]);
        check(d.is_some_and(|d| d.len() == 1 && d[0] as usize == i), "a point has other data than inserted");
        observe(seen[i].0 as u64 * 16 + seen[i].1 as u64);
    }
    check(want == got, "the layers hold other numbers of points than drawn");
    let r = h.search(&[n as u8], n, n.max(4));
    check_answer(&r, n, n, n);
    check(n == 0 || !r.is_empty(), "no answer from an index with points");
    found(&r, n, &lv, m);
    cover("end");
    std::mem::forget(h);
}

// ---- C03 ------------------------------------------------------------------
/// a dump while another thread inserts
#[no_mangle]
pub extern "C" fn h_c03() {
    // the replay of schedules runs this in a directory of its own
    relative(true);
    let pre = pick("pre", param("pmin", 0) as usize, param("pre", 2) as usize);
    let b = param("b", 1) as usize;
    let all = pre + b;
    let m = 2;
    fill_part(pick("shape", param("smin", 0) as usize, param("smax", 1) as usize), if param("sym", 1) != 0 { all } else { all + 1 }, all + 1);
    let lmax = param("lmax", 1) as usize;
    let mut lv = [0u8; 16];
    for i in 0..all {
        lv[i] = pick("lv", 0, lmax) as u8;
    }
    set_levels(m, &lv);
    by_point(true);
    let h: HS = Hnsw::new(m, 8, 16, param("efc", 4) as usize, Tab);
    unsafe {
        HP = &h;
    }
    ins((1 << pre) - 1);
    sched(param("switches", 2) as i32);
    spawn(ins, ((1 << b) - 1) << pre);
    let d = h.file_dump(Path::new(&dir()), "b");
    join();
    sched(-1);
    let seen = check_registry(&h, all, 16);
    check_graph(&h, all, m, &seen);
    linked(&h, all);
    match d {
        Err(_) => {
            check(pre == 0, "a dump fails");
            cover("error");
        }
        Ok(name) => {
            let mut r = HnswIo::new(Path::new(&dir()), &name);
            let h2: H = crate::io::must(r.load_hnsw::<u8, Tab>());
            let n2 = h2.get_nb_point();
            check(n2 >= pre && n2 <= all, "wrong number of points");
            let mut got = [0u8; NT];
            let mut linked_to = [false; NT];
            let mut top = 0;
            for p in h2.get_point_indexation() {
                let w = which(p.get_origin_id(), all);
                check(w < all, "a reloaded point was not inserted");
                if w < all {
                    got[w] += 1;
                    check(p.get_v().len() == 1 && p.get_v()[0] as usize == w, "a reloaded point has other data");
                    check(p.get_point_id() == seen[w], "a reloaded point has another internal id");
                    top = top.max(seen[w].0);
                    for l in p.get_neighborhood_id() {
                        for (j, x) in l.iter().enumerate() {
                            let v = which(x.d_id, all);
                            check(v < all && v != w, "a neighbour is no point of the index");
                            if v < all {
                                check(feq(x.distance, tab(w, v)), "a neighbour has a wrong distance");
                                linked_to[v] = true;
                            }
                            check(j == 0 || l[j - 1].distance <= x.distance, "neighbours are not sorted");
                        }
                    }
                }
            }
            let mut count = 0;
            for i in 0..all {
                check(got[i] < 2 && (i >= pre || got[i] == 1), "a reload misses a point inserted before the dump");
                check(!linked_to[i] || got[i] == 1, "a neighbour was not dumped");
                count += got[i] as usize;
            }
            check(count == n2, "the number of points is not that of the points");
            check(h2.get_max_level_observed() <= top, "the maximum level is not the level of a point");
            let r = h2.search(&[all as u8], all, all.max(4));
            check_answer(&r, all, all, all);
            check(!r.is_empty(), "no answer from an index with points");
            let mp = DataMap::from_hnswdump::<u8>(Path::new(&dir()), &name);
            check(mp.is_ok(), "a data map of a complete dump fails");
            if let Ok(mp) = mp {
                check(mp.get_nb_data() == n2, "the data map has another number of data");
            }
            cover("success");
            std::mem::forget(h2);
        }
    }
    cover("end");
    std::mem::forget(h);
}
