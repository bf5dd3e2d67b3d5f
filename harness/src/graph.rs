//! G01, G02, R01, L01, P01: what insertion builds.
use crate::common::*;
use crate::sx::*;

#[no_mangle]
pub extern "C" fn h_g01() {
    let n = param("n", 3) as usize;
    let m = param("m", 2) as usize;
    let nl = param("layers", 16) as usize;
    let nc = param("nc", 0) as usize;
    if nc == 0 {
        fill_tab(n);
    } else {
        fill_part(pick("shape", 0, SHAPES - 1), nc, n);
    }
    if nl > 1 {
        pick_levels(n, param("lmax", 2) as usize, m);
    }
    let efc = pick("efc", param("efmin", 1) as usize, param("efmax", 3) as usize);
    let mut h: H = Hnsw::new(m, 8, nl, efc, Tab);
    h.set_extend_candidates(pick("ext", 0, param("ext", 0) as usize) != 0);
    h.set_keeping_pruned(pick("keep", 0, param("keep", 0) as usize) != 0);
    insert(&h, 0, n);
    let seen = check_registry(&h, n, nl);
    let links = check_graph(&h, n, m, &seen);
    observe(links as u64);
    cover("end");
    std::mem::forget(h);
}

/// The last insertion chooses its neighbours among all points: everything fits
/// in the construction width and every point is linked to every other before.
#[no_mangle]
pub extern "C" fn h_g02() {
    let n = param("n", 4) as usize;
    let m = param("m", 1) as usize;
    let cap = 2 * m;
    let nc = param("nc", 0) as usize;
    if nc == 0 {
        fill_tab(n);
    } else {
        fill_part(pick("shape", param("smin", 0) as usize, SHAPES - 1), nc, n);
    }
    let nl = if m == 1 { 1 } else { 16 };
    if m > 1 {
        set_levels(m, &[0; 16]);
    }
    let keep = pick("keep", 0, param("km", 1) as usize) != 0;
    let ext = pick("ext", 0, param("ext", 0) as usize) != 0;
    let mut h: H = Hnsw::new(m, 8, nl, n + 2, Tab);
    h.set_keeping_pruned(keep);
    h.set_extend_candidates(ext);
    insert(&h, 0, n);
    // read back what the last point got
    let mut nb = vec![];
    for p in h.get_point_indexation() {
        if p.get_origin_id() == id(n - 1) {
            nb = p.get_neighborhood_id()[0].clone();
        }
    }
    let got: Vec<usize> = nb.iter().map(|x| which(x.d_id, n)).collect();
    for g in &got {
        observe(*g as u64);
    }
    let q = n - 1;
    check(got.len() <= cap, "more neighbours than allowed");
    if n - 1 > 0 {
        check(!got.is_empty(), "no neighbour");
    }
    for p in 0..n - 1 {
        // the nearest is chosen
        check(fle(tab(q, got[0]), tab(q, p)), "the nearest candidate is not a neighbour");
    }
    let few = n - 1 <= cap && !ext;
    if few {
        for p in 0..n - 1 {
            check(got.iter().any(|g| *g == p), "a candidate is dropped though all fit");
        }
        cover("few");
    } else {
        // with different distances to the new point the rule leaves no choice
        for i in 0..n - 1 {
            for j in 0..i {
                assume(ne(tab(q, i).to_bits() as u64, tab(q, j).to_bits() as u64));
            }
        }
        let mut ord: Vec<usize> = (0..n - 1).collect();
        ord.sort_unstable_by(|a, b| tab(q, *a).partial_cmp(&tab(q, *b)).unwrap());
        let mut kept: Vec<usize> = vec![];
        let mut out: Vec<usize> = vec![];
        for c in ord {
            if kept.len() >= cap {
                break;
            }
            if kept.iter().all(|k| tab(c, *k) > tab(q, c)) {
                kept.push(c);
            } else {
                out.push(c);
            }
        }
        if keep {
            for c in out {
                if kept.len() < cap {
                    kept.push(c);
                }
            }
        }
        check(kept.len() == got.len(), "the diversity rule keeps another number of neighbours");
        for k in &kept {
            check(got.iter().any(|g| g == k), "a neighbour the diversity rule keeps is missing");
        }
        cover("rule");
    }
    cover("end");
    std::mem::forget(h);
}

#[no_mangle]
pub extern "C" fn h_r01() {
    let n = pick("n", 0, param("n", 3) as usize);
    let m = 2;
    let nl = param("layers", 16) as usize;
    fill_part(pick("shape", 0, param("shapes", 2) as usize - 1), n, n);
    let mut lv = [0u8; 16];
    for i in 0..n {
        lv[i] = pick("lv", 0, 3) as u8;
        if lv[i] == 3 {
            lv[i] = nl as u8 - 1;
        }
    }
    set_levels(m, &lv);
    let h: H = Hnsw::new(m, 8, nl, 8, Tab);
    let mut data = [[0u8; 3]; NT];
    for i in 0..n {
        data[i] = [i as u8, sym("b", 8) as u8, sym("b", 8) as u8];
        h.insert((&data[i][..], id(i)));
    }
    let seen = check_registry(&h, n, nl);
    let pi = h.get_point_indexation();
    for i in 0..n {
        check(seen[i].0 == lv[i], "a point is on another level than drawn");
        let d = pi.get_point_data(&seen[i]);
        check(d.is_some(), "no data for an internal id in use");
        if let Some(d) = d {
            check(d.len() == 3, "data of wrong length");
            for b in 0..3 {
                check(eq(d[b] as u64, data[i][b] as u64), "data differ from the data inserted");
            }
        }
    }
    for p in pi {
        let w = which(p.get_origin_id(), n);
        if w < n {
            let v = p.get_v();
            check(v.len() == 3, "data of wrong length");
            for b in 0..v.len().min(3) {
                check(eq(v[b] as u64, data[w][b] as u64), "data differ from the data inserted");
            }
        }
    }
    for l in 0..nl + 2 {
        let c = pi.get_layer_nb_point(l) as i32;
        check(pi.get_point_data(&PointId(l as u8, c)).is_none(), "data for an id that was not issued");
        check(pi.get_point_data(&PointId(l as u8, -1)).is_none(), "data for an id that was not issued");
        check(pi.get_point_data(&PointId(l as u8, i32::MIN)).is_none(), "data for an id that was not issued");
    }
    check(pi.get_point_data(&PointId(255, 0)).is_none(), "data for an id that was not issued");
    check(pi.get_data_dimension() == if n > 0 { 3 } else { 0 }, "wrong data dimension");
    // iterating again, past the end too
    let mut it = pi.into_iter();
    let mut c = 0;
    for _ in 0..n + 20 {
        if it.next().is_some() {
            c += 1;
        }
    }
    check(c == n, "iterating past the end gives points again");
    if n == 0 {
        cover("empty");
    }
    cover("end");
    drop(it);
    std::mem::forget(h);
}

/// any draw, any configuration
#[no_mangle]
pub extern "C" fn h_l01() {
    let m = [2, 16, 255, 3, 100][pick("m", 0, param("ms", 3) as usize - 1)];
    let nl = [1, 16, 3, 17][pick("layers", 0, param("nls", 3) as usize - 1)];
    let mut h: H = Hnsw::new(m, 4, nl, 4, Tab);
    let nl = nl.min(16);
    let s0 = h.get_point_indexation().get_level_scale();
    if param("scale", 0) != 0 {
        let f = [0.2, 1.5, 0.5, 1.0, 0.19, 0.0, -1.0][pick("factor", 0, param("fs", 7) as usize - 1)];
        h.modify_level_scale(f);
        let g = if f < 0.2 { 0.2 } else if f > 1. { 1. } else { f };
        check(eq(h.get_point_indexation().get_level_scale().to_bits(), (s0 * g).to_bits()), "the level scale is not the scale times the clamped factor");
    }
    if param("draw", 1) == 0 {
        cover("end");
        std::mem::forget(h);
        return;
    }
    unsafe {
        RNG_SYM = 2;
        SYMLOG = true;
    }
    h.insert((&[0u8], id(0)));
    // what the law gives
    let want = (-unsafe { LAST_LN } * h.get_point_indexation().get_level_scale()).floor() as usize;
    let mut c = 0;
    for p in h.get_point_indexation() {
        c += 1;
        let l = p.get_point_id().0 as usize;
        check(l < nl, "a level beyond the number of layers");
        check(want == l || want >= nl, "the level is not that of the exponential law");
        observe(l as u64);
    }
    check(c == 1, "the point is not registered");
    cover("end");
    std::mem::forget(h);
}

#[no_mangle]
pub extern "C" fn h_p01() {
    let lo = param("lo", 1) as usize;
    let m = pick("m", lo, param("hi", 40) as usize);
    let nl = [1, 2, 15, 16, 17, 255][pick("layers", 0, 5)];
    let efc = sym("efc", 64) as usize;
    let big = m >= 256;
    if big {
        allow(2);
        cover("refused");
    }
    let h: H = Hnsw::new(m, 4, nl, efc, Tab);
    check(!big, "256 connections or more are accepted");
    check(h.get_max_nb_connection() as usize == m, "the maximum number of connections is not reported as given");
    check(eq(h.get_ef_construction() as u64, efc as u64), "the construction width is not reported as given");
    check(h.get_max_level() == nl.min(16), "the number of layers is not reported as given");
    check(h.get_nb_point() == 0, "a new index has points");
    check(h.get_max_level_observed() == 0, "a new index has a level");
    if !big {
        cover("end");
    }
    std::mem::forget(h);
}
