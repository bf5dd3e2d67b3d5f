//! D01 .. D13: dump and reload.
use crate::common::*;
use crate::sx::*;
use hnsw_rs::datamap::DataMap;
use hnsw_rs::flatten::FlatNeighborhood;
use hnsw_rs::hnswio::*;
use hnsw_rs::libext::load_hnsw_description;

pub const G: &str = ".hnsw.graph";
pub const D: &str = ".hnsw.data";

/// what a point is, as far as the public interface tells
pub struct P {
    pub id: usize,
    pub p: PointId,
    pub v: Vec<u8>,
    pub nb: Vec<Vec<Neighbour>>,
}
pub fn points<T: Clone + Send + Sync, X: Distance<T> + Send + Sync>(h: &Hnsw<T, X>, data: impl Fn(&[T]) -> Vec<u8>) -> Vec<P> {
    let mut r = vec![];
    for p in h.get_point_indexation() {
        r.push(P { id: p.get_origin_id(), p: p.get_point_id(), v: data(p.get_v()), nb: p.get_neighborhood_id() });
        if r.len() > 20 {
            break;
        }
    }
    r
}
pub fn bytes(v: &[u8]) -> Vec<u8> {
    v.to_vec()
}
/// the two lists describe the same points (in the same order of iteration)
pub fn same_points(a: &[P], b: &[P], data: bool) {
    check(a.len() == b.len(), "another number of points");
    for i in 0..a.len().min(b.len()) {
        let (x, y) = (&a[i], &b[i]);
        check(eq(x.id as u64, y.id as u64), "another identifier");
        check(x.p == y.p, "another level or rank");
        if data {
            check(x.v.len() == y.v.len(), "data of another length");
            for k in 0..x.v.len().min(y.v.len()) {
                check(eq(x.v[k] as u64, y.v[k] as u64), "other data");
            }
        }
        for l in 0..16 {
            let e = vec![];
            let (u, w) = (x.nb.get(l).unwrap_or(&e), y.nb.get(l).unwrap_or(&e));
            check(u.len() == w.len(), "another number of neighbours");
            for k in 0..u.len().min(w.len()) {
                check(u[k].d_id == w[k].d_id, "another neighbour");
                check(u[k].p_id == w[k].p_id, "another internal id of a neighbour");
                check(feq(u[k].distance, w[k].distance), "another distance of a neighbour");
            }
        }
    }
}
pub fn same_conf<T: Clone + Send + Sync, X: Distance<T> + Send + Sync, S: Clone + Send + Sync, Y: Distance<S> + Send + Sync>(a: &Hnsw<T, X>, b: &Hnsw<S, Y>) {
    check(a.get_nb_point() == b.get_nb_point(), "another number of points is reported");
    check(a.get_max_nb_connection() == b.get_max_nb_connection(), "another maximum number of connections");
    check(eq(a.get_ef_construction() as u64, b.get_ef_construction() as u64), "another construction width");
    check(a.get_max_level() == b.get_max_level(), "another number of layers");
    check(a.get_max_level_observed() == b.get_max_level_observed(), "another maximum level");
    check(feq64(a.get_point_indexation().get_level_scale(), b.get_point_indexation().get_level_scale()), "another level scale");
}
fn feq64(a: f64, b: f64) -> B {
    eq(a.to_bits(), b.to_bits())
}
pub fn same_answers(a: &[Neighbour], b: &[Neighbour]) {
    check(a.len() == b.len(), "another number of answers");
    for i in 0..a.len().min(b.len()) {
        check(a[i].d_id == b[i].d_id, "another answer");
        check(feq(a[i].distance, b[i].distance), "another distance of an answer");
        check(a[i].p_id == b[i].p_id, "another internal id of an answer");
    }
}
/// an index of n points, with symbolic data after the first byte, and dimension dim
pub fn make<'b>(n: usize, m: usize, efc: usize, dim: usize) -> H<'b> {
    let h: H = Hnsw::new(m, 8, 16, efc, Tab);
    for i in 0..n {
        let mut v = vec![i as u8];
        for _ in 1..dim {
            v.push(sym("b", 8) as u8);
        }
        h.insert((&v, id(i)));
    }
    h
}
/// levels 0, 1, 2 and 15
pub fn some_levels(n: usize, lmax: usize, m: usize) {
    let mut lv = [0u8; 16];
    for i in 0..n {
        lv[i] = [0, 1, 15, 2][pick("lv", 0, lmax)];
    }
    set_levels(m, &lv);
}
pub fn dump(h: &H, base: &str) -> String {
    let r = h.file_dump(Path::new(&dir()), base);
    match r {
        Ok(s) => s,
        Err(_) => {
            check(false, "a dump fails");
            end()
        }
    }
}
pub fn must<T>(r: anyhow::Result<T>) -> T {
    match r {
        Ok(s) => s,
        Err(_) => {
            check(false, "a reload of a complete dump fails");
            end()
        }
    }
}
/// any of the ways to reload; threshold 0: no mmap, 1: everything mapped, t: all but t - 1 mapped
pub fn io(base: &str, mmap: usize) -> HnswIo {
    let mut o = ReloadOptions::default();
    if mmap > 0 {
        o = o.set_mmap(true).set_mmap_threshold(mmap - 1);
    }
    HnswIo::new_with_options(Path::new(&dir()), base, o)
}

#[no_mangle]
pub extern "C" fn h_d01() {
    relative(param("rel", 0) != 0);
    let n = pick("n", param("nmin", 1) as usize, param("n", 3) as usize);
    let m = [2, 255, 16][pick("m", 0, param("ms", 3) as usize - 1)];
    if param("full", 0) != 0 {
        fill_tab(n + 1);
    } else {
        fill_part(pick("shape", 0, param("shapes", 2) as usize - 1), n + 1, n + 1);
    }
    some_levels(n, param("lmax", 2) as usize, m);
    let efc = [3, 1 << 20][pick("efc", 0, param("efcs", 2) as usize - 1)];
    let mut h: H = Hnsw::new(m, 8, 16, efc, Tab);
    let f = pick("factor", 0, param("fs", 2) as usize - 1);
    if f > 0 {
        h.modify_level_scale([1., 0.5, 0.2][f]);
    }
    for i in 0..n {
        h.insert((&[i as u8, sym("b", 8) as u8, sym("b", 8) as u8], id(i)));
    }
    let a = points(&h, bytes);
    let name = dump(&h, "b");
    check(name == "b", "the dump has another name");
    // dumping does not change the index
    same_points(&a, &points(&h, bytes), true);
    let mut r = io("b", 0);
    let h2: H = must(r.load_hnsw::<u8, Tab>());
    same_points(&a, &points(&h2, bytes), true);
    same_conf(&h, &h2);
    check(h2.get_point_indexation().get_data_dimension() == 3, "another dimension");
    let r3 = io("b", 0);
    let h3: H = must(r3.load_hnsw_with_dist(Tab));
    same_points(&a, &points(&h3, bytes), true);
    same_conf(&h, &h3);
    let k = param("k", 2) as usize;
    let s = h.search(&[n as u8], k, 3);
    same_answers(&s, &h2.search(&[n as u8], k, 3));
    same_answers(&s, &h3.search(&[n as u8], k, 3));
    let name2 = dump(&h2, "b");
    let mut r4 = io(&name2, 0);
    let h4: H = must(r4.load_hnsw::<u8, Tab>());
    same_points(&a, &points(&h4, bytes), true);
    same_conf(&h, &h4);
    same_answers(&s, &h4.search(&[n as u8], k, 3));
    cover("end");
    std::mem::forget((h, h2, h3, h4));
    std::mem::forget((r, r3, r4));
}

/// distance on vectors of any length: the first byte, or nothing, tells the row
#[derive(Clone, Copy, Default)]
pub struct TabLen;
fn row(a: &[u8]) -> usize {
    if a.is_empty() {
        9
    } else {
        a[0] as usize
    }
}
impl Distance<u8> for TabLen {
    fn eval(&self, a: &[u8], b: &[u8]) -> f32 {
        tab(row(a), row(b))
    }
}
#[no_mangle]
pub extern "C" fn h_d02() {
    let n = param("n", 3) as usize;
    let m = 2;
    fill_part(0, 10, 10);
    some_levels(n, param("lmax", 1) as usize, m);
    let h: Hnsw<u8, TabLen> = Hnsw::new(m, 8, 16, 8, TabLen);
    let mut empty = false;
    let mut given = vec![];
    for i in 0..n {
        let len = pick("len", 0, param("len", 3) as usize);
        let mut v = vec![];
        for k in 0..len {
            v.push(if k == 0 { i as u8 } else { sym("b", 8) as u8 });
        }
        if len == 0 {
            if empty {
                end();
            }
            empty = true;
        }
        h.insert((&v, id(i)));
        given.push(v);
    }
    let a = points(&h, bytes);
    // as they were inserted
    check(a.len() == n, "wrong number of points");
    for p in &a {
        let w = which(p.id, n);
        check(w < n, "a point that was not inserted");
        let d = h.get_point_indexation().get_point_data(&p.p);
        check(d.is_some(), "no data for an internal id in use");
        if let (Some(d), true) = (d, w < n) {
            check(d.len() == given[w].len() && p.v.len() == given[w].len(), "data of wrong length");
            for k in 0..d.len().min(given[w].len()).min(p.v.len()) {
                check(eq(d[k] as u64, given[w][k] as u64), "data differ from the data inserted");
                check(eq(p.v[k] as u64, given[w][k] as u64), "data differ from the data inserted");
            }
        }
    }
    if param("map", 0) == 2 {
        cover("end");
        std::mem::forget(h);
        return;
    }
    let name = must(h.file_dump(Path::new(&dir()), "b"));
    if param("map", 0) != 0 {
        let m = must(DataMap::from_hnswdump::<u8>(Path::new(&dir()), &name).map_err(|e| anyhow::anyhow!(e)));
        check(m.get_nb_data() == n && m.get_dataid_iter().len() == n, "the data map has another number of data");
        for p in &a {
            match m.get_data::<u8>(&p.id) {
                None => check(false, "the data map has nothing for a dumped identifier"),
                Some(v) => {
                    check(v.len() == p.v.len(), "the data map gives another length");
                    for k in 0..v.len().min(p.v.len()) {
                        check(eq(v[k] as u64, p.v[k] as u64), "the data map gives other data");
                    }
                }
            }
        }
        check(m.get_data::<u8>(&id(n)).is_none(), "the data map has data for an identifier that was not dumped");
        cover("end");
        std::mem::forget((h, m));
        return;
    }
    let mmap = pick("mmap", 0, param("mmap", 2) as usize);
    let mut r = io(&name, mmap);
    let h2: Hnsw<u8, TabLen> = must(r.load_hnsw::<u8, TabLen>());
    same_points(&a, &points(&h2, bytes), true);
    cover("end");
    std::mem::forget((h, h2));
    std::mem::forget(r);
}

#[no_mangle]
pub extern "C" fn h_d03() {
    relative(param("rel", 0) != 0);
    let n = pick("n", 1, param("n", 3) as usize);
    let m = 2;
    fill_part(pick("shape", 0, param("shapes", 2) as usize - 1), n + 1, n + 1);
    some_levels(n, param("lmax", 2) as usize, m);
    let h = make(n, m, 3, 3);
    let a = points(&h, bytes);
    let name = dump(&h, "b");
    let mut r = io(&name, 0);
    let h2: H = must(r.load_hnsw::<u8, Tab>());
    let mmap = pick("mmap", 1, n + 2);
    let mut r3 = io(&name, mmap);
    let with = pick("with", 0, 1) != 0;
    let h3: H = if with { must(r3.load_hnsw_with_dist::<u8, Tab>(Tab)) } else { must(r3.load_hnsw::<u8, Tab>()) };
    same_points(&points(&h2, bytes), &points(&h3, bytes), true);
    same_points(&a, &points(&h3, bytes), true);
    same_conf(&h2, &h3);
    same_answers(&h2.search(&[n as u8], 2, 3), &h3.search(&[n as u8], 2, 3));
    if with {
        cover("with_dist");
    } else {
        cover("end");
    }
    std::mem::forget((h, h2, h3));
    std::mem::forget(r);
}

/// element types of other sizes: the mapped vectors must be aligned
macro_rules! wide {
    ($name:ident, $tab:ident, $t:ty, $w:expr) => {
        #[derive(Clone, Copy, Default)]
        pub struct $tab;
        impl Distance<$t> for $tab {
            fn eval(&self, a: &[$t], b: &[$t]) -> f32 {
                tab(a[0] as usize, b[0] as usize)
            }
        }
        fn $name() {
            let n = param("n", 3) as usize;
            let dim = pick("dim", 1, 2);
            fill_part(0, n + 1, n + 1);
            set_levels(2, &[0; 16]);
            let h: Hnsw<$t, $tab> = Hnsw::new(2, 8, 16, 8, $tab);
            let mut all = vec![];
            for i in 0..n {
                let mut v = vec![i as $t];
                for _ in 1..dim {
                    v.push(sym("b", $w) as $t);
                }
                h.insert((&v, id(i)));
                all.push(v);
            }
            let name = must(h.file_dump(Path::new(&dir()), "b"));
            let mut r = io(&name, pick("mmap", 0, 2));
            let h2: Hnsw<$t, $tab> = must(r.load_hnsw());
            let mut c = 0;
            for p in h2.get_point_indexation() {
                let w = which(p.get_origin_id(), n);
                check(w < n, "another identifier");
                let v = p.get_v();
                check(v.as_ptr() as usize % std::mem::align_of::<$t>() == 0, "misaligned data in the reloaded index");
                check(v.len() == dim, "data of another length");
                if w < n {
                    for k in 0..v.len().min(dim) {
                        check(eq(v[k] as u64, all[w][k] as u64), "other data");
                    }
                }
                c += 1;
            }
            check(c == n, "another number of points");
            if param("map", 1) != 0 {
                let m = match DataMap::from_hnswdump::<$t>(Path::new(&dir()), &name) {
                    Ok(m) => m,
                    Err(_) => {
                        check(false, "a data map of a complete dump fails");
                        end()
                    }
                };
                for i in 0..n {
                    let v = m.get_data::<$t>(&id(i)).unwrap();
                    check(v.len() == dim, "the data map gives another length");
                    for k in 0..v.len().min(dim) {
                        check(eq(v[k] as u64, all[i][k] as u64), "the data map gives other data");
                    }
                }
                cover("map");
                for i in 0..n {
                    let v = m.get_data::<$t>(&id(i)).unwrap();
                    check(v.as_ptr() as usize % std::mem::align_of::<$t>() == 0, "misaligned data from the data map");
                }
            }
            cover("end");
            std::mem::forget((h, h2));
            std::mem::forget(r);
        }
    };
}
wide!(wide_h, TabH, u16, 16);
wide!(wide_w, TabW, u32, 32);
wide!(wide_d, TabD, u64, 64);
#[no_mangle]
pub extern "C" fn h_d03h() {
    wide_h()
}
#[no_mangle]
pub extern "C" fn h_d03w() {
    wide_w()
}
#[no_mangle]
pub extern "C" fn h_d03d() {
    wide_d()
}

#[no_mangle]
pub extern "C" fn h_d04() {
    relative(pick("rel", 0, 1) != 0);
    let n = pick("n", 1, param("n", 3) as usize);
    let dim = param("dim", 3) as usize;
    fill_part(0, n, n);
    some_levels(n, param("lmax", 2) as usize, 2);
    let h = make(n, 2, 8, dim);
    let a = points(&h, bytes);
    let name = dump(&h, "b");
    let m = match DataMap::from_hnswdump::<u8>(Path::new(&dir()), &name) {
        Ok(m) => m,
        Err(_) => {
            check(false, "a data map of a complete dump fails");
            end()
        }
    };
    check(m.get_nb_data() == n, "the data map has another number of data");
    let mut seen = [0; NT];
    for d in m.get_dataid_iter() {
        let w = which(*d, n);
        check(w < n, "the data map lists an identifier that was not dumped");
        seen[w] += 1;
    }
    for i in 0..n {
        check(seen[i] == 1, "the data map does not list each identifier once");
    }
    for p in &a {
        let v = m.get_data::<u8>(&p.id);
        check(v.is_some(), "the data map has nothing for a dumped identifier");
        if let Some(v) = v {
            check(v.len() == p.v.len(), "the data map gives another length");
            for k in 0..v.len().min(p.v.len()) {
                check(eq(v[k] as u64, p.v[k] as u64), "the data map gives other data");
            }
        }
    }
    // any other identifier
    for o in [1usize, 8, 1 << 33 | 1, 1 << 32, usize::MAX - 1, 1 << 62] {
        check(m.get_data::<u8>(&o).is_none(), "the data map has data for an identifier that was not dumped");
    }
    for i in n..NT {
        check(m.get_data::<u8>(&id(i)).is_none(), "the data map has data for an identifier that was not dumped");
    }
    check(m.check_data_type::<u8>(), "the data map denies its own type");
    check(!m.check_data_type::<i8>() && !m.check_data_type::<f32>(), "the data map accepts another type");
    check(m.get_data_typename() == "u8", "the data map names another type");
    check(m.get_distname() == std::any::type_name::<Tab>(), "the data map names another distance");
    check(DataMap::from_hnswdump::<i8>(Path::new(&dir()), &name).is_err(), "a data map opens with another type");
    check(DataMap::from_hnswdump::<f32>(Path::new(&dir()), &name).is_err(), "a data map opens with another type");
    check(DataMap::from_hnswdump::<u8>(Path::new(&dir()), "none").is_err(), "a data map opens without a dump");
    cover("end");
    std::mem::forget(h);
}

pub mod t1 {
    #[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize)]
    pub struct A(pub u8);
    #[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize)]
    pub struct B(pub u8);
}
pub mod t2 {
    #[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize)]
    pub struct A(pub u8);
}
#[derive(Clone, Copy, Default)]
pub struct TabT;
macro_rules! tab_t {
    ($($t:ty),*) => {
        $(impl Distance<$t> for TabT {
            fn eval(&self, a: &[$t], b: &[$t]) -> f32 {
                tab(a[0].0 as usize, b[0].0 as usize)
            }
        })*
    };
}
tab_t!(t1::A, t1::B, t2::A);
/// types of a user: same crate, same module or same last name
#[no_mangle]
pub extern "C" fn h_d04t() {
    fill_part(0, 1, 1);
    set_levels(2, &[0; 16]);
    let h: Hnsw<t1::A, TabT> = Hnsw::new(2, 8, 16, 8, TabT);
    let b = sym("b", 8);
    h.insert((&[t1::A(0), t1::A(b as u8)], id(0)));
    let name = must(h.file_dump(Path::new(&dir()), "b"));
    if param("reload", 0) == 0 {
        let m = match DataMap::from_hnswdump::<t1::A>(Path::new(&dir()), &name) {
            Ok(m) => m,
            Err(_) => {
                check(false, "a data map of a complete dump fails");
                end()
            }
        };
        check(m.check_data_type::<t1::A>(), "the data map denies its own type");
        check(!m.check_data_type::<t1::B>(), "the data map accepts another type");
        check(!m.check_data_type::<t2::A>(), "the data map accepts another type");
        check(!m.check_data_type::<u8>() && !m.check_data_type::<NoData>(), "the data map accepts another type");
        check(!m.check_data_type::<Vec<t1::A>>() && !m.check_data_type::<Option<t1::A>>(), "the data map accepts another type");
        check(DataMap::from_hnswdump::<t1::B>(Path::new(&dir()), &name).is_err(), "a data map opens with another type");
        check(DataMap::from_hnswdump::<t2::A>(Path::new(&dir()), &name).is_err(), "a data map opens with another type");
        match m.get_data::<t1::A>(&id(0)) {
            Some(v) => check(v.len() == 2 && v[0].0 == 0 && v[1].0 == b as u8, "the data map gives other data"),
            None => check(false, "the data map has nothing for a dumped identifier"),
        }
    } else {
        let how = pick("how", 0, 3);
        macro_rules! go {
            ($t:ty, $ok:expr) => {
                if how < 3 {
                    let mut r = io(&name, how);
                    let x = r.load_hnsw::<$t, TabT>();
                    check(x.is_ok() == $ok, "a dump is reloaded with another type or refused with its own");
                    std::mem::forget(x);
                } else {
                    let r = io(&name, pick("mm", 0, 1));
                    let x = r.load_hnsw_with_dist::<$t, TabT>(TabT);
                    check(x.is_ok() == $ok, "a dump is reloaded with another type or refused with its own");
                    std::mem::forget(x);
                }
            };
        }
        match pick("t", 0, 2) {
            0 => go!(t1::A, true),
            1 => go!(t1::B, false),
            _ => go!(t2::A, false),
        }
    }
    cover("end");
    std::mem::forget(h);
}

#[no_mangle]
pub extern "C" fn h_d05() {
    let n = pick("n", 1, param("n", 3) as usize);
    if param("full", 0) != 0 {
        fill_tab(n);
    } else {
        fill_part(pick("shape", 0, SHAPES - 1), n, n);
    }
    some_levels(n, param("lmax", 2) as usize, 2);
    let h = make(n, 2, 3, 3);
    let a = points(&h, bytes);
    let fa = FlatNeighborhood::from(&h);
    let name = dump(&h, "b");
    let mut r = io(&name, pick("mmap", 0, 2));
    let h2: Hnsw<NoData, NoDist> = if pick("with", 0, 1) != 0 { must(r.load_hnsw_with_dist(NoDist)) } else { must(r.load_hnsw()) };
    let b = points(&h2, |v: &[NoData]| vec![0; v.len()]);
    for p in &b {
        check(p.v.is_empty(), "a graph-only reload gives data");
    }
    same_points(&a, &b, false);
    same_conf(&h, &h2);
    let fb = FlatNeighborhood::from(&h2);
    for i in 0..NT {
        let (x, y) = (fa.get_neighbours(id(i)), fb.get_neighbours(id(i)));
        check(x.is_some() == y.is_some(), "flattening differs after a graph-only reload");
        if let (Some(x), Some(y)) = (x, y) {
            check(x.len() == y.len(), "flattening differs after a graph-only reload");
            for k in 0..x.len().min(y.len()) {
                check(feq(x[k].distance, y[k].distance), "flattening differs after a graph-only reload");
            }
        }
    }
    cover("end");
    std::mem::forget((h, h2));
    std::mem::forget(r);
}

fn small(n: usize, m: usize) -> H<'static> {
    fill_part(0, n + 1, n + 1);
    let mut lv = [0u8; 16];
    for i in 0..n {
        lv[i] = [0, 1][i % 2];
    }
    set_levels(m, &lv);
    make(n, m, 3, 2)
}
/// cut anywhere
#[no_mangle]
pub extern "C" fn h_d06() {
    relative(param("rel", 0) != 0);
    let n = param("n", 2) as usize;
    let h = small(n, 2);
    let name = dump(&h, "b");
    let f = file(&name, [G, D][pick("file", 0, 1)]);
    let size = fsize(&f);
    let cut = pick("cut", 0, size as usize - 1);
    ftruncate(&f, cut as u64);
    let how = pick("how", 0, param("hows", 4) as usize);
    if how < 3 {
        let mut r = io(&name, how);
        let x = r.load_hnsw::<u8, Tab>();
        check(x.is_err(), "a truncated dump is reloaded");
        std::mem::forget(x);
    } else if how == 3 {
        let r = io(&name, 0);
        let x = r.load_hnsw_with_dist::<u8, Tab>(Tab);
        check(x.is_err(), "a truncated dump is reloaded");
        std::mem::forget(x);
    } else {
        let mut r = io(&name, 0);
        let x = r.load_hnsw::<NoData, NoDist>();
        check(x.is_err(), "a truncated dump is reloaded");
        std::mem::forget(x);
    }
    cover("end");
    std::mem::forget(h);
}
/// one byte changed to any other value
#[no_mangle]
pub extern "C" fn h_d08() {
    let n = param("n", 2) as usize;
    let h = small(n, 2);
    let name = dump(&h, "b");
    let which = pick("file", param("fmin", 0) as usize, param("fmax", 1) as usize);
    let f = file(&name, [G, D][which]);
    let size = fsize(&f) as usize;
    // the names of types are compared only: parts of them are skipped
    let off = pick("off", param("omin", 0) as usize, size - 1);
    if param("thin", 0) != 0 && [49..61, 17..23][which].contains(&off) {
        // the middle of names and identifiers
        end()
    }
    let old = fget(&f, off as u64);
    let v = sym("val", 8);
    assume(ne(v, old));
    fset(&f, off as u64, v);
    let how = pick("how", 0, param("hows", 3) as usize);
    if how < 3 {
        let mut r = io(&name, how);
        let x = r.load_hnsw::<u8, Tab>();
        if x.is_ok() {
            cover("index");
        } else {
            cover("error");
        }
        std::mem::forget(x);
    } else if how == 3 {
        let x = DataMap::from_hnswdump::<u8>(Path::new(&dir()), &name);
        if let Ok(m) = x {
            for i in 0..n {
                if let Some(v) = m.get_data::<u8>(&id(i)) {
                    observe(v.len() as u64);
                    for b in v {
                        observe(*b as u64);
                    }
                }
            }
        }
    } else {
        let mut r = io(&name, 0);
        let x = r.load_hnsw::<NoData, NoDist>();
        std::mem::forget(x);
    }
    cover("end");
    std::mem::forget(h);
}
/// a description of arbitrary bytes
#[no_mangle]
pub extern "C" fn h_d07() {
    let nl = param("names", 3) as usize;
    let lens = [0u64, 1, 2, 3, 256, 257, 1 << 62, u64::MAX];
    let (dl, tl) = if param("both", 0) != 0 {
        (lens[pick("dl", 0, 7)], lens[pick("tl", 0, 7)])
    } else {
        let k = pick("len", 0, 15);
        if k < 8 { (lens[k], 1) } else { (1, lens[k - 8]) }
    };
    let mut b: Vec<u8> = vec![];
    let magic = sym("magic", 32) as u32;
    b.extend_from_slice(&magic.to_ne_bytes());
    let ver = pick("ver", 2, 4);
    if param("mix", 0) == 0 {
        // no other version than the one the bytes are made for
        for v in 2..5 {
            if v != ver {
                assume(ne(magic as u64, [0x002a677f, 0x002a6771, 0x002a6779][v - 2]));
            }
        }
    }
    // the length of the head depends on the version
    let head = 2 + if ver == 4 { 8 } else { 0 } + 1 + 24;
    for _ in 0..head {
        b.push(sym("h", 8) as u8);
    }
    let put = |b: &mut Vec<u8>, l: u64| {
        b.extend_from_slice(&l.to_ne_bytes());
        if l <= 256 {
            for i in 0..l as usize {
                b.push(if i < if l > 3 { 1 } else { nl } { sym("c", 8) as u8 } else { b'x' });
            }
        }
    };
    put(&mut b, dl);
    put(&mut b, tl);
    let cut = pick("cut", 0, 2);
    if cut > 0 {
        let l = b.len() - cut;
        b.truncate(l);
    }
    let r = load_description(&mut &b[..]);
    match r {
        Ok(d) => {
            check(d.format_version == ver || param("mix", 0) != 0, "a description of another version is accepted");
            if d.format_version == ver {
                let u64_at = |p: usize| (0..8).fold(0u64, |a, i| a | (b[p + i] as u64) << (8 * i));
                let o = if ver == 4 { 14 } else { 6 };
                check(eq(d.dumpmode as u64, b[4] as u64), "the dump mode is not the one in the file");
                check(eq(d.max_nb_connection as u64, b[5] as u64), "the number of connections is not the one in the file");
                check(eq(d.nb_layer as u64, b[o] as u64), "the number of layers is not the one in the file");
                check(eq(d.ef as u64, u64_at(o + 1)), "the construction width is not the one in the file");
                check(eq(d.nb_point as u64, u64_at(o + 9)), "the number of points is not the one in the file");
                check(eq(d.dimension as u64, u64_at(o + 17)), "the dimension is not the one in the file");
                if ver == 4 {
                    check(eq(d.level_scale.to_bits(), u64_at(6)), "the level scale is not the one in the file");
                }
                check(dl <= 256 && tl <= 256, "a name longer than 256 bytes is accepted");
                check(d.distname.len() as u64 == dl && d.t_name.len() as u64 == tl, "a name has another length");
                for (n, at) in [(&d.distname, o + 33), (&d.t_name, o + 41 + dl as usize)] {
                    for (i, c) in n.as_bytes().iter().enumerate() {
                        check(eq(*c as u64, b[at + i] as u64), "a name is not the one in the file");
                    }
                }
            }
            cover("description");
        }
        Err(_) => {
            // what is complete and well-formed is read
            if cut == 0 && dl <= 256 && tl <= 256 && param("mix", 0) == 0 {
                let mut bad: B = true.into();
                bad = bad.and(ne(magic as u64, [0x002a677f, 0x002a6771, 0x002a6779][ver - 2]));
                let mut ascii: B = true.into();
                let o = if ver == 4 { 14 } else { 6 };
                for i in (o + 33..o + 33 + dl as usize).chain(o + 41 + dl as usize..b.len()) {
                    ascii = ascii.and(ult(b[i] as u64, 128));
                }
                check(bad.or(ascii.not()), "a well-formed description is refused");
            }
            cover("error")
        }
    }
    cover("end");
}
/// the description of a dump gives back the values of the index
#[no_mangle]
pub extern "C" fn h_d07b() {
    let n = pick("n", 1, 2);
    let m = [1, 2, 16, 255][pick("m", 1, 3)];
    fill_part(0, n, n);
    set_levels(m, &[0, 2, 0]);
    let dim = pick("dim", 1, 3);
    let efc = [1, 3, 1 << 20][pick("efc", 0, 2)];
    let mut h: H = Hnsw::new(m, 8, 16, efc, Tab);
    if pick("factor", 0, 1) != 0 {
        h.modify_level_scale(0.25);
    }
    for i in 0..n {
        h.insert((&vec![i as u8; dim], id(i)));
    }
    let name = dump(&h, "b");
    let f = std::fs::File::open(file(&name, G)).unwrap();
    let d = load_description(&mut std::io::BufReader::new(f));
    match d {
        Err(_) => check(false, "the description of a dump is refused"),
        Ok(d) => {
            check(d.max_nb_connection as usize == m, "the description has another number of connections");
            check(d.ef == efc, "the description has another construction width");
            check(d.nb_point == n, "the description has another number of points");
            check(d.dimension == dim && d.get_dimension() == dim, "the description has another dimension");
            check(d.nb_layer == 16, "the description has another number of layers");
            check(feq64(d.level_scale, h.get_point_indexation().get_level_scale()), "the description has another level scale");
            check(d.t_name == "u8" && d.get_typename() == "u8", "the description has another type");
            check(d.distname == std::any::type_name::<Tab>(), "the description has another distance");
        }
    }
    // through the C interface
    let f = file(&name, G);
    let c = unsafe { load_hnsw_description(f.len(), f.as_ptr()) };
    check(!c.is_null(), "the description of a dump is refused");
    if !c.is_null() {
        let c = unsafe { &*c };
        let st = |p: *const u8, n: usize| String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned();
        check(c.dumpmode == 1, "the description has another mode");
        check(c.max_nb_connection as usize == m, "the description has another number of connections");
        check(c.ef == efc, "the description has another construction width");
        check(c.nb_point == n, "the description has another number of points");
        check(c.data_dimension == dim, "the description has another dimension");
        check(c.nb_layer == 16, "the description has another number of layers");
        check(st(c.t_name, c.t_name_len) == "u8", "the description has another type");
        check(st(c.distname, c.distname_len) == std::any::type_name::<Tab>(), "the description has another distance");
    }
    let head = 4 + 2 + 8 + 1 + 24 + 8 + std::any::type_name::<Tab>().len() + 8 + 2;
    ftruncate(&f, [head - 1, head - 2, head / 2, 38, 14, 4, 1, 0][pick("cut", 0, 7)] as u64);
    let c = unsafe { load_hnsw_description(f.len(), f.as_ptr()) };
    check(c.is_null(), "a description of part of a file is accepted");
    cover("end");
    std::mem::forget(h);
}

#[derive(Clone, Copy, Default)]
pub struct Other;
impl Distance<u8> for Other {
    fn eval(&self, a: &[u8], b: &[u8]) -> f32 {
        tab(a[0] as usize, b[0] as usize)
    }
}
#[derive(Clone, Copy, Default)]
pub struct Tab2;
impl Distance<i8> for Tab2 {
    fn eval(&self, a: &[i8], b: &[i8]) -> f32 {
        tab(a[0] as usize, b[0] as usize)
    }
}
impl Distance<i8> for Tab {
    fn eval(&self, a: &[i8], b: &[i8]) -> f32 {
        tab(a[0] as usize, b[0] as usize)
    }
}
impl Distance<u32> for Tab {
    fn eval(&self, a: &[u32], b: &[u32]) -> f32 {
        tab(a[0] as usize, b[0] as usize)
    }
}
#[no_mangle]
pub extern "C" fn h_d09() {
    let n = pick("n", 1, 2);
    let h = small(n, 2);
    let name = dump(&h, "b");
    let how = pick("how", 0, 3);
    let t = pick("t", 0, 4);
    macro_rules! go {
        ($t:ty, $d:ty) => {
            if how < 3 {
                let mut r = io(&name, how);
                let x = r.load_hnsw::<$t, $d>();
                check(x.is_err(), "a dump is reloaded with another type or distance");
                std::mem::forget(x);
            } else {
                let r = io(&name, pick("mm", 0, 1));
                let x = r.load_hnsw_with_dist::<$t, $d>(Default::default());
                check(x.is_err(), "a dump is reloaded with another type or distance");
                std::mem::forget(x);
            }
        };
    }
    match t {
        0 => go!(u8, Other),
        1 => go!(i8, Tab),
        2 => go!(i8, Tab2),
        3 => go!(u32, Tab),
        _ => {
            let mut r = io(&name, how.min(2));
            let x = r.load_hnsw::<NoData, NoDist>();
            check(x.is_ok(), "a graph-only reload is refused");
            std::mem::forget(x);
        }
    }
    cover("end");
    std::mem::forget(h);
}
pub mod g1 {
    #[derive(Clone, Copy, Default)]
    pub struct A;
    #[derive(Clone, Copy, Default)]
    pub struct B;
}
/// distances of a user: generic, over types in modules
#[derive(Clone, Copy, Default)]
pub struct W<X>(X);
#[derive(Clone, Copy, Default)]
pub struct V<X>(X);
macro_rules! tab_g {
    ($($d:ident),*) => {
        $(impl<X: Send + Sync> Distance<u8> for $d<X> {
            fn eval(&self, a: &[u8], b: &[u8]) -> f32 {
                tab(a[0] as usize, b[0] as usize)
            }
        })*
    };
}
tab_g!(W, V);
#[no_mangle]
pub extern "C" fn h_d09g() {
    fill_part(0, 2, 2);
    set_levels(2, &[0u8; 16]);
    let how = pick("how", 0, 3);
    let (d, q) = (pick("dumped", 0, 2), pick("asked", 0, 2));
    macro_rules! load {
        ($b:expr, $d:ty) => {
            if how < 3 {
                let mut r = io($b, how);
                let x = r.load_hnsw::<u8, $d>();
                let ok = x.is_ok();
                std::mem::forget(x);
                ok
            } else {
                let r = io($b, 0);
                let x = r.load_hnsw_with_dist::<u8, $d>(Default::default());
                let ok = x.is_ok();
                std::mem::forget(x);
                ok
            }
        };
    }
    macro_rules! build {
        ($d:ty) => {{
            let h = Hnsw::<u8, $d>::new(2, 2, 16, 3, Default::default());
            h.insert((&[0u8], 7));
            let s = match h.file_dump(Path::new(&dir()), "b") {
                Ok(s) => s,
                Err(_) => end(),
            };
            std::mem::forget(h);
            s
        }};
    }
    let name = match d {
        0 => build!(W<g1::A>),
        1 => build!(V<g1::A>),
        _ => build!(W<g1::B>),
    };
    let ok = match q {
        0 => load!(&name, W<g1::A>),
        1 => load!(&name, V<g1::A>),
        _ => load!(&name, W<g1::B>),
    };
    if d == q {
        check(ok, "a dump is refused though type and distance are the ones asked for");
    } else {
        check(!ok, "a dump is reloaded with another type or distance");
    }
    cover("end");
}
/// the names in the dump differ in any of their last bytes from the ones asked for
#[no_mangle]
pub extern "C" fn h_d09b() {
    let h = small(1, 2);
    let name = dump(&h, "b");
    let f = file(&name, G);
    // position of the names in the file: after the fixed head
    let dn = std::any::type_name::<Tab>();
    let pos = 4 + 2 + 8 + 1 + 24 + 8;
    let t_at = pos + dn.len() as u64 + 8;
    let d_at = pos + dn.len() as u64 - 3;
    let mut diff: B = false.into();
    let mut set = |at: u64| {
        let v = sym("c", 8);
        assume(ult(v, 128));
        diff = diff.or(ne(v, fget(&f, at)));
        fset(&f, at, v);
    };
    if pick("what", 0, 1) == 0 {
        set(t_at);
        set(t_at + 1);
    } else {
        set(d_at);
        set(d_at + 1);
        set(d_at + 2);
    }
    let how = pick("how", 0, 3);
    let mut r = io(&name, how % 3);
    let (ok, x, y);
    if how < 3 {
        x = r.load_hnsw::<u8, Tab>();
        ok = x.is_ok();
        std::mem::forget(x);
    } else {
        y = r.load_hnsw_with_dist::<u8, Tab>(Tab);
        ok = y.is_ok();
        std::mem::forget(y);
    }
    if ok {
        check(diff.not(), "a dump is reloaded with another type or distance");
        cover("index");
    } else {
        check(diff, "a dump is refused though type and distance are the ones asked for");
        cover("error");
    }
    cover("end");
    std::mem::forget(h);
}

fn content(base: &str, ext: &str) -> Vec<u64> {
    let f = file(base, ext);
    let n = fsize(&f);
    (0..n).map(|i| fget(&f, i)).collect()
}
fn unchanged(base: &str, ext: &str, v: &[u64]) {
    let w = content(base, ext);
    check(w.len() == v.len(), "an existing dump file has changed");
    for i in 0..v.len().min(w.len()) {
        check(eq(v[i], w[i]), "an existing dump file has changed");
    }
}
#[no_mangle]
pub extern "C" fn h_d10() {
    relative(param("rel", 0) != 0);
    let n = 2;
    let h = small(n, 2);
    let a = points(&h, bytes);
    let name = dump(&h, "b");
    check(name == "b", "a first dump has another name");
    // dumping again, from an index that was not reloaded, writes the same name
    if pick("again", 0, 1) != 0 {
        check(dump(&h, "b") == "b", "a dump of an index that was not reloaded has another name");
        check(fcount() == 2, "a dump leaves other files");
    }
    let (g0, d0) = (content("b", G), content("b", D));
    let mut r = io("b", pick("mmap", 0, 2));
    let mut h2: H = must(r.load_hnsw::<u8, Tab>());
    // number of dumps in a row; draws of the generator come in runs of equal ones
    unsafe {
        RNG_SYM = 0;
        RNG_REP = pick("rep", 1, param("reps", 2) as usize);
    }
    let k = pick("dumps", 1, param("dumps", 3) as usize);
    let mut names: Vec<(String, Vec<u64>, Vec<u64>)> = vec![];
    let grow = pick("grow", 0, 1) != 0;
    for _ in 0..k {
        if grow {
            // the files differ from the ones before
            let i = h2.get_nb_point();
            set_levels(2, &[0; 16]);
            h2.set_extend_candidates(false);
            h2.insert((&[2u8, 3], id(i)));
        }
        let a = if grow { points(&h2, bytes) } else { vec![] };
        let nm = dump(&h2, "b");
        check(nm != "b" && names.iter().all(|x| x.0 != nm), "a dump of a reloaded index uses a name in use");
        check(fcount() as usize == 4 + 2 * names.len(), "a dump does not write two files");
        unchanged("b", G, &g0);
        unchanged("b", D, &d0);
        for x in &names {
            unchanged(&x.0, G, &x.1);
            unchanged(&x.0, D, &x.2);
        }
        names.push((nm.clone(), content(&nm, G), content(&nm, D)));
        let mut r5 = io(&nm, 0);
        let h5: H = must(r5.load_hnsw::<u8, Tab>());
        if grow {
            same_points(&a, &points(&h5, bytes), true);
        }
        std::mem::forget(h5);
        std::mem::forget(r5);
    }
    if !grow {
        let nm = names.last().unwrap().0.clone();
        let mut r4 = io(&nm, 0);
        let h4: H = must(r4.load_hnsw::<u8, Tab>());
        same_points(&a, &points(&h4, bytes), true);
        std::mem::forget(h4);
        std::mem::forget(r4);
    }
    // another base name, not in use: written as asked
    check(dump(&h2, "c") == "c", "a dump under a name not in use has another name");
    cover("end");
    std::mem::forget((h, h2));
    std::mem::forget(r);
}

#[no_mangle]
pub extern "C" fn h_d11() {
    let n = param("n", 2) as usize;
    let h = small(n, 2);
    let a = points(&h, bytes);
    // bytes that can be written before the device is full
    let kind = pick("kind", 1, 5);
    let b = pick("budget", 0, param("max", 2000) as usize);
    wbudget(kind as u32, b as u64);
    let x = h.file_dump(Path::new(&dir()), "b");
    wbudget(0, 0);
    match x {
        Ok(name) => {
            let mut r = io(&name, 0);
            let h2: H = must(r.load_hnsw::<u8, Tab>());
            same_points(&a, &points(&h2, bytes), true);
            same_conf(&h, &h2);
            cover("success");
            std::mem::forget(h2);
            std::mem::forget(r);
        }
        Err(_) => cover("error"),
    }
    check(open_fds() == 0, "a dump leaves a file open");
    cover("end");
    std::mem::forget(h);
}

#[no_mangle]
pub extern "C" fn h_d13() {
    let n = pick("n", 1, param("n", 2) as usize);
    let more = param("more", 2) as usize;
    let t = n + more;
    let m = param("m", 2) as usize;
    if param("full", 1) != 0 {
        fill_tab(t + 1);
    } else {
        fill_part(pick("shape", 0, SHAPES - 1), t, t + 1);
    }
    let lv = pick_levels(t, param("lmax", 1) as usize, m);
    let h: H = Hnsw::new(m, 8, 16, 4, Tab);
    insert(&h, 0, n);
    let name = dump(&h, "b");
    let mut r = io(&name, pick("mmap", 0, param("mmap", 1) as usize));
    let h2: H = must(r.load_hnsw::<u8, Tab>());
    let mut l2 = [0u8; 16];
    l2[..more].copy_from_slice(&lv[n..t]);
    set_levels(m, &l2);
    insert(&h2, n, t);
    let seen = check_registry(&h2, t, 16);
    check_graph(&h2, t, m, &seen);
    for i in 0..t {
        check(seen[i].0 == lv[i], "a point is on another level than drawn");
    }
    let q = h2.search(&[t as u8], t, t);
    check_answer(&q, t, t, t);
    check(!q.is_empty(), "no answer from an index with points");
    cover("end");
    std::mem::forget((h, h2));
    std::mem::forget(r);
}

/// the bytes of a file
fn read_file(f: &str) -> Vec<u8> {
    (0..fsize(f)).map(|o| fget(f, o) as u8).collect()
}
/// turns the dump of n points of dim elements of `w` bytes into one of an older format: 3 has no level scale, 2 has
/// the length of each vector before its elements
fn older(name: &str, ver: usize, n: usize) {
    let (gf, df) = (file(name, G), file(name, D));
    let g = read_file(&gf);
    let magic: u32 = if ver == 3 { 0x002a6771 } else { 0x002a677f };
    let mut o = magic.to_ne_bytes().to_vec();
    o.extend_from_slice(&g[4..6]);
    o.extend_from_slice(&g[14..]);
    std::fs::write(&gf, &o).unwrap();
    if ver == 2 {
        let d = read_file(&df);
        let mut o = d[..12].to_vec();
        let mut at = 12;
        for _ in 0..n {
            let mut l = [0u8; 8];
            l.copy_from_slice(&d[at + 12..at + 20]);
            let len = u64::from_ne_bytes(l) as usize;
            o.extend_from_slice(&d[at..at + 12]);
            o.extend_from_slice(&(len as u64 + 8).to_ne_bytes());
            // elements are bytes here
            o.extend_from_slice(&(len as u64).to_le_bytes());
            o.extend_from_slice(&d[at + 20..at + 20 + len]);
            at += 20 + len;
        }
        check(at == d.len(), "the data file of a dump has another length");
        std::fs::write(&df, &o).unwrap();
    }
}
/// D12: dumps of older formats
#[no_mangle]
pub extern "C" fn h_d12() {
    let n = pick("n", 1, param("n", 3) as usize);
    let m = [2, 255, 16][pick("m", 0, param("ms", 2) as usize - 1)];
    fill_part(pick("shape", 0, param("shapes", 2) as usize - 1), n + 1, n + 1);
    some_levels(n, param("lmax", 2) as usize, m);
    let h: H = Hnsw::new(m, 8, 16, 5, Tab);
    for i in 0..n {
        h.insert((&[i as u8, sym("b", 8) as u8, sym("b", 8) as u8], id(i)));
    }
    let a = points(&h, bytes);
    let name = dump(&h, "b");
    let ver = pick("ver", 2, 3);
    older(&name, ver, n);
    let how = pick("how", 0, 4);
    if how < 3 {
        let mut r = io(&name, how);
        let h2: H = must(r.load_hnsw::<u8, Tab>());
        same_points(&a, &points(&h2, bytes), true);
        same_conf(&h, &h2);
        same_answers(&h.search(&[n as u8], 2, 3), &h2.search(&[n as u8], 2, 3));
        // dumped again, it is in the current format
        let name = dump(&h2, "c");
        let f = std::fs::File::open(file(&name, G)).unwrap();
        let d = load_description(&mut std::io::BufReader::new(f));
        check(d.is_ok_and(|d| d.format_version == 4), "a dump is not in the current format");
        let r4 = io(&name, 0);
        let h4: H = must(r4.load_hnsw_with_dist(Tab));
        same_points(&a, &points(&h4, bytes), true);
        same_conf(&h, &h4);
        std::mem::forget((h2, h4));
        std::mem::forget((r, r4));
    } else if how == 3 {
        let r = io(&name, 0);
        let h2: H = must(r.load_hnsw_with_dist(Tab));
        same_points(&a, &points(&h2, bytes), true);
        same_conf(&h, &h2);
        std::mem::forget(h2);
        std::mem::forget(r);
    } else {
        let m = DataMap::from_hnswdump::<u8>(Path::new(&dir()), &name);
        match m {
            Ok(m) => {
                check(ver == 3, "a data map of a dump of format 2 is opened");
                check(m.get_nb_data() == n, "the data map has another number of data");
                for p in &a {
                    let v = m.get_data::<u8>(&p.id);
                    check(v.is_some_and(|v| v.len() == p.v.len() && (0..v.len()).all(|k| eq(v[k] as u64, p.v[k] as u64).0 != 0)), "the data map gives other data");
                }
            }
            Err(_) => check(ver == 2, "a data map of a dump of format 3 is refused"),
        }
    }
    cover("end");
    std::mem::forget(h);
}
/// D14: the object which reloads
#[no_mangle]
pub extern "C" fn h_d14() {
    let n = pick("n", 1, param("n", 2) as usize);
    let m = 2;
    fill_part(0, 4, 4);
    some_levels(n, 1, m);
    // three dumps of the same identifiers with other data, the later ones of one more point
    let mut hs = vec![];
    for (k, name) in ["b", "c", "e"].iter().enumerate() {
        let h = make(n, m, 3, 2);
        if k > 0 {
            h.insert((&[n as u8, sym("b", 8) as u8], id(n)));
        }
        let a = points(&h, bytes);
        dump(&h, name);
        hs.push((h, a));
    }
    let ver = pick("ver", 2, 4);
    if ver < 4 {
        older("c", ver, n + 1);
    }
    let replace = |by: &str| {
        for e in [G, D] {
            let b = read_file(&file(by, e));
            fremove(&file("b", e));
            std::fs::write(file("b", e), &b).unwrap();
        }
    };
    let opt = |mmap: usize| {
        let mut o = ReloadOptions::default();
        if mmap > 0 {
            o = o.set_mmap(true).set_mmap_threshold(mmap - 1);
        }
        check(o.use_mmap() == (mmap > 0, mmap.max(1) - 1), "the options are not those which were set");
        o
    };
    let o1 = pick("mmap", 0, 2);
    let d = dir();
    let mut r = match pick("made", 0, 2) {
        0 => {
            let mut r = HnswIo::default();
            check(r.set_values(Path::new(&d), "b".into(), opt(o1)).is_ok(), "a default reloader cannot be initialised");
            r
        }
        1 => {
            let mut r = HnswIo::new(Path::new(&d), "b");
            r.set_options(opt(o1));
            r
        }
        _ => HnswIo::new_with_options(Path::new(&d), "b", opt(o1)),
    };
    check(r.set_values(Path::new(&d), "c".into(), opt(0)).is_err(), "a reloader is initialised twice");
    check(r.get_basename() == "b", "the reloader has another base name");
    {
        let h2: H = must(r.load_hnsw::<u8, Tab>());
        same_points(&hs[0].1, &points(&h2, bytes), true);
        drop(h2);
    }
    // the files are replaced, other options
    let again = pick("again", 0, 2);
    let mut now = 0;
    if again > 0 {
        replace("c");
        now = 1;
    }
    if again == 2 {
        r.set_options(opt(pick("mmap2", 0, 2)));
    }
    {
        let h3: H = must(r.load_hnsw::<u8, Tab>());
        same_points(&hs[now].1, &points(&h3, bytes), true);
        drop(h3);
    }
    if pick("again2", 0, 1) != 0 {
        replace("e");
        now = 2;
    }
    {
        let h4: H = must(r.load_hnsw_with_dist(Tab));
        same_points(&hs[now].1, &points(&h4, bytes), true);
        drop(h4);
    }
    drop(r);
    check(open_fds() == 0, "a reload leaves a file open");
    check(open_maps() == 0, "a reloader leaves a mapping");
    cover("end");
    std::mem::forget(hs);
}

/// D11: the files cannot be opened
#[no_mangle]
pub extern "C" fn h_d11o() {
    let n = pick("n", 0, 2);
    let h = small(n, 2);
    // a dump which must survive
    let before = pick("before", 0, 1) != 0 && n > 0;
    let a = points(&h, bytes);
    let how = pick("how", 0, 2);
    if before {
        dump(&h, "b");
    }
    let x = match how {
        0 => h.file_dump(Path::new("nodir"), "b"),
        k => {
            wbudget(5 + k as u32, 0);
            let x = h.file_dump(Path::new(&dir()), "c");
            wbudget(0, 0);
            x
        }
    };
    check(x.is_err(), "a dump succeeds although a file cannot be opened");
    check(open_fds() == 0, "a dump leaves a file open");
    if before {
        let mut r = io("b", 0);
        let h2: H = must(r.load_hnsw::<u8, Tab>());
        same_points(&a, &points(&h2, bytes), true);
        std::mem::forget(h2);
    }
    cover("end");
    std::mem::forget(h);
}
