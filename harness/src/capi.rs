//! A01: the C interface against the Rust interface.
use crate::common::*;
use crate::io::{D, G};
use crate::sx::*;
use hnsw_rs::libext::*;

/// layout of the answers, as C sees it
#[repr(C)]
struct CVec<T> {
    len: i64,
    ptr: *const T,
}
fn answers(p: *const Neighbourhood_api) -> Vec<(usize, f32)> {
    let a = unsafe { &*p };
    check(a.nbgh >= 0 && a.nbgh < 50, "an answer reports a wrong number of neighbours");
    (0..a.nbgh as usize).map(|i| unsafe { ((*a.neighbours.add(i)).id, (*a.neighbours.add(i)).d) }).collect()
}
fn same(a: &[(usize, f32)], b: &[Neighbour]) {
    check(a.len() == b.len(), "an answer reports another number of neighbours than the Rust interface");
    for i in 0..a.len().min(b.len()) {
        observe(a[i].0 as u64);
        check(a[i].0 == b[i].d_id, "another identifier than the Rust interface gives");
        check(feq(a[i].1, b[i].distance), "another distance than the Rust interface gives");
    }
}
/// indexes of many points: distances on a line instead of the table
static mut LARGE: bool = false;
fn large() -> bool {
    unsafe { LARGE }
}
fn dist_of(a: usize, b: usize) -> f32 {
    if large() {
        crate::big::mixed(a as u32, b as u32)
    } else {
        tab(a, b)
    }
}
fn make_levels(m: usize, lv: &[u8]) {
    if large() {
        crate::big::levels(m, 1);
    } else {
        set_levels(m, lv);
    }
}
fn name_of(i: usize) -> usize {
    if large() {
        crate::big::bid(i)
    } else {
        id(i)
    }
}
macro_rules! api {
    ($m:ident, $t:ty, $init:ident, $insert:ident, $pinsert:ident, $search:ident, $psearch:ident) => {
        mod $m {
            use super::*;
            pub fn v(i: usize) -> Vec<$t> {
                vec![i as $t, (i + 100) as $t]
            }
            pub extern "C" fn dist(a: *const $t, b: *const $t, n: u64) -> f32 {
                let (a, b) = unsafe { ([*a, *a.add(1)], [*b, *b.add(1)]) };
                check(n == 2 && a[1] as usize == a[0] as usize + 100 && b[1] as usize == b[0] as usize + 100, "the distance function gets other vectors than given");
                dist_of(a[0] as usize, b[0] as usize)
            }
            pub unsafe fn run(n: usize, q: usize, m: usize, efc: usize, lv: &[u8], k: usize, ef: usize) {
                let par = pick("par", 0, 1) != 0;
                make_levels(m, lv);
                let h: Hnsw<$t, DistCFFI<$t>> = Hnsw::new(m, 10000, 16, efc, DistCFFI::<$t>::new(dist));
                let d: Vec<Vec<$t>> = (0..n).map(v).collect();
                if par {
                    let x: Vec<(&Vec<$t>, usize)> = (0..n).map(|i| (&d[i], name_of(i))).collect();
                    h.parallel_insert(&x);
                } else {
                    for i in 0..n {
                        h.insert((&d[i], name_of(i)));
                    }
                }
                make_levels(m, lv);
                let c = $init(m, efc, dist);
                check(!c.is_null(), "no index is created");
                if par {
                    let mut p: Vec<*const $t> = d.iter().map(|x| x.as_ptr()).collect();
                    let ids: Vec<usize> = (0..n).map(name_of).collect();
                    $pinsert(c as *mut _, n, 2, p.as_mut_ptr(), ids.as_ptr());
                } else {
                    for i in 0..n {
                        $insert(c as *mut _, 2, d[i].as_ptr(), name_of(i));
                    }
                }
                drop(d);
                // one request
                let qv = v(n);
                let r = h.search(&qv, k, ef);
                if !large() {
                    check_answer(&r, n, n, k);
                }
                same(&answers($search(c, 2, qv.as_ptr(), k, ef)), &r);
                // several
                let qs: Vec<Vec<$t>> = (0..q).map(|i| v(if large() { i * 7 } else { n + i % 2 })).collect();
                let mut p: Vec<*const $t> = qs.iter().map(|x| x.as_ptr()).collect();
                let rs = h.parallel_search(&qs, k, ef);
                let a = &*($psearch(c, q, 2, p.as_mut_ptr(), k, ef) as *const CVec<Neighbourhood_api>);
                check(a.len == q as i64, "the number of answers is not the number of requests");
                if a.len == q as i64 {
                    for i in 0..q {
                        same(&answers(a.ptr.add(i)), &rs[i]);
                    }
                }
                std::mem::forget(h);
            }
        }
    };
}
api!(u8_, u8, init_hnsw_ptrdist_u8, insert_u8, parallel_insert_u8, search_neighbours_u8, parallel_search_neighbours_u8);
api!(u16_, u16, init_hnsw_ptrdist_u16, insert_u16, parallel_insert_u16, search_neighbours_u16, parallel_search_neighbours_u16);
api!(u32_, u32, init_hnsw_ptrdist_u32, insert_u32, parallel_insert_u32, search_neighbours_u32, parallel_search_neighbours_u32);
api!(i32_, i32, init_hnsw_ptrdist_i32, insert_i32, parallel_insert_i32, search_neighbours_i32, parallel_search_neighbours_i32);
api!(f32_, f32, init_hnsw_ptrdist_f32, insert_f32, parallel_insert_f32, search_neighbours_f32, parallel_search_neighbours_f32);

/// the same calls through both interfaces, with an arbitrary distance function
#[no_mangle]
pub extern "C" fn h_a01() {
    let n = pick("n", param("nmin", 0) as usize, param("n", 3) as usize);
    let q = pick("q", param("qmin", 0) as usize, param("q", 2) as usize);
    let m = 2;
    fill_part(pick("shape", param("smin", 0) as usize, param("smax", 1) as usize), if param("sym", 1) != 0 { n } else { n + 2 }, n + 2);
    let efc = [1, 4][pick("efc", 0, 1)];
    let lv = pick_levels(n, param("lmax", 1) as usize, m);
    let k = pick("k", 1, param("kmax", 2) as usize);
    let ef = pick("ef", 1, param("efmax", 2) as usize);
    let ty = pick("type", param("tmin", 0) as usize, param("tmax", 4) as usize);
    unsafe {
        match ty {
            0 => u8_::run(n, q, m, efc, &lv, k, ef),
            1 => u16_::run(n, q, m, efc, &lv, k, ef),
            2 => u32_::run(n, q, m, efc, &lv, k, ef),
            3 => i32_::run(n, q, m, efc, &lv, k, ef),
            _ => f32_::run(n, q, m, efc, &lv, k, ef),
        }
    }
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_a01b() {
    unsafe {
        LARGE = true;
    }
    let n = param("n", 60) as usize;
    let q = param("q", 8) as usize;
    let lv = vec![];
    let (k, ef) = [(2, 30), (5, 1), (40, 3), (1, 60)][pick("k", 0, param("kmax", 2) as usize)];
    unsafe {
        match pick("type", 0, 4) {
            0 => u8_::run(n, q, 3, 12, &lv, k, ef),
            1 => u16_::run(n, q, 3, 12, &lv, k, ef),
            2 => u32_::run(n, q, 3, 12, &lv, k, ef),
            3 => i32_::run(n, q, 3, 12, &lv, k, ef),
            _ => f32_::run(n, q, 3, 12, &lv, k, ef),
        }
    }
    cover("end");
}

// ---- named distances ------------------------------------------------------
const N: usize = 5;
fn data(i: usize) -> [usize; 4] {
    [[1, 2, 3, 6], [3, 1, 2, 6], [1, 5, 0, 6], [4, 4, 2, 2], [5, 1, 1, 5], [2, 2, 4, 4]][i]
}
trait Val: Copy {
    fn of(x: usize) -> Self;
}
macro_rules! val {
    ($($t:ty),*) => { $(impl Val for $t { fn of(x: usize) -> $t { x as $t } })* };
}
val!(u8, u16, u32, i32);
impl Val for f32 {
    fn of(x: usize) -> f32 {
        // sums up to 1
        x as f32 / 12.
    }
}
fn vec_of<T: Val>(i: usize) -> Vec<T> {
    data(i).iter().map(|x| T::of(*x)).collect()
}
/// what the C functions of one type are
struct Api<A, T> {
    insert: unsafe extern "C" fn(*mut A, usize, *const T, usize),
    search: unsafe extern "C" fn(*const A, usize, *const T, usize, usize) -> *const Neighbourhood_api,
    dump: unsafe extern "C" fn(*const A, usize, *const u8) -> i64,
    tname: &'static str,
}
const U8: Api<HnswApiu8, u8> = Api { insert: insert_u8, search: search_neighbours_u8, dump: file_dump_u8, tname: "u8" };
const U16: Api<HnswApiu16, u16> = Api { insert: insert_u16, search: search_neighbours_u16, dump: file_dump_u16, tname: "u16" };
const U32: Api<HnswApiu32, u32> = Api { insert: insert_u32, search: search_neighbours_u32, dump: file_dump_u32, tname: "u32" };
const I32: Api<HnswApii32, i32> = Api { insert: insert_i32, search: search_neighbours_i32, dump: file_dump_i32, tname: "i32" };
const F32: Api<HnswApif32, f32> = Api { insert: insert_f32, search: search_neighbours_f32, dump: file_dump_f32, tname: "f32" };

/// an index made with a name against the Rust index of that distance; `load` reloads a dump of it
fn named<A, T: Val + Clone + Send + Sync, X: Distance<T> + Send + Sync>(api: &Api<A, T>, c: *const A, x: X, dist: &str, nl: usize, load: Option<unsafe extern "C" fn(*mut HnswIo) -> *const A>) {
    check(!c.is_null(), "no index is created for a known distance");
    if c.is_null() {
        return;
    }
    let lv = [1, 0, 0, 1];
    set_levels(2, &lv);
    let h: Hnsw<T, X> = Hnsw::new(2, 10000, nl, 3, x);
    for i in 0..N {
        h.insert((&vec_of::<T>(i), id(i)));
    }
    set_levels(2, &lv);
    for i in 0..N {
        unsafe { (api.insert)(c as *mut A, 4, vec_of::<T>(i).as_ptr(), id(i)) };
    }
    let q = vec_of::<T>(4);
    let r = h.search(&q, 3, 4);
    check(r.len() == 3, "the Rust index does not give 3 answers");
    same(&answers(unsafe { (api.search)(c, 4, q.as_ptr(), 3, 4) }), &r);
    std::mem::forget(h);
    if param("dump", 0) == 0 {
        cover("known");
        return;
    }
    let name = "cdump";
    let ok = unsafe { (api.dump)(c, name.len(), name.as_ptr()) };
    check(ok == 1, "the dump fails");
    let bad = "nodir/cdump";
    check(unsafe { (api.dump)(c, bad.len(), bad.as_ptr()) } == -1, "a failed dump does not give -1");
    let f = file(name, G);
    let d = unsafe { load_hnsw_description(f.len(), f.as_ptr()) };
    check(!d.is_null(), "the description of a dump cannot be read");
    if !d.is_null() {
        let d = unsafe { &*d };
        let st = |p: *const u8, n: usize| String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned();
        check(d.dumpmode == 1, "the description reports another dump mode");
        check(d.max_nb_connection == 2, "the description reports another maximum number of connections");
        check(d.nb_layer as usize == nl, "the description reports another number of layers");
        check(d.ef == 3, "the description reports another construction width");
        check(d.nb_point == N, "the description reports another number of points");
        check(d.data_dimension == 4, "the description reports another dimension");
        check(st(d.distname, d.distname_len).ends_with(dist), "the description reports another distance");
        check(st(d.t_name, d.t_name_len) == api.tname, "the description reports another type");
    }
    let Some(load) = load else {
        cover("known");
        return;
    };
    let how = pick("how", 0, 2);
    if how == 1 {
        fremove(&file(name, D));
    }
    let given = if how == 2 { "other" } else { name };
    let io = unsafe { get_hnswio(given.len() as u64, given.as_ptr()) };
    check(!io.is_null(), "no description of the reload is created");
    let g = unsafe { load(io as *mut HnswIo) };
    if how > 0 {
        check(g.is_null(), "a failed reload does not give a null pointer");
        cover("no file");
    } else {
        check(!g.is_null(), "the reload fails");
        if !g.is_null() {
            same(&answers(unsafe { (api.search)(g, 4, q.as_ptr(), 3, 4) }), &r);
        }
        cover("reloaded");
    }
    cover("known");
}
/// a name which differs from a known one in one byte or in its length
fn unknown(name: &str, known: &[&str], f: impl Fn(usize, *const u8) -> bool) {
    let mut b = name.as_bytes().to_vec();
    match pick("change", 0, 2) {
        0 => {
            let i = pick("at", 0, b.len() - 1);
            b[i] = sym("byte", 8) as u8;
        }
        1 => {
            b.push(sym("byte", 8) as u8);
        }
        _ => {
            b.truncate(pick("len", 0, b.len()));
        }
    }
    let null = f(b.len(), b.as_ptr());
    let is = known.iter().any(|k| k.as_bytes() == &b[..]);
    check(null != is, if is { "no index is created for a known distance" } else { "an index is created for an unknown distance" });
    cover(if is { "known" } else { "unknown" });
}
#[no_mangle]
pub extern "C" fn h_a01n() {
    let u = param("unknown", 0) != 0;
    // (type, distance); new_hnsw has other numbers of layers
    macro_rules! ty {
        ($init:ident, $api:expr, $t:ty, $new:expr, [$(($d:ident, $load:expr)),*]) => {{
            let names = [$(stringify!($d)),*];
            let w = pick("dist", 0, names.len() - 1);
            if u {
                return unknown(names[w], &names, |n, p| unsafe { $init(2, 3, n, p).is_null() });
            }
            let mut i = 0;
            $(
                if i == w {
                    let nm = stringify!($d);
                    let c = unsafe { $init(2, 3, nm.len(), nm.as_ptr()) };
                    named::<_, $t, $d>(&$api, c, $d {}, nm, 16, $load);
                }
                i += 1;
            )*
            let _ = i;
        }};
    }
    // the creation functions with their own number of layers
    macro_rules! tn {
        ($new:ident, $api:expr, $t:ty, [$($d:ident),*]) => {{
            let names = [$(stringify!($d)),*];
            let w = pick("dist", 0, names.len() - 1);
            if u {
                return unknown(names[w], &names, |n, p| unsafe { $new(2, 3, n, p, 10, 16).is_null() });
            }
            let nl = [2, 16][pick("layers", 0, 1)];
            let mut i = 0;
            $(
                if i == w {
                    let nm = stringify!($d);
                    let c = unsafe { $new(2, 3, nm.len(), nm.as_ptr(), 10, nl) };
                    if nl == 16 {
                        named::<_, $t, $d>(&$api, c, $d {}, nm, nl, None);
                    } else {
                        levels_of(&$api, c, nl);
                    }
                }
                i += 1;
            )*
            let _ = i;
        }};
    }
    match pick("type", param("tmin", 0) as usize, param("tmax", 6) as usize) {
        0 => ty!(init_hnsw_u8, U8, u8, 0, [(DistL1, Some(load_hnswdump_u8_DistL1)), (DistL2, Some(load_hnswdump_u8_DistL2)), (DistHamming, Some(load_hnswdump_u8_DistHamming)), (DistJaccard, Some(load_hnswdump_u8_DistJaccard))]),
        1 => ty!(init_hnsw_u16, U16, u16, 0, [(DistL1, Some(load_hnswdump_u16_DistL1)), (DistL2, Some(load_hnswdump_u16_DistL2)), (DistHamming, Some(load_hnswdump_u16_DistHamming)), (DistJaccard, None), (DistLevenshtein, Some(load_hnswdump_u16_DistLevenshtein))]),
        2 => ty!(init_hnsw_u32, U32, u32, 0, [(DistL1, Some(load_hnswdump_u32_DistL1)), (DistL2, Some(load_hnswdump_u32_DistL2)), (DistJaccard, Some(load_hnswdump_u32_DistJaccard)), (DistHamming, Some(load_hnswdump_u32_DistHamming))]),
        3 => ty!(init_hnsw_i32, I32, i32, 0, [(DistL1, Some(load_hnswdump_i32_DistL1)), (DistL2, Some(load_hnswdump_i32_DistL2)), (DistHamming, Some(load_hnswdump_i32_DistHamming))]),
        4 => ty!(init_hnsw_f32, F32, f32, 0, [(DistL1, Some(load_hnswdump_f32_DistL1)), (DistL2, Some(load_hnswdump_f32_DistL2)), (DistDot, Some(load_hnswdump_f32_DistDot)), (DistHellinger, None), (DistJeffreys, Some(load_hnswdump_f32_DistJeffreys)), (DistJensenShannon, Some(load_hnswdump_f32_DistJensenShannon))]),
        5 => tn!(new_hnsw_u16, U16, u16, [DistL1, DistL2, DistHamming, DistJaccard, DistLevenshtein]),
        _ => tn!(new_hnsw_f32, F32, f32, [DistL1, DistL2, DistDot, DistHellinger, DistJeffreys, DistJensenShannon]),
    }
    cover("end");
}
/// reloads that have no creation function: the cosine distance and the graph only
#[no_mangle]
pub extern "C" fn h_a01l() {
    set_levels(2, &[1, 0, 0, 1]);
    let h: Hnsw<f32, DistCosine> = Hnsw::new(2, 10000, 16, 3, DistCosine {});
    for i in 0..N {
        h.insert((&vec_of::<f32>(i), id(i)));
    }
    let name = "cdump";
    crate::io::must(h.file_dump(std::path::Path::new("."), name));
    let io = unsafe { get_hnswio(name.len() as u64, name.as_ptr()) } as *mut HnswIo;
    check(!io.is_null(), "no description of the reload is created");
    match pick("what", 0, 2) {
        0 => {
            let g = unsafe { load_hnswdump_f32_DistCosine(io) };
            check(!g.is_null(), "the reload fails");
            if !g.is_null() {
                let q = vec_of::<f32>(4);
                let r = h.search(&q, 3, 4);
                check(r.len() == 3, "the Rust index does not give 3 answers");
                same(&answers(unsafe { search_neighbours_f32(g, 4, q.as_ptr(), 3, 4) }), &r);
            }
        }
        1 => check(!unsafe { load_hnswdump_NoData_DistNoDist(io) }.is_null(), "the reload of the graph fails"),
        _ => {
            check(unsafe { load_hnswdump_f32_DistL2(io) }.is_null(), "a reload with another distance does not give a null pointer");
            check(unsafe { load_hnswdump_i32_DistL2(io) }.is_null(), "a reload with another type does not give a null pointer");
        }
    }
    std::mem::forget(h);
    cover("end");
}
/// an index with nl layers accepts no point above; dumping needs 16 layers
fn levels_of<A, T: Val>(api: &Api<A, T>, c: *const A, nl: usize) {
    check(!c.is_null(), "no index is created for a known distance");
    if c.is_null() {
        return;
    }
    set_levels(2, &[1, 0, 1, 0]);
    for i in 0..N {
        unsafe { (api.insert)(c as *mut A, 4, vec_of::<T>(i).as_ptr(), id(i)) };
    }
    let q = vec_of::<T>(4);
    let r = answers(unsafe { (api.search)(c, 4, q.as_ptr(), 3, 4) });
    check(r.len() == 3, "an answer reports another number of neighbours than the Rust interface");
    let ok = unsafe { (api.dump)(c, 1, b"x".as_ptr()) };
    check(ok == -1, "a dump of an index with fewer layers does not report an error");
    let _ = nl;
    cover("known");
}
/// creating and dropping through the C interface
#[no_mangle]
pub extern "C" fn h_a01m() {
    let n = pick("n", 0, param("n", 2) as usize);
    let life = |f: bool| unsafe {
        set_levels(2, &[1, 0, 0, 0]);
        let nm = "DistL1";
        if f {
            let c = init_hnsw_f32(2, 3, nm.len(), nm.as_ptr());
            for i in 0..n {
                insert_f32(c as *mut _, 4, vec_of::<f32>(i).as_ptr(), id(i));
            }
            drop_hnsw_f32(c);
        } else {
            let c = init_hnsw_u16(2, 3, nm.len(), nm.as_ptr());
            for i in 0..n {
                insert_u16(c as *mut _, 4, vec_of::<u16>(i).as_ptr(), id(i));
            }
            drop_hnsw_u16(c);
        }
    };
    let f = pick("type", 0, 1) == 0;
    life(f);
    let a = heap_live();
    life(f);
    check(heap_live() == a, "memory is not released when the index is dropped");
    cover("end");
}
