//! Models of the environment: libc, file system, panics, blocking primitives, harness API.
use crate::exec::*;
use crate::ir::*;
use crate::term::*;
use std::rc::Rc;

pub enum Out {
    Val(V),
    /// value for the caller, then run another thread
    Switched(V),
    /// run the function's own body
    Enter,
    EnterOther(u32, Vec<V>),
}
pub type Model = fn(&mut Ex, &mut State, u32, &[V], &[TyId], TyId) -> Res<Out>;

#[derive(Clone)]
pub struct FData {
    pub bytes: Vec<By>,
    pub len: V,
}
#[derive(Clone)]
pub struct FileEnt {
    pub path: String,
    pub dir: bool,
    pub data: Rc<FData>,
}
#[derive(Clone)]
pub struct Fd {
    pub file: usize,
    pub pos: V,
    pub flags: u64,
}
#[derive(Clone, Default)]
pub struct Fs {
    pub files: Vec<FileEnt>,
    pub fds: Vec<Option<Fd>>,
    /// write faults: countdown of write calls until failure (symbolic budget handled by the harness)
    pub wfault: Option<(V, u64, u64)>,
}

fn c(v: u64) -> Res<Out> {
    Ok(Out::Val(V::C(v)))
}
fn neg1() -> Res<Out> {
    c(u64::MAX)
}
fn negi() -> Res<Out> {
    c(0xffff_ffff)
}
fn u(ex: &mut Ex, st: &mut State, v: &V) -> Res<u64> {
    match v {
        V::C(c) => Ok(*c),
        V::S(t) => {
            let w = tm().w(*t);
            ex.conc(st, v, w)
        }
        _ => Err(Stop::Fatal("argument".into())),
    }
}

pub fn pick_next(ex: &mut Ex, st: &mut State) -> Res<()> {
    // choose any runnable thread; all choices are explored
    let n = st.th.len();
    let mut r: Vec<usize> = vec![];
    for j in 0..n {
        if runnable(ex, st, j)? {
            r.push(j);
        }
    }
    if r.is_empty() {
        let d = st.th.iter().enumerate().map(|(i, t)| format!("thread {} {:?} in {}", i, t.wait, ex.m.funcs[t.top.f as usize].name)).collect::<Vec<_>>().join("; ");
        return Err(Stop::Viol("deadlock".into(), d));
    }
    for &j in &r[1..] {
        let mut s = st.clone();
        switch_to(&mut s, j);
        s.sched.push(-1 - j as i64);
        ex.pending.push(s);
    }
    switch_to(st, r[0]);
    st.sched.push(-1 - r[0] as i64);
    Ok(())
}
fn switch_to(st: &mut State, j: usize) {
    st.cur = j;
    st.th[j].wait = Wait::Run;
}
pub fn wake_all(_st: &mut State) {}

fn lock_state(ex: &mut Ex, st: &mut State, a: u64) -> Res<u64> {
    match ex.read(st, a, 8, 64)? {
        V::C(c) => Ok(c),
        _ => Err(Stop::Fatal("symbolic lock word".into())),
    }
}
const WRITER: u64 = 8;
const READERS: u64 = !15;
fn runnable(ex: &mut Ex, st: &mut State, j: usize) -> Res<bool> {
    Ok(match st.th[j].wait {
        Wait::Run => true,
        Wait::Done => false,
        Wait::Futex(_) => false,
        Wait::JoinOne(t) => st.th[t].wait == Wait::Done,
        Wait::Join => st.th.iter().enumerate().all(|(i, t)| i == j || t.wait == Wait::Done),
        Wait::Lock(a, m) => match m {
            LockMode::Mutex => match ex.read(st, a, 1, 8)? {
                V::C(c) => c & 1 == 0,
                _ => false,
            },
            LockMode::RwShared => lock_state(ex, st, a)? & WRITER == 0,
            LockMode::RwSharedRec => {
                let s = lock_state(ex, st, a)?;
                s & WRITER == 0 || s & READERS != 0
            }
            LockMode::RwExcl => {
                let s = lock_state(ex, st, a)?;
                if st.th[j].errno & LOCK_PHASE != 0 {
                    s & READERS == 0
                } else {
                    s & WRITER == 0
                }
            }
        },
    })
}
const LOCK_PHASE: u64 = 1 << 40;

/// Scheduling decision before an acquiring operation: go on, or let another thread run.
pub fn sched_point(ex: &mut Ex, st: &mut State) -> Res<()> {
    if st.sched_done {
        return Ok(());
    }
    st.sched_done = true;
    let cur = st.cur;
    if st.th[cur].errno & AT_POINT != 0 {
        // it stopped here, and goes on now
        st.th[cur].errno &= !AT_POINT;
        return Ok(());
    }
    st.sched_count += 1;
    if st.sched_left <= 0 {
        return Ok(());
    }
    for j in 0..st.th.len() {
        if j != cur && runnable(ex, st, j)? {
            let mut s = st.clone();
            s.sched_left -= 1;
            s.sched.push(s.sched_count << 8 | j as i64);
            s.sched_done = false;
            s.th[cur].errno |= AT_POINT;
            switch_to(&mut s, j);
            ex.pending.push(s);
        }
    }
    Ok(())
}
/// the thread was stopped before the acquiring operation it is at
const AT_POINT: u64 = 1 << 41;

fn rw_excl_slow(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = u(ex, st, &a[0])?;
    let s = lock_state(ex, st, p)?;
    let cur = st.cur;
    if st.th[cur].errno & LOCK_PHASE == 0 {
        if s & WRITER != 0 {
            st.th[cur].wait = Wait::Lock(p, LockMode::RwExcl);
            pick_next(ex, st)?;
            return Err(Stop::Switch);
        }
        ex.write(st, p, 8, &V::C(s | WRITER))?;
        st.th[cur].errno |= LOCK_PHASE;
    }
    let s = lock_state(ex, st, p)?;
    if s & READERS != 0 {
        st.th[cur].wait = Wait::Lock(p, LockMode::RwExcl);
        pick_next(ex, st)?;
        return Err(Stop::Switch);
    }
    st.th[cur].errno &= !LOCK_PHASE;
    c(1)
}
fn rw_shared_slow(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = u(ex, st, &a[0])?;
    let rec = u(ex, st, &a[1])?;
    let s = lock_state(ex, st, p)?;
    let cur = st.cur;
    let ok = s & WRITER == 0 || (rec != 0 && s & READERS != 0);
    if !ok {
        st.th[cur].wait = Wait::Lock(p, if rec != 0 { LockMode::RwSharedRec } else { LockMode::RwShared });
        pick_next(ex, st)?;
        return Err(Stop::Switch);
    }
    ex.write(st, p, 8, &V::C(s + 16))?;
    c(1)
}
fn mutex_slow(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = u(ex, st, &a[0])?;
    let s = match ex.read(st, p, 1, 8)? {
        V::C(c) => c,
        _ => return Err(Stop::Fatal("symbolic lock word".into())),
    };
    let cur = st.cur;
    if s & 1 != 0 {
        st.th[cur].wait = Wait::Lock(p, LockMode::Mutex);
        pick_next(ex, st)?;
        return Err(Stop::Switch);
    }
    ex.write(st, p, 1, &V::C(s | 1))?;
    c(1)
}
fn never(ex: &mut Ex, _st: &mut State, f: u32, _a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    Err(Stop::Fatal(format!("{} should be unreachable in this model", ex.m.funcs[f as usize].name)))
}

// ---------- memory ----------
fn alloc(ex: &mut Ex, st: &mut State, n: &V, align: u64) -> Res<u64> {
    let mut o;
    match n {
        V::C(n) => {
            if *n > (1 << 36) {
                return Ok(0);
            }
            if *n >= (1 << 32) {
                // cannot be addressed inside one object: the first 4 GiB are accessible
                o = Obj::new(Kind::Heap, (1 << 32) - 1);
            } else {
                o = Obj::new(Kind::Heap, *n);
            }
            st.heap_bytes += *n as i64;
        }
        V::S(t) => {
            let w = tm().w(*t);
            let lim = tm().cst(1 << 36, w);
            let big = tm().bin(B::Ult, lim, *t);
            if ex.decide(st, big)? {
                return Ok(0);
            }
            let lim = tm().cst(1 << 16, w);
            let big = tm().bin(B::Ult, lim, *t);
            if ex.decide(st, big)? {
                o = Obj::new(Kind::Heap, (1 << 32) - 1);
                o.ssize = Some(*t);
            } else {
                let ub = ex.upper(st, *t)?;
                o = Obj::new(Kind::Heap, ub);
                o.ssize = Some(*t);
            }
        }
        _ => return Err(Stop::Fatal("malloc".into())),
    }
    o.align = align;
    st.heap_live += 1;
    Ok(st.new_obj(o))
}
fn m_malloc(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = alloc(ex, st, &a[0], 16)?;
    c(p)
}
fn m_calloc(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let n = bin_v(BinOp::Mul, 64, &a[0], &a[1])?;
    let p = alloc(ex, st, &n, 16)?;
    c(p)
}
fn m_memalign(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = alloc(ex, st, &a[2], 16)?;
    let q = u(ex, st, &a[0])?;
    if p == 0 {
        return c(12);
    }
    ex.write(st, q, 8, &V::C(p))?;
    c(0)
}
fn m_aligned(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = alloc(ex, st, &a[1], 16)?;
    c(p)
}
pub fn free(_ex: &mut Ex, st: &mut State, p: u64) -> Res<()> {
    if p == 0 {
        return Ok(());
    }
    let id = (p >> 32).wrapping_sub(1);
    let ok = match st.obj(id) {
        Some(o) => o.kind == Kind::Heap && p & 0xffff_ffff == 0,
        None => false,
    };
    if !ok {
        return Err(Stop::Viol("memory-access".into(), format!("invalid or double free of {:#x}", p)));
    }
    st.drop_obj(p);
    st.heap_live -= 1;
    Ok(())
}
fn m_free(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = u(ex, st, &a[0])?;
    free(ex, st, p)?;
    c(0)
}
fn m_realloc(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = u(ex, st, &a[0])?;
    let n = u(ex, st, &a[1])?;
    if p == 0 {
        let q = alloc(ex, st, &a[1], 16)?;
        return c(q);
    }
    let id = (p >> 32).wrapping_sub(1);
    let (mut o, ok) = match st.obj(id) {
        Some(o) => ((**o).clone(), o.kind == Kind::Heap && p & 0xffff_ffff == 0),
        None => return Err(Stop::Viol("memory-access".into(), format!("realloc of invalid {:#x}", p))),
    };
    if !ok {
        return Err(Stop::Viol("memory-access".into(), format!("realloc of invalid {:#x}", p)));
    }
    if n > (1 << 36) {
        return c(0);
    }
    o.size = n.min((1 << 32) - 1);
    o.ssize = None;
    if o.data.len() > o.size as usize {
        o.data.truncate(o.size as usize);
    }
    if o.size <= 4096 {
        o.data.resize(o.size as usize, 0);
    }
    if o.sym.len() > o.data.len() {
        o.sym.truncate(o.data.len());
    }
    st.drop_obj(p);
    let q = st.new_obj(o);
    c(q)
}
fn m_memcpy(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    if let V::C(0) = a[2] {
        return Ok(Out::Val(a[0].clone()));
    }
    // a symbolic length must be known non-zero before addresses are looked at
    if let V::S(t) = a[2] {
        let z = tm().cst(0, 64);
        let e = tm().bin(B::Eq, t, z);
        if ex.decide(st, e)? {
            return Ok(Out::Val(a[0].clone()));
        }
    }
    let d = u(ex, st, &a[0])?;
    let s = u(ex, st, &a[1])?;
    ex.copy_v(st, d, s, &a[2])?;
    Ok(Out::Val(a[0].clone()))
}
fn m_memset(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let n = match &a[2] {
        V::C(n) => *n,
        v @ V::S(t) => {
            // zeroing a freshly created lazy object needs no enumeration
            if let (V::C(0), V::C(d)) = (&a[1], &a[0]) {
                let id = (d >> 32).wrapping_sub(1);
                if let Some(o) = st.obj(id) {
                    if o.data.iter().all(|b| *b == 0) && o.sym.iter().all(|s| s.0 == 0) && o.ssize == Some(*t) {
                        return Ok(Out::Val(a[0].clone()));
                    }
                }
            }
            ex.conc(st, v, 64)?
        }
        _ => return Err(Stop::Fatal("memset".into())),
    };
    if n == 0 {
        return Ok(Out::Val(a[0].clone()));
    }
    let d = u(ex, st, &a[0])?;
    ex.set_v(st, d, &a[1], n)?;
    Ok(Out::Val(a[0].clone()))
}
fn cmp_common(ex: &mut Ex, st: &mut State, a: &[V]) -> Res<Option<(Vec<By>, Vec<By>)>> {
    let n = u(ex, st, &a[2])?;
    if n == 0 {
        return Ok(None);
    }
    let x = u(ex, st, &a[0])?;
    let y = u(ex, st, &a[1])?;
    let p = ex.get_bytes(st, x, n)?;
    let q = ex.get_bytes(st, y, n)?;
    Ok(Some((p, q)))
}
fn m_bcmp(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let (p, q) = match cmp_common(ex, st, a)? {
        None => return c(0),
        Some(x) => x,
    };
    let mut acc = tm().cst(1, 1);
    for (x, y) in p.iter().zip(&q) {
        let e = tm().bin(B::Eq, Ex::byte_t(*x), Ex::byte_t(*y));
        acc = tm().bin(B::And, acc, e);
    }
    let ne = tm().not(acc);
    Ok(Out::Val(cv(tm().un(U::ZExt, ne, 32))))
}
fn m_memcmp(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let (p, q) = match cmp_common(ex, st, a)? {
        None => return c(0),
        Some(x) => x,
    };
    let mut acc = tm().cst(0, 32);
    for (x, y) in p.iter().zip(&q).rev() {
        let (x, y) = (Ex::byte_t(*x), Ex::byte_t(*y));
        let e = tm().bin(B::Eq, x, y);
        let l = tm().bin(B::Ult, x, y);
        let (m1, p1) = (tm().cst(u128::MAX, 32), tm().cst(1, 32));
        let d = tm().ite(l, m1, p1);
        acc = tm().ite(e, acc, d);
    }
    Ok(Out::Val(cv(acc)))
}
fn m_strlen(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = u(ex, st, &a[0])?;
    let s = ex.cstr(st, p)?;
    c(s.len() as u64)
}
fn m_memchr(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = u(ex, st, &a[0])?;
    let b = u(ex, st, &a[1])? & 0xff;
    let n = u(ex, st, &a[2])?;
    for k in 0..n {
        let x = ex.read(st, p + k, 1, 8)?;
        if ex.conc(st, &x, 8)? == b {
            return c(p + k);
        }
    }
    c(0)
}

// ---------- misc libc ----------
fn m_errno(ex: &mut Ex, st: &mut State, _f: u32, _a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = errno_addr(ex, st);
    c(p)
}
fn errno_addr(_ex: &mut Ex, st: &mut State) -> u64 {
    for (g, a) in &st.t().tls {
        if *g == u32::MAX {
            return *a;
        }
    }
    let p = st.new_obj(Obj::new(Kind::Tls, 8));
    st.t().tls.push((u32::MAX, p));
    p
}
fn set_errno(ex: &mut Ex, st: &mut State, e: u64) {
    let p = errno_addr(ex, st);
    let _ = ex.write(st, p, 4, &V::C(e));
}
fn m_tls(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let g = ((u(ex, st, &a[0])? >> 32) - 1) as u32;
    for (k, p) in &st.t().tls {
        if *k == g {
            let p = *p;
            return c(p);
        }
    }
    let gl = &ex.m.globals[g as usize];
    let mut o = Obj::new(Kind::Tls, gl.size);
    o.data = gl.init.clone();
    o.data.resize(gl.size as usize, 0);
    let p = st.new_obj(o);
    st.t().tls.push((g, p));
    c(p)
}
/// a number that is symbolic is left out of the text
fn m_numfmt(ex: &mut Ex, st: &mut State, f: u32, a: &[V], tys: &[TyId], _r: TyId) -> Res<Out> {
    let v = if let Ty::Int(_) = ex.m.types[tys[0] as usize].ty {
        a[0].clone()
    } else {
        let name = &ex.m.funcs[f as usize].name;
        let k = name.find("4core3fmt3num").unwrap() + 13;
        let k = name[k..].strip_prefix("3imp").unwrap_or(&name[k..]);
        let n = match k.as_bytes()[0] {
            b'a' | b'h' => 1,
            b's' | b't' => 2,
            b'l' | b'm' => 4,
            b'x' | b'y' | b'i' | b'j' => 8,
            _ => return Ok(Out::Enter),
        };
        let p = ex.paddr(st, &a[0])?;
        ex.read(st, p, n, n * 8)?
    };
    Ok(match v {
        V::S(_) => Out::Val(V::C(0)),
        _ => Out::Enter,
    })
}
/// a byte that is hashed is split by value: nothing is to be gained by solving for hashes
fn m_hash(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = ex.paddr(st, &a[0])?;
    let id = (p >> 32).wrapping_sub(1);
    let mut vars: Vec<T> = vec![];
    if let Some(o) = st.obj(id) {
        let off = (p & 0xffff_ffff) as usize;
        for i in off..(off + 128).min(o.size as usize) {
            if o.has_sym(i, 1) {
                let (t, _) = o.sym_at(i);
                let (x, _) = tm().sup[t as usize];
                if x != 0 && x != T::MAX && tm().w(x) <= 8 && !vars.contains(&x) {
                    vars.push(x);
                }
            }
        }
    }
    for x in vars {
        ex.split(st, x)?;
    }
    Ok(Out::Enter)
}
fn m_zero(_ex: &mut Ex, _st: &mut State, _f: u32, _a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    c(0)
}
fn m_one(_ex: &mut Ex, _st: &mut State, _f: u32, _a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    c(1)
}
fn m_arg0(_ex: &mut Ex, _st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    Ok(Out::Val(a[0].clone()))
}
fn m_zero_agg(ex: &mut Ex, _st: &mut State, _f: u32, _a: &[V], _t: &[TyId], r: TyId) -> Res<Out> {
    Ok(Out::Val(zero_of(ex.m, r)))
}
fn m_sysconf(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    match u(ex, st, &a[0])? as u32 {
        30 => c(4096),
        84 | 83 => c(1),
        60 => c(1024),
        69 | 70 => neg1(),
        _ => neg1(),
    }
}
fn m_affinity(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = u(ex, st, &a[2])?;
    ex.write(st, p, 8, &V::C(1))?;
    c(0)
}
fn m_clock(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = u(ex, st, &a[1])?;
    st.clock += 1000;
    let k = st.clock;
    ex.write(st, p, 8, &V::C(k / 1_000_000_000))?;
    ex.write(st, p + 8, 8, &V::C(k % 1_000_000_000))?;
    c(0)
}
fn rnd_bytes(ex: &mut Ex, st: &mut State, p: u64, n: u64) -> Res<()> {
    for k in 0..n {
        st.rnd ^= st.rnd << 13;
        st.rnd ^= st.rnd >> 7;
        st.rnd ^= st.rnd << 17;
        let b = st.rnd & 0xff;
        ex.write(st, p + k, 1, &V::C(b))?;
    }
    Ok(())
}
fn m_getrandom(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = u(ex, st, &a[0])?;
    let n = u(ex, st, &a[1])?;
    rnd_bytes(ex, st, p, n)?;
    c(n)
}
fn m_syscall(ex: &mut Ex, st: &mut State, f: u32, a: &[V], t: &[TyId], r: TyId) -> Res<Out> {
    let n = u(ex, st, &a[0])?;
    match n {
        318 => m_getrandom(ex, st, f, &a[1..], t, r),
        202 => {
            // futex
            let p = u(ex, st, &a[1])?;
            let op = u(ex, st, &a[2])? & 0x7f;
            match op {
                0 | 9 => {
                    let v = u(ex, st, &a[3])? & 0xffff_ffff;
                    let x = ex.read(st, p, 4, 32)?;
                    if u(ex, st, &x)? != v {
                        set_errno(ex, st, 11);
                        return neg1();
                    }
                    let cur = st.cur;
                    st.th[cur].wait = Wait::Futex(p);
                    Ok(Out::Switched(V::C(0)))
                }
                1 | 10 => {
                    let cnt = u(ex, st, &a[3])? & 0x7fff_ffff;
                    let mut k = 0;
                    for th in st.th.iter_mut() {
                        if k < cnt && th.wait == Wait::Futex(p) {
                            th.wait = Wait::Run;
                            k += 1;
                        }
                    }
                    c(k)
                }
                _ => Err(Stop::Fatal(format!("futex op {}", op))),
            }
        }
        186 => c(1 + st.cur as u64),
        332 => m_statx(ex, st, f, &a[1..], t, r),
        _ => Err(Stop::Fatal(format!("syscall {}", n))),
    }
}
fn m_exit(_ex: &mut Ex, st: &mut State, _f: u32, _a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    if st.allow_panic & 2 != 0 {
        return Err(Stop::Cut("exit".into()));
    }
    Err(Stop::Viol("exit".into(), "the library terminates the process (exit)".into()))
}
fn m_abort(_ex: &mut Ex, st: &mut State, _f: u32, _a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    if st.allow_panic & 1 != 0 {
        return Err(Stop::Cut("abort".into()));
    }
    Err(Stop::Viol("abort".into(), "the process aborts".into()))
}
fn m_panic_fmt(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let mut where_ = String::new();
    if let V::C(l) = a[a.len() - 1] {
        let p = ex.read(st, l, 8, 64)?;
        let n = ex.read(st, l + 8, 8, 64)?;
        let line = ex.read(st, l + 16, 4, 32)?;
        if let (V::C(p), V::C(n), V::C(line)) = (p, n, line) {
            if n < 500 {
                let b = ex.bytes_c(st, p, n)?;
                // std strings may carry a trailing NUL
                where_ = format!("{}:{}", String::from_utf8_lossy(&b).trim_end_matches('\0'), line);
            }
        }
    }
    if st.allow_panic & 1 != 0 {
        return Err(Stop::Cut(format!("panic at {}", where_)));
    }
    // a library-level frame gives a stable location
    Err(Stop::Viol("panic".into(), format!("panic at {}", where_)))
}
fn m_alloc_error(_ex: &mut Ex, st: &mut State, _f: u32, _a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    if st.allow_panic & 1 != 0 {
        return Err(Stop::Cut("allocation failure".into()));
    }
    Err(Stop::Viol("abort".into(), "allocation failure aborts the process".into()))
}
fn m_pthread_self(_ex: &mut Ex, st: &mut State, _f: u32, _a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    c(0x7000 + st.cur as u64 * 16)
}
fn m_key_create(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = u(ex, st, &a[0])?;
    st.clock += 1;
    let k = 1 + st.clock % 1000;
    ex.write(st, p, 4, &V::C(k))?;
    c(0)
}
fn m_enosys(ex: &mut Ex, st: &mut State, _f: u32, _a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    set_errno(ex, st, 38);
    neg1()
}

// ---------- floating point ----------
fn f1(ex: &mut Ex, a: &V, w: u8, un: Option<U>, f: fn(f64) -> f64) -> Res<Out> {
    let _ = ex;
    match a {
        V::C(x) => {
            let r = if w == 32 { (f(f32::from_bits(*x as u32) as f64) as f32).to_bits() as u64 } else { f(f64::from_bits(*x)).to_bits() };
            c(r)
        }
        V::S(t) => match un {
            Some(u) => Ok(Out::Val(cv(tm().un(u, *t, w)))),
            None => Err(Stop::Fatal("symbolic transcendental function".into())),
        },
        _ => Err(Stop::Fatal("float vector function".into())),
    }
}
fn m_log(ex: &mut Ex, _st: &mut State, f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    if let Some(&g) = ex.m.fidx.get("log") {
        if g != f && ex.m.funcs[g as usize].defined {
            return Ok(Out::EnterOther(g, a.to_vec()));
        }
    }
    f1(ex, &a[0], 64, None, f64::ln)
}
fn sx_log(ex: &mut Ex, _st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    f1(ex, &a[0], 64, None, f64::ln)
}
fn m_exp(ex: &mut Ex, _st: &mut State, f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    if let Some(&g) = ex.m.fidx.get("exp") {
        if g != f && ex.m.funcs[g as usize].defined {
            return Ok(Out::EnterOther(g, a.to_vec()));
        }
    }
    f1(ex, &a[0], 64, None, f64::exp)
}
/// the C library's, which the native code calls as well
fn m_log32(_ex: &mut Ex, _st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    match &a[0] {
        V::C(x) => c(f32::from_bits(*x as u32).ln().to_bits() as u64),
        _ => Err(Stop::Fatal("symbolic transcendental function".into())),
    }
}
fn m_exp32(_ex: &mut Ex, _st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    match &a[0] {
        V::C(x) => c(f32::from_bits(*x as u32).exp().to_bits() as u64),
        _ => Err(Stop::Fatal("symbolic transcendental function".into())),
    }
}
fn m_sqrt64(ex: &mut Ex, _s: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    f1(ex, &a[0], 64, Some(U::FSqrt), f64::sqrt)
}
fn m_sqrt32(_ex: &mut Ex, _s: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    match &a[0] {
        V::C(x) => c(f32::from_bits(*x as u32).sqrt().to_bits() as u64),
        V::S(t) => Ok(Out::Val(cv(tm().un(U::FSqrt, *t, 32)))),
        _ => Err(Stop::Fatal("sqrt".into())),
    }
}
fn m_floor64(ex: &mut Ex, _s: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    f1(ex, &a[0], 64, Some(U::FFloor), f64::floor)
}
fn m_ceil64(ex: &mut Ex, _s: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    f1(ex, &a[0], 64, Some(U::FCeil), f64::ceil)
}
fn m_trunc64(ex: &mut Ex, _s: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    f1(ex, &a[0], 64, Some(U::FTrunc), f64::trunc)
}
fn m_round64(ex: &mut Ex, _s: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    f1(ex, &a[0], 64, Some(U::FRound), f64::round)
}
fn m_fabs(ex: &mut Ex, _s: &mut State, f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let w = if ex.m.funcs[f as usize].name.ends_with("f32") { 32 } else { 64 };
    let k = V::C((1u64 << (w - 1)) - 1);
    Ok(Out::Val(bin_v(BinOp::And, w, &a[0], &k)?))
}
fn m_copysign(ex: &mut Ex, _s: &mut State, f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let w = if ex.m.funcs[f as usize].name.ends_with("f32") { 32 } else { 64 };
    let k = (1u64 << (w - 1)) - 1;
    let x = bin_v(BinOp::And, w, &a[0], &V::C(k))?;
    let y = bin_v(BinOp::And, w, &a[1], &V::C(1u64 << (w - 1)))?;
    Ok(Out::Val(bin_v(BinOp::Or, w, &x, &y)?))
}
/// the number if the other is a NaN; of two zeros, the positive one is the greater
fn m_fminmax(ex: &mut Ex, _s: &mut State, f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let n = &ex.m.funcs[f as usize].name;
    let w: u8 = if n.ends_with("f32") { 32 } else { 64 };
    let max = n.contains("max");
    let (x, y) = (vt(&a[0], w), vt(&a[1], w));
    let (nx, ny) = (fcmp_term(8, x, x, w), fcmp_term(8, y, y, w));
    let gt = if max { fcmp_term(2, x, y, w) } else { fcmp_term(4, x, y, w) };
    let same = fcmp_term(1, x, y, w);
    let k = tm();
    let z = k.bin(if max { B::And } else { B::Or }, x, y);
    let r = k.ite(gt, x, y);
    let r = k.ite(same, z, r);
    let r = k.ite(ny, x, r);
    let r = k.ite(nx, y, r);
    Ok(Out::Val(cv(r)))
}
fn m_fptoui_sat(ex: &mut Ex, _s: &mut State, f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let n = &ex.m.funcs[f as usize].name;
    let signed = n.contains("fptosi");
    let p: Vec<&str> = n.split('.').collect();
    let wo: u8 = p[3][1..].parse().unwrap();
    let wi: u8 = p[4][1..].parse().unwrap();
    match &a[0] {
        V::C(x) => c((eval_un(if signed { U::FToSSat } else { U::FToUSat }, *x as u128, wi, wo)) as u64),
        V::S(t) => {
            // result = nan? 0 : x<=lo ? min : x>=hi ? max : convert
            let k = tm();
            let t = *t;
            let (hi_f, lo_f, maxv, minv) = if signed {
                (2f64.powi(wo as i32 - 1), -(2f64.powi(wo as i32 - 1)), mask(wo) >> 1, 1u128 << (wo - 1))
            } else {
                (2f64.powi(wo as i32), 0.0, mask(wo), 0)
            };
            let enc = |v: f64| if wi == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 };
            let hi = k.cst(enc(hi_f), wi);
            let lo = k.cst(enc(lo_f), wi);
            let conv = k.un(if signed { U::FToSSat } else { U::FToUSat }, t, wo);
            let ge = fcmp_term(3, t, hi, wi);
            let le = fcmp_term(if signed { 4 } else { 5 }, t, lo, wi);
            let nan = fcmp_term(8, t, t, wi);
            let k = tm();
            let (mx, mn, z) = (k.cst(maxv, wo), k.cst(minv, wo), k.cst(0, wo));
            let r = k.ite(ge, mx, conv);
            let r = k.ite(le, mn, r);
            let r = k.ite(nan, z, r);
            Ok(Out::Val(cv(r)))
        }
        _ => Err(Stop::Fatal("fptoui.sat".into())),
    }
}
fn m_fma(_ex: &mut Ex, _s: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    match (&a[0], &a[1], &a[2]) {
        (V::C(x), V::C(y), V::C(z)) => c((f64::from_bits(*x).mul_add(f64::from_bits(*y), f64::from_bits(*z))).to_bits()),
        _ => Err(Stop::Fatal("symbolic fma".into())),
    }
}

// ---------- integer intrinsics ----------
fn iw(name: &str) -> u8 {
    let p = name.rsplit('.').next().unwrap();
    let p = if let Some(k) = p.find('i') { &p[k + 1..] } else { "64" };
    p.parse().unwrap_or(64)
}
fn per_lane2(ex: &mut Ex, f: u32, a: &[V], g: impl Fn(u8, &V, &V) -> Res<V>) -> Res<Out> {
    let n = &ex.m.funcs[f as usize].name;
    let w = iw(n);
    if n.rsplit('.').next().unwrap().starts_with('v') {
        Ok(Out::Val(lane2(&a[0], &a[1], |x, y| g(w, x, y))?))
    } else {
        Ok(Out::Val(g(w, &a[0], &a[1])?))
    }
}
fn minmax(p: IP) -> impl Fn(u8, &V, &V) -> Res<V> {
    move |w, x, y| {
        Ok(match icmp_v(p, w, x, y) {
            V::C(0) => y.clone(),
            V::C(_) => x.clone(),
            V::S(t) => cv(tm().ite(t, vt(x, w), vt(y, w))),
            _ => V::C(0),
        })
    }
}
fn m_umax(ex: &mut Ex, _s: &mut State, f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    per_lane2(ex, f, a, minmax(IP::Ugt))
}
fn m_umin(ex: &mut Ex, _s: &mut State, f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    per_lane2(ex, f, a, minmax(IP::Ult))
}
fn m_smax(ex: &mut Ex, _s: &mut State, f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    per_lane2(ex, f, a, minmax(IP::Sgt))
}
fn m_smin(ex: &mut Ex, _s: &mut State, f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    per_lane2(ex, f, a, minmax(IP::Slt))
}
fn pair(x: V, o: V) -> Res<Out> {
    Ok(Out::Val(V::B(Rc::new(Big::A(vec![x, o])))))
}
fn m_ovf(ex: &mut Ex, _s: &mut State, f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let n = &ex.m.funcs[f as usize].name;
    let w = iw(n);
    let op = n.split('.').nth(1).unwrap();
    let (o, signed) = match op {
        "uadd" => (BinOp::Add, false),
        "usub" => (BinOp::Sub, false),
        "umul" => (BinOp::Mul, false),
        "sadd" => (BinOp::Add, true),
        "ssub" => (BinOp::Sub, true),
        _ => (BinOp::Mul, true),
    };
    let r = bin_v(o, w, &a[0], &a[1])?;
    // exact value in double width
    let k = if signed { Cast::SExt } else { Cast::ZExt };
    if let (V::C(x), V::C(y), V::C(rc)) = (&a[0], &a[1], &r) {
        let (x, y, rr) = if signed {
            (sext(*x as u128, w), sext(*y as u128, w), sext(*rc as u128, w))
        } else {
            (*x as i128, *y as i128, *rc as i128)
        };
        let full = match o {
            BinOp::Add => x + y,
            BinOp::Sub => x - y,
            _ => match x.checked_mul(y) {
                Some(v) => v,
                None => return pair(r, V::C(1)),
            },
        };
        return pair(r.clone(), V::C((full != rr) as u64));
    }
    if w > 64 {
        return Err(Stop::Fatal("wide overflow intrinsic".into()));
    }
    let ov = match (o, signed) {
        (BinOp::Add, false) => icmp_v(IP::Ult, w, &r, &a[0]),
        (BinOp::Sub, false) => icmp_v(IP::Ult, w, &a[0], &a[1]),
        _ => {
            // multiplication by a power-of-two or small constant: compare with max/const
            if let (BinOp::Mul, false, V::C(kc)) = (o, signed, &a[1]) {
                if *kc == 0 {
                    return pair(r, V::C(0));
                }
                let lim = (mask(w) as u64) / kc;
                icmp_v(IP::Ugt, w, &a[0], &V::C(lim))
            } else {
                let w2 = w * 2;
                let x = cast_v(k, w, w2, &a[0])?;
                let y = cast_v(k, w, w2, &a[1])?;
                let full = bin_v(o, w2, &x, &y)?;
                let rb = cast_v(k, w, w2, &r)?;
                icmp_v(IP::Ne, w2, &full, &rb)
            }
        }
    };
    pair(r, ov)
}
fn m_sat(ex: &mut Ex, _s: &mut State, f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let n = ex.m.funcs[f as usize].name.clone();
    let add = n.contains("uadd");
    per_lane2(ex, f, a, move |w, x, y| {
        let (r, ov, k) = if add {
            let r = bin_v(BinOp::Add, w, x, y)?;
            let o = icmp_v(IP::Ult, w, &r, x);
            (r, o, mask(w))
        } else {
            (bin_v(BinOp::Sub, w, x, y)?, icmp_v(IP::Ult, w, x, y), 0)
        };
        Ok(match ov {
            V::C(0) => r,
            V::C(_) => V::C(k as u64),
            V::S(t) => {
                let kk = tm().cst(k, w);
                cv(tm().ite(t, kk, vt(&r, w)))
            }
            _ => V::C(0),
        })
    })
}
fn m_cmp3(ex: &mut Ex, _s: &mut State, f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let n = &ex.m.funcs[f as usize].name;
    let w = iw(n);
    let rw: u8 = n.split('.').nth(2).unwrap()[1..].parse().unwrap();
    let lt = icmp_v(if n.contains("ucmp") { IP::Ult } else { IP::Slt }, w, &a[0], &a[1]);
    let gt = icmp_v(if n.contains("ucmp") { IP::Ugt } else { IP::Sgt }, w, &a[0], &a[1]);
    let k = tm();
    let (m1, p1, z) = (k.cst(u128::MAX, rw), k.cst(1, rw), k.cst(0, rw));
    let g = k.ite(vt(&gt, 1), p1, z);
    Ok(Out::Val(cv(k.ite(vt(&lt, 1), m1, g))))
}
fn m_bits(ex: &mut Ex, _s: &mut State, f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let n = &ex.m.funcs[f as usize].name;
    let w = iw(n);
    let op = n.split('.').nth(1).unwrap();
    match &a[0] {
        V::C(x) => {
            let x = *x;
            let r = match op {
                "ctpop" => x.count_ones() as u64,
                "ctlz" => (x.leading_zeros() as u64) - (64 - w as u64),
                "cttz" => (x.trailing_zeros() as u64).min(w as u64),
                "bswap" => x.swap_bytes() >> (64 - w),
                "bitreverse" => x.reverse_bits() >> (64 - w),
                _ => (sext(x as u128, w).unsigned_abs() as u64) & mask(w) as u64,
            };
            c(r)
        }
        V::S(t) => {
            let k = tm();
            let t = *t;
            match op {
                "ctlz" | "cttz" => {
                    let mut r = k.cst(w as u128, w);
                    for j in 0..w {
                        // last written wins: iterate so that the decisive bit is outermost
                        let i = if op == "ctlz" { j } else { w - 1 - j };
                        let b = k.extract(t, i, 1);
                        let v = k.cst(if op == "ctlz" { (w - 1 - i) as u128 } else { i as u128 }, w);
                        r = k.ite(b, v, r);
                    }
                    Ok(Out::Val(cv(r)))
                }
                "ctpop" => {
                    let mut r = k.cst(0, w);
                    for i in 0..w {
                        let b = k.extract(t, i, 1);
                        let z = k.un(U::ZExt, b, w);
                        r = k.bin(B::Add, r, z);
                    }
                    Ok(Out::Val(cv(r)))
                }
                "bswap" => {
                    let mut r = k.extract(t, 0, 8);
                    for i in 1..w / 8 {
                        let b = k.extract(t, i * 8, 8);
                        r = k.concat(r, b);
                    }
                    Ok(Out::Val(cv(r)))
                }
                "abs" => {
                    let s = k.extract(t, w - 1, 1);
                    let z = k.cst(0, w);
                    let n = k.bin(B::Sub, z, t);
                    Ok(Out::Val(cv(k.ite(s, n, t))))
                }
                _ => Err(Stop::Fatal(format!("symbolic {}", op))),
            }
        }
        _ => Err(Stop::Fatal("bit intrinsic".into())),
    }
}
fn m_fsh(ex: &mut Ex, _s: &mut State, f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let n = &ex.m.funcs[f as usize].name;
    let w = iw(n);
    let left = n.contains("fshl");
    let one = |x: &V, y: &V, s: &V| -> Res<V> {
        let s = match s {
            V::C(s) => (*s % w as u64) as u8,
            _ => return Err(Stop::Fatal("symbolic funnel shift".into())),
        };
        if s == 0 {
            return Ok(if left { x.clone() } else { y.clone() });
        }
        let l = if left { s } else { w - s };
        let h = bin_v(BinOp::Shl, w, x, &V::C(l as u64))?;
        let g = bin_v(BinOp::LShr, w, y, &V::C((w - l) as u64))?;
        bin_v(BinOp::Or, w, &h, &g)
    };
    if n.rsplit('.').next().unwrap().starts_with('v') {
        let (x, y, s) = (elems(&a[0])?, elems(&a[1])?, elems(&a[2])?);
        let mut v = vec![];
        for i in 0..x.len() {
            v.push(one(&x[i], &y[i], &s[i])?);
        }
        return Ok(Out::Val(V::B(Rc::new(Big::A(v)))));
    }
    Ok(Out::Val(one(&a[0], &a[1], &a[2])?))
}
fn m_reduce(ex: &mut Ex, _s: &mut State, f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let n = &ex.m.funcs[f as usize].name;
    let w = iw(n);
    let op = match n.split('.').nth(3).unwrap() {
        "add" => BinOp::Add,
        "or" => BinOp::Or,
        "and" => BinOp::And,
        "xor" => BinOp::Xor,
        _ => return Err(Stop::Fatal(n.clone())),
    };
    let e = elems(&a[0])?;
    let mut r = e[0].clone();
    for x in &e[1..] {
        r = bin_v(op, w, &r, x)?;
    }
    Ok(Out::Val(r))
}

// ---------- file system ----------
fn norm(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            x => out.push(x),
        }
    }
    if p.starts_with('/') {
        format!("/{}", out.join("/"))
    } else {
        // the current directory is the one of the dumps
        format!("/sx/d/{}", out.join("/")).trim_end_matches('/').into()
    }
}
impl Fs {
    pub fn find(&self, p: &str) -> Option<usize> {
        let p = norm(p);
        self.files.iter().position(|f| f.path == p)
    }
}
fn path_arg(ex: &mut Ex, st: &mut State, v: &V) -> Res<String> {
    let p = u(ex, st, v)?;
    Ok(String::from_utf8_lossy(&ex.cstr(st, p)?).into_owned())
}
fn is_dir(p: &str) -> bool {
    let p = norm(p);
    p == "/" || p == "/sx" || p == "/sx/" || p == "/sx/d" || p == "/sx/d/sub" || p == "/tmp"
}
fn m_open(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = path_arg(ex, st, &a[0])?;
    let flags = u(ex, st, &a[1])?;
    // fault injection: data or graph files cannot be opened for writing
    if let Some((_, _, k)) = st.fs.wfault {
        if flags & 3 != 0 && (k == 6 && p.ends_with(".data") || k == 7 && p.ends_with(".graph")) {
            set_errno(ex, st, 13);
            return negi();
        }
    }
    let fs = Rc::make_mut(&mut st.fs);
    let idx = match fs.find(&p) {
        Some(i) => {
            if flags & 0xc0 == 0xc0 {
                set_errno(ex, st, 17);
                return negi();
            }
            i
        }
        None => {
            let np = norm(&p);
            let parent = np.rfind('/').map(|k| np[..k.max(1)].to_string()).unwrap_or_default();
            if flags & 0x40 == 0 || !is_dir(&parent) {
                set_errno(ex, st, 2);
                return negi();
            }
            fs.files.push(FileEnt { path: np, dir: false, data: Rc::new(FData { bytes: vec![], len: V::C(0) }) });
            fs.files.len() - 1
        }
    };
    if flags & 0x200 != 0 {
        fs.files[idx].data = Rc::new(FData { bytes: vec![], len: V::C(0) });
    }
    let fd = Fd { file: idx, pos: V::C(0), flags };
    let k = match fs.fds.iter().position(|f| f.is_none()) {
        Some(k) => {
            fs.fds[k] = Some(fd);
            k
        }
        None => {
            fs.fds.push(Some(fd));
            fs.fds.len() - 1
        }
    };
    c(k as u64 + 3)
}
fn getfd(st: &mut State, fd: u64) -> Option<&mut Fd> {
    let fs = Rc::make_mut(&mut st.fs);
    fs.fds.get_mut((fd as u32 as u64).wrapping_sub(3) as usize).and_then(|x| x.as_mut())
}
fn m_close(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let fd = u(ex, st, &a[0])? as u32 as u64;
    let fs = Rc::make_mut(&mut st.fs);
    if let Some(x) = fs.fds.get_mut(fd.wrapping_sub(3) as usize) {
        *x = None;
    }
    c(0)
}
/// min(n, len - pos) at the file position
fn avail(ex: &mut Ex, st: &mut State, fd: u64, n: u64) -> Res<Option<(Rc<FData>, u64, V)>> {
    let (file, pos) = match getfd(st, fd) {
        Some(f) => (f.file, f.pos.clone()),
        None => return Ok(None),
    };
    let data = st.fs.files[file].data.clone();
    match (&pos, &data.len) {
        (V::C(p), V::C(l)) => {
            let k = l.saturating_sub(*p).min(n);
            Ok(Some((data.clone(), *p, V::C(k))))
        }
        _ => {
            // symbolic length or position
            let end = icmp_v(IP::Uge, 64, &pos, &data.len);
            if ex.decide(st, vt(&end, 1))? {
                return Ok(Some((data.clone(), 0, V::C(0))));
            }
            let p = ex.conc(st, &pos, 64)?;
            let rem = bin_v(BinOp::Sub, 64, &data.len, &V::C(p))?;
            let ge = icmp_v(IP::Uge, 64, &rem, &V::C(n));
            let k = if ex.decide(st, vt(&ge, 1))? { V::C(n) } else { rem };
            Ok(Some((data.clone(), p, k)))
        }
    }
}
fn do_read(ex: &mut Ex, st: &mut State, fd: u64, buf: u64, n: u64) -> Res<Option<V>> {
    let (data, p, k) = match avail(ex, st, fd, n)? {
        Some(x) => x,
        None => return Ok(None),
    };
    if let V::C(0) = k {
        return Ok(Some(k));
    }
    let kmax = match &k {
        V::C(k) => *k,
        _ => (data.bytes.len() as u64 - p).min(n),
    };
    let slice: Vec<By> = data.bytes[p as usize..(p + kmax) as usize].to_vec();
    ex.put_bytes(st, buf, &slice)?;
    let np = bin_v(BinOp::Add, 64, &V::C(p), &k)?;
    getfd(st, fd).unwrap().pos = np;
    Ok(Some(k))
}
fn m_read(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let fd = u(ex, st, &a[0])?;
    let n = u(ex, st, &a[2])?;
    let b = u(ex, st, &a[1])?;
    match do_read(ex, st, fd, b, n)? {
        Some(v) => Ok(Out::Val(v)),
        None => {
            set_errno(ex, st, 9);
            neg1()
        }
    }
}
fn m_readv(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    // a short vectored read is legal: fill the first non-empty buffer only
    let fd = u(ex, st, &a[0])?;
    let iov = u(ex, st, &a[1])?;
    let cnt = u(ex, st, &a[2])?;
    for i in 0..cnt {
        let b = ex.read(st, iov + 16 * i, 8, 64)?;
        let n = ex.read(st, iov + 16 * i + 8, 8, 64)?;
        let (b, n) = (u(ex, st, &b)?, u(ex, st, &n)?);
        if n > 0 {
            return match do_read(ex, st, fd, b, n)? {
                Some(v) => Ok(Out::Val(v)),
                None => neg1(),
            };
        }
    }
    c(0)
}
fn do_write(ex: &mut Ex, st: &mut State, fd: u64, buf: u64, n: u64) -> Res<Option<u64>> {
    if fd as u32 == 1 || fd as u32 == 2 {
        return Ok(Some(n));
    }
    let (file, pos, flags) = match getfd(st, fd) {
        Some(f) => (f.file, f.pos.clone(), f.flags),
        None => return Ok(None),
    };
    if flags & 3 == 0 {
        return Ok(None);
    }
    // fault injection: number of bytes that may still be written; kinds: 1 all files, 2 data files, 3 graph files,
    // 4 one short write, 5 one failing write
    let mut n = n;
    let path = &st.fs.files[file].path;
    let wf = match &st.fs.wfault {
        Some((_, _, 2)) if !path.ends_with(".data") => None,
        Some((_, _, 3)) if !path.ends_with(".graph") => None,
        Some((_, _, 6 | 7)) => None,
        w => w.clone(),
    };
    if let Some((budget, used, kind)) = wf {
        let rem = bin_v(BinOp::Sub, 64, &budget, &V::C(used))?;
        let full = icmp_v(IP::Uge, 64, &rem, &V::C(n));
        if !ex.decide(st, vt(&full, 1))? {
            n = ex.conc(st, &rem, 64)?;
            if kind > 3 {
                Rc::make_mut(&mut st.fs).wfault = None;
            }
            if n == 0 || kind == 5 {
                set_errno(ex, st, 28);
                return Ok(None);
            }
        }
        if let Some(w) = &mut Rc::make_mut(&mut st.fs).wfault {
            w.1 += n;
        }
    }
    let bytes = ex.get_bytes(st, buf, n)?;
    let fs = Rc::make_mut(&mut st.fs);
    let d = Rc::make_mut(&mut fs.files[file].data);
    let len = match d.len {
        V::C(l) => l,
        _ => return Err(Stop::Fatal("write to a file of symbolic length".into())),
    };
    let p = if flags & 0x400 != 0 {
        len
    } else {
        match pos {
            V::C(p) => p,
            _ => return Err(Stop::Fatal("write position".into())),
        }
    } as usize;
    if d.bytes.len() < p + bytes.len() {
        d.bytes.resize(p + bytes.len(), By::C(0));
    }
    d.bytes[p..p + bytes.len()].copy_from_slice(&bytes);
    d.len = V::C(d.bytes.len() as u64);
    getfd(st, fd).unwrap().pos = V::C((p + bytes.len()) as u64);
    Ok(Some(n))
}
fn m_write(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let fd = u(ex, st, &a[0])?;
    let b = u(ex, st, &a[1])?;
    let n = u(ex, st, &a[2])?;
    match do_write(ex, st, fd, b, n)? {
        Some(k) => c(k),
        None => neg1(),
    }
}
fn m_writev(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let fd = u(ex, st, &a[0])?;
    let iov = u(ex, st, &a[1])?;
    let cnt = u(ex, st, &a[2])?;
    for i in 0..cnt {
        let b = ex.read(st, iov + 16 * i, 8, 64)?;
        let n = ex.read(st, iov + 16 * i + 8, 8, 64)?;
        let (b, n) = (u(ex, st, &b)?, u(ex, st, &n)?);
        if n > 0 {
            return match do_write(ex, st, fd, b, n)? {
                Some(v) => c(v),
                None => neg1(),
            };
        }
    }
    c(0)
}
fn m_lseek(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let fd = u(ex, st, &a[0])?;
    let off = a[1].clone();
    let wh = u(ex, st, &a[2])?;
    let (file, pos) = match getfd(st, fd) {
        Some(f) => (f.file, f.pos.clone()),
        None => return neg1(),
    };
    let base = match wh {
        0 => V::C(0),
        1 => pos,
        _ => st.fs.files[file].data.len.clone(),
    };
    let np = bin_v(BinOp::Add, 64, &base, &off)?;
    let neg = icmp_v(IP::Slt, 64, &np, &V::C(0));
    if ex.decide(st, vt(&neg, 1))? {
        set_errno(ex, st, 22);
        return neg1();
    }
    getfd(st, fd).unwrap().pos = np.clone();
    Ok(Out::Val(np))
}
fn put_stat(ex: &mut Ex, st: &mut State, buf: u64, dir: bool, len: &V, ino: u64) -> Res<()> {
    for k in 0..18 {
        ex.write(st, buf + 8 * k, 8, &V::C(0))?;
    }
    ex.write(st, buf, 8, &V::C(1))?;
    ex.write(st, buf + 8, 8, &V::C(ino + 100))?;
    ex.write(st, buf + 16, 8, &V::C(1))?;
    ex.write(st, buf + 24, 4, &V::C(if dir { 0o40755 } else { 0o100644 }))?;
    ex.write(st, buf + 48, 8, len)?;
    ex.write(st, buf + 56, 8, &V::C(4096))?;
    Ok(())
}
fn m_stat(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = path_arg(ex, st, &a[0])?;
    let b = u(ex, st, &a[1])?;
    if is_dir(&p) {
        put_stat(ex, st, b, true, &V::C(4096), 0)?;
        return c(0);
    }
    match st.fs.find(&p) {
        Some(i) => {
            let l = st.fs.files[i].data.len.clone();
            put_stat(ex, st, b, false, &l, i as u64 + 1)?;
            c(0)
        }
        None => {
            set_errno(ex, st, 2);
            negi()
        }
    }
}
fn m_fstat(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let fd = u(ex, st, &a[0])?;
    let b = u(ex, st, &a[1])?;
    match getfd(st, fd).map(|f| f.file) {
        Some(i) => {
            let l = st.fs.files[i].data.len.clone();
            put_stat(ex, st, b, false, &l, i as u64 + 1)?;
            c(0)
        }
        None => {
            set_errno(ex, st, 9);
            negi()
        }
    }
}
fn m_statx(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let fd = u(ex, st, &a[0])? as u32;
    let p = if let V::C(0) = a[1] { String::new() } else { path_arg(ex, st, &a[1])? };
    let b = u(ex, st, &a[4])?;
    let i;
    let mut dir = false;
    if p.is_empty() {
        i = getfd(st, fd as u64).map(|f| f.file);
    } else if is_dir(&p) {
        i = Some(0);
        dir = true;
    } else {
        i = st.fs.find(&p);
    }
    match i {
        None => {
            set_errno(ex, st, 2);
            negi()
        }
        Some(i) => {
            for k in 0..32 {
                ex.write(st, b + 8 * k, 8, &V::C(0))?;
            }
            let l = if dir { V::C(4096) } else { st.fs.files[i].data.len.clone() };
            ex.write(st, b, 4, &V::C(0xfff))?;
            ex.write(st, b + 4, 4, &V::C(4096))?;
            ex.write(st, b + 16, 4, &V::C(1))?;
            ex.write(st, b + 28, 2, &V::C(if dir { 0o40755 } else { 0o100644 }))?;
            ex.write(st, b + 32, 8, &V::C(i as u64 + 101))?;
            ex.write(st, b + 40, 8, &l)?;
            c(0)
        }
    }
}
fn m_realpath(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = path_arg(ex, st, &a[0])?;
    if !is_dir(&p) && st.fs.find(&p).is_none() {
        set_errno(ex, st, 2);
        return c(0);
    }
    let mut n = norm(&p).into_bytes();
    n.push(0);
    let q = match &a[1] {
        V::C(0) => alloc(ex, st, &V::C(n.len() as u64), 1)?,
        v => u(ex, st, v)?,
    };
    let by: Vec<By> = n.iter().map(|b| By::C(*b)).collect();
    ex.put_bytes(st, q, &by)?;
    c(q)
}
fn m_getcwd(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let q = u(ex, st, &a[0])?;
    let by: Vec<By> = b"/sx\0".iter().map(|b| By::C(*b)).collect();
    ex.put_bytes(st, q, &by)?;
    c(q)
}
fn m_unlink(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = path_arg(ex, st, &a[0])?;
    match st.fs.find(&p) {
        Some(i) => {
            Rc::make_mut(&mut st.fs).files[i].path = String::new();
            c(0)
        }
        None => {
            set_errno(ex, st, 2);
            negi()
        }
    }
}
fn m_rename(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = path_arg(ex, st, &a[0])?;
    let q = path_arg(ex, st, &a[1])?;
    match st.fs.find(&p) {
        Some(i) => {
            let fs = Rc::make_mut(&mut st.fs);
            if let Some(j) = fs.find(&q) {
                fs.files[j].path = String::new();
            }
            fs.files[i].path = norm(&q);
            c(0)
        }
        None => {
            set_errno(ex, st, 2);
            negi()
        }
    }
}
fn m_ftruncate(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let fd = u(ex, st, &a[0])?;
    match getfd(st, fd).map(|f| f.file) {
        Some(i) => {
            set_len(ex, st, i, a[1].clone())?;
            c(0)
        }
        None => negi(),
    }
}
fn set_len(ex: &mut Ex, st: &mut State, i: usize, len: V) -> Res<()> {
    let cur = st.fs.files[i].data.bytes.len() as u64;
    match &len {
        V::C(n) => {
            let d = Rc::make_mut(&mut Rc::make_mut(&mut st.fs).files[i].data);
            d.bytes.resize(*n as usize, By::C(0));
            d.len = len;
        }
        V::S(t) => {
            let t = *t;
            if ex.upper(st, t)? > cur {
                return Err(Stop::Fatal("symbolic extension of a file".into()));
            }
            let d = Rc::make_mut(&mut Rc::make_mut(&mut st.fs).files[i].data);
            d.len = len;
        }
        _ => {}
    }
    Ok(())
}
fn m_mmap(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let len = a[1].clone();
    let flags = u(ex, st, &a[3])?;
    let fd = u(ex, st, &a[4])?;
    let off = u(ex, st, &a[5])?;
    let z = icmp_v(IP::Eq, 64, &len, &V::C(0));
    if ex.decide(st, vt(&z, 1))? {
        set_errno(ex, st, 22);
        return neg1();
    }
    let mut o;
    if flags & 0x20 != 0 {
        let n = u(ex, st, &len)?;
        o = Obj::new(Kind::Map, n);
    } else {
        let i = match getfd(st, fd) {
            Some(f) => f.file,
            None => {
                set_errno(ex, st, 9);
                return neg1();
            }
        };
        let d = st.fs.files[i].data.clone();
        let n = match &len {
            V::C(n) => *n,
            V::S(t) => ex.upper(st, *t)?,
            _ => 0,
        };
        // bytes past the end of the file but inside the last page read as zero; beyond it SIGBUS
        let fl = d.bytes.len() as u64;
        o = Obj::new(Kind::Map, n.min(((fl + 4095) / 4096 * 4096).saturating_sub(off)));
        if let V::S(t) = len {
            o.ssize = Some(t);
        }
        if let V::S(_) = d.len {
            if !matches!(len, V::S(_)) {
                return Err(Stop::Fatal("mapping of a file with symbolic length".into()));
            }
        }
        let m = (d.bytes.len() as u64).saturating_sub(off).min(n) as usize;
        for k in 0..m {
            match d.bytes[off as usize + k] {
                By::C(b) => o.set_c(k, &[b]),
                By::S(t, i) => o.set_s(k, (t, i)),
            }
        }
    }
    let p = st.new_obj(o);
    c(p)
}
fn m_munmap(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = u(ex, st, &a[0])?;
    let id = (p >> 32).wrapping_sub(1);
    if let Some(o) = st.obj(id) {
        if o.kind == Kind::Map && p & 0xffff_ffff == 0 {
            st.drop_obj(p);
            return c(0);
        }
    }
    Err(Stop::Viol("memory-access".into(), format!("munmap of {:#x}", p)))
}

// ---------- harness API ----------
fn sname(ex: &mut Ex, st: &mut State, v: &V) -> Res<Rc<str>> {
    Ok(path_arg(ex, st, v)?.into())
}
fn sx_sym(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    // (name, width) -> u64
    let n = sname(ex, st, &a[0])?;
    let w = u(ex, st, &a[1])? as u8;
    let t = ex.new_var(st, w, mask(w), &n);
    st.inputs.push(Input::S(n, t));
    Ok(Out::Val(cv(if w < 64 { tm().un(U::ZExt, t, 64) } else { t })))
}
fn sx_range(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    // (name, lo, hi) -> u64 in [lo,hi]
    let n = sname(ex, st, &a[0])?;
    let lo = u(ex, st, &a[1])?;
    let hi = u(ex, st, &a[2])?;
    let d = hi - lo;
    let w = (64 - d.leading_zeros()).max(1) as u8;
    let t = ex.new_var(st, w, d as u128, &n);
    let z = if w < 64 { tm().un(U::ZExt, t, 64) } else { t };
    let k = tm().cst(lo as u128, 64);
    let r = tm().bin(B::Add, z, k);
    st.inputs.push(Input::S(n, r));
    Ok(Out::Val(cv(r)))
}
fn sx_conc(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let v = u(ex, st, &a[0])?;
    c(v)
}
fn cond_t(v: &V) -> T {
    match v {
        V::S(t) => {
            let w = tm().w(*t);
            let z = tm().cst(0, w);
            let e = tm().bin(B::Eq, *t, z);
            tm().not(e)
        }
        V::C(c) => tm().cst((*c != 0) as u128, 1),
        _ => tm().cst(0, 1),
    }
}
fn sx_assume(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let t = cond_t(&a[0]);
    match ex.possible(st, t)? {
        None => Err(Stop::Cut("assume".into())),
        Some(m) => {
            if tm().as_c(t).is_none() {
                st.model = m;
                let id = ex.pcid();
                st.push_pc(id, t);
            }
            c(0)
        }
    }
}
fn sx_assert(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let t = cond_t(&a[0]);
    ex.stats.asserts_checked += 1;
    if let Some(k) = tm().as_c(t) {
        ex.stats.asserts_concrete += 1;
        if k == 0 {
            let l = path_arg(ex, st, &a[1])?;
            return Err(Stop::Viol(l, "assertion is false on this path".into()));
        }
        return c(0);
    }
    let nt = tm().not(t);
    match ex.possible(st, nt)? {
        None => {
            ex.stats.asserts_proved += 1;
            c(0)
        }
        Some(m) => {
            let l = path_arg(ex, st, &a[1])?;
            ex.report(st, l, "assertion can be false".into(), &m);
            match ex.possible(st, t)? {
                None => Err(Stop::Cut("violated".into())),
                Some(m2) => {
                    st.model = m2;
                    let id = ex.pcid();
                    st.push_pc(id, t);
                    c(0)
                }
            }
        }
    }
}
fn sx_cover(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let l = sname(ex, st, &a[0])?;
    if !st.covers.iter().any(|x| **x == *l) {
        st.covers.push(l);
    }
    c(0)
}
fn sx_observe(_ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    st.observed.push(a[0].clone());
    c(0)
}
fn sx_allow(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    st.allow_panic = u(ex, st, &a[0])? as u32;
    c(0)
}
fn sx_end(_ex: &mut Ex, _st: &mut State, _f: u32, _a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    Err(Stop::End)
}
fn sx_heap(_ex: &mut Ex, st: &mut State, _f: u32, _a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    c(st.heap_live as u64)
}
fn sx_ite(_ex: &mut Ex, _st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let t = cond_t(&a[0]);
    Ok(Out::Val(cv(tm().ite(t, vt(&a[1], 64), vt(&a[2], 64)))))
}
fn sx_and(_ex: &mut Ex, _st: &mut State, f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let (x, y) = (cond_t(&a[0]), cond_t(&a[1]));
    let o = if _ex.m.funcs[f as usize].name == "sx_and" { B::And } else { B::Or };
    let r = tm().bin(o, x, y);
    Ok(Out::Val(cv(tm().un(U::ZExt, r, 32))))
}
fn sx_cmp(_ex: &mut Ex, _st: &mut State, f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = match _ex.m.funcs[f as usize].name.as_str() {
        "sx_eq" => IP::Eq,
        "sx_ne" => IP::Ne,
        "sx_ult" => IP::Ult,
        _ => IP::Ule,
    };
    let r = icmp_v(p, 64, &a[0], &a[1]);
    Ok(Out::Val(cv(tm().un(U::ZExt, vt(&r, 1), 32))))
}
fn sx_fcmp(_ex: &mut Ex, _st: &mut State, f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = if _ex.m.funcs[f as usize].name == "sx_flt" { 4 } else { 5 };
    let r = fcmp_term(p, vt(&a[0], 32), vt(&a[1], 32), 32);
    Ok(Out::Val(cv(tm().un(U::ZExt, r, 32))))
}
fn sx_param(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let l = path_arg(ex, st, &a[0])?;
    let d = u(ex, st, &a[1])?;
    c(ex.params.get(&l).copied().unwrap_or(d))
}
fn sx_fsize(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = path_arg(ex, st, &a[0])?;
    match st.fs.find(&p) {
        Some(i) => Ok(Out::Val(st.fs.files[i].data.len.clone())),
        None => neg1(),
    }
}
fn sx_fget(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = path_arg(ex, st, &a[0])?;
    let o = u(ex, st, &a[1])? as usize;
    match st.fs.find(&p) {
        Some(i) if o < st.fs.files[i].data.bytes.len() => {
            let b = Ex::byte_t(st.fs.files[i].data.bytes[o]);
            Ok(Out::Val(cv(tm().un(U::ZExt, b, 64))))
        }
        _ => neg1(),
    }
}
fn sx_fset(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = path_arg(ex, st, &a[0])?;
    let o = u(ex, st, &a[1])? as usize;
    let i = match st.fs.find(&p) {
        Some(i) => i,
        None => return Err(Stop::Fatal("sx_fset: no file".into())),
    };
    let d = Rc::make_mut(&mut Rc::make_mut(&mut st.fs).files[i].data);
    d.bytes[o] = match &a[2] {
        V::C(c) => By::C(*c as u8),
        V::S(t) => {
            let e = tm().extract(*t, 0, 8);
            match tm().as_c(e) {
                Some(c) => By::C(c as u8),
                None => By::S(e, 0),
            }
        }
        _ => return Err(Stop::Fatal("sx_fset".into())),
    };
    c(0)
}
fn sx_flen(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = path_arg(ex, st, &a[0])?;
    match st.fs.find(&p) {
        Some(i) => {
            set_len(ex, st, i, a[1].clone())?;
            c(0)
        }
        None => Err(Stop::Fatal("sx_ftruncate: no file".into())),
    }
}
fn sx_fremove(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let p = path_arg(ex, st, &a[0])?;
    if let Some(i) = st.fs.find(&p) {
        Rc::make_mut(&mut st.fs).files[i].path = String::new();
    }
    c(0)
}
fn sx_fcount(_ex: &mut Ex, st: &mut State, _f: u32, _a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    c(st.fs.files.iter().filter(|f| f.path.starts_with("/sx/d/")).count() as u64)
}
fn sx_wbudget(_ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    // (on, bytes)
    let fs = Rc::make_mut(&mut st.fs);
    fs.wfault = match a[0] {
        V::C(0) => None,
        V::C(k) => Some((a[1].clone(), 0, k)),
        _ => return Err(Stop::Fatal("kind of write fault".into())),
    };
    c(0)
}
fn sx_fds(_ex: &mut Ex, st: &mut State, _f: u32, _a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    c(st.fs.fds.iter().filter(|f| f.is_some()).count() as u64)
}
fn sx_maps(_ex: &mut Ex, st: &mut State, _f: u32, _a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let mut n = 0;
    for ch in &st.mem {
        for o in ch.0.iter().flatten() {
            if o.kind == Kind::Map {
                n += 1;
            }
        }
    }
    c(n)
}
fn sx_spawn(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let f = u(ex, st, &a[0])?;
    let i = (f - FN_BASE) / 16;
    if st.th.len() >= 6 {
        return Err(Stop::Fatal("too many threads".into()));
    }
    ex.fcount[i as usize] += 1;
    let t = ex.mk_thread(i as u32, vec![a[1].clone()]);
    st.th.push(t);
    c(st.th.len() as u64 - 1)
}
fn sx_wait(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let t = u(ex, st, &a[0])? as usize;
    if st.th[t].wait == Wait::Done {
        return c(0);
    }
    let cur = st.cur;
    st.th[cur].wait = Wait::JoinOne(t);
    pick_next(ex, st)?;
    Err(Stop::Switch)
}
fn sx_join(ex: &mut Ex, st: &mut State, _f: u32, _a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let cur = st.cur;
    if st.th.iter().enumerate().all(|(i, t)| i == cur || t.wait == Wait::Done) {
        return c(0);
    }
    st.th[cur].wait = Wait::Join;
    pick_next(ex, st)?;
    Err(Stop::Switch)
}
fn sx_sched(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    let n = u(ex, st, &a[0])? as u32 as i32;
    st.sched_on = n >= 0;
    st.sched_left = n.max(0);
    c(0)
}
fn sx_is_sym(_ex: &mut Ex, _st: &mut State, _f: u32, _a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    c(1)
}
fn sx_trace(ex: &mut Ex, st: &mut State, _f: u32, a: &[V], _t: &[TyId], _r: TyId) -> Res<Out> {
    if ex.verbose {
        let l = path_arg(ex, st, &a[0])?;
        let v = eval_v(&a[1], &st.model.clone());
        eprintln!("trace {} = {} {:?}", l, v, if let V::S(_) = a[1] { "symbolic" } else { "" });
    }
    c(0)
}

pub fn resolve(m: &Module) -> Vec<Option<Model>> {
    m.funcs.iter().map(|f| lookup(&f.name, f.defined)).collect()
}
fn lookup(n: &str, defined: bool) -> Option<Model> {
    if let Some(r) = n.strip_prefix("llvm.") {
        let k: Model = if r.starts_with("memcpy") || r.starts_with("memmove") {
            m_memcpy
        } else if r.starts_with("memset") {
            m_memset
        } else if r.starts_with("threadlocal") {
            m_tls
        } else if r.starts_with("umax") {
            m_umax
        } else if r.starts_with("umin") {
            m_umin
        } else if r.starts_with("smax") {
            m_smax
        } else if r.starts_with("smin") {
            m_smin
        } else if r.contains("with.overflow") {
            m_ovf
        } else if r.starts_with("usub.sat") || r.starts_with("uadd.sat") {
            m_sat
        } else if r.starts_with("ucmp") || r.starts_with("scmp") {
            m_cmp3
        } else if ["ctpop", "ctlz", "cttz", "bswap", "bitreverse", "abs."].iter().any(|p| r.starts_with(p)) {
            m_bits
        } else if r.starts_with("fsh") {
            m_fsh
        } else if r.starts_with("vector.reduce") {
            m_reduce
        } else if r.starts_with("fptoui.sat") || r.starts_with("fptosi.sat") {
            m_fptoui_sat
        } else if r.starts_with("fabs") {
            m_fabs
        } else if r.starts_with("maximumnum") || r.starts_with("maxnum") || r.starts_with("minimumnum") || r.starts_with("minnum") {
            m_fminmax
        } else if r.starts_with("copysign") {
            m_copysign
        } else if r == "log.f64" {
            m_log
        } else if r == "exp.f64" {
            m_exp
        } else if r == "log.f32" {
            m_log32
        } else if r == "exp.f32" {
            m_exp32
        } else if r == "sqrt.f64" {
            m_sqrt64
        } else if r == "sqrt.f32" {
            m_sqrt32
        } else if r == "floor.f64" {
            m_floor64
        } else if r == "ceil.f64" {
            m_ceil64
        } else if r == "trunc.f64" {
            m_trunc64
        } else if r == "round.f64" {
            m_round64
        } else if r.starts_with("fma.f64") || r.starts_with("fmuladd.f64") {
            m_fma
        } else if r.starts_with("expect") {
            m_arg0
        } else if r == "trap" || r == "debugtrap" {
            m_abort
        } else if r.starts_with("x86.xgetbv") {
            m_zero
        } else {
            // lifetime, assume, noalias scopes, pause, vzeroupper, is.constant, prefetch
            if ["lifetime", "assume", "experimental.noalias", "x86.sse2.pause", "x86.avx.vzeroupper", "is.constant", "prefetch", "dbg", "va_"]
                .iter()
                .any(|p| r.starts_with(p))
            {
                m_zero_agg
            } else {
                return None;
            }
        };
        return Some(k);
    }
    if n.starts_with("sx_") {
        let k: Option<Model> = match n {
            "sx_sym" => Some(sx_sym),
            "sx_range" => Some(sx_range),
            "sx_conc" => Some(sx_conc),
            "sx_assume" => Some(sx_assume),
            "sx_assert_" => Some(sx_assert),
            "sx_cover_" => Some(sx_cover),
            "sx_observe" => Some(sx_observe),
            "sx_allow" => Some(sx_allow),
            "sx_end" => Some(sx_end),
            "sx_heap_live" => Some(sx_heap),
            "sx_ite" => Some(sx_ite),
            "sx_and" | "sx_or" => Some(sx_and),
            "sx_eq" | "sx_ne" | "sx_ult" | "sx_ule" => Some(sx_cmp),
            "sx_flt" | "sx_fle" => Some(sx_fcmp),
            "sx_param" => Some(sx_param),
            "sx_fsize" => Some(sx_fsize),
            "sx_fget" => Some(sx_fget),
            "sx_fset" => Some(sx_fset),
            "sx_ftruncate" => Some(sx_flen),
            "sx_fremove" => Some(sx_fremove),
            "sx_fcount" => Some(sx_fcount),
            "sx_wbudget" => Some(sx_wbudget),
            "sx_open_fds" => Some(sx_fds),
            "sx_open_maps" => Some(sx_maps),
            "sx_spawn" => Some(sx_spawn),
            "sx_join" => Some(sx_join),
            "sx_wait" => Some(sx_wait),
            "sx_sched" => Some(sx_sched),
            "sx_is_sym" => Some(sx_is_sym),
            "sx_trace_" => Some(sx_trace),
            "sx_log" => Some(sx_log),
            _ => None,
        };
        if k.is_some() && !defined {
            return k;
        }
    }
    if n.starts_with("_R") || n.starts_with("_ZN") {
        if n.ends_with("4core9panicking9panic_fmt") || n.contains("9panicking18panic_nounwind_fmt") {
            return Some(m_panic_fmt);
        }
        if n.contains("rust_panic_with_hook") || n.contains("9panicking14begin_panic") {
            return Some(m_abort);
        }
        // formatting of integers, as in messages
        if let Some(i) = n.find("4core3fmt3num") {
            if ["7Display3fmt", "5Debug3fmt", "8LowerHex3fmt", "8UpperHex3fmt"].iter().any(|k| n[i..].contains(k)) {
                return Some(m_numfmt);
            }
        }
        if n.contains("DefaultHasherNt") && n.contains("6Hasher6finish") || n.contains("7AHasherNt") && n.contains("6Hasher6finish") {
            return Some(m_hash);
        }
        if n.contains("18handle_alloc_error") {
            return Some(m_alloc_error);
        }
        if n.ends_with("5stdio6__print") || n.ends_with("5stdio7__eprint") || n.ends_with("5stdio6_print") || n.ends_with("5stdio7_eprint") {
            return Some(m_zero);
        }
        if n.contains("11parking_lot") {
            if n.contains("19lock_exclusive_slow") {
                return Some(rw_excl_slow);
            }
            if n.contains("16lock_shared_slow") {
                return Some(rw_shared_slow);
            }
            if n.contains("raw_mutex") && n.contains("9lock_slow") {
                return Some(mutex_slow);
            }
            if n.contains("unlock_shared_slow") || n.contains("unlock_exclusive_slow") || n.contains("11unlock_slow") {
                return Some(never);
            }
        }
        if n.contains("std_detect") && n.contains("detect_and_initialize") {
            return None;
        }
        return None;
    }
    let k: Model = match n {
        "malloc" => m_malloc,
        "calloc" => m_calloc,
        "realloc" => m_realloc,
        "free" => m_free,
        "posix_memalign" => m_memalign,
        "aligned_alloc" => m_aligned,
        "memcpy" | "memmove" => m_memcpy,
        "memset" => m_memset,
        "memcmp" => m_memcmp,
        "bcmp" => m_bcmp,
        "strlen" => m_strlen,
        "memchr" => m_memchr,
        "__errno_location" => m_errno,
        "open" | "open64" => m_open,
        "close" => m_close,
        "read" => m_read,
        "write" => m_write,
        "readv" => m_readv,
        "writev" => m_writev,
        "lseek" | "lseek64" => m_lseek,
        "stat" | "stat64" | "lstat64" => m_stat,
        "fstat" | "fstat64" => m_fstat,
        "statx" => m_statx,
        "realpath" => m_realpath,
        "getcwd" => m_getcwd,
        "unlink" => m_unlink,
        "rename" => m_rename,
        "ftruncate" | "ftruncate64" => m_ftruncate,
        "mmap" | "mmap64" => m_mmap,
        "munmap" => m_munmap,
        "madvise" | "mprotect" | "fsync" | "fdatasync" | "sigaltstack" | "sigaction" | "signal" | "pthread_setspecific" | "pthread_key_delete"
        | "pthread_attr_init" | "pthread_attr_destroy" | "pthread_atfork" | "sched_yield" | "pthread_setname_np" | "pthread_mutex_lock"
        | "pthread_mutex_unlock" | "getenv" | "dlsym" | "__cxa_thread_atexit_impl" | "pthread_getattr_np" | "poll" | "_Unwind_Backtrace"
        | "getauxval" | "fcntl" | "pthread_getspecific" | "fchmod" | "flock" => m_zero,
        "readlink" | "getxattr" | "copy_file_range" => m_enosys,
        "sysconf" => m_sysconf,
        "sched_getaffinity" => m_affinity,
        "clock_gettime" => m_clock,
        "getrandom" => m_getrandom,
        "syscall" => m_syscall,
        "exit" | "_exit" => m_exit,
        "abort" => m_abort,
        "pthread_self" => m_pthread_self,
        "pthread_key_create" => m_key_create,
        "gettid" | "getpid" => m_one,
        "log" if !defined => m_log,
        "exp" if !defined => m_exp,
        "floor" if !defined => m_floor64,
        _ => return None,
    };
    Some(k)
}
