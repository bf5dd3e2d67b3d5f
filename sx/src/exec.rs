//! Symbolic interpreter: states, memory, instruction semantics.
use crate::ir::*;
use crate::models::Fs;
use crate::term::*;
use crate::z3::*;
use std::rc::Rc;

pub const STK: u64 = 1 << 27; // object-id base of thread stacks
pub const STK_SHIFT: u64 = 14;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Global,
    Const,
    Heap,
    Stack,
    Tls,
    Map,
}

#[derive(Clone)]
pub struct Obj {
    pub kind: Kind,
    pub size: u64,
    /// symbolic size (upper bound in `size`)
    pub ssize: Option<T>,
    /// the symbolic size is known to be at least this
    pub slo: u64,
    pub align: u64,
    pub data: Vec<u8>,
    pub sym: Vec<(T, u8)>,
}
impl Obj {
    pub fn new(kind: Kind, size: u64) -> Obj {
        let n = if size <= 4096 { size as usize } else { 0 };
        Obj { kind, size, ssize: None, slo: 0, align: 16, data: vec![0; n], sym: vec![] }
    }
    #[inline]
    fn grow(&mut self, end: usize) {
        if self.data.len() < end {
            let n = (end * 2).min(self.size as usize).max(end);
            self.data.resize(n, 0);
        }
    }
    #[inline]
    pub fn set_c(&mut self, off: usize, b: &[u8]) {
        self.grow(off + b.len());
        self.data[off..off + b.len()].copy_from_slice(b);
        if !self.sym.is_empty() {
            let e = (off + b.len()).min(self.sym.len());
            for k in off..e {
                self.sym[k] = (0, 0);
            }
        }
    }
    pub fn set_s(&mut self, off: usize, b: (T, u8)) {
        self.grow(off + 1);
        if self.sym.len() <= off {
            let n = self.data.len();
            self.sym.resize(n.max(off + 1), (0, 0));
        }
        self.sym[off] = b;
    }
    #[inline]
    pub fn sym_at(&self, off: usize) -> (T, u8) {
        if off < self.sym.len() {
            self.sym[off]
        } else {
            (0, 0)
        }
    }
    #[inline]
    pub fn has_sym(&self, off: usize, n: usize) -> bool {
        if self.sym.is_empty() {
            return false;
        }
        let e = (off + n).min(self.sym.len());
        let b = off.min(e);
        self.sym[b..e].iter().any(|x| x.0 != 0)
    }
    pub fn byte(&self, off: usize) -> u8 {
        if off < self.data.len() {
            self.data[off]
        } else {
            0
        }
    }
}

/// A byte: concrete or (term, index)
#[derive(Clone, Copy)]
pub enum By {
    C(u8),
    S(T, u8),
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub sp: u32,
    pub ret_d: R,
    pub ret_edge: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wait {
    Run,
    Done,
    /// waiting for a futex word at address
    Futex(u64),
    /// waiting to take a parking_lot lock: (address, mode)
    Lock(u64, LockMode),
    Join,
    /// waiting for one thread to end
    JoinOne(usize),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum LockMode {
    RwExcl,
    RwShared,
    RwSharedRec,
    Mutex,
}

#[derive(Clone)]
pub struct Thread {
    pub top: Frame,
    pub rest: Vec<Rc<Frame>>,
    pub stk: Vec<Rc<Obj>>,
    pub tls: Vec<(u32, u64)>,
    pub wait: Wait,
    pub errno: u64,
}

#[derive(Clone)]
pub struct Chunk(pub Vec<Option<Rc<Obj>>>);

#[derive(Clone)]
pub enum Input {
    /// name, term
    S(Rc<str>, T),
}

#[derive(Clone)]
pub struct State {
    pub th: Vec<Thread>,
    pub cur: usize,
    pub mem: Vec<Rc<Chunk>>,
    pub nobj: u64,
    pub heap_live: i64,
    pub heap_bytes: i64,
    pub pc: Vec<(u64, T)>,
    pub known: FxMap<T, bool>,
    /// unsigned order facts of the path: (a, b, strict) for a <= b or a < b
    pub ord: Rc<Vec<(T, T, bool)>>,
    pub neq: Rc<Vec<(T, T)>>,
    pub nvar: u32,
    pub model: Vec<u128>,
    pub inputs: Vec<Input>,
    pub observed: Vec<V>,
    pub sched: Vec<i64>,
    pub sched_left: i32,
    /// schedule points passed
    pub sched_count: i64,
    pub sched_on: bool,
    /// decision already taken at this schedule point
    pub sched_done: bool,
    pub fs: Rc<Fs>,
    pub covers: Vec<Rc<str>>,
    pub steps: u64,
    pub allow_panic: u32,
    pub clock: u64,
    pub rnd: u64,
    pub depth_forks: u32,
    pub panicking: Option<Rc<str>>,
}

#[derive(Clone, Debug)]
pub enum Stop {
    /// path finished normally
    End,
    /// path ended by an accepted panic/exit or an infeasible assumption
    Cut(String),
    /// violation of a property: label and detail
    Viol(String, String),
    /// something the engine cannot handle: the whole run is inconclusive
    Fatal(String),
    /// path stopped because of configured limits
    Limit(String),
    /// put off: the path goes on later
    Later,
    /// instruction must be re-executed after a thread switch
    Switch,
}
pub type Res<X> = Result<X, Stop>;

pub struct Violation {
    pub label: String,
    pub detail: String,
    pub inputs: Vec<(String, u128)>,
    pub sched: Vec<i64>,
    pub stack: Vec<String>,
    pub observed: Vec<u128>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub ended: u64,
    pub cut: FxMap<String, u64>,
    pub forks: u64,
    pub steps: u64,
    pub asserts_checked: u64,
    pub asserts_concrete: u64,
    pub asserts_proved: u64,
    /// branch conditions implied by transitivity of the path's order facts
    pub ord_decided: u64,
    pub covers: FxMap<String, u64>,
    pub limits: u64,
    pub schedules: u64,
}

pub struct Trace {
    pub inputs: Vec<(String, u128)>,
    pub observed: Vec<u128>,
    pub sched: Vec<i64>,
}

pub struct Ex {
    pub vars: FxMap<(u32, u8, u128), T>,
    pub m: &'static Module,
    pub solver: Solver,
    pub pending: Vec<State>,
    pub no_ssize: bool,
    pub stats: Stats,
    pub viol: Vec<Violation>,
    pub fcount: Vec<u64>,
    pub ext: Vec<Option<crate::models::Model>>,
    pub next_pc: u64,
    pub traces: Vec<Trace>,
    pub trace_every: u64,
    pub max_traces: usize,
    pub step_limit: u64,
    pub verbose: bool,
    pub max_viol_per_label: usize,
    pub viol_count: FxMap<String, u64>,
    pub deadline: Option<std::time::Instant>,
    /// when to put a long path off
    pub soft: Option<std::time::Instant>,
    pub later: Vec<State>,
    pub params: FxMap<String, u64>,
}

#[inline]
pub fn cv(t: T) -> V {
    if let Op::Const(c) = tm().nodes[t as usize].op {
        let w = tm().nodes[t as usize].w;
        if w <= 64 {
            V::C(c as u64)
        } else {
            V::B(Rc::new(Big::W(c)))
        }
    } else {
        V::S(t)
    }
}
pub fn vt(v: &V, w: u8) -> T {
    match v {
        V::C(c) => tm().cst(*c as u128, w),
        V::S(t) => *t,
        V::B(b) => match &**b {
            Big::W(x) => tm().cst(*x, w),
            Big::A(_) => {
                eprintln!("aggregate used as scalar");
                std::process::exit(3)
            }
        },
    }
}
#[inline]
fn m64(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
fn sx64(v: u64, w: u8) -> i64 {
    let s = 64 - w as u32;
    ((v << s) as i64) >> s
}

/// strip a sign flip: returns the term whose negation this is
fn fneg_of(t: T, w: u8) -> Option<T> {
    let s = 1u128 << (w - 1);
    match tm().op(t) {
        Op::Const(c) => Some(tm().cst(c ^ s, w)),
        Op::Bin(B::Xor, a, k) if tm().as_c(k) == Some(s) => Some(a),
        Op::Un(U::Not, _) => None,
        _ => None,
    }
}
fn is_fneg(t: T, w: u8) -> bool {
    matches!(tm().op(t), Op::Bin(B::Xor, _, k) if tm().as_c(k) == Some(1u128 << (w - 1)))
}
/// (is_nan, less, equal) of two IEEE numbers given as bit-vectors
fn fcmp_parts(a: T, b: T, w: u8) -> (T, T, T) {
    let t = tm();
    if (is_fneg(a, w) || is_fneg(b, w)) && fneg_of(a, w).is_some() && fneg_of(b, w).is_some() {
        let (x, y) = (fneg_of(a, w).unwrap(), fneg_of(b, w).unwrap());
        return fcmp_parts(y, x, w);
    }
    let inf = if w == 32 { 0x7f80_0000u128 } else { 0x7ff0_0000_0000_0000u128 };
    let sbit = 1u128 << (w - 1);
    let infc = t.cst(inf, w);
    let absm = t.cst(sbit - 1, w);
    let nan1 = |x: T| {
        let t = tm();
        let ax = if t.ub(x) < sbit { x } else { t.bin(B::And, x, absm) };
        t.bin(B::Ult, infc, ax)
    };
    let na = nan1(a);
    let nb = nan1(b);
    let nan = t.bin(B::Or, na, nb);
    if t.ub(a) < sbit && t.ub(b) < sbit {
        let lt = t.bin(B::Ult, a, b);
        let eq = t.bin(B::Eq, a, b);
        return (nan, lt, eq);
    }
    let key = |x: T| {
        // monotone map to unsigned order; -0 mapped onto +0
        let t = tm();
        let s = t.extract(x, w - 1, 1);
        let z = t.cst(0, w);
        let nx = t.bin(B::Sub, z, x); // sbit+m -> sbit - m ; -0 -> sbit
        let sb = t.cst(sbit, w);
        let px = t.bin(B::Add, x, sb); // m -> sbit + m
        t.ite(s, nx, px)
    };
    let (ka, kb) = (key(a), key(b));
    let lt = t.bin(B::Ult, ka, kb);
    let eq = t.bin(B::Eq, ka, kb);
    (nan, lt, eq)
}

pub fn fcmp_term(p: u8, a: T, b: T, w: u8) -> T {
    if let (Some(x), Some(y)) = (tm().as_c(a), tm().as_c(b)) {
        let r = if w == 32 {
            fcmp_c(p, f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
        } else {
            fcmp_c(p, f64::from_bits(x as u64), f64::from_bits(y as u64))
        };
        return tm().cst(r as u128, 1);
    }
    let (nan, lt, eq) = fcmp_parts(a, b, w);
    let t = tm();
    let base = match p & 7 {
        0 => t.cst(0, 1),
        1 => eq,
        2 => {
            let le = t.bin(B::Or, lt, eq);
            // a>b  <=> !(a<=b) for non-nan
            t.not(le)
        }
        3 => t.not(lt),
        4 => lt,
        5 => {
            // a<=b <=> !(b<a)
            let (_, gt, _) = fcmp_parts(b, a, w);
            tm().not(gt)
        }
        6 => t.not(eq),
        _ => t.cst(1, 1),
    };
    let base = if p & 7 == 2 {
        let (_, gt, _) = fcmp_parts(b, a, w);
        gt
    } else {
        base
    };
    let t = tm();
    if p < 8 {
        // ordered
        let nn = t.not(nan);
        t.bin(B::And, base, nn)
    } else {
        // uno=8 -> base 0 | nan
        t.bin(B::Or, base, nan)
    }
}
fn fcmp_c(p: u8, a: f64, b: f64) -> bool {
    let nan = a.is_nan() || b.is_nan();
    let base = match p & 7 {
        0 => false,
        1 => a == b,
        2 => a > b,
        3 => a >= b,
        4 => a < b,
        5 => a <= b,
        6 => a != b,
        _ => true,
    };
    if p < 8 {
        base && !nan
    } else {
        base || nan
    }
}

impl State {
    #[inline]
    pub fn obj(&self, id: u64) -> Option<&Rc<Obj>> {
        if id < STK {
            let c = self.mem.get((id >> 6) as usize)?;
            c.0[(id & 63) as usize].as_ref()
        } else {
            let k = id - STK;
            let th = self.th.get((k >> STK_SHIFT) as usize)?;
            th.stk.get((k & ((1 << STK_SHIFT) - 1)) as usize)
        }
    }
    #[inline]
    pub fn obj_mut(&mut self, id: u64) -> Option<&mut Obj> {
        if id < STK {
            let c = self.mem.get_mut((id >> 6) as usize)?;
            Rc::make_mut(c).0[(id & 63) as usize].as_mut().map(Rc::make_mut)
        } else {
            let k = id - STK;
            let th = self.th.get_mut((k >> STK_SHIFT) as usize)?;
            th.stk.get_mut((k & ((1 << STK_SHIFT) - 1)) as usize).map(Rc::make_mut)
        }
    }
    pub fn new_obj(&mut self, o: Obj) -> u64 {
        let id = self.nobj;
        self.nobj += 1;
        if (id >> 6) as usize >= self.mem.len() {
            self.mem.push(Rc::new(Chunk(vec![None; 64])));
        }
        Rc::make_mut(&mut self.mem[(id >> 6) as usize]).0[(id & 63) as usize] = Some(Rc::new(o));
        (id + 1) << 32
    }
    pub fn drop_obj(&mut self, addr: u64) {
        let id = (addr >> 32) - 1;
        Rc::make_mut(&mut self.mem[(id >> 6) as usize]).0[(id & 63) as usize] = None;
    }
    pub fn t(&mut self) -> &mut Thread {
        let c = self.cur;
        &mut self.th[c]
    }
    pub fn push_pc(&mut self, id: u64, c: T) {
        self.pc.push((id, c));
        self.learn(c, true);
    }
    /// is a <= b (Some(false)) or a < b (Some(true)) implied by the order facts?
    fn ord_path(&self, a: T, b: T) -> Option<bool> {
        if a == b {
            return Some(false);
        }
        let mut seen: Vec<(T, bool)> = vec![(a, false)];
        let mut i = 0;
        let mut best = None;
        while i < seen.len() {
            let (x, s) = seen[i];
            i += 1;
            for &(p, q, st) in self.ord.iter() {
                if p == x {
                    let ns = s | st;
                    if q == b {
                        if ns {
                            return Some(true);
                        }
                        best = Some(false);
                    }
                    match seen.iter_mut().position(|y| y.0 == q) {
                        None => seen.push((q, ns)),
                        Some(k) if ns && !seen[k].1 => {
                            // reached again by a strict path: explore again
                            seen[k].1 = true;
                            if k < i {
                                let e = seen.remove(k);
                                seen.push(e);
                                i -= 1;
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        best
    }
    fn add_ord(&mut self, a: T, b: T, strict: bool) {
        let strict = strict || self.neq.iter().any(|&(x, y)| (x, y) == (a, b) || (y, x) == (a, b));
        match self.ord_path(a, b) {
            Some(s) if s || !strict => {}
            _ => Rc::make_mut(&mut self.ord).push((a, b, strict)),
        }
    }
    pub fn ord_implied(&self, c: T) -> Option<bool> {
        match tm().op(c) {
            Op::Bin(B::Ult, a, b) => match self.ord_path(a, b) {
                Some(true) => Some(true),
                _ => self.ord_path(b, a).map(|_| false),
            },
            Op::Bin(B::Ule, a, b) => match self.ord_path(a, b) {
                Some(_) => Some(true),
                None => match self.ord_path(b, a) {
                    Some(true) => Some(false),
                    _ => None,
                },
            },
            Op::Bin(B::Eq, a, b) => {
                let (x, y) = (self.ord_path(a, b), self.ord_path(b, a));
                match (x, y) {
                    (Some(true), _) | (_, Some(true)) => Some(false),
                    (Some(_), Some(_)) => Some(true),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn learn(&mut self, c: T, v: bool) {
        match (tm().op(c), v) {
            (Op::Bin(B::Ult, x, y), true) => self.add_ord(x, y, true),
            (Op::Bin(B::Ult, x, y), false) => self.add_ord(y, x, false),
            (Op::Bin(B::Ule, x, y), true) => self.add_ord(x, y, false),
            (Op::Bin(B::Ule, x, y), false) => self.add_ord(y, x, true),
            (Op::Bin(B::Eq, x, y), true) => {
                self.add_ord(x, y, false);
                self.add_ord(y, x, false);
            }
            (Op::Bin(B::Eq, x, y), false) => {
                Rc::make_mut(&mut self.neq).push((x, y));
                if self.ord_path(x, y) == Some(false) {
                    self.add_ord(x, y, true);
                }
                if self.ord_path(y, x) == Some(false) {
                    self.add_ord(y, x, true);
                }
            }
            _ => {}
        }
        match tm().op(c) {
            Op::Un(U::Not, x) => self.learn(x, !v),
            Op::Bin(B::And, x, y) if v && tm().w(c) == 1 => {
                self.known.insert(c, v);
                self.learn(x, true);
                self.learn(y, true);
            }
            Op::Bin(B::Or, x, y) if !v && tm().w(c) == 1 => {
                self.known.insert(c, v);
                self.learn(x, false);
                self.learn(y, false);
            }
            Op::Bin(B::Ult, x, y) => {
                self.known.insert(c, v);
                if v {
                    // x<y: !(y<x), x!=y
                    let g = tm().bin(B::Ult, y, x);
                    self.known.entry(g).or_insert(false);
                    let e = tm().bin(B::Eq, x, y);
                    self.known.entry(e).or_insert(false);
                }
            }
            Op::Bin(B::Eq, x, y) if v => {
                self.known.insert(c, v);
                if tm().as_c(y).is_none() {
                    let g = tm().bin(B::Ult, y, x);
                    self.known.entry(g).or_insert(false);
                    let g = tm().bin(B::Ult, x, y);
                    self.known.entry(g).or_insert(false);
                }
            }
            _ => {
                self.known.insert(c, v);
            }
        }
    }
}

fn addr_of(id: u64) -> u64 {
    (id + 1) << 32
}

impl Ex {
    // ---------- deciding ----------
    pub fn decide(&mut self, st: &mut State, c: T) -> Res<bool> {
        if let Some(k) = tm().as_c(c) {
            return Ok(k != 0);
        }
        let (base, flip) = match tm().op(c) {
            Op::Un(U::Not, x) => (x, true),
            _ => (c, false),
        };
        if let Some(&k) = st.known.get(&base) {
            return Ok(k ^ flip);
        }
        if let Some(k) = st.ord_implied(base) {
            self.stats.ord_decided += 1;
            st.known.insert(base, k);
            return Ok(k ^ flip);
        }
        // a large condition on one small variable (a hash of it, mostly): split on the values of the variable
        let (x, size) = tm().sup[base as usize];
        if x != 0 && x != T::MAX && tm().w(x) <= 8 && !matches!(tm().op(base), Op::Bin(B::Eq, a, _) if a == x) {
            if size > 1_000_000 {
                self.split(st, x)?;
            }
            if self.fixed(st, x) {
                return Ok((tm().eval(base, &st.model) != 0) ^ flip);
            }
        }
        let v = tm().eval(base, &st.model) != 0;
        let (take, other) = if v { (base, tm().not(base)) } else { (tm().not(base), base) };
        let mut m = st.model.clone();
        match self.solver.check(&st.pc, other, &mut m) {
            Ans::Unsat => {
                if self.verbose {
                    eprintln!("UNSAT {} {}", v, tm().show(base, 5));
                }
                st.known.insert(base, v);
            }
            Ans::Sat => {
                let mut sib = st.clone();
                sib.model = m;
                let id = self.pcid();
                sib.push_pc(id, other);
                sib.depth_forks += 1;
                self.pending.push(sib);
                self.stats.forks += 1;
                let id = self.pcid();
                st.push_pc(id, take);
                st.depth_forks += 1;
            }
            Ans::Unknown(r) => return Err(Stop::Fatal(format!("solver unknown: {}", r))),
        }
        Ok(v ^ flip)
    }
    /// has variable x only one value on this path?
    fn fixed(&self, st: &State, x: T) -> bool {
        let t = tm();
        let k = t.eval(x, &st.model);
        let k = t.cst(k, t.w(x));
        let e = t.bin(B::Eq, x, k);
        st.known.get(&e) == Some(&true)
    }
    /// fork on the values of the small variable x
    pub fn split(&mut self, st: &mut State, x: T) -> Res<()> {
        if self.fixed(st, x) {
            return Ok(());
        }
        let w = tm().w(x);
        let here = tm().eval(x, &st.model);
        for k in 0..1u128 << w {
            if k == here {
                continue;
            }
            let c = tm().cst(k, w);
            let e = tm().bin(B::Eq, x, c);
            let mut m = st.model.clone();
            match self.solver.check(&st.pc, e, &mut m) {
                Ans::Unsat => {}
                Ans::Sat => {
                    let mut sib = st.clone();
                    sib.model = m;
                    let id = self.pcid();
                    sib.push_pc(id, e);
                    sib.depth_forks += 1;
                    self.pending.push(sib);
                    self.stats.forks += 1;
                }
                Ans::Unknown(r) => return Err(Stop::Fatal(format!("solver unknown: {}", r))),
            }
        }
        let c = tm().cst(here, w);
        let e = tm().bin(B::Eq, x, c);
        let id = self.pcid();
        st.push_pc(id, e);
        Ok(())
    }
    pub fn pcid(&mut self) -> u64 {
        self.next_pc += 1;
        self.next_pc
    }
    /// pick one concrete value for `v`, forking off the others
    pub fn conc(&mut self, st: &mut State, v: &V, w: u8) -> Res<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::S(t) => {
                loop {
                    let x = tm().eval(*t, &st.model);
                    let k = tm().cst(x, w);
                    let e = tm().bin(B::Eq, *t, k);
                    if self.decide(st, e)? {
                        return Ok(x as u64);
                    }
                }
            }
            _ => Err(Stop::Fatal("concretize wide".into())),
        }
    }
    /// is `c` possible on this path? (no fork)
    pub fn possible(&mut self, st: &State, c: T) -> Res<Option<Vec<u128>>> {
        if let Some(k) = tm().as_c(c) {
            return Ok(if k != 0 { Some(st.model.clone()) } else { None });
        }
        if tm().eval(c, &st.model) != 0 {
            return Ok(Some(st.model.clone()));
        }
        let (x, _) = tm().sup[c as usize];
        if x != 0 && x != T::MAX && tm().w(x) <= 8 && self.fixed(st, x) {
            return Ok(None);
        }
        let mut m = st.model.clone();
        match self.solver.check(&st.pc, c, &mut m) {
            Ans::Sat => Ok(Some(m)),
            Ans::Unsat => Ok(None),
            Ans::Unknown(r) => Err(Stop::Fatal(format!("solver unknown: {}", r))),
        }
    }

    pub fn new_var(&mut self, st: &mut State, w: u8, ub: u128, name: &str) -> T {
        let t = tm();
        // the k-th variable of a path is the same term on every path that agrees on its bounds
        let key = (st.nvar, w, ub);
        st.nvar += 1;
        let v = match self.vars.get(&key) {
            Some(&v) => v,
            None => {
                let v = t.var(w);
                self.vars.insert(key, v);
                v
            }
        };
        let id = match t.op(v) {
            Op::Var(i) => i,
            _ => unreachable!(),
        };
        t.var_ub[id as usize] = ub;
        if ub < mask(w) {
            let c = t.raw_ule(v, ub);
            let id = self.pcid();
            st.pc.push((id, c));
        }
        if st.model.len() <= id as usize {
            st.model.resize(id as usize + 1, 0);
        }
        // a model made before this path had the variable may give it any value
        st.model[id as usize] = 0;
        let _ = name;
        v
    }

    // ---------- memory ----------
    /// check that [addr, addr+n) is accessible; returns object id and offset
    pub fn acc(&mut self, st: &mut State, addr: u64, n: u64, write: bool) -> Res<(u64, usize)> {
        let id = (addr >> 32).wrapping_sub(1);
        let off = addr & 0xffff_ffff;
        let (ok, ss) = match st.obj(id) {
            Some(o) => (off + n <= o.size && !(write && o.kind == Kind::Const), if off + n <= o.slo { None } else { o.ssize }),
            None => (false, None),
        };
        if !ok {
            let why = match st.obj(id) {
                Some(o) => format!("{} of {} bytes at offset {} of a {:?} object of {} bytes", if write { "write" } else { "read" }, n, off, o.kind, o.size),
                None => format!("{} of {} bytes through an invalid or dangling address {:#x}", if write { "write" } else { "read" }, n, addr),
            };
            return Err(Stop::Viol("memory-access".into(), why));
        }
        if let (Some(s), false) = (ss, self.no_ssize) {
            let k = tm().cst((off + n) as u128, 64);
            let c = tm().bin(B::Ule, k, s);
            if !self.decide(st, c)? {
                return Err(Stop::Viol("memory-access".into(), format!("access of {} bytes at offset {} beyond a symbolic-size object", n, off)));
            }
            // spare the next accesses a query: try twice the offset
            let mut lo = off + n;
            if lo >= 1024 {
                let k = tm().cst((2 * lo) as u128, 64);
                let c = tm().bin(B::Ult, s, k);
                if self.possible(st, c)?.is_none() {
                    lo *= 2;
                }
            }
            if let Some(o) = st.obj_mut(id) {
                o.slo = lo;
            }
        }
        Ok((id, off as usize))
    }
    /// read of a constant table with few distinct runs of values at a symbolic index
    fn table_read(&mut self, st: &mut State, p: &V, n: u8, w: u8) -> Res<Option<V>> {
        let t = match p {
            V::S(t) => *t,
            _ => return Ok(None),
        };
        let a = tm().eval(t, &st.model) as u64;
        let id = (a >> 32).wrapping_sub(1);
        let runs = match st.obj(id) {
            Some(o) if o.kind == Kind::Const && o.ssize.is_none() && o.size <= 1024 && o.size >= n as u64 && !o.has_sym(0, o.size as usize) => {
                let mut runs: Vec<(u64, u64)> = vec![];
                for off in 0..=o.size - n as u64 {
                    let mut v = 0u64;
                    for k in 0..n as usize {
                        v |= (o.byte(off as usize + k) as u64) << (8 * k);
                    }
                    match runs.last_mut() {
                        Some(r) if r.1 == v => r.0 = off,
                        _ => runs.push((off, v)),
                    }
                }
                runs
            }
            _ => return Ok(None),
        };
        if runs.len() > 40 {
            return Ok(None);
        }
        let base = tm().cst((a & !0xffff_ffff) as u128, 64);
        let off = tm().bin(B::Sub, t, base);
        let last = tm().cst(runs[runs.len() - 1].0 as u128, 64);
        let out = tm().bin(B::Ult, last, off);
        if self.possible(st, out)?.is_some() {
            return Ok(None);
        }
        let mut r = tm().cst(runs[runs.len() - 1].1 as u128, w);
        for &(e, v) in runs.iter().rev().skip(1) {
            let e = tm().cst(e as u128, 64);
            let c = tm().bin(B::Ule, off, e);
            let v = tm().cst(v as u128, w);
            r = tm().ite(c, v, r);
        }
        Ok(Some(cv(r)))
    }
    pub fn paddr(&mut self, st: &mut State, p: &V) -> Res<u64> {
        match p {
            V::C(c) => Ok(*c),
            _ => self.conc(st, p, 64),
        }
    }
    #[inline]
    pub fn read(&mut self, st: &mut State, addr: u64, n: u8, w: u8) -> Res<V> {
        let id = (addr >> 32).wrapping_sub(1);
        let off = (addr & 0xffff_ffff) as usize;
        if let Some(o) = st.obj(id) {
            if o.sym.is_empty() && off + n as usize <= o.data.len() {
                let v = match n {
                    8 => u64::from_le_bytes(o.data[off..off + 8].try_into().unwrap()),
                    4 => u32::from_le_bytes(o.data[off..off + 4].try_into().unwrap()) as u64,
                    1 => o.data[off] as u64,
                    2 => u16::from_le_bytes(o.data[off..off + 2].try_into().unwrap()) as u64,
                    _ => {
                        let mut b = [0u8; 8];
                        b[..n as usize].copy_from_slice(&o.data[off..off + n as usize]);
                        u64::from_le_bytes(b)
                    }
                };
                if o.ssize.is_none() {
                    return Ok(V::C(v & m64(w)));
                }
            }
        }
        self.read_slow(st, addr, n as u64, w)
    }
    fn read_slow(&mut self, st: &mut State, addr: u64, n: u64, w: u8) -> Res<V> {
        let (id, off) = self.acc(st, addr, n, false)?;
        let o = st.obj(id).unwrap();
        let n = n as usize;
        if !o.has_sym(off, n) {
            let mut v = 0u128;
            for k in (0..n).rev() {
                v = (v << 8) | o.byte(off + k) as u128;
            }
            v &= mask(w);
            return Ok(if w <= 64 { V::C(v as u64) } else { V::B(Rc::new(Big::W(v))) });
        }
        // same term, consecutive indices?
        let (t0, i0) = o.sym_at(off);
        let mut r: Option<T> = None;
        if t0 != 0 && (0..n).all(|k| o.sym_at(off + k) == (t0, i0 + k as u8)) {
            r = Some(tm().extract(t0, i0 * 8, (n * 8) as u8));
        }
        let full = match r {
            Some(t) => t,
            None => {
                let mut acc: Option<T> = None;
                for k in 0..n {
                    let (t, i) = o.sym_at(off + k);
                    let b = if t == 0 { tm().cst(o.byte(off + k) as u128, 8) } else { tm().extract(t, i * 8, 8) };
                    acc = Some(match acc {
                        None => b,
                        Some(a) => tm().concat(b, a),
                    });
                }
                acc.unwrap()
            }
        };
        let x = if (w as usize) < n * 8 { tm().extract(full, 0, w) } else { full };
        Ok(cv(x))
    }
    #[inline]
    pub fn write(&mut self, st: &mut State, addr: u64, n: u8, v: &V) -> Res<()> {
        let id = (addr >> 32).wrapping_sub(1);
        let off = (addr & 0xffff_ffff) as usize;
        if let V::C(c) = v {
            if let Some(o) = st.obj_mut(id) {
                if off + n as usize <= o.data.len() && o.ssize.is_none() && o.kind != Kind::Const {
                    let b = c.to_le_bytes();
                    let nn = n as usize;
                    o.data[off..off + nn].copy_from_slice(&b[..nn]);
                    if !o.sym.is_empty() {
                        let e = (off + nn).min(o.sym.len());
                        for k in off..e {
                            o.sym[k] = (0, 0);
                        }
                    }
                    return Ok(());
                }
            }
        }
        self.write_slow(st, addr, n as u64, v)
    }
    fn write_slow(&mut self, st: &mut State, addr: u64, n: u64, v: &V) -> Res<()> {
        let (id, off) = self.acc(st, addr, n, true)?;
        match v {
            V::C(c) => {
                let b = (*c as u128).to_le_bytes();
                st.obj_mut(id).unwrap().set_c(off, &b[..n as usize]);
            }
            V::S(t) => {
                let w = tm().w(*t);
                let t = if (w as u64) < n * 8 { tm().un(U::ZExt, *t, (n * 8) as u8) } else { *t };
                let o = st.obj_mut(id).unwrap();
                for k in 0..n as usize {
                    let e = tm().extract(t, (k * 8) as u8, 8);
                    if let Some(c) = tm().as_c(e) {
                        o.set_c(off + k, &[c as u8]);
                    } else {
                        o.set_s(off + k, (t, k as u8));
                    }
                }
            }
            V::B(b) => match &**b {
                Big::W(x) => {
                    let b = x.to_le_bytes();
                    st.obj_mut(id).unwrap().set_c(off, &b[..n as usize]);
                }
                _ => return Err(Stop::Fatal("store aggregate".into())),
            },
        }
        Ok(())
    }
    pub fn read_ty(&mut self, st: &mut State, addr: u64, ty: TyId) -> Res<V> {
        let ti = &self.m.types[ty as usize];
        match &ti.ty {
            Ty::Int(w) if *w <= 128 => {
                if *w <= 64 {
                    self.read(st, addr, ((*w + 7) / 8) as u8, *w as u8)
                } else {
                    self.read_slow(st, addr, ((*w + 7) / 8) as u64, *w as u8)
                }
            }
            Ty::F32 => self.read(st, addr, 4, 32),
            Ty::F64 | Ty::Ptr => self.read(st, addr, 8, 64),
            Ty::Vec(n, e) if sub_byte(self.m, *e) > 0 => {
                // elements of less than a byte are packed
                let w = sub_byte(self.m, *e);
                let nb = (*n as u32 * w + 7) / 8;
                let t = *n as u32 * w;
                let x = if nb <= 8 { self.read(st, addr, nb as u8, t as u8)? } else { self.read_slow(st, addr, nb as u64, t as u8)? };
                let mut v = Vec::with_capacity(*n as usize);
                for k in 0..*n as u32 {
                    v.push(match &x {
                        V::C(c) => V::C((c >> (k * w)) & m64(w as u8)),
                        _ => {
                            let y = vt(&x, t as u8);
                            cv(tm().extract(y, (k * w) as u8, w as u8))
                        }
                    });
                }
                Ok(V::B(Rc::new(Big::A(v))))
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let (n, e) = (*n, *e);
                let sz = self.m.types[e as usize].size;
                let mut v = Vec::with_capacity(n as usize);
                for k in 0..n {
                    v.push(self.read_ty(st, addr + k * sz, e)?);
                }
                Ok(V::B(Rc::new(Big::A(v))))
            }
            Ty::Struct(f, o) => {
                let mut v = Vec::with_capacity(f.len());
                for (t, o) in f.iter().zip(o) {
                    v.push(self.read_ty(st, addr + o, *t)?);
                }
                Ok(V::B(Rc::new(Big::A(v))))
            }
            _ => Err(Stop::Fatal("load of this type".into())),
        }
    }
    pub fn write_ty(&mut self, st: &mut State, addr: u64, ty: TyId, v: &V) -> Res<()> {
        let ti = &self.m.types[ty as usize];
        match &ti.ty {
            Ty::Int(w) if *w <= 64 => self.write(st, addr, ((*w + 7) / 8) as u8, v),
            Ty::Int(w) => self.write_slow(st, addr, ((*w + 7) / 8) as u64, v),
            Ty::F32 => self.write(st, addr, 4, v),
            Ty::F64 | Ty::Ptr => self.write(st, addr, 8, v),
            Ty::Vec(n, e) if sub_byte(self.m, *e) > 0 => {
                let w = sub_byte(self.m, *e);
                let t = *n as u32 * w;
                let nb = (t + 7) / 8;
                let mut x = V::C(0);
                for (k, y) in elems(v)?.iter().enumerate() {
                    x = match (&x, y) {
                        (V::C(a), V::C(b)) if t <= 64 => V::C(a | b << (k as u32 * w)),
                        (_, y) => {
                            let h = vt(y, w as u8);
                            if k == 0 {
                                cv(h)
                            } else {
                                let l = vt(&x, (k as u32 * w) as u8);
                                cv(tm().concat(h, l))
                            }
                        }
                    };
                }
                if nb <= 8 {
                    self.write(st, addr, nb as u8, &x)
                } else {
                    self.write_slow(st, addr, nb as u64, &x)
                }
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                let sz = self.m.types[*e as usize].size;
                if let V::B(b) = v {
                    if let Big::A(x) = &**b {
                        for (k, y) in x.iter().enumerate() {
                            self.write_ty(st, addr + k as u64 * sz, *e, y)?;
                        }
                        return Ok(());
                    }
                }
                Err(Stop::Fatal("store vector".into()))
            }
            Ty::Struct(f, o) => {
                if let V::B(b) = v {
                    if let Big::A(x) = &**b {
                        for (k, y) in x.iter().enumerate() {
                            self.write_ty(st, addr + o[k], f[k], y)?;
                        }
                        return Ok(());
                    }
                }
                Err(Stop::Fatal("store struct".into()))
            }
            _ => Err(Stop::Fatal("store of this type".into())),
        }
    }
    pub fn get_bytes(&mut self, st: &mut State, addr: u64, n: u64) -> Res<Vec<By>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.acc(st, addr, n, false)?;
        let o = st.obj(id).unwrap();
        Ok((off..off + n as usize)
            .map(|k| match o.sym_at(k) {
                (0, _) => By::C(o.byte(k)),
                (t, i) => By::S(t, i),
            })
            .collect())
    }
    pub fn put_bytes(&mut self, st: &mut State, addr: u64, b: &[By]) -> Res<()> {
        if b.is_empty() {
            return Ok(());
        }
        let (id, off) = self.acc(st, addr, b.len() as u64, true)?;
        let o = st.obj_mut(id).unwrap();
        for (k, x) in b.iter().enumerate() {
            match x {
                By::C(c) => o.set_c(off + k, &[*c]),
                By::S(t, i) => o.set_s(off + k, (*t, *i)),
            }
        }
        Ok(())
    }
    /// memcpy/memmove with concrete length
    pub fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> Res<()> {
        if n == 0 {
            return Ok(());
        }
        let (sid, so) = self.acc(st, src, n, false)?;
        let (did, d_o) = self.acc(st, dst, n, true)?;
        let n = n as usize;
        let o = st.obj(sid).unwrap().clone();
        let d = st.obj_mut(did).unwrap();
        let have = o.data.len();
        if so + n <= have {
            d.set_c(d_o, &o.data[so..so + n]);
        } else {
            // lazily backed large object
            let mut z = vec![0u8; n.min(1 << 24)];
            if n > z.len() {
                return Err(Stop::Fatal(format!("copy of {} bytes", n)));
            }
            if so < have {
                z[..have - so].copy_from_slice(&o.data[so..have]);
            }
            d.set_c(d_o, &z);
        }
        if o.has_sym(so, n) {
            for k in 0..n {
                let s = o.sym_at(so + k);
                if s.0 != 0 {
                    d.set_s(d_o + k, s);
                }
            }
        }
        Ok(())
    }
    pub fn byte_t(b: By) -> T {
        match b {
            By::C(c) => tm().cst(c as u128, 8),
            By::S(t, i) => tm().extract(t, i * 8, 8),
        }
    }
    /// copy with symbolic length
    pub fn copy_v(&mut self, st: &mut State, dst: u64, src: u64, n: &V) -> Res<()> {
        match n {
            V::C(n) => self.copy(st, dst, src, *n),
            V::S(t) => {
                let z = tm().cst(0, 64);
                let is0 = tm().bin(B::Eq, *t, z);
                if self.decide(st, is0)? {
                    return Ok(());
                }
                let ub = self.upper(st, *t)?;
                // bounds check at the largest feasible length
                let ub = if ub > 65536 { return self.conc(st, n, 64).and_then(|k| self.copy(st, dst, src, k)) } else { ub };
                for p in [src, dst] {
                    let id = (p >> 32).wrapping_sub(1);
                    if let Some(ss) = st.obj(id).and_then(|o| o.ssize) {
                        let off = tm().cst((p & 0xffff_ffff) as u128, 64);
                        let e = tm().bin(B::Add, off, *t);
                        let c = tm().bin(B::Ule, e, ss);
                        if !self.decide(st, c)? {
                            return Err(Stop::Viol("memory-access".into(), "copy of a symbolic number of bytes beyond a symbolic-size object".into()));
                        }
                    }
                }
                self.no_ssize = true;
                let r = self.get_bytes(st, src, ub).and_then(|s| Ok((s, self.get_bytes(st, dst, ub)?)));
                self.no_ssize = false;
                let (s, d) = r?;
                let mut out = Vec::with_capacity(s.len());
                for (k, (a, b)) in s.iter().zip(d.iter()).enumerate() {
                    let kc = tm().cst(k as u128, 64);
                    let c = tm().bin(B::Ult, kc, *t);
                    let r = tm().ite(c, Self::byte_t(*a), Self::byte_t(*b));
                    out.push(match tm().as_c(r) {
                        Some(c) => By::C(c as u8),
                        None => By::S(r, 0),
                    });
                }
                self.no_ssize = true;
                let r = self.put_bytes(st, dst, &out);
                self.no_ssize = false;
                r
            }
            _ => Err(Stop::Fatal("copy length".into())),
        }
    }
    /// largest feasible value of t on this path (binary search with the solver)
    pub fn upper(&mut self, st: &State, t: T) -> Res<u64> {
        let w = tm().w(t);
        let mut lo = tm().eval(t, &st.model);
        let mut hi = tm().ub2(t, 4);
        // gallop
        let mut step = 1u128;
        while lo < hi {
            let probe = (lo + step).min(hi);
            let k = tm().cst(probe, w);
            let c = tm().bin(B::Ule, k, t);
            match self.possible(st, c)? {
                Some(m) => {
                    lo = tm().eval(t, &m);
                    step *= 4;
                }
                None => {
                    hi = probe - 1;
                    break;
                }
            }
        }
        while lo < hi {
            let mid = lo + (hi - lo + 1) / 2;
            let k = tm().cst(mid, w);
            let c = tm().bin(B::Ule, k, t);
            match self.possible(st, c)? {
                Some(m) => lo = tm().eval(t, &m),
                None => hi = mid - 1,
            }
        }
        Ok(lo as u64)
    }
    pub fn set_v(&mut self, st: &mut State, dst: u64, b: &V, n: u64) -> Res<()> {
        if n == 0 {
            return Ok(());
        }
        let (id, off) = self.acc(st, dst, n, true)?;
        let o = st.obj_mut(id).unwrap();
        match b {
            V::C(c) => {
                if *c == 0 && o.data.len() <= off {
                    return Ok(()); // lazily zero
                }
                if n > (1 << 26) {
                    return Err(Stop::Limit("memory".into()));
                }
                let z = vec![*c as u8; n as usize];
                o.set_c(off, &z);
            }
            V::S(t) => {
                for k in 0..n as usize {
                    o.set_s(off + k, (*t, 0));
                }
            }
            _ => {}
        }
        Ok(())
    }
    pub fn cstr(&mut self, st: &mut State, addr: u64) -> Res<Vec<u8>> {
        let mut v = vec![];
        loop {
            let b = self.read(st, addr + v.len() as u64, 1, 8)?;
            let c = self.conc(st, &b, 8)?;
            if c == 0 {
                return Ok(v);
            }
            v.push(c as u8);
        }
    }
    pub fn bytes_c(&mut self, st: &mut State, addr: u64, n: u64) -> Res<Vec<u8>> {
        let mut v = vec![];
        for k in 0..n {
            let b = self.read(st, addr + k, 1, 8)?;
            v.push(self.conc(st, &b, 8)? as u8);
        }
        Ok(v)
    }

    // ---------- state set-up ----------
    pub fn init(&mut self, entry: &str) -> State {
        let m = self.m;
        let f = *m.fidx.get(entry).unwrap_or_else(|| {
            eprintln!("no entry {}", entry);
            std::process::exit(3)
        });
        let mut st = State {
            th: vec![],
            cur: 0,
            mem: vec![],
            nobj: 0,
            heap_live: 0,
            heap_bytes: 0,
            pc: vec![],
            known: FxMap::default(),
            ord: Rc::new(vec![]),
            neq: Rc::new(vec![]),
            nvar: 0,
            model: vec![],
            inputs: vec![],
            observed: vec![],
            sched: vec![],
            sched_left: 0,
            sched_count: 0,
            sched_on: false,
            sched_done: false,
            fs: Rc::new(Fs::default()),
            covers: vec![],
            steps: 0,
            allow_panic: 0,
            clock: 1_000_000_000,
            rnd: 0x1234_5678_9abc_def1,
            depth_forks: 0,
            panicking: None,
        };
        for g in &m.globals {
            let mut o = Obj::new(if g.constant { Kind::Const } else { Kind::Global }, g.size);
            if !g.tls {
                o.data = g.init.clone();
                o.data.resize(g.size as usize, 0);
            }
            if g.external {
                o.size = o.size.max(8);
                o.data.resize(8, 0);
            }
            st.new_obj(o);
        }
        st.th.push(self.mk_thread(f, vec![]));
        st
    }
    pub fn mk_thread(&self, f: u32, args: Vec<V>) -> Thread {
        let fun = &self.m.funcs[f as usize];
        let mut regs = vec![V::C(0); fun.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            regs[i] = a;
        }
        Thread {
            top: Frame { f, ip: 0, regs, sp: 0, ret_d: NOREG, ret_edge: u32::MAX },
            rest: vec![],
            stk: vec![],
            tls: vec![],
            wait: Wait::Run,
            errno: 0,
        }
    }

    pub fn stack_names(&self, st: &State) -> Vec<String> {
        let th = &st.th[st.cur];
        let mut v = vec![self.m.funcs[th.top.f as usize].name.clone()];
        for f in th.rest.iter().rev().take(40) {
            v.push(self.m.funcs[f.f as usize].name.clone());
        }
        v
    }

    // ---------- running ----------
    pub fn run_path(&mut self, mut st: State) {
        let t0 = std::time::Instant::now();
        let q0 = self.solver.stats.queries;
        let r = loop {
            match self.steps(&mut st) {
                Stop::Switch => continue,
                Stop::Later => {
                    self.later.push(st);
                    return;
                }
                r => break r,
            }
        };
        if self.verbose && t0.elapsed().as_secs() >= 2 {
            eprintln!("long path {:.1} s, {} queries: {:?}", t0.elapsed().as_secs_f64(), self.solver.stats.queries - q0, self.inputs(&st, &st.model));
        }
        self.stats.paths += 1;
        self.stats.steps += st.steps;
        self.stats.schedules += (st.sched.len() > 0) as u64;
        match r {
            Stop::End => {
                self.stats.ended += 1;
                for c in &st.covers {
                    *self.stats.covers.entry(c.to_string()).or_insert(0) += 1;
                }
                if self.traces.len() < self.max_traces && self.stats.ended % self.trace_every == 1 % self.trace_every {
                    let inputs = self.inputs(&st, &st.model.clone());
                    let model = st.model.clone();
                    let observed = st.observed.iter().map(|v| eval_v(v, &model)).collect();
                    self.traces.push(Trace { inputs, observed, sched: st.sched.clone() });
                }
            }
            Stop::Cut(w) => {
                for c in &st.covers {
                    *self.stats.covers.entry(c.to_string()).or_insert(0) += 1;
                }
                *self.stats.cut.entry(w).or_insert(0) += 1;
            }
            Stop::Viol(l, d) => {
                let m = st.model.clone();
                self.report(&st, l, d, &m);
            }
            Stop::Limit(w) => {
                self.stats.limits += 1;
                if self.verbose {
                    eprintln!("limit: {} in {:?}", w, self.stack_names(&st));
                }
                *self.stats.cut.entry(format!("limit:{}", w)).or_insert(0) += 1;
            }
            Stop::Fatal(w) => {
                eprintln!("engine: cannot continue: {}\n  stack: {}", w, self.stack_names(&st).join("\n    "));
                std::process::exit(3);
            }
            Stop::Switch | Stop::Later => unreachable!(),
        }
    }
    pub fn inputs(&self, st: &State, model: &[u128]) -> Vec<(String, u128)> {
        st.inputs
            .iter()
            .map(|i| match i {
                Input::S(n, t) => (n.to_string(), tm().eval(*t, model)),
            })
            .collect()
    }
    pub fn report(&mut self, st: &State, label: String, detail: String, model: &[u128]) {
        let c = self.viol_count.entry(label.clone()).or_insert(0);
        *c += 1;
        if *c as usize > self.max_viol_per_label {
            return;
        }
        let v = Violation {
            label,
            detail,
            inputs: self.inputs(st, model),
            sched: st.sched.clone(),
            stack: self.stack_names(st),
            observed: st.observed.iter().map(|v| eval_v(v, model)).collect(),
        };
        if self.verbose {
            eprintln!("violation {} : {} inputs {:?}\n   {}", v.label, v.detail, v.inputs, v.stack.join("\n   "));
        }
        self.viol.push(v);
    }

    #[inline]
    fn val(m: &Module, fr: &Frame, o: O) -> V {
        if o & CF != 0 {
            m.pool[(o & !CF) as usize].clone()
        } else {
            fr.regs[o as usize].clone()
        }
    }

    fn take_edge(m: &'static Module, fr: &mut Frame, e: u32) {
        let ed = &m.funcs[fr.f as usize].edges[e as usize];
        match ed.moves.len() {
            0 => {}
            1 => {
                let (d, o) = ed.moves[0];
                fr.regs[d as usize] = Self::val(m, fr, o);
            }
            _ => {
                let vals: Vec<V> = ed.moves.iter().map(|(_, o)| Self::val(m, fr, *o)).collect();
                for ((d, _), v) in ed.moves.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.ip = ed.target;
    }

    pub fn do_return(&mut self, st: &mut State, v: Option<V>) -> Option<Stop> {
        let m = self.m;
        let cur = st.cur;
        let th = &mut st.th[cur];
        let (d, e, sp) = (th.top.ret_d, th.top.ret_edge, th.top.sp);
        th.stk.truncate(sp as usize);
        match th.rest.pop() {
            None => {
                th.wait = Wait::Done;
                if cur == 0 {
                    return Some(Stop::End);
                }
                return Some(match crate::models::pick_next(self, st) {
                    Ok(()) => Stop::Switch,
                    Err(s) => s,
                });
            }
            Some(r) => {
                th.top = Rc::try_unwrap(r).unwrap_or_else(|r| (*r).clone());
            }
        }
        if d != NOREG {
            if let Some(v) = v {
                th.top.regs[d as usize] = v;
            }
        }
        if e != u32::MAX {
            Self::take_edge(m, &mut th.top, e);
        }
        None
    }

    /// set the result of a modelled call and advance
    fn finish_call(m: &'static Module, fr: &mut Frame, d: R, edge: u32, v: V) {
        if d != NOREG {
            fr.regs[d as usize] = v;
        }
        if edge != u32::MAX {
            Self::take_edge(m, fr, edge);
        } else {
            fr.ip += 1;
        }
    }

    pub fn enter(&mut self, st: &mut State, f: u32, args: &[V], d: R, edge: u32) -> Res<()> {
        let fun = &self.m.funcs[f as usize];
        self.fcount[f as usize] += 1;
        let th = st.t();
        if th.rest.len() > 3000 {
            return Err(Stop::Viol("stack-overflow".into(), "call depth over 3000".into()));
        }
        if edge == u32::MAX {
            th.top.ip += 1;
        }
        let mut regs = Vec::with_capacity(fun.nregs as usize);
        regs.extend_from_slice(&args[..(fun.nargs as usize).min(args.len())]);
        regs.resize(fun.nregs as usize, V::C(0));
        let nf = Frame { f, ip: 0, regs, sp: th.stk.len() as u32, ret_d: d, ret_edge: edge };
        let old = std::mem::replace(&mut th.top, nf);
        th.rest.push(Rc::new(old));
        Ok(())
    }

    fn steps(&mut self, st: &mut State) -> Stop {
        let m = self.m;
        macro_rules! tr {
            ($e:expr) => {
                match $e {
                    Ok(x) => x,
                    Err(s) => return s,
                }
            };
        }
        loop {
            st.steps += 1;
            if st.steps & 0xffff == 0 {
                if st.steps > self.step_limit {
                    return Stop::Limit("steps".into());
                }
                if let Some(d) = self.deadline {
                    if std::time::Instant::now() > d {
                        return Stop::Limit("time".into());
                    }
                }
                if let Some(d) = self.soft {
                    if std::time::Instant::now() > d {
                        return Stop::Later;
                    }
                }
            }
            let cur = st.cur;
            let fr = &mut st.th[cur].top;
            let fun = &m.funcs[fr.f as usize];
            let ins = &fun.code[fr.ip as usize];
            match ins {
                I::Nop => fr.ip += 1,
                I::Bin { op, w, lanes, d, a, b } => {
                    let (x, y) = (Self::val(m, fr, *a), Self::val(m, fr, *b));
                    let r = if *lanes == 0 { tr!(bin_v(*op, *w, &x, &y)) } else { tr!(lane2(&x, &y, |x, y| bin_v(*op, *w, x, y))) };
                    fr.regs[*d as usize] = r;
                    fr.ip += 1;
                }
                I::Icmp { p, w, lanes, d, a, b } => {
                    let (x, y) = (Self::val(m, fr, *a), Self::val(m, fr, *b));
                    let r = if *lanes == 0 { icmp_v(*p, *w, &x, &y) } else { tr!(lane2(&x, &y, |x, y| Ok(icmp_v(*p, *w, x, y)))) };
                    fr.regs[*d as usize] = r;
                    fr.ip += 1;
                }
                I::Fcmp { p, w, lanes, d, a, b } => {
                    let (x, y) = (Self::val(m, fr, *a), Self::val(m, fr, *b));
                    let f = |x: &V, y: &V| -> V {
                        if let (V::C(a), V::C(b)) = (x, y) {
                            let r = if *w == 32 {
                                fcmp_c(*p, f32::from_bits(*a as u32) as f64, f32::from_bits(*b as u32) as f64)
                            } else {
                                fcmp_c(*p, f64::from_bits(*a), f64::from_bits(*b))
                            };
                            return V::C(r as u64);
                        }
                        cv(fcmp_term(*p, vt(x, *w), vt(y, *w), *w))
                    };
                    let r = if *lanes == 0 { f(&x, &y) } else { tr!(lane2(&x, &y, |x, y| Ok(f(x, y)))) };
                    fr.regs[*d as usize] = r;
                    fr.ip += 1;
                }
                I::FNeg { w, lanes, d, a } => {
                    let x = Self::val(m, fr, *a);
                    let s = 1u64 << (*w - 1);
                    let f = |x: &V| bin_v(BinOp::Xor, *w, x, &V::C(s));
                    let r = if *lanes == 0 { tr!(f(&x)) } else { tr!(lane1(&x, f)) };
                    fr.regs[*d as usize] = r;
                    fr.ip += 1;
                }
                I::Cast { k, wi, wo, lanes, ti, to, d, a } => {
                    let x = Self::val(m, fr, *a);
                    let r = if *k == Cast::Bit {
                        tr!(bitcast(m, *ti, *to, &x))
                    } else if *lanes == 0 {
                        tr!(cast_v(*k, *wi as u8, *wo as u8, &x))
                    } else {
                        tr!(lane1(&x, |x| cast_v(*k, *wi as u8, *wo as u8, x)))
                    };
                    fr.regs[*d as usize] = r;
                    fr.ip += 1;
                }
                I::Sel { d, c, a, b, lanes, w } => {
                    let k = Self::val(m, fr, *c);
                    if *lanes > 0 {
                        let (x, y) = (Self::val(m, fr, *a), Self::val(m, fr, *b));
                        let (ks, xs, ys) = (tr!(elems(&k)), tr!(elems(&x)), tr!(elems(&y)));
                        let mut out = vec![];
                        for i in 0..ks.len() {
                            out.push(match &ks[i] {
                                V::C(0) => ys[i].clone(),
                                V::C(_) => xs[i].clone(),
                                V::S(t) => {
                                    let w = width_of(&xs[i]).or(width_of(&ys[i]));
                                    match w {
                                        Some(w) => cv(tm().ite(*t, vt(&xs[i], w), vt(&ys[i], w))),
                                        None => return Stop::Fatal("vector select".into()),
                                    }
                                }
                                _ => return Stop::Fatal("vector select".into()),
                            });
                        }
                        fr.regs[*d as usize] = V::B(Rc::new(Big::A(out)));
                        fr.ip += 1;
                        continue;
                    }
                    match k {
                        V::C(k) => {
                            let v = Self::val(m, fr, if k != 0 { *a } else { *b });
                            fr.regs[*d as usize] = v;
                            fr.ip += 1;
                        }
                        V::S(t) => {
                            let (x, y) = (Self::val(m, fr, *a), Self::val(m, fr, *b));
                            if *w != 0 {
                                let r = tm().ite(t, vt(&x, *w), vt(&y, *w));
                                fr.regs[*d as usize] = cv(r);
                                fr.ip += 1;
                            } else {
                                let k = tr!(self.decide(st, t));
                                let fr = &mut st.th[cur].top;
                                fr.regs[*d as usize] = if k { x } else { y };
                                fr.ip += 1;
                            }
                        }
                        _ => return Stop::Fatal("select".into()),
                    }
                }
                I::LoadI { d, n, w, p } => {
                    let p = Self::val(m, fr, *p);
                    let v = match p {
                        V::C(c) => tr!(self.read(st, c, *n, *w)),
                        p => match tr!(self.table_read(st, &p, *n, *w)) {
                            Some(v) => v,
                            None => {
                                let a = tr!(self.paddr(st, &p));
                                tr!(self.read(st, a, *n, *w))
                            }
                        },
                    };
                    let fr = &mut st.th[cur].top;
                    fr.regs[*d as usize] = v;
                    fr.ip += 1;
                }
                I::StoreI { n, v, p } => {
                    let v = Self::val(m, fr, *v);
                    let p = Self::val(m, fr, *p);
                    let a = match p {
                        V::C(c) => c,
                        p => tr!(self.paddr(st, &p)),
                    };
                    tr!(self.write(st, a, *n, &v));
                    st.th[cur].top.ip += 1;
                }
                I::Load { d, ty, p } => {
                    let p = Self::val(m, fr, *p);
                    let a = tr!(self.paddr(st, &p));
                    let v = tr!(self.read_ty(st, a, *ty));
                    let fr = &mut st.th[cur].top;
                    fr.regs[*d as usize] = v;
                    fr.ip += 1;
                }
                I::Store { ty, v, p } => {
                    let v = Self::val(m, fr, *v);
                    let p = Self::val(m, fr, *p);
                    let a = tr!(self.paddr(st, &p));
                    tr!(self.write_ty(st, a, *ty, &v));
                    st.th[cur].top.ip += 1;
                }
                I::Gep { d, base, off, idx } => {
                    let mut b = Self::val(m, fr, *base);
                    let mut acc = *off as u64;
                    for (o, s, w) in idx.iter() {
                        match Self::val(m, fr, *o) {
                            V::C(c) => acc = acc.wrapping_add((sx64(c, *w) as u64).wrapping_mul(*s as u64)),
                            V::S(t) => {
                                let e = if *w < 64 { tm().un(U::SExt, t, 64) } else { t };
                                let k = tm().cst(*s as u64 as u128, 64);
                                let e = tm().bin(B::Mul, e, k);
                                let bt = vt(&b, 64);
                                b = cv(tm().bin(B::Add, bt, e));
                            }
                            _ => return Stop::Fatal("gep index".into()),
                        }
                    }
                    let r = match b {
                        V::C(c) => V::C(c.wrapping_add(acc)),
                        V::S(t) => {
                            let k = tm().cst(acc as u128, 64);
                            cv(tm().bin(B::Add, t, k))
                        }
                        _ => return Stop::Fatal("gep base".into()),
                    };
                    fr.regs[*d as usize] = r;
                    fr.ip += 1;
                }
                I::Alloca { d, size, cnt } => {
                    let n = match Self::val(m, fr, *cnt) {
                        V::C(c) => c,
                        _ => return Stop::Fatal("alloca count".into()),
                    };
                    let th = &mut st.th[cur];
                    let idx = th.stk.len() as u64;
                    if idx >> STK_SHIFT != 0 {
                        return Stop::Fatal("stack objects".into());
                    }
                    th.stk.push(Rc::new(Obj::new(Kind::Stack, size * n)));
                    let fr = &mut th.top;
                    fr.regs[*d as usize] = V::C(addr_of(STK + ((cur as u64) << STK_SHIFT) + idx));
                    fr.ip += 1;
                }
                I::Br(e) => Self::take_edge(m, fr, *e),
                I::CondBr { c, t, f } => {
                    let k = match Self::val(m, fr, *c) {
                        V::C(c) => c != 0,
                        V::S(x) => tr!(self.decide(st, x)),
                        _ => return Stop::Fatal("br".into()),
                    };
                    Self::take_edge(m, &mut st.th[cur].top, if k { *t } else { *f });
                }
                I::Switch { v, w, def, cases } => {
                    let e = match Self::val(m, fr, *v) {
                        V::C(c) => match cases.binary_search_by(|x| x.0.cmp(&(c as u128))) {
                            Ok(i) => cases[i].1,
                            Err(_) => *def,
                        },
                        V::B(b) => match &*b {
                            Big::W(c) => match cases.binary_search_by(|x| x.0.cmp(c)) {
                                Ok(i) => cases[i].1,
                                Err(_) => *def,
                            },
                            _ => return Stop::Fatal("switch".into()),
                        },
                        V::S(t) => {
                            // follow the model's case first
                            let x = tm().eval(t, &st.model);
                            let mut r = None;
                            if let Ok(i) = cases.binary_search_by(|c| c.0.cmp(&x)) {
                                let k = tm().cst(x, *w);
                                let c = tm().bin(B::Eq, t, k);
                                if tr!(self.decide(st, c)) {
                                    r = Some(cases[i].1);
                                }
                            }
                            if r.is_none() {
                                // default (model) : decide all cases false one by one
                                for (cst, e) in cases.iter() {
                                    let k = tm().cst(*cst, *w);
                                    let c = tm().bin(B::Eq, t, k);
                                    if tr!(self.decide(st, c)) {
                                        r = Some(*e);
                                        break;
                                    }
                                }
                            }
                            r.unwrap_or(*def)
                        }
                    };
                    Self::take_edge(m, &mut st.th[cur].top, e);
                }
                I::Ret(o) => {
                    let v = Self::val(m, fr, *o);
                    if let Some(s) = self.do_return(st, Some(v)) {
                        return s;
                    }
                }
                I::RetVoid => {
                    if let Some(s) = self.do_return(st, None) {
                        return s;
                    }
                }
                I::Unreachable => {
                    return Stop::Viol("unreachable".into(), format!("reached an unreachable instruction in {}", fun.name));
                }
                I::Call { d, callee, args, tys, rty, edge } => {
                    let (f, ext) = match callee {
                        Callee::Fn(i) => (*i, &self.ext[*i as usize]),
                        Callee::Ind(o) => {
                            let p = Self::val(m, fr, *o);
                            let a = match p {
                                V::C(c) => c,
                                p => tr!(self.conc(st, &p, 64)),
                            };
                            let i = a.wrapping_sub(FN_BASE) / 16;
                            if a < FN_BASE || i >= m.funcs.len() as u64 || (a - FN_BASE) % 16 != 0 {
                                return Stop::Viol("memory-access".into(), format!("call through invalid function pointer {:#x}", a));
                            }
                            (i as u32, &self.ext[i as usize])
                        }
                        Callee::Asm(s) => {
                            let r = if s.is_empty() || s.contains("cpuid") {
                                let z = zero_of(m, *rty);
                                Some(z)
                            } else {
                                None
                            };
                            match r {
                                Some(v) => {
                                    let fr = &mut st.th[cur].top;
                                    Self::finish_call(m, fr, *d, *edge, v);
                                    continue;
                                }
                                None => return Stop::Fatal(format!("asm {}", s)),
                            }
                        }
                    };
                    let fr = &st.th[cur].top;
                    let av: Vec<V> = args.iter().map(|o| Self::val(m, fr, *o)).collect();
                    match ext {
                        Some(model) => {
                            let model = *model;
                            match tr!(model(self, st, f, &av, tys, *rty)) {
                                crate::models::Out::Val(v) => {
                                    let fr = &mut st.th[cur].top;
                                    Self::finish_call(m, fr, *d, *edge, v);
                                }
                                crate::models::Out::Switched(v) => {
                                    // result delivered to the calling thread, another thread runs next
                                    let fr = &mut st.th[cur].top;
                                    Self::finish_call(m, fr, *d, *edge, v);
                                    tr!(crate::models::pick_next(self, st));
                                }
                                crate::models::Out::Enter => {
                                    tr!(self.enter(st, f, &av, *d, *edge));
                                }
                                crate::models::Out::EnterOther(g, a2) => {
                                    tr!(self.enter(st, g, &a2, *d, *edge));
                                }
                            }
                        }
                        None => {
                            if !m.funcs[f as usize].defined {
                                return Stop::Fatal(format!("no model for external function {}", m.funcs[f as usize].name));
                            }
                            tr!(self.enter(st, f, &av, *d, *edge));
                        }
                    }
                }
                I::ExtV { d, a, path } => {
                    let mut v = Self::val(m, fr, *a);
                    for k in path.iter() {
                        v = match &v {
                            V::B(b) => match &**b {
                                Big::A(x) => x[*k as usize].clone(),
                                _ => return Stop::Fatal("extractvalue".into()),
                            },
                            _ => return Stop::Fatal("extractvalue".into()),
                        };
                    }
                    fr.regs[*d as usize] = v;
                    fr.ip += 1;
                }
                I::InsV { d, a, v, path } => {
                    let agg = Self::val(m, fr, *a);
                    let x = Self::val(m, fr, *v);
                    let r = tr!(insv(&agg, path, x));
                    fr.regs[*d as usize] = r;
                    fr.ip += 1;
                }
                I::ExtE { d, a, i } => {
                    let v = Self::val(m, fr, *a);
                    let i = match Self::val(m, fr, *i) {
                        V::C(c) => c as usize,
                        _ => return Stop::Fatal("extractelement index".into()),
                    };
                    fr.regs[*d as usize] = tr!(elems(&v))[i].clone();
                    fr.ip += 1;
                }
                I::InsE { d, a, v, i } => {
                    let agg = Self::val(m, fr, *a);
                    let x = Self::val(m, fr, *v);
                    let i = match Self::val(m, fr, *i) {
                        V::C(c) => c as u32,
                        _ => return Stop::Fatal("insertelement index".into()),
                    };
                    let r = tr!(insv(&agg, &[i], x));
                    fr.regs[*d as usize] = r;
                    fr.ip += 1;
                }
                I::Shuf { d, a, b, mask, n } => {
                    let (x, y) = (Self::val(m, fr, *a), Self::val(m, fr, *b));
                    let (x, y) = (tr!(elems(&x)), tr!(elems(&y)));
                    let out = mask
                        .iter()
                        .map(|k| {
                            let k = (*k).max(0) as usize;
                            if k < *n as usize {
                                x[k].clone()
                            } else {
                                y[k - *n as usize].clone()
                            }
                        })
                        .collect();
                    fr.regs[*d as usize] = V::B(Rc::new(Big::A(out)));
                    fr.ip += 1;
                }
                I::Rmw { op, w, d, p, v } => {
                    let v = Self::val(m, fr, *v);
                    let p = Self::val(m, fr, *p);
                    let a = tr!(self.paddr(st, &p));
                    let n = (*w + 7) / 8;
                    let old = tr!(self.read(st, a, n, *w));
                    let new = match op {
                        Rmw::Xchg => v,
                        Rmw::Add => tr!(bin_v(BinOp::Add, *w, &old, &v)),
                        Rmw::Sub => tr!(bin_v(BinOp::Sub, *w, &old, &v)),
                        Rmw::And => tr!(bin_v(BinOp::And, *w, &old, &v)),
                        Rmw::Or => tr!(bin_v(BinOp::Or, *w, &old, &v)),
                        Rmw::Xor => tr!(bin_v(BinOp::Xor, *w, &old, &v)),
                        Rmw::UMax | Rmw::UMin | Rmw::Max | Rmw::Min => {
                            let pr = match op {
                                Rmw::UMax => IP::Ugt,
                                Rmw::UMin => IP::Ult,
                                Rmw::Max => IP::Sgt,
                                _ => IP::Slt,
                            };
                            let k = vt(&icmp_v(pr, *w, &old, &v), 1);
                            cv(tm().ite(k, vt(&old, *w), vt(&v, *w)))
                        }
                        Rmw::Nand => return Stop::Fatal("nand".into()),
                    };
                    tr!(self.write(st, a, n, &new));
                    crate::models::wake_all(st);
                    let fr = &mut st.th[cur].top;
                    if *d != NOREG {
                        fr.regs[*d as usize] = old;
                    }
                    fr.ip += 1;
                }
                I::CmpX { w, d, p, old, new, acq } => {
                    if st.sched_on && *acq {
                        tr!(crate::models::sched_point(self, st));
                    }
                    let fr = &st.th[cur].top;
                    let e = Self::val(m, fr, *old);
                    let nw = Self::val(m, fr, *new);
                    let p = Self::val(m, fr, *p);
                    let a = tr!(self.paddr(st, &p));
                    let n = (*w + 7) / 8;
                    let o = tr!(self.read(st, a, n, *w));
                    let c = icmp_v(IP::Eq, *w, &o, &e);
                    let k = match c {
                        V::C(c) => c != 0,
                        V::S(t) => tr!(self.decide(st, t)),
                        _ => return Stop::Fatal("cmpxchg".into()),
                    };
                    if k {
                        tr!(self.write(st, a, n, &nw));
                        crate::models::wake_all(st);
                    }
                    st.sched_done = false;
                    let fr = &mut st.th[cur].top;
                    fr.regs[*d as usize] = V::B(Rc::new(Big::A(vec![o, V::C(k as u64)])));
                    fr.ip += 1;
                }
                I::Copy { d, a } => {
                    let v = Self::val(m, fr, *a);
                    fr.regs[*d as usize] = v;
                    fr.ip += 1;
                }
            }
        }
    }
}

pub fn eval_v(v: &V, model: &[u128]) -> u128 {
    match v {
        V::C(c) => *c as u128,
        V::S(t) => tm().eval(*t, model),
        V::B(b) => match &**b {
            Big::W(x) => *x,
            _ => 0,
        },
    }
}

fn width_of(v: &V) -> Option<u8> {
    match v {
        V::S(t) => Some(tm().w(*t)),
        _ => None,
    }
}
pub fn zero_of(m: &Module, t: TyId) -> V {
    match &m.types[t as usize].ty {
        Ty::Arr(n, e) | Ty::Vec(n, e) => V::B(Rc::new(Big::A(vec![zero_of(m, *e); *n as usize]))),
        Ty::Struct(f, _) => V::B(Rc::new(Big::A(f.iter().map(|t| zero_of(m, *t)).collect()))),
        Ty::Int(w) if *w > 64 => V::B(Rc::new(Big::W(0))),
        _ => V::C(0),
    }
}

pub fn elems(v: &V) -> Res<&Vec<V>> {
    match v {
        V::B(b) => match &**b {
            Big::A(x) => Ok(x),
            _ => Err(Stop::Fatal("vector expected".into())),
        },
        _ => Err(Stop::Fatal("vector expected".into())),
    }
}
pub fn lane1(x: &V, f: impl Fn(&V) -> Res<V>) -> Res<V> {
    let v: Res<Vec<V>> = elems(x)?.iter().map(|a| f(a)).collect();
    Ok(V::B(Rc::new(Big::A(v?))))
}
pub fn lane2(x: &V, y: &V, f: impl Fn(&V, &V) -> Res<V>) -> Res<V> {
    let v: Res<Vec<V>> = elems(x)?.iter().zip(elems(y)?).map(|(a, b)| f(a, b)).collect();
    Ok(V::B(Rc::new(Big::A(v?))))
}
fn insv(agg: &V, path: &[u32], x: V) -> Res<V> {
    if path.is_empty() {
        return Ok(x);
    }
    let mut v = elems(agg)?.clone();
    let k = path[0] as usize;
    let n = insv(&v[k], &path[1..], x)?;
    v[k] = n;
    Ok(V::B(Rc::new(Big::A(v))))
}

pub fn bin_v(op: BinOp, w: u8, x: &V, y: &V) -> Res<V> {
    if let (V::C(a), V::C(b)) = (x, y) {
        if w <= 64 {
            let (a, b) = (*a, *b);
            let m = m64(w);
            let r = match op {
                BinOp::Add => a.wrapping_add(b) & m,
                BinOp::Sub => a.wrapping_sub(b) & m,
                BinOp::Mul => a.wrapping_mul(b) & m,
                BinOp::And => a & b,
                BinOp::Or => a | b,
                BinOp::Xor => a ^ b,
                BinOp::Shl => {
                    if b >= w as u64 {
                        0
                    } else {
                        (a << b) & m
                    }
                }
                BinOp::LShr => {
                    if b >= w as u64 {
                        0
                    } else {
                        a >> b
                    }
                }
                BinOp::AShr => (sx64(a, w) >> b.min(w as u64 - 1)) as u64 & m,
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if b == 0 => {
                    return Err(Stop::Viol("division-by-zero".into(), "integer division by zero".into()))
                }
                BinOp::UDiv => a / b,
                BinOp::URem => a % b,
                BinOp::SDiv => sx64(a, w).wrapping_div(sx64(b, w)) as u64 & m,
                BinOp::SRem => sx64(a, w).wrapping_rem(sx64(b, w)) as u64 & m,
                BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem => {
                    if w == 32 {
                        let (p, q) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                        (match op {
                            BinOp::FAdd => p + q,
                            BinOp::FSub => p - q,
                            BinOp::FMul => p * q,
                            BinOp::FDiv => p / q,
                            _ => p % q,
                        })
                        .to_bits() as u64
                    } else {
                        let (p, q) = (f64::from_bits(a), f64::from_bits(b));
                        (match op {
                            BinOp::FAdd => p + q,
                            BinOp::FSub => p - q,
                            BinOp::FMul => p * q,
                            BinOp::FDiv => p / q,
                            _ => p % q,
                        })
                        .to_bits()
                    }
                }
            };
            return Ok(V::C(r));
        }
    }
    if w > 128 {
        return Err(Stop::Fatal("integer wider than 128".into()));
    }
    let b = match op {
        BinOp::Add => B::Add,
        BinOp::Sub => B::Sub,
        BinOp::Mul => B::Mul,
        BinOp::UDiv => B::UDiv,
        BinOp::URem => B::URem,
        BinOp::SDiv => B::SDiv,
        BinOp::SRem => B::SRem,
        BinOp::Shl => B::Shl,
        BinOp::LShr => B::LShr,
        BinOp::AShr => B::AShr,
        BinOp::And => B::And,
        BinOp::Or => B::Or,
        BinOp::Xor => B::Xor,
        BinOp::FAdd => B::FAdd,
        BinOp::FSub => B::FSub,
        BinOp::FMul => B::FMul,
        BinOp::FDiv => B::FDiv,
        BinOp::FRem => B::FRem,
    };
    Ok(cv(tm().bin(b, vt(x, w), vt(y, w))))
}

pub fn icmp_v(p: IP, w: u8, x: &V, y: &V) -> V {
    if let (V::C(a), V::C(b)) = (x, y) {
        let (a, b) = (*a, *b);
        let r = match p {
            IP::Eq => a == b,
            IP::Ne => a != b,
            IP::Ugt => a > b,
            IP::Uge => a >= b,
            IP::Ult => a < b,
            IP::Ule => a <= b,
            IP::Sgt => sx64(a, w) > sx64(b, w),
            IP::Sge => sx64(a, w) >= sx64(b, w),
            IP::Slt => sx64(a, w) < sx64(b, w),
            IP::Sle => sx64(a, w) <= sx64(b, w),
        };
        return V::C(r as u64);
    }
    let (a, b) = (vt(x, w), vt(y, w));
    let t = tm();
    let r = match p {
        IP::Eq => t.bin(B::Eq, a, b),
        IP::Ne => {
            let e = t.bin(B::Eq, a, b);
            t.not(e)
        }
        IP::Ugt => t.bin(B::Ult, b, a),
        IP::Uge => t.bin(B::Ule, b, a),
        IP::Ult => t.bin(B::Ult, a, b),
        IP::Ule => t.bin(B::Ule, a, b),
        IP::Sgt => t.bin(B::Slt, b, a),
        IP::Sge => t.bin(B::Sle, b, a),
        IP::Slt => t.bin(B::Slt, a, b),
        IP::Sle => t.bin(B::Sle, a, b),
    };
    cv(r)
}

pub fn cast_v(k: Cast, wi: u8, wo: u8, x: &V) -> Res<V> {
    if let V::C(c) = x {
        let c = *c;
        if wo <= 64 {
            let r = match k {
                Cast::Trunc => c & m64(wo),
                Cast::ZExt => c,
                Cast::SExt => sx64(c, wi) as u64 & m64(wo),
                Cast::FpToUi | Cast::FpToSi => {
                    let f = if wi == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) };
                    if k == Cast::FpToUi {
                        f as u64 & m64(wo)
                    } else {
                        f as i64 as u64 & m64(wo)
                    }
                }
                Cast::UiToFp => {
                    if wo == 32 {
                        (c as f32).to_bits() as u64
                    } else {
                        (c as f64).to_bits()
                    }
                }
                Cast::SiToFp => {
                    let s = sx64(c, wi);
                    if wo == 32 {
                        (s as f32).to_bits() as u64
                    } else {
                        (s as f64).to_bits()
                    }
                }
                Cast::FpTrunc => (f64::from_bits(c) as f32).to_bits() as u64,
                Cast::FpExt => (f32::from_bits(c as u32) as f64).to_bits(),
                Cast::Bit => c,
            };
            return Ok(V::C(r));
        }
        let r = match k {
            Cast::SExt => sext(c as u128, wi) as u128 & mask(wo),
            _ => c as u128,
        };
        return Ok(V::B(Rc::new(Big::W(r))));
    }
    let t = vt(x, wi);
    let m = tm();
    Ok(cv(match k {
        Cast::Trunc => m.extract(t, 0, wo),
        Cast::ZExt => m.un(U::ZExt, t, wo),
        Cast::SExt => m.un(U::SExt, t, wo),
        Cast::FpToUi => m.un(U::FToUSat, t, wo),
        Cast::FpToSi => m.un(U::FToSSat, t, wo),
        Cast::UiToFp => m.un(U::UToF, t, wo),
        Cast::SiToFp => m.un(U::SToF, t, wo),
        Cast::FpTrunc => m.un(U::FTruncTo32, t, wo),
        Cast::FpExt => m.un(U::FExt, t, wo),
        Cast::Bit => t,
    }))
}

/// width of an element that takes less than a byte, else 0
fn sub_byte(m: &Module, t: TyId) -> u32 {
    match &m.types[t as usize].ty {
        Ty::Int(w) if *w < 8 => *w,
        _ => 0,
    }
}
fn scalar_bits(m: &Module, t: TyId) -> u32 {
    match &m.types[t as usize].ty {
        Ty::Int(w) => *w,
        Ty::F32 => 32,
        Ty::F64 | Ty::Ptr => 64,
        _ => 0,
    }
}

fn bitcast(m: &Module, ti: TyId, to: TyId, x: &V) -> Res<V> {
    // flatten into list of (value, bits), then regroup
    let (ei, vi): (u32, Vec<V>) = match &m.types[ti as usize].ty {
        Ty::Vec(_, e) => (scalar_bits(m, *e), elems(x)?.clone()),
        _ => (scalar_bits(m, ti), vec![x.clone()]),
    };
    let (eo, no, vec) = match &m.types[to as usize].ty {
        Ty::Vec(n, e) => (scalar_bits(m, *e), *n as usize, true),
        _ => (scalar_bits(m, to), 1, false),
    };
    if ei == 0 || eo == 0 {
        return Err(Stop::Fatal("bitcast".into()));
    }
    let mut out = Vec::with_capacity(no);
    if ei == eo {
        out = vi;
    } else if ei > eo {
        let k = (ei / eo) as usize;
        for v in &vi {
            for j in 0..k {
                if let V::C(c) = v {
                    out.push(V::C((c >> (j as u32 * eo)) & m64(eo as u8)));
                } else {
                    let t = vt(v, ei as u8);
                    out.push(cv(tm().extract(t, (j as u32 * eo) as u8, eo as u8)));
                }
            }
        }
    } else {
        let k = (eo / ei) as usize;
        for g in vi.chunks(k) {
            if g.iter().all(|v| matches!(v, V::C(_))) {
                let mut r = 0u128;
                for (j, v) in g.iter().enumerate() {
                    if let V::C(c) = v {
                        r |= (*c as u128) << (j as u32 * ei);
                    }
                }
                out.push(if eo <= 64 { V::C(r as u64) } else { V::B(Rc::new(Big::W(r))) });
            } else {
                let mut acc = vt(&g[0], ei as u8);
                for v in &g[1..] {
                    let h = vt(v, ei as u8);
                    acc = tm().concat(h, acc);
                }
                out.push(cv(acc));
            }
        }
    }
    if vec {
        Ok(V::B(Rc::new(Big::A(out))))
    } else {
        Ok(out.pop().unwrap())
    }
}
