//! Hash-consed bit-vector terms (with IEEE operations), simplification and concrete evaluation.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    // comparisons (width 1)
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    // IEEE (operand width 32 or 64)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum U {
    Not,
    ZExt,
    SExt,
    // fp conversions and unary ops; result width in node
    FSqrt,
    FFloor,
    FCeil,
    FTrunc,
    FRound,     // ties away
    FRoundEven, // ties to even
    FExt,
    FTruncTo32,
    UToF,
    SToF,
    FToUSat,
    FToSSat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u128),
    Var(u32),
    Bin(B, T, T),
    Un(U, T),
    Concat(T, T), // hi, lo
    Extract(T, u8),
    Ite(T, T, T),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
}

pub struct Terms {
    pub nodes: Vec<Node>,
    map: FxMap<Node, T>,
    memo: Vec<(u32, u128)>,
    /// per term: the only variable in it (0: none, MAX: several), size as a tree
    pub sup: Vec<(T, u32)>,
    epoch: u32,
    pub nvars: u32,
    pub var_w: Vec<u8>,
    pub var_term: Vec<T>,
    pub var_ub: Vec<u128>,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

static mut TERMS: *mut Terms = std::ptr::null_mut();
pub fn tm() -> &'static mut Terms {
    unsafe {
        if TERMS.is_null() {
            TERMS = Box::into_raw(Box::new(Terms {
                nodes: vec![Node { op: Op::Const(0), w: 0 }],
                sup: vec![(0, 1)],
                map: FxMap::default(),
                memo: vec![(0, 0)],
                epoch: 0,
                nvars: 0,
                var_w: vec![],
                var_term: vec![],
                var_ub: vec![],
            }));
        }
        &mut *TERMS
    }
}

pub fn eval_bin(b: B, x: u128, y: u128, w: u8) -> u128 {
    let m = mask(w);
    match b {
        B::Add => x.wrapping_add(y) & m,
        B::Sub => x.wrapping_sub(y) & m,
        B::Mul => x.wrapping_mul(y) & m,
        B::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        B::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        B::SDiv => {
            let (a, c) = (sext(x, w), sext(y, w));
            if c == 0 {
                (if a < 0 { 1 } else { -1i128 }) as u128 & m
            } else {
                a.wrapping_div(c) as u128 & m
            }
        }
        B::SRem => {
            let (a, c) = (sext(x, w), sext(y, w));
            if c == 0 {
                x
            } else {
                a.wrapping_rem(c) as u128 & m
            }
        }
        B::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        B::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        B::AShr => {
            let a = sext(x, w);
            let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
            (a >> s) as u128 & m
        }
        B::And => x & y,
        B::Or => x | y,
        B::Xor => x ^ y,
        B::Eq => (x == y) as u128,
        B::Ult => (x < y) as u128,
        B::Ule => (x <= y) as u128,
        B::Slt => (sext(x, w) < sext(y, w)) as u128,
        B::Sle => (sext(x, w) <= sext(y, w)) as u128,
        B::FAdd | B::FSub | B::FMul | B::FDiv | B::FRem => {
            if w == 32 {
                let (a, c) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                (match b {
                    B::FAdd => a + c,
                    B::FSub => a - c,
                    B::FMul => a * c,
                    B::FDiv => a / c,
                    _ => a % c,
                })
                .to_bits() as u128
            } else {
                let (a, c) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                (match b {
                    B::FAdd => a + c,
                    B::FSub => a - c,
                    B::FMul => a * c,
                    B::FDiv => a / c,
                    _ => a % c,
                })
                .to_bits() as u128
            }
        }
    }
}

pub fn eval_un(u: U, x: u128, wi: u8, wo: u8) -> u128 {
    let m = mask(wo);
    let f = |g: &dyn Fn(f64) -> f64, h: &dyn Fn(f32) -> f32| -> u128 {
        if wi == 32 {
            h(f32::from_bits(x as u32)).to_bits() as u128
        } else {
            g(f64::from_bits(x as u64)).to_bits() as u128
        }
    };
    match u {
        U::Not => !x & m,
        U::ZExt => x,
        U::SExt => sext(x, wi) as u128 & m,
        U::FSqrt => f(&|a| a.sqrt(), &|a| a.sqrt()),
        U::FFloor => f(&|a| a.floor(), &|a| a.floor()),
        U::FCeil => f(&|a| a.ceil(), &|a| a.ceil()),
        U::FTrunc => f(&|a| a.trunc(), &|a| a.trunc()),
        U::FRound => f(&|a| a.round(), &|a| a.round()),
        U::FRoundEven => f(&|a| a.round_ties_even(), &|a| a.round_ties_even()),
        U::FExt => (f32::from_bits(x as u32) as f64).to_bits() as u128,
        U::FTruncTo32 => (f64::from_bits(x as u64) as f32).to_bits() as u128,
        U::UToF => {
            if wo == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        U::SToF => {
            let s = sext(x, wi);
            if wo == 32 {
                (s as f32).to_bits() as u128
            } else {
                (s as f64).to_bits() as u128
            }
        }
        U::FToUSat => {
            let v = if wi == 32 { f32::from_bits(x as u32) as u128 } else { f64::from_bits(x as u64) as u128 };
            v.min(m)
        }
        U::FToSSat => {
            let v = if wi == 32 { f32::from_bits(x as u32) as i128 } else { f64::from_bits(x as u64) as i128 };
            let hi = (m >> 1) as i128;
            v.clamp(-hi - 1, hi) as u128 & m
        }
    }
}

impl Terms {
    fn mk(&mut self, op: Op, w: u8) -> T {
        let n = Node { op, w };
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let t = self.nodes.len() as T;
        let mut sup = (0, 1u32);
        {
            let mut add = |x: T| {
                let (v, k) = self.sup[x as usize];
                sup.1 = sup.1.saturating_add(k);
                if v != 0 && v != sup.0 {
                    sup.0 = if sup.0 == 0 { v } else { T::MAX };
                }
            };
            match op {
                Op::Const(_) | Op::Var(_) => {}
                Op::Bin(_, a, b) | Op::Concat(a, b) => {
                    add(a);
                    add(b)
                }
                Op::Un(_, a) | Op::Extract(a, _) => add(a),
                Op::Ite(a, b, c) => {
                    add(a);
                    add(b);
                    add(c)
                }
            }
        }
        if let Op::Var(_) = op {
            sup.0 = t;
        }
        self.sup.push(sup);
        self.nodes.push(n);
        self.memo.push((0, 0));
        self.map.insert(n, t);
        t
    }
    pub fn w(&self, t: T) -> u8 {
        self.nodes[t as usize].w
    }
    pub fn op(&self, t: T) -> Op {
        self.nodes[t as usize].op
    }
    pub fn cst(&mut self, v: u128, w: u8) -> T {
        self.mk(Op::Const(v & mask(w)), w)
    }
    pub fn var(&mut self, w: u8) -> T {
        let id = self.nvars;
        self.nvars += 1;
        self.var_w.push(w);
        self.var_ub.push(mask(w));
        let t = self.mk(Op::Var(id), w);
        self.var_term.push(t);
        t
    }
    /// raw comparison, not simplified away by recorded bounds (used to assert the bounds themselves)
    pub fn raw_ule(&mut self, a: T, c: u128) -> T {
        let w = self.w(a);
        let k = self.cst(c, w);
        let lt = self.mk(Op::Bin(B::Ult, k, a), 1);
        self.mk(Op::Un(U::Not, lt), 1)
    }
    /// upper bound from variable bounds (structural)
    pub fn ub(&self, t: T) -> u128 {
        let n = self.nodes[t as usize];
        match n.op {
            Op::Const(c) => c,
            Op::Var(v) => self.var_ub[v as usize],
            Op::Un(U::ZExt, x) => self.ub(x),
            Op::Concat(h, l) => {
                if let Some(0) = self.as_c(h) {
                    self.ub(l)
                } else {
                    let wl = self.w(l);
                    (self.ub(h) << wl) | mask(wl)
                }
            }
            Op::Extract(x, 0) => self.ub(x).min(mask(n.w)),
            Op::Extract(x, lo) => (self.ub(x) >> lo).min(mask(n.w)),
            Op::Bin(B::Add, x, y) => {
                let s = self.ub(x).saturating_add(self.ub(y));
                s.min(mask(n.w)).max(if s > mask(n.w) { mask(n.w) } else { 0 })
            }
            Op::Bin(B::And, x, y) => self.ub(x).min(self.ub(y)),
            Op::Bin(B::UDiv, x, y) => match self.as_c(y) {
                Some(c) if c > 0 => self.ub(x) / c,
                _ => mask(n.w),
            },
            Op::Bin(B::Mul, x, y) => {
                let s = self.ub(x).saturating_mul(self.ub(y));
                if s > mask(n.w) { mask(n.w) } else { s }
            }
            _ => mask(n.w),
        }
    }
    /// upper bound, looking through if-then-else a little
    pub fn ub2(&self, t: T, depth: u32) -> u128 {
        let n = self.nodes[t as usize];
        match n.op {
            Op::Ite(_, a, b) if depth > 0 => self.ub2(a, depth - 1).max(self.ub2(b, depth - 1)),
            Op::Un(U::ZExt, x) => self.ub2(x, depth),
            _ => self.ub(t),
        }
    }
    /// lower bound, structural
    pub fn lb(&self, t: T) -> u128 {
        match self.nodes[t as usize].op {
            Op::Const(c) => c,
            Op::Un(U::ZExt, x) => self.lb(x),
            Op::Bin(B::Add, x, y) => {
                let w = self.w(t);
                match self.as_c(y).or(self.as_c(x)) {
                    Some(c) => {
                        let o = if self.as_c(y).is_some() { x } else { y };
                        if self.ub2(o, 2) <= mask(w) - c {
                            self.lb(o) + c
                        } else {
                            0
                        }
                    }
                    None => 0,
                }
            }
            _ => 0,
        }
    }
    /// x + c without wrap-around: (x, c)
    fn add_c(&self, t: T) -> Option<(T, u128)> {
        if let Op::Bin(B::Add, x, y) = self.op(t) {
            let (o, c) = match (self.as_c(x), self.as_c(y)) {
                (None, Some(c)) => (x, c),
                (Some(c), None) => (y, c),
                _ => return None,
            };
            if self.ub2(o, 2) <= mask(self.w(t)) - c {
                return Some((o, c));
            }
        }
        None
    }
    pub fn as_c(&self, t: T) -> Option<u128> {
        match self.nodes[t as usize].op {
            Op::Const(c) => Some(c),
            _ => None,
        }
    }
    pub fn not(&mut self, a: T) -> T {
        self.un(U::Not, a, self.w(a))
    }
    pub fn un(&mut self, u: U, a: T, w: u8) -> T {
        let wi = self.w(a);
        if let Some(c) = self.as_c(a) {
            let v = eval_un(u, c, wi, w);
            return self.cst(v, w);
        }
        match u {
            U::ZExt | U::SExt if w == wi => return a,
            U::Not => match self.op(a) {
                Op::Un(U::Not, x) => return x,
                Op::Bin(B::Ult, x, y) if w == 1 => return self.mk(Op::Bin(B::Ule, y, x), 1),
                Op::Bin(B::Ule, x, y) if w == 1 => return self.mk(Op::Bin(B::Ult, y, x), 1),
                Op::Bin(B::Slt, x, y) if w == 1 => return self.mk(Op::Bin(B::Sle, y, x), 1),
                Op::Bin(B::Sle, x, y) if w == 1 => return self.mk(Op::Bin(B::Slt, y, x), 1),
                _ => {}
            },
            U::ZExt => {
                if let Op::Un(U::ZExt, x) = self.op(a) {
                    return self.un(U::ZExt, x, w);
                }
            }
            U::SExt => {
                if let Op::Un(U::ZExt, x) = self.op(a) {
                    return self.un(U::ZExt, x, w);
                }
            }
            _ => {}
        }
        self.mk(Op::Un(u, a), w)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        if let Some(v) = self.as_c(c) {
            return if v != 0 { a } else { b };
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_c(a), self.as_c(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                _ => {}
            }
        }
        if let Op::Un(U::Not, x) = self.op(c) {
            return self.ite(x, b, a);
        }
        self.mk(Op::Ite(c, a, b), w)
    }
    pub fn extract(&mut self, a: T, lo: u8, w: u8) -> T {
        let wi = self.w(a);
        if lo == 0 && w == wi {
            return a;
        }
        match self.op(a) {
            Op::Const(c) => return self.cst(c >> lo, w),
            Op::Concat(h, l) => {
                let wl = self.w(l);
                if lo + w <= wl {
                    return self.extract(l, lo, w);
                }
                if lo >= wl {
                    return self.extract(h, lo - wl, w);
                }
                let el = self.extract(l, lo, wl - lo);
                let eh = self.extract(h, 0, w - (wl - lo));
                return self.concat(eh, el);
            }
            Op::Extract(x, l2) => return self.extract(x, l2 + lo, w),
            Op::Un(U::ZExt, x) => {
                let wx = self.w(x);
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
                if lo >= wx {
                    return self.cst(0, w);
                }
                let e = self.extract(x, lo, wx - lo);
                return self.un(U::ZExt, e, w);
            }
            Op::Un(U::SExt, x) => {
                let wx = self.w(x);
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
            }
            Op::Ite(c, x, y) => {
                let ex = self.extract(x, lo, w);
                let ey = self.extract(y, lo, w);
                return self.ite(c, ex, ey);
            }
            Op::Bin(b @ (B::And | B::Or | B::Xor), x, y) => {
                let ex = self.extract(x, lo, w);
                let ey = self.extract(y, lo, w);
                return self.bin(b, ex, ey);
            }
            Op::Bin(b @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 => {
                let ex = self.extract(x, 0, w);
                let ey = self.extract(y, 0, w);
                return self.bin(b, ex, ey);
            }
            Op::Un(U::Not, x) => {
                let ex = self.extract(x, lo, w);
                return self.not(ex);
            }
            Op::Bin(B::Shl, x, s) => {
                if let Some(k) = self.as_c(s) {
                    if k < 128 {
                        let k = k as u8;
                        if lo >= k {
                            return self.extract(x, lo - k, w);
                        }
                        if lo + w <= k {
                            return self.cst(0, w);
                        }
                    }
                }
            }
            Op::Bin(B::LShr, x, s) => {
                if let Some(k) = self.as_c(s) {
                    let wx = self.w(x) as u128;
                    if k + (lo as u128) + (w as u128) <= wx {
                        return self.extract(x, lo + k as u8, w);
                    }
                }
            }
            _ => {}
        }
        self.mk(Op::Extract(a, lo), w)
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        match (self.op(h), self.op(l)) {
            (Op::Const(a), Op::Const(b)) => return self.cst((a << wl) | b, w),
            (Op::Extract(a, la), Op::Extract(b, lb)) if a == b && la == lb + wl => {
                return self.extract(a, lb, w);
            }
            (Op::Extract(a, la), _) if a == l && la == wl => return self.extract(a, 0, w),
            (Op::Const(0), _) => return self.un(U::ZExt, l, w),
            (Op::Ite(c1, a1, b1), Op::Ite(c2, a2, b2)) if c1 == c2 => {
                let a = self.concat(a1, a2);
                let b = self.concat(b1, b2);
                return self.ite(c1, a, b);
            }
            (_, Op::Concat(h2, l2)) => {
                if let (Op::Extract(a, la), Op::Extract(b, lb)) = (self.op(h), self.op(h2)) {
                    if a == b && la == lb + self.w(h2) {
                        let wh2 = self.w(h2);
                        let e = self.extract(a, lb, wh + wh2);
                        return self.concat(e, l2);
                    }
                }
                if let (Op::Const(a), Op::Const(b)) = (self.op(h), self.op(h2)) {
                    let wh2 = self.w(h2);
                    let e = self.cst((a << wh2) | b, wh + wh2);
                    return self.concat(e, l2);
                }
            }
            _ => {}
        }
        self.mk(Op::Concat(h, l), w)
    }
    pub fn bin(&mut self, b: B, x: T, y: T) -> T {
        let w = self.w(x);
        debug_assert_eq!(w, self.w(y));
        let rw = match b {
            B::Eq | B::Ult | B::Ule | B::Slt | B::Sle => 1,
            _ => w,
        };
        let (cx, cy) = (self.as_c(x), self.as_c(y));
        if let (Some(a), Some(c)) = (cx, cy) {
            let v = eval_bin(b, a, c, w);
            return self.cst(v, rw);
        }
        let m = mask(w);
        match b {
            B::Add => {
                if cx == Some(0) {
                    return y;
                }
                if cy == Some(0) {
                    return x;
                }
                if cx.is_some() {
                    return self.bin(B::Add, y, x);
                }
                if let (Some(c), Op::Bin(B::Add, a, d)) = (cy, self.op(x)) {
                    if let Some(dc) = self.as_c(d) {
                        let k = self.cst(c.wrapping_add(dc), w);
                        return self.bin(B::Add, a, k);
                    }
                }
            }
            B::Sub => {
                if cy == Some(0) {
                    return x;
                }
                if x == y {
                    return self.cst(0, w);
                }
                if let Some(c) = cy {
                    let k = self.cst(c.wrapping_neg(), w);
                    return self.bin(B::Add, x, k);
                }
            }
            B::Mul => {
                if cx == Some(0) || cy == Some(0) {
                    return self.cst(0, w);
                }
                if cx == Some(1) {
                    return y;
                }
                if cy == Some(1) {
                    return x;
                }
                if cx.is_some() {
                    return self.bin(B::Mul, y, x);
                }
                if let Some(c) = cy {
                    if c.is_power_of_two() {
                        let k = self.cst(c.trailing_zeros() as u128, w);
                        return self.bin(B::Shl, x, k);
                    }
                }
            }
            B::UDiv | B::SDiv if cy == Some(1) => return x,
            B::UDiv => {
                if let Some(c) = cy {
                    if c.is_power_of_two() {
                        let k = self.cst(c.trailing_zeros() as u128, w);
                        return self.bin(B::LShr, x, k);
                    }
                }
            }
            B::URem => {
                if let Some(c) = cy {
                    if c.is_power_of_two() {
                        let k = self.cst(c - 1, w);
                        return self.bin(B::And, x, k);
                    }
                }
            }
            B::Shl | B::LShr | B::AShr => {
                if cy == Some(0) {
                    return x;
                }
                if cx == Some(0) {
                    return x;
                }
                if let Some(c) = cy {
                    if c >= w as u128 && b != B::AShr {
                        return self.cst(0, w);
                    }
                    if c < w as u128 {
                        let k = c as u8;
                        if b == B::LShr {
                            let e = self.extract(x, k, w - k);
                            return self.un(U::ZExt, e, w);
                        }
                        if b == B::Shl {
                            let e = self.extract(x, 0, w - k);
                            let z = self.cst(0, k);
                            return self.concat(e, z);
                        }
                    }
                }
            }
            B::And => {
                if cx.is_some() {
                    return self.bin(B::And, y, x);
                }
                if x == y {
                    return x;
                }
                if cy == Some(0) {
                    return y;
                }
                if cy == Some(m) {
                    return x;
                }
                if let Some(c) = cy {
                    // low mask
                    if (c & (c + 1)) == 0 {
                        let k = (128 - c.leading_zeros()) as u8;
                        let e = self.extract(x, 0, k);
                        return self.un(U::ZExt, e, w);
                    }
                }
                if w == 1 && self.op(x) == Op::Un(U::Not, y) || self.op(y) == Op::Un(U::Not, x) {
                    return self.cst(0, w);
                }
            }
            B::Or => {
                if cx.is_some() {
                    return self.bin(B::Or, y, x);
                }
                if x == y {
                    return x;
                }
                if cy == Some(0) {
                    return x;
                }
                if cy == Some(m) {
                    return y;
                }
                // or of disjoint zext / shifted parts -> concat
                if let (Op::Un(U::ZExt, a), Op::Concat(h, l)) = (self.op(x), self.op(y)) {
                    if self.as_c(l) == Some(0) && self.w(a) <= self.w(l) {
                        let wl = self.w(l);
                        let e = self.un(U::ZExt, a, wl);
                        return self.concat(h, e);
                    }
                }
                if let (Op::Un(U::ZExt, a), Op::Concat(h, l)) = (self.op(y), self.op(x)) {
                    if self.as_c(l) == Some(0) && self.w(a) <= self.w(l) {
                        let wl = self.w(l);
                        let e = self.un(U::ZExt, a, wl);
                        return self.concat(h, e);
                    }
                }
            }
            B::Xor => {
                if cx.is_some() {
                    return self.bin(B::Xor, y, x);
                }
                if x == y {
                    return self.cst(0, w);
                }
                if cy == Some(0) {
                    return x;
                }
                if cy == Some(m) {
                    return self.not(x);
                }
                if let (Some(c), Op::Bin(B::Xor, a, d)) = (cy, self.op(x)) {
                    if let Some(dc) = self.as_c(d) {
                        let k = self.cst(c ^ dc, w);
                        return self.bin(B::Xor, a, k);
                    }
                }
            }
            B::Eq => {
                if x == y {
                    return self.cst(1, 1);
                }
                if cx.is_some() {
                    return self.bin(B::Eq, y, x);
                }
                if let Some(c) = cy {
                    if w == 1 {
                        return if c == 1 { x } else { self.not(x) };
                    }
                    match self.op(x) {
                        Op::Un(U::ZExt, a) => {
                            let wa = self.w(a);
                            if c > mask(wa) {
                                return self.cst(0, 1);
                            }
                            let k = self.cst(c, wa);
                            return self.bin(B::Eq, a, k);
                        }
                        Op::Bin(B::Xor, a, d) => {
                            if let Some(dc) = self.as_c(d) {
                                let k = self.cst(c ^ dc, w);
                                return self.bin(B::Eq, a, k);
                            }
                        }
                        Op::Bin(B::Add, a, d) => {
                            if let Some(dc) = self.as_c(d) {
                                let k = self.cst(c.wrapping_sub(dc), w);
                                return self.bin(B::Eq, a, k);
                            }
                        }
                        Op::Concat(h, l) => {
                            let (wh, wl) = (self.w(h), self.w(l));
                            let kh = self.cst(c >> wl, wh);
                            let kl = self.cst(c, wl);
                            let a = self.bin(B::Eq, h, kh);
                            let d = self.bin(B::Eq, l, kl);
                            return self.bin(B::And, a, d);
                        }
                        Op::Ite(k, a, d) => {
                            let (ca, cd) = (self.as_c(a), self.as_c(d));
                            if ca.is_some() || cd.is_some() {
                                let ea = self.bin(B::Eq, a, y);
                                let ed = self.bin(B::Eq, d, y);
                                return self.ite(k, ea, ed);
                            }
                        }
                        _ => {}
                    }
                }
                // both negations of floats
                if let (Op::Bin(B::Xor, a, c1), Op::Bin(B::Xor, d, c2)) = (self.op(x), self.op(y)) {
                    if c1 == c2 && self.as_c(c1).is_some() {
                        return self.bin(B::Eq, a, d);
                    }
                }
                if let (Op::Un(U::ZExt, a), Op::Un(U::ZExt, d)) = (self.op(x), self.op(y)) {
                    if self.w(a) == self.w(d) {
                        return self.bin(B::Eq, a, d);
                    }
                }
                if x > y {
                    return self.mk(Op::Bin(B::Eq, y, x), 1);
                }
            }
            B::Ult => {
                if x == y || cy == Some(0) || cx == Some(m) {
                    return self.cst(0, 1);
                }
                if cy == Some(1) {
                    let z = self.cst(0, w);
                    return self.bin(B::Eq, x, z);
                }
                if let Some(c) = cx {
                    if self.ub2(y, 4) <= c {
                        return self.cst(0, 1);
                    }
                    if c < self.lb(y) {
                        return self.cst(1, 1);
                    }
                }
                if let Some(c) = cy {
                    if self.lb(x) >= c {
                        return self.cst(0, 1);
                    }
                }
                if let (Some((a, p)), Some((d, q))) = (self.add_c(x), self.add_c(y)) {
                    if p == q {
                        return self.bin(B::Ult, a, d);
                    }
                }
                if let Some(c) = cy {
                    if self.ub2(x, 4) < c {
                        return self.cst(1, 1);
                    }
                }
                if let (Op::Un(U::ZExt, a), Some(c)) = (self.op(x), cy) {
                    let wa = self.w(a);
                    if c > mask(wa) {
                        return self.cst(1, 1);
                    }
                    let k = self.cst(c, wa);
                    return self.bin(B::Ult, a, k);
                }
                if let (Some(c), Op::Un(U::ZExt, a)) = (cx, self.op(y)) {
                    let wa = self.w(a);
                    if c >= mask(wa) {
                        return self.cst(0, 1);
                    }
                    let k = self.cst(c, wa);
                    return self.bin(B::Ult, k, a);
                }
                if let (Op::Un(U::ZExt, a), Op::Un(U::ZExt, d)) = (self.op(x), self.op(y)) {
                    if self.w(a) == self.w(d) {
                        return self.bin(B::Ult, a, d);
                    }
                }
            }
            B::Ule => {
                if x == y || cx == Some(0) || cy == Some(m) {
                    return self.cst(1, 1);
                }
                let r = self.bin(B::Ult, y, x);
                return self.not(r);
            }
            B::Slt => {
                if x == y {
                    return self.cst(0, 1);
                }
                // zero-extended operands are non-negative
                let zx = matches!(self.op(x), Op::Un(U::ZExt, _)) || cx.map_or(false, |c| c <= m >> 1);
                let zy = matches!(self.op(y), Op::Un(U::ZExt, _)) || cy.map_or(false, |c| c <= m >> 1);
                if zx && zy {
                    return self.bin(B::Ult, x, y);
                }
            }
            B::Sle => {
                if x == y {
                    return self.cst(1, 1);
                }
                let r = self.bin(B::Slt, y, x);
                return self.not(r);
            }
            _ => {}
        }
        self.mk(Op::Bin(b, x, y), rw)
    }
    /// Concrete value of `t` under a model (unset variables are 0).
    pub fn show(&self, t: T, d: u32) -> String {
        if d == 0 {
            return "..".into();
        }
        match self.op(t) {
            Op::Const(c) => format!("{}", c),
            Op::Var(i) => format!("v{}", i),
            Op::Un(u, x) => format!("({:?} {})", u, self.show(x, d - 1)),
            Op::Bin(b, x, y) => format!("({:?} {} {})", b, self.show(x, d - 1), self.show(y, d - 1)),
            Op::Ite(c, x, y) => format!("(ite {} {} {})", self.show(c, d - 1), self.show(x, d - 1), self.show(y, d - 1)),
            o => format!("{:?}:{}", o, self.w(t)),
        }
    }
    pub fn eval(&mut self, t: T, model: &[u128]) -> u128 {
        self.epoch += 1;
        self.ev(t, model)
    }
    fn ev(&mut self, t: T, model: &[u128]) -> u128 {
        let n = self.nodes[t as usize];
        match n.op {
            Op::Const(c) => return c,
            Op::Var(v) => return model.get(v as usize).copied().unwrap_or(0) & mask(n.w),
            _ => {}
        }
        let me = self.memo[t as usize];
        if me.0 == self.epoch {
            return me.1;
        }
        let r = match n.op {
            Op::Bin(b, x, y) => {
                let w = self.w(x);
                let a = self.ev(x, model);
                let c = self.ev(y, model);
                eval_bin(b, a, c, w)
            }
            Op::Un(u, x) => {
                let wi = self.w(x);
                let a = self.ev(x, model);
                eval_un(u, a, wi, n.w)
            }
            Op::Concat(h, l) => {
                let wl = self.w(l);
                (self.ev(h, model) << wl) | self.ev(l, model)
            }
            Op::Extract(x, lo) => (self.ev(x, model) >> lo) & mask(n.w),
            Op::Ite(c, a, b) => {
                if self.ev(c, model) != 0 {
                    self.ev(a, model)
                } else {
                    self.ev(b, model)
                }
            }
            _ => unreachable!(),
        };
        self.memo[t as usize] = (self.epoch, r);
        r
    }
}
