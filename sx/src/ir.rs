//! Parser for textual LLVM IR (opaque pointers) into a compact executable form.
use crate::term::FxMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, TyId),
    Vec(u64, TyId),
    Struct(Vec<TyId>, Vec<u64>), // fields, offsets
    Other,
}
pub struct TyInfo {
    pub ty: Ty,
    pub size: u64,
    pub align: u64,
}

/// Register value.
#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(u32),
    B(Rc<Big>),
}
#[derive(Clone, Debug)]
pub enum Big {
    W(u128),
    A(Vec<V>),
}

/// operand: register or (high bit) pooled constant
pub type O = u32;
pub const CF: u32 = 1 << 31;
pub type R = u32;
pub const NOREG: R = u32::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum IP {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
    Bit,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Nand,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Debug)]
pub enum Callee {
    Fn(u32),
    Ind(O),
    Asm(String),
}

#[derive(Debug)]
pub enum I {
    Nop,
    Bin { op: BinOp, w: u8, lanes: u16, d: R, a: O, b: O },
    Icmp { p: IP, w: u8, lanes: u16, d: R, a: O, b: O },
    Fcmp { p: u8, w: u8, lanes: u16, d: R, a: O, b: O },
    FNeg { w: u8, lanes: u16, d: R, a: O },
    Cast { k: Cast, wi: u32, wo: u32, lanes: u16, ti: TyId, to: TyId, d: R, a: O },
    Sel { d: R, c: O, a: O, b: O, lanes: u16, w: u8 },
    Load { d: R, ty: TyId, p: O },
    LoadI { d: R, n: u8, w: u8, p: O },
    Store { ty: TyId, v: O, p: O },
    StoreI { n: u8, v: O, p: O },
    Gep { d: R, base: O, off: i64, idx: Box<[(O, i64, u8)]> },
    Alloca { d: R, size: u64, cnt: O },
    Br(u32),
    CondBr { c: O, t: u32, f: u32 },
    Switch { v: O, w: u8, def: u32, cases: Box<[(u128, u32)]> },
    Ret(O),
    RetVoid,
    Unreachable,
    Call { d: R, callee: Callee, args: Box<[O]>, tys: Box<[TyId]>, rty: TyId, edge: u32 },
    ExtV { d: R, a: O, path: Box<[u32]> },
    InsV { d: R, a: O, v: O, path: Box<[u32]> },
    ExtE { d: R, a: O, i: O },
    InsE { d: R, a: O, v: O, i: O },
    Shuf { d: R, a: O, b: O, mask: Box<[i32]>, n: u32 },
    Rmw { op: Rmw, w: u8, d: R, p: O, v: O },
    CmpX { w: u8, d: R, p: O, old: O, new: O, acq: bool },
    Copy { d: R, a: O },
}

pub struct Edge {
    pub target: u32, // instruction index
    pub moves: Vec<(R, O)>,
}

pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub nargs: u32,
    pub code: Vec<I>,
    pub edges: Vec<Edge>,
    pub defined: bool,
}

pub struct Global {
    pub name: String,
    pub size: u64,
    pub init: Vec<u8>,
    pub tls: bool,
    pub constant: bool,
    pub external: bool,
}

pub struct Module {
    pub types: Vec<TyInfo>,
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub pool: Vec<V>,
    pub fidx: FxMap<String, u32>,
    pub gidx: FxMap<String, u32>,
    pub alias: FxMap<String, String>,
}

pub const FN_BASE: u64 = 1 << 60;
pub fn gaddr(i: u32) -> u64 {
    (i as u64 + 1) << 32
}
pub fn faddr(i: u32) -> u64 {
    FN_BASE + (i as u64) * 16
}

struct TyTab {
    v: Vec<TyInfo>,
    named: FxMap<String, TyId>,
    cache: FxMap<String, TyId>,
}

impl TyTab {
    fn add(&mut self, key: String, ty: Ty) -> TyId {
        if let Some(&t) = self.cache.get(&key) {
            return t;
        }
        let (size, align) = match &ty {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = b.next_power_of_two().min(16);
                ((b + a - 1) / a * a, a)
            }
            Ty::F32 => (4, 4),
            Ty::F64 | Ty::Ptr => (8, 8),
            Ty::Arr(n, t) => (n * self.v[*t as usize].size, self.v[*t as usize].align),
            Ty::Vec(n, t) => {
                let bits = match &self.v[*t as usize].ty {
                    Ty::Int(w) => *w as u64,
                    _ => self.v[*t as usize].size * 8,
                };
                let b = (bits * *n + 7) / 8;
                let b = b.next_power_of_two();
                (b, b)
            }
            Ty::Struct(f, o) => {
                let packed = key.starts_with('<');
                let a = if packed { 1 } else { f.iter().map(|t| self.v[*t as usize].align).max().unwrap_or(1) };
                let end = f.last().map_or(0, |t| o.last().unwrap() + self.v[*t as usize].size);
                ((end + a - 1) / a * a, a)
            }
        };
        let id = self.v.len() as TyId;
        self.v.push(TyInfo { ty, size, align });
        self.cache.insert(key, id);
        id
    }
    fn mk_struct(&mut self, f: Vec<TyId>, packed: bool) -> TyId {
        let mut off = 0;
        let mut offs = vec![];
        for t in &f {
            let a = if packed { 1 } else { self.v[*t as usize].align };
            off = (off + a - 1) / a * a;
            offs.push(off);
            off += self.v[*t as usize].size;
        }
        let key = format!("{}{:?}", if packed { "<" } else { "{" }, f);
        self.add(key, Ty::Struct(f, offs))
    }
}

struct Lx<'a> {
    s: &'a [u8],
    p: usize,
}

impl<'a> Lx<'a> {
    fn new(s: &'a str) -> Self {
        Lx { s: s.as_bytes(), p: 0 }
    }
    fn ws(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t') {
            self.p += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.s.len() {
            self.s[self.p]
        } else {
            0
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.p..].starts_with(t.as_bytes()) {
            let e = self.p + t.len();
            let last = t.as_bytes()[t.len() - 1];
            if last.is_ascii_alphanumeric() && e < self.s.len() && (self.s[e].is_ascii_alphanumeric() || self.s[e] == b'_' || self.s[e] == b'.') {
                return false;
            }
            self.p = e;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, t: &str) {
        if !self.eat(t) {
            self.fail(&format!("expected `{}`", t));
        }
    }
    fn fail(&self, m: &str) -> ! {
        let s = String::from_utf8_lossy(self.s);
        eprintln!("IR parse error: {} at {} in: {}", m, self.p, &s[..s.len().min(600)]);
        std::process::exit(3)
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let b = self.p;
        while self.p < self.s.len() {
            let c = self.s[self.p];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' {
                self.p += 1
            } else {
                break;
            }
        }
        std::str::from_utf8(&self.s[b..self.p]).unwrap()
    }
    /// name after % or @ (sigil already consumed)
    fn name(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            let b = self.p + 1;
            let mut e = b;
            while self.s[e] != b'"' {
                e += 1
            }
            self.p = e + 1;
            String::from_utf8_lossy(&self.s[b..e]).into_owned()
        } else {
            self.word().to_string()
        }
    }
    /// skip balanced parens if present
    fn parens(&mut self) {
        if self.peek() == b'(' {
            let mut d = 0;
            while self.p < self.s.len() {
                match self.s[self.p] {
                    b'(' => d += 1,
                    b')' => {
                        d -= 1;
                        if d == 0 {
                            self.p += 1;
                            return;
                        }
                    }
                    b'"' => {
                        self.p += 1;
                        while self.s[self.p] != b'"' {
                            self.p += 1
                        }
                    }
                    _ => {}
                }
                self.p += 1;
            }
        }
    }
}

pub struct Parser {
    tt: TyTab,
    pool: Vec<V>,
    cpool: FxMap<(u64, u8), O>,
    fidx: FxMap<String, u32>,
    gidx: FxMap<String, u32>,
    alias: FxMap<String, String>,
}

struct FnCtx {
    regs: FxMap<String, R>,
    blocks: FxMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: String) -> R {
        let l = self.regs.len() as R;
        *self.regs.entry(n).or_insert(l)
    }
}

const PATTRS: &[&str] = &[
    "noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly", "zeroext", "signext", "inreg", "returned", "immarg",
    "nofree", "dead_on_unwind", "writable", "swiftself", "nest", "allocptr", "allocalign", "noext", "dead_on_return",
];

impl Parser {
    fn ty(&mut self, l: &mut Lx) -> TyId {
        let c = l.peek();
        match c {
            b'[' => {
                l.exp("[");
                let n: u64 = l.word().parse().unwrap();
                l.exp("x");
                let t = self.ty(l);
                l.exp("]");
                self.tt.add(format!("[{}x{}", n, t), Ty::Arr(n, t))
            }
            b'<' => {
                l.exp("<");
                if l.peek() == b'{' {
                    l.exp("{");
                    let f = self.fields(l);
                    l.exp(">");
                    return self.tt.mk_struct(f, true);
                }
                let n: u64 = l.word().parse().unwrap_or_else(|_| l.fail("vector"));
                l.exp("x");
                let t = self.ty(l);
                l.exp(">");
                self.tt.add(format!("v{}x{}", n, t), Ty::Vec(n, t))
            }
            b'{' => {
                l.exp("{");
                let f = self.fields(l);
                self.tt.mk_struct(f, false)
            }
            b'%' => {
                l.p += 1;
                let n = l.name();
                match self.tt.named.get(&n) {
                    Some(t) => *t,
                    None => l.fail("named type"),
                }
            }
            _ => {
                let w = l.word();
                match w {
                    "void" => self.tt.add("void".into(), Ty::Void),
                    "ptr" => self.tt.add("ptr".into(), Ty::Ptr),
                    "float" => self.tt.add("f32".into(), Ty::F32),
                    "double" => self.tt.add("f64".into(), Ty::F64),
                    "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" | "bfloat" => self.tt.add(w.into(), Ty::Other),
                    _ => {
                        if let Some(n) = w.strip_prefix('i').and_then(|x| x.parse::<u32>().ok()) {
                            self.tt.add(w.into(), Ty::Int(n))
                        } else {
                            l.fail(&format!("type {}", w))
                        }
                    }
                }
            }
        }
    }
    fn fields(&mut self, l: &mut Lx) -> Vec<TyId> {
        let mut f = vec![];
        loop {
            if l.eat("}") {
                return f;
            }
            f.push(self.ty(l));
            l.eat(",");
        }
    }
    fn c64(&mut self, v: u64) -> O {
        if let Some(&o) = self.cpool.get(&(v, 0)) {
            return o;
        }
        let o = self.cst(V::C(v));
        self.cpool.insert((v, 0), o);
        o
    }
    fn cst(&mut self, v: V) -> O {
        self.pool.push(v);
        (self.pool.len() as u32 - 1) | CF
    }
    fn zero(&mut self, t: TyId) -> V {
        match &self.tt.v[t as usize].ty {
            Ty::Arr(n, e) => {
                let (n, e) = (*n, *e);
                let z = self.zero(e);
                V::B(Rc::new(Big::A(vec![z; n as usize])))
            }
            Ty::Vec(n, e) => {
                let (n, e) = (*n, *e);
                let z = self.zero(e);
                V::B(Rc::new(Big::A(vec![z; n as usize])))
            }
            Ty::Struct(f, _) => {
                let f = f.clone();
                let z = f.iter().map(|t| self.zero(*t)).collect();
                V::B(Rc::new(Big::A(z)))
            }
            Ty::Int(w) if *w > 64 => V::B(Rc::new(Big::W(0))),
            _ => V::C(0),
        }
    }
    fn sym(&self, n: &str, l: &Lx) -> u64 {
        let mut n = n;
        while let Some(a) = self.alias.get(n) {
            n = a;
        }
        if let Some(&g) = self.gidx.get(n) {
            return gaddr(g);
        }
        if let Some(&f) = self.fidx.get(n) {
            return faddr(f);
        }
        l.fail(&format!("unknown symbol {}", n))
    }
    /// constant of type t
    fn konst(&mut self, l: &mut Lx, t: TyId) -> V {
        let c = l.peek();
        let ty = self.tt.v[t as usize].ty.clone();
        match c {
            b'@' => {
                l.p += 1;
                let n = l.name();
                V::C(self.sym(&n, l))
            }
            b'-' | b'0'..=b'9' => {
                let w = l.word();
                match ty {
                    Ty::F32 | Ty::F64 if w == "-inf" || w == "-nan" || w == "-qnan" => {
                        let d = if w == "-inf" { f64::NEG_INFINITY } else { -f64::NAN };
                        if let Ty::F32 = ty {
                            V::C((d as f32).to_bits() as u64)
                        } else {
                            V::C(d.to_bits())
                        }
                    }
                    Ty::F32 | Ty::F64 => {
                        let d = if let Some(h) = w.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                        } else {
                            // word() stops at '+': handle exponents like 1.0e+10
                            let mut s = w.to_string();
                            if l.p < l.s.len() && l.s[l.p] == b'+' {
                                l.p += 1;
                                s.push('+');
                                s.push_str(l.word());
                            }
                            s.parse::<f64>().unwrap_or_else(|_| l.fail("float"))
                        };
                        if let Ty::F32 = ty {
                            V::C((d as f32).to_bits() as u64)
                        } else {
                            V::C(d.to_bits())
                        }
                    }
                    Ty::Int(wd) => {
                        let v: i128 = if wd > 64 {
                            w.parse::<i128>().or_else(|_| w.parse::<u128>().map(|x| x as i128)).unwrap_or_else(|_| l.fail("bigint"))
                        } else {
                            w.parse().unwrap_or_else(|_| l.fail("int"))
                        };
                        if wd > 64 {
                            V::B(Rc::new(Big::W(v as u128 & crate::term::mask(wd as u8))))
                        } else {
                            V::C(v as u64 & crate::term::mask(wd as u8) as u64)
                        }
                    }
                    _ => l.fail("number"),
                }
            }
            b'c' if l.p + 1 < l.s.len() && l.s[l.p + 1] == b'"' => {
                l.p += 2;
                let mut v = vec![];
                while l.s[l.p] != b'"' {
                    if l.s[l.p] == b'\\' && l.s[l.p + 1] == b'\\' {
                        v.push(V::C(b'\\' as u64));
                        l.p += 2;
                    } else if l.s[l.p] == b'\\' {
                        let h = std::str::from_utf8(&l.s[l.p + 1..l.p + 3]).unwrap();
                        v.push(V::C(u64::from_str_radix(h, 16).unwrap()));
                        l.p += 3;
                    } else {
                        v.push(V::C(l.s[l.p] as u64));
                        l.p += 1;
                    }
                }
                l.p += 1;
                V::B(Rc::new(Big::A(v)))
            }
            b'[' | b'{' | b'<' => {
                let mut packed = false;
                l.p += 1;
                if c == b'<' && l.peek() == b'{' {
                    l.p += 1;
                    packed = true;
                }
                let close: &[u8] = match c {
                    b'[' => b"]",
                    b'{' => b"}",
                    _ => {
                        if packed {
                            b"}>"
                        } else {
                            b">"
                        }
                    }
                };
                let mut v = vec![];
                loop {
                    let k = l.peek();
                    if k == close[0] {
                        l.p += close.len();
                        break;
                    }
                    let et = self.ty(l);
                    v.push(self.konst(l, et));
                    l.eat(",");
                }
                V::B(Rc::new(Big::A(v)))
            }
            b'+' => {
                l.p += 1;
                let w = l.word();
                match (ty, w) {
                    (Ty::F32, "inf") => V::C(f32::INFINITY.to_bits() as u64),
                    (Ty::F64, "inf") => V::C(f64::INFINITY.to_bits()),
                    (Ty::F32, "qnan" | "nan") => V::C(f32::NAN.to_bits() as u64),
                    (Ty::F64, "qnan" | "nan") => V::C(f64::NAN.to_bits()),
                    _ => l.fail("float"),
                }
            }
            _ => {
                let w = l.word();
                if let Some(h) = w.strip_prefix("f0x") {
                    return V::C(u64::from_str_radix(h, 16).unwrap_or_else(|_| l.fail("float")));
                }
                match w {
                    "true" => V::C(1),
                    "false" => V::C(0),
                    "null" | "none" => V::C(0),
                    "undef" | "poison" | "zeroinitializer" => self.zero(t),
                    "splat" => {
                        l.exp("(");
                        let et = self.ty(l);
                        let v = self.konst(l, et);
                        l.exp(")");
                        let n = match ty {
                            Ty::Vec(n, _) => n as usize,
                            _ => l.fail("splat"),
                        };
                        V::B(Rc::new(Big::A(vec![v; n])))
                    }
                    "getelementptr" => {
                        while !l.eat("(") {
                            let _ = l.word();
                            if l.peek() == b'(' && l.s[..l.p].ends_with(b"inrange") {
                                l.parens();
                            }
                        }
                        let mut et = self.ty(l);
                        l.exp(",");
                        let bt = self.ty(l);
                        let base = match self.konst(l, bt) {
                            V::C(c) => c,
                            _ => l.fail("gep base"),
                        };
                        let mut off = 0i64;
                        let mut first = true;
                        while l.eat(",") {
                            let it = self.ty(l);
                            let iw = self.intw(it);
                            let iv = match self.konst(l, it) {
                                V::C(c) => crate::term::sext(c as u128, iw as u8) as i64,
                                _ => l.fail("gep idx"),
                            };
                            if first {
                                off += iv * self.tt.v[et as usize].size as i64;
                                first = false;
                            } else {
                                match self.tt.v[et as usize].ty.clone() {
                                    Ty::Struct(f, o) => {
                                        off += o[iv as usize] as i64;
                                        et = f[iv as usize];
                                    }
                                    Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                        off += iv * self.tt.v[e as usize].size as i64;
                                        et = e;
                                    }
                                    _ => l.fail("gep"),
                                }
                            }
                        }
                        l.exp(")");
                        V::C(base.wrapping_add(off as u64))
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" => {
                        l.exp("(");
                        let st = self.ty(l);
                        let v = self.konst(l, st);
                        l.exp("to");
                        let dt = self.ty(l);
                        l.exp(")");
                        match (&self.tt.v[dt as usize].ty, v) {
                            (Ty::Int(w), V::C(c)) if *w <= 64 => V::C(c & crate::term::mask(*w as u8) as u64),
                            (_, v) => v,
                        }
                    }
                    "sub" | "add" | "xor" | "and" | "or" | "mul" => {
                        while !l.eat("(") {
                            l.word();
                        }
                        let t1 = self.ty(l);
                        let a = self.konst(l, t1);
                        l.exp(",");
                        let t2 = self.ty(l);
                        let b = self.konst(l, t2);
                        l.exp(")");
                        let w = self.intw(t1);
                        match (a, b) {
                            (V::C(a), V::C(b)) => V::C(
                                (match w_op(w_name(w), a, b, l, w) {
                                    x => x,
                                }),
                            ),
                            _ => l.fail("const op"),
                        }
                    }
                    _ => l.fail(&format!("constant {}", w)),
                }
            }
        }
    }
    fn intw(&self, t: TyId) -> u32 {
        match &self.tt.v[t as usize].ty {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            Ty::Vec(_, e) => self.intw(*e),
            _ => 64,
        }
    }
    fn lanes(&self, t: TyId) -> u16 {
        match &self.tt.v[t as usize].ty {
            Ty::Vec(n, _) => *n as u16,
            _ => 0,
        }
    }
    fn opnd(&mut self, l: &mut Lx, t: TyId, f: &mut FnCtx) -> O {
        if l.peek() == b'%' {
            l.p += 1;
            let n = l.name();
            return f.reg(n);
        }
        match self.konst(l, t) {
            V::C(c) => self.c64(c),
            v => self.cst(v),
        }
    }
    fn top(&mut self, l: &mut Lx, f: &mut FnCtx) -> (TyId, O) {
        let t = self.ty(l);
        let o = self.opnd(l, t, f);
        (t, o)
    }
    fn attrs(&mut self, l: &mut Lx) {
        loop {
            let c = l.peek();
            if c == b'"' {
                l.p += 1;
                while l.s[l.p] != b'"' {
                    l.p += 1
                }
                l.p += 1;
                if l.p < l.s.len() && l.s[l.p] == b'=' {
                    l.p += 2;
                    while l.s[l.p] != b'"' {
                        l.p += 1
                    }
                    l.p += 1;
                }
                continue;
            }
            if !c.is_ascii_alphabetic() {
                return;
            }
            let save = l.p;
            let w = l.word();
            if PATTRS.contains(&w) {
                if w == "dead_on_return" {
                    l.parens();
                }
                continue;
            }
            match w {
                "align" | "alignstack" => {
                    if l.peek() == b'(' {
                        l.parens();
                    } else {
                        l.word();
                    }
                }
                "dereferenceable" | "dereferenceable_or_null" | "captures" | "sret" | "byval" | "range" | "initializes" | "elementtype"
                | "nofpclass" | "byref" | "inalloca" | "preallocated" => l.parens(),
                _ => {
                    l.p = save;
                    return;
                }
            }
        }
    }
    fn label(&mut self, l: &mut Lx, f: &FnCtx) -> u32 {
        l.exp("label");
        l.ws();
        l.exp("%");
        let n = l.name();
        match f.blocks.get(&n) {
            Some(b) => *b,
            None => l.fail("label"),
        }
    }

    fn call(&mut self, l: &mut Lx, f: &mut FnCtx, d: R, dst_names: &FxMap<String, u32>) -> I {
        let _ = dst_names;
        // calling convention, fast-math flags, return attributes
        loop {
            self.attrs(l);
            let save = l.p;
            let w = l.word();
            match w {
                "fastcc" | "ccc" | "coldcc" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "preserve_mostcc"
                | "preserve_allcc" | "tailcc" => continue,
                _ => {
                    l.p = save;
                    break;
                }
            }
        }
        let rty = self.ty(l);
        // optional function type
        if l.peek() == b'(' {
            l.parens();
        }
        let callee;
        if l.eat("asm") {
            while l.peek() != b'"' {
                l.word();
            }
            l.p += 1;
            let b = l.p;
            while l.s[l.p] != b'"' {
                l.p += 1
            }
            let a = String::from_utf8_lossy(&l.s[b..l.p]).into_owned();
            l.p += 1;
            l.exp(",");
            l.ws();
            l.p += 1;
            while l.s[l.p] != b'"' {
                l.p += 1
            }
            l.p += 1;
            callee = Callee::Asm(a);
        } else if l.peek() == b'@' {
            l.p += 1;
            let mut n = l.name();
            while let Some(a) = self.alias.get(&n) {
                n = a.clone();
            }
            match self.fidx.get(&n) {
                Some(i) => callee = Callee::Fn(*i),
                None => l.fail(&format!("callee {}", n)),
            }
        } else {
            let pt = self.tt.add("ptr".into(), Ty::Ptr);
            callee = Callee::Ind(self.opnd(l, pt, f));
        }
        l.exp("(");
        let mut args = vec![];
        let mut tys = vec![];
        loop {
            if l.eat(")") {
                break;
            }
            if l.eat("metadata") {
                // skip metadata argument
                let mut depth = 0;
                loop {
                    match l.s[l.p] {
                        b'(' => depth += 1,
                        b')' if depth == 0 => break,
                        b')' => depth -= 1,
                        b',' if depth == 0 => break,
                        _ => {}
                    }
                    l.p += 1;
                }
                l.eat(",");
                continue;
            }
            let t = self.ty(l);
            self.attrs(l);
            let o = self.opnd(l, t, f);
            args.push(o);
            tys.push(t);
            l.eat(",");
        }
        I::Call { d, callee, args: args.into(), tys: tys.into(), rty, edge: u32::MAX }
    }
}

fn w_name(_w: u32) -> &'static str {
    ""
}
fn w_op(_n: &str, a: u64, b: u64, l: &Lx, w: u32) -> u64 {
    // find operator name before the parenthesis is lost; only `sub`, `add`, `xor` occur in practice
    let s = String::from_utf8_lossy(&l.s[..l.p]);
    let k = s.rfind("sub (").map(|i| (i, 0)).into_iter().chain(s.rfind("add (").map(|i| (i, 1))).chain(s.rfind("xor (").map(|i| (i, 2))).max();
    let r = match k {
        Some((_, 0)) => a.wrapping_sub(b),
        Some((_, 1)) => a.wrapping_add(b),
        Some((_, 2)) => a ^ b,
        _ => l.fail("const op"),
    };
    r & crate::term::mask(w as u8) as u64
}

fn parse_shuffle_mask(v: V) -> Vec<i32> {
    match v {
        V::B(b) => match &*b {
            Big::A(x) => x
                .iter()
                .map(|e| match e {
                    V::C(c) => *c as i32,
                    _ => -1,
                })
                .collect(),
            _ => vec![],
        },
        _ => vec![],
    }
}

fn flat_init(tt: &TyTab, t: TyId, v: &V, out: &mut Vec<u8>) {
    let base = out.len();
    let ti = &tt.v[t as usize];
    match (&ti.ty, v) {
        (Ty::Arr(_, e), V::B(b)) | (Ty::Vec(_, e), V::B(b)) => {
            if let Big::A(x) = &**b {
                for y in x {
                    flat_init(tt, *e, y, out);
                }
            }
        }
        (Ty::Struct(f, o), V::B(b)) => {
            if let Big::A(x) = &**b {
                for (i, y) in x.iter().enumerate() {
                    out.resize(base + o[i] as usize, 0);
                    flat_init(tt, f[i], y, out);
                }
            }
        }
        (Ty::Int(_), V::B(b)) => {
            if let Big::W(x) = &**b {
                out.extend_from_slice(&x.to_le_bytes()[..ti.size as usize]);
            }
        }
        (_, V::C(c)) => out.extend_from_slice(&c.to_le_bytes()[..(ti.size as usize).min(8)]),
        _ => {}
    }
    out.resize(base + ti.size as usize, 0);
}

fn after_name(line: &str) -> (String, &str) {
    // line starts with sigil; returns name and the rest
    let mut l = Lx::new(line);
    l.p = 1;
    let n = l.name();
    let r = &line[l.p..];
    (n, r)
}

pub fn parse(text: &str) -> Module {
    let mut ps = Parser {
        tt: TyTab { v: vec![], named: FxMap::default(), cache: FxMap::default() },
        pool: vec![],
        cpool: FxMap::default(),
        fidx: FxMap::default(),
        gidx: FxMap::default(),
        alias: FxMap::default(),
    };
    // pass 0: join continued lines, split into top-level items
    let mut globals_src: Vec<(String, &str)> = vec![];
    let mut funcs_src: Vec<(String, &str, Vec<String>)> = vec![];
    let mut fnames: Vec<String> = vec![];
    let mut types_src: Vec<(String, &str)> = vec![];
    let mut cur: Option<usize> = None;
    let mut joining = false;
    for line in text.lines() {
        if let Some(fi) = cur {
            if line == "}" {
                cur = None;
                continue;
            }
            if line.is_empty() {
                continue;
            }
            let body = &mut funcs_src[fi].2;
            if joining {
                let last = body.last_mut().unwrap();
                last.push(' ');
                last.push_str(line.trim_start());
                if line.trim_start().starts_with(']') {
                    joining = false;
                }
                continue;
            }
            if line.starts_with("          ") {
                let last = body.last_mut().unwrap();
                last.push(' ');
                last.push_str(line.trim_start());
                continue;
            }
            if line.starts_with("  switch ") && !line.contains(']') {
                joining = true;
            }
            body.push(line.to_string());
            continue;
        }
        if line.starts_with("define ") {
            let at = line.find('@').unwrap();
            let (n, _) = after_name(&line[at..]);
            funcs_src.push((n.clone(), line, vec![]));
            cur = Some(funcs_src.len() - 1);
            ps.fidx.insert(n.clone(), fnames.len() as u32);
            fnames.push(n);
        } else if line.starts_with("declare ") {
            let at = line.find('@').unwrap();
            let (n, _) = after_name(&line[at..]);
            ps.fidx.insert(n.clone(), fnames.len() as u32);
            fnames.push(n);
        } else if line.starts_with('@') {
            let (n, rest) = after_name(line);
            let rest = rest.trim_start().strip_prefix('=').unwrap().trim_start();
            if let Some(i) = rest.find("alias ") {
                if !rest[..i].contains(|c| c == '{' || c == '[' || c == '"') {
                    let k = rest.rfind('@').unwrap();
                    let (tgt, _) = after_name(&rest[k..]);
                    ps.alias.insert(n, tgt);
                    continue;
                }
            }
            ps.gidx.insert(n.clone(), globals_src.len() as u32);
            globals_src.push((n, rest));
        } else if line.starts_with('%') {
            let (n, rest) = after_name(line);
            types_src.push((n, rest.trim_start().strip_prefix("= type").unwrap()));
        }
    }
    for (n, r) in &types_src {
        if r.trim() == "opaque" {
            let t = ps.tt.add("void".into(), Ty::Void);
            ps.tt.named.insert(n.clone(), t);
            continue;
        }
        let mut l = Lx::new(r);
        let t = ps.ty(&mut l);
        ps.tt.named.insert(n.clone(), t);
    }
    // globals
    let mut globals = vec![];
    for (n, rest) in &globals_src {
        let mut l = Lx::new(rest);
        let (mut tls, mut constant, mut external) = (false, false, false);
        loop {
            let w = l.word();
            match w {
                "thread_local" => {
                    tls = true;
                    l.parens();
                }
                "constant" => {
                    constant = true;
                    break;
                }
                "global" => break,
                "external" | "extern_weak" => external = true,
                "addrspace" => l.parens(),
                "" => l.fail("global"),
                _ => {}
            }
        }
        let t = ps.ty(&mut l);
        let mut init = vec![];
        if !external {
            let v = ps.konst(&mut l, t);
            flat_init(&ps.tt, t, &v, &mut init);
        }
        globals.push(Global { name: n.clone(), size: ps.tt.v[t as usize].size, init, tls, constant, external });
    }
    // functions
    let mut funcs: Vec<Func> = fnames
        .iter()
        .map(|n| Func { name: n.clone(), nregs: 0, nargs: 0, code: vec![], edges: vec![], defined: false })
        .collect();
    for (n, head, body) in &funcs_src {
        let fi = ps.fidx[n] as usize;
        let f = parse_fn(&mut ps, n, head, body);
        funcs[fi] = f;
    }
    Module { types: ps.tt.v, funcs, globals, pool: ps.pool, fidx: ps.fidx, gidx: ps.gidx, alias: ps.alias }
}

fn parse_fn(ps: &mut Parser, name: &str, head: &str, body: &[String]) -> Func {
    let mut fc = FnCtx { regs: FxMap::default(), blocks: FxMap::default() };
    // parameters
    let at = head.find('@').unwrap();
    let mut l = Lx::new(head);
    l.p = at + 1;
    let _ = l.name();
    l.exp("(");
    let mut nargs = 0;
    loop {
        if l.eat(")") {
            break;
        }
        if l.eat("...") {
            continue;
        }
        ps.ty(&mut l);
        ps.attrs(&mut l);
        if l.peek() == b'%' {
            l.p += 1;
            let n = l.name();
            let r = fc.reg(n);
            assert_eq!(r, nargs);
        } else {
            // unnamed argument: %N
            let r = fc.reg(format!("{}", nargs));
            assert_eq!(r, nargs);
        }
        nargs += 1;
        l.eat(",");
    }
    // split blocks
    let mut blocks: Vec<(String, Vec<&str>)> = vec![];
    for line in body {
        if !line.starts_with(' ') {
            // label
            let mut l = Lx::new(line);
            let n = if line.starts_with('"') { l.name() } else { l.word().to_string() };
            blocks.push((n, vec![]));
        } else {
            if blocks.is_empty() {
                blocks.push((String::from("\0entry"), vec![]));
            }
            blocks.last_mut().unwrap().1.push(line.trim_start());
        }
    }
    // implicit entry label number
    if blocks[0].0 == "\0entry" {
        fc.blocks.insert(format!("{}", nargs), 0);
    }
    for (i, b) in blocks.iter().enumerate() {
        fc.blocks.insert(b.0.clone(), i as u32);
    }
    let mut code: Vec<I> = vec![];
    let mut starts = vec![0u32; blocks.len()];
    let mut phis: Vec<Vec<(R, Vec<(u32, O)>)>> = vec![vec![]; blocks.len()];
    // edges as (from,to) resolved later
    let mut edges_raw: Vec<(u32, u32)> = vec![];
    let dummy: FxMap<String, u32> = FxMap::default();
    for (bi, (_, lines)) in blocks.iter().enumerate() {
        starts[bi] = code.len() as u32;
        let bi = bi as u32;
        for line in lines {
            let mut l = Lx::new(line);
            let mut d = NOREG;
            if l.peek() == b'%' {
                l.p += 1;
                let n = l.name();
                l.exp("=");
                d = fc.reg(n);
            }
            let mut edge = |to: u32| -> u32 {
                edges_raw.push((bi, to));
                edges_raw.len() as u32 - 1
            };
            let mut w = l.word();
            if w == "tail" || w == "musttail" || w == "notail" {
                w = l.word();
            }
            let ins = match w {
                "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub"
                | "fmul" | "fdiv" | "frem" => {
                    let op = match w {
                        "add" => BinOp::Add,
                        "sub" => BinOp::Sub,
                        "mul" => BinOp::Mul,
                        "udiv" => BinOp::UDiv,
                        "sdiv" => BinOp::SDiv,
                        "urem" => BinOp::URem,
                        "srem" => BinOp::SRem,
                        "shl" => BinOp::Shl,
                        "lshr" => BinOp::LShr,
                        "ashr" => BinOp::AShr,
                        "and" => BinOp::And,
                        "or" => BinOp::Or,
                        "xor" => BinOp::Xor,
                        "fadd" => BinOp::FAdd,
                        "fsub" => BinOp::FSub,
                        "fmul" => BinOp::FMul,
                        "fdiv" => BinOp::FDiv,
                        _ => BinOp::FRem,
                    };
                    while ["nuw", "nsw", "exact", "disjoint", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"]
                        .iter()
                        .any(|k| l.eat(k))
                    {}
                    let (t, a) = ps.top(&mut l, &mut fc);
                    l.exp(",");
                    let b = ps.opnd(&mut l, t, &mut fc);
                    I::Bin { op, w: ps.intw(t) as u8, lanes: ps.lanes(t), d, a, b }
                }
                "icmp" => {
                    l.eat("samesign");
                    let p = match l.word() {
                        "eq" => IP::Eq,
                        "ne" => IP::Ne,
                        "ugt" => IP::Ugt,
                        "uge" => IP::Uge,
                        "ult" => IP::Ult,
                        "ule" => IP::Ule,
                        "sgt" => IP::Sgt,
                        "sge" => IP::Sge,
                        "slt" => IP::Slt,
                        _ => IP::Sle,
                    };
                    let (t, a) = ps.top(&mut l, &mut fc);
                    l.exp(",");
                    let b = ps.opnd(&mut l, t, &mut fc);
                    I::Icmp { p, w: ps.intw(t) as u8, lanes: ps.lanes(t), d, a, b }
                }
                "fcmp" => {
                    while ["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"].iter().any(|k| l.eat(k)) {}
                    // bits: 1 eq, 2 gt, 4 lt, 8 unordered
                    let p = match l.word() {
                        "false" => 0,
                        "oeq" => 1,
                        "ogt" => 2,
                        "oge" => 3,
                        "olt" => 4,
                        "ole" => 5,
                        "one" => 6,
                        "ord" => 7,
                        "uno" => 8,
                        "ueq" => 9,
                        "ugt" => 10,
                        "uge" => 11,
                        "ult" => 12,
                        "ule" => 13,
                        "une" => 14,
                        _ => 15,
                    };
                    let (t, a) = ps.top(&mut l, &mut fc);
                    l.exp(",");
                    let b = ps.opnd(&mut l, t, &mut fc);
                    I::Fcmp { p, w: ps.intw(t) as u8, lanes: ps.lanes(t), d, a, b }
                }
                "fneg" => {
                    while ["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"].iter().any(|k| l.eat(k)) {}
                    let (t, a) = ps.top(&mut l, &mut fc);
                    I::FNeg { w: ps.intw(t) as u8, lanes: ps.lanes(t), d, a }
                }
                "trunc" | "zext" | "sext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "ptrtoint" | "inttoptr"
                | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                    while ["nuw", "nsw", "nneg", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"].iter().any(|k| l.eat(k)) {}
                    let (t, a) = ps.top(&mut l, &mut fc);
                    l.exp("to");
                    let to = ps.ty(&mut l);
                    let (wi, wo) = (ps.intw(t), ps.intw(to));
                    let k = match w {
                        "trunc" => Cast::Trunc,
                        "zext" => Cast::ZExt,
                        "sext" => Cast::SExt,
                        "fptoui" => Cast::FpToUi,
                        "fptosi" => Cast::FpToSi,
                        "uitofp" => Cast::UiToFp,
                        "sitofp" => Cast::SiToFp,
                        "fptrunc" => Cast::FpTrunc,
                        "fpext" => Cast::FpExt,
                        "ptrtoint" | "ptrtoaddr" => {
                            if wo < 64 {
                                Cast::Trunc
                            } else {
                                Cast::ZExt
                            }
                        }
                        "inttoptr" => Cast::ZExt,
                        _ => Cast::Bit,
                    };
                    I::Cast { k, wi, wo, lanes: ps.lanes(t), ti: t, to, d, a }
                }
                "select" => {
                    while ["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"].iter().any(|k| l.eat(k)) {}
                    let (ct, c) = ps.top(&mut l, &mut fc);
                    l.exp(",");
                    let (at, a) = ps.top(&mut l, &mut fc);
                    l.exp(",");
                    let (_, b) = ps.top(&mut l, &mut fc);
                    let w = match &ps.tt.v[at as usize].ty {
                        Ty::Int(w) => *w as u8,
                        Ty::F32 => 32,
                        Ty::F64 => 64,
                        _ => 0,
                    };
                    I::Sel { d, c, a, b, lanes: ps.lanes(ct), w }
                }
                "freeze" => {
                    let (_, a) = ps.top(&mut l, &mut fc);
                    I::Copy { d, a }
                }
                "load" => {
                    l.eat("atomic");
                    l.eat("volatile");
                    let t = ps.ty(&mut l);
                    l.exp(",");
                    let (_, p) = ps.top(&mut l, &mut fc);
                    match &ps.tt.v[t as usize].ty {
                        Ty::Int(w) if *w <= 64 => I::LoadI { d, n: ((*w + 7) / 8) as u8, w: *w as u8, p },
                        Ty::F32 => I::LoadI { d, n: 4, w: 32, p },
                        Ty::F64 | Ty::Ptr => I::LoadI { d, n: 8, w: 64, p },
                        _ => I::Load { d, ty: t, p },
                    }
                }
                "store" => {
                    l.eat("atomic");
                    l.eat("volatile");
                    let (t, v) = ps.top(&mut l, &mut fc);
                    l.exp(",");
                    let (_, p) = ps.top(&mut l, &mut fc);
                    match &ps.tt.v[t as usize].ty {
                        Ty::Int(w) if *w <= 64 => I::StoreI { n: ((*w + 7) / 8) as u8, v, p },
                        Ty::F32 => I::StoreI { n: 4, v, p },
                        Ty::F64 | Ty::Ptr => I::StoreI { n: 8, v, p },
                        _ => I::Store { ty: t, v, p },
                    }
                }
                "getelementptr" => {
                    while ["inbounds", "nuw", "nusw"].iter().any(|k| l.eat(k)) {}
                    let mut et = ps.ty(&mut l);
                    l.exp(",");
                    let (bt, base) = ps.top(&mut l, &mut fc);
                    if ps.lanes(bt) > 0 {
                        l.fail("vector gep");
                    }
                    let mut off = 0i64;
                    let mut idx = vec![];
                    let mut first = true;
                    while l.eat(",") {
                        if l.peek() == b'!' {
                            break;
                        }
                        let (it, o) = ps.top(&mut l, &mut fc);
                        let iw = ps.intw(it);
                        let size;
                        if first {
                            size = ps.tt.v[et as usize].size as i64;
                            first = false;
                        } else {
                            match ps.tt.v[et as usize].ty.clone() {
                                Ty::Struct(f, so) => {
                                    let k = match &ps.pool[(o & !CF) as usize] {
                                        V::C(c) => *c as usize,
                                        _ => l.fail("gep struct"),
                                    };
                                    off += so[k] as i64;
                                    et = f[k];
                                    continue;
                                }
                                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                    size = ps.tt.v[e as usize].size as i64;
                                    et = e;
                                }
                                _ => l.fail("gep into scalar"),
                            }
                        }
                        if o & CF != 0 {
                            let k = match &ps.pool[(o & !CF) as usize] {
                                V::C(c) => crate::term::sext(*c as u128, iw as u8) as i64,
                                _ => l.fail("gep const"),
                            };
                            off += k.wrapping_mul(size);
                        } else {
                            idx.push((o, size, iw as u8));
                        }
                    }
                    I::Gep { d, base, off, idx: idx.into() }
                }
                "alloca" => {
                    let t = ps.ty(&mut l);
                    let mut cnt = ps.c64(1);
                    if l.eat(",") {
                        if l.peek() == b'i' {
                            let (_, o) = ps.top(&mut l, &mut fc);
                            cnt = o;
                        }
                    }
                    I::Alloca { d, size: ps.tt.v[t as usize].size, cnt }
                }
                "br" => {
                    if l.peek() == b'l' {
                        let b = ps.label(&mut l, &fc);
                        I::Br(edge(b))
                    } else {
                        let (_, c) = ps.top(&mut l, &mut fc);
                        l.exp(",");
                        let t = ps.label(&mut l, &fc);
                        l.exp(",");
                        let f = ps.label(&mut l, &fc);
                        let t = edge(t);
                        let f = edge(f);
                        I::CondBr { c, t, f }
                    }
                }
                "switch" => {
                    let (t, v) = ps.top(&mut l, &mut fc);
                    l.exp(",");
                    let def = ps.label(&mut l, &fc);
                    let def = edge(def);
                    l.exp("[");
                    let mut cases = vec![];
                    while !l.eat("]") {
                        let (_, o) = ps.top(&mut l, &mut fc);
                        let c = match &ps.pool[(o & !CF) as usize] {
                            V::C(c) => *c as u128,
                            V::B(b) => match &**b {
                                Big::W(x) => *x,
                                _ => l.fail("case"),
                            },
                            _ => l.fail("case"),
                        };
                        l.exp(",");
                        let b = ps.label(&mut l, &fc);
                        cases.push((c, edge(b)));
                    }
                    cases.sort();
                    I::Switch { v, w: ps.intw(t) as u8, def, cases: cases.into() }
                }
                "ret" => {
                    if l.eat("void") {
                        I::RetVoid
                    } else {
                        let (_, o) = ps.top(&mut l, &mut fc);
                        I::Ret(o)
                    }
                }
                "unreachable" => I::Unreachable,
                "call" => ps.call(&mut l, &mut fc, d, &dummy),
                "invoke" => {
                    let i = ps.call(&mut l, &mut fc, d, &dummy);
                    // skip attributes up to "to label"
                    let rest = std::str::from_utf8(&l.s[l.p..]).unwrap();
                    let k = rest.find(" to label ").unwrap_or_else(|| l.fail("invoke"));
                    l.p += k;
                    l.exp("to");
                    let b = ps.label(&mut l, &fc);
                    let e = edge(b);
                    match i {
                        I::Call { d, callee, args, tys, rty, .. } => I::Call { d, callee, args, tys, rty, edge: e },
                        _ => unreachable!(),
                    }
                }
                "landingpad" | "resume" | "cleanupret" | "catchpad" => I::Unreachable,
                "extractvalue" => {
                    let (_, a) = ps.top(&mut l, &mut fc);
                    let mut path = vec![];
                    while l.eat(",") {
                        if !l.peek().is_ascii_digit() {
                            break;
                        }
                        path.push(l.word().parse().unwrap());
                    }
                    I::ExtV { d, a, path: path.into() }
                }
                "insertvalue" => {
                    let (_, a) = ps.top(&mut l, &mut fc);
                    l.exp(",");
                    let (_, v) = ps.top(&mut l, &mut fc);
                    let mut path = vec![];
                    while l.eat(",") {
                        if !l.peek().is_ascii_digit() {
                            break;
                        }
                        path.push(l.word().parse().unwrap());
                    }
                    I::InsV { d, a, v, path: path.into() }
                }
                "extractelement" => {
                    let (_, a) = ps.top(&mut l, &mut fc);
                    l.exp(",");
                    let (_, i) = ps.top(&mut l, &mut fc);
                    I::ExtE { d, a, i }
                }
                "insertelement" => {
                    let (_, a) = ps.top(&mut l, &mut fc);
                    l.exp(",");
                    let (_, v) = ps.top(&mut l, &mut fc);
                    l.exp(",");
                    let (_, i) = ps.top(&mut l, &mut fc);
                    I::InsE { d, a, v, i }
                }
                "shufflevector" => {
                    let (t, a) = ps.top(&mut l, &mut fc);
                    l.exp(",");
                    let (_, b) = ps.top(&mut l, &mut fc);
                    l.exp(",");
                    let mt = ps.ty(&mut l);
                    // poison mask lanes parse as 0: acceptable (value is irrelevant)
                    let m = ps.konst(&mut l, mt);
                    I::Shuf { d, a, b, mask: parse_shuffle_mask(m).into(), n: ps.lanes(t) as u32 }
                }
                "atomicrmw" => {
                    l.eat("volatile");
                    let op = match l.word() {
                        "xchg" => Rmw::Xchg,
                        "add" => Rmw::Add,
                        "sub" => Rmw::Sub,
                        "and" => Rmw::And,
                        "nand" => Rmw::Nand,
                        "or" => Rmw::Or,
                        "xor" => Rmw::Xor,
                        "max" => Rmw::Max,
                        "min" => Rmw::Min,
                        "umax" => Rmw::UMax,
                        "umin" => Rmw::UMin,
                        _ => l.fail("rmw"),
                    };
                    let (_, p) = ps.top(&mut l, &mut fc);
                    l.exp(",");
                    let (t, v) = ps.top(&mut l, &mut fc);
                    I::Rmw { op, w: ps.intw(t) as u8, d, p, v }
                }
                "cmpxchg" => {
                    l.eat("weak");
                    l.eat("volatile");
                    let (_, p) = ps.top(&mut l, &mut fc);
                    l.exp(",");
                    let (t, old) = ps.top(&mut l, &mut fc);
                    l.exp(",");
                    let (_, new) = ps.top(&mut l, &mut fc);
                    let acq = !l.eat("release");
                    I::CmpX { w: ps.intw(t) as u8, d, p, old, new, acq }
                }
                "fence" => I::Nop,
                "phi" => {
                    while ["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"].iter().any(|k| l.eat(k)) {}
                    let t = ps.ty(&mut l);
                    let mut inc = vec![];
                    loop {
                        l.exp("[");
                        let o = ps.opnd(&mut l, t, &mut fc);
                        l.exp(",");
                        l.ws();
                        l.exp("%");
                        let n = l.name();
                        let b = fc.blocks[&n];
                        l.exp("]");
                        inc.push((b, o));
                        if !l.eat(",") || l.peek() != b'[' {
                            break;
                        }
                    }
                    phis[bi as usize].push((d, inc));
                    continue;
                }
                _ => l.fail(&format!("instruction {}", w)),
            };
            code.push(ins);
        }
    }
    let mut edges = Vec::with_capacity(edges_raw.len());
    for (from, to) in edges_raw {
        let mut moves = vec![];
        for (d, inc) in &phis[to as usize] {
            if let Some((_, o)) = inc.iter().find(|x| x.0 == from) {
                if *o != *d {
                    moves.push((*d, *o));
                }
            }
        }
        edges.push(Edge { target: starts[to as usize], moves });
    }
    Func { name: name.to_string(), nregs: fc.regs.len() as u32, nargs, code, edges, defined: true }
}
