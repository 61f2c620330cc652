//! Parser for the subset of textual LLVM IR that rustc emits. Functions are parsed on
//! first use. Constants are resolved to values at parse time: every global and function
//! has a fixed address.
use crate::expr::{mask, S};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            t => panic!("bits of {t:?}"),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 / 8).next_power_of_two().max(1),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f.iter() {
                    if !p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !p {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Void | Ty::Other => 0,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            t => t.size(),
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if i == j {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => (i as u64 * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i as u64 * t.bits() as u64 / 8, (**t).clone()),
            _ => panic!("field of {self:?}"),
        }
    }
}

/// Run-time value.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    S(S),
    A(Rc<Vec<V>>),
}
impl V {
    pub fn c(k: u128) -> V {
        V::S(S::C(k))
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    PtrInt, // ptrtoint, inttoptr: zero-extend or truncate
    Bit,
    UIToFP,
    SIToFP,
    FPToUI,
    FPToSI,
    FPExt,
    FPTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(usize), // function index
    Indirect(Opd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub struct Call {
    pub callee: Callee,
    pub args: Vec<(Ty, Opd)>,
    pub ret: Ty,
    pub normal: Option<usize>, // invoke
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Bin, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    ICmp(Pred, Ty, Opd, Opd),
    FCmp(String, Ty, Opd, Opd),
    Cast(Cast, Ty, Ty, Opd),
    Select(Ty, Ty, Opd, Opd, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, i64, Vec<(Opd, i64, u32)>), // base, constant offset, (index, scale, width)
    Alloca(u64, Opd, u64),               // size, count, align
    Call(Box<Call>),
    Ret(Option<Opd>),
    Br(usize),
    CondBr(Opd, usize, usize),
    Switch(u32, Opd, usize, Vec<(u128, usize)>),
    Unreachable,
    Extract(Opd, Vec<usize>),
    Insert(Opd, Opd, Vec<usize>),
    Rmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Fence,
    Shuffle(Ty, Opd, Opd, Vec<i64>),
    InsElt(Opd, Opd, Opd),
    ExtElt(Opd, Opd),
    Freeze(Opd),
    Unsupported(String),
}

pub struct Ins {
    pub i: I,
    pub dst: u32, // u32::MAX: none
    pub dbg: u32,
    pub seen: Cell<bool>,
}
pub struct Phi {
    pub dst: u32,
    pub from: Vec<(usize, Opd)>,
}
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<Ins>,
    pub name: String,
}
pub struct Func {
    pub name: String,
    pub idx: usize,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub frame: u64, // bytes for static allocas
    pub dbg: u32,
}

pub struct FuncDecl {
    pub name: String,
    pub lines: (usize, usize), // body line range, (0,0) if external
    pub header: usize,
    pub parsed: RefCell<Option<Rc<Func>>>,
    pub weak: bool,
    pub builtin: Cell<u16>, // cache: 0 = not looked up
}
pub struct Global {
    pub name: String,
    pub line: usize,
    pub ty: Ty,
    pub size: u64,
    pub init: Option<(usize, usize)>, // byte range of the initializer in the line
    pub weak_extern: bool,
    pub constant: bool,
}

pub const OBJ_SHIFT: u32 = 32;

pub struct Module {
    pub lines: Vec<&'static str>,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<&'static str, usize>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<&'static str, usize>,
    pub types: HashMap<&'static str, &'static str>,
    pub meta: HashMap<u32, &'static str>,
    pub aliases: HashMap<&'static str, &'static str>,
}

// Object numbers: 1..=F are functions, F+1..=F+G are globals, then the heap.
impl Module {
    pub fn faddr(&self, f: usize) -> u128 {
        if self.funcs[f].weak && self.funcs[f].name != "getrandom" {
            return 0;
        }
        ((f + 1) as u128) << OBJ_SHIFT
    }
    pub fn gaddr(&self, g: usize) -> u128 {
        if self.globals[g].weak_extern {
            return 0;
        }
        ((self.funcs.len() + g + 1) as u128) << OBJ_SHIFT
    }
    pub fn first_heap(&self) -> u64 {
        (self.funcs.len() + self.globals.len() + 1) as u64
    }
    pub fn sym(&self, name: &str) -> u128 {
        if let Some(&f) = self.fidx.get(name) {
            return self.faddr(f);
        }
        if let Some(&g) = self.gidx.get(name) {
            return self.gaddr(g);
        }
        if let Some(a) = self.aliases.get(name) {
            return self.sym(a);
        }
        panic!("unknown symbol {name}")
    }

    pub fn load(text: &'static str) -> Module {
        let lines: Vec<&'static str> = text.lines().collect();
        let mut m = Module {
            lines: vec![],
            funcs: vec![],
            fidx: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            types: HashMap::new(),
            meta: HashMap::new(),
            aliases: HashMap::new(),
        };
        let mut i = 0;
        let mut gl: Vec<usize> = vec![];
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with("define ") {
                let mut e = i + 1;
                while lines[e] != "}" {
                    e += 1;
                }
                let name = fname(l);
                m.fidx.insert(name, m.funcs.len());
                m.funcs.push(FuncDecl {
                    name: name.to_string(),
                    lines: (i + 1, e),
                    header: i,
                    parsed: RefCell::new(None),
                    weak: false,
                    builtin: Cell::new(0),
                });
                i = e;
            } else if l.starts_with("declare ") {
                let name = fname(l);
                m.fidx.insert(name, m.funcs.len());
                m.funcs.push(FuncDecl {
                    name: name.to_string(),
                    lines: (0, 0),
                    header: i,
                    parsed: RefCell::new(None),
                    weak: l.contains("extern_weak"),
                    builtin: Cell::new(0),
                });
            } else if l.starts_with('@') {
                gl.push(i);
            } else if l.starts_with('%') {
                let (n, r) = l.split_once(" = type ").unwrap();
                m.types.insert(n, r);
            } else if l.starts_with('!') {
                if let Some((n, r)) = l[1..].split_once(" = ") {
                    if let Ok(k) = n.parse::<u32>() {
                        m.meta.insert(k, r);
                    }
                }
            }
            i += 1;
        }
        m.lines = lines;
        for &g in &gl {
            let l = m.lines[g];
            let mut c = Cur::new(l);
            c.i = 1;
            let name = c.name();
            c.ws();
            c.expect("=");
            // linkage etc. until "global" or "constant" or "alias"
            let (mut weak, mut constant, mut alias) = (false, false, false);
            loop {
                c.ws();
                let w = c.word();
                match w {
                    "extern_weak" => weak = true,
                    "global" => break,
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "alias" => {
                        alias = true;
                        break;
                    }
                    "" => panic!("global? {l}"),
                    _ => {
                        c.ws();
                        if c.peek() == b'(' {
                            c.skip_parens();
                        }
                    }
                }
            }
            if alias {
                let t = c.s[c.i..].rfind('@').unwrap() + c.i + 1;
                let mut c2 = Cur::new(l);
                c2.i = t;
                let target = c2.name();
                m.aliases.insert(name, target);
                continue;
            }
            let ty = c.ty(&m.types);
            c.ws();
            let init = if c.i >= l.len() || c.peek() == b',' || weak || l[c.i..].starts_with('!') {
                None
            } else {
                Some((c.i, l.len()))
            };
            let size = ty.size();
            m.gidx.insert(name, m.globals.len());
            m.globals.push(Global {
                name: name.to_string(),
                line: g,
                ty,
                size,
                init,
                weak_extern: weak,
                constant,
            });
        }
        m
    }

    pub fn global_bytes(&self, g: usize) -> Vec<u8> {
        let gl = &self.globals[g];
        let mut out = vec![0u8; gl.size as usize];
        if let Some((a, _)) = gl.init {
            let mut c = Cur::new(self.lines[gl.line]);
            c.i = a;
            let v = c.konst(self, &gl.ty);
            flat(&gl.ty, &v, &mut out, 0);
        }
        out
    }

    pub fn func(&self, f: usize) -> Rc<Func> {
        if let Some(p) = self.funcs[f].parsed.borrow().as_ref() {
            return p.clone();
        }
        let p = Rc::new(parse_func(self, f));
        *self.funcs[f].parsed.borrow_mut() = Some(p.clone());
        p
    }
}

fn flat(t: &Ty, v: &V, out: &mut [u8], off: u64) {
    match (t, v) {
        (Ty::Struct(f, _), V::A(vs)) => {
            for i in 0..f.len() {
                let (o, ft) = t.field(i);
                flat(&ft, &vs[i], out, off + o);
            }
        }
        (Ty::Arr(..), V::A(vs)) | (Ty::Vec(..), V::A(vs)) => {
            for i in 0..vs.len() {
                let (o, ft) = t.field(i);
                flat(&ft, &vs[i], out, off + o);
            }
        }
        (t, V::S(S::C(k))) => {
            for i in 0..t.store_size() {
                out[(off + i) as usize] = (k >> (8 * i)) as u8;
            }
        }
        _ => panic!("initializer"),
    }
}

fn fname(l: &'static str) -> &'static str {
    let i = l.find('@').unwrap() + 1;
    let mut c = Cur::new(l);
    c.i = i;
    c.name()
}

pub struct Cur {
    pub s: &'static str,
    pub b: &'static [u8],
    pub i: usize,
}

fn idch(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_' || b == b'.' || b == b'$' || b == b'-'
}

impl Cur {
    pub fn new(s: &'static str) -> Cur {
        Cur { s, b: s.as_bytes(), i: 0 }
    }
    pub fn peek(&self) -> u8 {
        if self.i < self.b.len() {
            self.b[self.i]
        } else {
            0
        }
    }
    pub fn ws(&mut self) {
        while self.i < self.b.len() && (self.b[self.i] == b' ' || self.b[self.i] == b'\n' || self.b[self.i] == b'\t') {
            self.i += 1;
        }
    }
    pub fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            panic!("expected {t:?} at {:?} in {:?}", &self.s[self.i..].chars().take(60).collect::<String>(), self.s.chars().take(300).collect::<String>());
        }
    }
    pub fn word(&mut self) -> &'static str {
        self.ws();
        let st = self.i;
        while self.i < self.b.len() && idch(self.b[self.i]) {
            self.i += 1;
        }
        &self.s[st..self.i]
    }
    pub fn peek_word(&mut self) -> &'static str {
        let i = self.i;
        let w = self.word();
        self.i = i;
        w
    }
    /// identifier after a sigil: plain or quoted
    pub fn name(&mut self) -> &'static str {
        if self.peek() == b'"' {
            let st = self.i + 1;
            let e = self.s[st..].find('"').unwrap() + st;
            self.i = e + 1;
            &self.s[st..e]
        } else {
            self.word()
        }
    }
    pub fn skip_parens(&mut self) {
        self.ws();
        let mut d = 0;
        while self.i < self.b.len() {
            match self.b[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.b[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    pub fn int(&mut self) -> i128 {
        let w = self.word();
        w.parse::<i128>().unwrap_or_else(|_| panic!("int {w:?} in {}", self.s))
    }
    pub fn ty(&mut self, types: &HashMap<&'static str, &'static str>) -> Ty {
        self.ws();
        let mut t = match self.peek() {
            b'{' => {
                self.i += 1;
                let mut f = vec![];
                self.ws();
                while self.peek() != b'}' {
                    f.push(self.ty(types));
                    self.eat(",");
                    self.ws();
                }
                self.i += 1;
                Ty::Struct(Rc::new(f), false)
            }
            b'[' => {
                self.i += 1;
                let n = self.int() as u64;
                self.expect("x");
                let e = self.ty(types);
                self.expect("]");
                Ty::Arr(n, Rc::new(e))
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' {
                    self.i += 1;
                    let mut f = vec![];
                    self.ws();
                    while self.peek() != b'}' {
                        f.push(self.ty(types));
                        self.eat(",");
                        self.ws();
                    }
                    self.i += 1;
                    self.expect(">");
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.int() as u32;
                    self.expect("x");
                    let e = self.ty(types);
                    self.expect(">");
                    Ty::Vec(n, Rc::new(e))
                }
            }
            b'%' => {
                let st = self.i;
                self.i += 1;
                self.name();
                let n = &self.s[st..self.i];
                match types.get(n) {
                    Some(d) => Cur::new(d).ty(types),
                    None => Ty::Other,
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        self.ws();
                        if self.eat("addrspace") {
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "double" => Ty::F64,
                    "float" => Ty::F32,
                    "metadata" | "label" | "token" | "half" | "fp128" | "x86_fp80" | "opaque" => Ty::Other,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => {
                        Ty::Int(w[1..].parse().unwrap())
                    }
                    _ => panic!("type {w:?} at {:?}", &self.s[self.i.saturating_sub(40)..]),
                }
            }
        };
        // function type suffix: `ret (args)` only in calls with varargs
        let _ = &mut t;
        t
    }

    fn zero(t: &Ty) -> V {
        match t {
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(Cur::zero).collect())),
            Ty::Arr(n, e) => V::A(Rc::new((0..*n).map(|_| Cur::zero(e)).collect())),
            Ty::Vec(n, e) => V::A(Rc::new((0..*n).map(|_| Cur::zero(e)).collect())),
            _ => V::c(0),
        }
    }

    pub fn konst(&mut self, m: &Module, t: &Ty) -> V {
        self.ws();
        match self.peek() {
            b'@' => {
                self.i += 1;
                let n = self.name();
                return V::c(m.sym(n));
            }
            b'{' | b'[' | b'<' => {
                let packed = self.s[self.i..].starts_with("<{");
                let close = if packed {
                    self.i += 2;
                    "}>"
                } else {
                    let c = match self.peek() {
                        b'{' => "}",
                        b'[' => "]",
                        _ => ">",
                    };
                    self.i += 1;
                    c
                };
                let mut v = vec![];
                loop {
                    if self.eat(close) {
                        break;
                    }
                    let et = self.ty(&m.types);
                    v.push(self.konst(m, &et));
                    self.eat(",");
                }
                return V::A(Rc::new(v));
            }
            b'c' if self.b[self.i + 1] == b'"' => {
                self.i += 2;
                let mut v = vec![];
                while self.b[self.i] != b'"' {
                    if self.b[self.i] == b'\\' {
                        let h = &self.s[self.i + 1..self.i + 3];
                        v.push(V::c(u128::from_str_radix(h, 16).unwrap()));
                        self.i += 3;
                    } else {
                        v.push(V::c(self.b[self.i] as u128));
                        self.i += 1;
                    }
                }
                self.i += 1;
                return V::A(Rc::new(v));
            }
            _ => {}
        }
        let w = self.word();
        match w {
            "true" => V::c(1),
            "false" | "null" | "none" => V::c(0),
            "undef" | "poison" | "zeroinitializer" => Cur::zero(t),
            "splat" => {
                self.expect("(");
                let et = self.ty(&m.types);
                let e = self.konst(m, &et);
                self.expect(")");
                match t {
                    Ty::Vec(n, _) => V::A(Rc::new((0..*n).map(|_| e.clone()).collect())),
                    _ => panic!("splat"),
                }
            }
            "getelementptr" => {
                loop {
                    self.ws();
                    if self.peek() == b'(' {
                        break;
                    }
                    let w = self.word();
                    if w == "inrange" {
                        self.skip_parens();
                    }
                    assert!(!w.is_empty());
                }
                self.i += 1;
                let bt = self.ty(&m.types);
                self.expect(",");
                let pt = self.ty(&m.types);
                let base = match self.konst(m, &pt) {
                    V::S(S::C(k)) => k,
                    _ => panic!(),
                };
                let mut off: i64 = 0;
                let mut cur = bt;
                let mut first = true;
                while self.eat(",") {
                    let it = self.ty(&m.types);
                    let k = match self.konst(m, &it) {
                        V::S(S::C(k)) => crate::expr::sext(k, it.bits()) as i64,
                        _ => panic!(),
                    };
                    if first {
                        off += k * cur.size() as i64;
                        first = false;
                    } else {
                        let (o, nt) = match &cur {
                            Ty::Arr(_, e) => (k * e.size() as i64, (**e).clone()),
                            c => {
                                let (o, nt) = c.field(k as usize);
                                (o as i64, nt)
                            }
                        };
                        off += o;
                        cur = nt;
                    }
                }
                self.expect(")");
                V::c((base as i128 + off as i128) as u128 & mask(64))
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                self.expect("(");
                let ft = self.ty(&m.types);
                let v = self.konst(m, &ft);
                self.expect("to");
                let tt = self.ty(&m.types);
                self.expect(")");
                match v {
                    V::S(S::C(k)) => V::c(k & mask(tt.bits())),
                    v => v,
                }
            }
            "add" | "sub" | "mul" | "xor" | "and" | "or" => {
                while self.peek_word() == "nuw" || self.peek_word() == "nsw" {
                    self.word();
                }
                self.expect("(");
                let t1 = self.ty(&m.types);
                let a = self.konst(m, &t1);
                self.expect(",");
                let t2 = self.ty(&m.types);
                let b = self.konst(m, &t2);
                self.expect(")");
                match (a, b) {
                    (V::S(S::C(a)), V::S(S::C(b))) => {
                        let r = match w {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            "xor" => a ^ b,
                            "and" => a & b,
                            _ => a | b,
                        };
                        V::c(r & mask(t1.bits()))
                    }
                    _ => panic!(),
                }
            }
            "blockaddress" | "dso_local_equivalent" | "no_cfi" => panic!("constant {w}"),
            _ => match t {
                // newer LLVM: the bits in the type's own width
                Ty::F64 | Ty::F32 if w.starts_with("f0x") => V::c(u128::from_str_radix(&w[3..], 16).unwrap()),
                Ty::F64 | Ty::F32 => {
                    let v = if let Some(h) = w.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                    } else {
                        // the word scanner stops at '+'
                        let mut s = w.to_string();
                        if self.peek() == b'+' {
                            self.i += 1;
                            let e = self.word();
                            s = format!("{s}+{e}");
                        }
                        s.parse::<f64>().unwrap_or_else(|_| panic!("float {s} in {}", self.s))
                    };
                    if *t == Ty::F64 {
                        V::c(v.to_bits() as u128)
                    } else {
                        V::c((v as f32).to_bits() as u128)
                    }
                }
                _ => {
                    let bits = t.bits();
                    if let Ok(k) = w.parse::<i128>() {
                        V::c(k as u128 & mask(bits))
                    } else if let Ok(k) = w.parse::<u128>() {
                        V::c(k & mask(bits))
                    } else {
                        panic!("constant {w:?} of {t:?} in {:?}", &self.s.chars().take(400).collect::<String>())
                    }
                }
            },
        }
    }
}

struct FP<'a> {
    m: &'a Module,
    regs: HashMap<&'static str, u32>,
    labels: HashMap<&'static str, usize>,
}

impl FP<'_> {
    fn reg(&mut self, n: &'static str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn val(&mut self, c: &mut Cur, t: &Ty) -> Opd {
        c.ws();
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            Opd::Reg(self.reg(n))
        } else {
            Opd::K(c.konst(self.m, t))
        }
    }
    fn tyval(&mut self, c: &mut Cur) -> (Ty, Opd) {
        let t = c.ty(&self.m.types);
        let v = self.val(c, &t);
        (t, v)
    }
    fn label(&mut self, c: &mut Cur) -> usize {
        c.expect("label");
        c.expect("%");
        let n = c.name();
        *self.labels.get(n).unwrap_or_else(|| panic!("label {n}"))
    }
}

const VALUE_WORDS: &[&str] = &[
    "true", "false", "null", "none", "undef", "poison", "zeroinitializer", "splat", "getelementptr",
    "inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "add", "sub", "mul", "xor", "asm", "addrspacecast",
    "and", "or", "ptrtoaddr",
];

/// Skip parameter attributes up to a value (or `,`/`)`).
fn skip_attrs(c: &mut Cur) {
    loop {
        c.ws();
        let p = c.peek();
        if p == b'#' {
            c.i += 1;
            c.word();
            continue;
        }
        if !(p.is_ascii_alphabetic() || p == b'"') {
            return;
        }
        if p == b'c' && c.b[c.i + 1] == b'"' {
            return;
        }
        if p == b'"' {
            // string attribute
            c.i += 1;
            while c.peek() != b'"' {
                c.i += 1;
            }
            c.i += 1;
            continue;
        }
        let w = c.peek_word();
        if VALUE_WORDS.contains(&w) {
            return;
        }
        c.word();
        if c.peek() == b'(' {
            c.skip_parens();
        } else if w == "align" {
            c.ws();
            c.word();
        }
    }
}

fn parse_func(m: &Module, f: usize) -> Func {
    let d = &m.funcs[f];
    let mut fp = FP { m, regs: HashMap::new(), labels: HashMap::new() };
    // header
    let h = m.lines[d.header];
    let mut c = Cur::new(h);
    c.word(); // define
    // return type: skip words until a type parses
    let ret;
    loop {
        c.ws();
        let p = c.peek();
        if p == b'{' || p == b'[' || p == b'<' || p == b'%' {
            ret = c.ty(&m.types);
            break;
        }
        let w = c.peek_word();
        let is_ty = matches!(w, "void" | "ptr" | "double" | "float" | "half" | "fp128" | "x86_fp80")
            || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()));
        if is_ty {
            ret = c.ty(&m.types);
            break;
        }
        c.word();
        if c.peek() == b'(' {
            c.skip_parens();
        } else if w == "align" {
            c.ws();
            c.word();
        }
        if w.is_empty() {
            panic!("header {h}");
        }
    }
    c.i = h.find('@').unwrap() + 1;
    c.name();
    c.expect("(");
    let mut params = vec![];
    loop {
        c.ws();
        if c.peek() == b')' {
            break;
        }
        if c.eat("...") {
            continue;
        }
        let t = c.ty(&m.types);
        skip_attrs(&mut c);
        c.ws();
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            let r = fp.reg(n);
            params.push((t, r));
        } else {
            params.push((t, u32::MAX));
        }
        c.eat(",");
    }
    let fdbg = dbg_of(h);
    // labels first
    let (a, e) = d.lines;
    let mut blocks: Vec<(usize, usize, &'static str)> = vec![]; // line ranges
    let mut cur_start = a;
    let mut cur_name: &'static str = "";
    let is_label = |l: &'static str| -> Option<&'static str> {
        if l.is_empty() || l.starts_with(' ') {
            return None;
        }
        let mut c = Cur::new(l);
        let n = c.name();
        if c.peek() == b':' {
            Some(n)
        } else {
            None
        }
    };
    let mut first = true;
    for li in a..e {
        if let Some(n) = is_label(m.lines[li]) {
            if first && li == a {
                cur_name = n;
            } else {
                blocks.push((cur_start, li, cur_name));
                cur_name = n;
            }
            cur_start = li + 1;
        }
        first = false;
    }
    blocks.push((cur_start, e, cur_name));
    // An unnamed entry block is numbered after the parameters, nothing branches to it.
    for (i, b) in blocks.iter().enumerate() {
        fp.labels.insert(b.2, i);
    }
    let mut out = vec![];
    let mut frame = 0u64;
    for &(s, e, n) in &blocks {
        let mut b = Block { phis: vec![], ins: vec![], name: n.to_string() };
        let mut li = s;
        while li < e {
            let l = m.lines[li];
            li += 1;
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") {
                continue;
            }
            // join continuation lines
            let mut text: &'static str = l;
            let is_switch = t.starts_with("switch ");
            if is_switch && !t.contains(']') {
                let mut st = l.to_string();
                while !m.lines[li].trim_start().starts_with(']') {
                    st.push(' ');
                    st.push_str(m.lines[li]);
                    li += 1;
                }
                st.push_str(m.lines[li]);
                li += 1;
                text = Box::leak(st.into_boxed_str());
            } else if li < e {
                let mut st: Option<String> = None;
                while li < e {
                    let n = m.lines[li].trim_start();
                    if m.lines[li].starts_with("      ")
                        || n.starts_with("cleanup")
                        || n.starts_with("catch ")
                        || n.starts_with("filter ")
                        || n.starts_with("to label")
                    {
                        st.get_or_insert_with(|| l.to_string()).push_str(&format!(" {n}"));
                        li += 1;
                    } else {
                        break;
                    }
                }
                if let Some(s) = st {
                    text = Box::leak(s.into_boxed_str());
                }
            }
            parse_ins(&mut fp, text, &mut b, &mut frame);
        }
        out.push(b);
    }
    Func {
        name: d.name.clone(),
        idx: f,
        params,
        ret,
        nregs: fp.regs.len() as u32,
        blocks: out,
        frame,
        dbg: fdbg,
    }
}

fn dbg_of(l: &str) -> u32 {
    match l.rfind("!dbg !") {
        Some(p) => l[p + 6..].bytes().take_while(|b| b.is_ascii_digit()).fold(0u32, |a, b| a * 10 + (b - b'0') as u32),
        None => 0,
    }
}

fn parse_ins(fp: &mut FP, l: &'static str, b: &mut Block, frame: &mut u64) {
    let dbg = dbg_of(l);
    let m = fp.m;
    let mut c = Cur::new(l);
    c.ws();
    let mut dst = u32::MAX;
    if c.peek() == b'%' {
        c.i += 1;
        let n = c.name();
        dst = fp.reg(n);
        c.expect("=");
    }
    let mut op = c.word();
    while matches!(op, "tail" | "notail" | "musttail") {
        op = c.word();
    }
    let flags = |c: &mut Cur| loop {
        let w = c.peek_word();
        if matches!(
            w,
            "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan"
                | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
        ) {
            c.word();
        } else if w == "inrange" {
            c.word();
            c.skip_parens();
        } else {
            break;
        }
    };
    let i = match op {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr"
        | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            flags(&mut c);
            let (t, x) = fp.tyval(&mut c);
            c.expect(",");
            let y = fp.val(&mut c, &t);
            let o = match op {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                "fadd" => Bin::FAdd,
                "fsub" => Bin::FSub,
                "fmul" => Bin::FMul,
                "fdiv" => Bin::FDiv,
                _ => Bin::FRem,
            };
            I::Bin(o, t, x, y)
        }
        "fneg" => {
            flags(&mut c);
            let (t, x) = fp.tyval(&mut c);
            I::FNeg(t, x)
        }
        "icmp" => {
            flags(&mut c);
            let p = match c.word() {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                "slt" => Pred::Slt,
                _ => Pred::Sle,
            };
            let (t, x) = fp.tyval(&mut c);
            c.expect(",");
            let y = fp.val(&mut c, &t);
            I::ICmp(p, t, x, y)
        }
        "fcmp" => {
            flags(&mut c);
            let p = c.word().to_string();
            let (t, x) = fp.tyval(&mut c);
            c.expect(",");
            let y = fp.val(&mut c, &t);
            I::FCmp(p, t, x, y)
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui"
        | "fptosi" | "fpext" | "fptrunc" | "ptrtoaddr" | "addrspacecast" => {
            flags(&mut c);
            let (t, x) = fp.tyval(&mut c);
            c.expect("to");
            let tt = c.ty(&m.types);
            let o = match op {
                "trunc" => Cast::Trunc,
                "zext" => Cast::ZExt,
                "sext" => Cast::SExt,
                "bitcast" => Cast::Bit,
                "uitofp" => Cast::UIToFP,
                "sitofp" => Cast::SIToFP,
                "fptoui" => Cast::FPToUI,
                "fptosi" => Cast::FPToSI,
                "fpext" => Cast::FPExt,
                "fptrunc" => Cast::FPTrunc,
                _ => Cast::PtrInt,
            };
            I::Cast(o, t, tt, x)
        }
        "select" => {
            flags(&mut c);
            let (ct, x) = fp.tyval(&mut c);
            c.expect(",");
            let (t, y) = fp.tyval(&mut c);
            c.expect(",");
            let (_, z) = fp.tyval(&mut c);
            I::Select(ct, t, x, y, z)
        }
        "phi" => {
            flags(&mut c);
            let t = c.ty(&m.types);
            let mut from = vec![];
            loop {
                if !c.eat("[") {
                    break;
                }
                let v = fp.val(&mut c, &t);
                c.expect(",");
                c.expect("%");
                let n = c.name();
                let bl = *fp.labels.get(n).unwrap_or(&0); // the unnamed entry block is block 0
                c.expect("]");
                from.push((bl, v));
                if !c.eat(",") {
                    break;
                }
            }
            b.phis.push(Phi { dst, from });
            return;
        }
        "load" => {
            while matches!(c.peek_word(), "atomic" | "volatile") {
                c.word();
            }
            let t = c.ty(&m.types);
            c.expect(",");
            let (_, p) = fp.tyval(&mut c);
            I::Load(t, p)
        }
        "store" => {
            while matches!(c.peek_word(), "atomic" | "volatile") {
                c.word();
            }
            let (t, v) = fp.tyval(&mut c);
            c.expect(",");
            let (_, p) = fp.tyval(&mut c);
            I::Store(t, v, p)
        }
        "getelementptr" => {
            flags(&mut c);
            let bt = c.ty(&m.types);
            c.expect(",");
            let (_, base) = fp.tyval(&mut c);
            let mut off = 0i64;
            let mut terms = vec![];
            let mut cur = bt;
            let mut firstix = true;
            while c.eat(",") {
                c.ws();
                if c.peek() == b'!' {
                    break;
                }
                let (it, iv) = fp.tyval(&mut c);
                let w = it.bits();
                let scale;
                if firstix {
                    scale = cur.size() as i64;
                    firstix = false;
                } else {
                    match cur.clone() {
                        Ty::Arr(_, e) => {
                            scale = e.size() as i64;
                            cur = (*e).clone();
                        }
                        s => {
                            let k = match &iv {
                                Opd::K(V::S(S::C(k))) => *k as usize,
                                _ => panic!(),
                            };
                            let (o, nt) = s.field(k);
                            off += o as i64;
                            cur = nt;
                            continue;
                        }
                    }
                }
                match &iv {
                    Opd::K(V::S(S::C(k))) => off += crate::expr::sext(*k, w) as i64 * scale,
                    _ => terms.push((iv, scale, w)),
                }
            }
            I::Gep(base, off, terms)
        }
        "alloca" => {
            let t = c.ty(&m.types);
            let mut count = Opd::K(V::c(1));
            let mut align = t.align();
            while c.eat(",") {
                c.ws();
                if c.peek() == b'!' {
                    break;
                }
                if c.peek_word() == "align" {
                    c.word();
                    align = c.int() as u64;
                } else {
                    let (_, v) = fp.tyval(&mut c);
                    count = v;
                }
            }
            if let Opd::K(V::S(S::C(1))) = count {
                // static: a slot of the frame object
                let a = align.max(1);
                *frame = (*frame + a - 1) / a * a;
                let off = *frame;
                *frame += t.size().max(1);
                I::Alloca(off, Opd::K(V::c(1)), 0)
            } else {
                I::Alloca(t.size(), count, align)
            }
        }
        "call" | "invoke" => {
            // calling convention and return attributes
            let ret;
            loop {
                c.ws();
                let p = c.peek();
                if p == b'{' || p == b'[' || p == b'<' || p == b'%' {
                    ret = c.ty(&m.types);
                    break;
                }
                let w = c.peek_word();
                let is_ty = matches!(w, "void" | "ptr" | "double" | "float" | "metadata" | "token")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()));
                if is_ty {
                    ret = c.ty(&m.types);
                    break;
                }
                if w.is_empty() {
                    panic!("call: {l}");
                }
                c.word();
                if c.peek() == b'(' {
                    c.skip_parens();
                } else if w == "align" {
                    c.ws();
                    c.word();
                }
            }
            c.ws();
            if c.peek() == b'(' {
                c.skip_parens(); // explicit function type (varargs)
                c.ws();
            }
            let callee = if c.peek() == b'@' {
                c.i += 1;
                let n = c.name();
                match m.fidx.get(n) {
                    Some(&k) => Callee::Direct(k),
                    None => match m.aliases.get(n).and_then(|a| m.fidx.get(a)) {
                        Some(&k) => Callee::Direct(k),
                        None => panic!("callee {n}"),
                    },
                }
            } else if c.peek() == b'%' {
                c.i += 1;
                let n = c.name();
                Callee::Indirect(Opd::Reg(fp.reg(n)))
            } else if c.peek_word() == "asm" {
                c.word();
                loop {
                    c.ws();
                    if c.peek() == b'"' {
                        break;
                    }
                    c.word();
                }
                c.i += 1;
                let st = c.i;
                while c.peek() != b'"' {
                    c.i += 1;
                }
                let text = c.s[st..c.i].to_string();
                c.i += 1;
                c.expect(",");
                c.ws();
                c.i += 1;
                while c.peek() != b'"' {
                    c.i += 1;
                }
                c.i += 1;
                Callee::Asm(text)
            } else {
                Callee::Indirect(Opd::K(c.konst(m, &Ty::Ptr)))
            };
            c.expect("(");
            let mut args = vec![];
            loop {
                c.ws();
                if c.peek() == b')' {
                    c.i += 1;
                    break;
                }
                let t = c.ty(&m.types);
                if t == Ty::Other {
                    // metadata argument: skip to the matching separator
                    let mut d = 0;
                    while c.i < c.b.len() {
                        match c.peek() {
                            b'(' | b'{' => d += 1,
                            b')' | b'}' if d > 0 => d -= 1,
                            b')' | b',' if d == 0 => break,
                            _ => {}
                        }
                        c.i += 1;
                    }
                    args.push((t, Opd::K(V::c(0))));
                } else {
                    skip_attrs(&mut c);
                    let v = fp.val(&mut c, &t);
                    args.push((t, v));
                }
                c.eat(",");
            }
            let normal = if op == "invoke" {
                let p = c.s[c.i..].find("to label").unwrap() + c.i + 3;
                c.i = p;
                Some(fp.label(&mut c))
            } else {
                None
            };
            I::Call(Box::new(Call { callee, args, ret, normal }))
        }
        "ret" => {
            let t = c.ty(&m.types);
            if t == Ty::Void {
                I::Ret(None)
            } else {
                let v = fp.val(&mut c, &t);
                I::Ret(Some(v))
            }
        }
        "br" => {
            if c.peek_word() == "label" {
                I::Br(fp.label(&mut c))
            } else {
                let (_, x) = fp.tyval(&mut c);
                c.expect(",");
                let a = fp.label(&mut c);
                c.expect(",");
                let d = fp.label(&mut c);
                I::CondBr(x, a, d)
            }
        }
        "switch" => {
            let (t, x) = fp.tyval(&mut c);
            c.expect(",");
            let d = fp.label(&mut c);
            c.expect("[");
            let mut cases = vec![];
            while !c.eat("]") {
                let ct = c.ty(&m.types);
                let k = match c.konst(m, &ct) {
                    V::S(S::C(k)) => k,
                    _ => panic!(),
                };
                c.expect(",");
                let lb = fp.label(&mut c);
                cases.push((k, lb));
            }
            I::Switch(t.bits(), x, d, cases)
        }
        "unreachable" => I::Unreachable,
        "resume" | "landingpad" => I::Unsupported(op.to_string()),
        "extractvalue" => {
            let (_, x) = fp.tyval(&mut c);
            let mut p = vec![];
            while c.eat(",") {
                c.ws();
                if c.peek() == b'!' {
                    break;
                }
                p.push(c.int() as usize);
            }
            I::Extract(x, p)
        }
        "insertvalue" => {
            let (_, x) = fp.tyval(&mut c);
            c.expect(",");
            let (_, y) = fp.tyval(&mut c);
            let mut p = vec![];
            while c.eat(",") {
                c.ws();
                if c.peek() == b'!' {
                    break;
                }
                p.push(c.int() as usize);
            }
            I::Insert(x, y, p)
        }
        "atomicrmw" => {
            if c.peek_word() == "volatile" {
                c.word();
            }
            let o = c.word().to_string();
            let (_, p) = fp.tyval(&mut c);
            c.expect(",");
            let (t, v) = fp.tyval(&mut c);
            I::Rmw(o, t, p, v)
        }
        "cmpxchg" => {
            while matches!(c.peek_word(), "weak" | "volatile") {
                c.word();
            }
            let (_, p) = fp.tyval(&mut c);
            c.expect(",");
            let (t, e) = fp.tyval(&mut c);
            c.expect(",");
            let (_, n) = fp.tyval(&mut c);
            I::CmpXchg(t, p, e, n)
        }
        "fence" => I::Fence,
        "shufflevector" => {
            let (t, x) = fp.tyval(&mut c);
            c.expect(",");
            let (_, y) = fp.tyval(&mut c);
            c.expect(",");
            let mt = c.ty(&m.types);
            let k = c.konst(m, &mt);
            let idx = match k {
                V::A(v) => v
                    .iter()
                    .map(|e| match e {
                        V::S(S::C(k)) => *k as i64,
                        _ => 0,
                    })
                    .collect(),
                _ => panic!(),
            };
            I::Shuffle(t, x, y, idx)
        }
        "insertelement" => {
            let (_, x) = fp.tyval(&mut c);
            c.expect(",");
            let (_, y) = fp.tyval(&mut c);
            c.expect(",");
            let (_, k) = fp.tyval(&mut c);
            I::InsElt(x, y, k)
        }
        "extractelement" => {
            let (_, x) = fp.tyval(&mut c);
            c.expect(",");
            let (_, k) = fp.tyval(&mut c);
            I::ExtElt(x, k)
        }
        "freeze" => {
            let (_, x) = fp.tyval(&mut c);
            I::Freeze(x)
        }
        _ => I::Unsupported(l.to_string()),
    };
    b.ins.push(Ins { i, dst, dbg, seen: Cell::new(false) });
}
