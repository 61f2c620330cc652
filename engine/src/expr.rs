//! Hash-consed bit-vector expressions with eager simplification.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat, // a = high part, b = low part
    Extract, // k = lowest bit
    ZExt,
    SExt,
    // IEEE double/single (by width of the operands), operands as bit patterns
    FAdd,
    FSub,
    FMul,
    FDiv,
    FEq,
    FLt,
    FLe,
    FIsNan,
    UToF,
    SToF,
    FToU, // saturating semantics are built by the caller
    FToS,
    FToF,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

/// A scalar value: concrete, or an expression.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum S {
    C(u128),
    X(E),
}
use S::*;

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

/// The double `v * 2^-k` with `v` a signed `w`-bit integer in `lo..=hi`.
#[derive(Clone, Copy)]
pub struct Fix {
    v: S,
    w: u32,
    k: u32,
    lo: i128,
    hi: i128,
}

/// Bits for a signed integer between the bounds (one to spare).
fn width(lo: i128, hi: i128) -> u32 {
    let m = (if lo < 0 { !lo } else { lo }).max(if hi < 0 { !hi } else { hi });
    (128 - m.leading_zeros() + 2).max(2)
}

pub struct Ctx {
    fixes: HashMap<E, Option<Fix>>,
    pub nodes: Vec<Node>,
    pub range: Vec<(u128, u128)>,
    map: HashMap<Node, E>,
    pub vars: Vec<(String, u32)>,
    var_of: HashMap<(String, u32), E>,
}

pub fn fold_f(op: Op, w: u32, x: u128, y: u128) -> u128 {
    if w == 64 {
        let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
        match op {
            Op::FAdd => (a + b).to_bits() as u128,
            Op::FSub => (a - b).to_bits() as u128,
            Op::FMul => (a * b).to_bits() as u128,
            Op::FDiv => (a / b).to_bits() as u128,
            Op::FEq => (a == b) as u128,
            Op::FLt => (a < b) as u128,
            Op::FLe => (a <= b) as u128,
            Op::FIsNan => a.is_nan() as u128,
            _ => unreachable!(),
        }
    } else {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        match op {
            Op::FAdd => (a + b).to_bits() as u128,
            Op::FSub => (a - b).to_bits() as u128,
            Op::FMul => (a * b).to_bits() as u128,
            Op::FDiv => (a / b).to_bits() as u128,
            Op::FEq => (a == b) as u128,
            Op::FLt => (a < b) as u128,
            Op::FLe => (a <= b) as u128,
            Op::FIsNan => a.is_nan() as u128,
            _ => unreachable!(),
        }
    }
}

/// Concrete semantics; `w` is the width of the operands (of the result for conversions
/// from integers, see the callers). Division by zero follows SMT-LIB.
pub fn fold(op: Op, w: u32, x: u128, y: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                (if a < 0 { 1 } else { -1i128 }) as u128 & m
            } else {
                a.wrapping_div(b) as u128 & m
            }
        }
        Op::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128 & m
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = if y >= w as u128 { w as u128 - 1 } else { y };
            (sext(x, w) >> s) as u128 & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, w) < sext(y, w)) as u128,
        Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
        _ => unreachable!("fold {:?}", op),
    }
}

pub fn is_f(op: Op) -> bool {
    matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FEq | Op::FLt | Op::FLe | Op::FIsNan)
}
pub fn is_cmp(op: Op) -> bool {
    matches!(
        op,
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe | Op::FIsNan
    )
}

/// Integer-to-float etc. on concrete values. `wi` = source width, `wo` = result width.
pub fn fold_conv(op: Op, wi: u32, wo: u32, x: u128) -> u128 {
    match op {
        Op::UToF => {
            if wo == 64 {
                (x as f64).to_bits() as u128
            } else {
                (x as f32).to_bits() as u128
            }
        }
        Op::SToF => {
            let s = sext(x, wi);
            if wo == 64 {
                (s as f64).to_bits() as u128
            } else {
                (s as f32).to_bits() as u128
            }
        }
        Op::FToU | Op::FToS => {
            let f = if wi == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
            if op == Op::FToU {
                (f as u128) & mask(wo)
            } else {
                (f as i128) as u128 & mask(wo)
            }
        }
        Op::FToF => {
            if wi == 64 && wo == 32 {
                (f64::from_bits(x as u64) as f32).to_bits() as u128
            } else if wi == 32 && wo == 64 {
                (f32::from_bits(x as u32) as f64).to_bits() as u128
            } else {
                x
            }
        }
        _ => unreachable!(),
    }
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            fixes: HashMap::new(),
            nodes: vec![],
            range: vec![],
            map: HashMap::new(),
            vars: vec![],
            var_of: HashMap::new(),
        };
        // node 0 is never a real expression
        c.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        c.range.push((0, 0));
        c
    }

    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }

    fn calc_range(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w);
        let r = |e: E| self.range[e as usize];
        match n.op {
            Op::Const => (n.k, n.k),
            Op::ZExt => r(n.a),
            Op::Ite => {
                let (x, y) = (r(n.b), r(n.c));
                (x.0.min(y.0), x.1.max(y.1))
            }
            Op::Concat => {
                let wb = self.w(n.b);
                let (h, l) = (r(n.a), r(n.b));
                ((h.0 << wb) | l.0, (h.1 << wb) | l.1)
            }
            Op::Extract => {
                let x = r(n.a);
                if n.k == 0 && x.1 <= m {
                    x
                } else if n.k + n.w as u128 == self.w(n.a) as u128 {
                    (x.0 >> n.k, x.1 >> n.k)
                } else {
                    (0, m)
                }
            }
            Op::Add => {
                let (x, y) = (r(n.a), r(n.b));
                match x.1.checked_add(y.1) {
                    Some(h) if h <= m => (x.0 + y.0, h),
                    _ => (0, m),
                }
            }
            Op::Sub => {
                let (x, y) = (r(n.a), r(n.b));
                if x.0 >= y.1 {
                    (x.0 - y.1, x.1 - y.0)
                } else {
                    (0, m)
                }
            }
            Op::Mul => {
                let (x, y) = (r(n.a), r(n.b));
                match x.1.checked_mul(y.1) {
                    Some(h) if h <= m => (x.0 * y.0, h),
                    _ => (0, m),
                }
            }
            Op::And => {
                let (x, y) = (r(n.a), r(n.b));
                (0, x.1.min(y.1))
            }
            Op::UDiv => {
                let (x, y) = (r(n.a), r(n.b));
                if y.0 > 0 {
                    (x.0 / y.1, x.1 / y.0)
                } else {
                    (0, m)
                }
            }
            Op::URem => {
                let (x, y) = (r(n.a), r(n.b));
                if y.0 > 0 {
                    (0, x.1.min(y.1 - 1))
                } else {
                    (0, m)
                }
            }
            Op::LShr if self.nodes[n.b as usize].op == Op::Const && self.nodes[n.b as usize].k < 128 => {
                let k = self.nodes[n.b as usize].k;
                let x = r(n.a);
                (x.0 >> k, x.1 >> k)
            }
            _ => (0, m),
        }
    }

    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        let r = self.calc_range(&n);
        self.nodes.push(n);
        self.range.push(r);
        self.map.insert(n, e);
        e
    }

    pub fn konst(&mut self, w: u32, k: u128) -> E {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }

    pub fn var(&mut self, name: &str, w: u32) -> E {
        if let Some(&e) = self.var_of.get(&(name.to_string(), w)) {
            return e;
        }
        let id = self.vars.len();
        self.vars.push((name.to_string(), w));
        let e = self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id as u128 });
        self.var_of.insert((name.to_string(), w), e);
        e
    }

    pub fn ex(&mut self, w: u32, s: S) -> E {
        match s {
            C(k) => self.konst(w, k),
            X(e) => e,
        }
    }
    fn sv(&self, e: E) -> S {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            C(n.k)
        } else {
            X(e)
        }
    }
    fn raw2(&mut self, op: Op, w: u32, a: E, b: E) -> S {
        X(self.mk(Node { op, w, a, b, c: 0, k: 0 }))
    }
    pub fn rng(&self, w: u32, s: S) -> (u128, u128) {
        match s {
            C(k) => (k, k),
            X(e) => {
                let _ = w;
                self.range[e as usize]
            }
        }
    }

    /// LSB-first pieces if the value is a concatenation or an extension; None otherwise.
    fn pieces(&self, w: u32, s: S) -> Option<Vec<(u32, S)>> {
        match s {
            C(k) => Some(vec![(w, C(k))]),
            X(e) => {
                let n = self.nodes[e as usize];
                match n.op {
                    Op::Concat => {
                        let wb = self.w(n.b);
                        let mut v = self.pieces(wb, self.sv(n.b)).unwrap_or_else(|| vec![(wb, X(n.b))]);
                        let wa = self.w(n.a);
                        v.extend(self.pieces(wa, self.sv(n.a)).unwrap_or_else(|| vec![(wa, X(n.a))]));
                        Some(v)
                    }
                    Op::ZExt => {
                        let wa = self.w(n.a);
                        let mut v = self.pieces(wa, self.sv(n.a)).unwrap_or_else(|| vec![(wa, X(n.a))]);
                        v.push((w - wa, C(0)));
                        Some(v)
                    }
                    _ => None,
                }
            }
        }
    }

    /// Try to see `a | b` with disjoint bits as a concatenation.
    fn disjoint_or(&mut self, w: u32, a: S, b: S) -> Option<S> {
        let pa = self.pieces(w, a)?;
        let pb = self.pieces(w, b)?;
        // common refinement
        let mut out: Vec<(u32, S)> = vec![];
        let (mut i, mut j) = (0, 0);
        let (mut oi, mut oj) = (0u32, 0u32);
        while i < pa.len() && j < pb.len() {
            let take = (pa[i].0 - oi).min(pb[j].0 - oj);
            let xa = pa[i].1;
            let xb = pb[j].1;
            let seg = |s: S, off: u32| -> S {
                match s {
                    C(k) => C((k >> off) & mask(take)),
                    x => x,
                }
            };
            let sa = seg(xa, oi);
            let sb = seg(xb, oj);
            let r = if sb == C(0) {
                match sa {
                    X(e) => self.extract(X(e), pa[i].0, oi, take),
                    c => c,
                }
            } else if sa == C(0) {
                match sb {
                    X(e) => self.extract(X(e), pb[j].0, oj, take),
                    c => c,
                }
            } else if let (C(x), C(y)) = (sa, sb) {
                if x & y != 0 {
                    return None;
                }
                C(x | y)
            } else {
                return None;
            };
            out.push((take, r));
            oi += take;
            oj += take;
            if oi == pa[i].0 {
                i += 1;
                oi = 0;
            }
            if oj == pb[j].0 {
                j += 1;
                oj = 0;
            }
        }
        Some(self.concat_pieces(&out))
    }

    pub fn concat_pieces(&mut self, lsb_first: &[(u32, S)]) -> S {
        let mut it = lsb_first.iter();
        let &(mut w, mut acc) = it.next().unwrap();
        for &(pw, p) in it {
            acc = self.concat(pw, p, w, acc);
            w += pw;
        }
        acc
    }

    pub fn concat(&mut self, wh: u32, h: S, wl: u32, l: S) -> S {
        match (h, l) {
            (C(x), C(y)) => C((x << wl) | y),
            (C(0), X(e)) => self.zext(X(e), wl, wl + wh),
            (C(x), X(e)) => {
                // high constant onto a low part that is itself high-constant
                let n = self.nodes[e as usize];
                if n.op == Op::Concat {
                    if let C(y) = self.sv(n.a) {
                        let wa = self.w(n.a);
                        let wb = self.w(n.b);
                        let k = (x << wa) | y;
                        return self.concat(wh + wa, C(k), wb, X(n.b));
                    }
                }
                if n.op == Op::ZExt {
                    let wa = self.w(n.a);
                    return self.concat(wh + (wl - wa), C(x << (wl - wa)), wa, X(n.a));
                }
                let hk = self.konst(wh, x);
                X(self.mk(Node { op: Op::Concat, w: wh + wl, a: hk, b: e, c: 0, k: 0 }))
            }
            (X(a), _) => {
                let na = self.nodes[a as usize];
                if na.op == Op::ZExt {
                    let wi = self.w(na.a);
                    let inner = self.concat(wi, X(na.a), wl, l);
                    return self.zext(inner, wi + wl, wh + wl);
                }
                if let X(b) = l {
                    let nb = self.nodes[b as usize];
                    if na.op == Op::Extract
                        && nb.op == Op::Extract
                        && na.a == nb.a
                        && na.k == nb.k + nb.w as u128
                    {
                        let w0 = self.w(na.a);
                        return self.extract(X(na.a), w0, nb.k as u32, wh + wl);
                    }
                    // (x[hi..k]) ++ (x[k..lo] ++ rest)
                    if na.op == Op::Extract && nb.op == Op::Concat {
                        let nh = self.nodes[nb.a as usize];
                        if nh.op == Op::Extract && nh.a == na.a && na.k == nh.k + nh.w as u128 {
                            let w0 = self.w(na.a);
                            let hh = self.extract(X(na.a), w0, nh.k as u32, wh + nh.w);
                            let wb = self.w(nb.b);
                            let low = self.sv(nb.b);
                            return self.concat(wh + nh.w, hh, wb, low);
                        }
                    }
                }
                let le = self.ex(wl, l);
                X(self.mk(Node { op: Op::Concat, w: wh + wl, a, b: le, c: 0, k: 0 }))
            }
        }
    }

    pub fn extract(&mut self, s: S, w: u32, lo: u32, len: u32) -> S {
        if lo == 0 && len == w {
            return s;
        }
        match s {
            C(k) => C((k >> lo) & mask(len)),
            X(e) => {
                let n = self.nodes[e as usize];
                match n.op {
                    Op::Concat => {
                        let wb = self.w(n.b);
                        let wa = self.w(n.a);
                        let (sa, sb) = (self.sv(n.a), self.sv(n.b));
                        if lo + len <= wb {
                            self.extract(sb, wb, lo, len)
                        } else if lo >= wb {
                            self.extract(sa, wa, lo - wb, len)
                        } else {
                            let l = self.extract(sb, wb, lo, wb - lo);
                            let h = self.extract(sa, wa, 0, len - (wb - lo));
                            self.concat(len - (wb - lo), h, wb - lo, l)
                        }
                    }
                    Op::ZExt => {
                        let wa = self.w(n.a);
                        if lo >= wa {
                            C(0)
                        } else if lo + len <= wa {
                            self.extract(X(n.a), wa, lo, len)
                        } else {
                            let l = self.extract(X(n.a), wa, lo, wa - lo);
                            self.zext(l, wa - lo, len)
                        }
                    }
                    Op::SExt => {
                        let wa = self.w(n.a);
                        if lo + len <= wa {
                            self.extract(X(n.a), wa, lo, len)
                        } else {
                            X(self.mk(Node { op: Op::Extract, w: len, a: e, b: 0, c: 0, k: lo as u128 }))
                        }
                    }
                    Op::Extract => {
                        let w0 = self.w(n.a);
                        self.extract(X(n.a), w0, n.k as u32 + lo, len)
                    }
                    Op::And | Op::Or | Op::Xor => {
                        let (sa, sb) = (self.sv(n.a), self.sv(n.b));
                        let x = self.extract(sa, w, lo, len);
                        let y = self.extract(sb, w, lo, len);
                        self.bin(n.op, len, x, y)
                    }
                    Op::Ite => {
                        let (sb, sc) = (self.sv(n.b), self.sv(n.c));
                        let x = self.extract(sb, w, lo, len);
                        let y = self.extract(sc, w, lo, len);
                        self.ite(X(n.a), len, x, y)
                    }
                    Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                        let (sa, sb) = (self.sv(n.a), self.sv(n.b));
                        let x = self.extract(sa, w, 0, len);
                        let y = self.extract(sb, w, 0, len);
                        self.bin(n.op, len, x, y)
                    }
                    _ => X(self.mk(Node { op: Op::Extract, w: len, a: e, b: 0, c: 0, k: lo as u128 })),
                }
            }
        }
    }

    pub fn zext(&mut self, s: S, w: u32, to: u32) -> S {
        if w == to {
            return s;
        }
        match s {
            C(k) => C(k),
            X(e) => {
                let n = self.nodes[e as usize];
                if n.op == Op::ZExt {
                    let wa = self.w(n.a);
                    return self.zext(X(n.a), wa, to);
                }
                X(self.mk(Node { op: Op::ZExt, w: to, a: e, b: 0, c: 0, k: 0 }))
            }
        }
    }
    pub fn sext(&mut self, s: S, w: u32, to: u32) -> S {
        if w == to {
            return s;
        }
        match s {
            C(k) => C(sext(k, w) as u128 & mask(to)),
            X(e) => {
                let n = self.nodes[e as usize];
                if n.op == Op::ZExt {
                    let wa = self.w(n.a);
                    return self.zext(X(n.a), wa, to);
                }
                if w == 1 {
                    return self.ite(X(e), to, C(mask(to)), C(0));
                }
                X(self.mk(Node { op: Op::SExt, w: to, a: e, b: 0, c: 0, k: 0 }))
            }
        }
    }

    pub fn not1(&mut self, s: S) -> S {
        match s {
            C(k) => C(k ^ 1),
            X(e) => {
                let n = self.nodes[e as usize];
                match n.op {
                    Op::Ult => {
                        let w = self.w(n.a);
                        let (a, b) = (self.sv(n.a), self.sv(n.b));
                        self.bin(Op::Ule, w, b, a)
                    }
                    Op::Ule => {
                        let w = self.w(n.a);
                        let (a, b) = (self.sv(n.a), self.sv(n.b));
                        self.bin(Op::Ult, w, b, a)
                    }
                    Op::Slt => {
                        let w = self.w(n.a);
                        let (a, b) = (self.sv(n.a), self.sv(n.b));
                        self.bin(Op::Sle, w, b, a)
                    }
                    Op::Sle => {
                        let w = self.w(n.a);
                        let (a, b) = (self.sv(n.a), self.sv(n.b));
                        self.bin(Op::Slt, w, b, a)
                    }
                    Op::Xor if n.w == 1 && self.sv(n.b) == C(1) => X(n.a),
                    _ => {
                        let one = self.konst(1, 1);
                        self.raw2(Op::Xor, 1, e, one)
                    }
                }
            }
        }
    }

    pub fn ite(&mut self, c: S, w: u32, a: S, b: S) -> S {
        if a == b {
            return a;
        }
        match c {
            C(k) => {
                if k & 1 == 1 {
                    a
                } else {
                    b
                }
            }
            X(ce) => {
                if w == 1 {
                    match (a, b) {
                        (C(1), C(0)) => return c,
                        (C(0), C(1)) => return self.not1(c),
                        (C(1), x) => return self.bin(Op::Or, 1, c, x),
                        (C(0), x) => {
                            let nc = self.not1(c);
                            return self.bin(Op::And, 1, nc, x);
                        }
                        (x, C(0)) => return self.bin(Op::And, 1, c, x),
                        (x, C(1)) => {
                            let nc = self.not1(c);
                            return self.bin(Op::Or, 1, nc, x);
                        }
                        _ => {}
                    }
                }
                let n = self.nodes[ce as usize];
                if n.op == Op::Xor && n.w == 1 && self.sv(n.b) == C(1) {
                    return self.ite(X(n.a), w, b, a);
                }
                // ite(c, ite(c, x, y), z) = ite(c, x, z)
                if let X(ae) = a {
                    let na = self.nodes[ae as usize];
                    if na.op == Op::Ite && na.a == ce {
                        let x = self.sv(na.b);
                        return self.ite(c, w, x, b);
                    }
                }
                if let X(be) = b {
                    let nb = self.nodes[be as usize];
                    if nb.op == Op::Ite && nb.a == ce {
                        let x = self.sv(nb.c);
                        return self.ite(c, w, a, x);
                    }
                }
                let (ae, be) = (self.ex(w, a), self.ex(w, b));
                X(self.mk(Node { op: Op::Ite, w, a: ce, b: ae, c: be, k: 0 }))
            }
        }
    }

    /// Binary operation on operands of width `w`; comparisons give width 1.
    pub fn bin(&mut self, op: Op, w: u32, a: S, b: S) -> S {
        if let (C(x), C(y)) = (a, b) {
            return if is_f(op) { C(fold_f(op, w, x, y)) } else { C(fold(op, w, x, y)) };
        }
        if w == 64 && matches!(op, Op::FLt | Op::FLe | Op::FEq | Op::FIsNan) {
            if let Some(r) = self.fix_cmp(op, a, b) {
                return r;
            }
        }
        let m = mask(w);
        // commutative: constant to the right
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if let (C(_), X(_)) = (a, b) {
                return self.bin(op, w, b, a);
            }
            if let (X(x), X(y)) = (a, b) {
                if x > y {
                    return self.bin(op, w, b, a);
                }
            }
        }
        match op {
            Op::Add => {
                if b == C(0) {
                    return a;
                }
                if let (X(e), C(k)) = (a, b) {
                    let n = self.nodes[e as usize];
                    if n.op == Op::Add {
                        if let C(k2) = self.sv(n.b) {
                            return self.bin(Op::Add, w, X(n.a), C(k.wrapping_add(k2) & m));
                        }
                    }
                    if n.op == Op::Ite {
                        if let (C(x), C(y)) = (self.sv(n.b), self.sv(n.c)) {
                            return self.ite(
                                X(n.a),
                                w,
                                C(x.wrapping_add(k) & m),
                                C(y.wrapping_add(k) & m),
                            );
                        }
                    }
                }
                if w > 1 {
                    if let Some(r) = self.disjoint_or(w, a, b) {
                        return r;
                    }
                }
                if w == 1 {
                    return self.bin(Op::Xor, 1, a, b);
                }
            }
            Op::Sub => {
                if b == C(0) {
                    return a;
                }
                if a == b {
                    return C(0);
                }
                if let C(k) = b {
                    return self.bin(Op::Add, w, a, C(k.wrapping_neg() & m));
                }
                // (x + k) - x
                if let (X(x), X(y)) = (a, b) {
                    let n = self.nodes[x as usize];
                    if n.op == Op::Add && n.a == y {
                        return self.sv(n.b);
                    }
                    if n.op == Op::Add && n.b == y {
                        return self.sv(n.a);
                    }
                }
            }
            Op::Mul => match b {
                C(0) => return C(0),
                C(1) => return a,
                C(k) if k.is_power_of_two() => {
                    return self.bin(Op::Shl, w, a, C(k.trailing_zeros() as u128))
                }
                _ => {}
            },
            Op::UDiv => match b {
                C(1) => return a,
                C(k) if k != 0 && k.is_power_of_two() => {
                    return self.bin(Op::LShr, w, a, C(k.trailing_zeros() as u128))
                }
                C(k) if k != 0 => {
                    if let X(e) = a {
                        if self.range[e as usize].1 < k {
                            return C(0);
                        }
                    }
                }
                _ => {}
            },
            Op::URem => match b {
                C(1) => return C(0),
                C(k) if k != 0 && k.is_power_of_two() => return self.bin(Op::And, w, a, C(k - 1)),
                C(k) if k != 0 => {
                    if let X(e) = a {
                        if self.range[e as usize].1 < k {
                            return a;
                        }
                    }
                }
                _ => {}
            },
            Op::And => {
                if b == C(0) {
                    return C(0);
                }
                if b == C(m) || a == b {
                    return a;
                }
                if let C(k) = b {
                    // low mask
                    if (k + 1).is_power_of_two() {
                        let len = k.trailing_ones();
                        let x = self.extract(a, w, 0, len);
                        return self.zext(x, len, w);
                    }
                    // general contiguous mask
                    let tz = k.trailing_zeros();
                    let sh = k >> tz;
                    if (sh + 1).is_power_of_two() {
                        let len = sh.trailing_ones();
                        let x = self.extract(a, w, tz, len);
                        let lo = self.concat(len, x, tz, C(0));
                        return self.zext(lo, len + tz, w);
                    }
                }
                if w == 1 {
                    if let (X(x), X(y)) = (a, b) {
                        if self.not1(X(x)) == X(y) {
                            return C(0);
                        }
                    }
                }
            }
            Op::Or => {
                if b == C(0) || a == b {
                    return a;
                }
                if b == C(m) {
                    return C(m);
                }
                if w == 1 {
                    if let (X(x), X(y)) = (a, b) {
                        if self.not1(X(x)) == X(y) {
                            return C(1);
                        }
                    }
                } else if let Some(r) = self.disjoint_or(w, a, b) {
                    return r;
                }
            }
            Op::Xor => {
                if b == C(0) {
                    return a;
                }
                if a == b {
                    return C(0);
                }
                if w == 1 && b == C(1) {
                    return self.not1(a);
                }
                if w > 1 {
                    if let Some(r) = self.disjoint_or(w, a, b) {
                        return r;
                    }
                }
            }
            Op::Shl => {
                if let C(k) = b {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return C(0);
                    }
                    let x = self.extract(a, w, 0, w - k as u32);
                    return self.concat(w - k as u32, x, k as u32, C(0));
                }
            }
            Op::LShr => {
                if let C(k) = b {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return C(0);
                    }
                    let x = self.extract(a, w, k as u32, w - k as u32);
                    return self.zext(x, w - k as u32, w);
                }
            }
            Op::AShr => {
                if let C(k) = b {
                    if k == 0 {
                        return a;
                    }
                    if let X(e) = a {
                        if self.range[e as usize].1 <= m >> 1 {
                            return self.bin(Op::LShr, w, a, b);
                        }
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return C(1);
                }
                let (ra, rb) = (self.rng(w, a), self.rng(w, b));
                if ra.1 < rb.0 || rb.1 < ra.0 {
                    return C(0);
                }
                if let (X(e), C(k)) = (a, b) {
                    if w == 1 {
                        return if k == 1 { a } else { self.not1(a) };
                    }
                    let n = self.nodes[e as usize];
                    match n.op {
                        Op::ZExt => {
                            let wa = self.w(n.a);
                            return self.bin(Op::Eq, wa, X(n.a), C(k & mask(wa)));
                        }
                        Op::Ite => {
                            let (x, y) = (self.sv(n.b), self.sv(n.c));
                            if matches!(x, C(_)) || matches!(y, C(_)) {
                                let ex = self.bin(Op::Eq, w, x, C(k));
                                let ey = self.bin(Op::Eq, w, y, C(k));
                                return self.ite(X(n.a), 1, ex, ey);
                            }
                        }
                        Op::Add => {
                            if let C(k2) = self.sv(n.b) {
                                return self.bin(Op::Eq, w, X(n.a), C(k.wrapping_sub(k2) & m));
                            }
                        }
                        Op::Xor => {
                            if let C(k2) = self.sv(n.b) {
                                return self.bin(Op::Eq, w, X(n.a), C(k ^ k2));
                            }
                        }
                        Op::Concat => {
                            let (wa, wb) = (self.w(n.a), self.w(n.b));
                            let (sa, sb) = (self.sv(n.a), self.sv(n.b));
                            let h = self.bin(Op::Eq, wa, sa, C(k >> wb));
                            if h == C(0) {
                                return C(0);
                            }
                            let l = self.bin(Op::Eq, wb, sb, C(k & mask(wb)));
                            return self.bin(Op::And, 1, h, l);
                        }
                        Op::SExt => {
                            let wa = self.w(n.a);
                            let low = k & mask(wa);
                            if sext(low, wa) as u128 & m == k {
                                return self.bin(Op::Eq, wa, X(n.a), C(low));
                            }
                            return C(0);
                        }
                        _ => {}
                    }
                }
                if let (X(x), X(y)) = (a, b) {
                    let (nx, ny) = (self.nodes[x as usize], self.nodes[y as usize]);
                    if nx.op == Op::ZExt && ny.op == Op::ZExt && self.w(nx.a) == self.w(ny.a) {
                        let wa = self.w(nx.a);
                        return self.bin(Op::Eq, wa, X(nx.a), X(ny.a));
                    }
                    if nx.op == Op::Add && ny.op == Op::Add && nx.b == ny.b {
                        return self.bin(Op::Eq, w, X(nx.a), X(ny.a));
                    }
                    if nx.op == Op::Concat && ny.op == Op::Concat && self.w(nx.b) == self.w(ny.b) {
                        let (wa, wb) = (self.w(nx.a), self.w(nx.b));
                        let (xa, ya, xb, yb) =
                            (self.sv(nx.a), self.sv(ny.a), self.sv(nx.b), self.sv(ny.b));
                        let h = self.bin(Op::Eq, wa, xa, ya);
                        let l = self.bin(Op::Eq, wb, xb, yb);
                        return self.bin(Op::And, 1, h, l);
                    }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b {
                    return C((op == Op::Ule) as u128);
                }
                let (ra, rb) = (self.rng(w, a), self.rng(w, b));
                if op == Op::Ult {
                    if ra.1 < rb.0 {
                        return C(1);
                    }
                    if ra.0 >= rb.1 {
                        return C(0);
                    }
                } else {
                    if ra.1 <= rb.0 {
                        return C(1);
                    }
                    if ra.0 > rb.1 {
                        return C(0);
                    }
                }
                // canonical: x <= k  ->  x < k+1 ; k <= x -> k-1 < x
                if op == Op::Ule {
                    if let C(k) = b {
                        return self.bin(Op::Ult, w, a, C(k + 1)); // k < m by range
                    }
                    if let C(k) = a {
                        return self.bin(Op::Ult, w, C(k - 1), b); // k > 0 by range
                    }
                }
                let za = match a {
                    X(e) if self.nodes[e as usize].op == Op::ZExt => {
                        Some((self.w(self.nodes[e as usize].a), self.nodes[e as usize].a))
                    }
                    _ => None,
                };
                let zb = match b {
                    X(e) if self.nodes[e as usize].op == Op::ZExt => {
                        Some((self.w(self.nodes[e as usize].a), self.nodes[e as usize].a))
                    }
                    _ => None,
                };
                match (za, zb, a, b) {
                    (Some((wa, x)), Some((wb, y)), _, _) => {
                        let wm = wa.max(wb);
                        let x = self.zext(X(x), wa, wm);
                        let y = self.zext(X(y), wb, wm);
                        if wm < w {
                            return self.bin(op, wm, x, y);
                        }
                    }
                    (Some((wa, x)), None, _, C(k)) => {
                        if k <= mask(wa) {
                            return self.bin(op, wa, X(x), C(k));
                        }
                    }
                    (None, Some((wb, y)), C(k), _) => {
                        if k <= mask(wb) {
                            return self.bin(op, wb, C(k), X(y));
                        }
                    }
                    _ => {}
                }
                if let (X(e), C(k)) = (a, b) {
                    let n = self.nodes[e as usize];
                    if n.op == Op::Ite {
                        if let (C(x), C(y)) = (self.sv(n.b), self.sv(n.c)) {
                            return self.ite(X(n.a), 1, C((x < k) as u128), C((y < k) as u128));
                        }
                    }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return C((op == Op::Sle) as u128);
                }
                let h = m >> 1;
                let (ra, rb) = (self.rng(w, a), self.rng(w, b));
                let (na, nb) = (ra.1 <= h, rb.1 <= h);
                if na && nb {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, w, a, b);
                }
                if na && rb.0 > h {
                    return C(0); // nonneg < neg
                }
                if nb && ra.0 > h {
                    return C(1);
                }
            }
            _ => {}
        }
        let (x, y) = (self.ex(w, a), self.ex(w, b));
        let rw = if is_cmp(op) { 1 } else { w };
        self.raw2(op, rw, x, y)
    }

    pub fn conv(&mut self, op: Op, wi: u32, wo: u32, a: S) -> S {
        match a {
            C(k) => C(fold_conv(op, wi, wo, k)),
            X(e) => {
                if op == Op::FToS && wi == 64 {
                    if let Some(r) = self.fix_to_int(a, wo) {
                        return r;
                    }
                }
                if wi == wo && op == Op::FToF {
                    return a;
                }
                X(self.mk(Node { op, w: wo, a: e, b: 0, c: 0, k: 0 }))
            }
        }
    }

    // ---- doubles that are scaled integers ------------------------------------------------
    //
    // Doubles obtained from bounded integers by +, - and multiplication with constants are exact
    // scaled integers (IEEE rounding included), which the solver handles far better than its
    // floating-point theory.

    /// Signed bounds of an integer expression.
    pub fn sivl(&self, s: S, w: u32) -> (i128, i128) {
        let full = (-(1i128 << (w.min(127) - 1)), (1i128 << (w.min(127) - 1)) - 1);
        let e = match s {
            C(k) => return (sext(k, w), sext(k, w)),
            X(e) => e,
        };
        let n = self.nodes[e as usize];
        let fit = |r: (i128, i128)| if r.0 >= full.0 && r.1 <= full.1 { r } else { full };
        let q = |e: E| {
            let w = self.w(e);
            if self.nodes[e as usize].op == Op::Const {
                let k = sext(self.nodes[e as usize].k, w);
                (k, k)
            } else {
                self.sivl(X(e), w)
            }
        };
        if w > 120 {
            return full;
        }
        let r = match n.op {
            Op::SExt => q(n.a),
            Op::Add => {
                let (x, y) = (q(n.a), q(n.b));
                fit((x.0 + y.0, x.1 + y.1))
            }
            Op::Sub => {
                let (x, y) = (q(n.a), q(n.b));
                fit((x.0 - y.1, x.1 - y.0))
            }
            Op::Mul if self.nodes[n.a as usize].op == Op::Const || self.nodes[n.b as usize].op == Op::Const => {
                let (x, y) = (q(n.a), q(n.b));
                let p = |a: i128, b: i128| a.checked_mul(b);
                match (p(x.0, y.0), p(x.0, y.1), p(x.1, y.0), p(x.1, y.1)) {
                    (Some(a), Some(b), Some(c), Some(d)) => fit((a.min(b).min(c).min(d), a.max(b).max(c).max(d))),
                    _ => full,
                }
            }
            Op::Ite => {
                let (x, y) = (q(n.b), q(n.c));
                (x.0.min(y.0), x.1.max(y.1))
            }
            Op::Extract if n.k == 0 && self.w(n.a) <= 120 => fit(q(n.a)),
            _ => full,
        };
        let u = self.range[e as usize];
        if u.1 <= full.1 as u128 && (u.1 as i128) - (u.0 as i128) <= r.1 - r.0 {
            return (u.0 as i128, u.1 as i128);
        }
        r
    }

    fn sfit(&mut self, s: S, w: u32, to: u32) -> S {
        if to > w {
            self.sext(s, w, to)
        } else {
            self.extract(s, w, 0, to)
        }
    }

    fn fix(&mut self, s: S) -> Option<Fix> {
        let e = match s {
            C(k) => {
                let f = f64::from_bits(k as u64);
                if !f.is_finite() {
                    return None;
                }
                if f == 0.0 {
                    return Some(Fix { v: C(0), w: 2, k: 0, lo: 0, hi: 0 });
                }
                let b = k as u64;
                let ex = ((b >> 52) & 0x7ff) as i32;
                let mut m = (b & ((1 << 52) - 1)) as i128;
                if ex == 0 {
                    return None;
                }
                m |= 1 << 52;
                let mut p = ex - 1075;
                while m & 1 == 0 {
                    m >>= 1;
                    p += 1;
                }
                let mut k = 0;
                if p > 0 {
                    if p > 64 {
                        return None;
                    }
                    m <<= p;
                } else {
                    k = (-p) as u32;
                }
                if k > 100 {
                    return None;
                }
                if b >> 63 == 1 {
                    m = -m;
                }
                let w = width(m, m);
                return Some(Fix { v: C(m as u128 & mask(w)), w, k, lo: m, hi: m });
            }
            X(e) => e,
        };
        if let Some(r) = self.fixes.get(&e) {
            return *r;
        }
        let n = self.nodes[e as usize];
        let r = if n.w != 64 { None } else { self.fix_node(&n) };
        self.fixes.insert(e, r);
        r
    }

    fn sof(&self, e: E) -> S {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            C(n.k)
        } else {
            X(e)
        }
    }

    fn fix_node(&mut self, n: &Node) -> Option<Fix> {
        const EXACT: i128 = 1 << 53;
        match n.op {
            Op::SToF => {
                let wi = self.w(n.a);
                let a = self.sof(n.a);
                let (lo, hi) = self.sivl(a, wi);
                if lo <= -EXACT || hi >= EXACT {
                    return None;
                }
                let w = width(lo, hi);
                let v = self.sfit(a, wi, w);
                Some(Fix { v, w, k: 0, lo, hi })
            }
            Op::UToF => {
                let wi = self.w(n.a);
                let a = self.sof(n.a);
                let (lo, hi) = self.rng(wi, a);
                if hi >= EXACT as u128 {
                    return None;
                }
                let (lo, hi) = (lo as i128, hi as i128);
                let w = width(lo, hi);
                let v = if w > wi { self.zext(a, wi, w) } else { self.extract(a, wi, 0, w) };
                Some(Fix { v, w, k: 0, lo, hi })
            }
            Op::FMul => {
                let (a, b) = (self.sof(n.a), self.sof(n.b));
                let (x, y) = (self.fix(a)?, self.fix(b)?);
                if x.lo != x.hi && y.lo != y.hi {
                    return None;
                }
                let p = |a: i128, b: i128| a.checked_mul(b).filter(|v| v.abs() < 1 << 118);
                let c = [p(x.lo, y.lo)?, p(x.lo, y.hi)?, p(x.hi, y.lo)?, p(x.hi, y.hi)?];
                let (lo, hi) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
                let w = width(lo, hi).max(x.w).max(y.w);
                let (vx, vy) = (self.sfit(x.v, x.w, w), self.sfit(y.v, y.w, w));
                let v = self.bin(Op::Mul, w, vx, vy);
                self.round53(Fix { v, w, k: x.k + y.k, lo, hi })
            }
            Op::FAdd | Op::FSub => {
                let (a, b) = (self.sof(n.a), self.sof(n.b));
                let (x, y) = (self.fix(a)?, self.fix(b)?);
                let (x, y) = self.align(x, y)?;
                let (lo, hi) = if n.op == Op::FAdd { (x.lo + y.lo, x.hi + y.hi) } else { (x.lo - y.hi, x.hi - y.lo) };
                let w = width(lo, hi).max(x.w).max(y.w);
                let (vx, vy) = (self.sfit(x.v, x.w, w), self.sfit(y.v, y.w, w));
                let v = self.bin(if n.op == Op::FAdd { Op::Add } else { Op::Sub }, w, vx, vy);
                self.round53(Fix { v, w, k: x.k, lo, hi })
            }
            Op::Ite => {
                let (a, b) = (self.sof(n.b), self.sof(n.c));
                let (x, y) = (self.fix(a)?, self.fix(b)?);
                let (x, y) = self.align(x, y)?;
                let w = x.w.max(y.w);
                let (vx, vy) = (self.sfit(x.v, x.w, w), self.sfit(y.v, y.w, w));
                let c = self.sof(n.a);
                let v = self.ite(c, w, vx, vy);
                Some(Fix { v, w, k: x.k, lo: x.lo.min(y.lo), hi: x.hi.max(y.hi) })
            }
            _ => None,
        }
    }

    /// The same two values with a common scale.
    fn align(&mut self, x: Fix, y: Fix) -> Option<(Fix, Fix)> {
        let k = x.k.max(y.k);
        let up = |c: &mut Self, f: Fix| -> Option<Fix> {
            let d = k - f.k;
            if d == 0 {
                return Some(f);
            }
            if d > 100 {
                return None;
            }
            let m = 1i128 << d;
            let (lo, hi) = (f.lo.checked_mul(m)?, f.hi.checked_mul(m)?);
            if lo.abs() >= 1 << 118 || hi.abs() >= 1 << 118 {
                return None;
            }
            let w = width(lo, hi).max(f.w);
            let v = c.sfit(f.v, f.w, w);
            let v = c.bin(Op::Shl, w, v, C(d as u128));
            Some(Fix { v, w, k, lo, hi })
        };
        Some((up(self, x)?, up(self, y)?))
    }

    /// Round to nearest even at 53 significant bits.
    fn round53(&mut self, f: Fix) -> Option<Fix> {
        let top = f.lo.abs().max(f.hi.abs());
        let bits = 128 - top.leading_zeros();
        if bits <= 53 {
            return Some(f);
        }
        let w = f.w + 1;
        let v = self.sfit(f.v, f.w, w);
        let neg = if f.lo >= 0 { C(0) } else { self.bin(Op::Slt, w, v, C(0)) };
        let m = self.bin(Op::Sub, w, C(0), v);
        let a = self.ite(neg, w, m, v);
        let mut r = a;
        for s in 1..=bits - 53 {
            // at least 53 + s significant bits
            let big = self.bin(Op::Ule, w, C(1u128 << (52 + s)), a);
            let odd = self.extract(a, w, s, 1);
            let odd = self.zext(odd, 1, w);
            let t = self.bin(Op::Add, w, a, C((1u128 << (s - 1)) - 1));
            let t = self.bin(Op::Add, w, t, odd);
            let hi = self.extract(t, w, s, w - s);
            let t = self.concat(w - s, hi, s, C(0));
            r = self.ite(big, w, t, r);
        }
        let m = self.bin(Op::Sub, w, C(0), r);
        let v = self.ite(neg, w, m, r);
        let slack = 1i128 << (bits - 53);
        Some(Fix { v, w, k: f.k, lo: f.lo - if f.lo < 0 { slack } else { 0 }, hi: f.hi + slack })
    }

    fn fix_to_int(&mut self, x: S, wo: u32) -> Option<S> {
        let f = self.fix(x)?;
        let (lo, hi) = (f.lo >> f.k.min(127), (f.hi >> f.k.min(127)) + 1);
        if wo < 127 && (lo < -(1i128 << (wo - 1)) || hi >= 1i128 << (wo - 1)) {
            return None;
        }
        let w = f.w.max(f.k + 2);
        let v = self.sfit(f.v, f.w, w);
        let neg = if f.lo >= 0 { C(0) } else { self.bin(Op::Slt, w, v, C(0)) };
        let m = self.bin(Op::Sub, w, C(0), v);
        let a = self.ite(neg, w, m, v);
        let a = self.bin(Op::LShr, w, a, C(f.k as u128));
        let m = self.bin(Op::Sub, w, C(0), a);
        let r = self.ite(neg, w, m, a);
        // the bounds are known: cut to what is needed so that later steps know them too
        let need = width(lo, hi).min(w);
        let r = self.extract(r, w, 0, need);
        Some(if f.lo >= 0 && need < wo {
            let r = self.extract(r, need, 0, need - 1);
            self.zext(r, need - 1, wo)
        } else {
            self.sfit(r, need, wo)
        })
    }

    fn fix_cmp(&mut self, op: Op, a: S, b: S) -> Option<S> {
        if op == Op::FIsNan {
            self.fix(a)?;
            self.fix(b)?;
            return Some(C(0));
        }
        let (x, y) = (self.fix(a)?, self.fix(b)?);
        let (x, y) = self.align(x, y)?;
        let known = match op {
            Op::FLt if x.hi < y.lo => Some(1),
            Op::FLt if x.lo >= y.hi => Some(0),
            Op::FLe if x.hi <= y.lo => Some(1),
            Op::FLe if x.lo > y.hi => Some(0),
            Op::FEq if x.hi < y.lo || y.hi < x.lo => Some(0),
            _ => None,
        };
        if let Some(k) = known {
            return Some(C(k));
        }
        let w = x.w.max(y.w);
        let (vx, vy) = (self.sfit(x.v, x.w, w), self.sfit(y.v, y.w, w));
        let op = match op {
            Op::FLt => Op::Slt,
            Op::FLe => Op::Sle,
            Op::FEq => Op::Eq,
            _ => return None,
        };
        Some(self.bin(op, w, vx, vy))
    }

    /// Evaluate under an assignment of the variables (missing ones are 0).
    pub fn eval(&self, e: E, model: &[u128], memo: &mut HashMap<E, u128>) -> u128 {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(n.k as usize).copied().unwrap_or(0) & mask(n.w),
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let v = match n.op {
            Op::Ite => {
                if self.eval(n.a, model, memo) & 1 == 1 {
                    self.eval(n.b, model, memo)
                } else {
                    self.eval(n.c, model, memo)
                }
            }
            Op::Concat => {
                let h = self.eval(n.a, model, memo);
                let l = self.eval(n.b, model, memo);
                (h << self.w(n.b)) | l
            }
            Op::Extract => (self.eval(n.a, model, memo) >> n.k) & mask(n.w),
            Op::ZExt => self.eval(n.a, model, memo),
            Op::SExt => sext(self.eval(n.a, model, memo), self.w(n.a)) as u128 & mask(n.w),
            Op::UToF | Op::SToF | Op::FToU | Op::FToS | Op::FToF => {
                fold_conv(n.op, self.w(n.a), n.w, self.eval(n.a, model, memo))
            }
            op => {
                let x = self.eval(n.a, model, memo);
                let y = self.eval(n.b, model, memo);
                if is_f(op) {
                    fold_f(op, self.w(n.a), x, y)
                } else {
                    fold(op, self.w(n.a), x, y)
                }
            }
        };
        memo.insert(e, v);
        v
    }

    /// Evaluate where some sub-expressions have known values; None if undetermined.
    pub fn peval(
        &self,
        e: E,
        known: &HashMap<E, u128>,
        memo: &mut HashMap<E, Option<u128>>,
    ) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            return Some(n.k);
        }
        if let Some(&v) = known.get(&e) {
            return Some(v);
        }
        if n.op == Op::Var {
            return None;
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let v = match n.op {
            Op::Ite => match self.peval(n.a, known, memo) {
                Some(1) => self.peval(n.b, known, memo),
                Some(_) => self.peval(n.c, known, memo),
                None => {
                    let x = self.peval(n.b, known, memo);
                    if x.is_some() && x == self.peval(n.c, known, memo) {
                        x
                    } else {
                        None
                    }
                }
            },
            Op::Concat => {
                let h = self.peval(n.a, known, memo);
                let l = self.peval(n.b, known, memo);
                match (h, l) {
                    (Some(h), Some(l)) => Some((h << self.w(n.b)) | l),
                    _ => None,
                }
            }
            Op::Extract => self.peval(n.a, known, memo).map(|x| (x >> n.k) & mask(n.w)),
            Op::ZExt => self.peval(n.a, known, memo),
            Op::SExt => self
                .peval(n.a, known, memo)
                .map(|x| sext(x, self.w(n.a)) as u128 & mask(n.w)),
            Op::UToF | Op::SToF | Op::FToU | Op::FToS | Op::FToF => {
                let wi = self.w(n.a);
                let (op, w) = (n.op, n.w);
                self.peval(n.a, known, memo).map(|x| fold_conv(op, wi, w, x))
            }
            op => {
                let x = self.peval(n.a, known, memo);
                let y = self.peval(n.b, known, memo);
                match (op, x, y) {
                    (Op::And, Some(0), _) | (Op::And, _, Some(0)) => Some(0),
                    (Op::Or, Some(k), _) | (Op::Or, _, Some(k)) if k == mask(n.w) => Some(k),
                    (_, Some(x), Some(y)) => Some(if is_f(op) {
                        fold_f(op, self.w(n.a), x, y)
                    } else {
                        fold(op, self.w(n.a), x, y)
                    }),
                    _ => None,
                }
            }
        };
        memo.insert(e, v);
        v
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => format!("{}#{}", n.k, n.w),
            Op::Var => self.vars[n.k as usize].0.clone(),
            _ if depth == 0 => "..".into(),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.k, n.w),
            Op::ZExt | Op::SExt | Op::UToF | Op::SToF | Op::FToU | Op::FToS | Op::FToF => {
                format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1))
            }
            Op::Ite => format!(
                "ite({}, {}, {})",
                self.show(n.a, depth - 1),
                self.show(n.b, depth - 1),
                self.show(n.c, depth - 1)
            ),
            _ => format!("{:?}({}, {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
