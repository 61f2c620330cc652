//! Minimal binding to libz3 and translation of expressions.
use crate::expr::{mask, Ctx, Node, Op, E};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().into_owned();
        eprintln!("symx: z3 error: {m}");
        std::process::exit(3);
    }
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

fn kp(c: P, a: P) -> P {
    unsafe { Z3_inc_ref(c, a) };
    a
}

pub enum Res {
    Sat(Vec<u128>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    bv: Vec<P>,
    bo: Vec<P>,
    stack: Vec<E>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub slowest: f64,
}

impl Solver {
    pub fn new(rlimit: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, on_error);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            if rlimit > 0 {
                let k = CString::new("rlimit").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), rlimit);
            }
            Z3_solver_set_params(c, s, p);
            Solver {
                c,
                s,
                bv: vec![],
                bo: vec![],
                stack: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                time: 0.0,
                slowest: 0.0,
            }
        }
    }

    fn keep(&mut self, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }

    fn num(&mut self, w: u32, k: u128) -> P {
        unsafe {
            let so = kp(self.c, Z3_mk_bv_sort(self.c, w));
            if w <= 64 {
                kp(self.c, Z3_mk_unsigned_int64(self.c, k as u64, so))
            } else {
                let s = CString::new(k.to_string()).unwrap();
                kp(self.c, Z3_mk_numeral(self.c, s.as_ptr(), so))
            }
        }
    }

    fn fsort(&self, w: u32) -> P {
        unsafe {
            if w == 64 {
                kp(self.c, Z3_mk_fpa_sort_double(self.c))
            } else {
                kp(self.c, Z3_mk_fpa_sort_single(self.c))
            }
        }
    }

    /// As a Boolean (for width-1 expressions).
    fn tb(&mut self, cx: &Ctx, e: E) -> P {
        if (e as usize) < self.bo.len() && !self.bo[e as usize].is_null() {
            return self.bo[e as usize];
        }
        let n: Node = cx.nodes[e as usize];
        debug_assert!(n.w == 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        kp(self.c, Z3_mk_true(c))
                    } else {
                        kp(self.c, Z3_mk_false(c))
                    }
                }
                Op::And => {
                    let a = [self.tb(cx, n.a), self.tb(cx, n.b)];
                    kp(self.c, Z3_mk_and(c, 2, a.as_ptr()))
                }
                Op::Or => {
                    let a = [self.tb(cx, n.a), self.tb(cx, n.b)];
                    kp(self.c, Z3_mk_or(c, 2, a.as_ptr()))
                }
                Op::Xor => {
                    let bn = cx.nodes[n.b as usize];
                    let a = self.tb(cx, n.a);
                    if bn.op == Op::Const {
                        if bn.k == 1 {
                            kp(self.c, Z3_mk_not(c, a))
                        } else {
                            a
                        }
                    } else {
                        let b = self.tb(cx, n.b);
                        kp(self.c, Z3_mk_xor(c, a, b))
                    }
                }
                Op::Eq if cx.w(n.a) == 1 => {
                    let a = self.tb(cx, n.a);
                    let b = self.tb(cx, n.b);
                    kp(self.c, Z3_mk_eq(c, a, b))
                }
                Op::Eq => {
                    let a = self.tv(cx, n.a);
                    let b = self.tv(cx, n.b);
                    kp(self.c, Z3_mk_eq(c, a, b))
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.tv(cx, n.a);
                    let b = self.tv(cx, n.b);
                    match n.op {
                        Op::Ult => kp(self.c, Z3_mk_bvult(c, a, b)),
                        Op::Ule => kp(self.c, Z3_mk_bvule(c, a, b)),
                        Op::Slt => kp(self.c, Z3_mk_bvslt(c, a, b)),
                        _ => kp(self.c, Z3_mk_bvsle(c, a, b)),
                    }
                }
                Op::FEq | Op::FLt | Op::FLe | Op::FIsNan => {
                    let so = self.fsort(cx.w(n.a));
                    let a = self.tv(cx, n.a);
                    let b = self.tv(cx, n.b);
                    let a = kp(self.c, Z3_mk_fpa_to_fp_bv(c, a, so));
                    let b = kp(self.c, Z3_mk_fpa_to_fp_bv(c, b, so));
                    match n.op {
                        Op::FEq => kp(self.c, Z3_mk_fpa_eq(c, a, b)),
                        Op::FLt => kp(self.c, Z3_mk_fpa_lt(c, a, b)),
                        Op::FLe => kp(self.c, Z3_mk_fpa_leq(c, a, b)),
                        _ => kp(self.c, Z3_mk_fpa_is_nan(c, a)),
                    }
                }
                Op::Ite => {
                    let a = self.tb(cx, n.a);
                    let x = self.tb(cx, n.b);
                    let y = self.tb(cx, n.c);
                    kp(self.c, Z3_mk_ite(c, a, x, y))
                }
                _ => {
                    let a = self.tv(cx, e);
                    let one = self.num(1, 1);
                    kp(self.c, Z3_mk_eq(c, a, one))
                }
            }
        };
        self.keep(r);
        if self.bo.len() <= e as usize {
            self.bo.resize(cx.nodes.len().max(e as usize + 1), std::ptr::null_mut());
        }
        self.bo[e as usize] = r;
        r
    }

    fn tv(&mut self, cx: &Ctx, e: E) -> P {
        if (e as usize) < self.bv.len() && !self.bv[e as usize].is_null() {
            return self.bv[e as usize];
        }
        let n: Node = cx.nodes[e as usize];
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.w, n.k),
                Op::Var => {
                    let s = CString::new(format!("v{}", n.k)).unwrap();
                    let sy = Z3_mk_string_symbol(c, s.as_ptr());
                    let so = kp(self.c, Z3_mk_bv_sort(c, n.w));
                    kp(self.c, Z3_mk_const(c, sy, so))
                }
                Op::Concat => {
                    let a = self.tv(cx, n.a);
                    let b = self.tv(cx, n.b);
                    kp(self.c, Z3_mk_concat(c, a, b))
                }
                Op::Extract => {
                    let a = self.tv(cx, n.a);
                    kp(self.c, Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, a))
                }
                Op::ZExt => {
                    let wa = cx.w(n.a);
                    let a = self.tv(cx, n.a);
                    kp(self.c, Z3_mk_zero_ext(c, n.w - wa, a))
                }
                Op::SExt => {
                    let wa = cx.w(n.a);
                    let a = self.tv(cx, n.a);
                    kp(self.c, Z3_mk_sign_ext(c, n.w - wa, a))
                }
                Op::Ite if n.w > 1 => {
                    let a = self.tb(cx, n.a);
                    let x = self.tv(cx, n.b);
                    let y = self.tv(cx, n.c);
                    kp(self.c, Z3_mk_ite(c, a, x, y))
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let so = self.fsort(n.w);
                    let a = self.tv(cx, n.a);
                    let b = self.tv(cx, n.b);
                    let a = kp(self.c, Z3_mk_fpa_to_fp_bv(c, a, so));
                    let b = kp(self.c, Z3_mk_fpa_to_fp_bv(c, b, so));
                    let rm = kp(self.c, Z3_mk_fpa_rne(c));
                    let r = match n.op {
                        Op::FAdd => kp(self.c, Z3_mk_fpa_add(c, rm, a, b)),
                        Op::FSub => kp(self.c, Z3_mk_fpa_sub(c, rm, a, b)),
                        Op::FMul => kp(self.c, Z3_mk_fpa_mul(c, rm, a, b)),
                        _ => kp(self.c, Z3_mk_fpa_div(c, rm, a, b)),
                    };
                    kp(self.c, Z3_mk_fpa_to_ieee_bv(c, r))
                }
                Op::UToF | Op::SToF => {
                    let so = self.fsort(n.w);
                    let a = self.tv(cx, n.a);
                    let rm = kp(self.c, Z3_mk_fpa_rne(c));
                    let r = if n.op == Op::UToF {
                        kp(self.c, Z3_mk_fpa_to_fp_unsigned(c, rm, a, so))
                    } else {
                        kp(self.c, Z3_mk_fpa_to_fp_signed(c, rm, a, so))
                    };
                    kp(self.c, Z3_mk_fpa_to_ieee_bv(c, r))
                }
                Op::FToU | Op::FToS => {
                    let so = self.fsort(cx.w(n.a));
                    let a = self.tv(cx, n.a);
                    let a = kp(self.c, Z3_mk_fpa_to_fp_bv(c, a, so));
                    let rm = kp(self.c, Z3_mk_fpa_rtz(c));
                    if n.op == Op::FToU {
                        kp(self.c, Z3_mk_fpa_to_ubv(c, rm, a, n.w))
                    } else {
                        kp(self.c, Z3_mk_fpa_to_sbv(c, rm, a, n.w))
                    }
                }
                Op::FToF => {
                    let si = self.fsort(cx.w(n.a));
                    let so = self.fsort(n.w);
                    let a = self.tv(cx, n.a);
                    let a = kp(self.c, Z3_mk_fpa_to_fp_bv(c, a, si));
                    let r = kp(self.c, Z3_mk_fpa_to_fp_float(c, kp(self.c, Z3_mk_fpa_rne(c)), a, so));
                    kp(self.c, Z3_mk_fpa_to_ieee_bv(c, r))
                }
                op if n.w == 1
                    && matches!(
                        op,
                        Op::Eq
                            | Op::Ult
                            | Op::Ule
                            | Op::Slt
                            | Op::Sle
                            | Op::And
                            | Op::Or
                            | Op::Xor
                            | Op::Ite
                            | Op::FEq
                            | Op::FLt
                            | Op::FLe
                            | Op::FIsNan
                    ) =>
                {
                    let b = self.tb(cx, e);
                    let one = self.num(1, 1);
                    let zero = self.num(1, 0);
                    kp(self.c, Z3_mk_ite(c, b, one, zero))
                }
                op => {
                    let a = self.tv(cx, n.a);
                    let b = self.tv(cx, n.b);
                    match op {
                        Op::Add => kp(self.c, Z3_mk_bvadd(c, a, b)),
                        Op::Sub => kp(self.c, Z3_mk_bvsub(c, a, b)),
                        Op::Mul => kp(self.c, Z3_mk_bvmul(c, a, b)),
                        Op::UDiv => kp(self.c, Z3_mk_bvudiv(c, a, b)),
                        Op::SDiv => kp(self.c, Z3_mk_bvsdiv(c, a, b)),
                        Op::URem => kp(self.c, Z3_mk_bvurem(c, a, b)),
                        Op::SRem => kp(self.c, Z3_mk_bvsrem(c, a, b)),
                        Op::And => kp(self.c, Z3_mk_bvand(c, a, b)),
                        Op::Or => kp(self.c, Z3_mk_bvor(c, a, b)),
                        Op::Xor => kp(self.c, Z3_mk_bvxor(c, a, b)),
                        Op::Shl => kp(self.c, Z3_mk_bvshl(c, a, b)),
                        Op::LShr => kp(self.c, Z3_mk_bvlshr(c, a, b)),
                        Op::AShr => kp(self.c, Z3_mk_bvashr(c, a, b)),
                        o => panic!("z3: {o:?}"),
                    }
                }
            }
        };
        self.keep(r);
        if self.bv.len() <= e as usize {
            self.bv.resize(cx.nodes.len().max(e as usize + 1), std::ptr::null_mut());
        }
        self.bv[e as usize] = r;
        r
    }

    /// Is `pc ∧ extra` satisfiable?
    pub fn check(&mut self, cx: &Ctx, pc: &[E], extra: &[E]) -> Res {
        let t = Instant::now();
        let mut common = 0;
        while common < pc.len() && common < self.stack.len() && pc[common] == self.stack[common] {
            common += 1;
        }
        unsafe {
            if self.stack.len() > common {
                Z3_solver_pop(self.c, self.s, (self.stack.len() - common) as c_uint);
                self.stack.truncate(common);
            }
            for &e in &pc[common..] {
                let a = self.tb(cx, e);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, a);
                self.stack.push(e);
            }
            if !extra.is_empty() {
                Z3_solver_push(self.c, self.s);
                for &e in extra {
                    let a = self.tb(cx, e);
                    Z3_solver_assert(self.c, self.s, a);
                }
            }
            let r = Z3_solver_check(self.c, self.s);
            self.queries += 1;
            let out = match r {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let vals = self.values(cx, m, pc, extra);
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(vals)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    if std::env::var("SYMX_DUMP_UNKNOWN").is_ok() {
                        let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s));
                        eprintln!("unknown:\n{}", s.to_string_lossy());
                    }
                    Res::Unknown
                }
            };
            if !extra.is_empty() {
                Z3_solver_pop(self.c, self.s, 1);
            }
            let d = t.elapsed().as_secs_f64();
            self.time += d;
            if d > self.slowest {
                self.slowest = d;
            }
            out
        }
    }

    fn values(&mut self, cx: &Ctx, m: P, _pc: &[E], _x: &[E]) -> Vec<u128> {
        let mut vals = vec![0u128; cx.vars.len()];
        for (i, (_, w)) in cx.vars.iter().enumerate() {
            unsafe {
                let s = CString::new(format!("v{i}")).unwrap();
                let sy = Z3_mk_string_symbol(self.c, s.as_ptr());
                let so = Z3_mk_bv_sort(self.c, *w);
                let k = Z3_mk_const(self.c, sy, so);
                Z3_inc_ref(self.c, k);
                let mut v: P = std::ptr::null_mut();
                if Z3_model_eval(self.c, m, k, true, &mut v) && !v.is_null() {
                    let st = CStr::from_ptr(Z3_get_numeral_string(self.c, v));
                    vals[i] = st.to_str().unwrap().parse::<u128>().unwrap_or(0) & mask(*w);
                }
            }
        }
        vals
    }
}
