//! The symbolic interpreter.
use crate::expr::{mask, sext, Ctx, Op, E, S};
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Solver};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

pub struct Model {
    pub vals: Vec<u128>,
    pub memo: RefCell<HashMap<E, u128>>,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub bb: usize,
    pub ip: usize,
    pub regs: Vec<V>,
    pub stack: u64,
    pub dyns: Vec<u64>,
    pub dst: u32,
    pub normal: Option<usize>,
}

#[derive(Clone, Debug)]
pub enum Log {
    Assert(Rc<str>),
    Cover(Rc<str>),
    Obs(Rc<str>, S),
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub known: Rc<HashMap<E, u128>>,
    pub model: Rc<Model>,
    pub draws: Vec<(S, u32)>,
    pub log: Vec<Log>,
    pub clock: S,
    pub steps: u64,
    pub forced: Option<S>,
    pub forks: u32,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String, // assert | panic | abort | hang | memory
    pub what: String,
    pub draws: Vec<u128>,
    pub stack: Vec<String>,
    pub log: Vec<String>,
}

pub struct Witness {
    pub draws: Vec<u128>,
    pub log: Vec<String>,
}

#[derive(Default)]
pub struct Results {
    pub paths: u64,
    pub assumed_away: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub asserts_solver: u64,
    pub covers: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub witnesses: Vec<Witness>,
    pub errors: BTreeSet<String>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub solver_time: f64,
    pub slowest: f64,
    pub max_draws: usize,
    pub lines: BTreeSet<String>,
    pub funcs: BTreeSet<String>,
    pub fork_at: BTreeMap<String, u64>,
}

pub enum End {
    Done,
    Assume,
    Bad(String, String), // kind, what
    Error(String),       // engine limitation
    Again,               // re-execute
}

type R<T> = Result<T, End>;

pub struct Opts {
    pub max_steps: u64,
    pub witnesses: usize,
    pub clock_fns: Vec<String>,
    pub hash: u128,
    pub stop_on_violation: bool,
    pub trace: bool,
}

pub struct Eng<'a> {
    pub m: &'a Module,
    pub cx: Ctx,
    pub z: Solver,
    pub pending: Vec<State>,
    pub ginit: HashMap<usize, Rc<Obj>>,
    pub res: Results,
    pub o: Opts,
    pub sites: HashMap<(usize, usize, usize), u64>,
    pub cur_site: (usize, usize, usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u16)]
enum B {
    None = 1,
    SymU8,
    SymU16,
    SymU32,
    SymU64,
    SymRange,
    SymChoice,
    SymConcrete,
    SymAssume,
    SymAssert,
    SymCover,
    SymObserve,
    ClockSet,
    ClockGet,
    ClockMillis,
    ClockGettime,
    HashOne,
    PanicFmt,
    PanicOther,
    Abort,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    RustAlloc,
    RustAllocZeroed,
    RustDealloc,
    RustRealloc,
    Nop,
    Memcpy,
    Memmove,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Getrandom,
    ThreadlocalAddress,
    Assume,
    Umax,
    Umin,
    Smax,
    Smin,
    Abs,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    UaddSat,
    UsubSat,
    SaddSat,
    SsubSat,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    Ucmp,
    Scmp,
    Expect,
    IsConstant,
    Trap,
    FptouiSat,
    FptosiSat,
    Fabs,
    Fminmax,
    Round,
    Powi,
    PrintSink,
    RetZero,
    ErrnoLoc,
    Pow,
    VecReduce,
    SymDump,
}

fn classify(name: &str, ext: bool, clock_fns: &[String]) -> B {
    if let Some(r) = name.strip_prefix("llvm.") {
        let st = |p: &str| r.starts_with(p);
        return if st("memcpy.") || st("memcpy.inline") {
            B::Memcpy
        } else if st("memmove.") {
            B::Memmove
        } else if st("memset.") {
            B::Memset
        } else if st("lifetime")
            || st("experimental.noalias")
            || st("dbg.")
            || st("prefetch")
            || st("x86.sse2.pause")
            || st("invariant")
            || st("va_")
            || st("donothing")
            || st("pseudoprobe")
        {
            B::Nop
        } else if st("assume") {
            B::Assume
        } else if st("threadlocal.address") {
            B::ThreadlocalAddress
        } else if st("umax") {
            B::Umax
        } else if st("umin") {
            B::Umin
        } else if st("smax") {
            B::Smax
        } else if st("smin") {
            B::Smin
        } else if st("abs.") {
            B::Abs
        } else if st("ctlz") {
            B::Ctlz
        } else if st("cttz") {
            B::Cttz
        } else if st("ctpop") {
            B::Ctpop
        } else if st("bswap") {
            B::Bswap
        } else if st("bitreverse") {
            B::Bitreverse
        } else if st("fshl") {
            B::Fshl
        } else if st("fshr") {
            B::Fshr
        } else if st("uadd.sat") {
            B::UaddSat
        } else if st("usub.sat") {
            B::UsubSat
        } else if st("sadd.sat") {
            B::SaddSat
        } else if st("ssub.sat") {
            B::SsubSat
        } else if st("uadd.with") {
            B::UaddO
        } else if st("usub.with") {
            B::UsubO
        } else if st("umul.with") {
            B::UmulO
        } else if st("sadd.with") {
            B::SaddO
        } else if st("ssub.with") {
            B::SsubO
        } else if st("smul.with") {
            B::SmulO
        } else if st("ucmp") {
            B::Ucmp
        } else if st("scmp") {
            B::Scmp
        } else if st("expect") {
            B::Expect
        } else if st("is.constant") {
            B::IsConstant
        } else if st("trap") || st("ubsantrap") {
            B::Trap
        } else if st("fptoui.sat") {
            B::FptouiSat
        } else if st("fptosi.sat") {
            B::FptosiSat
        } else if st("fabs") {
            B::Fabs
        } else if st("minnum") || st("maxnum") || st("minimum") || st("maximum") {
            B::Fminmax
        } else if st("floor") || st("ceil") || st("trunc") || st("round") || st("rint") || st("nearbyint") {
            B::Round
        } else if st("powi") {
            B::Powi
        } else if st("pow") {
            B::Pow
        } else if st("vector.reduce") {
            B::VecReduce
        } else {
            B::None
        };
    }
    if ext {
        return match name {
            "sym_u8" => B::SymU8,
            "sym_u16" => B::SymU16,
            "sym_u32" => B::SymU32,
            "sym_u64" => B::SymU64,
            "sym_range" => B::SymRange,
            "sym_choice" => B::SymChoice,
            "sym_concrete" => B::SymConcrete,
            "sym_assume" => B::SymAssume,
            "sym_assert" => B::SymAssert,
            "sym_cover" => B::SymCover,
            "sym_observe" => B::SymObserve,
            "sym_dump" => B::SymDump,
            "vclock_set" => B::ClockSet,
            "vclock_get" => B::ClockGet,
            "clock_gettime" => B::ClockGettime,
            "malloc" => B::Malloc,
            "calloc" => B::Calloc,
            "realloc" => B::Realloc,
            "free" => B::Free,
            "posix_memalign" => B::PosixMemalign,
            "memcmp" => B::Memcmp,
            "bcmp" => B::Bcmp,
            "strlen" => B::Strlen,
            "memcpy" => B::Memcpy,
            "memmove" => B::Memmove,
            "memset" => B::Memset,
            "getrandom" => B::Getrandom,
            "abort" => B::Abort,
            "write" | "writev" => B::PrintSink,
            "__errno_location" => B::ErrnoLoc,
            "__cxa_thread_atexit_impl" => B::RetZero,
            "pow" => B::Pow,
            _ => B::None,
        };
    }
    if clock_fns.iter().any(|c| name.ends_with(c.as_str())) {
        return B::ClockMillis;
    }
    if name.contains("11BuildHasher8hash_one") && name.contains("RandomState") {
        return B::HashOne;
    }
    if name.ends_with("4core9panicking9panic_fmt") {
        return B::PanicFmt;
    }
    if name.contains("9panicking18panic_nounwind") || name.ends_with("18handle_alloc_error") || name.ends_with("17rust_begin_unwind") {
        return B::PanicOther;
    }
    if name.ends_with("_7___rustc12___rust_alloc") {
        return B::RustAlloc;
    }
    if name.ends_with("_7___rustc19___rust_alloc_zeroed") {
        return B::RustAllocZeroed;
    }
    if name.ends_with("_7___rustc14___rust_dealloc") {
        return B::RustDealloc;
    }
    if name.ends_with("_7___rustc14___rust_realloc") {
        return B::RustRealloc;
    }
    B::None
}

fn zero_of(t: &Ty) -> V {
    match t {
        Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(zero_of).collect())),
        Ty::Arr(n, e) => V::A(Rc::new((0..*n).map(|_| zero_of(e)).collect())),
        Ty::Vec(n, e) => V::A(Rc::new((0..*n).map(|_| zero_of(e)).collect())),
        _ => V::c(0),
    }
}

impl<'a> Eng<'a> {
    pub fn start(&mut self, entry: usize) -> State {
        let f = self.m.func(entry);
        let mut mem = Mem::new(self.m.first_heap());
        let stack = mem.alloc_frame(f.frame);
        let fr = Frame {
            regs: vec![V::c(0); f.nregs as usize],
            f,
            bb: 0,
            ip: 0,
            stack,
            dyns: vec![],
            dst: u32::MAX,
            normal: None,
        };
        State {
            frames: vec![Rc::new(fr)],
            mem,
            pc: vec![],
            known: Rc::new(HashMap::new()),
            model: Rc::new(Model { vals: vec![], memo: RefCell::new(HashMap::new()) }),
            draws: vec![],
            log: vec![],
            clock: S::C(1_000_000),
            steps: 0,
            forced: None,
            forks: 0,
        }
    }

    // ---- constraint handling ------------------------------------------------

    fn eval(&self, st: &State, e: E) -> u128 {
        self.cx.eval(e, &st.model.vals, &mut st.model.memo.borrow_mut())
    }
    fn evals(&self, st: &State, s: S) -> u128 {
        match s {
            S::C(k) => k,
            S::X(e) => self.eval(st, e),
        }
    }
    fn peval(&self, st: &State, s: S) -> S {
        match s {
            S::C(_) => s,
            S::X(e) => {
                if st.known.is_empty() {
                    return s;
                }
                let mut memo = HashMap::new();
                match self.cx.peval(e, &st.known, &mut memo) {
                    Some(k) => S::C(k),
                    None => s,
                }
            }
        }
    }
    fn learn(&mut self, st: &mut State, e: E, v: u128) {
        let k = Rc::make_mut(&mut st.known);
        if k.insert(e, v).is_some() {
            return;
        }
        let n = self.cx.nodes[e as usize];
        if n.w == 1 {
            match (n.op, v) {
                (Op::Xor, _) if self.cx.nodes[n.b as usize].op == Op::Const => {
                    let kb = self.cx.nodes[n.b as usize].k;
                    self.learn(st, n.a, v ^ kb);
                }
                (Op::And, 1) => {
                    self.learn(st, n.a, 1);
                    self.learn(st, n.b, 1);
                }
                (Op::Or, 0) => {
                    self.learn(st, n.a, 0);
                    self.learn(st, n.b, 0);
                }
                (Op::Eq, 1) => {
                    let (na, nb) = (self.cx.nodes[n.a as usize], self.cx.nodes[n.b as usize]);
                    if nb.op == Op::Const {
                        self.learn(st, n.a, nb.k);
                    } else if na.op == Op::Const {
                        self.learn(st, n.b, na.k);
                    }
                }
                (Op::Ult | Op::Ule | Op::Slt | Op::Sle, v) => {
                    // also the mirrored form
                    if let S::X(neg) = self.cx.not1(S::X(e)) {
                        Rc::make_mut(&mut st.known).insert(neg, v ^ 1);
                    }
                }
                _ => {}
            }
        } else {
            match n.op {
                Op::ZExt => self.learn(st, n.a, v),
                Op::Concat => {
                    let wb = self.cx.w(n.b);
                    self.learn(st, n.a, v >> wb);
                    self.learn(st, n.b, v & mask(wb));
                }
                _ => {}
            }
        }
    }

    fn query(&mut self, st: &State, e: S) -> R<Option<Vec<u128>>> {
        match e {
            S::C(1) => return Ok(Some(st.model.vals.clone())),
            S::C(_) => return Ok(None),
            _ => {}
        }
        let e = match e {
            S::X(e) => e,
            _ => unreachable!(),
        };
        match self.z.check(&self.cx, &st.pc, &[e]) {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown => Err(End::Error("solver gave up (unknown)".into())),
        }
    }

    /// Make condition `c`, true in the current model, part of the path; the other side, if
    /// feasible, becomes a pending state that executes the current instruction again.
    fn commit(&mut self, st: &mut State, c: S) -> R<()> {
        let e = match c {
            S::C(_) => return Ok(()),
            S::X(e) => e,
        };
        let nc = self.cx.not1(c);
        match self.query(st, nc)? {
            None => self.learn(st, e, 1),
            Some(vals) => {
                let mut o = st.clone();
                o.forks += 1;
                if let S::X(ne) = nc {
                    o.pc.push(ne);
                    self.learn(&mut o, ne, 1);
                    self.learn(&mut o, e, 0);
                }
                o.model = Rc::new(Model { vals, memo: RefCell::new(HashMap::new()) });
                self.pending.push(o);
                self.res.forks += 1;
                *self.sites.entry(self.cur_site).or_insert(0) += 1;
                st.pc.push(e);
                st.forks += 1;
                self.learn(st, e, 1);
                if let S::X(ne) = nc {
                    self.learn(st, ne, 0);
                }
            }
        }
        Ok(())
    }

    /// Decide a branch condition.
    fn branch(&mut self, st: &mut State, c: S) -> R<bool> {
        let c = self.peval(st, c);
        match c {
            S::C(k) => Ok(k & 1 == 1),
            S::X(e) => {
                let v = self.eval(st, e) & 1 == 1;
                let t = if v { c } else { self.cx.not1(c) };
                self.commit(st, t)?;
                Ok(v)
            }
        }
    }

    fn concretize(&mut self, st: &mut State, w: u32, s: S) -> R<u128> {
        let s = self.peval(st, s);
        match s {
            S::C(k) => Ok(k),
            S::X(e) => {
                let v = self.eval(st, e);
                let c = self.cx.bin(Op::Eq, w, s, S::C(v));
                self.commit(st, c)?;
                self.learn(st, e, v);
                Ok(v)
            }
        }
    }

    // ---- memory -------------------------------------------------------------

    fn obj(&mut self, st: &State, id: u64) -> R<Rc<Obj>> {
        match st.mem.slot(id) {
            Slot::Live(o) => Ok(o.clone()),
            Slot::Freed => Err(self.memerr(MemErr::Freed(id))),
            Slot::None => {
                let nf = self.m.funcs.len() as u64;
                if id > nf && id < self.m.first_heap() {
                    let g = (id - nf - 1) as usize;
                    if let Some(o) = self.ginit.get(&g) {
                        return Ok(o.clone());
                    }
                    let data = self.m.global_bytes(g);
                    let o = Rc::new(Obj {
                        size: data.len() as u64,
                        data,
                        sym: None,
                        ro: self.m.globals[g].constant,
                    });
                    self.ginit.insert(g, o.clone());
                    return Ok(o);
                }
                Err(self.memerr(MemErr::Null(id)))
            }
        }
    }
    fn memerr(&self, e: MemErr) -> End {
        End::Bad("memory".into(), format!("invalid memory access: {e:?}"))
    }
    fn locate(&mut self, st: &State, addr: u128, n: u64) -> R<(u64, u64)> {
        let id = (addr >> OBJ_SHIFT) as u64;
        let off = (addr & 0xffff_ffff) as u64;
        let o = match st.mem.slot(id) {
            Slot::Live(o) => o.size,
            _ => self.obj(st, id)?.size,
        };
        if off + n > o {
            return Err(self.memerr(MemErr::Bounds { id, off, n, size: o }));
        }
        Ok((id, off))
    }
    fn load_n(&mut self, st: &State, addr: u128, n: u64) -> R<S> {
        let (id, off) = self.locate(st, addr, n)?;
        if let Slot::Live(o) = st.mem.slot(id) {
            return Ok(o.load(&mut self.cx, off, n));
        }
        let o = self.obj(st, id)?;
        Ok(o.load(&mut self.cx, off, n))
    }
    fn obj_mut<'b>(&mut self, st: &'b mut State, id: u64) -> R<&'b mut Obj> {
        if let Slot::None = st.mem.slot(id) {
            let o = self.obj(st, id)?;
            *st.mem.slot_mut(id) = Slot::Live(o);
        }
        match st.mem.slot_mut(id) {
            Slot::Live(o) => {
                if o.ro {
                    return Err(End::Bad("memory".into(), "write to constant".into()));
                }
                Ok(Rc::make_mut(o))
            }
            _ => Err(End::Bad("memory".into(), "write to freed object".into())),
        }
    }
    fn store_n(&mut self, st: &mut State, addr: u128, n: u64, v: S) -> R<()> {
        let (id, off) = self.locate(st, addr, n)?;
        if let Slot::None = st.mem.slot(id) {
            self.obj_mut(st, id)?;
        }
        match st.mem.slot_mut(id) {
            Slot::Live(o) if !o.ro => {
                Rc::make_mut(o).store(&mut self.cx, off, n, v);
                Ok(())
            }
            _ => Err(End::Bad("memory".into(), "write to constant or freed object".into())),
        }
    }
    fn load_ty(&mut self, st: &State, t: &Ty, addr: u128) -> R<V> {
        Ok(match t {
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, ft) = t.field(i);
                    v.push(self.load_ty(st, &ft, addr + o as u128)?);
                }
                V::A(Rc::new(v))
            }
            Ty::Arr(n, e) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(st, e, addr + (i * e.size()) as u128)?);
                }
                V::A(Rc::new(v))
            }
            Ty::Vec(n, e) if e.bits() % 8 != 0 => {
                let w = e.bits();
                let bytes = (w as u64 * *n as u64).div_ceil(8);
                let s = self.load_n(st, addr, bytes)?;
                V::A(Rc::new((0..*n as u32).map(|i| V::S(self.cx.extract(s, 8 * bytes as u32, i * w, w))).collect()))
            }
            Ty::Vec(n, e) => {
                let b = e.bits() as u64 / 8;
                let mut v = vec![];
                for i in 0..*n as u64 {
                    v.push(V::S(self.load_n(st, addr + (i * b) as u128, b)?));
                }
                V::A(Rc::new(v))
            }
            _ => {
                let w = t.bits();
                let n = t.store_size();
                let s = self.load_n(st, addr, n)?;
                if w as u64 != 8 * n {
                    V::S(self.cx.extract(s, 8 * n as u32, 0, w))
                } else {
                    V::S(s)
                }
            }
        })
    }
    fn store_ty(&mut self, st: &mut State, t: &Ty, addr: u128, v: &V) -> R<()> {
        match (t, v) {
            (Ty::Struct(..), V::A(vs)) | (Ty::Arr(..), V::A(vs)) => {
                for i in 0..vs.len() {
                    let (o, ft) = t.field(i);
                    self.store_ty(st, &ft, addr + o as u128, &vs[i])?;
                }
                Ok(())
            }
            (Ty::Vec(_, e), V::A(vs)) if e.bits() % 8 != 0 => {
                let w = e.bits();
                let mut pieces = vec![];
                for v in vs.iter() {
                    let V::S(s) = v else { panic!() };
                    pieces.push((w, *s));
                }
                let t = w * vs.len() as u32;
                let bytes = (t as u64).div_ceil(8);
                let s = self.cx.concat_pieces(&pieces);
                let s = self.cx.zext(s, t, 8 * bytes as u32);
                self.store_n(st, addr, bytes, s)
            }
            (Ty::Vec(_, e), V::A(vs)) => {
                let b = e.bits() as u64 / 8;
                for i in 0..vs.len() {
                    if let V::S(s) = vs[i] {
                        self.store_n(st, addr + i as u128 * b as u128, b, s)?;
                    }
                }
                Ok(())
            }
            (_, V::S(s)) => {
                let w = t.bits();
                let n = t.store_size();
                let s = self.cx.zext(*s, w, 8 * n as u32);
                self.store_n(st, addr, n, s)
            }
            _ => panic!("store"),
        }
    }
    fn copy(&mut self, st: &mut State, dst: u128, src: u128, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (sid, soff) = self.locate(st, src, n)?;
        let (did, doff) = self.locate(st, dst, n)?;
        let so = self.obj(st, sid)?;
        let (a, b) = (soff as usize, (soff + n) as usize);
        let data = so.data[a..b].to_vec();
        let sym: Option<Vec<(E, u8)>> = match &so.sym {
            Some(s) if !so.concrete(soff, n) => Some(s[a..b].to_vec()),
            _ => None,
        };
        drop(so);
        let d = self.obj_mut(st, did)?;
        let da = doff as usize;
        d.data[da..da + n as usize].copy_from_slice(&data);
        match sym {
            Some(s) => {
                let size = d.size as usize;
                let t = d.sym.get_or_insert_with(|| vec![(0, 0); size]);
                t[da..da + n as usize].copy_from_slice(&s);
            }
            None => {
                if let Some(t) = &mut d.sym {
                    for x in &mut t[da..da + n as usize] {
                        *x = (0, 0);
                    }
                }
            }
        }
        Ok(())
    }

    fn alloc(&mut self, st: &mut State, n: u64) -> R<u128> {
        if n > 1 << 26 {
            return Err(End::Error(format!("allocation of {n} bytes")));
        }
        let id = st.mem.alloc(Obj::zeroed(n));
        st.mem.live_heap += 1;
        Ok((id as u128) << OBJ_SHIFT)
    }
    fn free(&mut self, st: &mut State, p: u128) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        let id = (p >> OBJ_SHIFT) as u64;
        match st.mem.slot(id) {
            Slot::Live(_) if p & 0xffff_ffff == 0 => {
                *st.mem.slot_mut(id) = Slot::Freed;
                st.mem.live_heap -= 1;
                Ok(())
            }
            _ => Err(End::Bad("memory".into(), "invalid or double free".into())),
        }
    }
    fn bytes(&mut self, st: &State, p: u128, n: u64) -> R<Vec<u8>> {
        let (id, off) = self.locate(st, p, n)?;
        let o = self.obj(st, id)?;
        Ok(o.data[off as usize..(off + n) as usize].to_vec())
    }
    fn str_at(&mut self, st: &State, p: u128, n: u64) -> R<Rc<str>> {
        let b = self.bytes(st, p, n)?;
        Ok(String::from_utf8_lossy(&b).into_owned().into())
    }

    // ---- running ------------------------------------------------------------

    /// Run one state until its path ends or `budget` instructions; forks go to `pending`.
    /// Returns the state if the budget ran out.
    pub fn run(&mut self, mut st: State, budget: u64) -> Option<State> {
        let stop = st.steps.saturating_add(budget);
        loop {
            if st.steps >= stop {
                return Some(st);
            }
            if st.steps > self.o.max_steps {
                self.finish(st, End::Bad("hang".into(), "instruction budget of a path exceeded".into()));
                return None;
            }
            match self.step(&mut st) {
                Ok(()) => {}
                Err(End::Again) => {}
                Err(end) => {
                    self.finish(st, end);
                    return None;
                }
            }
        }
    }

    fn render(&self, st: &State, l: &Log) -> String {
        match l {
            Log::Assert(a) => format!("A {a}"),
            Log::Cover(a) => format!("C {a}"),
            Log::Obs(a, s) => format!("O {a} {}", self.evals(st, *s)),
        }
    }

    fn stack_of(&self, st: &State) -> Vec<String> {
        st.frames
            .iter()
            .rev()
            .map(|f| {
                let b = &f.f.blocks[f.bb];
                let ip = f.ip.min(b.ins.len().saturating_sub(1));
                let d = b.ins.get(ip).map(|i| i.dbg).unwrap_or(0);
                format!("{} ({})", f.f.name, crate::dbg::loc(self.m, d))
            })
            .collect()
    }

    fn finish(&mut self, st: State, end: End) {
        if st.draws.len() > self.res.max_draws {
            self.res.max_draws = st.draws.len();
        }
        match end {
            End::Done => {
                self.res.paths += 1;
                for l in &st.log {
                    if let Log::Cover(c) = l {
                        *self.res.covers.entry(c.to_string()).or_insert(0) += 1;
                    }
                }
                // keep an evenly thinned sample of paths as witnesses for native replay
                let k = self.o.witnesses;
                let keep = k > 0 && (self.res.witnesses.len() < k || self.res.paths.is_power_of_two());
                if keep {
                    let w = Witness {
                        draws: st.draws.iter().map(|d| self.evals(&st, d.0)).collect(),
                        log: st.log.iter().map(|l| self.render(&st, l)).collect(),
                    };
                    self.res.witnesses.push(w);
                }
            }
            End::Assume => self.res.assumed_away += 1,
            End::Bad(kind, what) => {
                self.res.paths += 1;
                let v = Violation {
                    kind,
                    what,
                    draws: st.draws.iter().map(|d| self.evals(&st, d.0)).collect(),
                    stack: self.stack_of(&st),
                    log: st.log.iter().map(|l| self.render(&st, l)).collect(),
                };
                self.res.violations.push(v);
            }
            End::Error(e) => {
                let s = self.stack_of(&st);
                self.res.errors.insert(format!("{e} in {}", s.iter().take(4).cloned().collect::<Vec<_>>().join(" < ")));
            }
            End::Again => unreachable!(),
        }
    }

    fn opd(&self, fr: &Frame, o: &Opd) -> V {
        match o {
            Opd::Reg(r) => fr.regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }
    fn sc(&self, fr: &Frame, o: &Opd) -> S {
        match o {
            Opd::Reg(r) => match &fr.regs[*r as usize] {
                V::S(s) => *s,
                V::A(_) => panic!("scalar expected"),
            },
            Opd::K(V::S(s)) => *s,
            _ => panic!("scalar expected"),
        }
    }

    fn jump(&mut self, st: &mut State, to: usize) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.bb;
        let f = fr.f.clone();
        let b = &f.blocks[to];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                let o = &p.from.iter().find(|x| x.0 == from).unwrap_or_else(|| panic!("phi in {} from {}", f.name, f.blocks[from].name)).1;
                vals.push(self.opd(fr, o));
            }
            for (p, v) in b.phis.iter().zip(vals) {
                fr.regs[p.dst as usize] = v;
            }
        }
        fr.bb = to;
        fr.ip = 0;
    }

    fn set(&self, st: &mut State, dst: u32, v: V) {
        if self.o.trace {
            let f = st.frames.last().unwrap();
            eprintln!("{} {}#{} r{} = {:?}", f.f.name, f.f.blocks[f.bb].name, f.ip, dst as i32, v);
        }
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if dst != u32::MAX {
            fr.regs[dst as usize] = v;
        }
        fr.ip += 1;
    }

    fn map1(&mut self, t: &Ty, x: &V, g: &mut dyn FnMut(&mut Ctx, u32, S) -> S) -> V {
        match (t, x) {
            (Ty::Vec(_, e), V::A(v)) => {
                let w = e.bits();
                V::A(Rc::new(
                    v.iter()
                        .map(|l| match l {
                            V::S(s) => V::S(g(&mut self.cx, w, *s)),
                            _ => panic!(),
                        })
                        .collect(),
                ))
            }
            (_, V::S(s)) => V::S(g(&mut self.cx, t.bits(), *s)),
            _ => panic!("map1 {t:?}"),
        }
    }
    fn map2(&mut self, t: &Ty, x: &V, y: &V, g: &mut dyn FnMut(&mut Ctx, u32, S, S) -> S) -> V {
        match (t, x, y) {
            (Ty::Vec(_, e), V::A(a), V::A(b)) => {
                let w = e.bits();
                V::A(Rc::new(
                    a.iter()
                        .zip(b.iter())
                        .map(|(l, r)| match (l, r) {
                            (V::S(l), V::S(r)) => V::S(g(&mut self.cx, w, *l, *r)),
                            _ => panic!(),
                        })
                        .collect(),
                ))
            }
            (_, V::S(a), V::S(b)) => V::S(g(&mut self.cx, t.bits(), *a, *b)),
            _ => panic!("map2 {t:?}"),
        }
    }

    fn ite_v(&mut self, c: S, t: &Ty, x: &V, y: &V) -> V {
        match (t, x, y) {
            (Ty::Vec(_, e), V::A(a), V::A(b)) | (Ty::Arr(_, e), V::A(a), V::A(b)) => V::A(Rc::new(
                a.iter().zip(b.iter()).map(|(l, r)| self.ite_v(c, e, l, r)).collect(),
            )),
            (Ty::Struct(f, _), V::A(a), V::A(b)) => V::A(Rc::new(
                a.iter().zip(b.iter()).enumerate().map(|(i, (l, r))| self.ite_v(c, &f[i], l, r)).collect(),
            )),
            (_, V::S(a), V::S(b)) => V::S(self.cx.ite(c, t.bits(), *a, *b)),
            _ => panic!(),
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        self.res.steps += 1;
        let fr: *const Frame = &**st.frames.last().unwrap();
        // The frame is only replaced through `set`/`jump`/call/return below, after its last use here.
        let fr: &Frame = unsafe { &*fr };
        let func = fr.f.clone();
        let ins = &func.blocks[fr.bb].ins[fr.ip];
        if !ins.seen.get() {
            ins.seen.set(true);
        }
        self.cur_site = (func.idx, fr.bb, fr.ip);
        let dst = ins.dst;
        match &ins.i {
            I::Bin(op, t, x, y) => {
                let (x, y) = (self.opd(fr, x), self.opd(fr, y));
                let o = match op {
                    Bin::Add => Op::Add,
                    Bin::Sub => Op::Sub,
                    Bin::Mul => Op::Mul,
                    Bin::UDiv => Op::UDiv,
                    Bin::SDiv => Op::SDiv,
                    Bin::URem => Op::URem,
                    Bin::SRem => Op::SRem,
                    Bin::And => Op::And,
                    Bin::Or => Op::Or,
                    Bin::Xor => Op::Xor,
                    Bin::Shl => Op::Shl,
                    Bin::LShr => Op::LShr,
                    Bin::AShr => Op::AShr,
                    Bin::FAdd => Op::FAdd,
                    Bin::FSub => Op::FSub,
                    Bin::FMul => Op::FMul,
                    Bin::FDiv => Op::FDiv,
                    Bin::FRem => return Err(End::Error("frem".into())),
                };
                let v = self.map2(t, &x, &y, &mut |cx, w, a, b| cx.bin(o, w, a, b));
                self.set(st, dst, v);
            }
            I::FNeg(t, x) => {
                let x = self.opd(fr, x);
                let v = self.map1(t, &x, &mut |cx, w, a| cx.bin(Op::Xor, w, a, S::C(1u128 << (w - 1))));
                self.set(st, dst, v);
            }
            I::ICmp(p, t, x, y) => {
                let (x, y) = (self.opd(fr, x), self.opd(fr, y));
                let p = *p;
                let v = self.map2(t, &x, &y, &mut |cx, w, a, b| match p {
                    Pred::Eq => cx.bin(Op::Eq, w, a, b),
                    Pred::Ne => {
                        let e = cx.bin(Op::Eq, w, a, b);
                        cx.not1(e)
                    }
                    Pred::Ult => cx.bin(Op::Ult, w, a, b),
                    Pred::Ule => cx.bin(Op::Ule, w, a, b),
                    Pred::Ugt => cx.bin(Op::Ult, w, b, a),
                    Pred::Uge => cx.bin(Op::Ule, w, b, a),
                    Pred::Slt => cx.bin(Op::Slt, w, a, b),
                    Pred::Sle => cx.bin(Op::Sle, w, a, b),
                    Pred::Sgt => cx.bin(Op::Slt, w, b, a),
                    Pred::Sge => cx.bin(Op::Sle, w, b, a),
                });
                self.set(st, dst, v);
            }
            I::FCmp(p, t, x, y) => {
                let (x, y) = (self.opd(fr, x), self.opd(fr, y));
                let p = p.clone();
                let v = self.map2(t, &x, &y, &mut |cx, w, a, b| {
                    let na = cx.bin(Op::FIsNan, w, a, a);
                    let nb = cx.bin(Op::FIsNan, w, b, b);
                    let uno = cx.bin(Op::Or, 1, na, nb);
                    let base = match &p[1..] {
                        "eq" | "ne" => cx.bin(Op::FEq, w, a, b),
                        "lt" => cx.bin(Op::FLt, w, a, b),
                        "le" => cx.bin(Op::FLe, w, a, b),
                        "gt" => cx.bin(Op::FLt, w, b, a),
                        "ge" => cx.bin(Op::FLe, w, b, a),
                        _ => S::C(0),
                    };
                    match p.as_str() {
                        "one" => {
                            let n = cx.not1(base);
                            let o = cx.not1(uno);
                            cx.bin(Op::And, 1, n, o)
                        }
                        "une" => cx.not1(base),
                        "ord" => cx.not1(uno),
                        "uno" => uno,
                        "true" => S::C(1),
                        "false" => S::C(0),
                        q if q.starts_with('o') => base,
                        _ => cx.bin(Op::Or, 1, base, uno),
                    }
                });
                self.set(st, dst, v);
            }
            I::Cast(c, t, tt, x) => {
                let x = self.opd(fr, x);
                let v = self.cast(*c, t, tt, &x)?;
                self.set(st, dst, v);
            }
            I::Select(ct, t, c, x, y) => {
                let c = self.opd(fr, c);
                let (x, y) = (self.opd(fr, x), self.opd(fr, y));
                let v = match (ct, &c) {
                    (Ty::Vec(..), V::A(cs)) => {
                        let (V::A(a), V::A(b)) = (&x, &y) else { panic!() };
                        let Ty::Vec(_, e) = t else { panic!() };
                        let mut out = vec![];
                        for i in 0..cs.len() {
                            let V::S(c) = cs[i] else { panic!() };
                            out.push(self.ite_v(c, e, &a[i], &b[i]));
                        }
                        V::A(Rc::new(out))
                    }
                    (_, V::S(c)) => {
                        let c = if matches!(c, S::X(_)) { self.peval(st, *c) } else { *c };
                        match c {
                            S::C(k) => {
                                if k & 1 == 1 {
                                    x
                                } else {
                                    y
                                }
                            }
                            _ => {
                                if *t == Ty::Ptr && x != y {
                                    if self.branch(st, c)? {
                                        x
                                    } else {
                                        y
                                    }
                                } else {
                                    self.ite_v(c, t, &x, &y)
                                }
                            }
                        }
                    }
                    _ => panic!(),
                };
                self.set(st, dst, v);
            }
            I::Load(t, p) => {
                let p = self.sc(fr, p);
                let a = match p {
                    S::C(a) => a,
                    _ => {
                        if let Some(v) = self.table_load(st, t, p)? {
                            self.set(st, dst, v);
                            return Ok(());
                        }
                        self.concretize(st, 64, p)?
                    }
                };
                let v = self.load_ty(st, t, a)?;
                self.set(st, dst, v);
            }
            I::Store(t, v, p) => {
                let v = self.opd(fr, v);
                let p = self.sc(fr, p);
                let a = self.concretize(st, 64, p)?;
                self.store_ty(st, t, a, &v)?;
                self.set(st, u32::MAX, V::c(0));
            }
            I::Gep(base, off, terms) => {
                let mut a = self.sc(fr, base);
                if *off != 0 {
                    a = self.cx.bin(Op::Add, 64, a, S::C(*off as i128 as u128 & mask(64)));
                }
                for (o, scale, w) in terms {
                    let s = self.sc(fr, o);
                    let s = self.cx.sext(s, *w, 64);
                    let s = self.cx.bin(Op::Mul, 64, s, S::C(*scale as i128 as u128 & mask(64)));
                    a = self.cx.bin(Op::Add, 64, a, s);
                }
                self.set(st, dst, V::S(a));
            }
            I::Alloca(off, count, align) => {
                if *align == 0 {
                    let a = ((fr.stack as u128) << OBJ_SHIFT) + *off as u128;
                    self.set(st, dst, V::c(a));
                } else {
                    let n = self.sc(fr, count);
                    let n = self.concretize(st, 64, n)?;
                    let id = st.mem.alloc(Obj::zeroed(off * n as u64));
                    Rc::make_mut(st.frames.last_mut().unwrap()).dyns.push(id);
                    self.set(st, dst, V::c((id as u128) << OBJ_SHIFT));
                }
            }
            I::Br(b) => self.jump(st, *b),
            I::CondBr(c, a, b) => {
                let c = self.sc(fr, c);
                let t = match c {
                    S::C(k) => k & 1 == 1,
                    _ => self.branch(st, c)?,
                };
                self.jump(st, if t { *a } else { *b });
            }
            I::Switch(w, x, d, cases) => {
                let x = self.sc(fr, x);
                let x = self.peval(st, x);
                let v = self.evals(st, x);
                let target = cases.iter().find(|c| c.0 == v).map(|c| c.1).unwrap_or(*d);
                if let S::X(_) = x {
                    // condition: x leads to `target`
                    let mut c = S::C(0);
                    if target == *d {
                        let mut any = S::C(0);
                        for (k, t) in cases {
                            if *t != target {
                                let e = self.cx.bin(Op::Eq, *w, x, S::C(*k));
                                any = self.cx.bin(Op::Or, 1, any, e);
                            }
                        }
                        c = self.cx.not1(any);
                    } else {
                        for (k, t) in cases {
                            if *t == target {
                                let e = self.cx.bin(Op::Eq, *w, x, S::C(*k));
                                c = self.cx.bin(Op::Or, 1, c, e);
                            }
                        }
                    }
                    let c = self.peval(st, c);
                    self.commit(st, c)?;
                }
                self.jump(st, target);
            }
            I::Unreachable => {
                return Err(End::Bad("unreachable".into(), "reached unreachable code".into()));
            }
            I::Extract(x, path) => {
                let mut v = self.opd(fr, x);
                for &i in path {
                    v = match v {
                        V::A(a) => a[i].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                self.set(st, dst, v);
            }
            I::Insert(x, y, path) => {
                let x = self.opd(fr, x);
                let y = self.opd(fr, y);
                fn ins(v: &V, y: V, p: &[usize]) -> V {
                    if p.is_empty() {
                        return y;
                    }
                    match v {
                        V::A(a) => {
                            let mut b = (**a).clone();
                            b[p[0]] = ins(&a[p[0]], y, &p[1..]);
                            V::A(Rc::new(b))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let v = ins(&x, y, path);
                self.set(st, dst, v);
            }
            I::Rmw(op, t, p, v) => {
                let p = self.sc(fr, p);
                let a = self.concretize(st, 64, p)?;
                let v = self.sc(fr, v);
                let w = t.bits();
                let V::S(old) = self.load_ty(st, t, a)? else { panic!() };
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.cx.bin(Op::Add, w, old, v),
                    "sub" => self.cx.bin(Op::Sub, w, old, v),
                    "and" => self.cx.bin(Op::And, w, old, v),
                    "or" => self.cx.bin(Op::Or, w, old, v),
                    "xor" => self.cx.bin(Op::Xor, w, old, v),
                    "umax" | "umin" | "max" | "min" => {
                        let lt = self.cx.bin(if op.starts_with('u') { Op::Ult } else { Op::Slt }, w, old, v);
                        if op.ends_with("max") {
                            self.cx.ite(lt, w, v, old)
                        } else {
                            self.cx.ite(lt, w, old, v)
                        }
                    }
                    o => return Err(End::Error(format!("atomicrmw {o}"))),
                };
                self.store_ty(st, t, a, &V::S(new))?;
                self.set(st, dst, V::S(old));
            }
            I::CmpXchg(t, p, e, n) => {
                let p = self.sc(fr, p);
                let a = self.concretize(st, 64, p)?;
                let (e, n) = (self.sc(fr, e), self.sc(fr, n));
                let V::S(old) = self.load_ty(st, t, a)? else { panic!() };
                let eq = self.cx.bin(Op::Eq, t.bits(), old, e);
                let ok = self.branch(st, eq)?;
                if ok {
                    self.store_ty(st, t, a, &V::S(n))?;
                }
                self.set(st, dst, V::A(Rc::new(vec![V::S(old), V::c(ok as u128)])));
            }
            I::Fence => self.set(st, u32::MAX, V::c(0)),
            I::Shuffle(t, x, y, idx) => {
                let (V::A(a), V::A(b)) = (self.opd(fr, x), self.opd(fr, y)) else { panic!() };
                let n = match t {
                    Ty::Vec(n, _) => *n as usize,
                    _ => panic!(),
                };
                let v = idx
                    .iter()
                    .map(|&i| {
                        let i = i as usize;
                        if i < n {
                            a[i].clone()
                        } else if i < 2 * n {
                            b[i - n].clone()
                        } else {
                            V::c(0)
                        }
                    })
                    .collect();
                self.set(st, dst, V::A(Rc::new(v)));
            }
            I::InsElt(x, y, k) => {
                let V::A(a) = self.opd(fr, x) else { panic!() };
                let y = self.opd(fr, y);
                let k = self.sc(fr, k);
                let k = self.concretize(st, 64, k)? as usize;
                let mut b = (*a).clone();
                b[k] = y;
                self.set(st, dst, V::A(Rc::new(b)));
            }
            I::ExtElt(x, k) => {
                let V::A(a) = self.opd(fr, x) else { panic!() };
                let k = self.sc(fr, k);
                let k = self.concretize(st, 64, k)? as usize;
                self.set(st, dst, a[k].clone());
            }
            I::Freeze(x) => {
                let v = self.opd(fr, x);
                self.set(st, dst, v);
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|o| self.opd(fr, o));
                let fr = st.frames.pop().unwrap();
                if fr.f.frame > 0 || st.frames.is_empty() {
                    st.mem.free_frame(fr.stack);
                }
                for &d in &fr.dyns {
                    *st.mem.slot_mut(d) = Slot::Freed;
                }
                if st.frames.is_empty() {
                    return Err(End::Done);
                }
                let (d, normal) = (fr.dst, fr.normal);
                let caller = Rc::make_mut(st.frames.last_mut().unwrap());
                if d != u32::MAX {
                    caller.regs[d as usize] = v.unwrap_or(V::c(0));
                }
                match normal {
                    Some(b) => self.jump(st, b),
                    None => caller.ip += 1,
                }
            }
            I::Call(c) => return self.call(st, fr, c, dst),
            I::Unsupported(s) => return Err(End::Error(format!("unsupported instruction: {s}"))),
        }
        Ok(())
    }

    /// A load whose address is symbolic but confined to one small object: an if-then-else
    /// chain over every feasible address, instead of one path per address.
    fn table_load(&mut self, st: &mut State, t: &Ty, p: S) -> R<Option<V>> {
        if matches!(t, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) | Ty::Ptr) {
            return Ok(None);
        }
        let p = self.peval(st, p);
        let S::X(e) = p else { return Ok(None) };
        let (lo, hi) = self.cx.range[e as usize];
        if lo >> OBJ_SHIFT != hi >> OBJ_SHIFT || hi - lo > 512 {
            return Ok(None);
        }
        // in bounds for every feasible value?
        let id = (lo >> OBJ_SHIFT) as u64;
        let n = t.store_size();
        let size = self.obj(st, id)?.size;
        let base = (id as u128) << OBJ_SHIFT;
        if (hi - base) as u64 + n > size {
            let limit = base + size as u128 - n as u128;
            let ok = self.cx.bin(Op::Ule, 64, p, S::C(limit));
            let bad = self.cx.not1(ok);
            if self.query(st, bad)?.is_some() {
                return Ok(None);
            }
        }
        let mut out: Option<S> = None;
        let w = t.bits();
        for a in lo..=hi.min(base + size as u128 - n as u128) {
            let c = self.cx.bin(Op::Eq, 64, p, S::C(a));
            if c == S::C(0) {
                continue;
            }
            let V::S(v) = self.load_ty(st, t, a)? else { panic!() };
            out = Some(match out {
                None => v,
                Some(o) => self.cx.ite(c, w, v, o),
            });
        }
        Ok(out.map(V::S))
    }

    fn cast(&mut self, c: Cast, t: &Ty, tt: &Ty, x: &V) -> R<V> {
        if c == Cast::Bit {
            return Ok(match (t, tt, x) {
                (Ty::Vec(_, e), Ty::Vec(n2, e2), V::A(v)) => {
                    if e.bits() == e2.bits() {
                        return Ok(x.clone());
                    }
                    let mut pieces = vec![];
                    for l in v.iter() {
                        let V::S(s) = l else { panic!() };
                        pieces.push((e.bits(), *s));
                    }
                    // regroup
                    let w2 = e2.bits();
                    let mut out = vec![];
                    let total: u32 = pieces.iter().map(|p| p.0).sum();
                    if total > 128 {
                        return Err(End::Error("wide vector bitcast".into()));
                    }
                    let all = self.cx.concat_pieces(&pieces);
                    for i in 0..*n2 {
                        out.push(V::S(self.cx.extract(all, total, i * w2, w2)));
                    }
                    V::A(Rc::new(out))
                }
                (Ty::Vec(_, e), _, V::A(v)) => {
                    let mut pieces = vec![];
                    for l in v.iter() {
                        let V::S(s) = l else { panic!() };
                        pieces.push((e.bits(), *s));
                    }
                    V::S(self.cx.concat_pieces(&pieces))
                }
                (_, Ty::Vec(n, e), V::S(s)) => {
                    let (w, total) = (e.bits(), t.bits());
                    V::A(Rc::new((0..*n).map(|i| V::S(self.cx.extract(*s, total, i * w, w))).collect()))
                }
                _ => x.clone(),
            });
        }
        let wo = match tt {
            Ty::Vec(_, e) => e.bits(),
            t => t.bits(),
        };
        Ok(self.map1(t, x, &mut |cx, w, s| match c {
            Cast::Trunc => cx.extract(s, w, 0, wo),
            Cast::ZExt => cx.zext(s, w, wo),
            Cast::SExt => cx.sext(s, w, wo),
            Cast::PtrInt => {
                if wo <= w {
                    cx.extract(s, w, 0, wo)
                } else {
                    cx.zext(s, w, wo)
                }
            }
            Cast::UIToFP => cx.conv(Op::UToF, w, wo, s),
            Cast::SIToFP => cx.conv(Op::SToF, w, wo, s),
            Cast::FPToUI => cx.conv(Op::FToU, w, wo, s),
            Cast::FPToSI => cx.conv(Op::FToS, w, wo, s),
            Cast::FPExt | Cast::FPTrunc => cx.conv(Op::FToF, w, wo, s),
            Cast::Bit => unreachable!(),
        }))
    }

    fn builtin(&self, f: usize) -> B {
        let d = &self.m.funcs[f];
        let c = d.builtin.get();
        if c != 0 {
            return unsafe { std::mem::transmute::<u16, B>(c) };
        }
        let b = classify(&d.name, d.lines == (0, 0), &self.o.clock_fns);
        d.builtin.set(b as u16);
        b
    }

    fn call(&mut self, st: &mut State, fr: &Frame, c: &Call, dst: u32) -> R<()> {
        let f = match &c.callee {
            Callee::Direct(f) => *f,
            Callee::Indirect(o) => {
                let p = self.sc(fr, o);
                let p = self.concretize(st, 64, p)?;
                let id = (p >> OBJ_SHIFT) as usize;
                if id == 0 || id > self.m.funcs.len() {
                    return Err(End::Bad("memory".into(), "call through an invalid pointer".into()));
                }
                id - 1
            }
            Callee::Asm(t) => {
                if t.is_empty() {
                    let v = match c.args.first() {
                        Some(a) if c.ret != Ty::Void => self.opd(fr, &a.1),
                        _ => zero_of(&c.ret),
                    };
                    self.set(st, dst, v);
                    return self.after_call(st, c);
                }
                return Err(End::Error(format!("inline assembly {t:?}")));
            }
        };
        let b = self.builtin(f);
        if b != B::None {
            let v = self.do_builtin(st, fr, b, c, f)?;
            self.set(st, dst, v);
            return self.after_call(st, c);
        }
        if self.m.funcs[f].lines == (0, 0) {
            return Err(End::Error(format!("call to external function {}", self.m.funcs[f].name)));
        }
        let func = self.m.func(f);
        let mut regs = vec![V::c(0); func.nregs as usize];
        for (i, (_, r)) in func.params.iter().enumerate() {
            if *r != u32::MAX {
                regs[*r as usize] = self.opd(fr, &c.args[i].1);
            }
        }
        if st.frames.len() > 400 {
            return Err(End::Bad("hang".into(), "call depth over 400".into()));
        }
        let stack = if func.frame > 0 { st.mem.alloc_frame(func.frame) } else { 0 };
        st.frames.push(Rc::new(Frame { f: func, bb: 0, ip: 0, regs, stack, dyns: vec![], dst, normal: c.normal }));
        Ok(())
    }

    fn after_call(&mut self, st: &mut State, c: &Call) -> R<()> {
        if let Some(b) = c.normal {
            self.jump(st, b);
        }
        Ok(())
    }

    fn draw(&mut self, st: &mut State, w: u32) -> S {
        let name = format!("d{}", st.draws.len());
        let e = self.cx.var(&name, w);
        st.draws.push((S::X(e), w));
        S::X(e)
    }

    /// Add an assumption to the path.
    fn assume(&mut self, st: &mut State, c: S) -> R<()> {
        let c = self.peval(st, c);
        match c {
            S::C(k) => {
                if k & 1 == 1 {
                    Ok(())
                } else {
                    Err(End::Assume)
                }
            }
            S::X(e) => {
                if self.eval(st, e) & 1 == 0 {
                    match self.query(st, c)? {
                        None => return Err(End::Assume),
                        Some(vals) => {
                            st.model = Rc::new(Model { vals, memo: RefCell::new(HashMap::new()) })
                        }
                    }
                }
                st.pc.push(e);
                self.learn(st, e, 1);
                Ok(())
            }
        }
    }

    fn do_builtin(&mut self, st: &mut State, fr: &Frame, b: B, c: &Call, f: usize) -> R<V> {
        let a = |eng: &Self, i: usize| -> S { eng.sc(fr, &c.args[i].1) };
        let w0 = || match &c.args[0].0 {
            Ty::Vec(_, e) => e.bits(),
            t => t.bits(),
        };
        let unit = V::c(0);
        Ok(match b {
            B::SymU8 => V::S(self.draw(st, 8)),
            B::SymU16 => V::S(self.draw(st, 16)),
            B::SymU32 => V::S(self.draw(st, 32)),
            B::SymU64 => V::S(self.draw(st, 64)),
            B::SymRange => {
                let (lo, hi) = (a(self, 0), a(self, 1));
                let lo = self.concretize(st, 64, lo)?;
                let hi = self.concretize(st, 64, hi)?;
                if lo > hi {
                    return Err(End::Assume);
                }
                if lo == hi {
                    st.draws.push((S::C(lo), 64));
                    return Ok(V::c(lo));
                }
                // narrow variable plus offset: keeps the ranges visible to the simplifier
                let span = hi - lo;
                let w = 128 - span.leading_zeros();
                let name = format!("r{}", st.draws.len());
                let e = self.cx.var(&name, w);
                let z = self.cx.zext(S::X(e), w, 64);
                let v = self.cx.bin(Op::Add, 64, z, S::C(lo));
                st.draws.push((v, 64));
                let ok = self.cx.bin(Op::Ule, w, S::X(e), S::C(span));
                self.assume(st, ok)?;
                V::S(v)
            }
            B::SymChoice => {
                if let Some(v) = st.forced.take() {
                    st.draws.push((v, 64));
                    return Ok(V::S(v));
                }
                let n = a(self, 0);
                let n = self.concretize(st, 64, n)?;
                if n == 0 {
                    return Err(End::Assume);
                }
                for k in (1..n).rev() {
                    let mut o = st.clone();
                    o.forced = Some(S::C(k));
                    o.forks += 1;
                    self.pending.push(o);
                    self.res.forks += 1;
                }
                st.draws.push((S::C(0), 64));
                V::c(0)
            }
            B::SymConcrete => {
                let v = a(self, 0);
                V::c(self.concretize(st, 64, v)?)
            }
            B::SymAssume => {
                let v = a(self, 0);
                self.assume(st, v)?;
                unit
            }
            B::SymAssert => {
                let v = a(self, 0);
                let (p, n) = (a(self, 1), a(self, 2));
                let (p, n) = (self.concretize(st, 64, p)?, self.concretize(st, 64, n)?);
                let name = self.str_at(st, p, n as u64)?;
                let v = self.peval(st, v);
                self.res.asserts += 1;
                match v {
                    S::C(k) => {
                        if k & 1 == 0 {
                            return Err(End::Bad("assert".into(), name.to_string()));
                        }
                    }
                    S::X(e) => {
                        self.res.asserts_solver += 1;
                        let nv = self.cx.not1(v);
                        if self.eval(st, e) & 1 == 0 {
                            return Err(End::Bad("assert".into(), name.to_string()));
                        }
                        if let Some(vals) = self.query(st, nv)? {
                            st.model = Rc::new(Model { vals, memo: RefCell::new(HashMap::new()) });
                            return Err(End::Bad("assert".into(), name.to_string()));
                        }
                        self.learn(st, e, 1);
                    }
                }
                st.log.push(Log::Assert(name));
                unit
            }
            B::SymCover => {
                let (p, n) = (a(self, 0), a(self, 1));
                let (p, n) = (self.concretize(st, 64, p)?, self.concretize(st, 64, n)?);
                let name = self.str_at(st, p, n as u64)?;
                st.log.push(Log::Cover(name));
                unit
            }
            B::SymObserve => {
                let (p, n) = (a(self, 0), a(self, 1));
                let (p, n) = (self.concretize(st, 64, p)?, self.concretize(st, 64, n)?);
                let name = self.str_at(st, p, n as u64)?;
                let v = a(self, 2);
                st.log.push(Log::Obs(name, v));
                unit
            }
            B::SymDump => {
                let v = a(self, 0);
                match v {
                    S::C(k) => eprintln!("dump {k}"),
                    S::X(e) => eprintln!("dump {}", self.cx.show(e, 12)),
                }
                unit
            }
            B::ClockSet => {
                st.clock = a(self, 0);
                unit
            }
            B::ClockGet | B::ClockMillis => V::S(st.clock),
            B::ClockGettime => {
                let p = a(self, 1);
                let p = self.concretize(st, 64, p)?;
                let ck = st.clock;
                let s = self.cx.bin(Op::UDiv, 64, ck, S::C(1000));
                let r = self.cx.bin(Op::URem, 64, ck, S::C(1000));
                let ns = self.cx.bin(Op::Mul, 64, r, S::C(1_000_000));
                self.store_n(st, p, 8, s)?;
                self.store_n(st, p + 8, 8, ns)?;
                unit
            }
            B::HashOne => V::c(self.o.hash),
            B::PanicFmt => {
                let n = c.args.len();
                let l = a(self, n - 1);
                let l = self.concretize(st, 64, l)?;
                let loc = self.location(st, l);
                return Err(End::Bad("panic".into(), loc));
            }
            B::PanicOther => return Err(End::Bad("panic".into(), self.m.funcs[f].name.clone())),
            B::Abort | B::Trap => return Err(End::Bad("abort".into(), "abort".into())),
            B::Malloc => {
                let n = a(self, 0);
                let n = self.alloc_size(st, n)?;
                V::c(self.alloc(st, n)?)
            }
            B::Calloc => {
                let n = self.cx.bin(Op::Mul, 64, a(self, 0), a(self, 1));
                let n = self.alloc_size(st, n)?;
                V::c(self.alloc(st, n)?)
            }
            B::RustAlloc | B::RustAllocZeroed => {
                let n = a(self, 0);
                let n = self.alloc_size(st, n)?;
                V::c(self.alloc(st, n)?)
            }
            B::Realloc | B::RustRealloc => {
                let p = a(self, 0);
                let p = self.concretize(st, 64, p)?;
                let n = if b == B::Realloc { a(self, 1) } else { a(self, 3) };
                let n = self.alloc_size(st, n)?;
                let q = self.alloc(st, n)?;
                if p != 0 {
                    let old = self.obj(st, (p >> OBJ_SHIFT) as u64)?.size;
                    self.copy(st, q, p, old.min(n))?;
                    self.free(st, p)?;
                }
                V::c(q)
            }
            B::Free | B::RustDealloc => {
                let p = a(self, 0);
                let p = self.concretize(st, 64, p)?;
                self.free(st, p)?;
                unit
            }
            B::PosixMemalign => {
                let p = a(self, 0);
                let p = self.concretize(st, 64, p)?;
                let n = a(self, 2);
                let n = self.alloc_size(st, n)?;
                let q = self.alloc(st, n)?;
                self.store_n(st, p, 8, S::C(q))?;
                unit
            }
            B::Nop => zero_of(&c.ret),
            B::RetZero => zero_of(&c.ret),
            B::ErrnoLoc => {
                let q = self.alloc(st, 4)?;
                V::c(q)
            }
            B::PrintSink => {
                let n = a(self, 2);
                V::S(n)
            }
            B::Memcpy | B::Memmove => {
                let (d, s, n) = (a(self, 0), a(self, 1), a(self, 2));
                let n = self.concretize(st, 64, n)?;
                let d = self.concretize(st, 64, d)?;
                let s = self.concretize(st, 64, s)?;
                self.copy(st, d, s, n as u64)?;
                V::c(d)
            }
            B::Memset => {
                let (d, v, n) = (a(self, 0), a(self, 1), a(self, 2));
                let n = self.concretize(st, 64, n)? as u64;
                let d = self.concretize(st, 64, d)?;
                if n > 0 {
                    let v = self.cx.extract(v, c.args[1].0.bits(), 0, 8);
                    let (id, off) = self.locate(st, d, n)?;
                    if let S::C(k) = v {
                        let o = self.obj_mut(st, id)?;
                        o.data[off as usize..(off + n) as usize].fill(k as u8);
                        if let Some(s) = &mut o.sym {
                            for x in &mut s[off as usize..(off + n) as usize] {
                                *x = (0, 0);
                            }
                        }
                    } else {
                        for i in 0..n {
                            self.store_n(st, d + i as u128, 1, v)?;
                        }
                    }
                }
                V::c(d)
            }
            B::Memcmp | B::Bcmp => {
                let (p, q, n) = (a(self, 0), a(self, 1), a(self, 2));
                let n = self.concretize(st, 64, n)? as u64;
                let p = self.concretize(st, 64, p)?;
                let q = self.concretize(st, 64, q)?;
                let wr = c.ret.bits();
                if n == 0 {
                    return Ok(V::c(0));
                }
                self.locate(st, p, n)?;
                self.locate(st, q, n)?;
                let mut r = S::C(0);
                let mut all = S::C(1);
                for i in (0..n).rev() {
                    let x = self.load_n(st, p + i as u128, 1)?;
                    let y = self.load_n(st, q + i as u128, 1)?;
                    let eq = self.cx.bin(Op::Eq, 8, x, y);
                    if b == B::Bcmp {
                        all = self.cx.bin(Op::And, 1, all, eq);
                        if all == S::C(0) {
                            break;
                        }
                    } else {
                        let lt = self.cx.bin(Op::Ult, 8, x, y);
                        let d = self.cx.ite(lt, wr, S::C(mask(wr)), S::C(1));
                        r = self.cx.ite(eq, wr, r, d);
                    }
                }
                if b == B::Bcmp {
                    let ne = self.cx.not1(all);
                    V::S(self.cx.zext(ne, 1, wr))
                } else {
                    V::S(r)
                }
            }
            B::Strlen => {
                let p = a(self, 0);
                let p = self.concretize(st, 64, p)?;
                let mut n = 0u128;
                loop {
                    let x = self.load_n(st, p + n, 1)?;
                    match x {
                        S::C(0) => break,
                        S::C(_) => n += 1,
                        _ => return Err(End::Error("strlen of symbolic data".into())),
                    }
                }
                V::c(n)
            }
            B::Getrandom => {
                let n = a(self, 1);
                V::S(n)
            }
            B::ThreadlocalAddress => V::S(a(self, 0)),
            B::Assume => unit,
            B::Umax | B::Umin | B::Smax | B::Smin => {
                let (x, y) = (self.opd(fr, &c.args[0].1), self.opd(fr, &c.args[1].1));
                self.map2(&c.args[0].0, &x, &y, &mut |cx, w, x, y| {
                    let lt = cx.bin(if matches!(b, B::Umax | B::Umin) { Op::Ult } else { Op::Slt }, w, x, y);
                    if matches!(b, B::Umax | B::Smax) {
                        cx.ite(lt, w, y, x)
                    } else {
                        cx.ite(lt, w, x, y)
                    }
                })
            }
            B::Abs => {
                let w = w0();
                let x = a(self, 0);
                let neg = self.cx.bin(Op::Slt, w, x, S::C(0));
                let m = self.cx.bin(Op::Sub, w, S::C(0), x);
                V::S(self.cx.ite(neg, w, m, x))
            }
            B::Ctlz | B::Cttz => {
                let w = w0();
                let x = self.opd(fr, &c.args[0].1);
                self.map1(&c.args[0].0, &x, &mut |cx, _, x| {
                    let mut r = S::C(w as u128);
                    for i in 0..w {
                        // last assignment wins: the most (ctlz) / least (cttz) significant set bit
                        let k = if b == B::Ctlz { i } else { w - 1 - i };
                        let bit = cx.extract(x, w, k, 1);
                        let v = if b == B::Ctlz { w - 1 - k } else { k };
                        r = cx.ite(bit, w, S::C(v as u128), r);
                    }
                    r
                })
            }
            B::Ctpop => {
                let w = w0();
                let x = self.opd(fr, &c.args[0].1);
                self.map1(&c.args[0].0, &x, &mut |cx, _, x| {
                    let mut r = S::C(0);
                    for i in 0..w {
                        let bit = cx.extract(x, w, i, 1);
                        let z = cx.zext(bit, 1, w);
                        r = cx.bin(Op::Add, w, r, z);
                    }
                    r
                })
            }
            B::Bswap => {
                let w = w0();
                let x = a(self, 0);
                let mut p = vec![];
                for i in (0..w / 8).rev() {
                    p.push((8, self.cx.extract(x, w, 8 * i, 8)));
                }
                V::S(self.cx.concat_pieces(&p))
            }
            B::Bitreverse => {
                let w = w0();
                let x = a(self, 0);
                let mut p = vec![];
                for i in (0..w).rev() {
                    p.push((1, self.cx.extract(x, w, i, 1)));
                }
                V::S(self.cx.concat_pieces(&p))
            }
            B::Fshl | B::Fshr => {
                let w = w0();
                let (x, y, s) = (a(self, 0), a(self, 1), a(self, 2));
                let S::C(s) = self.peval(st, s) else {
                    return Err(End::Error("funnel shift by a symbolic amount".into()));
                };
                let s = (s % w as u128) as u32;
                if s == 0 {
                    return Ok(V::S(if b == B::Fshl { x } else { y }));
                }
                let sh = if b == B::Fshl { s } else { w - s };
                let hi = self.cx.extract(x, w, 0, w - sh);
                let lo = self.cx.extract(y, w, w - sh, sh);
                V::S(self.cx.concat(w - sh, hi, sh, lo))
            }
            B::UaddSat | B::UsubSat => {
                let (x, y) = (self.opd(fr, &c.args[0].1), self.opd(fr, &c.args[1].1));
                self.map2(&c.args[0].0, &x, &y, &mut |cx, w, x, y| {
                    if b == B::UaddSat {
                        let s = cx.bin(Op::Add, w, x, y);
                        let o = cx.bin(Op::Ult, w, s, x);
                        cx.ite(o, w, S::C(mask(w)), s)
                    } else {
                        let o = cx.bin(Op::Ult, w, x, y);
                        let s = cx.bin(Op::Sub, w, x, y);
                        cx.ite(o, w, S::C(0), s)
                    }
                })
            }
            B::SaddSat | B::SsubSat => {
                let w = w0();
                let (x, y) = (a(self, 0), a(self, 1));
                let (r, o) = self.soverflow(if b == B::SaddSat { Op::Add } else { Op::Sub }, w, x, y);
                let neg = self.cx.bin(Op::Slt, w, x, S::C(0));
                let sat = self.cx.ite(neg, w, S::C(1u128 << (w - 1)), S::C(mask(w - 1)));
                V::S(self.cx.ite(o, w, sat, r))
            }
            B::UaddO | B::UsubO | B::UmulO | B::SaddO | B::SsubO | B::SmulO => {
                let w = w0();
                let (x, y) = (a(self, 0), a(self, 1));
                let (r, o) = match b {
                    B::UaddO => {
                        let r = self.cx.bin(Op::Add, w, x, y);
                        let (rx, ry) = (self.cx.rng(w, x), self.cx.rng(w, y));
                        let o = if rx.1.checked_add(ry.1).map(|s| s <= mask(w)).unwrap_or(false) {
                            S::C(0)
                        } else {
                            self.cx.bin(Op::Ult, w, r, x)
                        };
                        (r, o)
                    }
                    B::UsubO => {
                        let r = self.cx.bin(Op::Sub, w, x, y);
                        (r, self.cx.bin(Op::Ult, w, x, y))
                    }
                    B::UmulO => {
                        let r = self.cx.bin(Op::Mul, w, x, y);
                        let (rx, ry) = (self.cx.rng(w, x), self.cx.rng(w, y));
                        let o = if rx.1.checked_mul(ry.1).map(|s| s <= mask(w)).unwrap_or(false) {
                            S::C(0)
                        } else {
                            if w > 64 {
                                return Err(End::Error("wide umul.with.overflow".into()));
                            }
                            let (xx, yy) = (self.cx.zext(x, w, 2 * w), self.cx.zext(y, w, 2 * w));
                            let p = self.cx.bin(Op::Mul, 2 * w, xx, yy);
                            let h = self.cx.extract(p, 2 * w, w, w);
                            let z = self.cx.bin(Op::Eq, w, h, S::C(0));
                            self.cx.not1(z)
                        };
                        (r, o)
                    }
                    B::SaddO => self.soverflow(Op::Add, w, x, y),
                    B::SsubO => self.soverflow(Op::Sub, w, x, y),
                    _ => {
                        if w > 64 {
                            return Err(End::Error("wide smul.with.overflow".into()));
                        }
                        let (xx, yy) = (self.cx.sext(x, w, 2 * w), self.cx.sext(y, w, 2 * w));
                        let p = self.cx.bin(Op::Mul, 2 * w, xx, yy);
                        let r = self.cx.extract(p, 2 * w, 0, w);
                        let rr = self.cx.sext(r, w, 2 * w);
                        let e = self.cx.bin(Op::Eq, 2 * w, rr, p);
                        (r, self.cx.not1(e))
                    }
                };
                V::A(Rc::new(vec![V::S(r), V::S(o)]))
            }
            B::Ucmp | B::Scmp => {
                let w = w0();
                let wr = c.ret.bits();
                let (x, y) = (a(self, 0), a(self, 1));
                let lt = self.cx.bin(if b == B::Ucmp { Op::Ult } else { Op::Slt }, w, x, y);
                let eq = self.cx.bin(Op::Eq, w, x, y);
                let r = self.cx.ite(eq, wr, S::C(0), S::C(1));
                V::S(self.cx.ite(lt, wr, S::C(mask(wr)), r))
            }
            B::Expect => V::S(a(self, 0)),
            B::IsConstant => V::c(0),
            B::FptouiSat | B::FptosiSat => {
                let (wi, wo) = (c.args[0].0.bits(), c.ret.bits());
                let x = a(self, 0);
                match x {
                    S::C(k) => {
                        let f = if wi == 64 { f64::from_bits(k as u64) } else { f32::from_bits(k as u32) as f64 };
                        let v = if b == B::FptouiSat {
                            let m = mask(wo) as f64;
                            if f.is_nan() || f <= 0.0 {
                                0
                            } else if f >= m {
                                mask(wo)
                            } else {
                                f as u128
                            }
                        } else {
                            let hi = mask(wo - 1) as i128;
                            let lo = -hi - 1;
                            let i = f as i128;
                            (i.clamp(lo, hi)) as u128 & mask(wo)
                        };
                        V::c(v)
                    }
                    _ => {
                        let fk = |f: f64| -> S {
                            if wi == 64 {
                                S::C(f.to_bits() as u128)
                            } else {
                                S::C((f as f32).to_bits() as u128)
                            }
                        };
                        let nan = self.cx.bin(Op::FIsNan, wi, x, x);
                        let (lo, hi, lov, hiv) = if b == B::FptouiSat {
                            (fk(0.0), fk(2f64.powi(wo as i32)), S::C(0), S::C(mask(wo)))
                        } else {
                            (
                                fk(-(2f64.powi(wo as i32 - 1))),
                                fk(2f64.powi(wo as i32 - 1)),
                                S::C(1u128 << (wo - 1)),
                                S::C(mask(wo - 1)),
                            )
                        };
                        let below = self.cx.bin(Op::FLt, wi, x, lo);
                        let above = self.cx.bin(Op::FLe, wi, hi, x);
                        let conv =
                            self.cx.conv(if b == B::FptouiSat { Op::FToU } else { Op::FToS }, wi, wo, x);
                        let r = self.cx.ite(above, wo, hiv, conv);
                        let r = self.cx.ite(below, wo, lov, r);
                        V::S(self.cx.ite(nan, wo, S::C(0), r))
                    }
                }
            }
            B::Fabs => {
                let w = w0();
                let x = a(self, 0);
                V::S(self.cx.bin(Op::And, w, x, S::C(mask(w - 1))))
            }
            B::Fminmax => {
                let w = w0();
                let (x, y) = (a(self, 0), a(self, 1));
                let max = self.m.funcs[f].name.contains("max");
                let lt = self.cx.bin(Op::FLt, w, x, y);
                let nx = self.cx.bin(Op::FIsNan, w, x, x);
                let ny = self.cx.bin(Op::FIsNan, w, y, y);
                let r = if max { self.cx.ite(lt, w, y, x) } else { self.cx.ite(lt, w, x, y) };
                let r = self.cx.ite(ny, w, x, r);
                V::S(self.cx.ite(nx, w, y, r))
            }
            B::Round => {
                let w = w0();
                let S::C(k) = a(self, 0) else {
                    return Err(End::Error("rounding of a symbolic float".into()));
                };
                let n = &self.m.funcs[f].name;
                let g = |f: f64| -> f64 {
                    if n.contains("floor") {
                        f.floor()
                    } else if n.contains("ceil") {
                        f.ceil()
                    } else if n.contains("trunc") {
                        f.trunc()
                    } else if n.contains("llvm.round.") {
                        f.round()
                    } else {
                        f.round_ties_even()
                    }
                };
                if w == 64 {
                    V::c(g(f64::from_bits(k as u64)).to_bits() as u128)
                } else {
                    V::c((g(f32::from_bits(k as u32) as f64) as f32).to_bits() as u128)
                }
            }
            B::Powi | B::Pow => {
                let (S::C(x), y) = (a(self, 0), a(self, 1)) else {
                    return Err(End::Error("power of a symbolic float".into()));
                };
                let S::C(y) = self.peval(st, y) else {
                    return Err(End::Error("power with a symbolic exponent".into()));
                };
                if w0() != 64 {
                    return Err(End::Error("f32 power".into()));
                }
                let x = f64::from_bits(x as u64);
                let r = if b == B::Powi {
                    x.powi(sext(y, c.args[1].0.bits()) as i32)
                } else {
                    x.powf(f64::from_bits(y as u64))
                };
                V::c(r.to_bits() as u128)
            }
            B::VecReduce => {
                let n = &self.m.funcs[f].name;
                let op = if n.contains("reduce.or") {
                    Op::Or
                } else if n.contains("reduce.and") {
                    Op::And
                } else if n.contains("reduce.add") {
                    Op::Add
                } else if n.contains("reduce.xor") {
                    Op::Xor
                } else {
                    return Err(End::Error(format!("call to {n}")));
                };
                let V::A(v) = self.opd(fr, &c.args[0].1) else { panic!() };
                let w = w0();
                let mut r: Option<S> = None;
                for l in v.iter() {
                    let V::S(s) = l else { panic!() };
                    r = Some(match r {
                        None => *s,
                        Some(x) => self.cx.bin(op, w, x, *s),
                    });
                }
                V::S(r.unwrap())
            }
            B::None => unreachable!(),
        })
    }

    fn soverflow(&mut self, op: Op, w: u32, x: S, y: S) -> (S, S) {
        let r = self.cx.bin(op, w, x, y);
        let (xx, yy) = (self.cx.sext(x, w, w + 1), self.cx.sext(y, w, w + 1));
        let rr = self.cx.bin(op, w + 1, xx, yy);
        let re = self.cx.sext(r, w, w + 1);
        let e = self.cx.bin(Op::Eq, w + 1, rr, re);
        (r, self.cx.not1(e))
    }

    /// The size to allocate. A symbolic size is rounded up to one of a few classes (one path per
    /// class) rather than fixed to each of its values: an access between the real and the rounded
    /// size goes unnoticed, which safe Rust rules out by its own bounds checks.
    fn alloc_size(&mut self, st: &mut State, n: S) -> R<u64> {
        let n = self.peval(st, n);
        match n {
            S::C(k) => Ok(k as u64),
            S::X(e) => {
                let v = self.eval(st, e);
                for t in [32u128, 1 << 12, 1 << 16, 1 << 24] {
                    if v <= t {
                        let c = self.cx.bin(Op::Ule, 64, n, S::C(t));
                        self.commit(st, c)?;
                        return Ok(t as u64);
                    }
                }
                Ok(self.concretize(st, 64, n)? as u64)
            }
        }
    }

    fn location(&mut self, st: &State, l: u128) -> String {
        let r = (|| -> R<String> {
            let S::C(p) = self.load_n(st, l, 8)? else { return Ok("?".into()) };
            let S::C(n) = self.load_n(st, l + 8, 8)? else { return Ok("?".into()) };
            let S::C(line) = self.load_n(st, l + 16, 4)? else { return Ok("?".into()) };
            let S::C(col) = self.load_n(st, l + 20, 4)? else { return Ok("?".into()) };
            let f = self.str_at(st, p, n as u64)?;
            Ok(format!("{f}:{line}:{col}"))
        })();
        r.unwrap_or_else(|_| "?".into())
    }

    pub fn collect_cov(&mut self) {
        for d in &self.m.funcs {
            if let Some(p) = d.parsed.borrow().as_ref() {
                let mut any = false;
                for b in &p.blocks {
                    for i in &b.ins {
                        if i.seen.get() {
                            any = true;
                            crate::dbg::cover(self.m, i.dbg, &mut self.res.lines, &mut self.res.funcs);
                        }
                    }
                }
                if any {
                    crate::dbg::cover_fn(self.m, p.dbg, &mut self.res.funcs);
                }
            }
        }
        for (s, n) in &self.sites {
            let f = self.m.func(s.0);
            let l = format!("{} {}", crate::dbg::short(&f.name), crate::dbg::loc(self.m, f.blocks[s.1].ins[s.2].dbg));
            *self.res.fork_at.entry(l).or_insert(0) += n;
        }
        self.res.queries = self.z.queries;
        self.res.sat = self.z.sat;
        self.res.unsat = self.z.unsat;
        self.res.solver_time = self.z.time;
        self.res.slowest = self.z.slowest;
    }
}

pub fn since(t: Instant) -> f64 {
    t.elapsed().as_secs_f64()
}
