//! The symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

pub enum Stop {
    /// engine cannot go on (unsupported construct ...)
    Err(String),
    /// the code under test did something forbidden
    Viol(String, String),
    /// path is over
    End,
    /// path condition is unsatisfiable (assume)
    Infeasible,
}
pub type X<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Err(s.into()))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Run,
    Sleep(u64),
    Futex(u64, Option<u64>),
    Join(usize),
    Done,
}

#[derive(Clone)]
pub struct Frame {
    pub body: &'static Body,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub stack: Rc<Obj>,
}
#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub status: Status,
    pub woken: u8, // 0 no, 1 woken, 2 timed out
    pub tls: BTreeMap<u32, u64>,
    pub keys: BTreeMap<u64, u64>,
    pub errno: u64,
}
#[derive(Clone)]
pub struct State {
    pub mem: Table,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub pc: Vec<E>,
    pub model: Rc<Model>,
    pub nd: Vec<(E, u32)>,
    pub obs: Vec<Val>,
    pub base_s: Val,
    pub base_n: Val,
    pub base_at: u64,
    /// what the clock shows the next time it is read, once
    pub stamp: Option<(Val, Val)>,
    pub elapsed: u64,
    pub steps: u64,
    /// steps since the last switch to another thread
    pub slice: u64,
    pub next_key: u64,
    pub preempt: u32,
    /// preemptions taken: atomic operation number (since sx_preempt) << 8 | thread
    pub sched: Vec<u64>,
    pub atomics: u64,
    pub sharded: bool,
    pub calls: Vec<(u32, Val)>,
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub nd: Vec<(u32, u128)>,
    pub obs: Vec<u64>,
    pub sched: Vec<u64>,
    pub trace: Vec<String>,
    pub key: String,
}

pub struct PathSample {
    pub nd: Vec<(u32, u128)>,
    pub obs: Vec<u64>,
    pub sched: Vec<u64>,
}

pub struct Opts {
    pub max_paths: u64,
    pub max_steps: u64,
    pub timeout_s: f64,
    pub max_conc: u32,
    pub samples: usize,
    pub trace: u32,
    pub max_viol: usize,
    pub verbose: bool,
    /// fixed input values and preemptions: re-executes one path
    pub replay: Option<(Vec<u64>, Vec<u64>)>,
    /// (k, n): only paths whose first `sx_concretize` value is k modulo n
    pub shard: Option<(u64, u64)>,
}

pub struct Engine {
    pub m: Module,
    pub ctx: Ctx,
    pub solver: Solver,
    pub gcache: Vec<Option<Rc<Obj>>>,
    pub work: Vec<State>,
    pub opts: Opts,
    pub viols: Vec<Violation>,
    pub viol_keys: BTreeSet<String>,
    pub covers: BTreeMap<u64, u64>,
    pub samples: Vec<PathSample>,
    pub paths: u64,
    pub forks: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub inconclusive: Vec<String>,
    pub errors: Vec<String>,
    pub asserts: u64,
    pub assert_q: u64,
    pub havocs: u64,
    pub started: Instant,
    pub ndvars: HashMap<(usize, u32), E>,
    pub seen_dbg: Vec<u64>,
    pub seen_fn: BTreeSet<u32>,
    pub max_threads: usize,
    pub limit_hit: Option<String>,
    pub max_path_steps: u64,
    pub fresh: u64,
    pub switches: u64,
}

const STACK_BIT: u64 = 1 << 60;

fn ext_table() -> Vec<(&'static str, u16)> {
    EXTS.iter().enumerate().map(|(i, n)| (*n, i as u16 + 1)).collect()
}
pub const EXTS: &[&str] = &[
    "sx_nd", "sx_assume", "sx_assert", "sx_cover", "sx_observe", "sx_set_now", "sx_stamp", "sx_preempt", "sx_advance",
    "sx_log", "sx_concretize", "sx_reserved1", "sx_reserved2",
    "bcmp", "memcmp", "strlen", "__errno_location", "syscall", "write", "writev", "free", "malloc", "calloc",
    "realloc", "posix_memalign", "getenv", "abort", "clock_gettime", "clock_nanosleep", "nanosleep", "sched_yield",
    "sysconf", "getauxval", "dlsym", "gettid", "__cxa_thread_atexit_impl", "pthread_key_create",
    "pthread_key_delete", "pthread_setspecific", "pthread_getspecific", "pthread_attr_init",
    "pthread_attr_setstacksize", "pthread_attr_destroy", "pthread_create", "pthread_self", "pthread_setname_np",
    "pthread_join", "pthread_detach", "pthread_getattr_np", "pthread_attr_getguardsize", "pthread_attr_getstack",
    "sigaltstack", "mprotect", "mmap64", "munmap", "pause", "memcpy", "memmove", "memset", "poll", "signal",
    "sigaction", "exp", "getcwd", "_Unwind_Backtrace", "getrandom", "open64", "open", "close", "sched_getaffinity",
    "exp2", "exp10", "expm1", "log", "log2", "log10", "log1p", "sin", "cos", "tan", "asin", "acos", "atan", "sinh",
    "cosh", "tanh", "asinh", "acosh", "atanh", "cbrt", "pow", "atan2", "hypot", "fmod", "fdim", "fma",
];

pub fn uval(v: &Val) -> Option<u128> {
    match v {
        Val::I(x) => Some(*x as u128),
        Val::W(x) => Some(**x),
        _ => None,
    }
}

impl Engine {
    pub fn new(m: Module, opts: Opts, solver: Solver) -> Engine {
        let n = m.globals.len();
        let mut e = Engine {
            m,
            ctx: Ctx::new(),
            solver,
            gcache: vec![None; n],
            work: Vec::new(),
            opts,
            viols: Vec::new(),
            viol_keys: BTreeSet::new(),
            covers: BTreeMap::new(),
            samples: Vec::new(),
            paths: 0,
            forks: 0,
            infeasible: 0,
            steps: 0,
            inconclusive: Vec::new(),
            errors: Vec::new(),
            asserts: 0,
            assert_q: 0,
            havocs: 0,
            started: Instant::now(),
            ndvars: HashMap::new(),
            seen_dbg: Vec::new(),
            seen_fn: BTreeSet::new(),
            max_threads: 0,
            limit_hit: None,
            max_path_steps: 0,
            fresh: 0,
            switches: 0,
        };
        let t: HashMap<&str, u16> = ext_table().into_iter().collect();
        for f in e.m.funcs.iter_mut() {
            if f.is_decl {
                if let Some(k) = t.get(f.name.as_str()) {
                    f.ext = *k;
                } else if f.name.starts_with("llvm.") {
                    f.ext = 10000;
                } else {
                    f.ext = 20000;
                }
            } else if f.name.contains("rust_begin_unwind")
                || f.name.contains("rust_panic_with_hook")
                || f.name.contains("rust_foreign_exception")
            {
                f.ext = 30000;
            } else if f.name.contains("thread9spawnhook") || f.name.contains("spawnhook15run_spawn_hooks") {
                f.ext = 0;
            }
        }
        if !e.m.fidx.contains_key("getrandom") {
            e.m.fidx.insert("getrandom", e.m.funcs.len() as u32);
            e.m.funcs.push(Func {
                name: "getrandom".into(),
                def: None,
                body: None,
                ext: t["getrandom"],
                is_decl: true,
            });
        }
        let mx = e.m.meta.keys().max().copied().unwrap_or(0) as usize;
        e.seen_dbg = vec![0; mx / 64 + 1];
        e
    }

    // ---- values ---------------------------------------------------------------------------
    pub fn to_e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::I(x) => self.ctx.konst(*x as u128, w),
            Val::W(x) => self.ctx.konst(**x, w),
            Val::S(e) => {
                if self.ctx.is_fp(*e) {
                    self.ctx.fp_bits(*e)
                } else {
                    *e
                }
            }
            Val::A(_) => panic!("aggregate as expr"),
        }
    }
    pub fn to_f(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::I(x) => self.ctx.fp_const(*x as u128, w),
            Val::S(e) => {
                if self.ctx.is_fp(*e) {
                    *e
                } else {
                    self.ctx.to_fp(*e)
                }
            }
            _ => panic!("to_f"),
        }
    }
    pub fn norm(&mut self, e: E) -> Val {
        if let Some(k) = self.ctx.cv(e) {
            return Val::from_u128(k, self.ctx.w(e));
        }
        if let Some(k) = self.ctx.fcv(e) {
            return Val::I(k as u64);
        }
        Val::S(e)
    }
    fn eval_model(&self, st: &State, e: E) -> u128 {
        let mut memo = HashMap::new();
        self.ctx.eval(e, &st.model, &mut memo)
    }
    fn overlay(m: &Model, a: &[(usize, u128)]) -> Rc<Model> {
        let mut m = m.clone();
        for (i, v) in a {
            if m.vals.len() <= *i {
                m.vals.resize(*i + 1, 0);
            }
            m.vals[*i] = *v;
        }
        Rc::new(m)
    }

    // ---- decisions ------------------------------------------------------------------------
    pub fn decide(&mut self, st: &mut State, c: E) -> X<bool> {
        if let Some(k) = self.ctx.cv(c) {
            return Ok(k == 1);
        }
        let v = self.eval_model(st, c) == 1;
        let nc = self.ctx.not(c);
        let (yes, no) = if v { (c, nc) } else { (nc, c) };
        if st.pc.contains(&yes) {
            return Ok(v);
        }
        match self.solver.check(&self.ctx, &st.pc, no).map_err(Stop::Err)? {
            Ans::Unsat => return Ok(v),
            Ans::Sat(m) => {
                let mut o = st.clone();
                o.model = Self::overlay(&st.model, &m);
                o.pc.push(no);
                self.forks += 1;
                self.work.push(o);
            }
            Ans::Unknown(s) => {
                let w = format!("branch undecided: {} at {}", s, self.where_(st));
                self.inconclusive.push(w);
            }
        }
        st.pc.push(yes);
        Ok(v)
    }
    pub fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> X<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::S(_) => {
                let e = self.to_e(v, w);
                let x = self.eval_model(st, e);
                let k = self.ctx.konst(x, w);
                let c = self.ctx.eq(e, k);
                // the model satisfies c, so decide() keeps it true for this state
                self.decide(st, c)?;
                Ok(x as u64)
            }
            _ => err("concretize"),
        }
    }
    pub fn truth(&mut self, st: &mut State, v: &Val) -> X<bool> {
        match v {
            Val::I(x) => Ok(*x & 1 == 1),
            Val::S(e) => {
                let e = *e;
                self.decide(st, e)
            }
            _ => err("truth"),
        }
    }
    fn viol<T>(&self, kind: &str, msg: impl Into<String>) -> X<T> {
        Err(Stop::Viol(kind.into(), msg.into()))
    }

    // ---- memory ---------------------------------------------------------------------------
    fn global_obj(&mut self, i: usize) -> X<Rc<Obj>> {
        if let Some(o) = &self.gcache[i] {
            return Ok(o.clone());
        }
        let (t, v) = self.m.global_init(i as u32).map_err(|e| {
            Stop::Err(format!("global {}: {}", self.m.globals[i].name, e))
        })?;
        let mut o = Obj::new(t.size() as usize);
        o.init(0, &t, &v);
        let o = Rc::new(o);
        self.gcache[i] = Some(o.clone());
        Ok(o)
    }
    fn oob<T>(&self, addr: u64, n: usize, what: &str) -> X<T> {
        self.viol("memory", format!("{} of {} bytes at {:#x}", what, n, addr))
    }
    /// immutable access to the object holding [addr, addr+n)
    fn with<'a>(&'a mut self, st: &'a State, addr: u64, n: usize) -> X<(&'a Obj, usize, &'a mut Ctx)> {
        let off = (addr & ((1 << OBJ_SHIFT) - 1)) as usize;
        if addr & STACK_BIT != 0 {
            let tid = ((addr >> 48) & 0xff) as usize;
            let dep = ((addr >> OBJ_SHIFT) & 0xffffff) as usize;
            if let Some(f) = st.threads.get(tid).and_then(|t| t.frames.get(dep)) {
                if off + n <= f.stack.data.len() {
                    return Ok((&f.stack, off, &mut self.ctx));
                }
            }
            return self.oob(addr, n, "bad stack access");
        }
        if addr < OBJ_BASE {
            return self.oob(addr, n, "access through an invalid pointer");
        }
        let idx = ((addr - OBJ_BASE) >> OBJ_SHIFT) as usize;
        if st.mem.get(idx).is_none() {
            if idx < self.gcache.len() {
                self.global_obj(idx)?;
                let o = self.gcache[idx].as_ref().unwrap();
                if off + n > o.data.len() {
                    return self.oob(addr, n, "out of bounds access to a global");
                }
                return Ok((o, off, &mut self.ctx));
            }
            return self.oob(addr, n, "use after free / wild access");
        }
        let o = st.mem.get(idx).unwrap();
        if off + n > o.data.len() {
            return self.oob(addr, n, "out of bounds access");
        }
        Ok((o, off, &mut self.ctx))
    }
    fn with_mut<'a>(&mut self, st: &'a mut State, addr: u64, n: usize) -> X<(&'a mut Obj, usize)> {
        let off = (addr & ((1 << OBJ_SHIFT) - 1)) as usize;
        if addr & STACK_BIT != 0 {
            let tid = ((addr >> 48) & 0xff) as usize;
            let dep = ((addr >> OBJ_SHIFT) & 0xffffff) as usize;
            if let Some(f) = st.threads.get_mut(tid).and_then(|t| t.frames.get_mut(dep)) {
                if off + n <= f.stack.data.len() {
                    return Ok((Rc::make_mut(&mut f.stack), off));
                }
            }
            return self.oob(addr, n, "bad stack write");
        }
        if addr < OBJ_BASE {
            return self.oob(addr, n, "write through an invalid pointer");
        }
        let idx = ((addr - OBJ_BASE) >> OBJ_SHIFT) as usize;
        if st.mem.get(idx).is_none() {
            if idx < self.gcache.len() {
                if self.m.globals[idx].constant {
                    return self.oob(addr, n, "write to a constant");
                }
                let o = self.global_obj(idx)?;
                st.mem.set(idx, Some(o));
            } else {
                return self.oob(addr, n, "use after free / wild write");
            }
        }
        let o = st.mem.get_mut(idx).unwrap();
        if off + n > o.data.len() {
            return self.oob(addr, n, "out of bounds write");
        }
        Ok((o, off))
    }
    pub fn load(&mut self, st: &State, addr: u64, t: &Ty) -> X<Val> {
        match t {
            Ty::Struct(..) | Ty::Arr(..) => {
                let mut v = Vec::new();
                for i in 0..t.count() {
                    let e = t.elem(i);
                    v.push(self.load(st, addr + t.field_off(i), &e)?);
                }
                return Ok(Val::A(Rc::new(v)));
            }
            Ty::Vec(k, e) => {
                if e.bits() % 8 == 0 {
                    let mut v = Vec::new();
                    for i in 0..*k as u64 {
                        v.push(self.load(st, addr + i * e.store_size(), e)?);
                    }
                    return Ok(Val::A(Rc::new(v)));
                }
                let n = t.store_size() as usize;
                let (o, off, _) = self.with(st, addr, n)?;
                if o.has_sym(off, n) || e.bits() != 1 {
                    return err("symbolic bit vector load");
                }
                let x = o.get_u64(off, n);
                return Ok(Val::A(Rc::new((0..*k).map(|i| Val::I((x >> i) & 1)).collect())));
            }
            _ => {}
        }
        let n = t.store_size() as usize;
        let w = t.bits();
        let (o, off, ctx) = self.with(st, addr, n)?;
        if !o.has_sym(off, n) {
            return Ok(if n <= 8 {
                let x = o.get_u64(off, n);
                Val::I(if w < 64 { x & ((1 << w) - 1) } else { x })
            } else {
                Val::from_u128(o.get_u128(off, n), w)
            });
        }
        let mut e = o.get_e(ctx, off, n);
        if w < 8 * n as u32 {
            e = self.ctx.extract(e, w - 1, 0);
        }
        if t.is_float() {
            e = self.ctx.to_fp(e);
        }
        Ok(self.norm(e))
    }
    pub fn store(&mut self, st: &mut State, addr: u64, t: &Ty, v: &Val) -> X<()> {
        match (t, v) {
            (Ty::Struct(..), Val::A(a)) | (Ty::Arr(..), Val::A(a)) => {
                for (i, x) in a.iter().enumerate() {
                    let e = t.elem(i);
                    self.store(st, addr + t.field_off(i), &e, x)?;
                }
                return Ok(());
            }
            (Ty::Vec(_, e), Val::A(a)) => {
                if e.bits() % 8 == 0 {
                    for (i, x) in a.iter().enumerate() {
                        self.store(st, addr + i as u64 * e.store_size(), e, x)?;
                    }
                    return Ok(());
                }
                let b = self.bits_of(t, v)?;
                let x = uval(&self.norm(b)).ok_or(Stop::Err("sym bitvec store".into()))?;
                let n = t.store_size() as usize;
                let (o, off) = self.with_mut(st, addr, n)?;
                o.put(off, &x.to_le_bytes()[..n]);
                return Ok(());
            }
            _ => {}
        }
        let n = t.store_size() as usize;
        match v {
            Val::I(x) => {
                let (o, off) = self.with_mut(st, addr, n)?;
                o.put(off, &x.to_le_bytes()[..n]);
            }
            Val::W(x) => {
                let (o, off) = self.with_mut(st, addr, n)?;
                o.put(off, &x.to_le_bytes()[..n]);
            }
            Val::S(_) => {
                let w = t.bits();
                let mut e = self.to_e(v, w);
                if w < 8 * n as u32 {
                    e = self.ctx.zext(e, 8 * n as u32);
                }
                let (o, off) = self.with_mut(st, addr, n)?;
                o.put_e(off, n, e);
            }
            _ => return err("store aggregate"),
        }
        Ok(())
    }
    /// load at a possibly symbolic address
    fn load_v(&mut self, st: &mut State, p: &Val, t: &Ty) -> X<Val> {
        let e = match p {
            Val::I(a) => return self.load(st, *a, t),
            Val::S(e) => *e,
            _ => return err("ptr"),
        };
        let x = self.eval_model(st, e) as u64;
        let n = t.store_size();
        let base = x & !((1u64 << OBJ_SHIFT) - 1);
        let size = {
            let (o, _, _) = self.with(st, x, n as usize)?;
            o.data.len() as u64
        };
        if size <= 512 && !t.is_agg() && size >= n {
            let lo = self.ctx.konst(base as u128, 64);
            let hi = self.ctx.konst((base + size - n) as u128, 64);
            let c1 = self.ctx.bin(Op::Ule, lo, e);
            let c2 = self.ctx.bin(Op::Ule, e, hi);
            let inb = self.ctx.and1(c1, c2);
            if self.decide(st, inb)? {
                // which offsets are possible at all
                let w = t.bits();
                let mut r: Option<E> = None;
                let mut off = 0;
                while off + n <= size {
                    let v = self.load(st, base + off, t)?;
                    let ve = self.to_e(&v, w);
                    r = Some(match r {
                        None => ve,
                        Some(r) => {
                            let k = self.ctx.konst((base + off) as u128, 64);
                            let c = self.ctx.eq(e, k);
                            self.ctx.ite(c, ve, r)
                        }
                    });
                    off += 1;
                }
                let mut r = r.unwrap();
                if t.is_float() {
                    r = self.ctx.to_fp(r);
                }
                return Ok(self.norm(r));
            }
            return err("symbolic address inconsistent");
        }
        let a = self.concretize(st, p, 64)?;
        self.load(st, a, t)
    }
    pub fn copy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (bytes, sym) = {
            let (o, off, _) = self.with(st, s, n)?;
            let b = o.data[off..off + n].to_vec();
            let sym: Option<Vec<(u32, (E, u8))>> = if o.has_sym(off, n) {
                Some(
                    o.sym
                        .as_ref()
                        .unwrap()
                        .range(off as u32..(off + n) as u32)
                        .map(|(k, v)| (*k - off as u32, *v))
                        .collect(),
                )
            } else {
                None
            };
            (b, sym)
        };
        let (o, off) = self.with_mut(st, d, n)?;
        o.put(off, &bytes);
        if let Some(s) = sym {
            let m = o.sym.get_or_insert_with(Default::default);
            for (k, v) in s {
                m.insert(k + off as u32, v);
            }
        }
        Ok(())
    }
    fn bits_of(&mut self, t: &Ty, v: &Val) -> X<E> {
        match (t, v) {
            (Ty::Vec(_, e), Val::A(a)) => {
                let ew = e.bits();
                let mut r: Option<E> = None;
                for x in a.iter() {
                    let xe = self.to_e(x, ew);
                    r = Some(match r {
                        None => xe,
                        Some(r) => self.ctx.concat(xe, r),
                    });
                }
                r.ok_or(Stop::Err("empty vec".into()))
            }
            (_, Val::A(_)) => err("bits of aggregate"),
            _ => Ok(self.to_e(v, t.bits())),
        }
    }
    fn from_bits(&mut self, t: &Ty, e: E) -> Val {
        match t {
            Ty::Vec(n, et) => {
                let ew = et.bits();
                let mut v = Vec::new();
                for i in 0..*n {
                    let x = self.ctx.extract(e, (i + 1) * ew - 1, i * ew);
                    let x = if et.is_float() { self.ctx.to_fp(x) } else { x };
                    v.push(self.norm(x));
                }
                Val::A(Rc::new(v))
            }
            t if t.is_float() => {
                let x = self.ctx.to_fp(e);
                self.norm(x)
            }
            _ => self.norm(e),
        }
    }

    // ---- diagnostics ----------------------------------------------------------------------
    pub fn where_(&self, st: &State) -> String {
        self.backtrace(st, 1).pop().unwrap_or_default()
    }
    pub fn backtrace(&self, st: &State, max: usize) -> Vec<String> {
        let mut v = Vec::new();
        if let Some(t) = st.threads.get(st.cur) {
            for f in t.frames.iter().rev() {
                let d = f.body.blocks[f.bb as usize]
                    .insts
                    .get(f.ip as usize)
                    .map(|x| x.1)
                    .unwrap_or(0);
                let l = self.m.locs(d);
                if l.is_empty() {
                    v.push(self.m.funcs[f.body.func as usize].name.clone());
                }
                for (n, file, line) in l {
                    v.push(format!("{} {}:{}", demangle(&n), file, line));
                }
                if v.len() >= max {
                    break;
                }
            }
        }
        v
    }
    fn nd_model(&self, st: &State) -> Vec<(u32, u128)> {
        let mut memo = HashMap::new();
        st.nd
            .iter()
            .map(|(e, w)| (*w, self.ctx.eval(*e, &st.model, &mut memo)))
            .collect()
    }
    fn obs_model(&mut self, st: &State) -> Vec<u64> {
        let mut memo = HashMap::new();
        let mut r = Vec::new();
        for v in &st.obs {
            let e = self.to_e(v, 64);
            r.push(self.ctx.eval(e, &st.model, &mut memo) as u64);
        }
        r
    }
    pub fn report(&mut self, st: &State, kind: &str, msg: &str) {
        let tr = self.backtrace(st, 60);
        // one report per place
        let place = tr
            .iter()
            .find(|l| l.contains("/repo/src") || l.contains("harness/src") || l.contains("props/"))
            .cloned()
            .unwrap_or_default();
        let key = format!("{}|{}|{}", kind, msg, place);
        if !self.viol_keys.insert(key.clone()) {
            return;
        }
        let nd = self.nd_model(st);
        let obs = self.obs_model(st);
        self.viols.push(Violation {
            kind: kind.into(),
            msg: msg.into(),
            nd,
            obs,
            sched: st.sched.clone(),
            trace: tr,
            key,
        });
    }

    // ---- running --------------------------------------------------------------------------
    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let f = *self.m.fidx.get(entry).ok_or(format!("no harness {}", entry))?;
        let body = self.m.body(f)?;
        let mut st = State {
            mem: Table::new(self.gcache.len()),
            threads: Vec::new(),
            cur: 0,
            pc: Vec::new(),
            model: Rc::new(Model::default()),
            nd: Vec::new(),
            obs: Vec::new(),
            base_s: Val::I(900),
            base_n: Val::I(0),
            base_at: 0,
            stamp: None,
            elapsed: 0,
            steps: 0,
            slice: 0,
            next_key: 1,
            preempt: 0,
            sched: Vec::new(),
            atomics: 0,
            sharded: false,
            calls: Vec::new(),
        };
        st.threads.push(Thread {
            frames: vec![],
            status: Status::Run,
            woken: 0,
            tls: BTreeMap::new(),
            keys: BTreeMap::new(),
            errno: 0,
        });
        self.push_frame(&mut st, 0, body, vec![]);
        self.seen_fn.insert(f);
        self.work.push(st);
        Ok(())
    }
    fn push_frame(&mut self, st: &mut State, tid: usize, body: &'static Body, args: Vec<Val>) {
        let mut regs = vec![Val::I(0); body.nregs as usize];
        for (p, a) in body.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        st.threads[tid].frames.push(Frame {
            body,
            bb: 0,
            ip: 0,
            regs,
            stack: Rc::new(Obj::new(body.stack_size as usize)),
        });
    }
    pub fn run(&mut self) {
        self.started = Instant::now();
        while let Some(mut st) = self.work.pop() {
            if self.paths + self.infeasible >= self.opts.max_paths {
                self.limit_hit = Some(format!("path limit {}", self.opts.max_paths));
                break;
            }
            let r = self.run_state(&mut st);
            self.max_path_steps = self.max_path_steps.max(st.steps);
            match r {
                Ok(()) | Err(Stop::End) => {
                    self.paths += 1;
                    self.sample(&st);
                }
                Err(Stop::Infeasible) => self.infeasible += 1,
                Err(Stop::Viol(k, m)) => {
                    self.paths += 1;
                    self.report(&st, &k, &m);
                    if self.viols.len() >= self.opts.max_viol {
                        self.limit_hit = Some("violation limit".into());
                        break;
                    }
                }
                Err(Stop::Err(m)) => {
                    self.paths += 1;
                    let bt = self.backtrace(&st, 14).join(" <- ");
                    self.errors.push(format!("{} at {}", m, bt));
                    if self.errors.len() >= 5 {
                        self.limit_hit = Some("errors".into());
                        break;
                    }
                }
            }
            if self.limit_hit.is_some() {
                break;
            }
        }
    }
    fn sample(&mut self, st: &State) {
        // keep a spread of paths: exponential thinning
        let n = self.opts.samples;
        if n == 0 {
            return;
        }
        let stride = {
            let mut s = 1u64;
            while self.paths / s > n as u64 {
                s *= 2;
            }
            s
        };
        if self.paths % stride == 0 || self.samples.len() < 2 {
            let nd = self.nd_model(st);
            let obs = self.obs_model(st);
            if self.samples.len() >= n {
                let k = (self.paths / stride) as usize % n;
                self.samples.remove(k.min(n - 1));
            }
            self.samples.push(PathSample {
                nd,
                obs,
                sched: st.sched.clone(),
            });
        }
    }

    fn run_state(&mut self, st: &mut State) -> X<()> {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick >= 20000 {
                tick = 0;
                if self.started.elapsed().as_secs_f64() > self.opts.timeout_s {
                    self.limit_hit = Some(format!("time limit {} s", self.opts.timeout_s));
                    return Err(Stop::End);
                }
            }
            if st.steps > self.opts.max_steps {
                // run.py tells a loop without end from a long path by running it natively
                return self.viol("hang", format!("no end after {} steps", self.opts.max_steps));
            }
            self.step(st)?;
        }
    }

    fn get(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::R(r) => st.threads[st.cur].frames.last().unwrap().regs[*r as usize].clone(),
            Opd::C(v) => v.clone(),
        }
    }
    fn set(&mut self, st: &mut State, d: u32, v: Val) {
        let f = st.threads[st.cur].frames.last_mut().unwrap();
        f.regs[d as usize] = v;
        f.ip += 1;
    }
    fn adv(&mut self, st: &mut State) {
        st.threads[st.cur].frames.last_mut().unwrap().ip += 1;
    }
    fn jump(&mut self, st: &mut State, bb: u32) {
        let f = st.threads[st.cur].frames.last_mut().unwrap();
        let body = f.body;
        let b = &body.blocks[bb as usize];
        if !b.phis.is_empty() {
            let from = f.bb;
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                for (p, o) in inc {
                    if *p == from {
                        let v = match o {
                            Opd::R(r) => f.regs[*r as usize].clone(),
                            Opd::C(v) => v.clone(),
                        };
                        vals.push((*d, v));
                        break;
                    }
                }
            }
            for (d, v) in vals {
                f.regs[d as usize] = v;
            }
        }
        f.bb = bb;
        f.ip = 0;
    }

    fn bin(&mut self, st: &mut State, op: BinOp, w: u32, a: &Val, b: &Val) -> X<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                let sxx = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
                let r = match op {
                    BinOp::Add => x.wrapping_add(y),
                    BinOp::Sub => x.wrapping_sub(y),
                    BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    BinOp::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    BinOp::AShr => (sxx(x) >> y.min(63)) as u64,
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => {
                        return self.viol("ub", "division by zero");
                    }
                    BinOp::UDiv => x / y,
                    BinOp::URem => x % y,
                    BinOp::SDiv => sxx(x).wrapping_div(sxx(y)) as u64,
                    BinOp::SRem => sxx(x).wrapping_rem(sxx(y)) as u64,
                };
                return Ok(Val::I(r & m));
            }
        }
        let ea = self.to_e(a, w);
        let eb = self.to_e(b, w);
        if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
            let z = self.ctx.konst(0, w);
            let c = self.ctx.eq(eb, z);
            if self.decide(st, c)? {
                return self.viol("ub", "division by zero");
            }
        }
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
        };
        let r = self.ctx.bin(o, ea, eb);
        Ok(self.norm(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => s(x) > s(y),
                Pred::Sge => s(x) >= s(y),
                Pred::Slt => s(x) < s(y),
                Pred::Sle => s(x) <= s(y),
            };
            return Val::I(r as u64);
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let r = match p {
            Pred::Eq => self.ctx.eq(x, y),
            Pred::Ne => {
                let e = self.ctx.eq(x, y);
                self.ctx.not(e)
            }
            Pred::Ugt => self.ctx.bin(Op::Ult, y, x),
            Pred::Uge => self.ctx.bin(Op::Ule, y, x),
            Pred::Ult => self.ctx.bin(Op::Ult, x, y),
            Pred::Ule => self.ctx.bin(Op::Ule, x, y),
            Pred::Sgt => self.ctx.bin(Op::Slt, y, x),
            Pred::Sge => self.ctx.bin(Op::Sle, y, x),
            Pred::Slt => self.ctx.bin(Op::Slt, x, y),
            Pred::Sle => self.ctx.bin(Op::Sle, x, y),
        };
        self.norm(r)
    }
    fn fcmp(&mut self, p: &str, w: u32, a: &Val, b: &Val) -> Val {
        let x = self.to_f(a, w);
        let y = self.to_f(b, w);
        let nx = self.ctx.fun(Op::FIsNan, x, 0);
        let ny = self.ctx.fun(Op::FIsNan, y, 0);
        let un = self.ctx.or1(nx, ny);
        let lt = self.ctx.fbin(Op::FLt, x, y);
        let gt = self.ctx.fbin(Op::FLt, y, x);
        let le = self.ctx.fbin(Op::FLe, x, y);
        let ge = self.ctx.fbin(Op::FLe, y, x);
        let eq = self.ctx.fbin(Op::FEq, x, y);
        let r = match p {
            "false" => self.ctx.konst(0, 1),
            "true" => self.ctx.konst(1, 1),
            "oeq" => eq,
            "ogt" => gt,
            "oge" => ge,
            "olt" => lt,
            "ole" => le,
            "one" => self.ctx.or1(lt, gt),
            "ord" => self.ctx.not(un),
            "uno" => un,
            "ueq" => self.ctx.or1(un, eq),
            "ugt" => self.ctx.not(le),
            "uge" => self.ctx.not(lt),
            "ult" => self.ctx.not(ge),
            "ule" => self.ctx.not(gt),
            _ => self.ctx.not(eq), // une
        };
        self.norm(r)
    }
    fn cast(&mut self, k: CastK, from: &Ty, to: &Ty, v: &Val) -> X<Val> {
        if k == CastK::BitCast {
            if from == to || (!from.is_agg() && !to.is_agg() && !from.is_float() && !to.is_float()) {
                return Ok(v.clone());
            }
            if let (Val::I(_), false, false) = (v, from.is_agg(), to.is_agg()) {
                return Ok(v.clone());
            }
            let b = self.bits_of(from, v)?;
            return Ok(self.from_bits(to, b));
        }
        if let Val::A(a) = v {
            let (fe, te) = (from.elem(0), to.elem(0));
            let mut r = Vec::new();
            for x in a.iter() {
                r.push(self.cast(k, &fe, &te, x)?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        let (fw, tw) = (from.bits(), to.bits());
        if let Val::I(x) = v {
            match k {
                CastK::Trunc => return Ok(Val::from_u128(*x as u128, tw)),
                CastK::ZExt | CastK::PtrToInt | CastK::IntToPtr => return Ok(Val::from_u128(*x as u128, tw)),
                CastK::SExt => return Ok(Val::from_u128(sx(*x as u128, fw) as u128, tw)),
                _ => {}
            }
        }
        let e = match k {
            CastK::Trunc => {
                let e = self.to_e(v, fw);
                self.ctx.extract(e, tw - 1, 0)
            }
            CastK::ZExt | CastK::PtrToInt | CastK::IntToPtr => {
                let e = self.to_e(v, fw);
                if tw < fw {
                    self.ctx.extract(e, tw - 1, 0)
                } else {
                    self.ctx.zext(e, tw)
                }
            }
            CastK::SExt => {
                let e = self.to_e(v, fw);
                self.ctx.sext(e, tw)
            }
            CastK::UiToFp | CastK::SiToFp => {
                let e = self.to_e(v, fw);
                self.ctx.int_to_fp(k == CastK::SiToFp, e, tw)
            }
            CastK::FpToUi | CastK::FpToSi => {
                let e = self.to_f(v, fw);
                self.ctx.fp_to_int(k == CastK::FpToSi, e, tw)
            }
            CastK::FpExt | CastK::FpTrunc => {
                let e = self.to_f(v, fw);
                self.ctx.fp_conv(e, tw)
            }
            CastK::BitCast => unreachable!(),
        };
        Ok(self.norm(e))
    }
    fn select(&mut self, st: &mut State, t: &Ty, c: &Val, a: &Val, b: &Val) -> X<Val> {
        match c {
            Val::I(k) => Ok(if k & 1 == 1 { a.clone() } else { b.clone() }),
            Val::S(ce) => {
                let ce = *ce;
                if matches!(t, Ty::Int(_)) {
                    let w = t.bits();
                    let x = self.to_e(a, w);
                    let y = self.to_e(b, w);
                    let r = self.ctx.ite(ce, x, y);
                    return Ok(self.norm(r));
                }
                if t.is_float() {
                    let w = t.bits();
                    let x = self.to_f(a, w);
                    let y = self.to_f(b, w);
                    let r = self.ctx.fite(ce, x, y);
                    return Ok(self.norm(r));
                }
                let k = self.decide(st, ce)?;
                Ok(if k { a.clone() } else { b.clone() })
            }
            _ => err("select"),
        }
    }

    fn step(&mut self, st: &mut State) -> X<()> {
        let (body, bb, ip) = {
            let f = st.threads[st.cur].frames.last().unwrap();
            (f.body, f.bb, f.ip)
        };
        let (inst, dbg) = &body.blocks[bb as usize].insts[ip as usize];
        st.steps += 1;
        self.steps += 1;
        st.slice += 1;
        if st.slice > 300_000 && st.threads.len() > 1 {
            // a thread that does not wait for anything does not get all of the time
            st.elapsed += 1_000_000;
            self.schedule(st)?;
            return Ok(());
        }
        if *dbg != 0 {
            let d = *dbg as usize;
            if let Some(x) = self.seen_dbg.get_mut(d / 64) {
                *x |= 1 << (d % 64);
            }
        }
        match inst {
            Inst::Alloca(d, off) => {
                let tid = st.cur as u64;
                let dep = st.threads[st.cur].frames.len() as u64 - 1;
                let a = STACK_BIT | (tid << 48) | (dep << OBJ_SHIFT) | *off as u64;
                self.set(st, *d, Val::I(a));
            }
            Inst::Load(d, t, p) => {
                let p = self.get(st, p);
                let v = self.load_v(st, &p, t)?;
                self.set(st, *d, v);
            }
            Inst::Store(t, v, p) => {
                let p = self.get(st, p);
                let v = self.get(st, v);
                let a = self.concretize(st, &p, 64)?;
                self.store(st, a, t, &v)?;
                self.adv(st);
            }
            Inst::Gep(d, base, terms, k) => {
                let b = self.get(st, base);
                if let Val::A(_) = b {
                    return err("vector gep");
                }
                let mut acc: u64 = *k as u64;
                let mut sym: Option<E> = None;
                if let Val::I(x) = b {
                    acc = acc.wrapping_add(x)
                } else {
                    sym = Some(self.to_e(&b, 64));
                }
                for (o, w, s) in terms {
                    let v = self.get(st, o);
                    match v {
                        Val::I(x) => {
                            acc = acc.wrapping_add((sx(x as u128, *w) as i64).wrapping_mul(*s) as u64)
                        }
                        v => {
                            let e = self.to_e(&v, *w);
                            let e = if *w < 64 { self.ctx.sext(e, 64) } else { e };
                            let k = self.ctx.konst(*s as u64 as u128, 64);
                            let e = self.ctx.bin(Op::Mul, e, k);
                            sym = Some(match sym {
                                None => e,
                                Some(x) => self.ctx.bin(Op::Add, x, e),
                            });
                        }
                    }
                }
                let v = match sym {
                    None => Val::I(acc),
                    Some(e) => {
                        let k = self.ctx.konst(acc as u128, 64);
                        let e = self.ctx.bin(Op::Add, e, k);
                        self.norm(e)
                    }
                };
                self.set(st, *d, v);
            }
            Inst::Bin(d, op, w, lanes, a, b) => {
                let a = self.get(st, a);
                let b = self.get(st, b);
                let v = if *lanes > 0 {
                    match (&a, &b) {
                        (Val::A(x), Val::A(y)) => {
                            let mut r = Vec::new();
                            for (p, q) in x.iter().zip(y.iter()) {
                                r.push(self.bin(st, *op, *w, p, q)?);
                            }
                            Val::A(Rc::new(r))
                        }
                        _ => return err("vec bin"),
                    }
                } else {
                    self.bin(st, *op, *w, &a, &b)?
                };
                self.set(st, *d, v);
            }
            Inst::ICmp(d, p, w, lanes, a, b) => {
                let a = self.get(st, a);
                let b = self.get(st, b);
                let v = if *lanes > 0 {
                    match (&a, &b) {
                        (Val::A(x), Val::A(y)) => {
                            let mut r = Vec::new();
                            for (m, n) in x.iter().zip(y.iter()) {
                                r.push(self.icmp(*p, *w, m, n));
                            }
                            Val::A(Rc::new(r))
                        }
                        _ => return err("vec icmp"),
                    }
                } else {
                    self.icmp(*p, *w, &a, &b)
                };
                self.set(st, *d, v);
            }
            Inst::FBin(d, op, w, a, b) => {
                let a = self.get(st, a);
                let b = self.get(st, b);
                let x = self.to_f(&a, *w);
                let y = self.to_f(&b, *w);
                let o = match op {
                    FOp::Add => Op::FAdd,
                    FOp::Sub => Op::FSub,
                    FOp::Mul => Op::FMul,
                    FOp::Div => Op::FDiv,
                    FOp::Rem => Op::FRem,
                };
                let r = self.ctx.fbin(o, x, y);
                let v = self.norm(r);
                self.set(st, *d, v);
            }
            Inst::FNeg(d, w, a) => {
                let a = self.get(st, a);
                let x = self.to_f(&a, *w);
                let r = self.ctx.fun(Op::FNeg, x, 0);
                let v = self.norm(r);
                self.set(st, *d, v);
            }
            Inst::FCmp(d, p, w, a, b) => {
                let a = self.get(st, a);
                let b = self.get(st, b);
                let v = self.fcmp(p, *w, &a, &b);
                self.set(st, *d, v);
            }
            Inst::Cast(d, k, f, t, a) => {
                let a = self.get(st, a);
                let v = self.cast(*k, f, t, &a)?;
                self.set(st, *d, v);
            }
            Inst::Select(d, t, cv, c, a, b) => {
                let c = self.get(st, c);
                let a = self.get(st, a);
                let b = self.get(st, b);
                let v = if *cv {
                    match (&c, &a, &b) {
                        (Val::A(x), Val::A(y), Val::A(z)) => {
                            let et = t.elem(0);
                            let mut r = Vec::new();
                            for i in 0..x.len() {
                                r.push(self.select(st, &et, &x[i], &y[i], &z[i])?);
                            }
                            Val::A(Rc::new(r))
                        }
                        _ => return err("vec select"),
                    }
                } else {
                    self.select(st, t, &c, &a, &b)?
                };
                self.set(st, *d, v);
            }
            Inst::Br(b) => self.jump(st, *b),
            Inst::CondBr(c, a, b) => {
                let c = self.get(st, c);
                let k = self.truth(st, &c)?;
                self.jump(st, if k { *a } else { *b });
            }
            Inst::Switch(w, v, cases, def) => {
                let v = self.get(st, v);
                let tgt = match &v {
                    Val::I(x) => cases
                        .iter()
                        .find(|(k, _)| *k == *x as u128)
                        .map(|c| c.1)
                        .unwrap_or(*def),
                    v => {
                        let e = self.to_e(v, *w);
                        let x = self.eval_model(st, e);
                        let tgt = cases.iter().find(|(k, _)| *k == x).map(|c| c.1).unwrap_or(*def);
                        let mut c = self.ctx.konst(0, 1);
                        if tgt == *def {
                            // none of the other cases
                            for (k, b) in cases {
                                if *b != tgt {
                                    let kk = self.ctx.konst(*k, *w);
                                    let q = self.ctx.eq(e, kk);
                                    c = self.ctx.or1(c, q);
                                }
                            }
                            c = self.ctx.not(c);
                        } else {
                            for (k, b) in cases {
                                if *b == tgt {
                                    let kk = self.ctx.konst(*k, *w);
                                    let q = self.ctx.eq(e, kk);
                                    c = self.ctx.or1(c, q);
                                }
                            }
                        }
                        if !self.decide(st, c)? {
                            return err("switch");
                        }
                        tgt
                    }
                };
                self.jump(st, tgt);
            }
            Inst::Call {
                dst,
                ret,
                callee,
                args,
                normal,
            } => {
                let f = match callee {
                    Callee::Fn(f) => *f,
                    Callee::Ind(o) => {
                        let v = self.get(st, o);
                        let a = self.concretize(st, &v, 64)?;
                        if a < FN_BASE || (a - FN_BASE) % 16 != 0 || (a - FN_BASE) / 16 >= self.m.funcs.len() as u64 {
                            return self.viol("memory", format!("call through a bad pointer {:#x}", a));
                        }
                        ((a - FN_BASE) / 16) as u32
                    }
                    Callee::Asm(s) => {
                        // cpuid and friends: report no features; empty asm: compiler barrier
                        let v = Val::zero(ret);
                        if !s.contains("cpuid") && !s.starts_with('|') {
                            return err(format!("inline asm {}", s));
                        }
                        if let Some(d) = dst {
                            self.set(st, *d, v);
                        } else {
                            self.adv(st);
                        }
                        return Ok(());
                    }
                };
                let ext = self.m.funcs[f as usize].ext;
                if ext == 0 {
                    let b = self.m.body(f).map_err(Stop::Err)?;
                    let a: Vec<Val> = args.iter().map(|(_, o)| self.get(st, o)).collect();
                    if st.threads[st.cur].frames.len() > 2000 {
                        return err("recursion depth");
                    }
                    self.seen_fn.insert(f);
                    let t = st.cur;
                    self.push_frame(st, t, b, a);
                    return Ok(());
                }
                if ext == 30000 {
                    let msg = self.panic_msg(st);
                    return self.viol("panic", msg);
                }
                let a: Vec<Val> = args.iter().map(|(_, o)| self.get(st, o)).collect();
                let r = if ext == 10000 {
                    let name = self.m.funcs[f as usize].name.clone();
                    Some(self.intrinsic(st, &name, &a, args, ret)?)
                } else if ext == 20000 {
                    return err(format!("external function {}", self.m.funcs[f as usize].name));
                } else {
                    self.external(st, ext, &a)?
                };
                // None: the thread blocked; the call is executed again later
                if let Some(v) = r {
                    if let Some(d) = dst {
                        st.threads[st.cur].frames.last_mut().unwrap().regs[*d as usize] = v;
                    }
                    match normal {
                        Some(b) => self.jump(st, *b),
                        None => self.adv(st),
                    }
                }
            }
            Inst::Ret(v) => {
                let v = v.as_ref().map(|o| self.get(st, o));
                let cur = st.cur;
                st.threads[cur].frames.pop();
                let fr = match st.threads[cur].frames.last() {
                    None => {
                        if cur == 0 {
                            return Err(Stop::End);
                        }
                        st.threads[cur].status = Status::Done;
                        return self.schedule(st);
                    }
                    Some(f) => f,
                };
                let (ci, _) = &fr.body.blocks[fr.bb as usize].insts[fr.ip as usize];
                if let Inst::Call { dst, normal, .. } = ci {
                    if let (Some(d), Some(v)) = (dst, v) {
                        st.threads[cur].frames.last_mut().unwrap().regs[*d as usize] = v;
                    }
                    match normal {
                        Some(b) => self.jump(st, *b),
                        None => self.adv(st),
                    }
                } else {
                    return err("return to non-call");
                }
            }
            Inst::Unreachable => return self.viol("ub", "unreachable code reached"),
            Inst::Rmw(d, op, w, p, v) => {
                let p = self.get(st, p);
                let v = self.get(st, v);
                let a = self.concretize(st, &p, 64)?;
                let t = Ty::Int(*w);
                let old = self.load(st, a, &t)?;
                let new = match op {
                    RmwOp::Xchg => v,
                    RmwOp::Add => self.bin(st, BinOp::Add, *w, &old, &v)?,
                    RmwOp::Sub => self.bin(st, BinOp::Sub, *w, &old, &v)?,
                    RmwOp::And => self.bin(st, BinOp::And, *w, &old, &v)?,
                    RmwOp::Or => self.bin(st, BinOp::Or, *w, &old, &v)?,
                    RmwOp::Xor => self.bin(st, BinOp::Xor, *w, &old, &v)?,
                    RmwOp::Nand => return err("nand"),
                    RmwOp::Max | RmwOp::Min | RmwOp::UMax | RmwOp::UMin => {
                        let pr = match op {
                            RmwOp::Max => Pred::Sgt,
                            RmwOp::Min => Pred::Slt,
                            RmwOp::UMax => Pred::Ugt,
                            _ => Pred::Ult,
                        };
                        let c = self.icmp(pr, *w, &old, &v);
                        self.select(st, &t, &c, &old, &v)?
                    }
                };
                self.store(st, a, &t, &new)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg(d, w, p, c, n) => {
                let p = self.get(st, p);
                let c = self.get(st, c);
                let n = self.get(st, n);
                let a = self.concretize(st, &p, 64)?;
                let t = Ty::Int(*w);
                let old = self.load(st, a, &t)?;
                let eq = self.icmp(Pred::Eq, *w, &old, &c);
                let k = self.truth(st, &eq)?;
                if k {
                    self.store(st, a, &t, &n)?;
                }
                self.set(st, *d, Val::A(Rc::new(vec![old, Val::I(k as u64)])));
            }
            Inst::Fence => self.adv(st),
            Inst::Sched => {
                self.adv(st);
                self.maybe_preempt(st);
            }
            Inst::ExtractValue(d, a, ix) => {
                let mut v = self.get(st, a);
                for i in ix {
                    v = match &v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => return err("extractvalue"),
                    };
                }
                self.set(st, *d, v);
            }
            Inst::InsertValue(d, a, v, ix) => {
                let a = self.get(st, a);
                let v = self.get(st, v);
                fn ins(a: &Val, v: Val, ix: &[u32]) -> Val {
                    if ix.is_empty() {
                        return v;
                    }
                    match a {
                        Val::A(x) => {
                            let mut y = (**x).clone();
                            y[ix[0] as usize] = ins(&x[ix[0] as usize], v, &ix[1..]);
                            Val::A(Rc::new(y))
                        }
                        _ => a.clone(),
                    }
                }
                let r = ins(&a, v, ix);
                self.set(st, *d, r);
            }
            Inst::ExtractElt(d, a, i) => {
                let a = self.get(st, a);
                let i = self.get(st, i);
                let i = self.concretize(st, &i, 64)?;
                let v = match &a {
                    Val::A(x) if (i as usize) < x.len() => x[i as usize].clone(),
                    _ => return err("extractelement"),
                };
                self.set(st, *d, v);
            }
            Inst::InsertElt(d, a, v, i) => {
                let a = self.get(st, a);
                let v = self.get(st, v);
                let i = self.get(st, i);
                let i = self.concretize(st, &i, 64)?;
                let r = match &a {
                    Val::A(x) => {
                        let mut y = (**x).clone();
                        y[i as usize] = v;
                        Val::A(Rc::new(y))
                    }
                    _ => return err("insertelement"),
                };
                self.set(st, *d, r);
            }
            Inst::Shuffle(d, a, b, m) => {
                let a = self.get(st, a);
                let b = self.get(st, b);
                let r = match (&a, &b) {
                    (Val::A(x), Val::A(y)) => {
                        let mut z = Vec::new();
                        for k in m {
                            let k = *k as usize;
                            z.push(if k < x.len() { x[k].clone() } else { y[k - x.len()].clone() });
                        }
                        Val::A(Rc::new(z))
                    }
                    _ => return err("shuffle"),
                };
                self.set(st, *d, r);
            }
            Inst::Mov(d, a) => {
                let v = self.get(st, a);
                self.set(st, *d, v);
            }
            Inst::LandingPad | Inst::Resume => return err("unwinding"),
            Inst::Unsupported(s) => return err(format!("unsupported: {}", s)),
        }
        Ok(())
    }

    fn panic_msg(&mut self, st: &State) -> String {
        let bt = self.backtrace(st, 80);
        // first frames outside core/std/alloc
        let mut what = String::from("panic");
        for l in &bt {
            if let Some(i) = l.find("panic_const_") {
                let r = &l[i + 12..];
                let e = r.find(' ').unwrap_or(r.len());
                what = r[..e].to_string();
                break;
            }
            for k in ["unwrap_failed", "expect_failed", "panic_bounds_check", "slice_index", "panic_nounwind", "assert_failed"] {
                if l.contains(k) {
                    what = k.to_string();
                }
            }
        }
        what
    }

    // ---- scheduling -----------------------------------------------------------------------
    /// pick another thread because the current one cannot continue
    pub fn schedule(&mut self, st: &mut State) -> X<()> {
        self.switches += 1;
        st.slice = 0;
        let n = st.threads.len();
        loop {
            for k in 1..=n {
                let t = (st.cur + k) % n;
                let ok = match st.threads[t].status {
                    Status::Run => true,
                    Status::Join(j) => st.threads[j].status == Status::Done,
                    Status::Sleep(w) => w <= st.elapsed,
                    Status::Futex(_, Some(w)) => w <= st.elapsed,
                    _ => false,
                };
                if ok {
                    if let Status::Futex(..) = st.threads[t].status {
                        st.threads[t].woken = 2;
                    }
                    if let Status::Sleep(_) = st.threads[t].status {
                        st.threads[t].woken = 1;
                    }
                    st.threads[t].status = Status::Run;
                    st.cur = t;
                    return Ok(());
                }
            }
            let next = st
                .threads
                .iter()
                .filter_map(|t| match t.status {
                    Status::Sleep(w) | Status::Futex(_, Some(w)) => Some(w),
                    _ => None,
                })
                .min();
            match next {
                Some(w) => st.elapsed = st.elapsed.max(w),
                None => {
                    st.cur = 0;
                    return self.viol("deadlock", "all threads are blocked");
                }
            }
        }
    }
    /// at an atomic operation: branch over scheduling another runnable thread first
    fn maybe_preempt(&mut self, st: &mut State) {
        if st.preempt == 0 || st.threads.len() < 2 {
            return;
        }
        let n = st.threads.len();
        st.atomics += 1;
        if let Some((_, sched)) = &self.opts.replay {
            if let Some(x) = sched.get(st.sched.len()) {
                if x >> 8 == st.atomics && ((x & 255) as usize) < n {
                    st.sched.push(*x);
                    st.preempt -= 1;
                    st.cur = (x & 255) as usize;
                    self.switches += 1;
                }
            }
            return;
        }
        for k in 1..n {
            let t = (st.cur + k) % n;
            if st.threads[t].status == Status::Run {
                let mut o = st.clone();
                o.preempt -= 1;
                o.cur = t;
                o.sched.push(st.atomics << 8 | t as u64);
                self.forks += 1;
                self.switches += 1;
                self.work.push(o);
            }
        }
    }

    pub fn fresh_var(&mut self, w: u32) -> E {
        self.fresh += 1;
        let n = format!("fresh{}", self.fresh);
        self.ctx.var(n, w)
    }
}

pub fn demangle(n: &str) -> String {
    // crude: readable enough for reports
    let n = n.trim_end_matches('"');
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut parts = Vec::new();
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && (b[j] as char).is_ascii_alphanumeric() {
                j += 1
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1
            }
            let k: usize = n[i..j].parse().unwrap_or(0);
            let mut s = j;
            if s < b.len() && b[s] == b'_' {
                s += 1;
            }
            if k > 0 && k < 80 && s + k <= b.len() {
                let w = &n[s..s + k];
                if w.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                    parts.push(w.to_string());
                    i = s + k;
                    continue;
                }
            }
        }
        i += 1;
    }
    if parts.is_empty() {
        n.to_string()
    } else {
        parts.join("::")
    }
}
