//! SMT back end: one incremental z3 process fed with sliced, cached queries; a portfolio of fresh
//! processes for queries the incremental core does not answer in time.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Ans {
    Sat(Vec<(usize, u128)>),
    Unsat,
    Unknown(String),
}

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    defined: HashSet<E>,
    cache: HashMap<Vec<E>, Ans>,
    varsets: HashMap<E, std::rc::Rc<Vec<u32>>>,
    pub queries: u64,
    pub cache_hits: u64,
    pub fallbacks: u64,
    pub solver_s: f64,
    pub max_query_s: f64,
    pub n_sat: u64,
    pub n_unsat: u64,
    pub soft_ms: u64,
    pub hard_s: u64,
    pub dump: Option<String>,
    pub unsat_log: Option<std::fs::File>,
    pub range_proofs: u64,
    ranges: HashMap<Vec<E>, u128>,
    pub xcheck: Option<(u64, u64, u64)>, // (checked, disagreed, unknown)
    /// time spent on it (it ends when that is enough)
    pub xcheck_s: f64,
}

fn spawn() -> std::io::Result<(Child, ChildStdin, BufReader<ChildStdout>)> {
    let mut c = Command::new("z3-new")
        .args(["-in", "-smt2"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()?;
    let i = c.stdin.take().unwrap();
    let o = BufReader::new(c.stdout.take().unwrap());
    Ok((c, i, o))
}

pub fn term(ctx: &Ctx, e: E) -> String {
    let n = ctx.n(e);
    match n.op {
        Op::Const => kstr(n.imm, n.w as u32),
        Op::Var => format!("v{}", n.imm),
        _ => format!("n{}", e),
    }
}
fn kstr(v: u128, w: u32) -> String {
    if w == 1 {
        return if v == 1 { "true".into() } else { "false".into() };
    }
    if w % 4 == 0 {
        format!("#x{:0width$x}", v, width = (w / 4) as usize)
    } else {
        format!("#b{:0width$b}", v, width = w as usize)
    }
}
fn sort(ctx: &Ctx, e: E) -> String {
    let w = ctx.w(e);
    if ctx.is_fp(e) {
        return if w == 64 { "(_ FloatingPoint 11 53)".into() } else { "(_ FloatingPoint 8 24)".into() };
    }
    if w == 1 {
        "Bool".into()
    } else {
        format!("(_ BitVec {})", w)
    }
}
fn fps(w: u32) -> &'static str {
    if w == 64 {
        "11 53"
    } else {
        "8 24"
    }
}
/// SMT-LIB body of a node
fn body(ctx: &Ctx, e: E) -> String {
    let n = ctx.n(e);
    let w = n.w as u32;
    let t = |x: E| term(ctx, x);
    // a bit-vector view (bools become 1-bit vectors)
    let bvt = |x: E| {
        if ctx.w(x) == 1 && !ctx.is_fp(x) {
            format!("(ite {} #b1 #b0)", term(ctx, x))
        } else {
            term(ctx, x)
        }
    };
    let b2 = |op: &str| format!("({} {} {})", op, t(n.a), t(n.b));
    let wa = if n.a != NONE { ctx.w(n.a) } else { 0 };
    match n.op {
        Op::Const | Op::Var => unreachable!(),
        Op::Add | Op::Sub if w == 1 => b2("xor"),
        Op::Mul if w == 1 => b2("and"),
        Op::Add => b2("bvadd"),
        Op::Sub => b2("bvsub"),
        Op::Mul => b2("bvmul"),
        Op::UDiv => b2("bvudiv"),
        Op::SDiv => b2("bvsdiv"),
        Op::URem => b2("bvurem"),
        Op::SRem => b2("bvsrem"),
        Op::And => b2(if w == 1 { "and" } else { "bvand" }),
        Op::Or => b2(if w == 1 { "or" } else { "bvor" }),
        Op::Xor => {
            if w == 1 {
                if ctx.cv(n.b) == Some(1) {
                    format!("(not {})", t(n.a))
                } else {
                    b2("xor")
                }
            } else if ctx.cv(n.b) == Some(mask(w)) {
                format!("(bvnot {})", t(n.a))
            } else {
                b2("bvxor")
            }
        }
        Op::Shl | Op::LShr if w == 1 => format!("(and {} (not {}))", t(n.a), t(n.b)),
        Op::AShr if w == 1 => t(n.a),
        Op::Shl => b2("bvshl"),
        Op::LShr => b2("bvlshr"),
        Op::AShr => b2("bvashr"),
        Op::Concat => format!("(concat {} {})", bvt(n.a), bvt(n.b)),
        Op::Extract => {
            let lo = n.imm as u32;
            let s = format!("((_ extract {} {}) {})", lo + w - 1, lo, t(n.a));
            if w == 1 {
                format!("(= {} #b1)", s)
            } else {
                s
            }
        }
        Op::ZExt => {
            if wa == 1 {
                format!("(ite {} {} {})", t(n.a), kstr(1, w), kstr(0, w))
            } else {
                format!("((_ zero_extend {}) {})", w - wa, t(n.a))
            }
        }
        Op::SExt => {
            if wa == 1 {
                format!("(ite {} {} {})", t(n.a), kstr(mask(w), w), kstr(0, w))
            } else {
                format!("((_ sign_extend {}) {})", w - wa, t(n.a))
            }
        }
        Op::Ite | Op::FIte => format!("(ite {} {} {})", t(n.a), t(n.b), t(n.c)),
        Op::Eq => b2("="),
        Op::Ult if wa == 1 => format!("(and (not {}) {})", t(n.a), t(n.b)),
        Op::Ule if wa == 1 => format!("(or (not {}) {})", t(n.a), t(n.b)),
        Op::Slt if wa == 1 => format!("(and {} (not {}))", t(n.a), t(n.b)),
        Op::Sle if wa == 1 => format!("(or {} (not {}))", t(n.a), t(n.b)),
        Op::Ult => b2("bvult"),
        Op::Ule => b2("bvule"),
        Op::Slt => b2("bvslt"),
        Op::Sle => b2("bvsle"),
        Op::BvToFp => format!("((_ to_fp {}) {})", fps(w), t(n.a)),
        Op::FpToBv => format!("(fp.to_ieee_bv {})", t(n.a)),
        Op::FAdd => format!("(fp.add RNE {} {})", t(n.a), t(n.b)),
        Op::FSub => format!("(fp.sub RNE {} {})", t(n.a), t(n.b)),
        Op::FMul => format!("(fp.mul RNE {} {})", t(n.a), t(n.b)),
        Op::FDiv => format!("(fp.div RNE {} {})", t(n.a), t(n.b)),
        Op::FRem => format!("(fp.rem {} {})", t(n.a), t(n.b)),
        Op::FNeg => format!("(fp.neg {})", t(n.a)),
        Op::FAbs => format!("(fp.abs {})", t(n.a)),
        Op::FSqrt => format!("(fp.sqrt RNE {})", t(n.a)),
        Op::FLt => b2("fp.lt"),
        Op::FLe => b2("fp.leq"),
        Op::FEq => b2("fp.eq"),
        Op::FIsNan => format!("(fp.isNaN {})", t(n.a)),
        Op::SiToFp => format!("((_ to_fp {}) RNE {})", fps(w), bvt(n.a)),
        Op::UiToFp => format!("((_ to_fp_unsigned {}) RNE {})", fps(w), bvt(n.a)),
        Op::FToSi => format!("((_ fp.to_sbv {}) RTZ {})", w, t(n.a)),
        Op::FToUi => format!("((_ fp.to_ubv {}) RTZ {})", w, t(n.a)),
        Op::FpExt | Op::FpTrunc => format!("((_ to_fp {}) RNE {})", fps(w), t(n.a)),
        Op::FRound => {
            let m = match n.imm {
                0 => "RNA",
                1 => "RTZ",
                2 => "RTN",
                3 => "RTP",
                _ => "RNE",
            };
            format!("(fp.roundToIntegral {} {})", m, t(n.a))
        }
    }
}

fn emit(ctx: &Ctx, roots: &[E], defined: &mut HashSet<E>, out: &mut String) {
    let mut st: Vec<(E, bool)> = roots.iter().rev().map(|e| (*e, false)).collect();
    while let Some((e, ready)) = st.pop() {
        if defined.contains(&e) {
            continue;
        }
        let n = ctx.n(e);
        match n.op {
            Op::Const => continue,
            Op::Var => {
                out.push_str(&format!("(declare-const v{} {})\n", n.imm, sort(ctx, e)));
                defined.insert(e);
                continue;
            }
            _ => {}
        }
        if ready {
            out.push_str(&format!("(define-fun n{} () {} {})\n", e, sort(ctx, e), body(ctx, e)));
            defined.insert(e);
        } else {
            st.push((e, true));
            for c in [n.c, n.b, n.a] {
                if c != NONE && !defined.contains(&c) {
                    st.push((c, false));
                }
            }
        }
    }
}

fn parse_val(s: &str) -> Option<u128> {
    let s = s.trim();
    if s == "true" {
        return Some(1);
    }
    if s == "false" {
        return Some(0);
    }
    if let Some(h) = s.strip_prefix("#x") {
        return u128::from_str_radix(h, 16).ok();
    }
    if let Some(h) = s.strip_prefix("#b") {
        return u128::from_str_radix(h, 2).ok();
    }
    if let Some(h) = s.strip_prefix("(_ bv") {
        return h.split(' ').next()?.parse().ok();
    }
    None
}
/// parses "((v1 #x..) (v2 true) ...)"
fn parse_model(s: &str) -> Vec<(usize, u128)> {
    let mut r = Vec::new();
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'(' && b.get(i + 1) == Some(&b'v') {
            let mut j = i + 2;
            while b[j].is_ascii_digit() {
                j += 1
            }
            let id: usize = s[i + 2..j].parse().unwrap_or(0);
            let st = j + 1;
            let mut d = 0i32;
            let mut k = st;
            loop {
                match b[k] {
                    b'(' => d += 1,
                    b')' => {
                        if d == 0 {
                            break;
                        }
                        d -= 1
                    }
                    _ => {}
                }
                k += 1;
            }
            if let Some(v) = parse_val(&s[st..k]) {
                r.push((id, v));
            }
            i = k;
        }
        i += 1;
    }
    r
}

/// the terms of a sum
fn leaves(ctx: &Ctx, e: E, out: &mut Vec<E>) {
    let n = ctx.n(e);
    if n.op == Op::Add && ctx.w(e) > 1 && out.len() < 16 {
        let (a, b) = (n.a, n.b);
        leaves(ctx, a, out);
        leaves(ctx, b, out);
    } else {
        out.push(e)
    }
}

/// does the model satisfy every constraint, according to our own evaluator?
fn valid(ctx: &Ctx, key: &[E], m: &[(usize, u128)]) -> bool {
    let mut md = Model::default();
    for (i, v) in m {
        if md.vals.len() <= *i {
            md.vals.resize(*i + 1, 0);
        }
        md.vals[*i] = *v;
    }
    let mut memo = HashMap::new();
    key.iter().all(|c| ctx.eval(*c, &md, &mut memo) == 1)
}

impl Solver {
    pub fn new(soft_ms: u64, hard_s: u64) -> Result<Solver, String> {
        let (child, inp, out) = spawn().map_err(|e| format!("z3-new: {}", e))?;
        let mut s = Solver {
            child,
            inp,
            out,
            defined: HashSet::new(),
            cache: HashMap::new(),
            varsets: HashMap::new(),
            queries: 0,
            cache_hits: 0,
            fallbacks: 0,
            solver_s: 0.0,
            max_query_s: 0.0,
            n_sat: 0,
            n_unsat: 0,
            soft_ms,
            hard_s,
            dump: None,
            unsat_log: None,
            xcheck: None,
            xcheck_s: 0.0,
            range_proofs: 0,
            ranges: HashMap::new(),
        };
        s.init()?;
        Ok(s)
    }
    fn init(&mut self) -> Result<(), String> {
        self.defined.clear();
        let m = format!(
            "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout {})\n",
            self.soft_ms
        );
        self.inp.write_all(m.as_bytes()).map_err(|e| e.to_string())
    }
    fn restart(&mut self) -> Result<(), String> {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let (c, i, o) = spawn().map_err(|e| e.to_string())?;
        self.child = c;
        self.inp = i;
        self.out = o;
        self.init()
    }
    pub fn vars(&mut self, ctx: &Ctx, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.varsets.get(&e) {
            return v.clone();
        }
        let mut seen = HashSet::new();
        let mut out = Vec::new();
        ctx.vars_of(e, &mut seen, &mut out);
        let mut v: Vec<u32> = out.into_iter().map(|x| x as u32).collect();
        v.sort();
        v.dedup();
        let v = std::rc::Rc::new(v);
        self.varsets.insert(e, v.clone());
        v
    }
    /// constraints of pc that share variables (transitively) with q
    pub fn slice(&mut self, ctx: &Ctx, pc: &[E], q: E) -> Vec<E> {
        let mut vs: HashSet<u32> = self.vars(ctx, q).iter().copied().collect();
        let mut rest: Vec<(E, std::rc::Rc<Vec<u32>>)> =
            pc.iter().map(|c| (*c, self.vars(ctx, *c))).collect();
        let mut out = Vec::new();
        loop {
            let mut changed = false;
            rest.retain(|(c, v)| {
                if v.iter().any(|x| vs.contains(x)) {
                    vs.extend(v.iter().copied());
                    out.push(*c);
                    changed = true;
                    false
                } else {
                    true
                }
            });
            if !changed {
                break;
            }
        }
        out.sort();
        out.dedup();
        out
    }
    pub fn check(&mut self, ctx: &Ctx, pc: &[E], q: E) -> Result<Ans, String> {
        match ctx.cv(q) {
            Some(0) => return Ok(Ans::Unsat),
            Some(_) => return Ok(Ans::Sat(vec![])),
            None => {}
        }
        let mut key = self.slice(ctx, pc, q);
        if !key.contains(&q) {
            key.push(q);
            key.sort();
        }
        if let Some(a) = self.cache.get(&key) {
            self.cache_hits += 1;
            return Ok(a.clone());
        }
        let t0 = Instant::now();
        let mut a = self.raw(ctx, &key)?;
        if let Ans::Unknown(u) = &a {
            if u == "soft" {
                a = if self.by_ranges(ctx, &key, q)? {
                    self.range_proofs += 1;
                    Ans::Unsat
                } else {
                    self.one_shot(ctx, &key)?
                };
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.solver_s += dt;
        if dt > self.max_query_s {
            self.max_query_s = dt;
        }
        self.queries += 1;
        match &a {
            Ans::Sat(m) => {
                self.n_sat += 1;
                // re-validate the model with our own evaluator
                if !valid(ctx, &key, m) {
                    return Ok(Ans::Unknown("solver model rejected by the evaluator".into()));
                }
            }
            Ans::Unsat => {
                self.n_unsat += 1;
                if self.xcheck.is_some() && self.xcheck_s < 150.0 {
                    let t = Instant::now();
                    let r = self.cross(ctx, &key);
                    self.xcheck_s += t.elapsed().as_secs_f64();
                    let x = self.xcheck.as_mut().unwrap();
                    x.0 += 1;
                    match r {
                        Some(true) => {
                            x.1 += 1;
                            return Ok(Ans::Unknown("cvc5 disagrees with z3 (sat vs unsat)".into()));
                        }
                        Some(false) => {}
                        None => x.2 += 1,
                    }
                }
            }
            Ans::Unknown(_) => {}
        }
        self.cache.insert(key, a.clone());
        Ok(a)
    }
    fn key_vars(&mut self, ctx: &Ctx, key: &[E]) -> Vec<u32> {
        let mut v = HashSet::new();
        for k in key {
            v.extend(self.vars(ctx, *k).iter().copied());
        }
        let mut v: Vec<u32> = v.into_iter().collect();
        v.sort();
        v
    }
    fn raw(&mut self, ctx: &Ctx, key: &[E]) -> Result<Ans, String> {
        let mut s = String::new();
        emit(ctx, key, &mut self.defined, &mut s);
        s.push_str("(push 1)\n");
        for k in key {
            s.push_str(&format!("(assert {})\n", term(ctx, *k)));
        }
        s.push_str("(check-sat)\n");
        let vars = self.key_vars(ctx, key);
        if self.inp.write_all(s.as_bytes()).and_then(|_| self.inp.flush()).is_err() {
            self.restart()?;
            return self.one_shot(ctx, key);
        }
        let mut l = String::new();
        loop {
            l.clear();
            let n = self.out.read_line(&mut l).map_err(|e| e.to_string())?;
            if n == 0 {
                self.restart()?;
                return self.one_shot(ctx, key);
            }
            if l.trim().is_empty() {
                continue;
            }
            break;
        }
        match l.trim() {
            "sat" => {
                let g: Vec<String> = vars.iter().map(|v| format!("v{}", v)).collect();
                let m = format!("(get-value ({}))\n(pop 1)\n(echo \"done\")\n", g.join(" "));
                self.inp.write_all(m.as_bytes()).map_err(|e| e.to_string())?;
                let mut txt = String::new();
                loop {
                    l.clear();
                    if self.out.read_line(&mut l).map_err(|e| e.to_string())? == 0 {
                        return Err("z3 died".into());
                    }
                    if l.trim() == "done" {
                        break;
                    }
                    txt.push_str(&l);
                }
                Ok(Ans::Sat(parse_model(&txt)))
            }
            "unsat" => {
                self.inp.write_all(b"(pop 1)\n").map_err(|e| e.to_string())?;
                Ok(Ans::Unsat)
            }
            "unknown" => {
                self.inp.write_all(b"(pop 1)\n").map_err(|e| e.to_string())?;
                Ok(Ans::Unknown("soft".into()))
            }
            x => Err(format!("z3: {}", x)),
        }
    }
    pub fn script(&mut self, ctx: &Ctx, key: &[E]) -> (String, String) {
        let mut s = String::new();
        let mut d = HashSet::new();
        emit(ctx, key, &mut d, &mut s);
        for k in key {
            s.push_str(&format!("(assert {})\n", term(ctx, *k)));
        }
        let vars = self.key_vars(ctx, key);
        let g: Vec<String> = vars.iter().map(|v| format!("v{}", v)).collect();
        (s, format!("(get-value ({}))\n", g.join(" ")))
    }
    /// Is q false under the other constraints of key by interval arithmetic, with the ranges of the
    /// factors and summands established by separate solver queries (which have no multiplication)?
    fn by_ranges(&mut self, ctx: &Ctx, key: &[E], q: E) -> Result<bool, String> {
        let pc: Vec<E> = key.iter().copied().filter(|k| *k != q).collect();
        self.never(ctx, &pc, q)
    }
    fn never(&mut self, ctx: &Ctx, pc: &[E], q: E) -> Result<bool, String> {
        let n = ctx.n(q).clone();
        match n.op {
            Op::Const => Ok(ctx.cv(q) == Some(0)),
            Op::And if n.w == 1 => Ok(self.never(ctx, pc, n.a)? || self.never(ctx, pc, n.b)?),
            Op::Or if n.w == 1 => Ok(self.never(ctx, pc, n.a)? && self.never(ctx, pc, n.b)?),
            Op::Xor if n.w == 1 && ctx.cv(n.b) == Some(1) => {
                let m = ctx.n(n.a).clone();
                match m.op {
                    Op::Ult | Op::Ule => {
                        if let Some(k) = ctx.cv(m.b) {
                            let u = self.upper(ctx, pc, m.a, 0)?;
                            return Ok(u < k || (m.op == Op::Ule && u <= k));
                        }
                        Ok(false)
                    }
                    _ => Ok(false),
                }
            }
            Op::Ult => {
                // sum < part of the sum: only by overflow
                let (mut la, mut lb) = (Vec::new(), Vec::new());
                leaves(ctx, n.a, &mut la);
                leaves(ctx, n.b, &mut lb);
                let mut rest = la.clone();
                let part = lb.iter().all(|x| match rest.iter().position(|y| y == x) {
                    Some(i) => {
                        rest.swap_remove(i);
                        true
                    }
                    None => false,
                });
                if part {
                    let mut s = 0u128;
                    for l in la {
                        s = s.saturating_add(self.upper(ctx, pc, l, 0)?);
                    }
                    return Ok(s <= mask(ctx.w(n.a)));
                }
                if let Some(k) = ctx.cv(n.a) {
                    return Ok(self.upper(ctx, pc, n.b, 0)? <= k);
                }
                Ok(false)
            }
            _ => Ok(false),
        }
    }
    /// an upper bound of e (unsigned) under pc
    fn upper(&mut self, ctx: &Ctx, pc: &[E], e: E, depth: u32) -> Result<u128, String> {
        let n = ctx.n(e).clone();
        let w = ctx.w(e);
        let base = ctx.ub(e);
        if depth > 12 || w == 1 || ctx.is_fp(e) {
            return Ok(base);
        }
        let u = match n.op {
            Op::Const => return Ok(base),
            Op::Mul => {
                let (a, b) = (self.upper(ctx, pc, n.a, depth + 1)?, self.upper(ctx, pc, n.b, depth + 1)?);
                a.checked_mul(b).filter(|x| *x <= mask(w)).unwrap_or(base)
            }
            Op::UDiv => {
                let a = self.upper(ctx, pc, n.a, depth + 1)?;
                match ctx.cv(n.b) {
                    Some(k) if k > 0 => a / k,
                    _ => a,
                }
            }
            Op::URem => match ctx.cv(n.b) {
                Some(k) if k > 0 => k - 1,
                _ => base,
            },
            Op::Concat if ctx.cv(n.a) == Some(0) => self.upper(ctx, pc, n.b, depth + 1)?,
            Op::Ite => {
                let (a, b) = (self.upper(ctx, pc, n.b, depth + 1)?, self.upper(ctx, pc, n.c, depth + 1)?);
                a.max(b)
            }
            _ => {
                let mut u = base;
                if n.op == Op::Add {
                    let mut l = Vec::new();
                    leaves(ctx, e, &mut l);
                    let mut s = 0u128;
                    for x in l {
                        s = s.saturating_add(self.upper(ctx, pc, x, depth + 1)?);
                    }
                    if s <= mask(w) {
                        u = u.min(s);
                    }
                }
                if u > mask(w) / 4 {
                    u = u.min(self.solved_range(ctx, pc, e)?);
                }
                u
            }
        };
        Ok(u.min(base))
    }
    /// the smallest of a few powers of two the solver shows e to stay below
    fn solved_range(&mut self, ctx: &Ctx, pc: &[E], e: E) -> Result<u128, String> {
        let w = ctx.w(e);
        let mut key = self.slice(ctx, pc, e);
        key.push(e);
        if let Some(r) = self.ranges.get(&key) {
            return Ok(*r);
        }
        let cons = key[..key.len() - 1].to_vec();
        let mut best = mask(w);
        for k in [62u32, 48, 40, 34, 32, 31, 30, 20, 10] {
            if k >= w {
                continue;
            }
            let mut s = String::new();
            let mut all = cons.clone();
            all.push(e);
            emit(ctx, &all, &mut self.defined, &mut s);
            s.push_str("(push 1)\n");
            for c in &cons {
                s.push_str(&format!("(assert {})\n", term(ctx, *c)));
            }
            s.push_str(&format!(
                "(assert (not (bvult {} {})))\n(check-sat)\n(pop 1)\n",
                term(ctx, e),
                kstr(1u128 << k, w)
            ));
            self.inp.write_all(s.as_bytes()).and_then(|_| self.inp.flush()).map_err(|e| e.to_string())?;
            let mut l = String::new();
            loop {
                l.clear();
                if self.out.read_line(&mut l).map_err(|e| e.to_string())? == 0 {
                    return Err("z3 died".into());
                }
                if !l.trim().is_empty() {
                    break;
                }
            }
            self.queries += 1;
            match l.trim() {
                "unsat" => {
                    self.n_unsat += 1;
                    best = (1u128 << k) - 1
                }
                "sat" => {
                    self.n_sat += 1;
                    break;
                }
                "unknown" => break,
                x => return Err(format!("z3: {}", x)),
            }
        }
        self.ranges.insert(key, best);
        Ok(best)
    }
    /// portfolio of fresh processes on the whole query
    fn one_shot(&mut self, ctx: &Ctx, key: &[E]) -> Result<Ans, String> {
        self.fallbacks += 1;
        let (s, gv) = self.script(ctx, key);
        let fp = s.contains("FloatingPoint");
        if let Some(d) = &self.dump {
            let _ = std::fs::write(format!("{}/q{}.smt2", d, self.fallbacks), format!("{}(check-sat)\n", s));
        }
        let mut runs: Vec<(Vec<String>, String)> = Vec::new();
        let hdr = "(set-option :produce-models true)\n";
        runs.push((
            vec!["z3-new".into(), "-in".into(), format!("-T:{}", self.hard_s)],
            format!("{}{}(check-sat)\n{}", hdr, s, gv),
        ));
        let tac = if fp {
            "(then simplify fpa2bv propagate-values simplify bit-blast sat)"
        } else {
            "(then simplify propagate-values solve-eqs simplify bit-blast aig sat)"
        };
        runs.push((
            vec!["z3-new".into(), "-in".into(), format!("-T:{}", self.hard_s)],
            format!("{}{}(check-sat-using {})\n{}", hdr, s, tac, gv),
        ));
        if !fp {
            // linear integer arithmetic over bit-vectors: decides time arithmetic (differences and
            // comparisons of wide words) that bit-blasting is slow on
            runs.push((
                vec![
                    "cvc5".into(),
                    "--lang=smt2".into(),
                    "--produce-models".into(),
                    "--solve-bv-as-int=sum".into(),
                    format!("--tlimit={}", self.hard_s * 1000),
                    "-".into(),
                ],
                format!("(set-logic QF_BV)\n{}(check-sat)\n{}", s, gv),
            ));
        }
        if !s.contains("to_ieee_bv") {
            runs.push((
                vec![
                    "cvc5".into(),
                    "--lang=smt2".into(),
                    "--produce-models".into(),
                    format!("--tlimit={}", self.hard_s * 1000),
                    "-".into(),
                ],
                format!("(set-logic ALL)\n{}(check-sat)\n{}", s, gv),
            ));
        }
        let (tx, rx) = std::sync::mpsc::channel::<(usize, String)>();
        let mut pids = Vec::new();
        for (i, (cmd, inp)) in runs.iter().enumerate() {
            let c = Command::new(&cmd[0])
                .args(&cmd[1..])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn();
            let mut c = match c {
                Ok(c) => c,
                Err(_) => continue,
            };
            let mut si = c.stdin.take().unwrap();
            let mut so = c.stdout.take().unwrap();
            let inp = inp.clone();
            pids.push(c);
            let tx = tx.clone();
            std::thread::spawn(move || {
                let _ = si.write_all(inp.as_bytes());
                drop(si);
                let mut o = String::new();
                let _ = std::io::Read::read_to_string(&mut so, &mut o);
                let _ = tx.send((i, o));
            });
        }
        drop(tx);
        let mut ans = Ans::Unknown("timeout".into());
        while let Ok((_, o)) = rx.recv() {
            let f = o.lines().next().unwrap_or("").trim().to_string();
            if f == "unsat" {
                ans = Ans::Unsat;
                break;
            }
            if f == "sat" {
                let rest: String = o.lines().skip(1).collect::<Vec<_>>().join("\n");
                let m = parse_model(&rest);
                if valid(ctx, key, &m) {
                    ans = Ans::Sat(m);
                    break;
                }
            }
        }
        for mut c in pids {
            let _ = c.kill();
            let _ = c.wait();
        }
        Ok(ans)
    }
    /// second opinion by cvc5: Some(true) = sat, Some(false) = unsat
    fn cross(&mut self, ctx: &Ctx, key: &[E]) -> Option<bool> {
        let (s, _) = self.script(ctx, key);
        if s.contains("to_ieee_bv") {
            return None;
        }
        let mut c = Command::new("cvc5")
            .args(["--lang=smt2", "--tlimit=20000", "-"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let mut si = c.stdin.take()?;
        let _ = si.write_all(format!("(set-logic ALL)\n{}(check-sat)\n", s).as_bytes());
        drop(si);
        let o = c.wait_with_output().ok()?;
        let t = String::from_utf8_lossy(&o.stdout).to_string();
        match t.lines().next().unwrap_or("").trim() {
            "sat" => Some(true),
            "unsat" => Some(false),
            _ => None,
        }
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
