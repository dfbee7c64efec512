//! Intrinsics and the external functions at the edge of the program (libc, harness primitives).
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::collections::BTreeMap;
use std::rc::Rc;

fn err<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Err(s.into()))
}

impl Engine {
    fn cu(&mut self, st: &mut State, v: &Val) -> X<u64> {
        self.concretize(st, v, 64)
    }
    fn i1(&mut self, v: &Val) -> E {
        self.to_e(v, 1)
    }
    pub fn intrinsic(
        &mut self,
        st: &mut State,
        name: &str,
        a: &[Val],
        args: &[(Rc<Ty>, Opd)],
        ret: &Rc<Ty>,
    ) -> X<Val> {
        let n = &name[5..];
        let base = n.split('.').next().unwrap_or("");
        match base {
            "lifetime" | "assume" | "experimental" | "donothing" | "dbg" | "prefetch" | "invariant" => {
                return Ok(Val::I(0))
            }
            "x86" => {
                if n.contains("pause") {
                    return Ok(Val::I(0));
                }
                return Ok(Val::zero(ret));
            }
            "threadlocal" => {
                let g = match a[0] {
                    Val::I(x) => ((x - OBJ_BASE) >> OBJ_SHIFT) as u32,
                    _ => return err("tls"),
                };
                if let Some(b) = st.threads[st.cur].tls.get(&g) {
                    return Ok(Val::I(*b));
                }
                let (t, v) = self.m.global_init(g).map_err(Stop::Err)?;
                let mut o = Obj::new(t.size() as usize);
                o.init(0, &t, &v);
                let b = st.mem.alloc(o);
                let c = st.cur;
                st.threads[c].tls.insert(g, b);
                return Ok(Val::I(b));
            }
            "memcpy" | "memmove" => {
                let n = self.cu(st, &a[2])?;
                if n > 0 {
                    let d = self.cu(st, &a[0])?;
                    let s = self.cu(st, &a[1])?;
                    self.copy(st, d, s, n as usize)?;
                }
                return Ok(Val::I(0));
            }
            "memset" => {
                let n = self.cu(st, &a[2])? as usize;
                if n > 0 {
                    let d = self.cu(st, &a[0])?;
                    self.memset(st, d, &a[1], n)?;
                }
                return Ok(Val::I(0));
            }
            "trap" => return Err(Stop::Viol("abort".into(), "trap".into())),
            "is" => return Ok(Val::I(0)),
            "expect" => return Ok(a[0].clone()),
            _ => {}
        }
        // element-wise on vectors
        if let Val::A(_) = a[0] {
            let k = match &a[0] {
                Val::A(x) => x.len(),
                _ => 0,
            };
            if name.contains("vector.reduce") {
                return err(format!("intrinsic {}", name));
            }
            let et = args[0].0.elem(0);
            let rt = ret.elem(0);
            let mut out = Vec::new();
            for i in 0..k {
                let el: Vec<Val> = a
                    .iter()
                    .map(|v| match v {
                        Val::A(x) => x[i].clone(),
                        v => v.clone(),
                    })
                    .collect();
                let ea: Vec<(Rc<Ty>, Opd)> = args.iter().map(|(_, o)| (et.clone(), o.clone())).collect();
                out.push(self.intrinsic(st, name, &el, &ea, &rt)?);
            }
            return Ok(Val::A(Rc::new(out)));
        }
        let t = args[0].0.clone();
        let w = t.bits();
        let conc = a.iter().all(|v| uval(v).is_some());
        let u = |i: usize| uval(&a[i]).unwrap_or(0);
        match base {
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" => {
                if conc {
                    let x = u(0);
                    let r = match base {
                        "ctpop" => x.count_ones() as u128,
                        "ctlz" => (x.leading_zeros() - (128 - w)) as u128,
                        "cttz" => {
                            if x == 0 {
                                w as u128
                            } else {
                                x.trailing_zeros() as u128
                            }
                        }
                        "bswap" => x.swap_bytes() >> (128 - w),
                        _ => x.reverse_bits() >> (128 - w),
                    };
                    return Ok(Val::from_u128(r, w));
                }
                let e = self.to_e(&a[0], w);
                let r = match base {
                    "ctlz" | "cttz" => {
                        // ite chain from the least significant decision
                        let mut r = self.ctx.konst(w as u128, w);
                        for i in 0..w {
                            let bit = if base == "ctlz" { i } else { w - 1 - i };
                            let b = self.ctx.extract(e, bit, bit);
                            let k = if base == "ctlz" { w - 1 - bit } else { bit };
                            let k = self.ctx.konst(k as u128, w);
                            r = self.ctx.ite(b, k, r);
                        }
                        r
                    }
                    "ctpop" => {
                        let mut r = self.ctx.konst(0, w);
                        for i in 0..w {
                            let b = self.ctx.extract(e, i, i);
                            let z = self.ctx.zext(b, w);
                            r = self.ctx.bin(Op::Add, r, z);
                        }
                        r
                    }
                    "bswap" => {
                        let mut r = self.ctx.extract(e, 7, 0);
                        for i in 1..w / 8 {
                            let b = self.ctx.extract(e, i * 8 + 7, i * 8);
                            r = self.ctx.concat(r, b);
                        }
                        r
                    }
                    _ => return err(format!("symbolic {}", name)),
                };
                return Ok(self.norm(r));
            }
            "umin" | "umax" | "smin" | "smax" => {
                let x = self.to_e(&a[0], w);
                let y = self.to_e(&a[1], w);
                let c = match base {
                    "umin" => self.ctx.bin(Op::Ult, x, y),
                    "umax" => self.ctx.bin(Op::Ult, y, x),
                    "smin" => self.ctx.bin(Op::Slt, x, y),
                    _ => self.ctx.bin(Op::Slt, y, x),
                };
                let r = self.ctx.ite(c, x, y);
                return Ok(self.norm(r));
            }
            "abs" => {
                let x = self.to_e(&a[0], w);
                let z = self.ctx.konst(0, w);
                let c = self.ctx.bin(Op::Slt, x, z);
                let nx = self.ctx.bin(Op::Sub, z, x);
                let r = self.ctx.ite(c, nx, x);
                return Ok(self.norm(r));
            }
            "uadd" | "sadd" | "usub" | "ssub" | "umul" | "smul" => {
                let x = self.to_e(&a[0], w);
                let y = self.to_e(&a[1], w);
                let op = match &base[1..] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                let r = self.ctx.bin(op, x, y);
                let z = self.ctx.konst(0, w);
                let most = self.ctx.ub(x).checked_add(self.ctx.ub(y)).unwrap_or(u128::MAX);
                let ov = match base {
                    "uadd" if most <= mask(w) => self.ctx.konst(0, 1),
                    "sadd" if most <= mask(w) >> 1 => self.ctx.konst(0, 1),
                    "uadd" => self.ctx.bin(Op::Ult, r, x),
                    "usub" => self.ctx.bin(Op::Ult, x, y),
                    "sadd" => {
                        // y>=0 ? r<x : r>x   (signed)
                        let c = self.ctx.bin(Op::Slt, y, z);
                        let p = self.ctx.bin(Op::Slt, x, r);
                        let q = self.ctx.bin(Op::Slt, r, x);
                        self.ctx.ite(c, p, q)
                    }
                    "ssub" => {
                        let c = self.ctx.bin(Op::Slt, y, z);
                        let p = self.ctx.bin(Op::Slt, r, x);
                        let q = self.ctx.bin(Op::Slt, x, r);
                        self.ctx.ite(c, p, q)
                    }
                    _ => {
                        if w > 64 {
                            return err("wide mul overflow");
                        }
                        // constant factor: compare against the exact bound (cheap for the solver)
                        let signed = base == "smul";
                        let kx = self.ctx.cv(x);
                        let ky = self.ctx.cv(y);
                        let (k, o) = if ky.is_some() { (ky, x) } else { (kx, y) };
                        match k {
                            Some(k) if !signed || sx(k, w) > 0 => {
                                if signed {
                                    let mx = (mask(w) >> 1) as i128;
                                    let mn = -mx - 1;
                                    let k = sx(k, w);
                                    let hi = self.ctx.konst((mx / k) as u128, w);
                                    let lo = self.ctx.konst((mn / k) as u128, w);
                                    let p = self.ctx.bin(Op::Slt, hi, o);
                                    let q = self.ctx.bin(Op::Slt, o, lo);
                                    self.ctx.or1(p, q)
                                } else if k == 0 {
                                    self.ctx.konst(0, 1)
                                } else {
                                    let hi = self.ctx.konst(mask(w) / k, w);
                                    self.ctx.bin(Op::Ult, hi, o)
                                }
                            }
                            _ => {
                                let (ex, ey) = if signed {
                                    (self.ctx.sext(x, 2 * w), self.ctx.sext(y, 2 * w))
                                } else {
                                    (self.ctx.zext(x, 2 * w), self.ctx.zext(y, 2 * w))
                                };
                                let p = self.ctx.bin(Op::Mul, ex, ey);
                                let back = if signed {
                                    self.ctx.sext(r, 2 * w)
                                } else {
                                    self.ctx.zext(r, 2 * w)
                                };
                                let e = self.ctx.eq(p, back);
                                self.ctx.not(e)
                            }
                        }
                    }
                };
                if n.contains(".sat") {
                    let lim = match base {
                        "uadd" => self.ctx.konst(mask(w), w),
                        "usub" => z,
                        _ => {
                            let mx = self.ctx.konst(mask(w) >> 1, w);
                            let mn = self.ctx.konst((mask(w) >> 1) + 1, w);
                            let c = self.ctx.bin(Op::Slt, x, z);
                            self.ctx.ite(c, mn, mx)
                        }
                    };
                    let r = self.ctx.ite(ov, lim, r);
                    return Ok(self.norm(r));
                }
                let v = vec![self.norm(r), self.norm(ov)];
                return Ok(Val::A(Rc::new(v)));
            }
            "fshl" | "fshr" => {
                let k = match uval(&a[2]) {
                    Some(k) => (k % w as u128) as u32,
                    None => return err("symbolic fshl"),
                };
                let x = self.to_e(&a[0], w);
                let y = self.to_e(&a[1], w);
                let k = if base == "fshl" { k } else { (w - k) % w };
                if k == 0 {
                    return Ok(if base == "fshl" { a[0].clone() } else { a[1].clone() });
                }
                let h = self.ctx.extract(x, w - k - 1, 0);
                let l = self.ctx.extract(y, w - 1, w - k);
                let r = self.ctx.concat(h, l);
                return Ok(self.norm(r));
            }
            "ucmp" | "scmp" => {
                let x = self.to_e(&a[0], w);
                let y = self.to_e(&a[1], w);
                let o = if base == "ucmp" { Op::Ult } else { Op::Slt };
                let lt = self.ctx.bin(o, x, y);
                let gt = self.ctx.bin(o, y, x);
                let rw = ret.bits();
                let m1 = self.ctx.konst(mask(rw), rw);
                let p1 = self.ctx.konst(1, rw);
                let z = self.ctx.konst(0, rw);
                let r = self.ctx.ite(gt, p1, z);
                let r = self.ctx.ite(lt, m1, r);
                return Ok(self.norm(r));
            }
            "fptosi" | "fptoui" => {
                let f = self.to_f(&a[0], w);
                let rw = ret.bits();
                let signed = base == "fptosi";
                if let Some(x) = self.ctx.fcv(f) {
                    let d = if w == 64 {
                        f64::from_bits(x as u64)
                    } else {
                        f32::from_bits(x as u32) as f64
                    };
                    let r = if signed {
                        let mx = (mask(rw) >> 1) as i128;
                        (d as i128).clamp(-mx - 1, mx) as u128
                    } else {
                        (d as u128).min(mask(rw))
                    };
                    return Ok(Val::from_u128(r, rw));
                }
                let two = |k: u32| 2f64.powi(k as i32);
                let (lo, hi) = if signed { (-two(rw - 1), two(rw - 1)) } else { (0.0, two(rw)) };
                let kf = |s: &mut Engine, d: f64| {
                    if w == 64 {
                        s.ctx.fp_const(d.to_bits() as u128, 64)
                    } else {
                        s.ctx.fp_const((d as f32).to_bits() as u128, 32)
                    }
                };
                let lof = kf(self, lo);
                let hif = kf(self, hi);
                let nan = self.ctx.fun(Op::FIsNan, f, 0);
                let below = self.ctx.fbin(Op::FLe, f, lof);
                let above = self.ctx.fbin(Op::FLe, hif, f);
                let conv = self.ctx.fp_to_int(signed, f, rw);
                let (mn, mx) = if signed {
                    ((mask(rw) >> 1) + 1, mask(rw) >> 1)
                } else {
                    (0, mask(rw))
                };
                let mn = self.ctx.konst(mn, rw);
                let mx = self.ctx.konst(mx, rw);
                let z = self.ctx.konst(0, rw);
                let r = self.ctx.ite(above, mx, conv);
                let r = self.ctx.ite(below, mn, r);
                let r = self.ctx.ite(nan, z, r);
                return Ok(self.norm(r));
            }
            "round" | "floor" | "ceil" | "trunc" | "rint" | "nearbyint" | "roundeven" | "sqrt" | "fabs" => {
                let f = self.to_f(&a[0], w);
                let r = match base {
                    "sqrt" => self.ctx.fun(Op::FSqrt, f, 0),
                    "fabs" => self.ctx.fun(Op::FAbs, f, 0),
                    "round" => self.ctx.fun(Op::FRound, f, 0),
                    "trunc" => self.ctx.fun(Op::FRound, f, 1),
                    "floor" => self.ctx.fun(Op::FRound, f, 2),
                    "ceil" => self.ctx.fun(Op::FRound, f, 3),
                    _ => self.ctx.fun(Op::FRound, f, 4),
                };
                return Ok(self.norm(r));
            }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
                let x = self.to_f(&a[0], w);
                let y = self.to_f(&a[1], w);
                let nx = self.ctx.fun(Op::FIsNan, x, 0);
                let ny = self.ctx.fun(Op::FIsNan, y, 0);
                let c = if base.starts_with("min") {
                    self.ctx.fbin(Op::FLt, x, y)
                } else {
                    self.ctx.fbin(Op::FLt, y, x)
                };
                let r = self.ctx.fite(c, x, y);
                let r = self.ctx.fite(ny, x, r);
                let r = self.ctx.fite(nx, y, r);
                return Ok(self.norm(r));
            }
            "copysign" => {
                let x = self.to_e(&a[0], w);
                let y = self.to_e(&a[1], w);
                let l = self.ctx.extract(x, w - 2, 0);
                let h = self.ctx.extract(y, w - 1, w - 1);
                let r = self.ctx.concat(h, l);
                let r = self.ctx.to_fp(r);
                return Ok(self.norm(r));
            }
            "fmuladd" if !conc => {
                let x = self.to_f(&a[0], w);
                let y = self.to_f(&a[1], w);
                let z = self.to_f(&a[2], w);
                let p = self.ctx.fbin(Op::FMul, x, y);
                let r = self.ctx.fbin(Op::FAdd, p, z);
                return Ok(self.norm(r));
            }
            "exp" | "exp2" | "exp10" | "log" | "log2" | "log10" | "sin" | "cos" | "tan" | "asin" | "acos" | "atan"
            | "sinh" | "cosh" | "tanh" | "pow" | "powi" | "fma" | "fmuladd" | "atan2" => {
                return self.math(st, base, a, w)
            }
            _ => {}
        }
        err(format!("intrinsic {}", name))
    }
    /// a function of the mathematical library: computed for constants, otherwise any number
    fn math(&mut self, st: &mut State, name: &str, a: &[Val], w: u32) -> X<Val> {
        let f = |v: &Val| {
            uval(v).map(|x| if w == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 })
        };
        let x = f(&a[0]);
        let y = if name == "powi" {
            uval(&a[1]).map(|k| k as u32 as i32 as f64)
        } else if a.len() > 1 {
            f(&a[1])
        } else {
            Some(0.0)
        };
        let z = if a.len() > 2 { f(&a[2]) } else { Some(0.0) };
        if let (Some(x), Some(y), Some(z)) = (x, y, z) {
            let r = match name {
                "exp" => x.exp(),
                "exp2" => x.exp2(),
                "exp10" => 10f64.powf(x),
                "expm1" => x.exp_m1(),
                "log" => x.ln(),
                "log2" => x.log2(),
                "log10" => x.log10(),
                "log1p" => x.ln_1p(),
                "sin" => x.sin(),
                "cos" => x.cos(),
                "tan" => x.tan(),
                "asin" => x.asin(),
                "acos" => x.acos(),
                "atan" => x.atan(),
                "sinh" => x.sinh(),
                "cosh" => x.cosh(),
                "tanh" => x.tanh(),
                "asinh" => x.asinh(),
                "acosh" => x.acosh(),
                "atanh" => x.atanh(),
                "cbrt" => x.cbrt(),
                "pow" => x.powf(y),
                "powi" => x.powi(y as i32),
                "atan2" => x.atan2(y),
                "hypot" => x.hypot(y),
                "fmod" => x % y,
                "fdim" => (x - y).max(0.0),
                "fma" => x.mul_add(y, z),
                "fmuladd" => x * y + z,
                _ => return err(format!("mathematical function {}", name)),
            };
            return Ok(Val::I(if w == 64 { r.to_bits() } else { (r as f32).to_bits() as u64 }));
        }
        self.havocs += 1;
        let b = self.fresh_var(w);
        let f = self.ctx.to_fp(b);
        if name == "exp" || name == "exp2" {
            // any non-negative number
            let z = self.ctx.fp_const(0, w);
            let c = self.ctx.fbin(Op::FLe, z, f);
            if !self.decide(st, c)? {
                return Err(Stop::Infeasible);
            }
        }
        Ok(Val::S(f))
    }
    fn memset(&mut self, st: &mut State, d: u64, v: &Val, n: usize) -> X<()> {
        let t = Ty::Int(8);
        match v {
            Val::I(x) => {
                // check the whole range first, then fill
                self.store(st, d + n as u64 - 1, &t, v)?;
                let buf = vec![*x as u8; n];
                self.put(st, d, &buf)
            }
            v => {
                for i in 0..n as u64 {
                    self.store(st, d + i, &t, v)?;
                }
                Ok(())
            }
        }
    }
    pub fn put(&mut self, st: &mut State, d: u64, b: &[u8]) -> X<()> {
        // byte-wise through an i8 array type keeps one code path for bounds checks
        let mut i = 0;
        while i < b.len() {
            let n = (b.len() - i).min(8);
            let mut x = [0u8; 8];
            x[..n].copy_from_slice(&b[i..i + n]);
            self.store(st, d + i as u64, &Ty::Int(8 * n as u32), &Val::I(u64::from_le_bytes(x)))?;
            i += n;
        }
        Ok(())
    }
    fn bytes_eq(&mut self, st: &mut State, a: u64, b: u64, n: usize) -> X<E> {
        let mut r = self.ctx.tt();
        let mut i = 0;
        while i < n {
            let k = (n - i).min(8);
            let t = Ty::Int(8 * k as u32);
            let x = self.load(st, a + i as u64, &t)?;
            let y = self.load(st, b + i as u64, &t)?;
            let x = self.to_e(&x, 8 * k as u32);
            let y = self.to_e(&y, 8 * k as u32);
            let e = self.ctx.eq(x, y);
            r = self.ctx.and1(r, e);
            i += k;
        }
        Ok(r)
    }
    fn alloc(&mut self, st: &mut State, n: u64, align: u64) -> X<u64> {
        if n >= 1 << OBJ_SHIFT {
            return err(format!("allocation of {} bytes", n));
        }
        let mut o = Obj::new(n as usize);
        o.heap = true;
        o.align = align;
        Ok(st.mem.alloc(o))
    }
    fn free(&mut self, st: &mut State, p: u64) -> X<()> {
        if p == 0 {
            return Ok(());
        }
        let off = p & ((1 << OBJ_SHIFT) - 1);
        if p < OBJ_BASE || p >= 1 << 59 || off != 0 {
            return Err(Stop::Viol("memory".into(), format!("free of {:#x}", p)));
        }
        let i = ((p - OBJ_BASE) >> OBJ_SHIFT) as usize;
        match st.mem.get(i) {
            Some(o) if o.heap => {
                st.mem.set(i, None);
                Ok(())
            }
            _ => Err(Stop::Viol("memory".into(), format!("double or bad free of {:#x}", p))),
        }
    }
    fn now(&mut self, st: &State) -> (Val, Val) {
        let d = st.elapsed - st.base_at;
        let (ds, dn) = (d / 1_000_000_000, d % 1_000_000_000);
        if let (Val::I(s), Val::I(n)) = (&st.base_s, &st.base_n) {
            let mut s = s.wrapping_add(ds);
            let mut n = n + dn;
            if n >= 1_000_000_000 {
                n -= 1_000_000_000;
                s = s.wrapping_add(1);
            }
            return (Val::I(s), Val::I(n));
        }
        let s = self.to_e(&st.base_s, 64);
        let n = self.to_e(&st.base_n, 64);
        let kd = self.ctx.konst(ds as u128, 64);
        let kn = self.ctx.konst(dn as u128, 64);
        let g = self.ctx.konst(1_000_000_000, 64);
        let z = self.ctx.konst(0, 64);
        let one = self.ctx.konst(1, 64);
        let s1 = self.ctx.bin(Op::Add, s, kd);
        let n1 = self.ctx.bin(Op::Add, n, kn);
        if dn == 0 {
            return (self.norm(s1), self.norm(n1));
        }
        let c = self.ctx.bin(Op::Ule, g, n1);
        let sub = self.ctx.ite(c, g, z);
        let carry = self.ctx.ite(c, one, z);
        let s2 = self.ctx.bin(Op::Add, s1, carry);
        let n2 = self.ctx.bin(Op::Sub, n1, sub);
        (self.norm(s2), self.norm(n2))
    }
    /// block the current thread; the call instruction is executed again when it runs next
    fn block(&mut self, st: &mut State, s: Status) -> X<Option<Val>> {
        let c = st.cur;
        st.threads[c].status = s;
        st.threads[c].woken = 0;
        self.schedule(st)?;
        Ok(None)
    }
    fn errno(&mut self, st: &mut State, v: u64) -> X<()> {
        let p = self.errno_loc(st);
        self.store(st, p, &Ty::Int(32), &Val::I(v))
    }
    fn errno_loc(&mut self, st: &mut State) -> u64 {
        let c = st.cur;
        if st.threads[c].errno == 0 {
            let mut o = Obj::new(4);
            o.align = 4;
            st.threads[c].errno = st.mem.alloc(o);
        }
        st.threads[c].errno
    }
    /// returns None when the thread blocked
    pub fn external(&mut self, st: &mut State, ext: u16, a: &[Val]) -> X<Option<Val>> {
        let name = EXTS[ext as usize - 1];
        let m1 = Val::I(u32::MAX as u64);
        let ok = Ok(Some(Val::I(0)));
        match name {
            "sx_nd" => {
                let w = self.cu(st, &a[0])? as u32;
                let k = st.nd.len();
                if let Some((v, _)) = &self.opts.replay {
                    let x = match v.get(k) {
                        Some(x) if w >= 64 => *x,
                        Some(x) => *x & ((1u64 << w) - 1),
                        None => return err("replay: no more recorded values"),
                    };
                    let e = self.ctx.konst(x as u128, w);
                    st.nd.push((e, w));
                    return Ok(Some(Val::I(x)));
                }
                let e = match self.ndvars.get(&(k, w)) {
                    Some(e) => *e,
                    None => {
                        let e = self.ctx.var(format!("nd{}_{}", k, w), w);
                        self.ndvars.insert((k, w), e);
                        e
                    }
                };
                st.nd.push((e, w));
                let z = self.ctx.zext(e, 64);
                return Ok(Some(self.norm(z)));
            }
            "sx_assume" => {
                let c = self.i1(&a[0]);
                if let Some(k) = self.ctx.cv(c) {
                    return if k == 1 { ok } else { Err(Stop::Infeasible) };
                }
                let mut memo = Default::default();
                if self.ctx.eval(c, &st.model, &mut memo) == 1 {
                    st.pc.push(c);
                    return ok;
                }
                match self.solver.check(&self.ctx, &st.pc, c).map_err(Stop::Err)? {
                    crate::solver::Ans::Sat(m) => {
                        let mut md = (*st.model).clone();
                        for (i, v) in m {
                            if md.vals.len() <= i {
                                md.vals.resize(i + 1, 0);
                            }
                            md.vals[i] = v;
                        }
                        st.model = Rc::new(md);
                        st.pc.push(c);
                        return ok;
                    }
                    crate::solver::Ans::Unsat => return Err(Stop::Infeasible),
                    crate::solver::Ans::Unknown(s) => {
                        self.inconclusive.push(format!("assume undecided: {}", s));
                        return Err(Stop::Infeasible);
                    }
                }
            }
            "sx_assert" => {
                self.asserts += 1;
                let c = self.i1(&a[0]);
                let id = self.cu(st, &a[1])?;
                match self.ctx.cv(c) {
                    Some(1) => return ok,
                    Some(_) => return Err(Stop::Viol("assert".into(), format!("#{}", id))),
                    None => {}
                }
                let nc = self.ctx.not(c);
                self.assert_q += 1;
                match self.solver.check(&self.ctx, &st.pc, nc).map_err(Stop::Err)? {
                    crate::solver::Ans::Unsat => return ok,
                    crate::solver::Ans::Sat(m) => {
                        let mut md = (*st.model).clone();
                        for (i, v) in m {
                            if md.vals.len() <= i {
                                md.vals.resize(i + 1, 0);
                            }
                            md.vals[i] = v;
                        }
                        let mut bad = st.clone();
                        bad.model = Rc::new(md);
                        bad.pc.push(nc);
                        self.report(&bad, "assert", &format!("#{}", id));
                        // continue where the assertion holds, if that is possible
                        match self.solver.check(&self.ctx, &st.pc, c).map_err(Stop::Err)? {
                            crate::solver::Ans::Sat(m) => {
                                let mut md = (*st.model).clone();
                                for (i, v) in m {
                                    if md.vals.len() <= i {
                                        md.vals.resize(i + 1, 0);
                                    }
                                    md.vals[i] = v;
                                }
                                st.model = Rc::new(md);
                                st.pc.push(c);
                                return ok;
                            }
                            _ => return Err(Stop::Infeasible),
                        }
                    }
                    crate::solver::Ans::Unknown(s) => {
                        let w = self.where_(st);
                        self.inconclusive.push(format!("assert #{} undecided: {} at {}", id, s, w));
                        return ok;
                    }
                }
            }
            "sx_cover" => {
                let id = self.cu(st, &a[0])?;
                *self.covers.entry(id).or_insert(0) += 1;
                return ok;
            }
            "sx_observe" => {
                st.obs.push(a[0].clone());
                return ok;
            }
            "sx_log" => {
                let p = self.cu(st, &a[0])?;
                let n = self.cu(st, &a[1])?;
                let mut s = String::new();
                for i in 0..n {
                    if let Val::I(c) = self.load(st, p + i, &Ty::Int(8))? {
                        s.push(c as u8 as char)
                    } else {
                        s.push('?')
                    }
                }
                eprintln!("LOG: {}", s);
                return ok;
            }
            "sx_concretize" => {
                let v = self.cu(st, &a[0])?;
                if let (Some((k, n)), false) = (self.opts.shard, st.sharded) {
                    st.sharded = true;
                    if v % n != k {
                        return Err(Stop::Infeasible);
                    }
                }
                return Ok(Some(Val::I(v)));
            }
            "sx_stamp" => {
                st.stamp = Some((a[0].clone(), a[1].clone()));
                return ok;
            }
            "sx_set_now" => {
                // debugging aid: harnesses must not turn back the clock
                if std::env::var_os("SX_MONO").is_some() {
                    let (s, n) = self.now(st);
                    let (s, n) = (self.to_e(&s, 64), self.to_e(&n, 64));
                    let (s2, n2) = (self.to_e(&a[0], 64), self.to_e(&a[1], 64));
                    let lt = self.ctx.bin(Op::Ult, s2, s);
                    let eq = self.ctx.bin(Op::Eq, s2, s);
                    let ltn = self.ctx.bin(Op::Ult, n2, n);
                    let b = self.ctx.bin(Op::And, eq, ltn);
                    let back = self.ctx.bin(Op::Or, lt, b);
                    if self.ctx.cv(back) != Some(0)
                        && matches!(self.solver.check(&self.ctx, &st.pc, back), Ok(crate::solver::Ans::Sat(_)))
                    {
                        eprintln!("BACK");
                    }
                }
                st.base_s = a[0].clone();
                st.base_n = a[1].clone();
                st.base_at = st.elapsed;
                return ok;
            }
            "sx_advance" => {
                let d = self.cu(st, &a[0])?;
                st.elapsed += d;
                return ok;
            }
            "sx_preempt" => {
                st.preempt = self.cu(st, &a[0])? as u32;
                return ok;
            }
            "bcmp" | "memcmp" => {
                let n = self.cu(st, &a[2])? as usize;
                if n == 0 {
                    return ok;
                }
                let p = self.cu(st, &a[0])?;
                let q = self.cu(st, &a[1])?;
                let eq = self.bytes_eq(st, p, q, n)?;
                let z = self.ctx.konst(0, 32);
                if name == "bcmp" || self.ctx.cv(eq) == Some(1) {
                    let one = self.ctx.konst(1, 32);
                    let r = self.ctx.ite(eq, z, one);
                    return Ok(Some(self.norm(r)));
                }
                let mut r = z;
                for i in (0..n as u64).rev() {
                    let x = self.load(st, p + i, &Ty::Int(8))?;
                    let y = self.load(st, q + i, &Ty::Int(8))?;
                    let x = self.to_e(&x, 8);
                    let y = self.to_e(&y, 8);
                    let e = self.ctx.eq(x, y);
                    let lt = self.ctx.bin(Op::Ult, x, y);
                    let m = self.ctx.konst(mask(32), 32);
                    let one = self.ctx.konst(1, 32);
                    let d = self.ctx.ite(lt, m, one);
                    r = self.ctx.ite(e, r, d);
                }
                return Ok(Some(self.norm(r)));
            }
            "strlen" => {
                let p = self.cu(st, &a[0])?;
                let mut n = 0;
                loop {
                    let v = self.load(st, p + n, &Ty::Int(8))?;
                    let c = self.concretize(st, &v, 8)?;
                    if c == 0 {
                        return Ok(Some(Val::I(n)));
                    }
                    n += 1;
                }
            }
            "memcpy" | "memmove" => {
                let n = self.cu(st, &a[2])?;
                if n > 0 {
                    let d = self.cu(st, &a[0])?;
                    let s = self.cu(st, &a[1])?;
                    self.copy(st, d, s, n as usize)?;
                }
                return Ok(Some(a[0].clone()));
            }
            "memset" => {
                let n = self.cu(st, &a[2])? as usize;
                if n > 0 {
                    let d = self.cu(st, &a[0])?;
                    let b = match &a[1] {
                        Val::I(x) => Val::I(x & 0xff),
                        v => {
                            let e = self.to_e(v, 32);
                            let e = self.ctx.extract(e, 7, 0);
                            Val::S(e)
                        }
                    };
                    self.memset(st, d, &b, n)?;
                }
                return Ok(Some(a[0].clone()));
            }
            "__errno_location" => return Ok(Some(Val::I(self.errno_loc(st)))),
            "malloc" => {
                let n = self.cu(st, &a[0])?;
                return Ok(Some(Val::I(self.alloc(st, n, 16)?)));
            }
            "calloc" => {
                let n = self.cu(st, &a[0])?;
                let k = self.cu(st, &a[1])?;
                return Ok(Some(Val::I(self.alloc(st, n * k, 16)?)));
            }
            "posix_memalign" => {
                let p = self.cu(st, &a[0])?;
                let al = self.cu(st, &a[1])?;
                let n = self.cu(st, &a[2])?;
                let b = self.alloc(st, n, al)?;
                self.store(st, p, &Ty::Ptr, &Val::I(b))?;
                return ok;
            }
            "realloc" => {
                let p = self.cu(st, &a[0])?;
                let n = self.cu(st, &a[1])?;
                let b = self.alloc(st, n, 16)?;
                if p != 0 {
                    let i = (p.wrapping_sub(OBJ_BASE) >> OBJ_SHIFT) as usize;
                    let old = match st.mem.get(i) {
                        Some(o) if o.heap => o.data.len() as u64,
                        _ => return Err(Stop::Viol("memory".into(), "realloc of a bad pointer".into())),
                    };
                    self.copy(st, b, p, old.min(n) as usize)?;
                    self.free(st, p)?;
                }
                return Ok(Some(Val::I(b)));
            }
            "free" => {
                let p = self.cu(st, &a[0])?;
                self.free(st, p)?;
                return ok;
            }
            "abort" => return Err(Stop::Viol("abort".into(), "abort".into())),
            "getrandom" => {
                let p = self.cu(st, &a[0])?;
                let n = self.cu(st, &a[1])?;
                for i in 0..n {
                    self.store(st, p + i, &Ty::Int(8), &Val::I((17 + 29 * i) & 0xff))?;
                }
                return Ok(Some(Val::I(n)));
            }
            "dlsym" => {
                let p = self.cu(st, &a[1])?;
                let mut s = String::new();
                for i in 0..64 {
                    match self.load(st, p + i, &Ty::Int(8))? {
                        Val::I(0) => break,
                        Val::I(c) => s.push(c as u8 as char),
                        _ => break,
                    }
                }
                let f = if s == "getrandom" { FN_BASE + 16 * self.m.fidx["getrandom"] as u64 } else { 0 };
                return Ok(Some(Val::I(f)));
            }
            "getenv" | "getauxval" | "getcwd" => return ok,
            "sysconf" => {
                let k = self.cu(st, &a[0])?;
                return Ok(Some(Val::I(if k == 30 { 4096 } else { 1 })));
            }
            "gettid" => return Ok(Some(Val::I(100 + st.cur as u64))),
            "pthread_self" => return Ok(Some(Val::I(1 + st.cur as u64))),
            "sched_yield" => {
                let c = st.cur;
                if st.threads[c].woken == 1 {
                    st.threads[c].woken = 0;
                    return ok;
                }
                if st.threads.len() < 2 {
                    return ok;
                }
                // let every other runnable thread go first
                return self.block(st, Status::Sleep(st.elapsed));
            }
            "clock_gettime" => {
                let p = self.cu(st, &a[1])?;
                let (s, n) = match st.stamp.take() {
                    Some(x) => x,
                    None => self.now(st),
                };
                self.store(st, p, &Ty::Int(64), &s)?;
                self.store(st, p + 8, &Ty::Int(64), &n)?;
                return ok;
            }
            "nanosleep" | "clock_nanosleep" => {
                let c = st.cur;
                if st.threads[c].woken == 1 {
                    st.threads[c].woken = 0;
                    return ok;
                }
                let (flags, p) = if name == "nanosleep" {
                    (0, self.cu(st, &a[0])?)
                } else {
                    (self.cu(st, &a[1])?, self.cu(st, &a[2])?)
                };
                let s = self.load(st, p, &Ty::Int(64))?;
                let s = self.cu(st, &s)?;
                let n = self.load(st, p + 8, &Ty::Int(64))?;
                let n = self.cu(st, &n)?;
                let t = s.saturating_mul(1_000_000_000).saturating_add(n);
                if flags & 1 != 0 {
                    return err("absolute sleep");
                }
                let w = st.elapsed + t;
                return self.block(st, Status::Sleep(w));
            }
            "syscall" => {
                let k = self.cu(st, &a[0])?;
                match k {
                    318 => {
                        let p = self.cu(st, &a[1])?;
                        let n = self.cu(st, &a[2])?;
                        for i in 0..n {
                            self.store(st, p + i, &Ty::Int(8), &Val::I((17 + 29 * i) & 0xff))?;
                        }
                        return Ok(Some(Val::I(n)));
                    }
                    202 => return self.futex(st, a),
                    _ => return err(format!("syscall {}", k)),
                }
            }
            "write" => return Ok(Some(a[2].clone())),
            "writev" => {
                let p = self.cu(st, &a[1])?;
                let n = self.cu(st, &a[2])?;
                let mut tot = 0;
                for i in 0..n {
                    let l = self.load(st, p + 16 * i + 8, &Ty::Int(64))?;
                    tot += self.cu(st, &l)?;
                }
                return Ok(Some(Val::I(tot)));
            }
            "__cxa_thread_atexit_impl" => return ok,
            "pthread_key_create" => {
                let p = self.cu(st, &a[0])?;
                let k = st.next_key;
                st.next_key += 1;
                self.store(st, p, &Ty::Int(32), &Val::I(k))?;
                return ok;
            }
            "pthread_key_delete" => return ok,
            "pthread_setspecific" => {
                let k = self.cu(st, &a[0])?;
                let v = self.cu(st, &a[1])?;
                let c = st.cur;
                st.threads[c].keys.insert(k, v);
                return ok;
            }
            "pthread_getspecific" => {
                let k = self.cu(st, &a[0])?;
                return Ok(Some(Val::I(st.threads[st.cur].keys.get(&k).copied().unwrap_or(0))));
            }
            "pthread_attr_init"
            | "pthread_attr_setstacksize"
            | "pthread_attr_destroy"
            | "pthread_setname_np"
            | "pthread_detach"
            | "sigaltstack"
            | "mprotect"
            | "munmap"
            | "signal"
            | "sigaction" => return ok,
            "pthread_create" => {
                let p = self.cu(st, &a[0])?;
                let f = self.cu(st, &a[2])?;
                let arg = a[3].clone();
                let fi = ((f - FN_BASE) / 16) as u32;
                let body = self.m.body(fi).map_err(Stop::Err)?;
                let tid = st.threads.len();
                if tid > 200 {
                    return err("too many threads");
                }
                self.store(st, p, &Ty::Int(64), &Val::I(tid as u64 + 1))?;
                let mut regs = vec![Val::I(0); body.nregs as usize];
                regs[body.params[0] as usize] = arg;
                self.seen_fn.insert(fi);
                st.threads.push(Thread {
                    frames: vec![Frame {
                        body,
                        bb: 0,
                        ip: 0,
                        regs,
                        stack: Rc::new(Obj::new(body.stack_size as usize)),
                    }],
                    status: Status::Run,
                    woken: 0,
                    tls: BTreeMap::new(),
                    keys: BTreeMap::new(),
                    errno: 0,
                });
                self.max_threads = self.max_threads.max(st.threads.len());
                return ok;
            }
            "pthread_join" => {
                let t = self.cu(st, &a[0])? as usize - 1;
                if st.threads[t].status == Status::Done {
                    return ok;
                }
                return self.block(st, Status::Join(t));
            }
            // there are no files
            "open" | "open64" | "sched_getaffinity" => {
                self.errno(st, 2)?;
                return Ok(Some(Val::I(u32::MAX as u64)));
            }
            "close" => return ok,
            "exp" | "exp2" | "exp10" | "expm1" | "log" | "log2" | "log10" | "log1p" | "sin" | "cos" | "tan" | "asin"
            | "acos" | "atan" | "sinh" | "cosh" | "tanh" | "asinh" | "acosh" | "atanh" | "cbrt" | "pow" | "atan2"
            | "hypot" | "fmod" | "fdim" | "fma" => return Ok(Some(self.math(st, name, a, 64)?)),
            _ => {}
        }
        let _ = m1;
        err(format!("external {}", name))
    }
    fn futex(&mut self, st: &mut State, a: &[Val]) -> X<Option<Val>> {
        let addr = self.cu(st, &a[1])?;
        let op = self.cu(st, &a[2])? & 0x7f;
        let minus1 = Val::I(u64::MAX);
        match op {
            0 | 9 => {
                let c = st.cur;
                match st.threads[c].woken {
                    1 => {
                        st.threads[c].woken = 0;
                        return Ok(Some(Val::I(0)));
                    }
                    2 => {
                        st.threads[c].woken = 0;
                        self.errno(st, 110)?;
                        return Ok(Some(minus1));
                    }
                    _ => {}
                }
                let v = self.load(st, addr, &Ty::Int(32))?;
                let v = self.concretize(st, &v, 32)?;
                let exp = self.concretize(st, &a[3], 64)? & 0xffff_ffff;
                if v != exp {
                    self.errno(st, 11)?;
                    return Ok(Some(minus1));
                }
                let tp = self.cu(st, &a[4])?;
                let to = if tp == 0 {
                    None
                } else {
                    let s = self.load(st, tp, &Ty::Int(64))?;
                    let n = self.load(st, tp + 8, &Ty::Int(64))?;
                    let (ns, nn) = self.now(st);
                    // remaining = deadline - now, in ns
                    let es = self.to_e(&s, 64);
                    let en = self.to_e(&n, 64);
                    let ens = self.to_e(&ns, 64);
                    let enn = self.to_e(&nn, 64);
                    let ds = self.ctx.bin(Op::Sub, es, ens);
                    let dn = self.ctx.bin(Op::Sub, en, enn);
                    let g = self.ctx.konst(1_000_000_000, 64);
                    let x = self.ctx.bin(Op::Mul, ds, g);
                    let x = self.ctx.bin(Op::Add, x, dn);
                    let x = self.norm(x);
                    let d = self.cu(st, &x)? as i64;
                    // (time passes in any case)
                    Some(st.elapsed + d.max(1) as u64)
                };
                self.block(st, Status::Futex(addr, to))
            }
            1 | 10 => {
                let n = self.concretize(st, &a[3], 64)? as u32;
                let mut k = 0;
                for t in st.threads.iter_mut() {
                    if k >= n {
                        break;
                    }
                    if let Status::Futex(x, _) = t.status {
                        if x == addr {
                            t.status = Status::Run;
                            t.woken = 1;
                            k += 1;
                        }
                    }
                }
                Ok(Some(Val::I(k as u64)))
            }
            _ => err(format!("futex op {}", op)),
        }
    }
}
