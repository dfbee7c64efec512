//! Hash-consed bit-vector / floating point expressions, simplification, evaluation.
//!
//! Width-1 expressions are booleans. Floating point nodes have `fp == true` and width 32 or 64;
//! everything a register or memory holds as bits is a bit-vector node.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract,
    ZExt,
    SExt,
    Ite,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    // floating point
    BvToFp,
    FpToBv,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FNeg,
    FAbs,
    FSqrt,
    FRem,
    FLt,
    FLe,
    FEq,
    FIsNan,
    FIte,
    SiToFp,
    UiToFp,
    FToSi,
    FToUi,
    FpExt,
    FpTrunc,
    FRound, // imm: 0 rna 1 rtz 2 floor 3 ceil 4 rne
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub imm: u128,
}

pub const NONE: E = u32::MAX;

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub w: u16,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    pub vars: Vec<VarInfo>,
    pub var_nodes: Vec<E>,
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            nodes: Vec::new(),
            map: HashMap::new(),
            vars: Vec::new(),
            var_nodes: Vec::new(),
        }
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, imm: u128) -> E {
        let n = Node {
            op,
            w: w as u16,
            a,
            b,
            c,
            imm,
        };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(n.clone());
        self.map.insert(n, e);
        e
    }
    pub fn n(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        self.mk(Op::Const, w, NONE, NONE, NONE, v & mask(w))
    }
    pub fn var(&mut self, name: String, w: u32) -> E {
        let id = self.vars.len();
        self.vars.push(VarInfo { name, w: w as u16 });
        let e = self.mk(Op::Var, w, NONE, NONE, NONE, id as u128);
        self.var_nodes.push(e);
        e
    }
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = self.n(e);
        if n.op == Op::Const {
            Some(n.imm)
        } else {
            None
        }
    }
    pub fn tt(&mut self) -> E {
        self.konst(1, 1)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.konst(mask(w), w);
        self.bin(Op::Xor, a, m)
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }

    fn fold(op: Op, w: u32, x: u128, y: u128) -> u128 {
        let r = match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::UDiv => {
                if y == 0 {
                    mask(w)
                } else {
                    x / y
                }
            }
            Op::URem => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::SDiv => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    if a < 0 {
                        1
                    } else {
                        mask(w)
                    }
                } else {
                    a.wrapping_div(b) as u128
                }
            }
            Op::SRem => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    x
                } else {
                    a.wrapping_rem(b) as u128
                }
            }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let s = if y >= w as u128 { w - 1 } else { y as u32 };
                (sx(x, w) >> s) as u128
            }
            Op::Eq => (x == y) as u128,
            Op::Ult => (x < y) as u128,
            Op::Ule => (x <= y) as u128,
            Op::Slt => (sx(x, w) < sx(y, w)) as u128,
            Op::Sle => (sx(x, w) <= sx(y, w)) as u128,
            _ => unreachable!(),
        };
        r
    }

    /// number of leading bits known to be zero
    fn lz(&self, e: E) -> u32 {
        let n = self.n(e);
        let w = n.w as u32;
        match n.op {
            Op::Const => {
                if n.imm == 0 {
                    w
                } else {
                    n.imm.leading_zeros() - (128 - w)
                }
            }
            Op::ZExt => w - self.w(n.a) + self.lz(n.a),
            Op::And => self.lz(n.a).max(self.lz(n.b)),
            Op::Or | Op::Xor => self.lz(n.a).min(self.lz(n.b)),
            Op::Ite => self.lz(n.b).min(self.lz(n.c)),
            Op::LShr => match self.cv(n.b) {
                Some(k) => (self.lz(n.a) + (k.min(w as u128) as u32)).min(w),
                None => self.lz(n.a),
            },
            Op::UDiv => match self.cv(n.b) {
                Some(k) if k > 0 => (self.lz(n.a) + (127 - k.leading_zeros())).min(w),
                _ => 0,
            },
            Op::URem => match self.cv(n.b) {
                Some(k) if k > 0 => {
                    let m = k - 1;
                    let l = if m == 0 {
                        w
                    } else {
                        m.leading_zeros() - (128 - w)
                    };
                    l.max(self.lz(n.a))
                }
                _ => 0,
            },
            Op::Add => {
                let l = self.lz(n.a).min(self.lz(n.b));
                l.saturating_sub(1)
            }
            Op::Mul => {
                let (x, y) = (w - self.lz(n.a), w - self.lz(n.b));
                w.saturating_sub(x + y)
            }
            Op::Shl => match self.cv(n.b) {
                Some(k) => self.lz(n.a).saturating_sub(k.min(w as u128) as u32),
                None => 0,
            },
            Op::Concat => {
                let l = self.lz(n.a);
                if l == self.w(n.a) {
                    l + self.lz(n.b)
                } else {
                    l
                }
            }
            _ => 0,
        }
    }
    /// upper bound (unsigned)
    pub fn ub(&self, e: E) -> u128 {
        let w = self.w(e);
        if let Some(v) = self.cv(e) {
            return v;
        }
        mask(w - self.lz(e).min(w))
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let rw = if cmp { 1 } else { w };
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let r = Self::fold(op, w, x, y);
            return self.konst(r, rw);
        }
        let (mut a, mut b) = (a, b);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            // constant on the right, otherwise order by id
            if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let cb = self.cv(b);
        let ca = self.cv(a);
        let m = mask(w);
        match op {
            Op::Add if cb.is_some() => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let n = self.n(a).clone();
                    if n.op == Op::Add {
                        if let Some(k2) = self.cv(n.b) {
                            let kk = self.konst(k.wrapping_add(k2), w);
                            return self.bin(Op::Add, n.a, kk);
                        }
                    }
                    if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                        let x = self.bin(Op::Add, n.b, b);
                        let y = self.bin(Op::Add, n.c, b);
                        return self.ite(n.a, x, y);
                    }
                }
            }
            Op::Add if w > 1 && (self.n(a).op == Op::Add || self.n(b).op == Op::Add) => {
                // sums of few terms get one canonical association
                let mut leaves = Vec::new();
                let mut todo = vec![a, b];
                let mut k = 0u128;
                while let Some(x) = todo.pop() {
                    let n = self.n(x);
                    if n.op == Op::Add && leaves.len() + todo.len() < 12 {
                        todo.push(n.a);
                        todo.push(n.b);
                    } else if let Some(v) = self.cv(x) {
                        k = k.wrapping_add(v);
                    } else {
                        leaves.push(x);
                    }
                }
                leaves.sort();
                let mut r = leaves[0];
                for l in &leaves[1..] {
                    r = self.mk(Op::Add, w, r, *l, NONE, 0);
                }
                if k & m != 0 {
                    let kk = self.konst(k & m, w);
                    r = self.mk(Op::Add, w, r, kk, NONE, 0);
                }
                return r;
            }
            Op::Sub => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = cb {
                    let kk = self.konst(k.wrapping_neg(), w);
                    return self.bin(Op::Add, a, kk);
                }
                // (x + k) - x
                let n = self.n(a).clone();
                if n.op == Op::Add && n.a == b {
                    return n.b;
                }
                if n.op == Op::Add && n.b == b {
                    return n.a;
                }
            }
            Op::Mul => {
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k > 0 && self.ub(a) < k {
                        return self.konst(0, w);
                    }
                    // (x / k1) / k  ->  x / (k1 * k)
                    let n = self.n(a).clone();
                    if n.op == Op::UDiv && k > 0 {
                        if let Some(k1) = self.cv(n.b) {
                            if let Some(p) = k.checked_mul(k1) {
                                if k1 > 0 && p <= m {
                                    let pp = self.konst(p, w);
                                    return self.bin(Op::UDiv, n.a, pp);
                                }
                            }
                        }
                    }
                    // narrow
                    let l = self.lz(a);
                    let need = (w - l).max(128 - k.leading_zeros());
                    if k > 0 && l >= 32 && need <= w / 2 {
                        let x = self.extract(a, need - 1, 0);
                        let kk = self.konst(k, need);
                        let d = self.bin(Op::UDiv, x, kk);
                        return self.zext(d, w);
                    }
                }
            }
            Op::URem => {
                if cb == Some(1) {
                    return self.konst(0, w);
                }
                if let Some(k) = cb {
                    if k > 0 && self.ub(a) < k {
                        return a;
                    }
                    if k > 0 && k.is_power_of_two() {
                        let kk = self.konst(k - 1, w);
                        return self.bin(Op::And, a, kk);
                    }
                    let l = self.lz(a);
                    let need = (w - l).max(128 - k.leading_zeros());
                    if k > 0 && l >= 32 && need <= w / 2 {
                        let x = self.extract(a, need - 1, 0);
                        let kk = self.konst(k, need);
                        let d = self.bin(Op::URem, x, kk);
                        return self.zext(d, w);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    // mask covers all possible bits
                    if (k & (k + 1)) == 0 && self.ub(a) <= k {
                        return a;
                    }
                    let n = self.n(a).clone();
                    if n.op == Op::And {
                        if let Some(k2) = self.cv(n.b) {
                            let kk = self.konst(k & k2, w);
                            return self.bin(Op::And, n.a, kk);
                        }
                    }
                    if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                        let x = self.bin(Op::And, n.b, b);
                        let y = self.bin(Op::And, n.c, b);
                        return self.ite(n.a, x, y);
                    }
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        let kk = self.konst(k & mask(iw), iw);
                        let x = self.bin(Op::And, n.a, kk);
                        return self.zext(x, w);
                    }
                    if w > 1 && (k & (k + 1)) == 0 {
                        let bits = 128 - k.leading_zeros();
                        let x = self.extract(a, bits - 1, 0);
                        return self.zext(x, w);
                    }
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.konst(0, 1);
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.konst(1, 1);
                }
                // disjoint halves: (zext lo) | (hi << k)  ->  concat
                if w > 1 {
                    for (x, y) in [(a, b), (b, a)] {
                        let n = self.n(y).clone();
                        if n.op == Op::And {
                            if let Some(k) = self.cv(n.b) {
                                let z = k.trailing_zeros();
                                if z > 0 && z < w && k == m & !mask(z) && self.lz(x) >= w - z {
                                    let hi = self.extract(n.a, w - 1, z);
                                    let lo = self.extract(x, z - 1, 0);
                                    return self.concat(hi, lo);
                                }
                            }
                        }
                        if n.op == Op::Shl {
                            if let Some(k) = self.cv(n.b) {
                                let k = k as u32;
                                if k > 0 && k < w && self.lz(x) >= w - k {
                                    let hi = self.extract(n.a, w - k - 1, 0);
                                    let lo = self.extract(x, k - 1, 0);
                                    return self.concat(hi, lo);
                                }
                            }
                        }
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let n = self.n(a).clone();
                    if n.op == Op::Xor {
                        if let Some(k2) = self.cv(n.b) {
                            let kk = self.konst(k ^ k2, w);
                            return self.bin(Op::Xor, n.a, kk);
                        }
                    }
                    if w == 1 {
                        match n.op {
                            // not (a < b)  ->  b <= a
                            Op::Ult => return self.bin(Op::Ule, n.b, n.a),
                            Op::Ule => return self.bin(Op::Ult, n.b, n.a),
                            Op::Slt => return self.bin(Op::Sle, n.b, n.a),
                            Op::Sle => return self.bin(Op::Slt, n.b, n.a),
                            Op::Ite if self.cv(n.b).is_some() || self.cv(n.c).is_some() => {
                                let x = self.not(n.b);
                                let y = self.not(n.c);
                                return self.ite(n.a, x, y);
                            }
                            _ => {}
                        }
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 && op != Op::AShr {
                        return self.konst(0, w);
                    }
                    if op == Op::LShr && w > 1 && k < w as u128 {
                        let x = self.extract(a, w - 1, k as u32);
                        return self.zext(x, w);
                    }
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if let Some(k) = cb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    let n = self.n(a).clone();
                    match n.op {
                        Op::Ite => {
                            let (x, y) = (self.cv(n.b), self.cv(n.c));
                            if x.is_some() || y.is_some() {
                                let p = self.bin(Op::Eq, n.b, b);
                                let q = self.bin(Op::Eq, n.c, b);
                                return self.ite(n.a, p, q);
                            }
                        }
                        Op::ZExt => {
                            let iw = self.w(n.a);
                            if k > mask(iw) {
                                return self.konst(0, 1);
                            }
                            let kk = self.konst(k, iw);
                            return self.bin(Op::Eq, n.a, kk);
                        }
                        Op::SExt => {
                            let iw = self.w(n.a);
                            if (sx(k & mask(iw), iw) as u128) & m != k {
                                return self.konst(0, 1);
                            }
                            let kk = self.konst(k, iw);
                            return self.bin(Op::Eq, n.a, kk);
                        }
                        Op::Add => {
                            if let Some(k2) = self.cv(n.b) {
                                let kk = self.konst(k.wrapping_sub(k2), w);
                                return self.bin(Op::Eq, n.a, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.cv(n.b) {
                                let kk = self.konst(k ^ k2, w);
                                return self.bin(Op::Eq, n.a, kk);
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(n.b);
                            let hi = self.konst(k >> lw, w - lw);
                            let lo = self.konst(k & mask(lw), lw);
                            let p = self.bin(Op::Eq, n.a, hi);
                            let q = self.bin(Op::Eq, n.b, lo);
                            return self.bin(Op::And, p, q);
                        }
                        _ => {
                            if k > self.ub(a) {
                                return self.konst(0, 1);
                            }
                        }
                    }
                } else {
                    let (na, nb) = (self.n(a).clone(), self.n(b).clone());
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::FpToBv && nb.op == Op::FpToBv && false {}
                }
            }
            Op::Ult => {
                if a == b {
                    return self.konst(0, 1);
                }
                if cb == Some(0) {
                    return self.konst(0, 1);
                }
                if cb == Some(1) {
                    let z = self.konst(0, w);
                    return self.bin(Op::Eq, a, z);
                }
                if let Some(k) = cb {
                    if self.ub(a) < k {
                        return self.konst(1, 1);
                    }
                    if k == m {
                        let e = self.bin(Op::Eq, a, b);
                        return self.not(e);
                    }
                }
                if let Some(k) = ca {
                    if k >= self.ub(b) {
                        return self.konst(0, 1);
                    }
                    if k == 0 {
                        let e = self.bin(Op::Eq, b, a);
                        return self.not(e);
                    }
                }
                if let Some(r) = self.cmp_narrow(op, a, b) {
                    return r;
                }
            }
            Op::Ule => {
                if a == b {
                    return self.konst(1, 1);
                }
                if let Some(k) = cb {
                    if self.ub(a) <= k {
                        return self.konst(1, 1);
                    }
                    if k == 0 {
                        return self.bin(Op::Eq, a, b);
                    }
                }
                if let Some(k) = ca {
                    if k == 0 {
                        return self.konst(1, 1);
                    }
                    if k > self.ub(b) {
                        return self.konst(0, 1);
                    }
                }
                if let Some(r) = self.cmp_narrow(op, a, b) {
                    return r;
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.konst((op == Op::Sle) as u128, 1);
                }
                if w > 1 && self.lz(a) > 0 && self.lz(b) > 0 {
                    let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return self.bin(o, a, b);
                }
                if w > 1 {
                    let top = 1u128 << (w - 1);
                    // non negative vs negative constant
                    if let Some(k) = cb {
                        if k & top != 0 && self.lz(a) > 0 {
                            return self.konst(0, 1);
                        }
                    }
                    if let Some(k) = ca {
                        if k & top != 0 && self.lz(b) > 0 {
                            return self.konst(1, 1);
                        }
                    }
                }
                if let Some(r) = self.cmp_narrow(op, a, b) {
                    return r;
                }
            }
            _ => {}
        }
        self.mk(op, rw, a, b, NONE, 0)
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        let chk = |x: E, y: E| {
            let n = self.n(x);
            n.op == Op::Xor && n.a == y && self.cv(n.b) == Some(mask(n.w as u32))
        };
        if chk(a, b) || chk(b, a) {
            return true;
        }
        let (x, y) = (self.n(a), self.n(b));
        match (x.op, y.op) {
            (Op::Ult, Op::Ule) | (Op::Ule, Op::Ult) | (Op::Slt, Op::Sle) | (Op::Sle, Op::Slt) => {
                x.a == y.b && x.b == y.a
            }
            _ => false,
        }
    }
    fn plus_const(&self, e: E) -> (E, i128) {
        let n = self.n(e);
        if n.op == Op::Add {
            if let Some(k) = self.cv(n.b) {
                return (n.a, sx(k, n.w as u32));
            }
        }
        (e, 0)
    }
    fn cmp_narrow(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let (na, nb) = (self.n(a).clone(), self.n(b).clone());
        let uns = matches!(op, Op::Ult | Op::Ule);
        // x + k1 < x + k2 where neither wraps
        {
            let (xa, ka) = self.plus_const(a);
            let (xb, kb) = self.plus_const(b);
            if xa == xb && w > 8 && self.cv(xa).is_none() {
                let u = self.ub(xa);
                let half = 1i128 << (w.min(120) - 1);
                let fits = |k: i128| {
                    if uns {
                        k >= 0 && k < half && u < (half as u128)
                    } else {
                        k.abs() < half / 2 && u < (half / 2) as u128
                    }
                };
                if fits(ka) && fits(kb) {
                    let r = match op {
                        Op::Ult | Op::Slt => ka < kb,
                        _ => ka <= kb,
                    };
                    return Some(self.konst(r as u128, 1));
                }
            }
        }
        // zext x < zext y
        if uns {
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) && self.w(na.a) > 1
            {
                return Some(self.bin(op, na.a, nb.a));
            }
            if na.op == Op::ZExt && self.w(na.a) > 1 {
                if let Some(k) = self.cv(b) {
                    let iw = self.w(na.a);
                    if k <= mask(iw) {
                        let kk = self.konst(k, iw);
                        return Some(self.bin(op, na.a, kk));
                    }
                }
            }
            if nb.op == Op::ZExt && self.w(nb.a) > 1 {
                if let Some(k) = self.cv(a) {
                    let iw = self.w(nb.a);
                    if k <= mask(iw) {
                        let kk = self.konst(k, iw);
                        return Some(self.bin(op, kk, nb.a));
                    }
                }
            }
        }
        // ite(c, k1, k2) < k
        for (x, y, left) in [(na.clone(), b, true), (nb.clone(), a, false)] {
            if x.op == Op::Ite
                && self.cv(y).is_some()
                && self.cv(x.b).is_some()
                && self.cv(x.c).is_some()
            {
                let (p, q) = if left {
                    (self.bin(op, x.b, y), self.bin(op, x.c, y))
                } else {
                    (self.bin(op, y, x.b), self.bin(op, y, x.c))
                };
                return Some(self.ite(x.a, p, q));
            }
        }
        let _ = w;
        None
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.cv(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let n = self.n(c).clone();
        // ite(not c, a, b)
        if n.op == Op::Xor && self.cv(n.b) == Some(1) && n.w == 1 {
            return self.ite(n.a, b, a);
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        // nested with the same condition
        let (na, nb) = (self.n(a).clone(), self.n(b).clone());
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }

    pub fn extract(&mut self, a: E, hi: u32, lo: u32) -> E {
        let w = self.w(a);
        debug_assert!(hi < w && lo <= hi, "extract {} {} of {}", hi, lo, w);
        let rw = hi - lo + 1;
        if rw == w {
            return a;
        }
        let n = self.n(a).clone();
        match n.op {
            Op::Const => return self.konst(n.imm >> lo, rw),
            Op::Extract => {
                let l2 = n.imm as u32;
                return self.extract(n.a, hi + l2, lo + l2);
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if hi < lw {
                    return self.extract(n.b, hi, lo);
                }
                if lo >= lw {
                    return self.extract(n.a, hi - lw, lo - lw);
                }
                let h = self.extract(n.a, hi - lw, 0);
                let l = self.extract(n.b, lw - 1, lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                if lo >= iw {
                    return self.konst(0, rw);
                }
                let x = self.extract(n.a, iw - 1, lo);
                return self.zext(x, rw);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                if lo == 0 {
                    return self.sext(n.a, rw);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if self.cv(n.b).is_some() || lo > 0 || rw == 1 {
                    let x = self.extract(n.a, hi, lo);
                    let y = self.extract(n.b, hi, lo);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Ite => {
                if self.cv(n.b).is_some() || self.cv(n.c).is_some() {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, hi, 0);
                let y = self.extract(n.b, hi, 0);
                return self.bin(n.op, x, y);
            }
            Op::Shl => {
                if let Some(k) = self.cv(n.b) {
                    let k = k as u32;
                    if lo >= k {
                        return self.extract(n.a, hi - k, lo - k);
                    }
                    if hi < k {
                        return self.konst(0, rw);
                    }
                }
            }
            _ => {
                if lo >= w - self.lz(a).min(w) {
                    return self.konst(0, rw);
                }
            }
        }
        self.mk(Op::Extract, rw, a, NONE, NONE, lo as u128)
    }
    /// a is the high part
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (wa, wb) = (self.w(a), self.w(b));
        let (na, nb) = (self.n(a).clone(), self.n(b).clone());
        if na.op == Op::Const && nb.op == Op::Const {
            return self.konst((na.imm << wb) | nb.imm, wa + wb);
        }
        if na.op == Op::Const && na.imm == 0 {
            return self.zext(b, wa + wb);
        }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a {
            let (la, lb) = (na.imm as u32, nb.imm as u32);
            if la == lb + wb {
                return self.extract(na.a, la + wa - 1, lb);
            }
        }
        // extract(x, hi.. , wb) ++ low part that already starts x
        if na.op == Op::Extract && na.imm as u32 == wb && nb.op != Op::Extract && na.a == b {
            // cannot happen by widths
        }
        if nb.op == Op::Concat && na.op == Op::Extract {
            let nba = self.n(nb.a).clone();
            if nba.op == Op::Extract && nba.a == na.a && na.imm == nba.imm + nba.w as u128 {
                let h = self.extract(na.a, na.imm as u32 + wa - 1, nba.imm as u32);
                return self.concat(h, nb.b);
            }
        }
        self.mk(Op::Concat, wa + wb, a, b, NONE, 0)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        debug_assert!(wa < w);
        let n = self.n(a).clone();
        match n.op {
            Op::Const => return self.konst(n.imm, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(Op::ZExt, w, a, NONE, NONE, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let n = self.n(a).clone();
        match n.op {
            Op::Const => return self.konst(sx(n.imm, wa) as u128, w),
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => {
                let x = self.sext(n.b, w);
                let y = self.sext(n.c, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(Op::SExt, w, a, NONE, NONE, 0)
    }

    // ---- floating point -------------------------------------------------------------------
    pub fn to_fp(&mut self, bits: E) -> E {
        let n = self.n(bits).clone();
        if n.op == Op::FpToBv {
            return n.a;
        }
        if n.op == Op::Ite {
            let x = self.to_fp(n.b);
            let y = self.to_fp(n.c);
            return self.fite(n.a, x, y);
        }
        self.mk(Op::BvToFp, n.w as u32, bits, NONE, NONE, 0)
    }
    pub fn fp_bits(&mut self, f: E) -> E {
        let n = self.n(f).clone();
        if n.op == Op::BvToFp {
            return n.a;
        }
        self.mk(Op::FpToBv, n.w as u32, f, NONE, NONE, 0)
    }
    pub fn fp_const(&mut self, bits: u128, w: u32) -> E {
        let k = self.konst(bits, w);
        self.mk(Op::BvToFp, w, k, NONE, NONE, 0)
    }
    /// the constant bits of a floating point node
    pub fn fcv(&self, f: E) -> Option<u128> {
        let n = self.n(f);
        if n.op == Op::BvToFp {
            self.cv(n.a)
        } else {
            None
        }
    }
    pub fn fite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.cv(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        self.mk(Op::FIte, w, c, a, b, 0)
    }
    pub fn fbin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.fcv(a), self.fcv(b)) {
            let r = feval2(op, w, x, y);
            return if matches!(op, Op::FLt | Op::FLe | Op::FEq) {
                self.konst(r, 1)
            } else {
                self.fp_const(r, w)
            };
        }
        let rw = if matches!(op, Op::FLt | Op::FLe | Op::FEq) {
            1
        } else {
            w
        };
        self.mk(op, rw, a, b, NONE, 0)
    }
    pub fn fun(&mut self, op: Op, a: E, imm: u128) -> E {
        let w = self.w(a);
        if let Some(x) = self.fcv(a) {
            let r = feval1(op, w, x, imm);
            return if op == Op::FIsNan {
                self.konst(r, 1)
            } else {
                self.fp_const(r, w)
            };
        }
        let rw = if op == Op::FIsNan { 1 } else { w };
        if op == Op::FIsNan {
            let n = self.n(a);
            if matches!(n.op, Op::SiToFp | Op::UiToFp) {
                return self.konst(0, 1);
            }
        }
        self.mk(op, rw, a, NONE, NONE, imm)
    }
    pub fn int_to_fp(&mut self, signed: bool, a: E, w: u32) -> E {
        let wa = self.w(a);
        if let Some(v) = self.cv(a) {
            let r = i2f(signed, v, wa, w);
            return self.fp_const(r, w);
        }
        self.mk(
            if signed { Op::SiToFp } else { Op::UiToFp },
            w,
            a,
            NONE,
            NONE,
            0,
        )
    }
    /// truncating conversion; unspecified out of range
    pub fn fp_to_int(&mut self, signed: bool, a: E, w: u32) -> E {
        if let Some(x) = self.fcv(a) {
            let fw = self.w(a);
            let r = f2i(signed, x, fw, w);
            return self.konst(r, w);
        }
        self.mk(if signed { Op::FToSi } else { Op::FToUi }, w, a, NONE, NONE, 0)
    }
    pub fn fp_conv(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(x) = self.fcv(a) {
            let r = fconv(x, wa, w);
            return self.fp_const(r, w);
        }
        self.mk(
            if w > wa { Op::FpExt } else { Op::FpTrunc },
            w,
            a,
            NONE,
            NONE,
            0,
        )
    }

    pub fn is_fp(&self, e: E) -> bool {
        matches!(
            self.n(e).op,
            Op::BvToFp
                | Op::FAdd
                | Op::FSub
                | Op::FMul
                | Op::FDiv
                | Op::FNeg
                | Op::FAbs
                | Op::FSqrt
                | Op::FRem
                | Op::FIte
                | Op::SiToFp
                | Op::UiToFp
                | Op::FpExt
                | Op::FpTrunc
                | Op::FRound
        )
    }

    // ---- evaluation -----------------------------------------------------------------------
    pub fn eval(&self, e: E, m: &Model, memo: &mut HashMap<E, u128>) -> u128 {
        // iterative post order
        let mut stack: Vec<(E, bool)> = vec![(e, false)];
        while let Some((x, ready)) = stack.pop() {
            if memo.contains_key(&x) {
                continue;
            }
            let n = self.n(x);
            match n.op {
                Op::Const => {
                    memo.insert(x, n.imm);
                    continue;
                }
                Op::Var => {
                    let v = m.get(n.imm as usize) & mask(n.w as u32);
                    memo.insert(x, v);
                    continue;
                }
                _ => {}
            }
            if !ready {
                stack.push((x, true));
                for c in [n.a, n.b, n.c] {
                    if c != NONE && !memo.contains_key(&c) {
                        stack.push((c, false));
                    }
                }
                continue;
            }
            let g = |c: E| memo[&c];
            let w = n.w as u32;
            let r = match n.op {
                Op::Ite | Op::FIte => {
                    if g(n.a) == 1 {
                        g(n.b)
                    } else {
                        g(n.c)
                    }
                }
                Op::Concat => (g(n.a) << self.w(n.b)) | g(n.b),
                Op::Extract => (g(n.a) >> (n.imm as u32)) & mask(w),
                Op::ZExt => g(n.a),
                Op::SExt => (sx(g(n.a), self.w(n.a)) as u128) & mask(w),
                Op::BvToFp | Op::FpToBv => g(n.a),
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FLt | Op::FLe
                | Op::FEq => feval2(n.op, self.w(n.a), g(n.a), g(n.b)),
                Op::FNeg | Op::FAbs | Op::FSqrt | Op::FIsNan | Op::FRound => {
                    feval1(n.op, self.w(n.a), g(n.a), n.imm)
                }
                Op::SiToFp => i2f(true, g(n.a), self.w(n.a), w),
                Op::UiToFp => i2f(false, g(n.a), self.w(n.a), w),
                Op::FToSi => f2i(true, g(n.a), self.w(n.a), w),
                Op::FToUi => f2i(false, g(n.a), self.w(n.a), w),
                Op::FpExt | Op::FpTrunc => fconv(g(n.a), self.w(n.a), w),
                op => {
                    let r = Self::fold(op, self.w(n.a), g(n.a), g(n.b));
                    r & mask(w)
                }
            };
            memo.insert(x, r);
        }
        memo[&e]
    }
    /// variables occurring in e
    pub fn vars_of(&self, e: E, seen: &mut std::collections::HashSet<E>, out: &mut Vec<usize>) {
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = self.n(x);
            if n.op == Op::Var {
                out.push(n.imm as usize);
            }
            for c in [n.a, n.b, n.c] {
                if c != NONE {
                    st.push(c)
                }
            }
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub vals: Vec<u128>,
}
impl Model {
    pub fn get(&self, i: usize) -> u128 {
        self.vals.get(i).copied().unwrap_or(0)
    }
}

fn f64b(v: u128) -> f64 {
    f64::from_bits(v as u64)
}
fn f32b(v: u128) -> f32 {
    f32::from_bits(v as u32)
}
pub fn feval2(op: Op, w: u32, x: u128, y: u128) -> u128 {
    if w == 64 {
        let (a, b) = (f64b(x), f64b(y));
        match op {
            Op::FAdd => (a + b).to_bits() as u128,
            Op::FSub => (a - b).to_bits() as u128,
            Op::FMul => (a * b).to_bits() as u128,
            Op::FDiv => (a / b).to_bits() as u128,
            Op::FRem => (a % b).to_bits() as u128,
            Op::FLt => (a < b) as u128,
            Op::FLe => (a <= b) as u128,
            Op::FEq => (a == b) as u128,
            _ => unreachable!(),
        }
    } else {
        let (a, b) = (f32b(x), f32b(y));
        match op {
            Op::FAdd => (a + b).to_bits() as u128,
            Op::FSub => (a - b).to_bits() as u128,
            Op::FMul => (a * b).to_bits() as u128,
            Op::FDiv => (a / b).to_bits() as u128,
            Op::FRem => (a % b).to_bits() as u128,
            Op::FLt => (a < b) as u128,
            Op::FLe => (a <= b) as u128,
            Op::FEq => (a == b) as u128,
            _ => unreachable!(),
        }
    }
}
pub fn feval1(op: Op, w: u32, x: u128, imm: u128) -> u128 {
    if op == Op::FIsNan {
        return if w == 64 {
            f64b(x).is_nan() as u128
        } else {
            f32b(x).is_nan() as u128
        };
    }
    let g = |a: f64| match op {
        Op::FNeg => -a,
        Op::FAbs => a.abs(),
        Op::FSqrt => a.sqrt(),
        Op::FRound => match imm {
            0 => a.round(),
            1 => a.trunc(),
            2 => a.floor(),
            3 => a.ceil(),
            _ => a.round_ties_even(),
        },
        _ => unreachable!(),
    };
    if w == 64 {
        g(f64b(x)).to_bits() as u128
    } else {
        (g(f32b(x) as f64) as f32).to_bits() as u128
    }
}
pub fn i2f(signed: bool, v: u128, wa: u32, w: u32) -> u128 {
    if w == 64 {
        let f = if signed { sx(v, wa) as f64 } else { v as f64 };
        f.to_bits() as u128
    } else {
        let f = if signed { sx(v, wa) as f32 } else { v as f32 };
        f.to_bits() as u128
    }
}
pub fn f2i(signed: bool, x: u128, fw: u32, w: u32) -> u128 {
    let f = if fw == 64 { f64b(x) } else { f32b(x) as f64 };
    let r = if signed { (f as i128) as u128 } else { f as u128 };
    r & mask(w)
}
pub fn fconv(x: u128, wa: u32, w: u32) -> u128 {
    if wa == 64 && w == 32 {
        (f64b(x) as f32).to_bits() as u128
    } else if wa == 32 && w == 64 {
        (f32b(x) as f64).to_bits() as u128
    } else {
        x
    }
}
