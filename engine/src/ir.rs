//! LLVM IR (textual) loader: indexes the module, parses function bodies lazily.
use crate::expr::mask;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Struct(Vec<Rc<Ty>>, bool),
    Other,
}
impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => 0,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match (*w + 7) / 8 {
                0 | 1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => {
                let s = self.store_size();
                s.next_power_of_two()
            }
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(_) | Ty::Vec(..) => {
                let a = self.align();
                (self.store_size() + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    let a = if *packed { 1 } else { t.align() };
                    o = (o + a - 1) / a * a + t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    let a = if *packed { 1 } else { t.align() };
                    o = (o + a - 1) / a * a;
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
    pub fn is_float(&self) -> bool {
        matches!(self, Ty::F32 | Ty::F64)
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..))
    }
    pub fn elem(&self, i: usize) -> Rc<Ty> {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.clone(),
            _ => panic!("elem"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    W(Rc<u128>),
    S(u32),
    A(Rc<Vec<Val>>),
}
impl Val {
    pub fn from_u128(v: u128, w: u32) -> Val {
        let v = v & mask(w);
        if w <= 64 {
            Val::I(v as u64)
        } else {
            Val::W(Rc::new(v))
        }
    }
    pub fn zero(t: &Ty) -> Val {
        match t {
            Ty::Int(w) if *w > 64 => Val::W(Rc::new(0)),
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                Val::A(Rc::new((0..t.count()).map(|i| Val::zero(&t.elem(i))).collect()))
            }
            _ => Val::I(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Nand,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca(u32, u32),
    Load(u32, Rc<Ty>, Opd),
    Store(Rc<Ty>, Opd, Opd),
    Gep(u32, Opd, Vec<(Opd, u32, i64)>, i64),
    Bin(u32, BinOp, u32, u32, Opd, Opd),
    ICmp(u32, Pred, u32, u32, Opd, Opd),
    FBin(u32, FOp, u32, Opd, Opd),
    FNeg(u32, u32, Opd),
    FCmp(u32, String, u32, Opd, Opd),
    Cast(u32, CastK, Rc<Ty>, Rc<Ty>, Opd),
    Select(u32, Rc<Ty>, bool, Opd, Opd, Opd),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, Vec<(u128, u32)>, u32),
    Call {
        dst: Option<u32>,
        ret: Rc<Ty>,
        callee: Callee,
        args: Vec<(Rc<Ty>, Opd)>,
        normal: Option<u32>,
    },
    Ret(Option<Opd>),
    Unreachable,
    Rmw(u32, RmwOp, u32, Opd, Opd),
    CmpXchg(u32, u32, Opd, Opd, Opd),
    Fence,
    Sched,
    ExtractValue(u32, Opd, Vec<u32>),
    InsertValue(u32, Opd, Opd, Vec<u32>),
    ExtractElt(u32, Opd, Opd),
    InsertElt(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<i64>),
    Mov(u32, Opd),
    LandingPad,
    Resume,
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    Asm(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<(Inst, u32)>, // dbg metadata id (0 = none)
}
pub struct Body {
    pub func: u32,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub stack_size: u32,
    pub ninst: u32,
    pub block_base: Vec<u32>,
}

pub struct Func {
    pub name: String,
    pub def: Option<(usize, usize)>, // line range of the definition
    pub body: Option<&'static Body>,
    pub ext: u16,
    pub is_decl: bool,
}
pub struct Global {
    pub name: String,
    pub line: usize,
    pub constant: bool,
    pub tls: bool,
    pub external: bool,
}

pub struct Module {
    pub text: &'static str,
    pub lines: Vec<(u32, u32)>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<&'static str, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<&'static str, u32>,
    pub meta: HashMap<u32, u32>, // metadata id -> line
    pub alias: HashMap<&'static str, String>,
}

pub const FN_BASE: u64 = 0x10000;
pub const OBJ_SHIFT: u32 = 24;
pub const OBJ_BASE: u64 = 1 << 40;

#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    Id(&'a str),
    L(&'a str),
    G(&'a str),
    N(&'a str),
    S(&'a str),
    CS(&'a str),
    P(u8),
    M(&'a str),
    At(&'a str),
}

fn lex(s: &'static str) -> Vec<T<'static>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = Vec::new();
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                let st = i + 1;
                let (name, e);
                if b.get(st) == Some(&b'"') {
                    let mut j = st + 1;
                    while j < b.len() && b[j] != b'"' {
                        j += 1
                    }
                    name = &s[st + 1..j];
                    e = (j + 1).min(b.len());
                } else {
                    let mut j = st;
                    while j < b.len() && idc(b[j]) {
                        j += 1
                    }
                    name = &s[st..j];
                    e = j;
                }
                v.push(if c == b'%' { T::L(name) } else { T::G(name) });
                i = e;
            }
            b'"' => {
                let mut j = i + 1;
                while j < b.len() && b[j] != b'"' {
                    j += 1
                }
                v.push(T::S(&s[i + 1..j]));
                i = (j + 1).min(b.len());
            }
            b'c' if b.get(i + 1) == Some(&b'"') => {
                let mut j = i + 2;
                while j < b.len() && b[j] != b'"' {
                    j += 1
                }
                v.push(T::CS(&s[i + 2..j]));
                i = (j + 1).min(b.len());
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1
                }
                v.push(T::M(&s[i + 1..j]));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1
                }
                v.push(T::At(&s[i + 1..j]));
                i = j;
            }
            b'-' | b'0'..=b'9' | b'+' => {
                let mut j = i + 1;
                while j < b.len()
                    && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || b[j] == b'+' || b[j] == b'-')
                {
                    j += 1
                }
                v.push(T::N(&s[i..j]));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1
                }
                v.push(T::Id(&s[i..j]));
                i = j;
            }
            _ => {
                v.push(T::P(c));
                i += 1;
            }
        }
    }
    v
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

struct P<'m> {
    m: &'m Module,
    t: Vec<T<'static>>,
    i: usize,
}
type R<X> = Result<X, String>;

impl<'m> P<'m> {
    fn peek(&self) -> Option<&T<'static>> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<T<'static>> {
        let x = self.t.get(self.i).cloned().ok_or("eol")?;
        self.i += 1;
        Ok(x)
    }
    fn is_p(&self, c: u8) -> bool {
        self.peek() == Some(&T::P(c))
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?}", c as char, self.peek()))
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.peek() == Some(&T::Id(match self.peek() {
            Some(T::Id(x)) if *x == s => x,
            _ => return false,
        })) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        while let Some(t) = self.peek() {
            match t {
                T::P(b'(') => d += 1,
                T::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(T::Id(s)) => {
                matches!(
                    *s,
                    "ptr" | "void" | "float" | "double" | "half" | "metadata" | "label" | "token"
                ) || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(T::P(b'{')) | Some(T::P(b'[')) | Some(T::P(b'<')) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Rc<Ty>> {
        let t = self.next()?;
        Ok(Rc::new(match t {
            T::Id("ptr") => {
                if self.eat_id("addrspace") {
                    self.skip_parens();
                }
                Ty::Ptr
            }
            T::Id("void") => Ty::Void,
            T::Id("float") => Ty::F32,
            T::Id("double") => Ty::F64,
            T::Id("metadata") | T::Id("label") | T::Id("token") => Ty::Other,
            T::Id(s) if s.starts_with('i') => {
                Ty::Int(s[1..].parse::<u32>().map_err(|_| format!("type {}", s))?)
            }
            T::P(b'[') => {
                let n = self.num()? as u64;
                if !self.eat_id("x") {
                    return Err("arr x".into());
                }
                let e = self.ty()?;
                self.expect(b']')?;
                Ty::Arr(n, e)
            }
            T::P(b'<') => {
                if self.eat(b'{') {
                    let f = self.fields()?;
                    self.expect(b'>')?;
                    Ty::Struct(f, true)
                } else {
                    let n = self.num()? as u32;
                    if !self.eat_id("x") {
                        return Err("vec x".into());
                    }
                    let e = self.ty()?;
                    self.expect(b'>')?;
                    Ty::Vec(n, e)
                }
            }
            T::P(b'{') => Ty::Struct(self.fields()?, false),
            x => return Err(format!("type? {:?}", x)),
        }))
    }
    fn fields(&mut self) -> R<Vec<Rc<Ty>>> {
        let mut f = Vec::new();
        if self.eat(b'}') {
            return Ok(f);
        }
        loop {
            f.push(self.ty()?);
            if self.eat(b'}') {
                return Ok(f);
            }
            self.expect(b',')?;
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            T::N(s) => s.parse::<i128>().map_err(|_| format!("num {}", s)),
            x => Err(format!("num? {:?}", x)),
        }
    }
    /// constant of type t (also handles constant expressions)
    fn konst(&mut self, t: &Ty) -> R<Val> {
        let tok = self.next()?;
        Ok(match tok {
            T::N(s) => match t {
                Ty::Int(w) => {
                    let v = if let Ok(v) = s.parse::<i128>() {
                        v as u128
                    } else if let Ok(v) = s.parse::<u128>() {
                        v
                    } else {
                        return Err(format!("int {}", s));
                    };
                    Val::from_u128(v, *w)
                }
                Ty::F64 | Ty::F32 => {
                    let d = if let Some(h) = s.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)
                    } else {
                        let (neg, rest) = match s.as_bytes()[0] {
                            b'-' => (true, &s[1..]),
                            b'+' => (false, &s[1..]),
                            _ => (false, s),
                        };
                        let m = match rest {
                            "qnan" => f64::from_bits(0x7ff8 << 48),
                            "inf" => f64::INFINITY,
                            _ => rest.parse::<f64>().map_err(|_| format!("float {}", s))?,
                        };
                        if neg {
                            -m
                        } else {
                            m
                        }
                    };
                    if *t == Ty::F64 {
                        Val::I(d.to_bits())
                    } else {
                        Val::I((d as f32).to_bits() as u64)
                    }
                }
                _ => return Err(format!("number {} for {:?}", s, t)),
            },
            T::Id(s) if s.starts_with("f0x") => {
                Val::from_u128(u128::from_str_radix(&s[3..], 16).map_err(|e| e.to_string())?, t.bits())
            }
            T::Id("true") => Val::I(1),
            T::Id("false") => Val::I(0),
            T::Id("null") => Val::I(0),
            T::Id("undef") | T::Id("poison") | T::Id("zeroinitializer") | T::Id("none") => Val::zero(t),
            T::Id("splat") => {
                self.expect(b'(')?;
                let et = self.ty()?;
                let v = self.konst(&et)?;
                self.expect(b')')?;
                Val::A(Rc::new(vec![v; t.count()]))
            }
            T::G(n) => Val::I(self.m.addr_of(n)?),
            T::CS(s) => Val::A(Rc::new(unescape(s).into_iter().map(|b| Val::I(b as u64)).collect())),
            T::P(b'[') => self.agg(b']')?,
            T::P(b'{') => self.agg(b'}')?,
            T::P(b'<') => {
                if self.eat(b'{') {
                    let v = self.agg(b'}')?;
                    self.expect(b'>')?;
                    v
                } else {
                    self.agg(b'>')?
                }
            }
            T::Id(op @ ("inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext")) => {
                self.expect(b'(')?;
                let ft = self.ty()?;
                let v = self.konst(&ft)?;
                if !self.eat_id("to") {
                    return Err("to".into());
                }
                let tt = self.ty()?;
                self.expect(b')')?;
                match (op, v) {
                    ("trunc", Val::I(x)) => Val::from_u128(x as u128, tt.bits()),
                    (_, v) => v,
                }
            }
            T::Id("getelementptr") => {
                while !self.is_p(b'(') {
                    if let Some(T::Id("inrange")) = self.peek() {
                        self.i += 1;
                        self.skip_parens();
                        continue;
                    }
                    self.i += 1;
                }
                self.expect(b'(')?;
                let et = self.ty()?;
                self.expect(b',')?;
                let pt = self.ty()?;
                let base = match self.konst(&pt)? {
                    Val::I(x) => x,
                    _ => return Err("gep base".into()),
                };
                let mut idx = Vec::new();
                while self.eat(b',') {
                    let it = self.ty()?;
                    let v = match self.konst(&it)? {
                        Val::I(x) => crate::expr::sx(x as u128, it.bits()) as i64,
                        _ => return Err("gep idx".into()),
                    };
                    idx.push(v);
                }
                self.expect(b')')?;
                let mut off = 0i64;
                let mut cur = et.clone();
                for (k, v) in idx.iter().enumerate() {
                    if k == 0 {
                        off += v * et.size() as i64;
                    } else {
                        match &*cur {
                            Ty::Struct(..) => {
                                off += cur.field_off(*v as usize) as i64;
                                cur = cur.elem(*v as usize);
                            }
                            _ => {
                                let e = cur.elem(0);
                                off += v * e.size() as i64;
                                cur = e;
                            }
                        }
                    }
                }
                Val::I(base.wrapping_add(off as u64))
            }
            T::Id(op @ ("sub" | "add" | "xor" | "and" | "or" | "mul")) => {
                while !self.is_p(b'(') {
                    self.i += 1;
                }
                self.expect(b'(')?;
                let ta = self.ty()?;
                let a = self.konst(&ta)?;
                self.expect(b',')?;
                let tb = self.ty()?;
                let b = self.konst(&tb)?;
                self.expect(b')')?;
                match (a, b) {
                    (Val::I(x), Val::I(y)) => {
                        let r = match op {
                            "sub" => x.wrapping_sub(y),
                            "add" => x.wrapping_add(y),
                            "xor" => x ^ y,
                            "and" => x & y,
                            "or" => x | y,
                            _ => x.wrapping_mul(y),
                        };
                        Val::from_u128(r as u128, ta.bits())
                    }
                    _ => return Err("constexpr".into()),
                }
            }
            x => return Err(format!("const? {:?}", x)),
        })
    }
    fn agg(&mut self, end: u8) -> R<Val> {
        let mut v = Vec::new();
        if self.eat(end) {
            return Ok(Val::A(Rc::new(v)));
        }
        loop {
            let t = self.ty()?;
            v.push(self.konst(&t)?);
            if self.eat(end) {
                return Ok(Val::A(Rc::new(v)));
            }
            self.expect(b',')?;
        }
    }
    fn is_operand_start(&self) -> bool {
        match self.peek() {
            Some(T::L(_)) | Some(T::G(_)) | Some(T::N(_)) | Some(T::CS(_)) | Some(T::M(_)) => true,
            Some(T::P(c)) => matches!(c, b'<' | b'{' | b'['),
            Some(T::Id(s)) if s.starts_with("f0x") => true,
            Some(T::Id(s)) => matches!(
                *s,
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "inttoptr"
                    | "ptrtoint" | "getelementptr" | "splat" | "bitcast" | "sub" | "add"
            ),
            _ => false,
        }
    }
    fn skip_attrs(&mut self) {
        while !self.is_operand_start() {
            match self.peek() {
                Some(T::Id("align")) => {
                    self.i += 1;
                    if self.is_p(b'(') {
                        self.skip_parens();
                    } else {
                        self.i += 1;
                    }
                }
                Some(T::Id(_)) | Some(T::S(_)) | Some(T::At(_)) => {
                    self.i += 1;
                    if self.is_p(b'(') {
                        self.skip_parens();
                    } else if self.is_p(b'=') {
                        self.i += 2;
                    }
                }
                _ => return,
            }
        }
    }
}

struct FB<'m> {
    p: P<'m>,
    regs: HashMap<&'static str, u32>,
    blocks: HashMap<&'static str, u32>,
}
impl<'m> FB<'m> {
    fn reg(&mut self, n: &'static str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn opd(&mut self, t: &Ty) -> R<Opd> {
        if let Some(T::L(n)) = self.p.peek() {
            let n = *n;
            self.p.i += 1;
            return Ok(Opd::R(self.reg(n)));
        }
        Ok(Opd::C(self.p.konst(t)?))
    }
    fn tyopd(&mut self) -> R<(Rc<Ty>, Opd)> {
        let t = self.p.ty()?;
        self.p.skip_attrs();
        let o = self.opd(&t)?;
        Ok((t, o))
    }
    fn label(&mut self) -> R<u32> {
        if !self.p.eat_id("label") {
            return Err("label".into());
        }
        self.bb()
    }
    fn bb(&mut self) -> R<u32> {
        match self.p.next()? {
            T::L(n) => self.blocks.get(n).copied().ok_or(format!("no block {}", n)),
            x => Err(format!("block? {:?}", x)),
        }
    }
    fn inst(&mut self, frame: &mut u32) -> R<(Option<Inst>, Option<(u32, Vec<(u32, Opd)>)>)> {
        let mut dst = None;
        if let (Some(T::L(n)), Some(T::P(b'='))) = (self.p.t.get(0), self.p.t.get(1)) {
            let n = *n;
            dst = Some(self.reg(n));
            self.p.i = 2;
        }
        let mut op = match self.p.next()? {
            T::Id(s) => s,
            x => return Err(format!("opcode {:?}", x)),
        };
        if matches!(op, "tail" | "musttail" | "notail") {
            self.p.i += 1;
            op = "call";
        }
        let d = dst.unwrap_or(u32::MAX);
        let bin = match op {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            _ => None,
        };
        let flags = |p: &mut P| {
            while !p.is_type_start() {
                p.i += 1
            }
        };
        if let Some(b) = bin {
            flags(&mut self.p);
            let t = self.p.ty()?;
            let x = self.opd(&t)?;
            self.p.expect(b',')?;
            let y = self.opd(&t)?;
            let (l, w) = lw(&t);
            return Ok((Some(Inst::Bin(d, b, w, l, x, y)), None));
        }
        let fb = match op {
            "fadd" => Some(FOp::Add),
            "fsub" => Some(FOp::Sub),
            "fmul" => Some(FOp::Mul),
            "fdiv" => Some(FOp::Div),
            "frem" => Some(FOp::Rem),
            _ => None,
        };
        if let Some(b) = fb {
            flags(&mut self.p);
            let t = self.p.ty()?;
            let x = self.opd(&t)?;
            self.p.expect(b',')?;
            let y = self.opd(&t)?;
            if t.is_agg() {
                return Err("vector fp".into());
            }
            return Ok((Some(Inst::FBin(d, b, t.bits(), x, y)), None));
        }
        let ck = match op {
            "trunc" => Some(CastK::Trunc),
            "zext" => Some(CastK::ZExt),
            "sext" => Some(CastK::SExt),
            "ptrtoint" | "ptrtoaddr" => Some(CastK::PtrToInt),
            "inttoptr" => Some(CastK::IntToPtr),
            "bitcast" => Some(CastK::BitCast),
            "uitofp" => Some(CastK::UiToFp),
            "sitofp" => Some(CastK::SiToFp),
            "fptoui" => Some(CastK::FpToUi),
            "fptosi" => Some(CastK::FpToSi),
            "fpext" => Some(CastK::FpExt),
            "fptrunc" => Some(CastK::FpTrunc),
            _ => None,
        };
        if let Some(k) = ck {
            flags(&mut self.p);
            let (t, x) = self.tyopd()?;
            if !self.p.eat_id("to") {
                return Err("cast to".into());
            }
            let tt = self.p.ty()?;
            return Ok((Some(Inst::Cast(d, k, t, tt, x)), None));
        }
        let inst = match op {
            "ret" => {
                let t = self.p.ty()?;
                if *t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.opd(&t)?))
                }
            }
            "br" => {
                if self.p.peek() == Some(&T::Id("label")) {
                    Inst::Br(self.label()?)
                } else {
                    let (_, c) = self.tyopd()?;
                    self.p.expect(b',')?;
                    let a = self.label()?;
                    self.p.expect(b',')?;
                    let b = self.label()?;
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyopd()?;
                self.p.expect(b',')?;
                let def = self.label()?;
                self.p.expect(b'[')?;
                let mut cases = Vec::new();
                while !self.p.eat(b']') {
                    let ct = self.p.ty()?;
                    let k = match self.p.konst(&ct)? {
                        Val::I(x) => x as u128,
                        Val::W(x) => *x,
                        _ => return Err("case".into()),
                    };
                    self.p.expect(b',')?;
                    let b = self.label()?;
                    cases.push((k, b));
                }
                Inst::Switch(t.bits(), v, cases, def)
            }
            "unreachable" => Inst::Unreachable,
            "alloca" => {
                self.p.eat_id("inalloca");
                let t = self.p.ty()?;
                let mut n = 1u64;
                let mut al = 16u64;
                while self.p.eat(b',') {
                    if self.p.eat_id("align") {
                        al = self.p.num()? as u64;
                        continue;
                    }
                    if self.p.is_type_start() {
                        let (_, o) = self.tyopd()?;
                        match o {
                            Opd::C(Val::I(k)) => n = k,
                            _ => return Err("dynamic alloca".into()),
                        }
                        continue;
                    }
                    break;
                }
                let a = al.max(8) as u32;
                let off = (*frame + a - 1) / a * a;
                *frame = off + (t.size() * n) as u32 + 16;
                Inst::Alloca(d, off)
            }
            "load" => {
                flags(&mut self.p);
                let t = self.p.ty()?;
                self.p.expect(b',')?;
                let (_, p) = self.tyopd()?;
                Inst::Load(d, t, p)
            }
            "store" => {
                flags(&mut self.p);
                let (t, v) = self.tyopd()?;
                self.p.expect(b',')?;
                let (_, p) = self.tyopd()?;
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                flags(&mut self.p);
                let et = self.p.ty()?;
                self.p.expect(b',')?;
                let (_, base) = self.tyopd()?;
                let mut terms = Vec::new();
                let mut k = 0i64;
                let mut cur = et.clone();
                let mut first = true;
                while self.p.eat(b',') {
                    if !self.p.is_type_start() {
                        break;
                    }
                    let (it, o) = self.tyopd()?;
                    let scale;
                    if first {
                        scale = et.size() as i64;
                    } else {
                        match (&*cur, &o) {
                            (Ty::Struct(..), Opd::C(Val::I(x))) => {
                                k += cur.field_off(*x as usize) as i64;
                                cur = cur.elem(*x as usize);
                                continue;
                            }
                            _ => {
                                let e = cur.elem(0);
                                scale = e.size() as i64;
                                cur = e;
                            }
                        }
                    }
                    first = false;
                    match o {
                        Opd::C(Val::I(x)) => {
                            k = k.wrapping_add(
                                (crate::expr::sx(x as u128, it.bits()) as i64).wrapping_mul(scale),
                            )
                        }
                        o => terms.push((o, it.bits(), scale)),
                    }
                }
                Inst::Gep(d, base, terms, k)
            }
            "icmp" => {
                self.p.eat_id("samesign");
                let pr = match self.p.next()? {
                    T::Id("eq") => Pred::Eq,
                    T::Id("ne") => Pred::Ne,
                    T::Id("ugt") => Pred::Ugt,
                    T::Id("uge") => Pred::Uge,
                    T::Id("ult") => Pred::Ult,
                    T::Id("ule") => Pred::Ule,
                    T::Id("sgt") => Pred::Sgt,
                    T::Id("sge") => Pred::Sge,
                    T::Id("slt") => Pred::Slt,
                    T::Id("sle") => Pred::Sle,
                    x => return Err(format!("pred {:?}", x)),
                };
                let t = self.p.ty()?;
                let x = self.opd(&t)?;
                self.p.expect(b',')?;
                let y = self.opd(&t)?;
                let (l, w) = lw(&t);
                Inst::ICmp(d, pr, w, l, x, y)
            }
            "fcmp" => {
                let mut pr = String::new();
                while !self.p.is_type_start() {
                    if let T::Id(s) = self.p.next()? {
                        pr = s.to_string();
                    }
                }
                let t = self.p.ty()?;
                let x = self.opd(&t)?;
                self.p.expect(b',')?;
                let y = self.opd(&t)?;
                Inst::FCmp(d, pr, t.bits(), x, y)
            }
            "fneg" => {
                flags(&mut self.p);
                let (t, x) = self.tyopd()?;
                Inst::FNeg(d, t.bits(), x)
            }
            "phi" => {
                flags(&mut self.p);
                let t = self.p.ty()?;
                let mut inc = Vec::new();
                loop {
                    self.p.expect(b'[')?;
                    let o = self.opd(&t)?;
                    self.p.expect(b',')?;
                    let b = self.bb()?;
                    self.p.expect(b']')?;
                    inc.push((b, o));
                    if !self.p.eat(b',') || !self.p.is_p(b'[') {
                        break;
                    }
                }
                return Ok((None, Some((d, inc))));
            }
            "select" => {
                flags(&mut self.p);
                let (ct, c) = self.tyopd()?;
                self.p.expect(b',')?;
                let (t, a) = self.tyopd()?;
                self.p.expect(b',')?;
                let (_, b) = self.tyopd()?;
                Inst::Select(d, t, ct.is_agg(), c, a, b)
            }
            "freeze" => {
                let (_, x) = self.tyopd()?;
                Inst::Mov(d, x)
            }
            "fence" => Inst::Fence,
            "atomicrmw" => {
                self.p.eat_id("volatile");
                let o = match self.p.next()? {
                    T::Id("xchg") => RmwOp::Xchg,
                    T::Id("add") => RmwOp::Add,
                    T::Id("sub") => RmwOp::Sub,
                    T::Id("and") => RmwOp::And,
                    T::Id("nand") => RmwOp::Nand,
                    T::Id("or") => RmwOp::Or,
                    T::Id("xor") => RmwOp::Xor,
                    T::Id("max") => RmwOp::Max,
                    T::Id("min") => RmwOp::Min,
                    T::Id("umax") => RmwOp::UMax,
                    T::Id("umin") => RmwOp::UMin,
                    x => return Err(format!("rmw {:?}", x)),
                };
                let (_, p) = self.tyopd()?;
                self.p.expect(b',')?;
                let (t, v) = self.tyopd()?;
                Inst::Rmw(d, o, t.bits(), p, v)
            }
            "cmpxchg" => {
                self.p.eat_id("weak");
                self.p.eat_id("volatile");
                let (_, p) = self.tyopd()?;
                self.p.expect(b',')?;
                let (t, c) = self.tyopd()?;
                self.p.expect(b',')?;
                let (_, n) = self.tyopd()?;
                Inst::CmpXchg(d, t.bits(), p, c, n)
            }
            "extractvalue" => {
                let (_, a) = self.tyopd()?;
                let mut ix = Vec::new();
                while self.p.eat(b',') {
                    match self.p.peek() {
                        Some(T::N(_)) => ix.push(self.p.num()? as u32),
                        _ => break,
                    }
                }
                Inst::ExtractValue(d, a, ix)
            }
            "insertvalue" => {
                let (_, a) = self.tyopd()?;
                self.p.expect(b',')?;
                let (_, v) = self.tyopd()?;
                let mut ix = Vec::new();
                while self.p.eat(b',') {
                    match self.p.peek() {
                        Some(T::N(_)) => ix.push(self.p.num()? as u32),
                        _ => break,
                    }
                }
                Inst::InsertValue(d, a, v, ix)
            }
            "extractelement" => {
                let (_, a) = self.tyopd()?;
                self.p.expect(b',')?;
                let (_, i) = self.tyopd()?;
                Inst::ExtractElt(d, a, i)
            }
            "insertelement" => {
                let (_, a) = self.tyopd()?;
                self.p.expect(b',')?;
                let (_, v) = self.tyopd()?;
                self.p.expect(b',')?;
                let (_, i) = self.tyopd()?;
                Inst::InsertElt(d, a, v, i)
            }
            "shufflevector" => {
                let (_, a) = self.tyopd()?;
                self.p.expect(b',')?;
                let (_, b) = self.tyopd()?;
                self.p.expect(b',')?;
                let mt = self.p.ty()?;
                let m = self.p.konst(&mt)?;
                let v = match m {
                    Val::A(v) => v
                        .iter()
                        .map(|x| match x {
                            Val::I(k) => *k as i64,
                            _ => 0,
                        })
                        .collect(),
                    _ => return Err("mask".into()),
                };
                Inst::Shuffle(d, a, b, v)
            }
            "call" | "invoke" => {
                while !self.p.is_type_start() {
                    match self.p.next()? {
                        T::Id("align") => {
                            if self.p.is_p(b'(') {
                                self.p.skip_parens()
                            } else {
                                self.p.i += 1
                            }
                        }
                        T::Id("cc") => self.p.i += 1,
                        T::Id(_) | T::S(_) | T::At(_) => {
                            if self.p.is_p(b'(') {
                                self.p.skip_parens()
                            }
                        }
                        x => return Err(format!("call attr {:?}", x)),
                    }
                }
                let ret = self.p.ty()?;
                if self.p.is_p(b'(') {
                    self.p.skip_parens();
                }
                let callee = match self.p.next()? {
                    T::G(n) => {
                        let n = self.p.m.resolve(n);
                        Callee::Fn(*self.p.m.fidx.get(n).ok_or(format!("fn {}", n))?)
                    }
                    T::L(n) => Callee::Ind(Opd::R(self.reg(n))),
                    T::Id("asm") => {
                        let mut s = String::new();
                        while !self.p.is_p(b'(') {
                            if let T::S(x) = self.p.next()? {
                                s.push_str(x);
                                s.push('|');
                            }
                        }
                        Callee::Asm(s)
                    }
                    T::Id("inttoptr") => {
                        self.p.i -= 1;
                        Callee::Ind(Opd::C(self.p.konst(&Ty::Ptr)?))
                    }
                    x => return Err(format!("callee {:?}", x)),
                };
                self.p.expect(b'(')?;
                let mut args = Vec::new();
                if !self.p.eat(b')') {
                    loop {
                        let t = self.p.ty()?;
                        if *t == Ty::Other {
                            // metadata argument: skip to , or )
                            let mut dep = 0;
                            loop {
                                match self.p.peek() {
                                    Some(T::P(b'(')) => dep += 1,
                                    Some(T::P(b')')) if dep == 0 => break,
                                    Some(T::P(b')')) => dep -= 1,
                                    Some(T::P(b',')) if dep == 0 => break,
                                    None => return Err("md".into()),
                                    _ => {}
                                }
                                self.p.i += 1;
                            }
                            args.push((t, Opd::C(Val::I(0))));
                        } else {
                            self.p.skip_attrs();
                            let o = self.opd(&t)?;
                            args.push((t, o));
                        }
                        if self.p.eat(b')') {
                            break;
                        }
                        self.p.expect(b',')?;
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    while !self.p.eat_id("to") {
                        self.p.next()?;
                    }
                    normal = Some(self.label()?);
                }
                Inst::Call {
                    dst,
                    ret,
                    callee,
                    args,
                    normal,
                }
            }
            "landingpad" => Inst::LandingPad,
            "resume" => Inst::Resume,
            "cleanupret" | "catchret" => Inst::Resume,
            x => return Err(format!("opcode {}", x)),
        };
        Ok((Some(inst), None))
    }
}
fn lw(t: &Ty) -> (u32, u32) {
    match t {
        Ty::Vec(n, e) => (*n, e.bits()),
        t => (0, t.bits()),
    }
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text: &'static str = Box::leak(
            std::fs::read_to_string(path)
                .map_err(|e| format!("{}: {}", path, e))?
                .into_boxed_str(),
        );
        let mut lines = Vec::new();
        let mut st = 0usize;
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                lines.push((st as u32, i as u32));
                st = i + 1;
            }
        }
        let mut m = Module {
            text,
            lines,
            funcs: Vec::new(),
            fidx: HashMap::new(),
            globals: Vec::new(),
            gidx: HashMap::new(),
            meta: HashMap::new(),
            alias: HashMap::new(),
        };
        let mut i = 0;
        while i < m.lines.len() {
            let l = m.line(i);
            let b = l.as_bytes();
            if b.is_empty() {
                i += 1;
                continue;
            }
            match b[0] {
                b'@' => {
                    let t = lex(&l[..l.len().min(400)]);
                    let name = match &t[0] {
                        T::G(n) => *n,
                        _ => return Err("global".into()),
                    };
                    if t.iter().take(12).any(|x| *x == T::Id("alias")) {
                        let tgt = t.iter().skip(1).find_map(|x| match x {
                            T::G(n) => Some(n.to_string()),
                            _ => None,
                        });
                        m.alias.insert(name, tgt.ok_or("alias")?);
                        i += 1;
                        continue;
                    }
                    let mut constant = false;
                    let mut tls = false;
                    let mut external = false;
                    for x in &t[2..] {
                        match x {
                            T::Id("constant") => {
                                constant = true;
                                break;
                            }
                            T::Id("global") => break,
                            T::Id("thread_local") => tls = true,
                            T::Id("external") | T::Id("extern_weak") => external = true,
                            _ => {}
                        }
                    }
                    m.gidx.insert(name, m.globals.len() as u32);
                    m.globals.push(Global {
                        name: name.to_string(),
                        line: i,
                        constant,
                        tls,
                        external,
                    });
                }
                b'd' if l.starts_with("define") || l.starts_with("declare") => {
                    let at = l.find('@').ok_or("fn name")?;
                    let t = {
                        let s = &l[at..];
                        let e = if s.as_bytes()[1] == b'"' {
                            s[2..].find('"').unwrap() + 3
                        } else {
                            s.find('(').ok_or("fn (")?
                        };
                        &s[..e]
                    };
                    let name: &'static str = t[1..].trim_matches('"');
                    let def = if l.starts_with("define") {
                        let st = i;
                        while m.line(i) != "}" {
                            i += 1;
                        }
                        Some((st, i))
                    } else {
                        None
                    };
                    m.fidx.insert(name, m.funcs.len() as u32);
                    m.funcs.push(Func {
                        name: name.to_string(),
                        is_decl: def.is_none(),
                        def,
                        body: None,
                        ext: 0,
                    });
                }
                b'!' => {
                    let e = l.find(' ').unwrap_or(1);
                    if let Ok(n) = l[1..e].parse::<u32>() {
                        m.meta.insert(n, i as u32);
                    }
                }
                _ => {}
            }
            i += 1;
        }
        Ok(m)
    }
    pub fn line(&self, i: usize) -> &'static str {
        let (a, b) = self.lines[i];
        &self.text[a as usize..b as usize]
    }
    pub fn resolve<'a>(&'a self, n: &'a str) -> &'a str {
        match self.alias.get(n) {
            Some(x) => x,
            None => n,
        }
    }
    pub fn addr_of(&self, n: &str) -> R<u64> {
        let n = self.resolve(n);
        if let Some(i) = self.fidx.get(n) {
            return Ok(FN_BASE + 16 * *i as u64);
        }
        if let Some(i) = self.gidx.get(n) {
            return Ok(OBJ_BASE + ((*i as u64) << OBJ_SHIFT));
        }
        Err(format!("unknown global {}", n))
    }
    /// initial contents of a global
    pub fn global_init(&self, g: u32) -> R<(Rc<Ty>, Val)> {
        let gl = &self.globals[g as usize];
        let l = self.line(gl.line);
        let mut p = P {
            m: self,
            t: lex(l),
            i: 2,
        };
        loop {
            match p.next()? {
                T::Id("global") | T::Id("constant") => break,
                T::Id("thread_local") | T::Id("addrspace") => {
                    if p.is_p(b'(') {
                        p.skip_parens()
                    }
                }
                _ => {}
            }
        }
        let t = p.ty()?;
        if gl.external {
            let v = Val::zero(&t);
            return Ok((t, v));
        }
        let v = p.konst(&t)?;
        Ok((t, v))
    }
    pub fn body(&mut self, f: u32) -> R<&'static Body> {
        if let Some(b) = self.funcs[f as usize].body {
            return Ok(b);
        }
        let b = self
            .parse_body(f)
            .map_err(|e| format!("parsing {}: {}", self.funcs[f as usize].name, e))?;
        let b: &'static Body = Box::leak(Box::new(b));
        self.funcs[f as usize].body = Some(b);
        Ok(b)
    }
    fn parse_body(&self, f: u32) -> R<Body> {
        let (s, e) = self.funcs[f as usize].def.ok_or("not defined")?;
        let mut fb = FB {
            p: P {
                m: self,
                t: lex(self.line(s)),
                i: 0,
            },
            regs: HashMap::new(),
            blocks: HashMap::new(),
        };
        // params
        while !matches!(fb.p.next()?, T::G(_)) {}
        fb.p.expect(b'(')?;
        let mut params = Vec::new();
        let mut unnamed = 0;
        if !fb.p.eat(b')') {
            loop {
                if fb.p.is_p(b'.') || matches!(fb.p.peek(), Some(T::Id("..."))) {
                    return Err("vararg definition".into());
                }
                let _t = fb.p.ty()?;
                fb.p.skip_attrs();
                match fb.p.next()? {
                    T::L(n) => {
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        let r = fb.reg(n);
                        params.push(r)
                    }
                    x => return Err(format!("param {:?}", x)),
                }
                if fb.p.eat(b')') {
                    break;
                }
                fb.p.expect(b',')?;
            }
        }
        // logical lines
        let mut blocks: Vec<Vec<&'static str>> = Vec::new();
        let mut i = s + 1;
        while i < e {
            let l = self.line(i);
            i += 1;
            if l.is_empty() || l.starts_with(';') || l.starts_with("    #dbg") || l.starts_with("  #dbg") {
                continue;
            }
            if !l.starts_with(' ') {
                let name = if l.starts_with('"') {
                    let q = l[1..].find('"').ok_or("label")?;
                    &l[1..1 + q]
                } else {
                    &l[..l.find(':').ok_or("label")?]
                };
                fb.blocks.insert(name, blocks.len() as u32);
                blocks.push(Vec::new());
                continue;
            }
            if blocks.is_empty() {
                let n: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
                fb.blocks.insert(n, 0);
                blocks.push(Vec::new());
            }
            let st = self.lines[i - 1].0 as usize;
            let t = l.trim_start();
            if t.starts_with("switch ") {
                while !self.line(i - 1).trim_start().starts_with(']') && !self.line(i - 1).contains(" ]")
                {
                    i += 1;
                }
            } else if t.starts_with("invoke ") || t.contains(" = invoke ") {
                i += 1;
            } else if t.contains(" = landingpad ") {
                while self.line(i).starts_with("          ") {
                    i += 1;
                }
            }
            let en = self.lines[i - 1].1 as usize;
            blocks.last_mut().unwrap().push(&self.text[st..en]);
        }
        let mut out = Vec::new();
        let mut frame = 0u32;
        let mut base = Vec::new();
        let mut n = 0u32;
        for b in &blocks {
            let mut blk = Block {
                phis: Vec::new(),
                insts: Vec::new(),
            };
            base.push(n);
            for l in b {
                fb.p.t = lex(l);
                fb.p.i = 0;
                let dbg = {
                    let t = &fb.p.t;
                    let mut d = 0;
                    for k in 0..t.len() {
                        if t[k] == T::M("dbg") {
                            if let Some(T::M(x)) = t.get(k + 1) {
                                d = x.parse().unwrap_or(0);
                            }
                        }
                    }
                    d
                };
                match fb.inst(&mut frame) {
                    Ok((Some(i), _)) => {
                        let atomic = match &i {
                            Inst::Rmw(..) | Inst::CmpXchg(..) => true,
                            Inst::Load(..) | Inst::Store(..) => {
                                fb.p.t.iter().take(5).any(|x| *x == T::Id("atomic"))
                            }
                            _ => false,
                        };
                        if atomic {
                            blk.insts.push((Inst::Sched, dbg));
                        }
                        blk.insts.push((i, dbg))
                    }
                    Ok((_, Some(p))) => blk.phis.push(p),
                    Ok(_) => {}
                    Err(e) => blk
                        .insts
                        .push((Inst::Unsupported(format!("{}: {}", e, l.trim())), dbg)),
                }
            }
            n += blk.insts.len() as u32;
            out.push(blk);
        }
        Ok(Body {
            func: f,
            nregs: fb.regs.len() as u32,
            params,
            blocks: out,
            stack_size: frame,
            ninst: n,
            block_base: base,
        })
    }
    fn md_field(l: &str, k: &str) -> Option<String> {
        let key = format!("{}: ", k);
        let mut from = 0;
        loop {
            let p = l[from..].find(&key)? + from;
            let ok = p == 0 || matches!(l.as_bytes()[p - 1], b'(' | b' ');
            if ok {
                let r = &l[p + key.len()..];
                if let Some(q) = r.strip_prefix('"') {
                    return Some(q[..q.find('"')?].to_string());
                }
                let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
                return Some(r[..e].to_string());
            }
            from = p + 1;
        }
    }
    /// (function linkage name or name, file, line) for every inlining level, innermost first
    pub fn locs(&self, dbg: u32) -> Vec<(String, String, u32)> {
        let mut v = Vec::new();
        let mut cur = Some(dbg);
        let mdl = |s: &str| -> Option<&'static str> {
            let id: u32 = s.trim_start_matches('!').parse().ok()?;
            self.meta.get(&id).map(|l| self.line(*l as usize))
        };
        let mut guard = 0;
        while let Some(d) = cur {
            guard += 1;
            if guard > 64 {
                break;
            }
            let l = match self.meta.get(&d) {
                Some(l) => self.line(*l as usize),
                None => break,
            };
            let line = Self::md_field(l, "line").and_then(|s| s.parse().ok()).unwrap_or(0);
            let mut scope = Self::md_field(l, "scope").and_then(|s| mdl(&s));
            let mut name = String::new();
            let mut file = String::new();
            let mut g2 = 0;
            while let Some(sl) = scope {
                g2 += 1;
                if g2 > 64 {
                    break;
                }
                if sl.contains("!DISubprogram(") {
                    name = Self::md_field(sl, "linkageName")
                        .or_else(|| Self::md_field(sl, "name"))
                        .unwrap_or_default();
                    if let Some(fl) = Self::md_field(sl, "file").and_then(|s| mdl(&s)) {
                        let f = Self::md_field(fl, "filename").unwrap_or_default();
                        let dir = Self::md_field(fl, "directory").unwrap_or_default();
                        file = if f.starts_with('/') || dir.is_empty() {
                            f
                        } else {
                            format!("{}/{}", dir, f)
                        };
                    }
                    break;
                }
                scope = Self::md_field(sl, "scope").and_then(|s| mdl(&s));
            }
            v.push((name, file, line));
            cur = Self::md_field(l, "inlinedAt").and_then(|s| s.trim_start_matches('!').parse().ok());
        }
        v
    }
}
