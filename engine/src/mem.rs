//! Memory objects: concrete bytes plus a sparse map of symbolic bytes, copy-on-write.
use crate::expr::*;
use crate::ir::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<BTreeMap<u32, (E, u8)>>>,
    pub heap: bool,
    pub align: u64,
}
impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj {
            data: vec![0; n],
            sym: None,
            heap: false,
            align: 16,
        }
    }
    pub fn has_sym(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => false,
            Some(m) => m.range(off as u32..(off + n) as u32).next().is_some(),
        }
    }
    pub fn clear_sym(&mut self, off: usize, n: usize) {
        if let Some(m) = &mut self.sym {
            let ks: Vec<u32> = m.range(off as u32..(off + n) as u32).map(|x| *x.0).collect();
            for k in ks {
                m.remove(&k);
            }
            if m.is_empty() {
                self.sym = None;
            }
        }
    }
    pub fn put(&mut self, off: usize, bytes: &[u8]) {
        if self.sym.is_some() {
            self.clear_sym(off, bytes.len());
        }
        self.data[off..off + bytes.len()].copy_from_slice(bytes);
    }
    pub fn put_e(&mut self, off: usize, n: usize, e: E) {
        let m = self.sym.get_or_insert_with(Default::default);
        for i in 0..n {
            m.insert((off + i) as u32, (e, i as u8));
        }
    }
    pub fn get_u64(&self, off: usize, n: usize) -> u64 {
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(&self.data[off..off + n]);
        u64::from_le_bytes(b)
    }
    pub fn get_u128(&self, off: usize, n: usize) -> u128 {
        let mut b = [0u8; 16];
        b[..n].copy_from_slice(&self.data[off..off + n]);
        u128::from_le_bytes(b)
    }
    pub fn byte_e(&self, ctx: &mut Ctx, off: usize) -> E {
        if let Some(m) = &self.sym {
            if let Some((e, i)) = m.get(&(off as u32)) {
                let lo = *i as u32 * 8;
                return ctx.extract(*e, lo + 7, lo);
            }
        }
        ctx.konst(self.data[off] as u128, 8)
    }
    /// n bytes as an expression of 8*n bits
    pub fn get_e(&self, ctx: &mut Ctx, off: usize, n: usize) -> E {
        if let Some(m) = &self.sym {
            if let Some((e, 0)) = m.get(&(off as u32)) {
                if ctx.w(*e) == 8 * n as u32
                    && (1..n).all(|k| m.get(&((off + k) as u32)) == Some(&(*e, k as u8)))
                {
                    return *e;
                }
            }
        }
        let mut r = self.byte_e(ctx, off);
        for k in 1..n {
            let b = self.byte_e(ctx, off + k);
            r = ctx.concat(b, r);
        }
        r
    }
    pub fn init(&mut self, off: usize, t: &Ty, v: &Val) {
        match (t, v) {
            (_, Val::A(a)) => {
                if let Ty::Vec(_, e) = t {
                    if e.bits() % 8 != 0 {
                        let mut x = 0u64;
                        for (i, b) in a.iter().enumerate() {
                            if let Val::I(1) = b {
                                x |= 1 << i;
                            }
                        }
                        let n = t.store_size() as usize;
                        self.put(off, &x.to_le_bytes()[..n]);
                        return;
                    }
                }
                for (i, x) in a.iter().enumerate() {
                    let e = t.elem(i);
                    self.init(off + t.field_off(i) as usize, &e, x);
                }
            }
            (t, Val::I(x)) => {
                let n = t.store_size() as usize;
                self.put(off, &x.to_le_bytes()[..n]);
            }
            (t, Val::W(x)) => {
                let n = t.store_size() as usize;
                self.put(off, &x.to_le_bytes()[..n]);
            }
            _ => unreachable!(),
        }
    }
}

pub const CH: usize = 32;
#[derive(Clone)]
pub struct Chunk(pub [Option<Rc<Obj>>; CH]);

#[derive(Clone)]
pub struct Table {
    pub chunks: Vec<Rc<Chunk>>,
    pub next: usize,
}
impl Table {
    pub fn new(start: usize) -> Table {
        Table {
            chunks: Vec::new(),
            next: start,
        }
    }
    pub fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        self.chunks.get(i / CH).and_then(|c| c.0[i % CH].as_ref())
    }
    pub fn set(&mut self, i: usize, o: Option<Rc<Obj>>) {
        while self.chunks.len() <= i / CH {
            self.chunks.push(Rc::new(Chunk(Default::default())));
        }
        Rc::make_mut(&mut self.chunks[i / CH]).0[i % CH] = o;
    }
    pub fn get_mut(&mut self, i: usize) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(i / CH)?;
        let c = Rc::make_mut(c);
        c.0[i % CH].as_mut().map(Rc::make_mut)
    }
    pub fn alloc(&mut self, o: Obj) -> u64 {
        let i = self.next;
        self.next += 1;
        self.set(i, Some(Rc::new(o)));
        OBJ_BASE + ((i as u64) << OBJ_SHIFT)
    }
}
