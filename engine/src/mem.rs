//! Objects, addresses and the copy-on-write heap.
use crate::expr::*;
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Obj { pub b: Vec<u8>, pub s: Option<Vec<u32>> }
impl Obj {
    pub fn new(n: usize) -> Obj { Obj { b: vec![0; n], s: None } }
    pub fn read(&self, off: usize, n: usize) -> Val { // n <= 16 bytes, little endian
        if let Some(s) = &self.s {
            let sl = &s[off..off + n];
            if sl.iter().any(|&x| x != 0) {
                let mut e = 0; let mut first = true;
                for i in 0..n { let b = if sl[i] != 0 { sl[i] } else { cst(self.b[off + i] as u128, 8) }; if first { e = b; first = false; } else { e = concat(b, e); } }
                return if let Some(c) = as_const(e) { Val::C(c) } else { Val::S(e) };
            }
        }
        let mut buf = [0u8; 16];
        buf[..n].copy_from_slice(&self.b[off..off + n]);
        Val::C(u128::from_le_bytes(buf))
    }
    pub fn byte(&self, off: usize) -> E { if let Some(s) = &self.s { if s[off] != 0 { return s[off]; } } cst(self.b[off] as u128, 8) }
    pub fn write_c(&mut self, off: usize, n: usize, v: u128) {
        let buf = v.to_le_bytes();
        self.b[off..off + n].copy_from_slice(&buf[..n]);
        if let Some(s) = &mut self.s { for x in &mut s[off..off + n] { *x = 0; } }
    }
    pub fn write_e(&mut self, off: usize, n: usize, e: E) {
        let l = self.b.len();
        let s = self.s.get_or_insert_with(|| vec![0; l]);
        for i in 0..n { let x = extract(e, (i * 8) as u8, 8); if let Some(c) = as_const(x) { self.b[off + i] = c as u8; s[off + i] = 0; } else { s[off + i] = x; } }
    }
    pub fn set_byte(&mut self, off: usize, x: E) { if let Some(c) = as_const(x) { self.b[off] = c as u8; if let Some(s) = &mut self.s { s[off] = 0; } } else { let l = self.b.len(); self.s.get_or_insert_with(|| vec![0; l])[off] = x; } }
    pub fn resize(&mut self, n: usize) { self.b.resize(n, 0); if let Some(s) = &mut self.s { s.resize(n, 0); } }
}

const CH: usize = 64;
#[derive(Clone, Default)]
pub struct Heap { chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>, pub next: usize }
impl Heap {
    pub fn alloc(&mut self, n: usize) -> usize {
        if self.next == 0 { self.next = 1; }
        let id = self.next; self.next += 1;
        self.put(id, Obj::new(n));
        id
    }
    pub fn put(&mut self, id: usize, o: Obj) {
        while self.chunks.len() <= id / CH { self.chunks.push(Rc::new(vec![None; CH])); }
        Rc::make_mut(&mut self.chunks[id / CH])[id % CH] = Some(Rc::new(o));
    }
    #[inline] pub fn get(&self, id: usize) -> Option<&Obj> { self.chunks.get(id / CH)?[id % CH].as_deref() }
    #[inline] pub fn get_mut(&mut self, id: usize) -> Option<&mut Obj> { Rc::make_mut(self.chunks.get_mut(id / CH)?)[id % CH].as_mut().map(Rc::make_mut) }
    pub fn free(&mut self, id: usize) -> Option<usize> { let c = self.chunks.get_mut(id / CH)?; let o = Rc::make_mut(c)[id % CH].take()?; Some(o.b.len()) }
    pub fn live(&self) -> usize { self.chunks.iter().map(|c| c.iter().filter(|x| x.is_some()).count()).sum() }
}

pub fn write_init(m: &Module, o: &mut Obj, off: u64, t: &Ty, v: &Val2) {
    match v {
        Val2::Zero => {}
        Val2::Bytes(b) => o.b[off as usize..off as usize + b.len()].copy_from_slice(b),
        Val2::V(v) => write_val(o, off, t, v),
        Val2::List(l) => match t {
            Ty::Arr(_, et) => { let sz = et.size(); for (i, x) in l.iter().enumerate() { write_init(m, o, off + i as u64 * sz, et, x); } }
            Ty::Struct(s) => { let offs = t.offsets(); for (i, x) in l.iter().enumerate() { write_init(m, o, off + offs[i], &s.0[i], x); } }
            _ => panic!("init list for {:?}", t),
        },
    }
}
pub fn write_val(o: &mut Obj, off: u64, t: &Ty, v: &Val) {
    match (t, v) {
        (Ty::Vec(n, et), Val::Agg(a)) if matches!(**et, Ty::Int(w) if w % 8 != 0) => {
            // packed sub-byte lanes
            let w = et.width() as usize; let mut acc: E = 0; let mut first = true;
            for x in a.iter().take(*n as usize) { let e = to_e(x, w as u8); acc = if first { first = false; e } else { concat(e, acc) }; }
            let bits = *n as usize * w; let bytes = (bits + 7) / 8; let acc = zext(acc, (bytes * 8) as u8);
            if let Some(c) = as_const(acc) { o.write_c(off as usize, bytes, c) } else { o.write_e(off as usize, bytes, acc) }
        }
        (Ty::Vec(_, et), Val::Agg(a)) | (Ty::Arr(_, et), Val::Agg(a)) => { let sz = et.size(); for (i, x) in a.iter().enumerate() { write_val(o, off + i as u64 * sz, et, x); } }
        (Ty::Struct(s), Val::Agg(a)) => { let offs = t.offsets(); for (i, x) in a.iter().enumerate() { write_val(o, off + offs[i], &s.0[i], x); } }
        (_, Val::C(c)) => { let n = t.store_size() as usize; o.write_c(off as usize, n, *c) }
        (_, Val::S(e)) => { let n = t.store_size() as usize; let e = zext(*e, (n * 8) as u8); o.write_e(off as usize, n, e) }
        _ => panic!("write_val {:?}", t),
    }
}
pub fn read_val(o: &Obj, off: u64, t: &Ty) -> Val {
    match t {
        Ty::Vec(n, et) if matches!(**et, Ty::Int(w) if w % 8 != 0) => {
            let w = et.width(); let bytes = (*n as usize * w as usize + 7) / 8;
            let e = to_e(&o.read(off as usize, bytes), (bytes * 8) as u8);
            Val::Agg((0..*n).map(|i| from_e(extract(e, i as u8 * w, w))).collect())
        }
        Ty::Vec(n, et) => { let sz = et.size(); Val::Agg((0..*n as u64).map(|i| read_val(o, off + i * sz, et)).collect()) }
        Ty::Arr(n, et) => { let sz = et.size(); Val::Agg((0..*n).map(|i| read_val(o, off + i * sz, et)).collect()) }
        Ty::Struct(s) => { let offs = t.offsets(); Val::Agg(s.0.iter().enumerate().map(|(i, ft)| read_val(o, off + offs[i], ft)).collect()) }
        _ => { let n = t.store_size() as usize; let w = t.width(); match o.read(off as usize, n) { Val::C(c) => Val::C(c & mask(w)), Val::S(e) => from_e(extract(e, 0, w)), v => v } }
    }
}
#[inline] pub fn to_e(v: &Val, w: u8) -> E { match v { Val::C(c) => cst(*c, w), Val::S(e) => *e, Val::Agg(_) => panic!("to_e of aggregate") } }
#[inline] pub fn from_e(e: E) -> Val { if let Some(c) = as_const(e) { Val::C(c) } else { Val::S(e) } }
pub type GlobMap = HashMap<u64, Rc<Obj>>;
