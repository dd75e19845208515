//! Path-forking symbolic execution of LLVM IR.
use crate::env::Env;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame { pub f: &'static Func, pub pc: u32, pub blk: u32, pub regs: Vec<Val>, pub sobj: u32 }
pub const NOSTACK: u32 = u32::MAX;

#[derive(Clone)]
pub struct Thread { pub tid: u32, pub top: Frame, pub frames: Vec<Rc<Frame>>, pub stack: Vec<Rc<Obj>>, pub status: TStat, pub retval: u64, pub woken: bool }
#[derive(Clone, PartialEq, Debug)]
pub enum TStat { Run, Done, Futex(u64), Join(u32), Block(u64) }

#[derive(Clone)]
pub struct Input { pub name: Rc<str>, pub vals: Rc<Vec<E>>, pub w: u8 }

#[derive(Clone)]
pub struct State {
    pub cur: Thread,
    pub parked: Vec<Option<Rc<Thread>>>,
    pub heap: Heap,
    pub free: HashMap<usize, Vec<usize>>,
    pub reuse: bool,
    pub globs: Rc<GlobMap>,
    pub tls: Rc<GlobMap>,
    pub pc: Vec<E>,
    /// conditions implied by pc (never sent to the solver)
    pub facts: Rc<HashSet<E>>,
    pub model: Rc<Model>,
    pub memo: Rc<RefCell<HashMap<E, u128>>>,
    pub fixed: Rc<HashMap<E, u128>>,
    pub inputs: Vec<Input>,
    pub env: Env,
    pub steps: u64,
    pub allow_panic: bool,
    pub reached: BTreeSet<String>,
    pub asserts: u64,
}

#[derive(Debug)]
pub enum Stop { Done, Infeasible, Panic(String), Hang(String), Assert(String), Mem(String), Unsup(String), Unknown(String) }

#[derive(Default)]
pub struct Stats { pub paths: u64, pub done: u64, pub infeasible: u64, pub allowed_panics: u64, pub forks: u64, pub instrs: u64, pub asserts: u64, pub errors: Vec<String>, pub max_pc: usize, pub reach: BTreeMap<String, u64>, pub symb_branches: u64 , pub conc_forks: u64}

pub struct X {
    pub m: Module,
    pub solver: Solver,
    pub work: Vec<State>,
    pub st: Stats,
    pub gcache: Vec<Option<Rc<Obj>>>,
    pub seen_fn: HashSet<u32>,
    pub max_steps: u64,
    pub trace: bool, pub tier: u64,
    pub itrace: bool,
    pub dbgu: bool,
    pub assume_fail_ok: bool,
    pub prof: Option<HashMap<u32, u64>>,
    pub forkprof: HashMap<String, u64>,
    pub tainted: bool,
}

pub enum Ext { V(Val), Pushed, Unwound }

impl State {
    pub fn eval(&self, e: E) -> u128 { if let Some(c) = as_const(e) { return c; } eval(e, &self.model, &mut self.memo.borrow_mut()) }
    pub fn set_model(&mut self, upd: &[(E, u128)]) { let mut m = (*self.model).clone(); for &(k, v) in upd { m.insert(k, v); } self.model = Rc::new(m); self.memo = Rc::new(RefCell::new(HashMap::new())); }
    pub fn backtrace(&self) -> String { let mut v = vec![short(&self.cur.top.f.name)]; for f in self.cur.frames.iter().rev().take(14) { v.push(short(&f.f.name)); } v.join(" < ") }
    pub fn reg(&self, o: &Opd) -> Val { match o { Opd::R(r) => self.cur.top.regs[*r as usize].clone(), Opd::C(c) => Val::C(*c), Opd::V(v) => v.clone() } }
    #[inline] pub fn set(&mut self, d: u32, v: Val) { if d != NODST { self.cur.top.regs[d as usize] = v; } }
}

/// readable approximation of a v0 mangled name
pub fn short(n: &str) -> String {
    let b = n.as_bytes(); let mut out: Vec<String> = vec![]; let mut i = 0;
    if !n.starts_with("_R") { return n.to_string(); }
    while i < b.len() {
        if b[i].is_ascii_digit() { let st = i; while i < b.len() && b[i].is_ascii_digit() { i += 1; } let len: usize = n[st..i].parse().unwrap_or(0); let mut k = i; if k < b.len() && b[k] == b'_' { k += 1; } if len > 0 && k + len <= b.len() && n.is_char_boundary(k + len) && (b[k].is_ascii_alphabetic() || b[k] == b'_') { out.push(n[k..k + len].to_string()); i = k + len; } }
        else if b[i] == b's' || b[i] == b'B' { i += 1; let st = i; while i < b.len() && b[i] != b'_' && b[i].is_ascii_alphanumeric() { i += 1; } if i < b.len() && b[i] == b'_' { i += 1; } else { i = st; } }
        else { i += 1; }
    }
    if out.len() > 7 { out.truncate(7); }
    out.join("::")
}

impl X {
    pub fn new(m: Module, timeout_ms: u32) -> X { let n = m.globs.len(); X { m, solver: Solver::new(timeout_ms), work: vec![], st: Stats::default(), gcache: vec![None; n], seen_fn: HashSet::new(), max_steps: 2_000_000_000, trace: false, tier: 0, dbgu: std::env::var("LLSYM_DBGU").is_ok(), itrace: std::env::var("LLSYM_ITRACE").is_ok(), assume_fail_ok: true, prof: None, forkprof: HashMap::new(), tainted: false } }

    pub fn init_state(&mut self, entry: &str) -> State {
        let id = self.m.fn_id(entry);
        let f = self.m.func(id).unwrap_or_else(|| panic!("no function {entry}"));
        let mut st = State { cur: Thread { tid: 0, top: Frame { f, pc: 0, blk: 0, regs: vec![], sobj: NOSTACK }, frames: vec![], stack: vec![], status: TStat::Run, retval: 0, woken: false }, parked: vec![None], heap: Heap::default(), free: HashMap::new(), reuse: false, globs: Rc::new(HashMap::new()), tls: Rc::new(HashMap::new()), pc: vec![], facts: Rc::new(HashSet::new()), model: Rc::new(HashMap::new()), memo: Rc::new(RefCell::new(HashMap::new())), fixed: Rc::new(HashMap::new()), inputs: vec![], env: Env::default(), steps: 0, allow_panic: false, reached: BTreeSet::new(), asserts: 0 };
        st.cur.top = self.mk_frame(&mut st.cur.stack, f, vec![]);
        st
    }
    pub fn mk_frame(&mut self, stack: &mut Vec<Rc<Obj>>, f: &'static Func, args: Vec<Val>) -> Frame {
        if self.seen_fn.insert(f.id) && self.trace { eprintln!("enter {}", short(&f.name)); }
        let mut regs = args;
        regs.resize(f.nregs as usize, Val::C(0));
        let sobj = if f.frame_size > 0 { stack.push(Rc::new(Obj::new(f.frame_size as usize))); stack.len() as u32 - 1 } else { NOSTACK };
        Frame { f, pc: f.blocks[0].start, blk: 0, regs, sobj }
    }

    // ---------- memory ----------
    fn glob(&mut self, g: u64) -> Result<&Rc<Obj>, Stop> {
        if self.gcache.get(g as usize).map_or(true, |x| x.is_none()) {
            if g as usize >= self.gcache.len() { return Err(Stop::Mem(format!("bad global {g}"))); }
            let (t, v) = self.m.glob_init(g as u32);
            let mut o = Obj::new(t.size() as usize);
            match v { Some(v) => write_init(&self.m, &mut o, 0, &t, &v), None => { if let Some(b) = crate::env::extern_global(&self.m.globs[g as usize].name) { o.b[..b.len()].copy_from_slice(&b) } else { return Err(Stop::Unsup(format!("external global {}", self.m.globs[g as usize].name))); } } }
            self.gcache[g as usize] = Some(Rc::new(o));
        }
        Ok(self.gcache[g as usize].as_ref().unwrap())
    }
    pub fn rd<'a>(&'a mut self, st: &'a State, a: u64, n: u64) -> Result<(&'a Obj, usize), Stop> {
        let (r, id, off) = split(a);
        let o: &Obj = match r {
            R_HEAP => match st.heap.get(id as usize) { Some(o) => o, None => return Err(Stop::Mem(format!("read of freed or invalid heap object {a:#x}"))) },
            R_STACK => { let t = (id >> 20) as u32; let k = (id & 0xfffff) as usize; let stk = if t == st.cur.tid { &st.cur.stack } else { match st.parked.get(t as usize).and_then(|x| x.as_ref()) { Some(t) => &t.stack, None => return Err(Stop::Mem("read of dead thread's stack".into())) } }; match stk.get(k) { Some(o) => o, None => return Err(Stop::Mem("read of dead stack frame".into())) } }
            R_GLOB => match st.globs.get(&id) { Some(o) => o, None => self.glob(id)? },
            R_TLS => match st.tls.get(&id) { Some(o) => o, None => self.glob(id & 0xfffff)? },
            _ => return Err(Stop::Mem(format!("read of invalid address {a:#x} ({n} bytes)"))),
        };
        if off + n > o.b.len() as u64 { return Err(Stop::Mem(format!("out-of-bounds read at {a:#x}: {n} bytes at offset {off} of object of size {}", o.b.len()))); }
        Ok((o, off as usize))
    }
    pub fn wr<'a>(&mut self, st: &'a mut State, a: u64, n: u64) -> Result<(&'a mut Obj, usize), Stop> {
        let (r, id, off) = split(a);
        let o: &mut Obj = match r {
            R_HEAP => match st.heap.get_mut(id as usize) { Some(o) => o, None => return Err(Stop::Mem(format!("write to freed or invalid heap object {a:#x}"))) },
            R_STACK => { let t = (id >> 20) as u32; let k = (id & 0xfffff) as usize; let stk = if t == st.cur.tid { &mut st.cur.stack } else { match st.parked.get_mut(t as usize).and_then(|x| x.as_mut()) { Some(t) => &mut Rc::make_mut(t).stack, None => return Err(Stop::Mem("write to dead thread's stack".into())) } }; match stk.get_mut(k) { Some(o) => Rc::make_mut(o), None => return Err(Stop::Mem("write to dead stack frame".into())) } }
            R_GLOB => { if self.m.globs[id as usize].is_const { return Err(Stop::Mem("write to constant".into())); } let g = Rc::make_mut(&mut st.globs); if !g.contains_key(&id) { let o = self.glob(id)?.clone(); g.insert(id, o); } Rc::make_mut(g.get_mut(&id).unwrap()) }
            R_TLS => { let g = Rc::make_mut(&mut st.tls); if !g.contains_key(&id) { let o = self.glob(id & 0xfffff)?.clone(); g.insert(id, o); } Rc::make_mut(g.get_mut(&id).unwrap()) }
            _ => return Err(Stop::Mem(format!("write to invalid address {a:#x} ({n} bytes)"))),
        };
        if off + n > o.b.len() as u64 { return Err(Stop::Mem(format!("out-of-bounds write at {a:#x}: {n} bytes at offset {off} of object of size {}", o.b.len()))); }
        Ok((o, off as usize))
    }
    pub fn read_bytes_e(&mut self, st: &State, a: u64, n: u64) -> Result<Vec<E>, Stop> { if n == 0 { return Ok(vec![]); } let (o, off) = self.rd(st, a, n)?; Ok((0..n as usize).map(|i| o.byte(off + i)).collect()) }
    pub fn read_conc(&mut self, st: &mut State, a: u64, n: u64) -> Result<Vec<u8>, Stop> {
        if n == 0 { return Ok(vec![]); }
        let es = { let (o, off) = self.rd(st, a, n)?; if o.s.is_none() { return Ok(o.b[off..off + n as usize].to_vec()); } (0..n as usize).map(|i| o.byte(off + i)).collect::<Vec<_>>() };
        let mut v = vec![];
        for e in es { v.push(if let Some(c) = as_const(e) { c as u8 } else { self.conc_e(st, e)? as u8 }); }
        Ok(v)
    }
    pub fn cstr(&mut self, st: &mut State, a: u64) -> Result<Vec<u8>, Stop> { let mut v = vec![]; let mut i = 0; loop { let b = self.read_conc(st, a + i, 1)?[0]; if b == 0 { return Ok(v); } v.push(b); i += 1; } }
    pub fn write_bytes(&mut self, st: &mut State, a: u64, b: &[u8]) -> Result<(), Stop> { if b.is_empty() { return Ok(()); } let (o, off) = self.wr(st, a, b.len() as u64)?; o.b[off..off + b.len()].copy_from_slice(b); if let Some(s) = &mut o.s { for x in &mut s[off..off + b.len()] { *x = 0; } } Ok(()) }
    pub fn write_es(&mut self, st: &mut State, a: u64, b: &[E]) -> Result<(), Stop> { if b.is_empty() { return Ok(()); } let (o, off) = self.wr(st, a, b.len() as u64)?; for (i, &e) in b.iter().enumerate() { o.set_byte(off + i, e); } Ok(()) }
    pub fn write_int(&mut self, st: &mut State, a: u64, n: usize, v: u128) -> Result<(), Stop> { let (o, off) = self.wr(st, a, n as u64)?; o.write_c(off, n, v); Ok(()) }
    pub fn read_int(&mut self, st: &mut State, a: u64, n: usize) -> Result<u128, Stop> { let v = { let (o, off) = self.rd(st, a, n as u64)?; o.read(off, n) }; self.conc(st, &v) }
    pub fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> Result<(), Stop> {
        if n == 0 { return Ok(()); }
        let (b, s) = { let (o, off) = self.rd(st, src, n)?; (o.b[off..off + n as usize].to_vec(), o.s.as_ref().map(|s| s[off..off + n as usize].to_vec())) };
        let (o, off) = self.wr(st, dst, n)?;
        o.b[off..off + n as usize].copy_from_slice(&b);
        match s { Some(s) if s.iter().any(|&x| x != 0) => { let l = o.b.len(); o.s.get_or_insert_with(|| vec![0; l])[off..off + n as usize].copy_from_slice(&s); } _ => if let Some(t) = &mut o.s { for x in &mut t[off..off + n as usize] { *x = 0; } } }
        Ok(())
    }
    pub fn malloc(&mut self, st: &mut State, n: u64) -> u64 {
        if st.reuse { if let Some(v) = st.free.get_mut(&(n as usize)) { if let Some(id) = v.pop() { st.heap.put(id, Obj::new(n as usize)); return addr(R_HEAP, id as u64); } } }
        addr(R_HEAP, st.heap.alloc(n as usize) as u64)
    }
    pub fn free(&mut self, st: &mut State, p: u64) -> Result<(), Stop> {
        if p == 0 { return Ok(()); }
        let (r, id, off) = split(p);
        if r != R_HEAP || off != 0 { return Err(Stop::Mem(format!("free of invalid pointer {p:#x}"))); }
        match st.heap.free(id as usize) { Some(n) => { if st.reuse { st.free.entry(n).or_default().push(id as usize); } Ok(()) } None => Err(Stop::Mem("double free".into())) }
    }

    // ---------- symbolic decisions ----------
    fn known(st: &State, c: E) -> Option<bool> { if let Some(v) = as_const(c) { return Some(v == 1); } if st.facts.contains(&c) { return Some(true); } let n = not(c); if st.facts.contains(&n) { return Some(false); } None }
    pub fn fact(&mut self, st: &mut State, c: E) { let k = key(c); if k.op == Op::And && k.w == 1 { self.fact(st, k.a); self.fact(st, k.b); } if as_const(c).is_none() && !st.facts.contains(&c) {
            Rc::make_mut(&mut st.facts).insert(c);
            let mut more = vec![];
            match k.op { Op::Ult => { more.push(bin(Op::Ule, k.a, k.b)); more.push(not(bin(Op::Eq, k.a, k.b))); } Op::Eq if width(k.a) > 1 => { more.push(bin(Op::Ule, k.a, k.b)); more.push(bin(Op::Ule, k.b, k.a)); } _ => {} }
            let f = Rc::make_mut(&mut st.facts); for m in more { if as_const(m).is_none() { f.insert(m); } }
        } }
    /// The value of a condition when the path determines it (one solver query), without forking.
    pub fn implied(&mut self, st: &mut State, c: E) -> Result<Option<bool>, Stop> {
        if let Some(b) = Self::known(st, c) { return Ok(Some(b)); }
        let b = st.eval(c) == 1; let (mine, other) = if b { (c, not(c)) } else { (not(c), c) };
        match self.solver.check(&st.pc, other) { Res::Unsat => { self.fact(st, mine); Ok(Some(b)) } Res::Sat(_) => Ok(None), Res::Unknown => Err(Stop::Unknown("solver returned unknown on an implied condition".into())) }
    }
    fn note_fork(&mut self, st: &State) { self.st.forks += 1; if self.prof.is_some() { let bt = st.backtrace(); *self.forkprof.entry(bt.chars().take(260).collect()).or_insert(0) += 1; } }
    pub fn push_pc(&mut self, st: &mut State, c: E) {
        // split conjunctions for better slicing
        let k = key(c);
        if k.op == Op::And && k.w == 1 { self.push_pc(st, k.a); self.push_pc(st, k.b); return; }
        if as_const(c) == Some(1) { return; }
        if !st.facts.contains(&c) { self.fact(st, c); st.pc.push(c); }
        if st.pc.len() > self.st.max_pc { self.st.max_pc = st.pc.len(); }
    }
    /// Decide a condition: pushes the other feasible side on the worklist (which re-executes the instruction).
    pub fn branch(&mut self, st: &mut State, c: E) -> Result<bool, Stop> {
        if let Some(b) = Self::known(st, c) { return Ok(b); }
        self.st.symb_branches += 1;
        let b = st.eval(c) == 1;
        let other = if b { not(c) } else { c };
        let mine = if b { c } else { not(c) };
        match self.solver.check(&st.pc, other) {
            Res::Sat(m) => { let mut alt = st.clone(); alt.set_model(&m); self.push_pc(&mut alt, other); self.note_fork(st); self.work.push(alt); self.push_pc(st, mine); }
            Res::Unsat => { if self.dbgu { eprintln!("UNSAT {} [{}]", show(mine).chars().take(300).collect::<String>(), st.backtrace().chars().take(100).collect::<String>()); } self.fact(st, mine); }
            Res::Unknown => return Err(Stop::Unknown("solver returned unknown on a branch".into())),
        }
        Ok(b)
    }
    pub fn conc_e(&mut self, st: &mut State, e: E) -> Result<u128, Stop> {
        if let Some(c) = as_const(e) { return Ok(c); }
        if let Some(&v) = st.fixed.get(&e) { return Ok(v); }
        let v = st.eval(e);
        let eq = bin(Op::Eq, e, cst(v, width(e)));
        if let Some(b) = Self::known(st, eq) { if !b { return Err(Stop::Unsup("model inconsistent".into())); } Rc::make_mut(&mut st.fixed).insert(e, v); return Ok(v); }
        match self.solver.check(&st.pc, not(eq)) {
            Res::Sat(m) => { let mut alt = st.clone(); alt.set_model(&m); self.push_pc(&mut alt, not(eq)); self.st.conc_forks += 1; self.note_fork(st); self.work.push(alt); self.push_pc(st, eq); }
            Res::Unsat => { self.fact(st, eq); }
            Res::Unknown => return Err(Stop::Unknown("solver returned unknown on a concretisation".into())),
        }
        Rc::make_mut(&mut st.fixed).insert(e, v);
        Ok(v)
    }
    pub fn conc(&mut self, st: &mut State, v: &Val) -> Result<u128, Stop> { match v { Val::C(c) => Ok(*c), Val::S(e) => self.conc_e(st, *e), Val::Agg(_) => Err(Stop::Unsup("conc of aggregate".into())) } }
    pub fn conc64(&mut self, st: &mut State, v: &Val) -> Result<u64, Stop> { Ok(self.conc(st, v)? as u64) }

    /// Load n bytes (<=16) through a symbolic pointer without forking, if cheap.
    fn sym_load(&mut self, st: &mut State, pe: E, n: u64) -> Result<Option<Val>, Stop> {
        let mut pe = pe; let mut extra = 0u64; // pe + extra
        let k = key(pe);
        if k.op == Op::Add { if let Some(c) = as_const(k.b) { if key(k.a).op == Op::Ite { pe = k.a; extra = c as u64; } } }
        let k = key(pe);
        if k.op == Op::Ite {
            // leaves
            let mut leaves = vec![]; let mut ok = true;
            fn walk(e: E, v: &mut Vec<E>, ok: &mut bool) { if v.len() > 64 { *ok = false; return; } let k = key(e); if k.op == Op::Ite { walk(k.b, v, ok); walk(k.c, v, ok); } else if k.op == Op::Const { v.push(e); } else { *ok = false; } }
            walk(pe, &mut leaves, &mut ok);
            if ok {
                for &l in &leaves { let a = (as_const(l).unwrap() as u64).wrapping_add(extra); if self.rd(st, a, n).is_err() { return Ok(None); } }
                fn build(x: &mut X, st: &State, e: E, extra: u64, n: u64) -> E { let k = key(e); if k.op == Op::Ite { let a = build(x, st, k.b, extra, n); let b = build(x, st, k.c, extra, n); ite(k.a, a, b) } else { let (o, off) = x.rd(st, (k.k as u64).wrapping_add(extra), n).ok().unwrap(); let v = o.read(off, n as usize); to_e(&v, (n * 8) as u8) } }
                return Ok(Some(from_e(build(self, st, pe, extra, n))));
            }
            return Ok(None);
        }
        let (lo, hi) = range(pe);
        let (lo, hi) = (lo as u64, hi as u64);
        if hi - lo > 0x10000 { return Ok(None); }
        let (r0, i0, _) = split(lo); let (r1, i1, _) = split(hi);
        if r0 != r1 || i0 != i1 || r0 == 0 { return Ok(None); }
        let step = 1u64 << tz_off(pe).min(12);
        let cnt = (hi - lo) / step + 1;
        if cnt > 4096 { return Ok(None); }
        let vals: Vec<E> = { match self.rd(st, lo, hi - lo + n) { Ok((o, off)) => (0..cnt).map(|i| to_e(&o.read(off + (i * step) as usize, n as usize), (n * 8) as u8)).collect(), Err(_) => return Ok(None) } };
        let mut runs: Vec<(u64, E)> = vec![]; // (start addr, value)
        for (i, v) in vals.iter().enumerate() { if runs.last().map_or(true, |r| r.1 != *v) { runs.push((lo + i as u64 * step, *v)); } }
        if runs.len() > 700 { return Ok(None); }
        fn tree(pe: E, r: &[(u64, E)]) -> E { if r.len() == 1 { return r[0].1; } let m = r.len() / 2; let a = tree(pe, &r[..m]); let b = tree(pe, &r[m..]); ite(bin(Op::Ult, pe, cst(r[m].0 as u128, 64)), a, b) }
        Ok(Some(from_e(tree(pe, &runs))))
    }
    pub fn load(&mut self, st: &mut State, p: &Val, ty: &Ty, sc: u8) -> Result<Val, Stop> {
        let a = match p {
            Val::C(a) => *a as u64,
            Val::S(e) => { if let Some(&v) = st.fixed.get(e) { v as u64 } else {
                if sc > 0 { let n = ty.store_size(); if let Some(v) = self.sym_load(st, *e, n)? { return Ok(match v { Val::S(e) => from_e(extract(e, 0, sc)), Val::C(c) => Val::C(c & mask(sc)), v => v }); } }
                self.conc_e(st, *e)? as u64 } }
            _ => return Err(Stop::Unsup("load via aggregate".into())),
        };
        if sc > 0 {
            let n = ((sc as u64) + 7) / 8;
            let (o, off) = self.rd(st, a, n)?;
            return Ok(match o.read(off, n as usize) { Val::C(c) => if sc & 7 != 0 { Val::C(c & mask(sc)) } else { Val::C(c) }, Val::S(e) => if sc & 7 != 0 { from_e(extract(e, 0, sc)) } else { Val::S(e) }, v => v });
        }
        let (o, off) = self.rd(st, a, ty.size())?;
        Ok(read_val(o, off as u64, ty))
    }
    pub fn store(&mut self, st: &mut State, p: &Val, v: &Val, ty: &Ty, sc: u8) -> Result<(), Stop> {
        let a = self.conc64(st, p)?;
        if sc > 0 {
            let n = ((sc as usize) + 7) / 8;
            let (o, off) = self.wr(st, a, n as u64)?;
            match v { Val::C(c) => o.write_c(off, n, *c), Val::S(e) => { let e = if sc & 7 != 0 { zext(*e, (n * 8) as u8) } else { *e }; o.write_e(off, n, e) } _ => return Err(Stop::Unsup("store agg as scalar".into())) }
            return Ok(());
        }
        let (o, off) = self.wr(st, a, ty.size())?;
        write_val(o, off as u64, ty, v);
        Ok(())
    }

    // ---------- execution ----------
    fn jump(&mut self, st: &mut State, to: u32) {
        let f = st.cur.top.f; let from = st.cur.top.blk;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 { let (d, inc) = &b.phis[0]; let v = st.reg(&inc.iter().find(|x| x.0 == from).expect("phi edge").1); st.set(*d, v); }
            else { let vals: Vec<(u32, Val)> = b.phis.iter().map(|(d, inc)| (*d, st.reg(&inc.iter().find(|x| x.0 == from).expect("phi edge").1))).collect(); for (d, v) in vals { st.set(d, v); } }
        }
        st.cur.top.blk = to; st.cur.top.pc = b.start;
    }
    pub fn push_call(&mut self, st: &mut State, f: &'static Func, mut args: Vec<Val>) -> Result<(), Stop> {
        if st.cur.frames.len() > 4000 { return Err(Stop::Unsup("call depth".into())); }
        args.truncate(f.nparams as usize);
        for &(i, sz) in &f.byval { // callee-owned copy
            let src = self.conc64(st, &args[i as usize])?; let n = self.malloc(st, sz); self.copy(st, n, src, sz)?; args[i as usize] = Val::C(n as u128);
        }
        let fr = { let mut stk = std::mem::take(&mut st.cur.stack); let fr = self.mk_frame(&mut stk, f, args); st.cur.stack = stk; fr };
        let old = std::mem::replace(&mut st.cur.top, fr);
        st.cur.frames.push(Rc::new(old));
        Ok(())
    }
    fn after_call(&mut self, st: &mut State, v: Option<Val>) {
        let top = &st.cur.top;
        if let I::Call { d, normal, .. } = &top.f.code[top.pc as usize] { let (d, normal) = (*d, *normal); if let Some(v) = v { st.set(d, v); } if normal != NOBLK { self.jump(st, normal); } else { st.cur.top.pc += 1; } } else { panic!("return to non-call"); }
    }
    /// Run the state until it ends.
    pub fn run(&mut self, st: &mut State) -> Stop {
        let mut n = 0u64;
        let r = loop {
            if self.itrace { let t = &st.cur.top; eprintln!("{}:{} {:?}", short(&t.f.name), t.pc, t.f.code[t.pc as usize]); for o in ops_of(&t.f.code[t.pc as usize]) { eprintln!("      {:?} = {:?}", o, st.reg(o)); } }
            match self.step(st) {
                Ok(()) => {}
                Err(Stop::Panic(m)) if st.env.guard.is_some() => { // the guarded call died: go on after it
                    let (nf, ns) = st.env.guard.take().unwrap(); st.env.crash_asked = false;
                    st.cur.frames.truncate(nf + 1); let fr = st.cur.frames.pop().unwrap(); st.cur.top = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone()); st.cur.stack.truncate(ns);
                    let code = m.strip_prefix("exit(").and_then(|m| m.strip_suffix(")")).and_then(|m| m.parse::<u128>().ok()); self.after_call(st, Some(Val::C(match code { Some(c) => 2 + (c & 0xff), None => 1 })));
                }
                Err(s) => break s,
            }
            n += 1;
            if n & 0xfff == 0 { st.steps += 0x1000; if st.steps > self.max_steps { break Stop::Unsup("step limit on one path".into()); } if crate::par::stop_requested() { break Stop::Infeasible; } crate::par::maybe_split(self); }
        };
        self.st.instrs += n;
        r
    }
    #[inline]
    fn step(&mut self, st: &mut State) -> Result<(), Stop> {
        let f = st.cur.top.f;
        let inst = &f.code[st.cur.top.pc as usize];
        match inst {
            I::Bin { op, w, vec, d, a, b } => {
                let (x, y) = (st.reg(a), st.reg(b));
                let v = if *vec { lanes2(&x, &y, |p, q| binop(*op, *w, p, q))? } else { self.bin_scalar(st, *op, *w, &x, &y)? };
                st.set(*d, v);
            }
            I::ICmp { p, w, vec, d, a, b } => { let (x, y) = (st.reg(a), st.reg(b)); let v = if *vec { lanes2(&x, &y, |s, t| Ok(icmp(*p, *w, s, t)))? } else { icmp(*p, *w, &x, &y) }; st.set(*d, v); }
            I::Load { d, ty, sc, p, ord: _ } => { let p = st.reg(p); let v = self.load(st, &p, ty, *sc)?; st.set(*d, v); }
            I::Store { ty, sc, v, p, ord: _ } => { let p = st.reg(p); let v = st.reg(v); self.store(st, &p, &v, ty, *sc)?; }
            I::Gep { d, base, off, idx } => {
                let b = st.reg(base);
                let v = match (&b, idx.as_slice()) {
                    (Val::C(c), []) => Val::C((*c as u64).wrapping_add(*off as u64) as u128),
                    _ => {
                        let mut c = *off as u64; let mut e: Option<E> = None;
                        match &b { Val::C(x) => c = c.wrapping_add(*x as u64), Val::S(x) => e = Some(*x), _ => return Err(Stop::Unsup("gep on agg".into())) }
                        for (o, w, sc) in idx { match st.reg(o) { Val::C(x) => c = c.wrapping_add((sext_val(x, *w) as i64 as u64).wrapping_mul(*sc as u64)), Val::S(x) => { let x = if *w < 64 { sext(x, 64) } else { x }; let t = bin(Op::Mul, x, cst(*sc as u64 as u128, 64)); e = Some(match e { None => t, Some(y) => bin(Op::Add, y, t) }); } _ => return Err(Stop::Unsup("gep idx agg".into())) } }
                        match e { None => Val::C(c as u128), Some(e) => from_e(bin(Op::Add, e, cst(c as u128, 64))) }
                    }
                };
                st.set(*d, v);
            }
            I::Br(b) => { self.jump(st, *b); return Ok(()); }
            I::CondBr(c, a, b) => {
                let t = match st.reg(c) { Val::C(c) => c & 1 == 1, Val::S(e) => self.branch(st, e)?, _ => return Err(Stop::Unsup("br agg".into())) };
                self.jump(st, if t { *a } else { *b }); return Ok(());
            }
            I::Call { d: _, callee, args, rty, normal: _ } => {
                let fid = match callee {
                    Callee::Direct(id) => *id,
                    Callee::Ind(o) => { let v = st.reg(o); let a = self.conc64(st, &v)?; let (r, id, off) = split(a); if r != R_FUNC || off != 0 { return Err(Stop::Mem(format!("call of invalid pointer {a:#x}"))); } id as u32 }
                    Callee::Asm(t) => { let v = crate::env::asm(t, rty)?; self.after_call(st, Some(v)); return Ok(()); }
                };
                if let Some(p) = &mut self.prof { *p.entry(fid).or_insert(0) += 1; }
                let argv: Vec<Val> = args.iter().map(|(o, _)| st.reg(o)).collect();
                return self.call(st, fid, argv, rty);
            }
            I::Ret(v) => {
                let rv = v.as_ref().map(|o| st.reg(o));
                if st.cur.top.sobj != NOSTACK { let k = st.cur.top.sobj as usize; st.cur.stack.truncate(k); }
                match st.cur.frames.pop() {
                    None => { return self.thread_exit(st, rv); }
                    Some(fr) => { st.cur.top = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone()); self.after_call(st, rv); return Ok(()); }
                }
            }
            I::Switch(c, w, dfl, cs) => {
                match st.reg(c) {
                    Val::C(v) => { let t = cs.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(*dfl); self.jump(st, t); }
                    Val::S(e) => {
                        if let Some(&v) = st.fixed.get(&e) { let t = cs.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(*dfl); self.jump(st, t); return Ok(()); }
                        // group by target, decide one target at a time
                        let mut groups: Vec<(u32, E)> = vec![];
                        for (v, l) in cs { let q = bin(Op::Eq, e, cst(*v, *w)); if as_const(q) == Some(0) { continue; } if let Some(g) = groups.iter_mut().find(|g| g.0 == *l) { g.1 = bin(Op::Or, g.1, q); } else { groups.push((*l, q)); } }
                        // targets equal to the default stay in the default group
                        let dcond = { let mut c = tru(); for (l, q) in &groups { if l != dfl { c = bin(Op::And, c, not(*q)); } } c };
                        let mut opts: Vec<(u32, E)> = groups.into_iter().filter(|g| g.0 != *dfl).collect();
                        opts.push((*dfl, dcond));
                        let cur = opts.iter().position(|o| st.eval(o.1) == 1).ok_or_else(|| Stop::Unsup("switch".into()))?;
                        for (i, (l, q)) in opts.iter().enumerate() {
                            if i == cur { continue; }
                            if Self::known(st, *q) == Some(false) { continue; }
                            match self.solver.check(&st.pc, *q) { Res::Sat(m) => { let mut alt = st.clone(); alt.set_model(&m); self.push_pc(&mut alt, *q); self.jump(&mut alt, *l); self.note_fork(st); self.work.push(alt); } Res::Unsat => {} Res::Unknown => return Err(Stop::Unknown("switch".into())) }
                        }
                        let (l, q) = opts[cur]; self.push_pc(st, q); self.jump(st, l);
                    }
                    _ => return Err(Stop::Unsup("switch agg".into())),
                }
                return Ok(());
            }
            I::Select { d, c, a, b, ty } => {
                let v = match st.reg(c) {
                    Val::C(x) => if x & 1 == 1 { st.reg(a) } else { st.reg(b) },
                    Val::S(e) => { let (x, y) = (st.reg(a), st.reg(b)); if let Some(k) = Self::known(st, e) { if k { x } else { y } } else { sel(e, &x, &y, ty) } }
                    Val::Agg(cs) => { let (x, y) = (st.reg(a), st.reg(b)); let et = if let Ty::Vec(_, t) = ty { (**t).clone() } else { return Err(Stop::Unsup("select".into())) }; if let (Val::Agg(x), Val::Agg(y)) = (x, y) { Val::Agg(cs.iter().zip(x.iter().zip(y.iter())).map(|(c, (p, q))| match c { Val::C(1) => p.clone(), Val::C(_) => q.clone(), Val::S(e) => sel(*e, p, q, &et), _ => Val::C(0) }).collect()) } else { return Err(Stop::Unsup("select".into())) } }
                };
                st.set(*d, v);
            }
            I::Cast { k, from, to, d, a } => { let x = st.reg(a); let v = self.cast(st, *k, from, to, &x)?; st.set(*d, v); }
            I::Alloca { d, off } => { let id = ((st.cur.tid as u64) << 20) | st.cur.top.sobj as u64; st.set(*d, Val::C((addr(R_STACK, id) + off) as u128)); }
            I::ExtractV { d, a, idx } => { let mut v = st.reg(a); for &i in idx { v = if let Val::Agg(x) = &v { x[i as usize].clone() } else { return Err(Stop::Unsup("extractvalue".into())) }; } st.set(*d, v); }
            I::InsertV { d, a, v, idx } => { let base = st.reg(a); let v = st.reg(v); let r = insert(&base, &v, idx)?; st.set(*d, r); }
            I::ExtractE { d, a, i } => { let iv = st.reg(i); let i = self.conc(st, &iv)? as usize; let v = if let Val::Agg(x) = st.reg(a) { x[i].clone() } else { return Err(Stop::Unsup("extractelement".into())) }; st.set(*d, v); }
            I::InsertE { d, a, v, i } => { let iv = st.reg(i); let i = self.conc(st, &iv)? as u32; let base = st.reg(a); let v = st.reg(v); let r = insert(&base, &v, &[i])?; st.set(*d, r); }
            I::Shuffle { d, a, b, m, n } => { let (x, y) = (st.reg(a), st.reg(b)); if let (Val::Agg(x), Val::Agg(y)) = (x, y) { let v = Val::Agg(m.iter().map(|&k| if k < *n { x[k as usize].clone() } else if k < 2 * *n { y[(k - *n) as usize].clone() } else { Val::C(0) }).collect()); st.set(*d, v); } else { return Err(Stop::Unsup("shuffle".into())) } }
            I::Freeze { d, a } => { let v = st.reg(a); st.set(*d, v); }
            I::CmpXchg { d, p, w, cmp, new } => {
                let p = st.reg(p); let t = Ty::Int(*w as u16); let old = self.load(st, &p, &t, *w)?; let c = st.reg(cmp);
                let eq = match icmp(Pred::Eq, *w, &old, &c) { Val::C(x) => x == 1, Val::S(e) => self.branch(st, e)?, _ => unreachable!() };
                if eq { let n = st.reg(new); self.store(st, &p, &n, &t, *w)?; }
                st.set(*d, Val::Agg(vec![old, Val::C(eq as u128)].into()));
            }
            I::Rmw { d, k, p, w, v, ord: _ } => {
                let p = st.reg(p); let t = Ty::Int(*w as u16); let old = self.load(st, &p, &t, *w)?; let v = st.reg(v);
                let new = match k { Rmw::Xchg => v, Rmw::Add => binop(Op::Add, *w, &old, &v)?, Rmw::Sub => binop(Op::Sub, *w, &old, &v)?, Rmw::And => binop(Op::And, *w, &old, &v)?, Rmw::Or => binop(Op::Or, *w, &old, &v)?, Rmw::Xor => binop(Op::Xor, *w, &old, &v)?, Rmw::Nand => return Err(Stop::Unsup("nand".into())), Rmw::Max => minmax("smax", *w, &old, &v), Rmw::Min => minmax("smin", *w, &old, &v), Rmw::UMax => minmax("umax", *w, &old, &v), Rmw::UMin => minmax("umin", *w, &old, &v) };
                self.store(st, &p, &new, &t, *w)?;
                st.set(*d, old);
            }
            I::FBin { op, w, d, a, b } => { let (x, y) = (st.reg(a), st.reg(b)); let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?); let r = if *w == 64 { let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64)); (match op { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, _ => x % y }).to_bits() as u128 } else { let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); (match op { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, _ => x % y }).to_bits() as u128 }; st.set(*d, Val::C(r)); }
            I::FNeg { w, d, a } => { let x = st.reg(a); let x = self.conc(st, &x)?; st.set(*d, Val::C(x ^ (1u128 << (w - 1)))); }
            I::FCmp { p, w, d, a, b } => { let (x, y) = (st.reg(a), st.reg(b)); let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?); let (x, y) = if *w == 64 { (f64::from_bits(x as u64), f64::from_bits(y as u64)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) }; let un = x.is_nan() || y.is_nan(); let o = |p: &str| match p { "eq" => x == y, "ne" => x != y, "lt" => x < y, "le" => x <= y, "gt" => x > y, "ge" => x >= y, _ => false }; let r = match p.as_str() { "true" => true, "false" => false, "ord" => !un, "uno" => un, "une" => un || x != y, p if p.starts_with('o') => !un && o(&p[1..]), p => un || o(&p[1..]) }; st.set(*d, Val::C(r as u128)); }
            I::Fence | I::Nop => {}
            I::Unreachable => return Err(Stop::Unsup(format!("reached unreachable in {}", st.backtrace()))),
            I::Unsup(s) => return Err(Stop::Unsup(format!("{s} in {}", short(&f.name)))),
        }
        st.cur.top.pc += 1;
        Ok(())
    }
    fn bin_scalar(&mut self, st: &mut State, op: Op, w: u8, x: &Val, y: &Val) -> Result<Val, Stop> {
        if let (Val::C(a), Val::C(b)) = (x, y) { return Ok(Val::C(fold(op, w, *a, *b))); }
        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) { if let Val::S(e) = y { // avoid symbolic divisors
            let c = self.conc_e(st, *e)?; return binop(op, w, x, &Val::C(c)); } }
        binop(op, w, x, y)
    }
    fn cast(&mut self, st: &mut State, k: Cast, from: &Ty, to: &Ty, x: &Val) -> Result<Val, Stop> {
        if let (Ty::Vec(n, fe), Ty::Vec(m, te)) = (from, to) { if k != Cast::Bit || (n == m && fe.width() == te.width()) { if let Val::Agg(a) = x { let mut v = vec![]; for l in a.iter() { v.push(self.cast(st, k, fe, te, l)?); } return Ok(Val::Agg(v.into())); } } }
        Ok(match k {
            Cast::Trunc => { let w = to.width(); match x { Val::C(c) => Val::C(c & mask(w)), Val::S(e) => from_e(extract(*e, 0, w)), _ => return Err(Stop::Unsup("trunc".into())) } }
            Cast::Zext => { let w = to.width(); match x { Val::C(c) => Val::C(*c), Val::S(e) => from_e(zext(*e, w)), _ => return Err(Stop::Unsup("zext".into())) } }
            Cast::Sext => { let w = to.width(); match x { Val::C(c) => Val::C(sext_val(*c, from.width()) as u128 & mask(w)), Val::S(e) => from_e(sext(*e, w)), _ => return Err(Stop::Unsup("sext".into())) } }
            Cast::Bit => {
                if from.scalar() && to.scalar() { return Ok(x.clone()); }
                let n = from.size().max(to.size()); let mut o = Obj::new(n as usize); write_val(&mut o, 0, from, x); read_val(&o, 0, to)
            }
            Cast::Uitofp | Cast::Sitofp => { let c = self.conc(st, x)?; let f = if k == Cast::Uitofp { c as f64 } else { sext_val(c, from.width()) as f64 }; if *to == Ty::F32 { Val::C((if k == Cast::Uitofp { c as f32 } else { sext_val(c, from.width()) as f32 }).to_bits() as u128) } else { Val::C(f.to_bits() as u128) } }
            Cast::Fptoui | Cast::Fptosi => { let c = self.conc(st, x)?; let f = if *from == Ty::F32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) }; Val::C(if k == Cast::Fptoui { f as u128 } else { f as i128 as u128 } & mask(to.width())) }
            Cast::Fpext => { let c = self.conc(st, x)?; Val::C((f32::from_bits(c as u32) as f64).to_bits() as u128) }
            Cast::Fptrunc => { let c = self.conc(st, x)?; Val::C((f64::from_bits(c as u64) as f32).to_bits() as u128) }
        })
    }
    pub fn call(&mut self, st: &mut State, fid: u32, args: Vec<Val>, rty: &Ty) -> Result<(), Stop> {
        let (panicky, defined) = { let f = self.m.fns.borrow(); (f[fid as usize].panicky, f[fid as usize].def.is_some()) };
        if panicky { let s = self.panic_info(st, fid, &args); return self.on_panic(st, s); }
        if defined { let f = self.m.func(fid).unwrap(); return self.push_call(st, f, args); }
        let name = self.m.fns.borrow()[fid as usize].name.clone();
        let r = self.ext_call(st, &name, &args, rty)?; st.env.crash_asked = false;
        match r { Ext::V(v) => { self.after_call(st, Some(v)); Ok(()) } Ext::Pushed => Ok(()), Ext::Unwound => Ok(()) }
    }
    pub fn ret_from_ext(&mut self, st: &mut State, v: Val) { self.after_call(st, Some(v)); }
    fn on_panic(&mut self, st: &mut State, s: String) -> Result<(), Stop> {
        if st.cur.tid != 0 { return self.thread_panic(st, s); }
        Err(Stop::Panic(s))
    }
    fn panic_info(&mut self, st: &mut State, fid: u32, args: &[Val]) -> String {
        let name = self.m.fns.borrow()[fid as usize].name.clone();
        let mut loc = String::new(); let mut msg = String::new();
        for a in args.iter() {
            if let Val::C(p) = a {
                let p = *p as u64; let (r, _, _) = split(p);
                if r == R_GLOB { // Location { ptr, len, line, col }
                    if let (Ok(fp), Ok(fl), Ok(line)) = (self.read_int(st, p, 8), self.read_int(st, p + 8, 8), self.read_int(st, p + 16, 4)) {
                        if fl > 0 && fl < 400 { if let Ok(b) = self.read_conc(st, fp as u64, fl as u64) { if let Ok(s) = std::str::from_utf8(&b) { if s.contains(".rs") { loc = format!("{s}:{line}"); continue; } } } }
                    }
                }
            }
        }
        if let (Some(Val::C(p)), Some(Val::C(l))) = (args.get(0), args.get(1)) { if *l > 0 && *l < 400 && split(*p as u64).0 == R_GLOB { if let Ok(b) = self.read_conc(st, *p as u64, *l as u64) { if let Ok(s) = std::str::from_utf8(&b) { if !s.contains('\0') { msg = s.to_string(); } } } } }
        format!("{} {} at {} [{}]", short(&name), msg, loc, st.backtrace())
    }
}

fn tz_off(e: E) -> u32 { tz(e) }

pub fn binop(op: Op, w: u8, x: &Val, y: &Val) -> Result<Val, Stop> {
    Ok(match (x, y) {
        (Val::C(a), Val::C(b)) => Val::C(fold(op, w, *a, *b)),
        (Val::Agg(_), _) | (_, Val::Agg(_)) => return Err(Stop::Unsup("binop on aggregate".into())),
        _ => from_e(bin(op, to_e(x, w), to_e(y, w))),
    })
}
pub fn lanes2(x: &Val, y: &Val, f: impl Fn(&Val, &Val) -> Result<Val, Stop>) -> Result<Val, Stop> { if let (Val::Agg(a), Val::Agg(b)) = (x, y) { let mut v = Vec::with_capacity(a.len()); for (p, q) in a.iter().zip(b.iter()) { v.push(f(p, q)?); } Ok(Val::Agg(v.into())) } else { Err(Stop::Unsup("vector op on scalar".into())) } }
pub fn icmp(p: Pred, w: u8, x: &Val, y: &Val) -> Val {
    let (op, sw, neg) = match p { Pred::Eq => (Op::Eq, false, false), Pred::Ne => (Op::Eq, false, true), Pred::Ult => (Op::Ult, false, false), Pred::Ule => (Op::Ule, false, false), Pred::Ugt => (Op::Ult, true, false), Pred::Uge => (Op::Ule, true, false), Pred::Slt => (Op::Slt, false, false), Pred::Sle => (Op::Sle, false, false), Pred::Sgt => (Op::Slt, true, false), Pred::Sge => (Op::Sle, true, false) };
    let (x, y) = if sw { (y, x) } else { (x, y) };
    if let (Val::C(a), Val::C(b)) = (x, y) { return Val::C(fold(op, w, *a, *b) ^ neg as u128); }
    let e = bin(op, to_e(x, w), to_e(y, w));
    from_e(if neg { not(e) } else { e })
}
pub fn minmax(k: &str, w: u8, x: &Val, y: &Val) -> Val {
    let (op, takex) = match k { "umin" => (Pred::Ult, true), "umax" => (Pred::Ult, false), "smin" => (Pred::Slt, true), _ => (Pred::Slt, false) };
    match icmp(op, w, x, y) { Val::C(c) => if (c == 1) == takex { x.clone() } else { y.clone() }, Val::S(e) => { let (t, f) = if takex { (x, y) } else { (y, x) }; from_e(ite(e, to_e(t, w), to_e(f, w))) } v => v }
}
pub fn sel(c: E, x: &Val, y: &Val, ty: &Ty) -> Val {
    match (x, y) {
        (Val::Agg(a), Val::Agg(b)) => { let n = a.len(); Val::Agg((0..n).map(|i| { let et = match ty { Ty::Vec(_, t) | Ty::Arr(_, t) => (**t).clone(), Ty::Struct(s) => s.0[i].clone(), _ => panic!() }; sel(c, &a[i], &b[i], &et) }).collect()) }
        (Val::C(a), Val::C(b)) if a == b => x.clone(),
        _ => { let w = ty.width(); from_e(ite(c, to_e(x, w), to_e(y, w))) }
    }
}
fn insert(base: &Val, v: &Val, idx: &[u32]) -> Result<Val, Stop> {
    if let Val::Agg(a) = base { let mut n = a.to_vec(); let i = idx[0] as usize; n[i] = if idx.len() == 1 { v.clone() } else { insert(&a[i], v, &idx[1..])? }; Ok(Val::Agg(n.into())) } else { Err(Stop::Unsup("insertvalue".into())) }
}

fn ops_of(i: &I) -> Vec<&Opd> { match i { I::Bin { a, b, .. } | I::ICmp { a, b, .. } => vec![a, b], I::Load { p, .. } => vec![p], I::Store { v, p, .. } => vec![v, p], I::Gep { base, idx, .. } => { let mut v = vec![base]; v.extend(idx.iter().map(|x| &x.0)); v } I::Call { args, .. } => args.iter().map(|x| &x.0).collect(), I::CondBr(c, ..) => vec![c], I::Ret(Some(v)) => vec![v], I::Select { c, a, b, .. } => vec![c, a, b], I::Cast { a, .. } => vec![a], I::Switch(c, ..) => vec![c], _ => vec![] } }
