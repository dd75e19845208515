//! LLVM textual IR: module index and lazy per-function parser.
use crate::expr::{mask, Op};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub const R_HEAP: u64 = 1;
pub const R_STACK: u64 = 2;
pub const R_GLOB: u64 = 3;
pub const R_TLS: u64 = 4;
pub const R_FUNC: u64 = 5;
#[inline] pub fn addr(region: u64, id: u64) -> u64 { (region << 60) | (id << 30) }
#[inline] pub fn split(a: u64) -> (u64, u64, u64) { (a >> 60, (a >> 30) & 0x3fff_ffff, a & 0x3fff_ffff) }

#[derive(Clone, Debug)]
pub enum Val { C(u128), S(u32), Agg(Rc<[Val]>) }

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u16), Ptr, F32, F64, FX(u16), Arr(u64, Rc<Ty>), Vec(u32, Rc<Ty>), Struct(Rc<(Vec<Ty>, bool)>), Meta }
impl Ty {
    pub fn align(&self) -> u64 { match self { Ty::Void | Ty::Meta => 1, Ty::Int(w) => { let b = (*w as u64 + 7) / 8; b.next_power_of_two().min(16) } Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4, Ty::FX(w) => (*w as u64 / 8).next_power_of_two(), Ty::Arr(_, t) => t.align(), Ty::Vec(..) => self.size().next_power_of_two().max(1), Ty::Struct(s) => if s.1 { 1 } else { s.0.iter().map(|t| t.align()).max().unwrap_or(1) } } }
    pub fn store_size(&self) -> u64 { match self { Ty::Int(w) => (*w as u64 + 7) / 8, _ => self.size() } }
    pub fn size(&self) -> u64 { match self { Ty::Void | Ty::Meta => 0, Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a } Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4, Ty::FX(w) => (*w as u64 / 8).next_power_of_two(), Ty::Arr(n, t) => n * t.size(), Ty::Vec(n, t) => match **t { Ty::Int(w) => (*n as u64 * w as u64 + 7) / 8, _ => *n as u64 * t.size() }, Ty::Struct(_) => { let o = self.offsets(); o[o.len() - 1] } } }
    /// struct field offsets, then total size
    pub fn offsets(&self) -> Vec<u64> { if let Ty::Struct(s) = self { let mut o = 0; let mut v = vec![]; for t in &s.0 { if !s.1 { let a = t.align(); o = (o + a - 1) / a * a; } v.push(o); o += t.size(); } if !s.1 { let a = self.align(); o = (o + a - 1) / a * a; } v.push(o); v } else { panic!("offsets of {:?}", self) } }
    pub fn width(&self) -> u8 { match self { Ty::Int(w) => { assert!(*w <= 128, "int too wide"); *w as u8 } Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => panic!("width of {:?}", self) } }
    pub fn scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32) }
    pub fn zero(&self) -> Val { match self { Ty::Arr(n, t) => Val::Agg((0..*n).map(|_| t.zero()).collect()), Ty::Vec(n, t) => Val::Agg((0..*n).map(|_| t.zero()).collect()), Ty::Struct(s) => Val::Agg(s.0.iter().map(|t| t.zero()).collect()), _ => Val::C(0) } }
}

#[derive(Clone, Debug)]
pub enum Opd { R(u32), C(u128), V(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, Zext, Sext, Bit, Uitofp, Sitofp, Fptoui, Fptosi, Fpext, Fptrunc }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Nand, Max, Min, UMax, UMin }

#[derive(Debug)]
pub enum Callee { Direct(u32), Ind(Opd), Asm(String) }

#[derive(Debug)]
pub enum I {
    Bin { op: Op, w: u8, vec: bool, d: u32, a: Opd, b: Opd },
    FBin { op: u8, w: u8, d: u32, a: Opd, b: Opd },
    FNeg { w: u8, d: u32, a: Opd },
    ICmp { p: Pred, w: u8, vec: bool, d: u32, a: Opd, b: Opd },
    FCmp { p: String, w: u8, d: u32, a: Opd, b: Opd },
    Cast { k: Cast, from: Ty, to: Ty, d: u32, a: Opd },
    Load { d: u32, ty: Ty, sc: u8, p: Opd, ord: u8 },
    Store { ty: Ty, sc: u8, v: Opd, p: Opd, ord: u8 },
    Gep { d: u32, base: Opd, off: i64, idx: Vec<(Opd, u8, i64)> },
    Alloca { d: u32, off: u64 },
    Call { d: u32, callee: Callee, args: Vec<(Opd, Ty)>, rty: Ty, normal: u32 },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u8, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Select { d: u32, c: Opd, a: Opd, b: Opd, ty: Ty },
    ExtractV { d: u32, a: Opd, idx: Vec<u32> },
    InsertV { d: u32, a: Opd, v: Opd, idx: Vec<u32> },
    ExtractE { d: u32, a: Opd, i: Opd },
    InsertE { d: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, m: Vec<u32>, n: u32 },
    Freeze { d: u32, a: Opd },
    CmpXchg { d: u32, p: Opd, w: u8, cmp: Opd, new: Opd },
    Rmw { d: u32, k: Rmw, p: Opd, w: u8, v: Opd, ord: u8 },
    Fence,
    Unreachable,
    Nop,
    Unsup(String),
}
pub const NODST: u32 = u32::MAX;
pub const NOBLK: u32 = u32::MAX;

pub struct Block { pub start: u32, pub phis: Vec<(u32, Vec<(u32, Opd)>)> }
pub struct Func { pub id: u32, pub name: String, pub nparams: u32, pub code: Vec<I>, pub blocks: Vec<Block>, pub nregs: u32, pub frame_size: u64, pub byval: Vec<(u32, u64)> }

pub struct FnDecl { pub name: String, pub def: Option<(usize, usize)>, pub panicky: bool, pub interesting: bool }
pub struct GDecl { pub name: String, pub off: usize, pub end: usize, pub tls: bool, pub is_const: bool, pub external: bool }

pub struct Module {
    pub src: &'static [u8],
    pub fns: RefCell<Vec<FnDecl>>,
    pub fn_ids: RefCell<HashMap<String, u32>>,
    pub globs: Vec<GDecl>,
    pub glob_ids: HashMap<String, u32>,
    pub parsed: RefCell<HashMap<u32, &'static Func>>,
    pub alias: HashMap<String, String>,
}

fn read_name(s: &[u8], mut i: usize) -> (String, usize) {
    // s[i] is after '@' or '%'
    if s[i] == b'"' { let st = i + 1; i += 1; while s[i] != b'"' { i += 1; } (String::from_utf8_lossy(&s[st..i]).into_owned(), i + 1) }
    else { let st = i; while i < s.len() && (s[i].is_ascii_alphanumeric() || matches!(s[i], b'_' | b'.' | b'$' | b'-')) { i += 1; } (String::from_utf8_lossy(&s[st..i]).into_owned(), i) }
}
fn find_sub(h: &[u8], n: &[u8]) -> Option<usize> { h.windows(n.len()).position(|w| w == n) }

impl Module {
    pub fn load(path: &str) -> Module {
        let src: &'static [u8] = Box::leak(std::fs::read(path).expect("read ir").into_boxed_slice());
        let mut m = Module { src, fns: RefCell::new(vec![]), fn_ids: RefCell::new(HashMap::new()), globs: vec![], glob_ids: HashMap::new(), parsed: RefCell::new(HashMap::new()), alias: HashMap::new() };
        let mut i = 0;
        let n = src.len();
        while i < n {
            let eol = memchr(b'\n', &src[i..]).map(|x| i + x).unwrap_or(n);
            match src[i.min(n - 1)] {
                b'@' => {
                    let (name, j) = read_name(src, i + 1);
                    let line = &src[j..eol];
                    let head = &line[..line.len().min(200)];
                    if find_sub(head, b" alias ").is_some() && find_sub(head, b" = ").map_or(false, |p| p < 5) && !line.contains(&b'"') {
                        // @a = alias T, ptr @b
                        if let Some(p) = line.iter().rposition(|&c| c == b'@') { let (t, _) = read_name(line, p + 1); m.alias.insert(name, t); }
                    } else {
                        let tls = find_sub(head, b"thread_local").is_some();
                        let (k, is_const) = match (find_sub(line, b" global "), find_sub(line, b" constant ")) { (Some(a), Some(b)) => if a < b { (a + 8, false) } else { (b + 10, true) }, (Some(a), None) => (a + 8, false), (None, Some(b)) => (b + 10, true), _ => (0, true) };
                        let external = find_sub(&line[..k], b"external ").is_some() || find_sub(&line[..k], b"extern_weak").is_some();
                        let id = m.globs.len() as u32;
                        m.glob_ids.insert(name.clone(), id);
                        m.globs.push(GDecl { name, off: j + k, end: eol, tls, is_const, external });
                    }
                    i = eol + 1;
                }
                b'd' if src[i..].starts_with(b"define ") => {
                    let at = i + memchr(b'@', &src[i..eol]).unwrap();
                    let (name, _) = read_name(src, at + 1);
                    let mut j = eol;
                    loop { // find "\n}"
                        let k = j + memchr(b'\n', &src[j..]).unwrap();
                        if src[k + 1] == b'}' { j = k + 1; break; }
                        j = k + 1;
                    }
                    m.add_fn(name, Some((i, j)));
                    i = j + 2;
                }
                b'd' if src[i..].starts_with(b"declare ") => {
                    let at = i + memchr(b'@', &src[i..eol]).unwrap();
                    let (name, _) = read_name(src, at + 1);
                    m.add_fn(name, None);
                    i = eol + 1;
                }
                b'%' => { panic!("named types unsupported: {}", String::from_utf8_lossy(&src[i..eol.min(i + 100)])) }
                _ => i = eol + 1,
            }
        }
        m.abstract_hashes();
        m
    }
    /// The std hash maps (of dump_syms and, as generic code is shared between crates, its dependencies) hash with randomly keyed SipHash: any function will do, so hash everything alike
    /// (maps then compare the keys one by one), unless a copy of SipHash has been inlined somewhere else in dump_syms.
    fn abstract_hashes(&self) {
        let mut f = self.fns.borrow_mut(); let mut ids = vec![]; let k = b"8317987319222330741";
        for (i, d) in f.iter().enumerate() { if let Some((a, b)) = d.def {
            let h = d.name.contains("RandomState") && d.name.contains("BuildHasher8hash_one");
            if h { ids.push(i); } else if d.interesting && self.src[a..b].windows(k.len()).any(|w| w == k) { return; } } }
        for i in ids { f[i].def = None; f[i].name = "sym_hash_one".into(); }
    }
    fn add_fn(&self, name: String, def: Option<(usize, usize)>) -> u32 {
        let panicky = is_panic_fn(&name);
        let interesting = name.contains("9dump_syms");
        let mut f = self.fns.borrow_mut();
        let id = f.len() as u32;
        self.fn_ids.borrow_mut().insert(name.clone(), id);
        f.push(FnDecl { name, def, panicky, interesting });
        id
    }
    pub fn fn_id(&self, name: &str) -> u32 { if let Some(&i) = self.fn_ids.borrow().get(name) { return i; } self.add_fn(name.to_string(), None) }
    /// a function by the end of its name
    pub fn fn_named(&self, end: &str) -> Option<u32> { self.fns.borrow().iter().position(|f| f.def.is_some() && f.name.ends_with(end)).map(|i| i as u32) }
    pub fn sym_addr(&self, name: &str) -> u64 {
        let name = self.alias.get(name).map(|s| s.as_str()).unwrap_or(name);
        if let Some(&g) = self.glob_ids.get(name) { return addr(R_GLOB, g as u64); }
        addr(R_FUNC, self.fn_id(name) as u64)
    }
    pub fn func(&self, id: u32) -> Option<&'static Func> {
        if let Some(f) = self.parsed.borrow().get(&id) { return Some(*f); }
        let (name, def) = { let f = self.fns.borrow(); (f[id as usize].name.clone(), f[id as usize].def) };
        let (a, b) = def?;
        let f: &'static Func = Box::leak(Box::new(parse_func(self, id, name, &self.src[a..b])));
        self.parsed.borrow_mut().insert(id, f);
        Some(f)
    }
    pub fn glob_init(&self, g: u32) -> (Ty, Option<Val2>) {
        let d = &self.globs[g as usize];
        let mut p = P { m: self, s: &self.src[d.off..d.end], i: 0 };
        let t = p.ty();
        if d.external { return (t, None); }
        let v = p.cval2(&t);
        (t, Some(v))
    }
}
/// constant initialiser: bytes or nested
pub enum Val2 { Bytes(Vec<u8>), V(Val), Zero, List(Vec<Val2>) }

fn is_panic_fn(n: &str) -> bool {
    n.contains("4core9panicking") || n.contains("4core6option13unwrap_failed") || n.contains("4core6option13expect_failed") || n.contains("4core6result13unwrap_failed")
        || n.contains("3std9panicking20rust_panic_with_hook") || n.contains("3std9panicking11begin_panic") || n.contains("3std9panicking10rust_panic") || n.contains("4core5slice5index16slice_index_fail") || n.contains("5alloc7raw_vec12handle_error") || n.contains("17capacity_overflow") || n.contains("18handle_alloc_error") || n.contains("3std9panicking13panic_handler") || n.contains("4core3str16slice_error_fail")
}
pub fn memchr(b: u8, s: &[u8]) -> Option<usize> { s.iter().position(|&c| c == b) }

pub struct P<'a> { pub m: &'a Module, pub s: &'a [u8], pub i: usize }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() { match self.s[self.i] { b' ' | b'\t' | b'\n' | b'\r' => self.i += 1, b';' => self.eol(), _ => break } } }
    fn end_line(&mut self, k0: usize) { let mut k = self.i; while k > k0 && matches!(self.s[k - 1], b' ' | b'\t' | b'\r' | b'\n') { k -= 1; if self.s[k] == b'\n' { return; } } self.eol(); }
    fn eol(&mut self) { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    fn expect(&mut self, c: u8) { if !self.eat(c) { self.err(&format!("expected '{}'", c as char)) } }
    fn err(&self, msg: &str) -> ! { let a = self.i.saturating_sub(80); let b = (self.i + 80).min(self.s.len()); panic!("IR parse: {msg} at ...{}<<HERE>>{}", String::from_utf8_lossy(&self.s[a..self.i]), String::from_utf8_lossy(&self.s[self.i..b])) }
    fn word(&mut self) -> &'a str { self.ws(); let st = self.i; while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.')) { self.i += 1; } std::str::from_utf8(&self.s[st..self.i]).unwrap() }
    fn peek_word(&mut self) -> &'a str { let k = self.i; let w = self.word(); self.i = k; w }
    fn eat_word(&mut self, w: &str) -> bool { let k = self.i; if self.word() == w { true } else { self.i = k; false } }
    fn parens(&mut self) { self.expect(b'('); let mut d = 1; while d > 0 { match self.s[self.i] { b'(' => d += 1, b')' => d -= 1, b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } } _ => {} } self.i += 1; } }
    pub fn ty(&mut self) -> Ty {
        let c = self.peek();
        match c {
            b'[' => { self.i += 1; let n: u64 = self.word().parse().unwrap(); if !self.eat_word("x") { self.err("x") } let t = self.ty(); self.expect(b']'); Ty::Arr(n, Rc::new(t)) }
            b'<' => { self.i += 1; if self.peek() == b'{' { let t = self.sty(true); self.expect(b'>'); t } else { let n: u32 = self.word().parse().unwrap(); if !self.eat_word("x") { self.err("x") } let t = self.ty(); self.expect(b'>'); Ty::Vec(n, Rc::new(t)) } }
            b'{' => self.sty(false),
            _ => { let w = self.word(); match w { "void" => Ty::Void, "ptr" => { if self.peek_word() == "addrspace" { self.word(); self.parens(); } Ty::Ptr } "float" => Ty::F32, "double" => Ty::F64, "half" => Ty::FX(16), "x86_fp80" => Ty::FX(80), "fp128" => Ty::FX(128), "label" | "metadata" | "token" => Ty::Meta, _ => if let Some(n) = w.strip_prefix('i').and_then(|n| n.parse::<u16>().ok()) { Ty::Int(n) } else { self.err(&format!("type '{w}'")) } } }
        }
    }
    fn sty(&mut self, packed: bool) -> Ty { self.expect(b'{'); let mut v = vec![]; if !self.eat(b'}') { loop { v.push(self.ty()); if self.eat(b'}') { break; } self.expect(b','); } } Ty::Struct(Rc::new((v, packed))) }
    fn cstr(&mut self) -> Vec<u8> { // after c"
        let mut v = vec![];
        while self.s[self.i] != b'"' { if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' { v.push(b'\\'); self.i += 2; } else if self.s[self.i] == b'\\' { let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap(); v.push(u8::from_str_radix(h, 16).unwrap()); self.i += 3; } else { v.push(self.s[self.i]); self.i += 1; } }
        self.i += 1;
        v
    }
    fn cval2(&mut self, t: &Ty) -> Val2 {
        match self.peek() {
            b'c' if self.s[self.i + 1] == b'"' => { self.i += 2; Val2::Bytes(self.cstr()) }
            b'[' => { self.i += 1; let mut v = vec![]; loop { let et = self.ty(); v.push(self.cval2(&et)); if self.eat(b']') { break; } self.expect(b','); } Val2::List(v) }
            b'{' => { self.i += 1; let mut v = vec![]; if !self.eat(b'}') { loop { let et = self.ty(); v.push(self.cval2(&et)); if self.eat(b'}') { break; } self.expect(b','); } } Val2::List(v) }
            b'<' if self.s[self.i + 1] == b'{' => { self.i += 2; let mut v = vec![]; if !self.eat(b'}') { loop { let et = self.ty(); v.push(self.cval2(&et)); if self.eat(b'}') { break; } self.expect(b','); } } self.expect(b'>'); Val2::List(v) }
            _ => { match self.peek_word() { "zeroinitializer" | "undef" | "poison" | "null" => { self.word(); Val2::Zero } _ => Val2::V(self.cval(t)) } }
        }
    }
    /// constant of type t
    fn cval(&mut self, t: &Ty) -> Val {
        let c = self.peek();
        match c {
            b'@' => { let (n, j) = read_name(self.s, self.i + 1); self.i = j; Val::C(self.m.sym_addr(&n) as u128) }
            b'c' if self.s[self.i + 1] == b'"' => { self.i += 2; Val::Agg(self.cstr().into_iter().map(|b| Val::C(b as u128)).collect()) }
            b'[' | b'{' | b'<' => {
                self.i += 1;
                let pk = c == b'<' && self.peek() == b'{';
                if pk { self.i += 1; }
                let close = if pk { b'}' } else { match c { b'[' => b']', b'{' => b'}', _ => b'>' } };
                let mut v = vec![];
                if !self.eat(close) { loop { let et = self.ty(); v.push(self.cval(&et)); if self.eat(close) { break; } self.expect(b','); } }
                if pk { self.expect(b'>'); }
                Val::Agg(v.into())
            }
            b'-' | b'+' | b'0'..=b'9' => {
                let st = self.i; self.i += 1;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'.' | b'+' | b'-')) { self.i += 1; }
                let x = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                match t {
                    Ty::F64 | Ty::F32 => { let d = if x.ends_with("inf") { if x.starts_with('-') { f64::NEG_INFINITY } else { f64::INFINITY } } else if x.contains("nan") { f64::NAN } else if let Some(h) = x.strip_prefix("f0x") { if *t == Ty::F32 { f32::from_bits(u32::from_str_radix(h, 16).unwrap()) as f64 } else { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } } else if let Some(h) = x.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { x.parse::<f64>().unwrap() }; if *t == Ty::F32 { Val::C((d as f32).to_bits() as u128) } else { Val::C(d.to_bits() as u128) } }
                    Ty::FX(_) => Val::C(0),
                    Ty::Int(w) if *w > 128 => Val::C(0),
                    _ => { let w = t.width(); let v = if x.starts_with('-') { x.parse::<i128>().unwrap() as u128 } else { x.parse::<u128>().unwrap() }; Val::C(v & mask(w)) }
                }
            }
            b'f' if matches!(t, Ty::F32 | Ty::F64) && self.s[self.i + 1] == b'0' => { let w = self.word(); let b = u64::from_str_radix(&w[3..], 16).unwrap(); Val::C(b as u128) }
            _ => {
                let w = self.word();
                match w {
                    "true" => Val::C(1), "false" | "null" => Val::C(0), "none" => Val::C(0),
                    "undef" | "poison" | "zeroinitializer" => t.zero(),
                    "splat" => { self.expect(b'('); let et = self.ty(); let v = self.cval(&et); self.expect(b')'); if let Ty::Vec(n, _) = t { Val::Agg((0..*n).map(|_| v.clone()).collect()) } else { self.err("splat") } }
                    "getelementptr" => {
                        loop { match self.peek_word() { "inbounds" | "nuw" | "nusw" => { self.word(); } "inrange" => { self.word(); self.parens(); } _ => break } }
                        self.expect(b'('); let bt = self.ty(); self.expect(b','); let pt = self.ty(); let base = self.cval(&pt);
                        let mut idx = vec![];
                        while self.eat(b',') { let it = self.ty(); let v = self.cval(&it); idx.push((v, it.width())); }
                        self.expect(b')');
                        let mut off: i128 = 0; let mut cur = bt;
                        for (k, (v, w)) in idx.iter().enumerate() {
                            let c = if let Val::C(c) = v { crate::expr::sext_val(*c, *w) } else { panic!() };
                            if k == 0 { off += c * cur.size() as i128; } else { let nt = match &cur { Ty::Arr(_, t) | Ty::Vec(_, t) => { off += c * t.size() as i128; (**t).clone() } Ty::Struct(s) => { off += cur.offsets()[c as usize] as i128; s.0[c as usize].clone() } _ => panic!("gep into {:?}", cur) }; cur = nt; }
                        }
                        if let Val::C(b) = base { Val::C(((b as i128 + off) as u128) & mask(64)) } else { panic!() }
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" | "addrspacecast" => { self.expect(b'('); let ft = self.ty(); let v = self.cval(&ft); if !self.eat_word("to") { self.err("to") } let tt = self.ty(); self.expect(b')'); if let Val::C(c) = v { Val::C(c & mask(tt.width())) } else { v } }
                    "add" | "sub" | "xor" => { while matches!(self.peek_word(), "nuw" | "nsw") { self.word(); } self.expect(b'('); let at = self.ty(); let a = self.cval(&at); self.expect(b','); let bt = self.ty(); let b = self.cval(&bt); self.expect(b')');
                        if let (Val::C(a), Val::C(b)) = (a, b) { let m = mask(at.width()); Val::C(match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), _ => a ^ b } & m) } else { panic!() } }
                    "asm" => self.err("asm const"),
                    "dso_local_equivalent" | "no_cfi" => self.cval(t),
                    _ => self.err(&format!("constant '{w}'")),
                }
            }
        }
    }
}

struct FP<'a> { p: P<'a>, regs: HashMap<String, u32>, blocks: HashMap<String, u32>, nblk: u32 }
impl<'a> FP<'a> {
    fn reg(&mut self, n: String) -> u32 { let l = self.regs.len() as u32; *self.regs.entry(n).or_insert(l) }
    fn blk(&mut self, n: String) -> u32 { if let Some(&b) = self.blocks.get(&n) { return b; } let b = self.nblk; self.nblk += 1; self.blocks.insert(n, b); b }
    fn opd(&mut self, t: &Ty) -> Opd {
        if self.p.peek() == b'%' { let (n, j) = read_name(self.p.s, self.p.i + 1); self.p.i = j; return Opd::R(self.reg(n)); }
        match self.p.cval(t) { Val::C(c) => Opd::C(c), v => Opd::V(v) }
    }
    fn label(&mut self) -> u32 { // "label %x"
        if !self.p.eat_word("label") { self.p.err("label") }
        self.p.expect(b'%'); let (n, j) = read_name(self.p.s, self.p.i); self.p.i = j; self.blk(n)
    }
    fn skip_flags(&mut self) { loop { match self.p.peek_word() { "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" => { self.p.word(); } _ => break } } }
    fn skip_attrs(&mut self) {
        loop {
            let c = self.p.peek();
            if c == b'#' { self.p.i += 1; self.p.word(); continue; }
            if c == b'"' { self.p.i += 1; while self.p.s[self.p.i] != b'"' { self.p.i += 1; } self.p.i += 1; if self.p.s[self.p.i] == b'=' { self.p.i += 2; while self.p.s[self.p.i] != b'"' { self.p.i += 1; } self.p.i += 1; } continue; }
            let k = self.p.i;
            match self.p.word() {
                "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "readnone" | "writeonly" | "nocapture" | "zeroext" | "signext" | "inreg" | "immarg" | "returned" | "writable" | "dead_on_unwind" | "swiftself" | "dead_on_return" | "allocptr" | "allocalign" | "noext" | "fastcc" | "ccc" | "coldcc" | "nest" | "dso_local" | "internal" | "hidden" | "private" | "linkonce_odr" | "weak_odr" | "weak" | "unnamed_addr" | "local_unnamed_addr" | "cold" | "noreturn" | "nounwind" | "external" | "available_externally" | "linkonce" | "default" | "protected" => { if self.p.s[self.p.i] == b'(' { self.p.parens(); } }
                "align" => { if self.p.peek() == b'(' { self.p.parens(); } else { self.p.word(); } }
                "captures" | "dereferenceable" | "dereferenceable_or_null" | "sret" | "initializes" | "range" | "byval" | "nofpclass" | "memory" | "elementtype" | "byref" | "preallocated" => { self.p.parens(); }
                _ => { self.p.i = k; return; }
            }
        }
    }
}

fn ord(w: &str) -> u8 { match w { "unordered" | "monotonic" => 1, "acquire" | "release" => 2, "acq_rel" => 3, "seq_cst" => 4, _ => 0 } }
fn scw(t: &Ty) -> u8 { if t.scalar() { t.width() } else { 0 } }

fn parse_func(m: &Module, id: u32, name: String, s: &[u8]) -> Func {
    let mut f = FP { p: P { m, s, i: 0 }, regs: HashMap::new(), blocks: HashMap::new(), nblk: 0 };
    f.p.word(); // define
    f.skip_attrs();
    let _rt = f.p.ty();
    f.skip_attrs();
    f.p.expect(b'@'); let (_, j) = read_name(s, f.p.i); f.p.i = j;
    f.p.expect(b'(');
    let mut np = 0; let mut unnamed = 0;
    let mut byval = vec![];
    if !f.p.eat(b')') { loop {
        if f.p.peek() == b'.' { f.p.i += 3; f.p.expect(b')'); break; }
        let _t = f.p.ty();
        f.p.ws(); let a0 = f.p.i; f.skip_attrs();
        if let Some(k) = find_sub(&s[a0..f.p.i], b"byval(") { let mut q = P { m, s, i: a0 + k + 6 }; let t = q.ty(); byval.push((np as u32, t.size())); }
        f.p.expect(b'%'); let (n, j) = read_name(s, f.p.i); f.p.i = j;
        if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
        let r = f.reg(n); assert!(r == np); np += 1;
        if f.p.eat(b')') { break; } f.p.expect(b',');
    } }
    // to '{' at end of line
    while !(s[f.p.i] == b'{' && s[f.p.i + 1] == b'\n') { f.p.i += 1; }
    f.p.i += 1;
    let mut code: Vec<I> = vec![];
    let mut blocks: Vec<Option<Block>> = vec![];
    let mut frame = 0u64; let mut defined: std::collections::HashSet<u32> = (0..np).collect();
    // entry
    let mut started = false;
    let mut phis: Vec<(u32, Vec<(u32, Opd)>)> = vec![];
    let mut cur: u32 = 0; let mut start = 0u32;
    loop {
        f.p.ws();
        if f.p.i >= s.len() { break; }
        // label?
        let k = f.p.i;
        let (lname, j) = read_name(s, k);
        if j > k && j < s.len() && s[j] == b':' {
            f.p.i = j + 1;
            if started { while blocks.len() <= cur as usize { blocks.push(None); } blocks[cur as usize] = Some(Block { start, phis: std::mem::take(&mut phis) }); }
            cur = f.blk(lname); if !started { assert!(cur == 0); } started = true; start = code.len() as u32;
            f.p.eol();
            continue;
        }
        if !started { started = true; let b = f.blk(unnamed.to_string()); assert!(b == 0); cur = 0; start = 0; }
        if s[k] == b'#' { f.p.eol(); continue; } // debug records
        let mut d = NODST;
        let mut dname = None;
        if s[k] == b'%' { let (n, j) = read_name(s, k + 1); f.p.i = j; f.p.expect(b'='); dname = Some(n); }
        let opw = f.p.word();
        if let Some(n) = dname { d = f.reg(n); defined.insert(d); }
        let inst = match opw {
            "cleanup" | "catch" | "filter" => I::Nop,
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                f.skip_flags(); let t = f.p.ty(); let a = f.opd(&t); f.p.expect(b','); let b = f.opd(&t);
                let op = match opw { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, _ => Op::AShr };
                let (w, vec) = match &t { Ty::Vec(_, e) => (e.width(), true), Ty::Int(w) if *w > 128 => (0, false), _ => (t.width(), false) };
                if w == 0 { I::Unsup("wide int".into()) } else { I::Bin { op, w, vec, d, a, b } }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => { f.skip_flags(); let t = f.p.ty(); let a = f.opd(&t); f.p.expect(b','); let b = f.opd(&t); if t.scalar() { I::FBin { op: match opw { "fadd" => 0, "fsub" => 1, "fmul" => 2, "fdiv" => 3, _ => 4 }, w: t.width(), d, a, b } } else { I::Unsup("vector float".into()) } }
            "fneg" => { f.skip_flags(); let t = f.p.ty(); let a = f.opd(&t); if t.scalar() { I::FNeg { w: t.width(), d, a } } else { I::Unsup("vector float".into()) } }
            "icmp" => { f.skip_flags(); let p = match f.p.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, x => panic!("pred {x}") }; f.skip_flags(); let t = f.p.ty(); let a = f.opd(&t); f.p.expect(b','); let b = f.opd(&t); let (w, vec) = match &t { Ty::Vec(_, e) => (e.width(), true), Ty::Int(w) if *w > 128 => (0, false), _ => (t.width(), false) }; if w == 0 { I::Unsup("wide int".into()) } else { I::ICmp { p, w, vec, d, a, b } } }
            "fcmp" => { f.skip_flags(); let p = f.p.word().to_string(); let t = f.p.ty(); let a = f.opd(&t); f.p.expect(b','); let b = f.opd(&t); if t.scalar() { I::FCmp { p, w: t.width(), d, a, b } } else { I::Unsup("vector float".into()) } }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                f.skip_flags(); let from = f.p.ty(); let a = f.opd(&from); if !f.p.eat_word("to") { f.p.err("to") } let to = f.p.ty();
                let k = match opw { "trunc" => Cast::Trunc, "zext" => Cast::Zext, "sext" => Cast::Sext, "bitcast" => Cast::Bit, "ptrtoint" | "inttoptr" | "ptrtoaddr" => if to.width() > from.width() { Cast::Zext } else if to.width() < from.width() { Cast::Trunc } else { Cast::Bit }, "uitofp" => Cast::Uitofp, "sitofp" => Cast::Sitofp, "fptoui" => Cast::Fptoui, "fptosi" => Cast::Fptosi, "fpext" => Cast::Fpext, _ => Cast::Fptrunc };
                I::Cast { k, from, to, d, a }
            }
            "load" => { let at = f.p.eat_word("atomic"); f.skip_flags(); let t = f.p.ty(); f.p.expect(b','); let pt = f.p.ty(); let p = f.opd(&pt); let o = if at { let mut w = f.p.word(); if w == "syncscope" { f.p.parens(); w = f.p.word(); } ord(w) } else { 0 }; I::Load { d, sc: scw(&t), ty: t, p, ord: o } }
            "store" => { let at = f.p.eat_word("atomic"); f.skip_flags(); let t = f.p.ty(); let v = f.opd(&t); f.p.expect(b','); let pt = f.p.ty(); let p = f.opd(&pt); let o = if at { let w = f.p.word(); ord(w) } else { 0 }; I::Store { sc: scw(&t), ty: t, v, p, ord: o } }
            "getelementptr" => {
                f.skip_flags(); if f.p.peek_word() == "inrange" { f.p.word(); f.p.parens(); }
                let bt = f.p.ty(); f.p.expect(b','); let pt = f.p.ty(); let base = f.opd(&pt);
                let mut off: i64 = 0; let mut idx = vec![]; let mut cur = bt; let mut first = true;
                while f.p.peek() == b',' {
                    let k = f.p.i; f.p.i += 1; if f.p.peek() == b'!' { f.p.i = k; break; }
                    let it = f.p.ty(); let v = f.opd(&it);
                    let (scale, next) = if first { first = false; (cur.size() as i64, cur.clone()) } else { match &cur { Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size() as i64, (**t).clone()), Ty::Struct(st) => { let n = if let Opd::C(c) = v { c as usize } else { panic!() }; off += cur.offsets()[n] as i64; let t = st.0[n].clone(); cur = t; continue; } _ => panic!("gep into {:?}", cur) } };
                    cur = next;
                    match v { Opd::C(c) => off = off.wrapping_add((crate::expr::sext_val(c, it.width()) as i64).wrapping_mul(scale)), v => idx.push((v, it.width(), scale)) }
                }
                if matches!(pt, Ty::Vec(..)) { I::Unsup("vector gep".into()) } else { I::Gep { d, base, off, idx } }
            }
            "alloca" => { let _ = f.p.eat_word("inalloca"); let t = f.p.ty(); let mut n = 1u64; let mut al = 16; let mut dynamic = false;
                while f.p.s[f.p.i] == b',' { f.p.i += 1; if f.p.peek() == b'!' { break; } if f.p.eat_word("align") { al = f.p.word().parse().unwrap(); } else { let it = f.p.ty(); match f.opd(&it) { Opd::C(c) => n = c as u64, _ => dynamic = true } } }
                if dynamic { I::Unsup("dynamic alloca".into()) } else { frame = (frame + al - 1) / al * al; let off = frame; frame += t.size() * n; I::Alloca { d, off } } }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if opw != "call" && opw != "invoke" { f.p.word(); }
                f.skip_flags(); f.skip_attrs();
                let rty = f.p.ty();
                f.skip_attrs();
                // optional function type
                if f.p.peek() == b'(' { f.p.parens(); }
                let callee = match f.p.peek() {
                    b'@' => { let (n, j) = read_name(s, f.p.i + 1); f.p.i = j; let n = m.alias.get(&n).cloned().unwrap_or(n); Callee::Direct(m.fn_id(&n)) }
                    b'%' => { let (n, j) = read_name(s, f.p.i + 1); f.p.i = j; Callee::Ind(Opd::R(f.reg(n))) }
                    _ => if f.p.eat_word("asm") { while matches!(f.p.peek_word(), "sideeffect" | "alignstack" | "inteldialect" | "unwind") { f.p.word(); } f.p.expect(b'"'); let st = f.p.i; while s[f.p.i] != b'"' { f.p.i += 1; } let t = String::from_utf8_lossy(&s[st..f.p.i]).into_owned(); f.p.i += 1; f.p.expect(b','); f.p.expect(b'"'); while s[f.p.i] != b'"' { f.p.i += 1; } f.p.i += 1; Callee::Asm(t) } else { match f.p.cval(&Ty::Ptr) { Val::C(c) => Callee::Ind(Opd::C(c)), _ => panic!() } },
                };
                f.p.expect(b'(');
                let mut args = vec![];
                if !f.p.eat(b')') { loop {
                    let t = f.p.ty();
                    if t == Ty::Meta { // skip to , or )
                        let mut dep = 0; loop { match s[f.p.i] { b'(' | b'{' => dep += 1, b')' | b'}' if dep > 0 => dep -= 1, b',' | b')' if dep == 0 => break, _ => {} } f.p.i += 1; }
                        args.push((Opd::C(0), t));
                    } else { f.skip_attrs(); let v = f.opd(&t); args.push((v, t)); }
                    if f.p.eat(b')') { break; } f.p.expect(b',');
                } }
                let mut normal = NOBLK;
                if opw == "invoke" { // skip attrs / bundles up to "to label"
                    loop { if f.p.eat_word("to") { break; } f.p.ws(); f.p.i += 1; }
                    normal = f.label();
                    if !f.p.eat_word("unwind") { f.p.err("unwind") } let _ = f.label();
                }
                I::Call { d, callee, args, rty, normal }
            }
            "br" => { if f.p.peek_word() == "label" { let b = f.label(); I::Br(b) } else { let t = f.p.ty(); let c = f.opd(&t); f.p.expect(b','); let a = f.label(); f.p.expect(b','); let b = f.label(); I::CondBr(c, a, b) } }
            "switch" => { let t = f.p.ty(); let c = f.opd(&t); f.p.expect(b','); let dfl = f.label(); f.p.expect(b'['); let mut cs = vec![]; while !f.p.eat(b']') { let t = f.p.ty(); let v = if let Val::C(c) = f.p.cval(&t) { c } else { panic!() }; f.p.expect(b','); let l = f.label(); cs.push((v, l)); } I::Switch(c, t.width(), dfl, cs) }
            "ret" => { let t = f.p.ty(); if t == Ty::Void { I::Ret(None) } else { let v = f.opd(&t); I::Ret(Some(v)) } }
            "phi" => { f.skip_flags(); let t = f.p.ty(); let mut inc = vec![]; loop { f.p.expect(b'['); let v = f.opd(&t); f.p.expect(b','); f.p.expect(b'%'); let (n, j) = read_name(s, f.p.i); f.p.i = j; let b = f.blk(n); f.p.expect(b']'); inc.push((b, v)); let k2 = f.p.i; if !f.p.eat(b',') { break; } if f.p.peek() != b'[' { f.p.i = k2; break; } } phis.push((d, inc)); f.p.end_line(k); continue; }
            "select" => { f.skip_flags(); let ct = f.p.ty(); let c = f.opd(&ct); f.p.expect(b','); let t = f.p.ty(); let a = f.opd(&t); f.p.expect(b','); let _ = f.p.ty(); let b = f.opd(&t); I::Select { d, c, a, b, ty: t } }
            "extractvalue" => { let t = f.p.ty(); let a = f.opd(&t); let mut idx = vec![]; while f.p.eat(b',') { if f.p.peek() == b'!' { break; } idx.push(f.p.word().parse().unwrap()); } I::ExtractV { d, a, idx } }
            "insertvalue" => { let t = f.p.ty(); let a = f.opd(&t); f.p.expect(b','); let vt = f.p.ty(); let v = f.opd(&vt); let mut idx = vec![]; while f.p.eat(b',') { if f.p.peek() == b'!' { break; } idx.push(f.p.word().parse().unwrap()); } I::InsertV { d, a, v, idx } }
            "extractelement" => { let t = f.p.ty(); let a = f.opd(&t); f.p.expect(b','); let it = f.p.ty(); let i = f.opd(&it); I::ExtractE { d, a, i } }
            "insertelement" => { let t = f.p.ty(); let a = f.opd(&t); f.p.expect(b','); let vt = f.p.ty(); let v = f.opd(&vt); f.p.expect(b','); let it = f.p.ty(); let i = f.opd(&it); I::InsertE { d, a, v, i } }
            "shufflevector" => { let t = f.p.ty(); let n = if let Ty::Vec(n, _) = &t { *n } else { panic!() }; let a = f.opd(&t); f.p.expect(b','); let _ = f.p.ty(); let b = f.opd(&t); f.p.expect(b','); let mt = f.p.ty(); let mv = f.p.cval(&mt); let mm = if let Val::Agg(v) = mv { v.iter().map(|x| if let Val::C(c) = x { *c as u32 } else { 0 }).collect() } else { panic!() }; I::Shuffle { d, a, b, m: mm, n } }
            "freeze" => { let t = f.p.ty(); let a = f.opd(&t); I::Freeze { d, a } }
            "cmpxchg" => { let _ = f.p.eat_word("weak"); f.skip_flags(); let pt = f.p.ty(); let p = f.opd(&pt); f.p.expect(b','); let t = f.p.ty(); let c = f.opd(&t); f.p.expect(b','); let _ = f.p.ty(); let n = f.opd(&t); I::CmpXchg { d, p, w: t.width(), cmp: c, new: n } }
            "atomicrmw" => { f.skip_flags(); let k = match f.p.word() { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "nand" => Rmw::Nand, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, x => panic!("rmw {x}") }; let pt = f.p.ty(); let p = f.opd(&pt); f.p.expect(b','); let t = f.p.ty(); let v = f.opd(&t); let o = ord(f.p.word()); I::Rmw { d, k, p, w: t.width(), v, ord: o } }
            "fence" => I::Fence,
            "unreachable" => I::Unreachable,
            "resume" => I::Unreachable,
            "landingpad" => I::Unsup("landingpad".into()),
            x => I::Unsup(format!("instruction {x}")),
        };
        if !matches!(inst, I::Nop) { code.push(inst); }
        // operand lists end at the line end: lookahead may already have moved past it
        f.p.end_line(k);
    }
    while blocks.len() <= cur as usize { blocks.push(None); }
    blocks[cur as usize] = Some(Block { start, phis });
    while blocks.len() < f.nblk as usize { blocks.push(None); }
    for r in 0..f.regs.len() as u32 { assert!(defined.contains(&r), "parser lost a definition in {name}"); }
    let blocks = blocks.into_iter().map(|b| b.expect("undefined block")).collect();
    Func { id, name, nparams: np, code, blocks, nregs: f.regs.len() as u32, frame_size: frame, byval }
}
