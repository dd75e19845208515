//! Environment model: LLVM intrinsics, libc, an in-memory file system, and the harness interface (sym_*).
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::Res;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Fd { pub path: Vec<u8>, pub pos: u64, pub open: bool, pub append: bool, pub dir: bool, pub std: u8 }
#[derive(Clone, Default)]
pub struct Env {
    pub files: Rc<BTreeMap<Vec<u8>, Rc<Obj>>>,
    pub dirs: Rc<BTreeMap<Vec<u8>, ()>>,
    pub fds: Vec<Fd>,
    pub vars: Rc<BTreeMap<Vec<u8>, u64>>,
    pub faults: u64,      // bit set of fault kinds enabled
    pub fault_budget: u64,
    pub errno: u64,
    pub clock: u64,
    pub rnd: u64,
    pub nsym: u64,
    pub stdout: Rc<Vec<E>>,
    pub fault_count: u64,
    pub keys: u64,
    pub spec: Rc<BTreeMap<(u32, u64), u64>>,
    pub preempts: u64,
    pub preempt_bound: u64, pub hash: u64,
    /// whether the process may be killed at the present call has been decided
    pub crash_asked: bool,
    /// where to go on when the guarded call dies: number of frames, number of stack objects
    pub guard: Option<(usize, usize)>,
}
pub const F_WRITE: u64 = 1;
pub const F_SHORT: u64 = 2;
pub const F_OPEN: u64 = 4;
pub const F_MKDIR: u64 = 8;
pub const F_READ: u64 = 16;
pub const F_RENAME: u64 = 32;
pub const F_CRASH: u64 = 64;

pub fn extern_global(n: &str) -> Option<Vec<u8>> { match n { "environ" | "__environ" => Some(vec![0; 8]), "__dso_handle" => Some(vec![]), "stdout" | "stderr" | "stdin" => Some(vec![0; 8]), _ => None } }
pub fn asm(t: &str, rty: &Ty) -> Result<Val, Stop> { if t.is_empty() || t.contains("cpuid") || t.contains("xgetbv") || t.starts_with("pause") || t.contains("nop") { Ok(rty.zero()) } else { Err(Stop::Unsup(format!("inline asm {t}"))) } }

const ENOENT: u64 = 2; const ENOSPC: u64 = 28; const EACCES: u64 = 13; const EBADF: u64 = 9;

impl X {
    fn errno(&mut self, st: &mut State, e: u64) -> Result<(), Stop> { if st.env.errno == 0 { st.env.errno = self.malloc(st, 4); } let p = st.env.errno; self.write_int(st, p, 4, e as u128) }
    pub fn fail(&mut self, st: &mut State, e: u64) -> Result<Ext, Stop> { self.errno(st, e)?; Ok(Ext::V(Val::C(mask(64)))) }
    fn fail32(&mut self, st: &mut State, e: u64) -> Result<Ext, Stop> { self.errno(st, e)?; Ok(Ext::V(Val::C(mask(32)))) }
    pub fn fresh(&mut self, st: &mut State, name: &str, w: u8, lo: u128, hi: u128) -> E {
        let k = st.env.nsym; st.env.nsym += 1;
        let full = format!("{name}#{k}");
        let e = new_var_range(w, &full, lo, hi);
        st.inputs.push(Input { name: full.into(), vals: Rc::new(vec![e]), w });
        e
    }
    fn fspath(&mut self, st: &mut State, p: u64) -> Result<Vec<u8>, Stop> { let s = self.cstr(st, p)?; Ok(resolve(&st.env, s)) }
    /// a symbolic fault decision, recorded as an input
    fn fault(&mut self, st: &mut State, kind: u64, name: &str) -> Result<bool, Stop> {
        if st.env.faults & kind == 0 || st.env.fault_count >= st.env.fault_budget { return Ok(false); }
        // re-execution after a fork must not create a second variable: the variable is keyed by its index
        let e = self.fault_var(st, name);
        let b = self.branch(st, e)?;
        self.commit_fault_var(st, e, name);
        if b { st.env.fault_count += 1; }
        Ok(b)
    }
    /// the process may be killed before an operation that changes the file system
    fn crash(&mut self, st: &mut State) -> Result<(), Stop> {
        if st.env.guard.is_none() || st.env.crash_asked { return Ok(()); }
        let b = self.fault(st, F_CRASH, "crash")?; if b { return Err(Stop::Panic("killed".into())); }
        st.env.crash_asked = true; Ok(())
    }
    fn fault_var(&mut self, st: &mut State, name: &str) -> E { let k = st.env.nsym; crate::expr::named_var(1, &format!("fault:{name}#{k}")) }
    fn commit_fault_var(&mut self, st: &mut State, e: E, name: &str) { let k = st.env.nsym; st.env.nsym += 1; st.inputs.push(Input { name: format!("fault:{name}#{k}").into(), vals: Rc::new(vec![e]), w: 1 }); }

    fn name_arg(&mut self, st: &mut State, p: &Val, n: &Val) -> Result<String, Stop> { let (p, n) = (self.conc64(st, p)?, self.conc64(st, n)?); let b = self.read_conc(st, p, n)?; Ok(String::from_utf8_lossy(&b).into_owned()) }

    pub fn ext_call(&mut self, st: &mut State, name: &str, args: &[Val], rty: &Ty) -> Result<Ext, Stop> {
        if let Some(rest) = name.strip_prefix("llvm.") { return self.intrinsic(st, rest, args, rty).map(Ext::V); }
        macro_rules! a { ($i:expr) => { { let v = args[$i].clone(); self.conc64(st, &v)? } } }
        macro_rules! ok { ($v:expr) => { Ok(Ext::V(Val::C(($v) as u64 as u128))) } }
        macro_rules! void { () => { Ok(Ext::V(Val::C(0))) } }
        match name {
            // ----- harness interface -----
            "sym_bytes" => { // (ptr, n, name, nlen)
                let (p, n) = (a!(0), a!(1)); let nm = self.name_arg(st, &args[2], &args[3])?;
                let k = st.env.nsym; st.env.nsym += 1;
                let vs: Vec<E> = (0..n).map(|i| new_var(8, &format!("{nm}#{k}[{i}]"))).collect();
                self.write_es(st, p, &vs)?;
                st.inputs.push(Input { name: format!("{nm}#{k}").into(), vals: Rc::new(vs), w: 8 });
                void!()
            }
            "sym_u64" => { // (lo, hi, name, nlen) -> u64 in [lo,hi]
                let (lo, hi) = (a!(0), a!(1)); let nm = self.name_arg(st, &args[2], &args[3])?;
                if lo == hi { let k = st.env.nsym; st.env.nsym += 1; st.inputs.push(Input { name: format!("{nm}#{k}").into(), vals: Rc::new(vec![cst(lo as u128, 64)]), w: 64 }); return ok!(lo); }
                // use the narrowest width
                let w = if hi <= 0xff { 8 } else if hi <= 0xffff { 16 } else if hi <= 0xffff_ffff { 32 } else { 64 };
                let e = self.fresh(st, &nm, w, lo as u128, hi as u128);
                Ok(Ext::V(from_e(zext(e, 64))))
            }
            "sym_choice" => { // (n, name, nlen): forks, returns a concrete value in 0..n
                let n = a!(0); let nm = self.name_arg(st, &args[1], &args[2])?;
                let k = st.env.nsym;
                if n == 1 { st.env.nsym += 1; st.inputs.push(Input { name: format!("{nm}#{k}").into(), vals: Rc::new(vec![cst(0, 64)]), w: 64 }); return ok!(0); }
                let e = crate::expr::named_var_range(16, &format!("{nm}#{k}"), 0, n as u128 - 1);
                let v = self.conc_e(st, e)?;
                st.env.nsym += 1;
                st.inputs.push(Input { name: format!("{nm}#{k}").into(), vals: Rc::new(vec![e]), w: 16 });
                ok!(v)
            }
            "sym_conc" => { let v = a!(0); ok!(v) }
            "sym_assume" => {
                let c = self.boolarg(&args[0]);
                if let Some(v) = as_const(c) { return if v == 1 { void!() } else { Err(Stop::Infeasible) }; }
                if st.eval(c) == 1 { self.push_pc(st, c); return void!(); }
                match self.solver.check(&st.pc, c) { Res::Sat(m) => { st.set_model(&m); self.push_pc(st, c); void!() } Res::Unsat => Err(Stop::Infeasible), Res::Unknown => Err(Stop::Unknown("assume".into())) }
            }
            "sym_assert" => { // (cond, msg, len)
                let c = self.boolarg(&args[0]);
                self.st.asserts += 1; st.asserts += 1;
                if as_const(c) == Some(1) { return void!(); }
                let msg = self.name_arg(st, &args[1], &args[2])?;
                if st.eval(c) == 0 { return Err(Stop::Assert(msg)); }
                match self.solver.check(&st.pc, not(c)) { Res::Sat(m) => { st.set_model(&m); let n = not(c); self.push_pc(st, n); Err(Stop::Assert(msg)) } Res::Unsat => { self.fact(st, c); void!() } Res::Unknown => Err(Stop::Unknown(format!("assert {msg}"))) }
            }
            "sym_reach" => { let nm = self.name_arg(st, &args[0], &args[1])?; st.reached.insert(nm); void!() }
            "sym_is_symbolic_run" => ok!(1),
            "sym_tier" => ok!(self.tier),
            "sym_allow_panic" => { st.allow_panic = a!(0) != 0; void!() }
            "sym_heap_reuse" => { st.reuse = a!(0) != 0; void!() }
            "sym_faults" => { st.env.faults = a!(0); st.env.fault_budget = a!(1); void!() }
            "sym_guarded" => { // (function, argument): 0 when it returns, 1 when it panics or the process is killed in it
                let (f, d) = (a!(0), args[1].clone()); if st.cur.tid != 0 || st.env.guard.is_some() { return Err(Stop::Unsup("nested guard".into())); }
                st.env.guard = Some((st.cur.frames.len(), st.cur.stack.len())); self.call_ptr(st, f, vec![d])?; Ok(Ext::Pushed)
            }
            "sym_args" => { // (count, values): what std does with the arguments of the program at its start
                let id = self.m.fn_named("ARGV_INIT_ARRAY12init_wrapper").ok_or_else(|| Stop::Unsup("no arguments in std".into()))?; let f = self.m.func(id).unwrap();
                self.push_call(st, f, vec![args[0].clone(), args[1].clone(), Val::C(0)])?; Ok(Ext::Pushed)
            }
            "sym_unguard" => { st.env.guard = None; void!() }
            "sym_fault_count" => ok!(st.env.fault_count),
            "sym_dbg" => { let nm = self.name_arg(st, &args[0], &args[1])?; if self.trace || std::env::var("LLSYM_DBG").is_ok() { eprintln!("[dbg] {nm}"); } void!() }
            "sym_dbg_u64" => { if std::env::var("LLSYM_DBG").is_ok() { match &args[0] { Val::C(c) => eprintln!("[dbg] {c:#x}"), Val::S(e) => eprintln!("[dbg] {} (model {:#x})", show(*e), st.eval(*e)), _ => {} } } void!() }
            "sym_fs_file" => { // (path, plen, data, dlen): create file in the model file system
                let (p, pl, d, dl) = (a!(0), a!(1), a!(2), a!(3)); let path = self.read_conc(st, p, pl)?; let data = self.read_bytes_e(st, d, dl)?;
                let mut o = Obj::new(dl as usize); for (i, e) in data.iter().enumerate() { o.set_byte(i, *e); }
                mkparents(&mut st.env, &path);
                Rc::make_mut(&mut st.env.files).insert(path, Rc::new(o)); void!()
            }
            "sym_fs_dir" => { let (p, pl) = (a!(0), a!(1)); let path = self.read_conc(st, p, pl)?; mkparents(&mut st.env, &path); Rc::make_mut(&mut st.env.dirs).insert(path, ()); void!() }
            "sym_fs_size" => { let (p, pl) = (a!(0), a!(1)); let path = self.read_conc(st, p, pl)?; match st.env.files.get(&path) { Some(o) => ok!(o.b.len()), None => ok!(u64::MAX) } }
            "sym_fs_read" => { // (path, plen, out)
                let (p, pl, out) = (a!(0), a!(1), a!(2)); let path = self.read_conc(st, p, pl)?; let o = st.env.files.get(&path).cloned(); if let Some(o) = o { let v: Vec<E> = (0..o.b.len()).map(|i| o.byte(i)).collect(); self.write_es(st, out, &v)?; } void!() }
            "sym_fs_list" => { // (index, out, cap) -> length of path of the index'th file or -1
                let (i, out, cap) = (a!(0), a!(1), a!(2)); let k = st.env.files.keys().nth(i as usize).cloned(); match k { Some(k) if (k.len() as u64) <= cap => { self.write_bytes(st, out, &k)?; ok!(k.len()) } _ => ok!(u64::MAX) } }
            "sym_stdout" => { let (out, cap) = (a!(0), a!(1)); let d = st.env.stdout.clone(); if d.len() as u64 > cap { return Err(Stop::Unsup("stdout cap".into())); } self.write_es(st, out, &d)?; ok!(d.len()) }
            "sym_setenv" => { let (p, pl, d, dl) = (a!(0), a!(1), a!(2), a!(3)); let k = self.read_conc(st, p, pl)?; let v = self.read_bytes_e(st, d, dl)?; let b = self.malloc(st, dl + 1); self.write_es(st, b, &v)?; Rc::make_mut(&mut st.env.vars).insert(k, b); void!() }
            // ----- allocation -----
            "malloc" => { let n = a!(0); if n > 1 << 28 { return ok!(0); } ok!(self.malloc(st, n)) }
            "calloc" => { let n = a!(0).checked_mul(a!(1)).unwrap_or(u64::MAX); if n > 1 << 28 { return ok!(0); } ok!(self.malloc(st, n)) }
            "posix_memalign" => { let (out, n) = (a!(0), a!(2)); let p = self.malloc(st, n); self.write_int(st, out, 8, p as u128)?; ok!(0) }
            "aligned_alloc" => { let n = a!(1); ok!(self.malloc(st, n)) }
            "realloc" => {
                let (p, n) = (a!(0), a!(1)); if n > 1 << 28 { return ok!(0); }
                if p == 0 { return ok!(self.malloc(st, n)); }
                let old = { let (o, _) = self.rd(st, p, 0)?; o.b.len() as u64 };
                let q = self.malloc(st, n); self.copy(st, q, p, old.min(n))?; self.free(st, p)?; ok!(q)
            }
            "free" => { let p = a!(0); self.free(st, p)?; void!() }
            "malloc_usable_size" => { let p = a!(0); let (o, _) = self.rd(st, p, 0)?; ok!(o.b.len()) }
            // ----- strings -----
            "memcmp" | "bcmp" => {
                let n = a!(2); if n == 0 { return ok!(0); }
                let (p, q) = (a!(0), a!(1)); let x = self.read_bytes_e(st, p, n)?; let y = self.read_bytes_e(st, q, n)?;
                if name == "bcmp" { let mut all = tru(); for (a, b) in x.iter().zip(&y) { let e = bin(Op::Eq, *a, *b); if as_const(e) == Some(0) { return ok!(1u64); } all = bin(Op::And, all, e); } return Ok(Ext::V(from_e(ite(all, cst(0, 32), cst(1, 32))))); }
                let mut r = cst(0, 32);
                for (a, b) in x.iter().zip(&y).rev() { let e = bin(Op::Eq, *a, *b); let d = bin(Op::Sub, zext(*a, 32), zext(*b, 32)); r = ite(e, r, d); }
                Ok(Ext::V(from_e(r)))
            }
            "memchr" | "memrchr" => {
                let (p, n) = (a!(0), a!(2)); let c = match &args[1] { Val::C(c) => cst(*c, 8), Val::S(e) => extract(*e, 0, 8), _ => return Err(Stop::Unsup("memchr".into())) };
                let x = self.read_bytes_e(st, p, n)?;
                let mut r = cst(0, 64);
                let it: Vec<(usize, E)> = x.iter().copied().enumerate().collect();
                let ord: Vec<(usize, E)> = if name == "memchr" { it.into_iter().rev().collect() } else { it };
                for (i, b) in ord { r = ite(bin(Op::Eq, b, c), cst((p + i as u64) as u128, 64), r); }
                let v = self.conc_e(st, r)?; ok!(v)
            }
            "strlen" => { let p = a!(0); let s = self.cstr(st, p)?; ok!(s.len()) }
            "memcpy" | "memmove" => { let (d, s, n) = (a!(0), a!(1), a!(2)); self.copy(st, d, s, n)?; ok!(d) }
            "memset" => { let (d, n) = (a!(0), a!(2)); let e = match &args[1] { Val::C(c) => cst(*c, 8), Val::S(e) => extract(*e, 0, 8), _ => unreachable!() }; self.write_es(st, d, &vec![e; n as usize])?; ok!(d) }
            // ----- process environment -----
            "getenv" => { let p = a!(0); let k = self.cstr(st, p)?; ok!(st.env.vars.get(&k).copied().unwrap_or(0)) }
            "__errno_location" => { if st.env.errno == 0 { st.env.errno = self.malloc(st, 4); } ok!(st.env.errno) }
            "getrandom" => { let (p, n) = (a!(0), a!(1)); let v: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(37).wrapping_add(st.env.rnd as u8)).collect(); self.write_bytes(st, p, &v)?; ok!(n) }
            "clock_gettime" => { let p = a!(1); st.env.clock += 1; let c = st.env.clock; self.write_int(st, p, 8, 1_700_000_000 + c as u128)?; self.write_int(st, p + 8, 8, 0)?; ok!(0) }
            "getpid" | "gettid" => ok!(4242), "getuid" | "geteuid" => ok!(0),
            "sysconf" => { let k = a!(0); ok!(if k == 30 { 4096u64 } else if k == 84 { 8 } else { 0 }) }
            "sched_getaffinity" => self.fail32(st, 38),
            "sched_yield" => self.thread_yield(st),
            "vh_sched" => self.sched_point(st),
            "sym_threads" => { st.env.preempt_bound = a!(0); void!() }
            "__cxa_thread_atexit_impl" | "atexit" | "__cxa_atexit" => ok!(0),
            "dl_iterate_phdr" => ok!(0),
            "abort" => Err(Stop::Panic(format!("abort [{}]", st.backtrace()))),
            "exit" | "_exit" => { let c = a!(0); Err(Stop::Panic(format!("exit({c})"))) }
            "symbolic_demangle_is_swift_symbol" => { // isSwiftSymbol: one of these prefixes
                let p = a!(0); let mut any = cst(0, 1);
                for pre in [&b"_T"[..], b"$S", b"_$S", b"$s", b"_$s", b"@__swiftmacro_"] {
                    let mut c = cst(1, 1);
                    for (i, ch) in pre.iter().enumerate() { let e = { let (o, off) = match self.rd(st, p + i as u64, 1) { Ok(x) => x, Err(_) => { c = cst(0, 1); break; } }; o.byte(off) }; c = bin(Op::And, c, bin(Op::Eq, e, cst(*ch as u128, 8))); if as_const(c) == Some(0) { break; } }
                    any = bin(Op::Or, any, c);
                }
                if self.branch(st, any)? { return Err(Stop::Unsup("swift symbol".into())); }
                ok!(0)
            }
            "sym_hash_one" => ok!(st.env.hash),
            "sym_hash_const" => { st.env.hash = a!(0); void!() }
            "symbolic_demangle_swift" => ok!(0),
            // ----- files -----
            "open64" | "open" => {
                let p = a!(0); let fl = a!(1); let path = self.fspath(st, p)?;
                let wr = fl & 3 != 0;
                if wr { self.crash(st)?; } if wr && self.fault(st, F_OPEN, "open")? { return self.fail32(st, EACCES); }
                let exists = st.env.files.contains_key(&path);
                let isdir = st.env.dirs.contains_key(&path);
                if isdir && wr { return self.fail32(st, 21); }
                if !exists && !isdir { if fl & 0o100 == 0 || !st.env.dirs.contains_key(parent(&path)) { return self.fail32(st, ENOENT); } Rc::make_mut(&mut st.env.files).insert(path.clone(), Rc::new(Obj::default())); }
                else if exists && fl & 0o300 == 0o300 { return self.fail32(st, 17); }
                else if exists && fl & 0o1000 != 0 { Rc::make_mut(&mut st.env.files).insert(path.clone(), Rc::new(Obj::default())); }
                while st.env.fds.len() < 3 { let n = st.env.fds.len() as u8; st.env.fds.push(Fd { std: n + 1, open: true, ..Default::default() }); }
                st.env.fds.push(Fd { path, pos: 0, open: true, append: fl & 0o2000 != 0, dir: isdir, std: 0 });
                ok!(st.env.fds.len() - 1)
            }
            "close" => { let fd = a!(0) as usize; if let Some(f) = st.env.fds.get_mut(fd) { f.open = false; } ok!(0) }
            "read" => {
                let (fd, p, n) = (a!(0) as usize, a!(1), a!(2));
                let (path, pos) = match st.env.fds.get(fd) { Some(f) if f.open && f.std == 0 => (f.path.clone(), f.pos), _ => return self.fail(st, EBADF) };
                if self.fault(st, F_READ, "read")? { return self.fail(st, 5); }
                let o = match st.env.files.get(&path) { Some(o) => o.clone(), None => return self.fail(st, 21) };
                let k = (o.b.len() as u64).saturating_sub(pos).min(n);
                let v: Vec<E> = (0..k).map(|i| o.byte((pos + i) as usize)).collect();
                self.write_es(st, p, &v)?; st.env.fds[fd].pos += k; ok!(k)
            }
            "write" | "writev" => {
                let fd = a!(0) as i32 as i64 as usize;
                let mut bufs = vec![];
                if name == "write" { bufs.push((a!(1), a!(2))); } else { let (iov, c) = (a!(1), a!(2)); for i in 0..c { let b = self.read_int(st, iov + i * 16, 8)? as u64; let l = self.read_int(st, iov + i * 16 + 8, 8)? as u64; bufs.push((b, l)); } }
                let total: u64 = bufs.iter().map(|b| b.1).sum();
                let stdfd = if fd < 3 { fd + 1 } else { 0 };
                if stdfd == 0 && !st.env.fds.get(fd).map_or(false, |f| f.open) { return self.fail(st, EBADF); }
                if stdfd == 0 && total > 0 { self.crash(st)?; }
                // both decisions are made before either is recorded: a fork executes this call again
                let can = |st: &State, k: u64| stdfd != 3 && st.env.faults & k != 0 && st.env.fault_count < st.env.fault_budget;
                let (ask_w, ask_s) = (can(st, F_WRITE) && total > 0, can(st, F_SHORT) && total > 1);
                let ew = crate::expr::named_var(1, &format!("fault:write#{}", st.env.nsym)); let es = crate::expr::named_var(1, &format!("fault:short#{}", st.env.nsym + ask_w as u64));
                let bw = ask_w && self.branch(st, ew)?; let bs = ask_s && !bw && self.branch(st, es)?;
                if ask_w { self.commit_fault_var(st, ew, "write"); } if ask_s && !bw { self.commit_fault_var(st, es, "short"); }
                if bw || bs { st.env.fault_count += 1; } if bw { return self.fail(st, ENOSPC); }
                let mut data = vec![];
                for (b, l) in bufs { data.extend(self.read_bytes_e(st, b, l)?); }
                if bs { data.truncate((total / 2) as usize); }
                let k = data.len() as u64;
                if stdfd != 0 { if stdfd == 2 { let v = Rc::make_mut(&mut st.env.stdout); v.extend(data); } return ok!(k); }
                let f = &mut st.env.fds[fd]; let path = f.path.clone();
                let files = Rc::make_mut(&mut st.env.files);
                if let Some(o) = files.get_mut(&path) { let o = Rc::make_mut(o); if f.append { f.pos = o.b.len() as u64; } let end = (f.pos + k) as usize; if o.b.len() < end { o.resize(end); } for (i, e) in data.into_iter().enumerate() { o.set_byte(f.pos as usize + i, e); } f.pos += k; }
                ok!(k)
            }
            "lseek64" | "lseek" => { let (fd, off, wh) = (a!(0) as usize, a!(1), a!(2)); let f = match st.env.fds.get(fd) { Some(f) if f.std == 0 => f.clone(), _ => return self.fail(st, EBADF) }; let l = st.env.files.get(&f.path).map_or(0, |o| o.b.len() as u64); let np = match wh { 0 => off, 1 => f.pos.wrapping_add(off), _ => l.wrapping_add(off) }; st.env.fds[fd].pos = np; ok!(np) }
            "fsync" | "fdatasync" => { if self.fault(st, F_WRITE, "fsync")? { return self.fail32(st, 5); } ok!(0) }
            "statx" | "stat64" | "lstat64" | "fstat64" | "fstatat64" => {
                let (path, buf) = match name { "statx" => { let (d, p) = (a!(0) as u32, a!(1)); if p == 0 { return self.fail32(st, 14); } let s = self.cstr(st, p)?; let s = if s.is_empty() && d != 0xffffff9c { st.env.fds.get(d as usize).map(|f| f.path.clone()).unwrap_or_default() } else if s[0] != b'/' && d != 0xffffff9c { let mut v = st.env.fds.get(d as usize).map(|f| f.path.clone()).unwrap_or_default(); v.push(b'/'); v.extend(s); v } else { resolve(&st.env, s) }; (s, a!(4)) } "fstat64" => { let d = a!(0) as usize; (st.env.fds.get(d).map(|f| f.path.clone()).unwrap_or_default(), a!(1)) } "fstatat64" => { let p = a!(1); (self.fspath(st, p)?, a!(2)) } _ => { let p = a!(0); (self.fspath(st, p)?, a!(1)) } };
                let path = strip_slash(path);
                let isdir = st.env.dirs.contains_key(&path); let sz = st.env.files.get(&path).map(|o| o.b.len() as u64);
                if !isdir && sz.is_none() { return self.fail32(st, ENOENT); }
                let mode: u128 = if isdir { 0o40755 } else { 0o100644 }; let sz = sz.unwrap_or(4096) as u128;
                if name == "statx" { self.write_bytes(st, buf, &[0; 256])?; self.write_int(st, buf, 4, 0x7ff)?; self.write_int(st, buf + 16, 4, 1)?; self.write_int(st, buf + 28, 2, mode)?; self.write_int(st, buf + 40, 8, sz)?; }
                else { self.write_bytes(st, buf, &[0; 144])?; self.write_int(st, buf + 16, 8, 1)?; self.write_int(st, buf + 24, 4, mode)?; self.write_int(st, buf + 48, 8, sz)?; }
                ok!(0)
            }
            "opendir" => { let p = a!(0); let path = strip_slash(self.fspath(st, p)?); if !st.env.dirs.contains_key(&path) { st.env.errno = ENOENT; return ok!(0); } while st.env.fds.len() < 3 { let n = st.env.fds.len() as u8; st.env.fds.push(Fd { std: n + 1, open: true, ..Default::default() }); } st.env.fds.push(Fd { path, pos: 0, open: true, append: false, dir: true, std: 0 }); let fd = st.env.fds.len() - 1; let h = self.malloc(st, 320); self.write_int(st, h, 8, fd as u128)?; ok!(h) }
            "dirfd" => { let h = a!(0); let fd = self.read_int(st, h, 8)?; ok!(fd) }
            "closedir" => { let h = a!(0); let fd = self.read_int(st, h, 8)? as usize; st.env.fds[fd].open = false; ok!(0) }
            "readdir64" => {
                let h = a!(0); let fd = self.read_int(st, h, 8)? as usize; let mut d = st.env.fds[fd].path.clone(); d.push(b'/'); let mut names: Vec<(Vec<u8>, u128)> = vec![];
                for (f, t) in st.env.files.keys().map(|f| (f, 8)).chain(st.env.dirs.keys().map(|f| (f, 4))) { if f.len() > d.len() && f.starts_with(&d) && !f[d.len()..].contains(&b'/') { names.push((f[d.len()..].to_vec(), t)); } } names.sort();
                let k = st.env.fds[fd].pos as usize; if k >= names.len() { st.env.errno = 0; return ok!(0); } st.env.fds[fd].pos += 1;
                let (n, t) = &names[k]; self.write_int(st, h + 8, 8, 1)?; self.write_int(st, h + 16, 8, 0)?; self.write_int(st, h + 24, 2, 280)?; self.write_int(st, h + 26, 1, *t)?; let mut b = n.clone(); b.push(0); self.write_bytes(st, h + 27, &b)?; ok!(h + 8)
            }
            "mkdir" => { let p = a!(0); let path = self.fspath(st, p)?; if st.env.dirs.contains_key(&path) || st.env.files.contains_key(&path) { return self.fail32(st, 17); } if !st.env.dirs.contains_key(parent(&path)) { return self.fail32(st, ENOENT); } self.crash(st)?; if self.fault(st, F_MKDIR, "mkdir")? { return self.fail32(st, EACCES); } Rc::make_mut(&mut st.env.dirs).insert(path, ()); ok!(0) }
            "unlink" => { let p = a!(0); let path = self.fspath(st, p)?; self.crash(st)?; if Rc::make_mut(&mut st.env.files).remove(&path).is_some() { ok!(0) } else { self.fail32(st, ENOENT) } }
            "rename" => { let (p, q) = (a!(0), a!(1)); let (x, y) = (self.fspath(st, p)?, self.fspath(st, q)?); self.crash(st)?; if self.fault(st, F_RENAME, "rename")? { return self.fail32(st, EACCES); } match Rc::make_mut(&mut st.env.files).remove(&x) { Some(o) => { Rc::make_mut(&mut st.env.files).insert(y, o); ok!(0) } None => self.fail32(st, ENOENT) } }
            "realpath" if st.env.files.is_empty() && st.env.dirs.is_empty() => { self.errno(st, ENOENT)?; ok!(0) }
            "realpath" => { let p = a!(0); let path = self.fspath(st, p)?; if st.env.files.contains_key(&path) || st.env.dirs.contains_key(&path) { let b = self.malloc(st, path.len() as u64 + 1); self.write_bytes(st, b, &path)?; ok!(b) } else { self.errno(st, ENOENT)?; ok!(0) } }
            "getcwd" => { let (p, n) = (a!(0), a!(1)); if n < 10 { self.errno(st, 34)?; return ok!(0); } self.write_bytes(st, p, b"/tmp/vhfs\0")?; ok!(p) }
            "readlink" => self.fail(st, 22),
            "isatty" => ok!(0), "fcntl" | "fcntl64" => ok!(0), "poll" => ok!(0), "ioctl" => self.fail32(st, 25),
            "posix_fadvise64" | "ftruncate64" | "fchmod" => ok!(0),
            "copy_file_range" | "sendfile64" | "splice" => self.fail(st, 38),
            "opendir" | "opendir64" => { self.errno(st, ENOENT)?; ok!(0) }
            "sigaction" | "signal" | "sigaltstack" | "pthread_sigmask" => ok!(0),
            "__xpg_strerror_r" | "strerror_r" => { let (e, p, n) = (a!(0), a!(1), a!(2)); let s = format!("os error {}\0", e as u32); if (s.len() as u64) <= n { self.write_bytes(st, p, s.as_bytes())?; } ok!(0) }
            "pthread_self" => ok!(st.cur.tid + 1),
            "pthread_getattr_np" | "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_attr_setguardsize" | "pthread_attr_getguardsize" | "pthread_setname_np" | "pthread_attr_getstack" => ok!(if name == "pthread_getattr_np" { 22u64 } else { 0 }),
            "pthread_key_create" => { let p = a!(0); st.env.keys += 1; let k = st.env.keys; self.write_bytes(st, p, &(k as u32).to_le_bytes())?; ok!(0) }
            "pthread_setspecific" => { let (k, v) = (a!(0), a!(1)); let t = st.cur.tid; Rc::make_mut(&mut st.env.spec).insert((t, k), v); ok!(0) }
            "pthread_getspecific" => { let k = a!(0); ok!(st.env.spec.get(&(st.cur.tid, k)).copied().unwrap_or(0)) }
            "pthread_key_delete" => ok!(0),
            "prctl" => ok!(0), "dlsym" => ok!(0),
            "pthread_mutex_lock" | "pthread_mutex_unlock" => ok!(0),
            "pthread_create" => self.thread_create(st, args),
            "pthread_join" => self.thread_join(st, args),
            "pthread_detach" => ok!(0),
            "syscall" => self.syscall(st, args),
            _ => {
                if name.contains("___rust_no_alloc_shim_is_unstable") || name.contains("__rust_no_alloc_shim") { return void!(); }
                if name.starts_with("sym_sched") || name.starts_with("sym_chan") || name.starts_with("sym_mutex") { return self.sched_call(st, name, args); }
                if std::env::var("LLSYM_EXTZERO").is_ok() { eprintln!("extern {name} -> 0"); return Ok(Ext::V(rty.zero())); }
                Err(Stop::Unsup(format!("external function {name} [{}]", st.backtrace())))
            }
        }
    }
    fn syscall(&mut self, st: &mut State, args: &[Val]) -> Result<Ext, Stop> {
        let n = { let v = args[0].clone(); self.conc64(st, &v)? };
        match n {
            202 => self.futex(st, args),
            318 => { let v: Vec<u64> = (1..3).map(|i| if let Val::C(c) = args[i] { c as u64 } else { 0 }).collect(); let d: Vec<u8> = (0..v[1]).map(|i| (i as u8).wrapping_mul(37)).collect(); self.write_bytes(st, v[0], &d)?; Ok(Ext::V(Val::C(v[1] as u128))) }
            186 => Ok(Ext::V(Val::C(st.cur.tid as u128 + 1))),
            332 => { let a: Vec<Val> = args[1..].to_vec(); self.ext_call(st, "statx", &a, &Ty::Int(64)) }
            _ => Err(Stop::Unsup(format!("syscall {n}"))),
        }
    }
    pub fn boolarg(&self, v: &Val) -> E { match v { Val::C(c) => cst(*c & 1, 1), Val::S(e) => extract(*e, 0, 1), _ => panic!("boolarg") } }

    fn intrinsic(&mut self, st: &mut State, n: &str, args: &[Val], rty: &Ty) -> Result<Val, Stop> {
        macro_rules! a { ($i:expr) => { { let v = args[$i].clone(); self.conc64(st, &v)? } } }
        let base = n.split('.').next().unwrap();
        let width_of = |t: &Ty| match t { Ty::Vec(_, e) => e.width(), t => t.width() };
        Ok(match base {
            "memcpy" | "memmove" => { let (d, s, l) = (a!(0), a!(1), a!(2)); self.copy(st, d, s, l)?; Val::C(0) }
            "memset" => { let (d, l) = (a!(0), a!(2)); if l > 0 { match &args[1] { Val::C(c) => { let (o, off) = self.wr(st, d, l)?; o.b[off..off + l as usize].fill(*c as u8); if let Some(s) = &mut o.s { s[off..off + l as usize].fill(0); } } Val::S(e) => { let e = extract(*e, 0, 8); self.write_es(st, d, &vec![e; l as usize])?; } _ => {} } } Val::C(0) }
            "lifetime" | "assume" | "experimental" | "prefetch" | "dbg" | "donothing" | "sideeffect" | "invariant" | "pseudoprobe" | "var" => Val::C(0),
            "expect" => args[0].clone(),
            "is" => Val::C(0),
            "trap" | "debugtrap" | "ubsantrap" => return Err(Stop::Panic(format!("llvm.trap [{}]", st.backtrace()))),
            "threadlocal" => { let p = a!(0); let (r, id, off) = split(p); if r != R_GLOB { return Err(Stop::Unsup("tls".into())); } Val::C((addr(R_TLS, ((st.cur.tid as u64) << 20) | id) + off) as u128) }
            "umin" | "umax" | "smin" | "smax" => { let w = width_of(rty); if matches!(rty, Ty::Vec(..)) { lanes2(&args[0], &args[1], |x, y| Ok(minmax(base, w, x, y)))? } else {
                let (op, takex) = match base { "umin" => (Op::Ult, true), "umax" => (Op::Ult, false), "smin" => (Op::Slt, true), _ => (Op::Slt, false) };
                let c = bin(op, to_e(&args[0], w), to_e(&args[1], w));
                match self.implied(st, c)? { Some(b) => args[if b == takex { 0 } else { 1 }].clone(), None => minmax(base, w, &args[0], &args[1]) } } }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                let w = if let Ty::Struct(s) = rty { s.0[0].width() } else { width_of(rty) };
                if n.contains(".sat.") {
                    if !matches!(rty, Ty::Vec(..)) && (base == "uadd" || base == "usub") {
                        let (a, b) = (to_e(&args[0], w), to_e(&args[1], w));
                        let (r, o, lim) = if base == "uadd" { let r = bin(Op::Add, a, b); (r, bin(Op::Ult, r, a), mask(w)) } else { (bin(Op::Sub, a, b), bin(Op::Ult, a, b), 0) };
                        return Ok(match self.implied(st, o)? { Some(true) => Val::C(lim), Some(false) => from_e(r), None => from_e(ite(o, cst(lim, w), r)) });
                    }
                    let f = |x: &Val, y: &Val| -> Result<Val, Stop> { let (a, b) = (to_e(x, w), to_e(y, w)); Ok(from_e(match base { "uadd" => { let s = bin(Op::Add, a, b); ite(bin(Op::Ult, s, a), cst(mask(w), w), s) } "usub" => ite(bin(Op::Ult, a, b), cst(0, w), bin(Op::Sub, a, b)), "sadd" | "ssub" => { let (x, y) = (sext(a, w + 1), sext(b, w + 1)); let r = bin(if base == "sadd" { Op::Add } else { Op::Sub }, x, y); let (mx, mn) = (mask(w - 1), 1u128 << (w - 1)); let (mx1, mn1) = (cst(mx, w + 1), sext(cst(mn, w), w + 1)); ite(bin(Op::Slt, mx1, r), cst(mx, w), ite(bin(Op::Slt, r, mn1), cst(mn, w), extract(r, 0, w))) } _ => return Err(Stop::Unsup("sat".into())) })) };
                    if matches!(rty, Ty::Vec(..)) { lanes2(&args[0], &args[1], f)? } else { f(&args[0], &args[1])? }
                } else {
                    let (a, b) = (to_e(&args[0], w), to_e(&args[1], w));
                    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
                        let (r, o) = match base { "uadd" => { let r = x.wrapping_add(y); (r & mask(w), if w == 128 { r < x } else { r > mask(w) }) } "usub" => (x.wrapping_sub(y) & mask(w), x < y), "umul" => { let (r, o) = x.overflowing_mul(y); (r & mask(w), o || r > mask(w)) } "sadd" => { let (r, o) = sext_val(x, w).overflowing_add(sext_val(y, w)); let m = r as u128 & mask(w); (m, o || sext_val(m, w) != r) } "ssub" => { let (r, o) = sext_val(x, w).overflowing_sub(sext_val(y, w)); let m = r as u128 & mask(w); (m, o || sext_val(m, w) != r) } _ => { let (r, o) = sext_val(x, w).overflowing_mul(sext_val(y, w)); let m = r as u128 & mask(w); (m, o || sext_val(m, w) != r) } };
                        return Ok(Val::Agg(vec![Val::C(r), Val::C(o as u128)].into()));
                    }
                    let (r, o) = match base {
                        "uadd" => { let r = bin(Op::Add, a, b); (r, bin(Op::Ult, r, a)) }
                        "usub" => (bin(Op::Sub, a, b), bin(Op::Ult, a, b)),
                        "umul" => { if w > 64 { return Err(Stop::Unsup("umul128".into())); } let r = bin(Op::Mul, zext(a, 2 * w), zext(b, 2 * w)); (bin(Op::Mul, a, b), not(bin(Op::Eq, extract(r, w, w), cst(0, w)))) }
                        _ => { if w > 64 { return Err(Stop::Unsup("smul128".into())); } let op = match base { "sadd" => Op::Add, "ssub" => Op::Sub, _ => Op::Mul }; let r = bin(op, sext(a, 2 * w), sext(b, 2 * w)); let t = extract(r, 0, w); (t, not(bin(Op::Eq, sext(t, 2 * w), r))) }
                    };
                    Val::Agg(vec![from_e(r), from_e(o)].into())
                }
            }
            "fshl" | "fshr" => {
                let w = width_of(rty);
                if matches!(rty, Ty::Vec(..)) { return Err(Stop::Unsup("vector fsh".into())); }
                let s = match &args[2] { Val::C(c) => *c % w as u128, Val::S(e) => self.conc_e(st, *e)? % w as u128, _ => 0 } ;
                let (hi, lo) = (to_e(&args[0], w), to_e(&args[1], w));
                let s = if base == "fshl" { s } else if s == 0 { return Ok(args[1].clone()); } else { w as u128 - s };
                if s == 0 { return Ok(args[0].clone()); }
                from_e(concat(extract(hi, 0, w - s as u8), extract(lo, w - s as u8, s as u8)))
            }
            "bswap" => { let w = rty.width(); match &args[0] { Val::C(c) => { let mut r = 0u128; for i in 0..w / 8 { r = (r << 8) | ((c >> (8 * i)) & 0xff); } Val::C(r) } Val::S(e) => { let mut r = extract(*e, 0, 8); for i in 1..w / 8 { r = concat(r, extract(*e, 8 * i, 8)); } from_e(r) } _ => return Err(Stop::Unsup("bswap".into())) } }
            "bitreverse" => { let w = rty.width(); let e = to_e(&args[0], w); let mut r = extract(e, 0, 1); for i in 1..w { r = concat(r, extract(e, i, 1)); } from_e(r) }
            "ctpop" => { let w = rty.width(); match &args[0] { Val::C(c) => Val::C(c.count_ones() as u128), Val::S(e) => { let mut r = cst(0, w); for i in 0..w { r = bin(Op::Add, r, zext(extract(*e, i, 1), w)); } from_e(r) } _ => return Err(Stop::Unsup("ctpop".into())) } }
            "ctlz" => { let w = rty.width(); match &args[0] { Val::C(c) => Val::C(if *c == 0 { w as u128 } else { (c.leading_zeros() - (128 - w as u32)) as u128 }), Val::S(e) => { let mut r = cst(w as u128, w); for i in 0..w { r = ite(extract(*e, i, 1), cst((w - 1 - i) as u128, w), r); } from_e(r) } _ => return Err(Stop::Unsup("ctlz".into())) } }
            "cttz" => { let w = rty.width(); match &args[0] { Val::C(c) => Val::C(if *c == 0 { w as u128 } else { c.trailing_zeros() as u128 }), Val::S(e) => { let mut r = cst(w as u128, w); for i in (0..w).rev() { r = ite(extract(*e, i, 1), cst(i as u128, w), r); } from_e(r) } _ => return Err(Stop::Unsup("cttz".into())) } }
            "abs" => { let w = rty.width(); let e = to_e(&args[0], w); from_e(ite(extract(e, w - 1, 1), bin(Op::Sub, cst(0, w), e), e)) }
            "scmp" | "ucmp" => { let w = rty.width(); // operand width from name: llvm.ucmp.i8.i32
                let ow: u8 = n.rsplit('.').next().unwrap().trim_start_matches('i').parse().map_err(|_| Stop::Unsup(format!("llvm.{n}")))?;
                let (a, b) = (to_e(&args[0], ow), to_e(&args[1], ow)); let lt = bin(if base == "ucmp" { Op::Ult } else { Op::Slt }, a, b); let gt = bin(if base == "ucmp" { Op::Ult } else { Op::Slt }, b, a);
                from_e(ite(lt, cst(mask(w), w), ite(gt, cst(1, w), cst(0, w)))) }
            "fabs" => { let w = rty.width(); let c = { let v = args[0].clone(); self.conc(st, &v)? }; Val::C(c & mask(w - 1)) }
            "vector" => { // reductions
                let op = n.split('.').nth(2).unwrap_or(""); let w = rty.width();
                if let Val::Agg(v) = &args[0] { let mut acc = v[0].clone(); for x in v.iter().skip(1) { acc = match op { "or" => binop(Op::Or, w, &acc, x)?, "and" => binop(Op::And, w, &acc, x)?, "add" => binop(Op::Add, w, &acc, x)?, "xor" => binop(Op::Xor, w, &acc, x)?, "mul" => binop(Op::Mul, w, &acc, x)?, "umax" | "umin" | "smax" | "smin" => minmax(op, w, &acc, x), _ => return Err(Stop::Unsup(format!("llvm.{n}"))) }; } acc } else { return Err(Stop::Unsup(format!("llvm.{n}"))) } }
            "x86" => match n { "x86.sse2.pause" => Val::C(0), _ => return Err(Stop::Unsup(format!("llvm.{n} [{}]", st.backtrace()))) },
            "eh" => Val::C(0),
            _ => return Err(Stop::Unsup(format!("llvm.{n}"))),
        })
    }

    // ----- threads (filled in by sched.rs) -----
    pub fn thread_exit_main(&mut self, _st: &mut State) -> Result<(), Stop> { Err(Stop::Done) }
}
/// the absolute path without '.', '..' and repeated slashes ('..' below a directory that does not exist resolves to nothing)
fn resolve(env: &Env, p: Vec<u8>) -> Vec<u8> {
    if p.is_empty() { return p; }
    let p = if p[0] == b'/' { p } else { let mut v = b"/tmp/vhfs/".to_vec(); v.extend(p); v };
    let mut o: Vec<u8> = vec![];
    for c in p.split(|&c| c == b'/') {
        if c.is_empty() || c == b"." { continue; }
        if c == b".." { if !o.is_empty() && !env.dirs.contains_key(&o) { return b"\0/missing".to_vec(); } while let Some(x) = o.pop() { if x == b'/' { break; } } }
        else { o.push(b'/'); o.extend_from_slice(c); }
    }
    if o.is_empty() { o.push(b'/'); } o
}
fn parent(p: &[u8]) -> &[u8] { match p.iter().rposition(|&c| c == b'/') { Some(0) => b"/", Some(i) => &p[..i], None => b"." } }
fn strip_slash(mut p: Vec<u8>) -> Vec<u8> { while p.len() > 1 && p.last() == Some(&b'/') { p.pop(); } p }
pub fn mkparents(env: &mut Env, p: &[u8]) { let d = Rc::make_mut(&mut env.dirs); d.insert(b"/".to_vec(), ()); d.insert(b".".to_vec(), ()); d.insert(b"/tmp".to_vec(), ()); d.insert(b"/tmp/vhfs".to_vec(), ()); for (i, &c) in p.iter().enumerate() { if c == b'/' && i > 0 { d.insert(p[..i].to_vec(), ()); } } }
