mod env; mod exec; mod expr; mod ir; mod mem; mod par; mod sched; mod solver;
use exec::*;
use std::fmt::Write as _;
use std::io::Write as _;

static mut OUT: Option<String> = None;
static mut T0: Option<std::time::Instant> = None;
#[allow(static_mut_refs)]
fn out_dir() -> String { unsafe { OUT.clone().unwrap() } }
fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } } o }

impl X {
    pub fn reset_stats(&mut self) { self.st = Stats::default(); self.solver.queries = 0; self.solver.cache_hits = 0; self.solver.time = 0.0; self.solver.sat = 0; self.solver.unsat = 0; self.solver.unknowns = 0; self.solver.max_time = 0.0; self.forkprof.clear(); if self.prof.is_some() { self.prof = Some(Default::default()); } }
    pub fn explore(&mut self) {
        while let Some(mut st) = self.work.pop() {
            if par::stop_requested() { return; }
            par::maybe_split(self);
            let r = self.run(&mut st);
            self.finish(st, r);
        }
    }
    fn finish(&mut self, st: State, r: Stop) {
        self.st.paths += 1;
        par::sh().paths.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        match r {
            Stop::Done => { self.st.done += 1; for n in &st.reached { *self.st.reach.entry(n.clone()).or_insert(0) += 1; } self.sample(&st, "ok"); }
            Stop::Infeasible => self.st.infeasible += 1,
            Stop::Panic(_) if st.allow_panic => { self.st.allowed_panics += 1; for n in &st.reached { *self.st.reach.entry(n.clone()).or_insert(0) += 1; } }
            Stop::Panic(m) => self.violation(&st, "panic", &m),
            Stop::Hang(m) => self.violation(&st, "hang", &m),
            Stop::Assert(m) => self.violation(&st, "assert", &m),
            Stop::Mem(m) => { let m = format!("{m} [{}]", st.backtrace()); self.violation(&st, "memory", &m) }
            Stop::Unsup(m) => { self.st.errors.push(format!("unsupported: {m}")); par::request_stop(3); }
            Stop::Unknown(m) => { self.st.errors.push(format!("unknown: {m} [{}]", st.backtrace())); par::request_stop(3); }
        }
    }
    fn inputs_text(&self, st: &State) -> String {
        let mut s = String::new();
        for i in &st.inputs {
            let vals: Vec<u128> = i.vals.iter().map(|&e| st.eval(e)).collect();
            if i.w == 8 && (i.vals.len() != 1 || i.name.contains("bytes")) { let _ = write!(s, "{} b {}", i.name, vals.len()); s.push(' '); for v in vals { let _ = write!(s, "{:02x}", v); } } else { let _ = write!(s, "{} u {}", i.name, vals[0]); }
            s.push('\n');
        }
        s
    }
    fn sample(&mut self, st: &State, _k: &str) { if self.st.done <= 1 { let p = format!("{}/sample.{}.txt", out_dir(), std::process::id()); let _ = std::fs::write(p, self.inputs_text(st)); } }
    fn violation(&mut self, st: &State, kind: &str, msg: &str) {
        let p = format!("{}/violation.{}.{}", out_dir(), std::process::id(), self.st.paths);
        let _ = std::fs::write(format!("{p}.inputs"), self.inputs_text(st));
        let _ = std::fs::write(format!("{p}.json"), format!("{{\"kind\":\"{kind}\",\"msg\":\"{}\",\"where\":\"{}\"}}\n", esc(msg), esc(&st.backtrace())));
        eprintln!("violation: {kind}: {msg}");
        par::request_stop(2);
    }
    pub fn emit_stats(&mut self) {
        let fns: Vec<String> = { let f = self.m.fns.borrow(); self.seen_fn.iter().filter(|&&i| f[i as usize].interesting).map(|&i| format!("\"{}\"", esc(&f[i as usize].name))).collect() };
        let reach: Vec<String> = self.st.reach.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
        let errs: Vec<String> = self.st.errors.iter().map(|e| format!("\"{}\"", esc(e))).collect();
        let line = format!("{{\"paths\":{},\"done\":{},\"infeasible\":{},\"allowed_panics\":{},\"forks\":{},\"instrs\":{},\"asserts\":{},\"sym_branches\":{},\"conc_forks\":{},\"max_pc\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"nodes\":{},\"reach\":{{{}}},\"errors\":[{}],\"functions\":[{}],\"nfunctions\":{}}}\n",
            self.st.paths, self.st.done, self.st.infeasible, self.st.allowed_panics, self.st.forks, self.st.instrs, self.st.asserts, self.st.symb_branches, self.st.conc_forks, self.st.max_pc, self.solver.queries, self.solver.sat, self.solver.unsat, self.solver.unknowns, self.solver.cache_hits, self.solver.time, self.solver.max_time, expr::num_nodes(), reach.join(","), errs.join(","), fns.join(","), self.seen_fn.len());
        let mut f = std::fs::OpenOptions::new().append(true).create(true).open(format!("{}/stats.jsonl", out_dir())).unwrap();
        let _ = f.write_all(line.as_bytes());
        if self.prof.is_some() {
            let mut v: Vec<_> = self.forkprof.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (k, n) in v.iter().take(15) { eprintln!("  fork {n:6} {k}"); }
            let mut v: Vec<_> = self.prof.as_ref().unwrap().iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (k, n) in v.iter().take(15) { eprintln!("  call {n:8} {}", short(&self.m.fns.borrow()[**k as usize].name)); }
        }
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let _ = h.join();
    std::process::exit(70);
}
fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ir = String::new(); let mut entry = String::new(); let mut out = "out".to_string(); let mut jobs = 1; let mut trace = false; let mut parse_all = false; let mut prof = false; let mut timeout = 120_000; let mut max_steps = 2_000_000_000u64; let mut dump = None; let mut wall = 0u64; let mut tier = 0u64;
    let mut i = 1;
    while i < args.len() { match args[i].as_str() { "--ir" => { i += 1; ir = args[i].clone() } "--entry" => { i += 1; entry = args[i].clone() } "--out" => { i += 1; out = args[i].clone() } "--jobs" => { i += 1; jobs = args[i].parse().unwrap() } "--timeout-ms" => { i += 1; timeout = args[i].parse().unwrap() } "--max-steps" => { i += 1; max_steps = args[i].parse().unwrap() } "--dump" => { i += 1; dump = Some(args[i].clone()) } "--wall" => { i += 1; wall = args[i].parse().unwrap() } "--tier" => { i += 1; tier = args[i].parse().unwrap() } "--trace" => trace = true, "--prof" => prof = true, "--parse-all" => parse_all = true, x => panic!("arg {x}") } i += 1; }
    unsafe { T0 = Some(std::time::Instant::now()); OUT = Some(out.clone()); }
    let m = ir::Module::load(&ir);
    if parse_all {
        let n = m.fns.borrow().len();
        let mut ok = 0;
        for i in 0..n as u32 { if m.fns.borrow()[i as usize].def.is_some() { m.func(i); ok += 1; } }
        for g in 0..m.globs.len() as u32 { let _ = m.glob_init(g); }
        println!("parsed {ok} functions, {} globals", m.globs.len());
        std::process::exit(0);
    }
    std::fs::create_dir_all(&out).unwrap();
    par::init(jobs);
    if wall > 0 { std::thread::spawn(move || { std::thread::sleep(std::time::Duration::from_secs(wall)); par::request_stop(4); }); }
    let mut x = X::new(m, timeout);
    x.trace = trace; x.tier = tier; x.max_steps = max_steps; if prof { x.prof = Some(Default::default()); }
    x.solver.dump_dir = dump;
    let st = x.init_state(&entry);
    x.work.push(st);
    x.explore();
    if par::is_child() { par::finish_child(&mut x); }
    x.emit_stats();
    par::wait_kids();
    let code = par::sh().stop.load(std::sync::atomic::Ordering::SeqCst);
    std::process::exit(match code { 0 => 0, 2 => 1, 4 => 4, _ => 3 });
}
