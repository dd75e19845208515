//! Threads: created by the code under test, interleaved at the points the build marked (vh_sched) and wherever one blocks.
//! Which thread goes on is a symbolic choice; the number of preemptions is bounded by the harness (sym_threads).
use crate::env::*;
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use std::rc::Rc;

impl X {
    fn runnable(&self, st: &State) -> Vec<u32> {
        (0..st.parked.len() as u32).filter(|&t| t != st.cur.tid && st.parked[t as usize].as_ref().map_or(false, |p| match p.status { TStat::Run => true, TStat::Join(j) => self.is_done(st, j), _ => false })).collect()
    }
    fn is_done(&self, st: &State, t: u32) -> bool { if t == st.cur.tid { st.cur.status == TStat::Done } else { st.parked[t as usize].as_ref().map_or(true, |p| p.status == TStat::Done) } }
    fn switch(&mut self, st: &mut State, t: u32) {
        let n = st.parked[t as usize].take().unwrap(); let mut n = Rc::try_unwrap(n).unwrap_or_else(|r| (*r).clone());
        if n.status != TStat::Done { n.status = TStat::Run; }
        let old = std::mem::replace(&mut st.cur, n); let o = old.tid as usize; st.parked[o] = Some(Rc::new(old));
    }
    /// a symbolic choice among n; the caller must not have changed the state yet (a fork executes the call again)
    fn choose(&mut self, st: &mut State, n: usize, name: &str) -> Result<usize, Stop> {
        let k = st.env.nsym; let e = named_var_range(16, &format!("{name}#{k}"), 0, n as u128 - 1); let v = self.conc_e(st, e)? as usize;
        st.env.nsym += 1; st.inputs.push(Input { name: format!("{name}#{k}").into(), vals: Rc::new(vec![e]), w: 16 });
        Ok(v)
    }
    /// the current thread cannot go on: another one does
    fn next(&mut self, st: &mut State, why: TStat) -> Result<(), Stop> {
        let old = st.cur.status.clone(); st.cur.status = why.clone();
        let r = self.runnable(st); st.cur.status = old;
        if r.is_empty() { let mut w = vec![]; for p in st.parked.iter().flatten() { w.push(format!("{}: {:?} in {}", p.tid, p.status, short(&p.top.f.name))); } return Err(Stop::Hang(format!("no thread can go on: {why:?} [{}]; {}", st.backtrace(), w.join("; ")))); }
        let i = if r.len() > 1 { self.choose(st, r.len(), "next")? } else { 0 };
        st.cur.status = why; self.switch(st, r[i]); Ok(())
    }
    /// a point where another thread may be scheduled
    pub fn sched_point(&mut self, st: &mut State) -> Result<Ext, Stop> {
        if st.parked.len() > 1 && st.env.preempts < st.env.preempt_bound {
            let r = self.runnable(st);
            if !r.is_empty() {
                let v = self.choose(st, r.len() + 1, "sched")?;
                if v > 0 { st.env.preempts += 1; self.ret_from_ext(st, Val::C(0)); self.switch(st, r[v - 1]); return Ok(Ext::Pushed); }
            }
        }
        Ok(Ext::V(Val::C(0)))
    }
    pub fn thread_yield(&mut self, st: &mut State) -> Result<Ext, Stop> {
        let r = self.runnable(st); if r.is_empty() { return Ok(Ext::V(Val::C(0))); }
        let t = r.iter().copied().find(|&t| t > st.cur.tid).unwrap_or(r[0]);
        self.ret_from_ext(st, Val::C(0)); self.switch(st, t); Ok(Ext::Pushed)
    }
    pub fn thread_exit(&mut self, st: &mut State, rv: Option<Val>) -> Result<(), Stop> {
        if st.cur.tid == 0 { return self.thread_exit_main(st); }
        // a fork inside next() executes the return again: put back what it popped is not needed, the frame is intact
        let _ = rv; self.next(st, TStat::Done)
    }
    pub fn thread_panic(&mut self, _st: &mut State, s: String) -> Result<(), Stop> { Err(Stop::Panic(s)) }
    pub fn thread_create(&mut self, st: &mut State, args: &[Val]) -> Result<Ext, Stop> {
        let (p, f) = (self.conc64(st, &args[0])?, self.conc64(st, &args[2])?);
        let (r, id, off) = split(f); if r != R_FUNC || off != 0 { return Err(Stop::Mem("pthread_create of an invalid pointer".into())); }
        let f = match self.m.func(id as u32) { Some(f) => f, None => return Err(Stop::Unsup("thread function without a body".into())) };
        let tid = st.parked.len() as u32; if tid > 60 { return Err(Stop::Unsup("too many threads".into())); }
        let mut stack = vec![]; let top = self.mk_frame(&mut stack, f, vec![args[3].clone()]);
        st.parked.push(Some(Rc::new(Thread { tid, top, frames: vec![], stack, status: TStat::Run, retval: 0, woken: false })));
        self.write_bytes(st, p, &(tid as u64 + 1).to_le_bytes())?;
        Ok(Ext::V(Val::C(0)))
    }
    /// call a function given by its address; its result becomes that of the present call
    pub fn call_ptr(&mut self, st: &mut State, f: u64, args: Vec<Val>) -> Result<(), Stop> {
        let (r, id, off) = split(f); if r != R_FUNC || off != 0 { return Err(Stop::Mem("call of an invalid pointer".into())); }
        match self.m.func(id as u32) { Some(f) => self.push_call(st, f, args), None => Err(Stop::Unsup("function without a body".into())) }
    }
    pub fn thread_join(&mut self, st: &mut State, args: &[Val]) -> Result<Ext, Stop> {
        let t = self.conc64(st, &args[0])? as u32 - 1;
        if t as usize >= st.parked.len() { return Err(Stop::Mem("pthread_join of an unknown thread".into())); }
        if self.is_done(st, t) { return Ok(Ext::V(Val::C(0))); }
        self.next(st, TStat::Join(t))?; Ok(Ext::Pushed) // executed again when the thread is done
    }
    pub fn futex(&mut self, st: &mut State, args: &[Val]) -> Result<Ext, Stop> {
        let (a, op, val) = (self.conc64(st, &args[1])?, self.conc64(st, &args[2])? & 0x7f, self.conc64(st, &args[3])? as u32);
        match op {
            0 | 9 => {
                if st.cur.woken { st.cur.woken = false; return Ok(Ext::V(Val::C(0))); }
                let v = self.load(st, &Val::C(a as u128), &Ty::Int(32), 32)?; let v = self.conc(st, &v)? as u32;
                if v != val { return self.fail(st, 11); }
                if let Some(t) = args.get(4) { if self.conc64(st, t)? != 0 { return Err(Stop::Unsup("futex wait with a timeout".into())); } }
                self.next(st, TStat::Futex(a))?; Ok(Ext::Pushed)
            }
            1 | 10 => {
                let mut n = 0u32;
                for t in 0..st.parked.len() { if n >= val { break; } if let Some(p) = &mut st.parked[t] { if p.status == TStat::Futex(a) { let q = Rc::make_mut(p); q.status = TStat::Run; q.woken = true; n += 1; } } }
                Ok(Ext::V(Val::C(n as u128)))
            }
            _ => Err(Stop::Unsup(format!("futex operation {op}"))),
        }
    }
    pub fn sched_call(&mut self, _st: &mut State, name: &str, _args: &[Val]) -> Result<Ext, Stop> { Err(Stop::Unsup(name.to_string())) }
}
#[allow(dead_code)]
fn _u(_: &Env) {}
