//! Process-level parallelism: a token pool shared by pipe, work handed over at fork().
use crate::exec::X;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

extern "C" { fn fork() -> i32; fn pipe(f: *mut i32) -> i32; fn read(fd: i32, b: *mut u8, n: usize) -> isize; fn write(fd: i32, b: *const u8, n: usize) -> isize; fn fcntl(fd: i32, c: i32, a: i32) -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn _exit(c: i32) -> !; fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32; }

#[repr(C)]
pub struct Shared { pub stop: AtomicU32, pub paths: AtomicU64, pub procs: AtomicU64 }
static mut SHARED: *mut Shared = std::ptr::null_mut();
static mut PIPE: [i32; 2] = [-1, -1];
static mut CHILD: bool = false;
static mut KIDS: u32 = 0;

pub fn init(jobs: usize) {
    unsafe {
        SHARED = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut Shared;
        let mut p = [0i32; 2]; pipe(p.as_mut_ptr()); PIPE = p;
        fcntl(p[0], 4, 0o4000); // O_NONBLOCK
        for _ in 1..jobs { write(p[1], b"x".as_ptr(), 1); }
        (*SHARED).procs.store(1, SeqCst);
    }
}
pub fn sh() -> &'static Shared { unsafe { &*SHARED } }
pub fn stop_requested() -> bool { unsafe { !SHARED.is_null() && (*SHARED).stop.load(SeqCst) != 0 } }
pub fn request_stop(code: u32) { unsafe { let _ = (*SHARED).stop.compare_exchange(0, code, SeqCst, SeqCst); } }
pub fn is_child() -> bool { unsafe { CHILD } }

/// If a token is free and there is spare work, hand the oldest pending state to a new process.
pub fn maybe_split(x: &mut X) {
    unsafe {
        if x.work.is_empty() || PIPE[0] < 0 || x.trace { return; }
        let mut b = 0u8;
        if read(PIPE[0], &mut b, 1) != 1 { return; }
        let r = fork();
        if r == 0 {
            prctl(1, 9, 0, 0, 0);
            CHILD = true; KIDS = 0;
            let first = x.work.remove(0);
            x.work.clear();
            x.work.push(first);
            x.reset_stats();
            sh().procs.fetch_add(1, SeqCst);
            x.explore();
            finish_child(x);
        } else if r > 0 { KIDS += 1; x.work.remove(0); } else { write(PIPE[1], b"x".as_ptr(), 1); }
    }
}
pub fn finish_child(x: &mut X) -> ! {
    unsafe {
        x.emit_stats();
        write(PIPE[1], b"x".as_ptr(), 1); // free the token, then wait for own children
        wait_kids();
        _exit(0)
    }
}
pub fn wait_kids() { unsafe { while KIDS > 0 { let mut s = 0; let p = waitpid(-1, &mut s, 0); if p <= 0 { break; } KIDS -= 1; if s != 0 { eprintln!("worker {p} ended abnormally (status {s:#x})"); request_stop(3); } } } }
