//! The interface to the symbolic executor (implemented natively by native.c for replays).
extern "C" {
    fn sym_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn sym_u64(lo: u64, hi: u64, name: *const u8, nl: usize) -> u64;
    fn sym_choice(n: u64, name: *const u8, nl: usize) -> u64;
    fn sym_conc(v: u64) -> u64;
    fn sym_assume(b: bool);
    fn sym_assert(b: bool, m: *const u8, ml: usize);
    fn sym_reach(m: *const u8, ml: usize);
    fn sym_is_symbolic_run() -> u64;
    fn sym_tier() -> u64;
    fn sym_allow_panic(b: u64);
    fn sym_heap_reuse(b: u64);
    fn sym_hash_const(c: u64);
    fn sym_guarded(f: extern "C" fn(*mut u8) -> u64, d: *mut u8) -> u64;
    fn sym_unguard();
    fn sym_args(n: u64, v: *const *const u8);
    fn sym_faults(mask: u64, budget: u64);
    fn sym_fault_count() -> u64;
    fn sym_fs_file(p: *const u8, pl: usize, d: *const u8, dl: usize);
    fn sym_fs_dir(p: *const u8, pl: usize);
    fn sym_fs_size(p: *const u8, pl: usize) -> u64;
    fn sym_fs_read(p: *const u8, pl: usize, out: *mut u8);
    fn sym_fs_list(i: u64, out: *mut u8, cap: u64) -> u64;
    fn sym_stdout(out: *mut u8, cap: u64) -> u64;
    fn sym_threads(bound: u64);
    fn sym_dbg(p: *const u8, l: usize);
    fn sym_setenv(k: *const u8, kl: usize, v: *const u8, vl: usize);
}
pub fn bytes(n: usize, name: &str) -> Vec<u8> { let mut v = vec![0u8; n]; unsafe { sym_bytes(v.as_mut_ptr(), n, name.as_ptr(), name.len()) }; v }
/// Symbolic value in lo..=hi (no fork).
pub fn u(lo: u64, hi: u64, name: &str) -> u64 { unsafe { sym_u64(lo, hi, name.as_ptr(), name.len()) } }
/// Value in 0..n, one path per value.
pub fn choice(n: u64, name: &str) -> u64 { unsafe { sym_choice(n, name.as_ptr(), name.len()) } }
pub fn conc(v: u64) -> u64 { unsafe { sym_conc(v) } }
pub fn assume(b: bool) { unsafe { sym_assume(b) } }
#[inline(never)]
pub fn check(b: bool, m: &str) { unsafe { sym_assert(b, m.as_ptr(), m.len()) } }
pub fn reach(m: &str) { unsafe { sym_reach(m.as_ptr(), m.len()) } }
pub fn is_symbolic() -> bool { unsafe { sym_is_symbolic_run() != 0 } }
pub fn allow_panic(b: bool) { unsafe { sym_allow_panic(b as u64) } }
pub fn heap_reuse(b: bool) { unsafe { sym_heap_reuse(b as u64) } }
/// Another order in the hash tables made from now on: the iteration order of string keys in hashbrown tables is any (up to 3 keys), that of others and of std tables differs from order 0.
pub fn hash_order(o: u64) { extern "C" fn pick() -> u64 { choice(4, "hash") } foldhash::order(if o == 0 { None } else { Some(pick) }); unsafe { sym_hash_const([0, 3, 7, 2][o as usize]) } }
pub fn faults(mask: u64, budget: u64) { unsafe { sym_faults(mask, budget) } }
pub fn fault_count() -> u64 { unsafe { sym_fault_count() } }
pub fn fs_file(p: &str, d: &[u8]) { unsafe { sym_fs_file(p.as_ptr(), p.len(), d.as_ptr(), d.len()) } }
pub fn fs_dir(p: &str) { unsafe { sym_fs_dir(p.as_ptr(), p.len()) } }
pub fn fs_read(p: &str) -> Option<Vec<u8>> { unsafe { let n = sym_fs_size(p.as_ptr(), p.len()); if n == u64::MAX { return None; } let mut v = vec![0u8; n as usize]; sym_fs_read(p.as_ptr(), p.len(), v.as_mut_ptr()); Some(v) } }
/// The i-th file (by path) in the scratch file system.
pub fn fs_list(i: u64) -> Option<String> { let mut b = vec![0u8; 512]; unsafe { let n = sym_fs_list(i, b.as_mut_ptr(), 512); if n == u64::MAX { return None; } b.truncate(n as usize); Some(String::from_utf8_lossy(&b).into_owned()) } }
pub fn stdout() -> Vec<u8> { let mut b = vec![0u8; 65536]; unsafe { let n = sym_stdout(b.as_mut_ptr(), 65536); b.truncate(n as usize); } b }
/// How many preemptions the schedules of threads may have (besides the switches where a thread blocks).
pub fn threads(bound: u64) { unsafe { sym_threads(bound) } }
pub fn dbg(s: &str) { unsafe { sym_dbg(s.as_ptr(), s.len()) } }
pub fn setenv(k: &str, v: &str) { unsafe { sym_setenv(k.as_ptr(), k.len(), v.as_ptr(), v.len()) } }
/// 0: quick, 1: thorough
pub fn tier() -> u64 { unsafe { sym_tier() } }

/// Runs f; None when it panics or the process is killed in it (a fault of kind 64), after which the harness goes on with what is left: the files.
pub fn guarded<T, F: FnOnce() -> T>(f: F) -> Option<T> { guarded_exit(f).ok() }
/// The arguments of the program, its name first.
pub fn args(a: &[&str]) { let mut v: Vec<*const u8> = a.iter().map(|s| { let mut b = s.as_bytes().to_vec(); b.push(0); b.leak().as_ptr() }).collect(); v.push(std::ptr::null()); unsafe { sym_args(a.len() as u64, v.leak().as_ptr()) } }
/// Likewise; 1: it panicked or was killed, 2 + c: it ended the process with the status c.
pub fn guarded_exit<T, F: FnOnce() -> T>(f: F) -> Result<T, u64> {
    struct B<T, F> { f: Option<F>, r: Option<T> }
    extern "C" fn run<T, F: FnOnce() -> T>(d: *mut u8) -> u64 { let b = unsafe { &mut *(d as *mut B<T, F>) }; let f = b.f.take().unwrap(); b.r = Some(f()); 0 }
    let mut b = B { f: Some(f), r: None }; let p = &mut b as *mut B<T, F>;
    let died = unsafe { let d = sym_guarded(run::<T, F>, p as *mut u8); sym_unguard(); d };
    if died != 0 { std::mem::forget(b); Err(died) } else { Ok(b.r.unwrap()) }
}
