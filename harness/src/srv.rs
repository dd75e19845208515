//! C13: symbol servers and their caches.
use crate::store::p;
use crate::sym::*;
use reqwest::Answer;
use dump_syms::cache;
/// what the servers hold: for each of two servers, for the plain and the compressed name
#[derive(Clone, Copy)]
pub struct At { pub head: u64, pub get: u64, pub delay: u32 }
pub static mut AT: [[At; 2]; 2] = [[At { head: 1, get: 0, delay: 0 }; 2]; 2];
pub static mut LOG: Vec<(bool, usize, usize)> = Vec::new();
pub static mut BODY: [Vec<u8>; 4] = [const { Vec::new() }; 4];
const NAME: &str = "lib.pdb"; const ID: &str = "0123ABCD1";
fn cab(name: &str, data: &[u8]) -> Vec<u8> { crate::cabs::cab(&[(name, data)]) }
/// the server and the name asked for
fn which(url: &str) -> Option<(usize, usize)> {
    for (s, host) in ["http://one.example/sym", "http://two.example"].iter().enumerate() { for (k, f) in ["lib.pdb", "lib.pd_"].iter().enumerate() { if url == format!("{host}/{NAME}/{ID}/{f}") { return Some((s, k)); } } }
    None
}
fn body(s: usize, k: usize) -> Vec<u8> { unsafe { (*std::ptr::addr_of!(BODY))[2 * s + k].clone() } }
pub fn serve(method: &str, url: &str) -> Answer {
    let (s, k) = match which(url) { Some(x) => x, None => { check(false, "the servers are asked for the file by its name and identifier"); unreachable!() } };
    let get = method == "GET"; unsafe { (*std::ptr::addr_of_mut!(LOG)).push((get, s, k)); } let a = unsafe { AT[s][k] };
    if !get { return Answer { status: match a.head { 0 => Some(200), 1 => Some(404), 2 => None, _ => Some(500) }, body: vec![], broken: false, delay: a.delay }; }
    match a.get { 0 => Answer { status: Some(200), body: body(s, k), broken: false, delay: 0 }, 1 => Answer { status: Some(404), body: b"no such file".to_vec(), broken: false, delay: 0 }, 2 => Answer { status: None, body: vec![], broken: false, delay: 0 },
        3 => Answer { status: Some(200), body: body(s, k)[..2].to_vec(), broken: true, delay: 0 }, 4 => Answer { status: Some(200), body: b"Symbol Not Found".to_vec(), broken: false, delay: 0 }, 5 => Answer { status: Some(200), body: vec![], broken: false, delay: 0 }, _ => Answer { status: Some(500), body: b"try later".to_vec(), broken: false, delay: 0 } }
}
fn asked() -> usize { unsafe { (*std::ptr::addr_of!(LOG)).len() } }
fn cached(dir: &str) -> String { p(&format!("{dir}/{NAME}/{ID}/{NAME}")) }
/// bit 0: the first server has a cache, bit 1: the second
fn setting(k: u64) -> String { let one = if k & 1 == 1 { format!("srv*{}*http://one.example/sym", p("c1")) } else { "srv*http://one.example/sym".to_string() }; let two = if k & 2 == 2 { format!("srv*{}*http://two.example", p("c2")) } else { "srv*http://two.example".to_string() }; format!("{one};{two}") }
fn find(set: &str) -> (Option<Vec<u8>>, String) { let s = cache::get_sym_servers(Some(set)); cache::search_file(NAME.to_string(), ID, s.as_ref()) }
/// plain or compressed, what a user gets is the content
fn plain(s: usize, k: usize) -> Vec<u8> { let b = [[b'a', b'b'], [b'c', b'd']][s][k]; vec![b, 0, unsafe { X }, b'!'] }
pub static mut X: u8 = 0;
fn setup() { setenv("HOME", &p("home")); fs_dir(&p("home")); reqwest::serve(serve); unsafe { X = u(1, 255, "byte") as u8; for s in 0..2 { for k in 0..2 { let c = plain(s, k); (*std::ptr::addr_of_mut!(BODY))[2 * s + k] = if k == 0 { c } else { cab(NAME, &c) }; } } } fs_dir(&p("c1")); fs_dir(&p("c2")); }
// a file in a cache: the first cache of the setting that has it, and nobody is asked
harness!(h_srv_cache, {
    setup(); let mut want = None; let both = choice(4, "caches");
    for (i, d) in ["c1", "c2"].iter().enumerate() { match choice(4, "cached") { 0 => {} 1 => { let c = plain(i, 0); fs_file(&cached(d), &c); if want.is_none() && both >> i & 1 == 1 { want = Some(c); } } 2 => { let c = plain(i, 1); fs_file(&cached(d), &cab(NAME, &c)); if want.is_none() && both >> i & 1 == 1 { want = Some(c); } } _ => fs_file(&p(&format!("{d}/{NAME}/0123ABCD2/{NAME}")), b"another") } }
    let before = crate::store::all_files(); let (r, name) = find(&setting(both)); check(name == NAME, "the name of the file is the one asked for");
    match want { Some(w) => { check(r == Some(w), "the file comes from the first cache that has it"); check(asked() == 0, "no server is asked for a file in a cache"); reach("cached"); } None => { check(r.is_none(), "a file that is nowhere is not found"); check(asked() > 0, "the servers are asked"); } }
    check(crate::store::all_files() == before, "the caches stay as they are"); reach("end");
});
// a file on servers: what is returned and stored is what a server that has it answered; answers in any order
harness!(h_srv_fetch, {
    setup(); let both = choice(if tier() == 1 { 4 } else { 3 }, "caches") + if tier() == 1 { 0 } else { 1 }; let good = choice(2, "servers keep their word") == 0; let order = choice(4, "order"); let mut any = false; let odd = if good { 9 } else { choice(4, "odd one") as usize };
    for s in 0..2 { for k in 0..2 { let j = 2 * s + k; let a = unsafe { &mut AT[s][k] }; a.head = if j == odd { 0 } else { choice(if good && s == 0 { 4 } else { 2 }, "head") }; a.get = if j == odd { 1 + choice(6, "get") } else { 0 }; a.delay = match order { 0 => 0, 1 => 3 - j as u32, 2 => (j % 2) as u32, _ => (1 - s) as u32 }; any |= a.head == 0; } }
    let (r, _) = find(&setting(both)); let gets: Vec<(usize, usize)> = unsafe { (*std::ptr::addr_of!(LOG)).iter().filter(|l| l.0).map(|l| (l.1, l.2)).collect() };
    match &r {
        None => { check(!any || !good, "a file which a server has is found"); check(fs_list(0).is_none(), "nothing is stored when no server gave the file"); reach("none"); }
        Some(b) => {
            check(!gets.is_empty(), "the file comes from a server"); let (s, k) = *gets.last().unwrap(); let a = unsafe { AT[s][k] }; check(a.head == 0 && a.get == 0, "the file comes from a server that has it"); check(*b == plain(s, k), "the file is what the server has"); reach("found");
            if both >> s & 1 == 1 { let f = cached(["c1", "c2"][s]); check(fs_read(&f).is_some_and(|d| d == body(s, k)), "the answer is stored in the cache of the server"); check(fs_list(0).is_some_and(|n| n == f) && fs_list(1).is_none(), "nothing else is stored");
                let n = asked(); let (r2, _) = find(&setting(both)); check(r2 == Some(plain(s, k)), "the next search finds the same in the cache"); check(asked() == n, "no server is asked for a file in a cache"); reach("again"); }
            else { check(fs_list(0).is_none(), "a server without a cache stores nothing"); }
        }
    }
    reach("end");
});
// errors while storing, or the end of the process: the cache has the whole file or nothing, and the next search is right
harness!(h_srv_crash, {
    setup(); let k = choice(2, "compressed") as usize; unsafe { AT[0][k].head = 0; } faults(0x6f, if tier() == 1 { 3 } else { 2 }); let set = setting(1);
    let r = guarded(|| find(&set).0); faults(0, 0);
    if let Some(Some(b)) = &r { check(*b == plain(0, k), "the file is what the server has"); reach("survived"); } else { reach("died"); }
    if let Some(d) = fs_read(&cached("c1")) { check(d == body(0, k), "a file in a cache is whole"); reach("stored"); } else { reach("not stored"); }
    let (r, _) = find(&set); check(r == Some(plain(0, k)), "the next search finds the file"); check(fs_read(&cached("c1")).is_some_and(|d| d == body(0, k)), "the answer is stored in the cache of the server"); reach("end");
});
// the setting: entries, separators, spaces, home directory
harness!(h_srv_setting, {
    setup(); unsafe { AT[1][0].head = 0; } let c = cached("c1"); let home = format!("{}/{NAME}/{ID}/{NAME}", p("home/c3"));
    let sep = [";", "\n", " ; "][choice(3, "separator") as usize]; let junk = choice(6, "other entry"); let first = choice(2, "first") == 1; let srv = ["srv", "SRV", " sRv "][choice(3, "srv") as usize]; let tilde = choice(2, "home") == 1;
    let dir = if tilde { "~/c3".to_string() } else { p("c1") }; let entry = format!("{srv}*{dir} * http://two.example"); let j = match junk { 0 => String::new(), 1 => p("c1"), 2 => "cache*x*y".to_string(), 3 => format!("srv*a*b*{}*d", p("c1")), 4 => "http://one.example/sym".to_string(), _ => format!("sr*{}*http://one.example/sym", p("c2")) };
    let set = if first { format!("{j}{sep}{entry}") } else { format!("{entry}{sep}{j}") };
    let config = choice(2, "config file") == 1; if config { fs_file(&p("home/.dump_syms/config"), set.as_bytes()); }
    let s = if config { cache::get_sym_servers(None) } else { cache::get_sym_servers(Some(&set)) }; let (r, _) = cache::search_file(NAME.to_string(), ID, s.as_ref());
    check(r == Some(plain(1, 0)), "the file is what the server has"); check(unsafe { (*std::ptr::addr_of!(LOG)).iter().all(|l| l.1 == 1) }, "only the servers of the setting are asked");
    check(fs_read(if tilde { &home } else { &c }).is_some_and(|d| d == plain(1, 0)), "the answer is stored in the cache of the server"); reach("end");
});
// no servers: nothing is found and nothing happens
harness!(h_srv_none, {
    setup(); let n = 1 + choice(if tier() == 1 { 5 } else { 4 }, "n") as usize; let b = bytes(n, "setting"); for c in &b { assume(b"srvSR*; \nx~/".contains(c)); }
    let t = String::from_utf8(b.clone()).unwrap(); let s = cache::get_sym_servers(Some(&t));
    let mut any = false; for e in b.split(|c| *c == b';' || *c == b'\n') { let f: Vec<&[u8]> = e.split(|c| *c == b'*').collect(); let mut w = f[0]; while w.first() == Some(&b' ') { w = &w[1..]; } while w.last() == Some(&b' ') { w = &w[..w.len() - 1]; } any |= w.len() == 3 && w.eq_ignore_ascii_case(b"srv") && f.len() <= 3; }
    check(s.is_some() == any, "there are servers exactly when the setting has an entry for one"); if any { reach("some"); } else { let (r, n) = cache::search_file(NAME.to_string(), ID, s.as_ref()); check(r.is_none() && n == NAME && asked() == 0 && fs_list(0).is_none(), "without servers nothing is found"); }
    reach("end");
});
// names of any kind
pub static mut ODD: &str = "";
fn serve_odd(method: &str, url: &str) -> Answer { let n = unsafe { ODD }; let hit = url == format!("http://one.example/sym/{n}/{ID}/{n}"); Answer { status: Some(if hit { 200 } else { 404 }), body: if hit && method == "GET" { b"data".to_vec() } else { vec![] }, broken: false, delay: 0 } }
harness!(h_srv_name, {
    setup(); reqwest::serve(serve_odd); let (n, base) = [("lib", "lib"), ("lib.so.1", "lib.so.1"), ("libé", "libé"), ("é", "é"), ("lib.€", "lib.€"), ("_", "_"), ("lib.pd_", "lib.pdb"), ("lib.DL_", "lib.dll"), ("lib.ex_", "lib.exe"), ("a b.pdb", "a b.pdb"), ("a", "a"), (".x", ".x")][choice(12, "name") as usize]; unsafe { ODD = n; }
    let s = cache::get_sym_servers(Some(&setting(1))); let (r, name) = cache::search_file(n.to_string(), ID, s.as_ref()); check(name == n, "the name of the file is the one asked for"); check(r.as_deref() == Some(b"data"), "the file is what the server has");
    let f = p(&format!("c1/{base}/{ID}/{n}")); check(fs_read(&f).as_deref() == Some(b"data"), "the answer is stored in the cache of the server"); check(fs_list(1).is_none(), "nothing else is stored"); reach("end");
});
// dumping a file by its identifier: it comes from the servers, whatever lies here; without one it is the file here
fn by_id(method: &str, url: &str) -> Answer { let (s, k) = match which(url) { Some(x) => x, None => return Answer { status: Some(404), body: vec![], broken: false, delay: 0 } }; let get = method == "GET"; let a = unsafe { AT[s][k] }; Answer { status: Some(if a.head == 0 { 200 } else { 404 }), body: if get && a.head == 0 { body(s, k) } else { vec![] }, broken: false, delay: 0 } }
harness!(h_srv_dump, {
    use crate::win::{Pdb, TEXT}; use crate::elf::parse; use dump_syms::dumper::{self, FileOutput, Output};
    setup(); reqwest::serve(by_id); fs_dir(&p("out")); let n = u(0x100, 0x10f, "symbol") as u32; let there = Pdb { pubs: vec![(b"there".to_vec(), n)], ..Pdb::default() }.build(); let local = choice(2, "local") == 1;
    if local { fs_file(&p("in/lib.pdb"), &Pdb { pubs: vec![(b"here".to_vec(), n)], ..Pdb::default() }.build()); }
    let k = choice(2, "compressed") as usize; let has = choice(3, "where"); if has == 1 { unsafe { AT[1][k].head = 0; (*std::ptr::addr_of_mut!(BODY))[2 + k] = if k == 0 { there.clone() } else { cab(NAME, &there) }; } } else if has == 2 { fs_file(&cached("c1"), &if k == 0 { there.clone() } else { cab(NAME, &there) }); }
    let set = setting(3); let mut c = crate::store::config(Output::File(FileOutput::Path(p("out/x.sym").into()))); c.symbol_server = Some(&set); let (mut id, mut found) = (true, has > 0);
    match choice(5, "identifiers") { 0 => id = false, 1 => c.debug_id = Some(ID), 2 => c.code_id = Some(ID), 3 => { c.debug_id = Some(ID); c.code_id = Some("FFFF"); } _ => { c.debug_id = Some("FFFF"); c.code_id = Some(ID); found = false; } }
    let r = guarded(|| dumper::single_file(&c, &p("in/lib.pdb")).is_ok()).unwrap_or(false); let text = fs_read(&p("out/x.sym"));
    if !(if id { found } else { local }) { check(!r && text.is_none(), "a file that is nowhere is an error"); reach("missing"); }
    else { check(r && text.is_some(), "a file which a server has is dumped"); let s = parse(&text.unwrap()); check(crate::syms::at(&s, TEXT + n as u64).is_some_and(|r| r.name == if id { &b"there"[..] } else { b"here" }), "the file asked for is the one dumped"); if id { reach("by id"); } else { reach("local"); } }
    reach("end");
});
