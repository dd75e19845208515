//! C11: several files are dumped under every schedule of the worker threads.
use crate::elf::*;
use crate::store::{all_files, config, p};
use crate::sym::*;
use dump_syms::dumper::{self, Config, FileOutput, Output};
use dump_syms::object_info::ObjectInfo;
use dump_syms::platform::Platform;
use std::path::PathBuf;

fn id(k: u64) -> Vec<u8> { let mut v = Elf::default().build_id.unwrap(); v[15] = 0xd0 + k as u8; v }
fn idstr(k: u64) -> String { format!("A3A2A1A0B1B0C1C0D0D1D2D3D4D5D6D{k}0") }
/// where each file's symbol is: anywhere in a range of its own
type At = [u64; 3];
fn at() -> At { [0x2000 + u(0, 0xf0, "address"), 0x2100 + u(0, 0xf0, "address"), 0x2200 + u(0, 0xf0, "address")] }
fn elf(k: u64, i: usize, eh: bool, a: &At) -> Vec<u8> { Elf { build_id: Some(id(k)), syms: vec![func_sym(["s0", "s1", "s2"][i], a[i], 4)], soname: Some(b"lib.so".to_vec()), eh: if eh { vec![(a[i], 4)] } else { vec![] }, ..Elf::default() }.build() }
/// every id among the given (id, symbol) pairs has one file in the store, with the symbols of all of its files
fn stored(ids: &[(u64, usize)], inputs: usize, a: &At) {
    let mut n = inputs;
    for k in 0..4 {
        let mine: Vec<usize> = ids.iter().filter(|x| x.0 == k).map(|x| x.1).collect(); if mine.is_empty() { continue; }
        n += 1; let d = fs_read(&p(&format!("store/lib.so/{}/lib.so.sym", idstr(k)))); check(d.is_some(), "the symbols of every file are stored");
        let s = parse(&d.unwrap()); for i in 0..3 { check(s.recs.iter().any(|r| r.rva == a[i] && r.name == [b's', b'0' + i as u8]) == mine.contains(&i), "what is stored for an id are the symbols of its files"); }
    }
    check(all_files().len() == n, "nothing else is stored");
}
fn run(c: &Config, names: &[String]) -> bool { let v: Vec<&str> = names.iter().map(|s| s.as_str()).collect(); dumper::several_files(c, &v).is_ok() }
fn cfg<'a>(jobs: u64) -> Config<'a> { Config { num_jobs: jobs as usize, ..config(Output::Store(PathBuf::from(p("store")))) } }
fn put(ids: &[(u64, usize)], eh: bool, a: &At) -> Vec<String> { ids.iter().map(|(k, i)| { let f = p(&format!("in/{i}")); fs_file(&f, &elf(*k, *i, eh, a)); f }).collect() }
// two files, of different ids, of the same id, or the same file twice
harness!(h_sev_two, {
    let a = at();
    let same = choice(3, "same id"); let jobs = choice(4, "jobs"); let ids = [(0, 0usize), (if same == 0 { 1 } else { 0 }, if same == 2 { 0 } else { 1 })]; let names = put(&ids, false, &a);
    threads(if tier() == 1 { 4 } else { 3 }); check(run(&cfg(jobs), &names), "readable files are dumped"); threads(0);
    stored(&ids, if same == 2 { 1 } else { 2 }, &a); reach("end");
});
// three files, with one, two or three ids, or one of them twice
harness!(h_sev_three, {
    let a = at();
    let k = choice(5, "ids"); let jobs = 1 + choice(3, "jobs"); let ids = match k { 0 => [(0, 0usize), (0, 1), (0, 2)], 1 => [(0, 0), (1, 1), (0, 2)], 2 => [(0, 0), (0, 1), (1, 2)], 3 => [(0, 0), (0, 0), (1, 1)], _ => [(0, 0), (1, 1), (2, 2)] }; let names = put(&ids, false, &a);
    threads(if tier() == 1 { 3 } else { 2 }); check(run(&cfg(jobs), &names), "readable files are dumped"); threads(0);
    stored(&ids, if k == 3 { 2 } else { 3 }, &a); reach("end");
});
// one of the files is not there or is no object file: the others are dumped, and the failure is reported
harness!(h_sev_bad, {
    let a = at(); setenv("HOME", &p("home"));
    let n = 1 + choice(2, "good ones") as usize; let at = choice(n as u64 + 1, "position") as usize; let kind = choice(4, "kind"); let same = choice(2, "same id") == 1; let jobs = 1 + choice(3, "jobs");
    let ids: Vec<(u64, usize)> = (0..n).map(|i| (if same { 0 } else { i as u64 }, i)).collect(); let mut names = put(&ids, false, &a);
    let bad = p("in/bad"); match kind { 0 => {} 1 => fs_file(&bad, b"not an object file"), 2 => { let mut b = vec![0u8; 128]; b[0] = b'M'; b[1] = b'Z'; b[0x3c] = 0x40; b[0x40] = b'P'; b[0x41] = b'E'; b[0x46] = 9; fs_file(&bad, &b) } _ => fs_dir(&bad) } names.insert(at, bad);
    threads(if tier() == 1 { 3 } else if n == 1 { 2 } else { 1 }); let ok = run(&cfg(jobs), &names); threads(0);
    check(!ok, "a file that cannot be dumped is reported"); stored(&ids, n + (kind == 1 || kind == 2) as usize, &a); reach("end");
});
// the symbol file of one of two modules cannot be created
harness!(h_sev_create, {
    let a = at(); let bad = choice(2, "which") as usize; let jobs = 1 + choice(2, "jobs"); let ids = [(0, 0usize), (1, 1)]; let names = put(&ids, false, &a); fs_dir(&p(&format!("store/lib.so/{}/lib.so.sym", idstr(bad as u64))));
    threads(if tier() == 1 { 3 } else { 2 }); let ok = run(&cfg(jobs), &names); threads(0);
    check(!ok, "a file that cannot be stored is reported"); stored(&[ids[1 - bad]], 2, &a); reach("end");
});
// some or all of the files cannot be stored
harness!(h_sev_store, {
    let a = at();
    let same = choice(2, "same id") == 1; let jobs = 1 + choice(2, "jobs"); let ids = [(0, 0usize), (!same as u64, 1)]; let cfi = choice(3, "unwind information");
    let names: Vec<String> = ids.iter().map(|(k, i)| { let f = p(&format!("in/{i}")); fs_file(&f, &elf(*k, *i, (cfi >> i) & 1 == 1, &a)); f }).collect();
    let mut c = cfg(jobs); c.check_cfi = true; threads(if tier() == 1 { 3 } else { 2 }); let ok = run(&c, &names); threads(0);
    let have: Vec<(u64, usize)> = if same { if cfi == 0 { vec![] } else { ids.to_vec() } } else { ids.iter().copied().filter(|x| (cfi >> x.1) & 1 == 1).collect() };
    check(ok == (same && cfi != 0), "a file that cannot be stored is reported"); stored(&have, 2, &a); reach("end");
});
// ---- C12: several files, and operations that fail meanwhile
harness!(h_write_several, {
    let a = [0x2000, 0x2100, 0x2200]; let same = choice(2, "same id") == 1; let file = choice(2, "file as well") == 1; let jobs = 1 + choice(2, "jobs"); let ids = [(0, 0usize), (!same as u64, 1)]; let names = put(&ids, false, &a); fs_dir(&p("out"));
    let mk = |d: &str| { let dir = PathBuf::from(p(d)); let mut c = cfg(jobs); if file && same { c.output = Output::FileAndStore { file: FileOutput::Path(PathBuf::from(p(&format!("out/{d}")))), store_directory: dir }; } else { c.output = Output::Store(dir); } c };
    let info = |k: u64, i: usize| ObjectInfo::from_elf(&elf(k, i, false, &a), ["0", "1"][i], Platform::Linux, None, false).unwrap(); let want: Vec<Vec<u8>> = if same { let t = dump(&ObjectInfo::merge(info(0, 1), info(0, 0)).unwrap()); let r = dump(&ObjectInfo::merge(info(0, 0), info(0, 1)).unwrap()); vec![t, r] } else { vec![dump(&info(0, 0)), dump(&info(1, 1))] };
    threads(1); faults(0xff, if tier() == 1 { 3 } else { 2 }); allow_panic(true); let ok = run(&mk("store"), &names); faults(0, 0); threads(0);
    if !ok { reach("error"); check(fault_count() > 0, "dumping fails only when something failed"); }
    else { if fault_count() > 0 { reach("tolerated"); }
        for (k, i) in ids { check(fs_read(&p(&format!("store/lib.so/{}/lib.so.sym", idstr(k)))).is_some_and(|d| d == want[i] || same && d == want[1 - i]), "success means the store has all the symbols of every file"); }
        if file && same { check(fs_read(&p("out/store")).is_some_and(|d| d == want[0] || d == want[1]), "success means the output file has all the symbols"); } }
    reach("end");
});
