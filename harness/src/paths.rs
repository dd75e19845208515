//! C07: path conventions; C05: the source file table; C09: symbol store paths.
use crate::elf::*;
use crate::sym::*;
use dump_syms::object_info::ObjectInfo;
use dump_syms::platform::Platform;
use dump_syms::utils;
use std::path::{Path, PathBuf};

/// an arbitrary string of n characters: any ASCII byte except NUL, or (two bytes) é at one place
pub fn string(n: usize, name: &str) -> String { let a = bytes(n, name); for c in &a { assume(*c < 0x80 && *c != 0); } unsafe { String::from_utf8_unchecked(a) } }
fn sep(win: bool, c: u8) -> bool { c == b'/' || (win && c == b'\\') }
/// the documented rule, over bytes
fn join_oracle(win: bool, l: &[u8], r: &[u8]) -> Vec<u8> {
    let mut e = l.len(); while e > 0 && sep(win, l[e - 1]) { e -= 1; }
    let mut s = 0; while s < r.len() && sep(win, r[s]) { s += 1; }
    let mut v = l[..e].to_vec(); v.push(if !win || l[0] == b'/' { b'/' } else { b'\\' }); v.extend_from_slice(&r[s..]); v
}
fn join(p: Platform, win: bool) {
    let m = if tier() == 1 { 6 } else { 4 }; let l = string(1 + choice(m, "ll") as usize, "left"); let r = string(choice(m, "rl") as usize, "right");
    let j = p.join_paths(&l, &r);
    check(j.as_bytes() == &join_oracle(win, l.as_bytes(), r.as_bytes())[..], "joining gives the directory, one separator of its own style, and the name");
    if l.len() == 1 { reach("short"); }
    reach("end");
}
harness!(h_join_unix, { join(if choice(2, "platform") == 0 { Platform::Linux } else { Platform::Mac }, false) });
harness!(h_join_win, { join(Platform::Win, true) });
harness!(h_join_utf8, {
    let w = choice(2, "windows") == 1; let p = if w { Platform::Win } else { Platform::Linux };
    let l = format!("{}é{}", string(choice(3, "a") as usize, "left"), string(choice(3, "b") as usize, "left")); let r = format!("{}λ", string(choice(3, "c") as usize, "right"));
    check(p.join_paths(&l, &r).as_bytes() == &join_oracle(w, l.as_bytes(), r.as_bytes())[..], "joining keeps non-ASCII characters");
    reach("end");
});
harness!(h_absolute, {
    let n = choice(if tier() == 1 { 8 } else { 6 }, "n") as usize; let s = string(n, "path"); let b = s.as_bytes();
    for p in [Platform::Linux, Platform::Mac] { check(p.is_absolute_path(&s) == (n > 0 && b[0] == b'/'), "on Unix a path is absolute iff it starts with a slash"); }
    // Windows: the part before the first separator is empty or ends with a colon
    let mut k = 0; while k < n && !sep(true, b[k]) { k += 1; }
    check(Platform::Win.is_absolute_path(&s) == (k == 0 || b[k - 1] == b':'), "on Windows a path is absolute iff it starts with a separator or a drive");
    reach("end");
});
/// lexical normalisation: '.' and empty components vanish, '..' removes the component before it (never the root)
fn norm_oracle(b: &[u8]) -> Vec<u8> {
    let mut st: Vec<&[u8]> = vec![]; let abs = !b.is_empty() && b[0] == b'/';
    for c in b.split(|c| *c == b'/') { if c.is_empty() || c == b"." { continue; } if c == b".." { st.pop(); } else { st.push(c); } }
    let mut o = vec![]; if abs { o.push(b'/'); } for (i, c) in st.iter().enumerate() { if i > 0 { o.push(b'/'); } o.extend_from_slice(c); } o
}
harness!(h_normalize, {
    use std::os::unix::ffi::OsStrExt;
    let n = choice(if tier() == 1 { 8 } else { 7 }, "n") as usize; let s = string(n, "path");
    let r = utils::normalize_path(&s);
    check(r.as_os_str().as_bytes() == &norm_oracle(s.as_bytes())[..], "normalising resolves '.', '..' and repeated separators");
    reach("end");
});
harness!(h_normalize_long, {
    use std::os::unix::ffi::OsStrExt;
    // components chosen from a set, so that long paths are covered
    const P: [&str; 4] = ["a", "..", ".", ""]; let abs = choice(2, "absolute") == 1; let mut s = String::new(); if abs { s.push('/'); }
    let n = if tier() == 1 { 5 } else { 4 }; for i in 0..n { if i > 0 { s.push('/'); } s.push_str(P[choice(4, "component") as usize]); if i == 1 { s.push_str(&string(1, "c")); } }
    let r = utils::normalize_path(&s);
    check(r.as_os_str().as_bytes() == &norm_oracle(s.as_bytes())[..], "normalising resolves '.', '..' and repeated separators");
    reach("end");
});
// ---- C05 ----
fn elf1(u: Unit) -> Vec<u8> { Elf { dwarf: Some(Dwarf::new(vec![u])), ..Elf::default() }.build() }
fn files_of(elf: &[u8], p: Platform) -> SymFile { let t = dump(&ObjectInfo::from_elf(elf, "lib.so", p, None, false).unwrap()); if !is_symbolic() && std::env::var("VH_SHOW").is_ok() { eprintln!("{}", String::from_utf8_lossy(&t)); } parse(&t) }
fn path_oracle(win: bool, comp: &[u8], dir: Option<&[u8]>, name: &[u8]) -> Vec<u8> {
    let is_abs = |b: &[u8]| if win { let mut k = 0; while k < b.len() && !sep(true, b[k]) { k += 1; } k == 0 || b[k - 1] == b':' } else { b[0] == b'/' };
    if is_abs(name) { return name.to_vec(); }
    match dir {
        Some(d) if is_abs(d) => join_oracle(win, d, name),
        Some(d) => join_oracle(win, &join_oracle(win, comp, d), name),
        None => join_oracle(win, comp, name),
    }
}
fn unit1(comp: &[u8], dir: Option<&[u8]>, name: &[u8]) -> Unit { Unit { comp_dir: comp.to_vec(), dirs: dir.iter().map(|d| d.to_vec()).collect(), files: vec![(name.to_vec(), dir.is_some() as u8)], funcs: vec![Func { name: "f", low: 0x2000, size: 4, inl: vec![] }], seqs: vec![(vec![Row { addr: 0x2000, line: 1, file: 1 }], 0x2004)], ..Unit::default() } }
fn clean(b: &[u8]) { for c in b { assume(*c < 0x80 && *c > b' ' && *c != 0x7f); } }
/// the path of a file is made of the compilation directory, its directory and its name
fn fpath(p: Platform, win: bool) {
    let dir = if choice(2, "has a directory") == 1 { Some(bytes(1 + choice(if tier() == 1 { 4 } else { 3 }, "dl") as usize, "dir")) } else { None };
    let name = bytes(1 + choice(2, "nl") as usize, "name"); clean(&name); assume(!sep(win, name[name.len() - 1])); if let Some(d) = &dir { clean(d); }
    let comp: &[u8] = if win { b"C:\\s" } else { b"/s" };
    let s = files_of(&elf1(unit1(comp, dir.as_deref(), &name)), p);
    check(s.files.len() == 1, "a source file has one FILE record");
    check(s.files[0] == path_oracle(win, comp, dir.as_deref(), &name), "the path of a source file is its name in its directory, relative ones below the compilation directory");
    reach("end");
}
harness!(h_fpath_unix, { fpath(Platform::Mac, false) });
harness!(h_fpath_win, { fpath(Platform::Win, true) });
// any compilation directory, the root and none included
harness!(h_fpath_comp, {
    let win = choice(2, "windows") == 1; let comp = bytes(1 + choice(if tier() == 1 { 3 } else { 2 }, "cl") as usize, "comp"); clean(&comp); let dir: Option<&[u8]> = [None, Some(&b"d"[..]), Some(b"d/e"), Some(b"/d")][choice(4, "dir") as usize]; if comp.len() == 1 { assume(comp[0] != b'd'); } // (the compilation directory itself)
    let s = files_of(&elf1(unit1(&comp, dir, b"n.c")), if win { Platform::Win } else { Platform::Mac });
    check(s.files.len() == 1, "a source file has one FILE record"); check(s.files[0] == path_oracle(win, &comp, dir, b"n.c"), "the path of a source file is its name in its directory, relative ones below the compilation directory"); reach("end");
});
// no compilation directory: what is absolute stands for itself
harness!(h_fpath_none, {
    let win = choice(2, "windows") == 1; let dir: Option<&[u8]> = match choice(3, "dir") { 0 => None, 1 => Some(b"/d"), _ => if win { Some(b"C:\\d") } else { Some(b"//d/") } };
    let mut name = bytes(1 + choice(2, "nl") as usize, "name"); clean(&name); assume(!sep(win, name[name.len() - 1])); if dir.is_none() || choice(2, "absolute") == 1 { let mut n = (if win { [&b"C:\\"[..], b"c:/", b"/", b"\\\\"][choice(4, "root") as usize] } else { [&b"/"[..], b"//"][choice(2, "root") as usize] }).to_vec(); n.extend_from_slice(&name); name = n; reach("absolute"); }
    let s = files_of(&elf1(unit1(b"", dir, &name)), if win { Platform::Win } else { Platform::Mac });
    check(s.files.len() == 1, "a source file has one FILE record"); check(s.files[0] == path_oracle(win, b"", dir, &name), "an absolute name stands for itself"); reach("end");
});
// on the machine's own platform the path is also normalised
harness!(h_fpath_host, {
    let dir = bytes(1 + choice(4, "dl") as usize, "dir"); let name = b"n.c"; clean(&dir);
    let s = files_of(&elf1(unit1(b"/s/t", Some(&dir), name)), Platform::Linux);
    check(s.files[0] == norm_oracle(&path_oracle(false, b"/s/t", Some(&dir), name)), "the path of a source file is normalised");
    reach("end");
});
// names that are not ASCII, in any part
harness!(h_fpath_bytes, {
    let v = bytes(2, "b"); for c in &v { assume(*c >= 0x80 || (*c > b' ' && *c != b'/' && *c != b'.' && *c != 0x7f)); }
    let utf8 = v[0] >= 0xc2 && v[0] < 0xe0 && v[1] >= 0x80 && v[1] < 0xc0; let ascii = v[0] < 0x80 && v[1] < 0x80; assume(utf8 || ascii);
    let k = choice(3, "part"); let mut c = b"/s".to_vec(); let mut d = b"d".to_vec(); let mut n = b"n".to_vec();
    match k { 0 => c.extend_from_slice(&v), 1 => d.extend_from_slice(&v), _ => n.extend_from_slice(&v) };
    let s = files_of(&elf1(unit1(&c, Some(&d), &n)), if choice(2, "host") == 0 { Platform::Mac } else { Platform::Linux });
    check(s.files.len() == 1 && s.files[0] == path_oracle(false, &c, Some(&d), &n), "UTF-8 names are kept");
    if utf8 { reach("utf8"); }
    reach("end");
});
// a compilation directory that is not UTF-8 is taken as latin-1
harness!(h_fpath_latin1, {
    let b = u(0x80, 0xff, "b") as u8; let d = choice(2, "in a directory") == 1; let s = files_of(&elf1(unit1(&[b'/', b, b'x'], if d { Some(b"d") } else { None }, b"n.c")), Platform::Mac);
    let mut w = b"/".to_vec(); w.push(0xc0 | (b >> 6)); w.push(0x80 | (b & 0x3f)); w.extend_from_slice(if d { b"x/d/n.c" } else { b"x/n.c" });
    check(s.files[0] == w, "a compilation directory that is not UTF-8 is read as latin-1");
    reach("end");
});
// names that need converting (not UTF-8) are still told apart, and stay apart from the others
harness!(h_files_odd, {
    heap_reuse(true);
    let odd = |k: u64, c: u8| match k { 0 => vec![c, 0xff], 1 => vec![c, b'x'], _ => vec![0xfe, c] };
    let mut files = vec![]; let mut want: Vec<Vec<u8>> = vec![];
    for i in 0..3 { let k = choice(3, "kind"); let c = u(b'a' as u64, b'c' as u64, "c") as u8; files.push((odd(k, c), 1)); want.push(match k { 0 => vec![c, 0xef, 0xbf, 0xbd], 1 => vec![c, b'x'], _ => vec![0xef, 0xbf, 0xbd, c] }); let _ = i; }
    let two = choice(2, "two units") == 1;
    let mk = |fs: &[(Vec<u8>, u8)], low: u64, l0: u64| Unit { comp_dir: b"/s".to_vec(), dirs: vec![b"/d".to_vec()], files: fs.to_vec(), funcs: vec![Func { name: "f", low, size: 8, inl: vec![] }], seqs: vec![((0..fs.len()).map(|i| Row { addr: low + i as u64, line: l0 + i as u64, file: 1 + i as u8 }).collect(), low + 8)], ..Unit::default() };
    let us = if two { vec![mk(&files[..1], 0x2000, 1), mk(&files[1..], 0x3000, 2)] } else { vec![mk(&files, 0x2000, 1)] };
    let s = files_of(&Elf { dwarf: Some(Dwarf::new(us)), ..Elf::default() }.build(), Platform::Mac);
    for i in 0..s.files.len() { for j in 0..i { check(s.files[i] != s.files[j], "equal paths share one FILE record"); } }
    for r in &s.recs { for l in &r.lines { check(s.files[conc(l.file) as usize][3..] == want[conc(l.num) as usize - 1][..], "a line record refers to its source file"); } }
    reach("end");
});
// several files: each line record refers to its own file, equal paths share one FILE record, unused files have none
harness!(h_files_table, {
    let n = 3; let mut dirs = vec![]; let mut files = vec![]; let mut paths = vec![];
    for _ in 0..n { let d = choice(3, "dir"); let c = u(b'a' as u64, b'b' as u64, "name") as u8; files.push((vec![c], d as u8)); paths.push(match d { 0 => vec![b'/', b'c', b'/', c], 1 => vec![b'/', b'c', b'/', b'x', b'/', c], _ => vec![b'/', b'y', b'/', c] }); }
    dirs.push(b"x".to_vec()); dirs.push(b"/y".to_vec());
    let used = 1 + choice(n, "used") as usize;
    let rows: Vec<Row> = (0..used).map(|i| Row { addr: 0x2000 + i as u64, line: 1 + i as u64, file: 1 + i as u8 }).collect();
    let two = choice(2, "two functions") == 1;
    let fs = if two && used > 1 { vec![Func { name: "f", low: 0x2000, size: 1, inl: vec![] }, Func { name: "g", low: 0x2001, size: 7, inl: vec![] }] } else { vec![Func { name: "f", low: 0x2000, size: 8, inl: vec![] }] };
    let mut dw = Dwarf::new(vec![Unit { dirs, files, funcs: fs, seqs: vec![(rows, 0x2008)], ..Unit::default() }]); dw.v5 = choice(2, "dwarf 5") == 1; let s = files_of(&Elf { dwarf: Some(dw), ..Elf::default() }.build(), Platform::Mac);
    for i in 0..s.files.len() { for j in 0..i { check(s.files[i] != s.files[j], "equal paths share one FILE record"); } let mut k = false; for p in &paths[..used] { k |= s.files[i] == *p; } check(k, "every FILE record is the path of a used source file"); }
    for r in &s.recs { for l in &r.lines { check(l.file < s.files.len() as u64, "the file of a line record is defined"); let k = conc(l.num) as usize - 1; check(s.files[conc(l.file) as usize] == paths[k], "a line record refers to its source file"); } }
    reach("end");
});
// two units with different compilation directories and the same relative names
harness!(h_files_units, {
    let c1 = u(b'a' as u64, b'c' as u64, "c1") as u8; let c2 = u(b'a' as u64, b'c' as u64, "c2") as u8;
    // with the units' line tables sharing strings or not; names directly in the compilation directory, below a relative directory or an absolute one
    let v5 = choice(2, "dwarf 5") == 1; let d1 = choice(3, "d1"); let d2 = choice(3, "d2"); let n2 = choice(2, "name"); let win = choice(2, "windows") == 1;
    let mk = |c: u8, d: u64, n: u8, low: u64, line: u64| Unit { comp_dir: vec![b'/', c], dirs: vec![b"i".to_vec(), b"/a".to_vec()], files: vec![(vec![n], d as u8)], funcs: vec![Func { name: "f", low, size: 4, inl: vec![] }], seqs: vec![(vec![Row { addr: low, line, file: 1 }], low + 4)], ..Unit::default() };
    let path = |c: u8, d: u64, n: u8| match d { 0 => vec![b'/', c, b'/', n], 1 => vec![b'/', c, b'/', b'i', b'/', n], _ => vec![b'/', b'a', b'/', n] };
    let (p1, p2) = (path(c1, d1, b'n'), path(c2, d2, if n2 == 1 { b'm' } else { b'n' }));
    let mut dw = Dwarf::new(vec![mk(c1, d1, b'n', 0x2000, 1), mk(c2, d2, if n2 == 1 { b'm' } else { b'n' }, 0x3000, 2)]); dw.v5 = v5;
    let s = files_of(&Elf { dwarf: Some(dw), ..Elf::default() }.build(), if win { Platform::Win } else { Platform::Mac });
    check(s.files.len() == if p1 == p2 { 1 } else { 2 }, "equal paths share one FILE record");
    for r in &s.recs { for l in &r.lines { check(s.files[conc(l.file) as usize] == if l.num == 1 { &p1[..] } else { &p2[..] }, "a line record refers to the source file of its unit"); } }
    reach("end");
});
// ---- C09 ----
fn lower(c: u8) -> u8 { if c.is_ascii_uppercase() { c | 0x20 } else { c } }
fn ext(b: &[u8]) -> Option<usize> { let mut i = b.len(); while i > 0 { i -= 1; if b[i] == b'.' { return if i == 0 { None } else { Some(i) }; } } None }
fn ieq(a: &[u8], b: &[u8]) -> bool { let mut r = a.len() == b.len(); if r { for i in 0..a.len() { r &= lower(a[i]) == b[i]; } } r }
pub fn store_oracle(name: &[u8], id: &[u8]) -> Vec<u8> {
    let e = ext(name); let mut base = name.to_vec(); let mut stem = name.to_vec();
    if let Some(i) = e { let x = &name[i + 1..]; for (c, f) in [(b"pd_", b"pdb"), (b"ex_", b"exe"), (b"dl_", b"dll")] { if ieq(x, c) { base.truncate(i + 1); base.extend_from_slice(f); } } }
    // the symbol file loses the pdb extension (a name that is only ".pdb" loses it too)
    let mut d = name.len(); while d > 0 && name[d - 1] != b'.' { d -= 1; } if d > 0 && ieq(&name[d..], b"pdb") { stem.truncate(d - 1); }
    let mut o = base; o.push(b'/'); o.extend_from_slice(id); o.push(b'/'); o.extend_from_slice(&stem); o.extend_from_slice(b".sym"); o
}
harness!(h_store_path, {
    use std::os::unix::ffi::OsStrExt;
    let n = 1 + choice(if tier() == 1 { 7 } else { 6 }, "n") as usize; let name = string(n, "name");
    for c in name.as_bytes() { assume(*c != b'/' && *c > b' ' && *c != 0x7f); } assume(name != "." && name != ".." && !name.ends_with('.'));
    let id = "AB0";
    let p = utils::get_path_for_sym(&name, id);
    check(p.as_os_str().as_bytes() == &store_oracle(name.as_bytes(), id.as_bytes())[..], "symbols are stored as NAME/ID/NAME.sym, with the extension rules of the store");
    reach("end");
});
