//! PDB and PE files: the same guarantees as for ELF files (C01, C02, C03, C05, C06, C10, C14, C18), and how the two are paired (C16).
use crate::cabs::cab;
use crate::elf::*;
use crate::inl::{check_leaf, check_stack, ORIG};
use crate::lines::{check_at, func_at, sorted_lines, FILES};
use crate::names::{decorated, leak, odd, plain};
use crate::store::{all_files, config, p};
use crate::sym::*;
use crate::syms::{at, increasing};
use crate::win::*;
use dump_syms::dumper::{self, FileOutput, Output};
use dump_syms::object_info::ObjectInfo;
use std::path::PathBuf;
use symbolic::debuginfo::{pdb::PdbObject, pe::PeObject};

fn show(t: &[u8]) { if !is_symbolic() && std::env::var("VH_SHOW").is_ok() { eprintln!("{}", String::from_utf8_lossy(t)); } }
fn pdb_info(pdb: &[u8], pe: Option<&[u8]>, inl: bool) -> ObjectInfo { save(pdb); ObjectInfo::from_pdb(PdbObject::parse(pdb).unwrap(), "lib.pdb", pe.map(|_| "lib.dll"), pe.map(|p| PeObject::parse(p).unwrap()), None, inl).unwrap() }
pub fn from_pdb(pdb: Pdb, inl: bool) -> SymFile { let t = dump(&pdb_info(&pdb.build(), None, inl)); show(&t); parse(&t) }
fn from_pe(pe: Pe) -> SymFile { let b = pe.build(); save(&b); let t = dump(&ObjectInfo::from_pe("lib.dll", PeObject::parse(&b).unwrap()).unwrap()); show(&t); parse(&t) }
fn files() -> Vec<Vec<u8>> { FILES.iter().map(|f| f.as_bytes().to_vec()).collect() }
fn func(name: &'static str, low: u64, len: u64, rows: &[Row]) -> PFunc { PFunc { name, off: (low - TEXT) as u32, len: len as u32, rows: rows.iter().map(|r| ((r.addr - low) as u32, r.line as u32, r.file as usize - 1)).collect(), inl: vec![] } }
// ---- C01
harness!(h_pdb_lines, {
    let low = u(0x2000, 0x2f00, "low"); let mut rows = vec![]; let mut a = low; let n = if tier() == 1 { 4 } else { 3 };
    for i in 0..n { if i > 0 { a += u(1, 4, "gap"); } rows.push(Row { addr: a, line: u(0, 9, "line"), file: 1 + choice(if i == 0 { 1 } else { 2 }, "file") as u8 }); }
    let size = a - low + u(1, 4, "gap"); let s = from_pdb(Pdb { funcs: vec![func("f", low, size, &rows)], files: files(), ..Pdb::default() }, false);
    let x = low + u(0, 19, "x"); assume(x < low + size); check_at(&s, &rows, low, size, x); reach("end");
});
harness!(h_pdb_lines_two, {
    let l1 = u(0x2000, 0x2f00, "low"); let s1 = u(2, 6, "s1"); let l2 = l1 + s1 + u(0, 3, "hole"); let s2 = u(2, 6, "s2"); let m1 = u(1, 5, "m1"); assume(m1 < s1); let m2 = u(1, 5, "m2"); assume(m2 < s2); let f1 = choice(2, "file") as u8 + 1;
    let r1 = vec![Row { addr: l1, line: u(0, 9, "line"), file: 1 }, Row { addr: l1 + m1, line: u(1, 9, "line"), file: 2 }];
    let r2 = vec![Row { addr: l2, line: u(0, 9, "line"), file: f1 }, Row { addr: l2 + m2, line: u(1, 9, "line"), file: 3 }];
    let mut fs = vec![func("f", l1, s1, &r1), func("g", l2, s2, &r2)]; if choice(2, "order") == 1 { fs.reverse(); }
    let s = from_pdb(Pdb { funcs: fs, files: files(), ..Pdb::default() }, false);
    let x = l1 + u(0, 20, "x"); if x < l1 + s1 { check_at(&s, &r1, l1, s1, x); } else { assume(x >= l2 && x < l2 + s2); check_at(&s, &r2, l2, s2, x); }
    reach("end");
});
// ---- C02: an inlined call in one or two pieces, another one inside it; the function's own rows give the call's line
harness!(h_pdb_inl, {
    let low = u(0x2000, 0x2f00, "low"); let (a, l, g) = (u(1, 3, "start"), u(2, 4, "length"), u(1, 3, "gap")); let two = choice(2, "pieces") == 1; let nest = choice(2, "nested") == 1; let (cl, cf) = (u(1, 9, "call line"), 1 + choice(2, "call file") as u8);
    let b = a + l + g; let l2 = u(1, 3, "length"); let size = if two { b + l2 + 1 } else { a + l + g }; let (k0, kl) = (u(0, 3, "inner start"), u(1, 4, "inner length")); assume(k0 + kl <= l);
    let mut rows = vec![Row { addr: low, line: 21, file: 1 }, Row { addr: low + a, line: cl, file: cf }, Row { addr: low + a + l, line: 22, file: 1 }]; if two { rows.push(Row { addr: low + b, line: cl, file: cf }); rows.push(Row { addr: low + b + l2, line: 23, file: 1 }); }
    let mut f = func("f", low, size, &rows); let d = u(0, 9, "line") as u8; let e = u(0, 9, "line") as u8;
    let mut pieces = vec![(a as u8, l as u8, d)]; if two { pieces.push((b as u8, l2 as u8, e)); }
    f.inl.push(PInl { origin: 0, pieces, kids: if nest { vec![PInl { origin: 1, pieces: vec![((a + k0) as u8, kl as u8, 0)], kids: vec![] }] } else { vec![] } });
    let mut s = from_pdb(Pdb { funcs: vec![f], files: files(), origins: vec![(ORIG[0], 0, 30), (ORIG[1], 1, 50)], ..Pdb::default() }, true);
    for o in &mut s.origins { check(o.ends_with(b"()"), "an inlined function is named with its parameters"); o.truncate(o.len() - 2); }
    let x = low + u(0, 19, "x"); assume(x < low + size); let fr = func_at(&s, low); check(fr.len == size, "the FUNC record has the size of the function"); sorted_lines(fr);
    let in1 = x >= low + a && x < low + a + l; let in2 = two && x >= low + b && x < low + b + l2; let ink = nest && x >= low + a + k0 && x < low + a + k0 + kl;
    let mut want = vec![]; if in1 || in2 { want.push((0, cl, cf)); } if ink { want.push((1, 30 + d as u64, 1)); reach("nested"); }
    check_stack(&s, fr, &want, x);
    let leaf = if ink { vec![Row { addr: x, line: 50, file: 2 }] } else if in1 { vec![Row { addr: x, line: 30 + d as u64, file: 1 }] } else if in2 { vec![Row { addr: x, line: 30 + d as u64 + e as u64, file: 1 }] } else { rows };
    check_leaf(&s, fr, &leaf, x); reach("end");
});
// ---- C03: functions and public symbols anywhere; after the last one, a placeholder
fn placeholder(s: &SymFile, last: u64, name: &[u8]) { let r = s.recs.last().unwrap(); check(r.public && r.rva == last && r.name == name, "a placeholder follows the last record"); }
harness!(h_pdb_syms, {
    let l1 = u(0x2000, 0x2004, "low"); let s1 = u(0, 4, "size"); let l2 = l1 + s1 + u(0, 2, "hole"); assume(l1 < l2); let s2 = u(0, 4, "size"); let n = if tier() == 1 { 3 } else { 2 };
    const N: [&str; 3] = ["p0", "p1", "p2"]; let v: Vec<u64> = (0..n).map(|_| 0x2000 + u(0, 16, "symbol")).collect();
    let mut fs = vec![func("f", l1, s1, &[]), func("g", l2, s2, &[])]; if choice(2, "order") == 1 { fs.reverse(); }
    let s = from_pdb(Pdb { funcs: fs, pubs: (0..n).map(|i| (N[i].as_bytes().to_vec(), (v[i] - TEXT) as u32)).collect(), ..Pdb::default() }, false); increasing(&s);
    let mut count = 3; let mut last = l2 + s2.max(1);
    for (l, z, name) in [(l1, s1, "f"), (l2, s2, "g")] {
        let r = at(&s, l); check(r.is_some(), "every function with debug information has a record"); let r = r.unwrap(); check(!r.public && r.len == z, "a function with debug information has a FUNC record of its size"); check(!r.multi, "a function and a symbol are not several");
        let mut named = false; let mut any = false; for i in 0..n { if v[i] == l { any = true; named |= r.name == N[i].as_bytes(); } } check(if any { named } else { r.name == name.as_bytes() }, "a FUNC record is named after the symbol at its address, or the function");
    }
    for i in 0..n {
        let x = v[i]; let inside = (x > l1 && x < l1 + s1) || (x > l2 && x < l2 + s2); if inside { reach("inside"); check(at(&s, x).is_none(), "a symbol inside a function with debug information gets no record of its own"); continue; } if x == l1 || x == l2 { continue; }
        let r = at(&s, x); check(r.is_some(), "a symbol outside every function has a record"); let r = r.unwrap(); check(r.public, "a symbol without debug information gets a PUBLIC record"); let mut named = false; let mut dup = 0; let mut first = true;
        for j in 0..n { if v[j] == x { dup += 1; if j < i { first = false; } named |= r.name == N[j].as_bytes(); } } check(named, "a PUBLIC record is named after a symbol at its address"); check(r.multi == (dup > 1), "a record is marked multiple exactly when several symbols share its address");
        if first { count += 1; } if x >= last { last = x + 1; }
    }
    placeholder(&s, last, b"<unknown in lib.pdb>"); check(s.recs.len() == count, "nothing else is recorded"); reach("end");
});
// an image without debug information: its runtime functions and exports
harness!(h_pe_syms, {
    let mut rt = vec![]; for _ in 0..2 { let a = 0x1000 + u(0, 8, "begin"); rt.push((a as u32, (a + u(0, 6, "size") - u(0, 1, "reversed")) as u32)); } assume(rt[0].0 <= rt[1].0);
    const N: [&str; 2] = ["e0", "e1"]; let v: Vec<u64> = (0..2).map(|_| 0x1000 + u(0, 16, "export")).collect();
    let s = from_pe(Pe { runtime: rt.clone(), exports: (0..2).map(|i| (N[i], v[i] as u32)).collect(), ..Pe::default() }); increasing(&s);
    // the runtime functions that are not inside an earlier one
    let mut fs: Vec<(u64, u64)> = vec![]; for (a, b) in &rt { let (a, b) = (*a as u64, *b as u64); if b < a { continue; } let mut hidden = false; for f in &fs { hidden |= a >= f.0 && (a == f.0 || a < f.0 + f.1); } if !hidden { fs.push((a, b - a)); } }
    let mut count = 1; let mut last = 0;
    for (a, z) in &fs { let r = at(&s, *a); check(r.is_some(), "every runtime function has a record"); let r = r.unwrap(); check(!r.public && r.len == *z, "a runtime function has a FUNC record of its size"); let mut named = false; let mut any = false; for i in 0..2 { if v[i] == *a { any = true; named |= r.name == N[i].as_bytes(); } } check(if any { named } else { r.name == b"<unknown in lib.dll>" }, "a runtime function is named after the export at its address"); count += 1; if a + z.max(&1) > last { last = a + z.max(&1); } }
    for i in 0..2 {
        let x = v[i]; let mut inside = false; let mut begin = false; for f in &fs { inside |= x > f.0 && x < f.0 + f.1; begin |= x == f.0; } if begin { continue; } if inside { check(at(&s, x).is_none(), "an export inside a runtime function gets no record of its own"); continue; }
        let r = at(&s, x); check(r.is_some(), "an export outside every function has a record"); let r = r.unwrap(); check(r.public && (r.name == N[i].as_bytes() || (v[0] == v[1] && r.name == N[1 - i].as_bytes())), "an export has a PUBLIC record"); if i == 0 || v[0] != v[1] { count += 1; } if x + 1 > last { last = x + 1; }
    }
    let mut l = (0, 0); for r in &s.recs[..s.recs.len() - 1] { l = (r.rva, if r.public { 1 } else { r.len.max(1) }); }
    placeholder(&s, l.0 + l.1, b"<unknown in lib.pdb>"); check(s.recs.len() == count, "nothing else is recorded"); reach("end");
});
// ---- C05: a source file's path is cut at its last separator and joined again
harness!(h_pdb_path, {
    let k = 2 + choice(if tier() == 1 { 4 } else { 3 }, "n") as usize; let mut b = bytes(k, "path"); for c in &b { assume(*c == b'a' || *c == b'\\' || *c == b'/' || *c == b'.'); } assume(b[k - 1] != b'\\' && b[k - 1] != b'/');
    let drive = choice(2, "drive") == 1; if !drive { assume(b.iter().any(|c| *c == b'\\' || *c == b'/')); } if drive { assume(b[0] == b'\\' || b[0] == b'/'); b.splice(0..0, *b"c:"); } let n = b.len();
    let s = from_pdb(Pdb { funcs: vec![func("f", 0x2000, 4, &[Row { addr: 0x2000, line: 1, file: 1 }])], files: vec![b.clone()], ..Pdb::default() }, false);
    let mut cut = None; for i in 0..n { if b[i] == b'\\' || b[i] == b'/' { cut = Some(i); } }
    let want = match cut { None => b.clone(), Some(0) => b.clone(), Some(i) => { let mut e = i; while e > 0 && (b[e - 1] == b'\\' || b[e - 1] == b'/') { e -= 1; } let mut w = b[..e].to_vec(); w.push(if b[0] == b'/' { b'/' } else { b'\\' }); w.extend_from_slice(&b[i + 1..]); w } };
    check(s.files.len() == 1, "one FILE record per source file"); check(s.files[0] == want, "the path of a source file is the one in the PDB"); reach("end");
});
// ---- C06: decorated public symbols
harness!(h_pdb_name, {
    let n = bytes(1 + choice(if tier() == 1 { 4 } else { 3 }, "n") as usize, "name"); plain(&n); let f = choice(2, "function") == 1;
    let s = from_pdb(Pdb { funcs: if f { vec![func("f", 0x2000, 4, &[])] } else { vec![] }, pubs: vec![(n.clone(), 0x1000)], ..Pdb::default() }, false); let (name, param) = decorated(&n);
    let r = at(&s, 0x2000); check(r.is_some(), "a symbol has a record"); let r = r.unwrap(); check(r.public != f, "FUNC for a function, PUBLIC for a symbol"); check(r.name == name && r.param == param, "a decorated name loses its decoration and gives the parameter size"); reach("end");
});
// ---- C10: odd names
harness!(h_pdb_odd, {
    let which = choice(4, "which"); let n = odd(2); let mut pdb = Pdb { funcs: vec![func("f", 0x2000, 4, &[Row { addr: 0x2000, line: 1, file: 1 }])], files: vec![b"a.c".to_vec()], pubs: vec![(b"p".to_vec(), 0x1008), (b"q".to_vec(), 0x1010)], ..Pdb::default() };
    // names of the library's own syntax are left to it
    if which != 2 { assume(n[1] != b'?' && n[2] != b'?'); }
    match which { 0 => pdb.funcs[0].name = leak(n), 1 => pdb.pubs[0].0 = n, 2 => pdb.files[0] = n, _ => { pdb.funcs[0].inl = vec![PInl { origin: 0, pieces: vec![(1, 2, 0)], kids: vec![] }]; pdb.origins = vec![(leak(n), 0, 30)]; } }
    let s = from_pdb(pdb, which == 3); increasing(&s); check(s.recs.len() == 4 && s.files.len() == 1, "one record per function and symbol, one FILE record per file");
    let f = at(&s, 0x2000); check(f.is_some() && !f.unwrap().public && f.unwrap().lines.len() >= 1, "the function keeps its lines"); let q = at(&s, 0x2010); check(q.is_some() && q.unwrap().name == b"q", "the other symbols keep their names"); check(at(&s, 0x2008).is_some(), "a symbol has a record");
    for l in s.recs.iter().map(|r| &r.name).chain(&s.files).chain(&s.origins).chain(&s.module) { for c in l { check(*c >= b' ' && *c != 0x7f, "no control characters in a record"); } }
    reach("end");
});
// ---- C14: any addresses and sizes
harness!(h_any_pdb, {
    let (o, l) = (u(0, u32::MAX as u64, "offset") as u32, u(0, u32::MAX as u64, "length") as u32); let v = u(0, u32::MAX as u64, "symbol") as u32; let r = u(0, u32::MAX as u64, "row") as u32; let k = choice(3, "what"); if tier() == 0 { for x in [o, l, v, r] { assume(x < 0x10 || (x >= 0x8000_0000 && x < 0x8000_0010) || x >= 0xffff_ef00); } }
    let f = PFunc { name: "f", off: o, len: l, rows: if k == 0 { vec![(0, 1, 0), (r, 2, 0)] } else { vec![] }, inl: vec![] };
    let s = from_pdb(Pdb { funcs: if k < 2 { vec![f] } else { vec![] }, files: vec![b"a.c".to_vec()], pubs: if k == 0 { vec![] } else { vec![(b"p".to_vec(), v)] }, ..Pdb::default() }, false); increasing(&s);
    for r in &s.recs { for i in 1..r.lines.len() { check(r.lines[i - 1].rva <= r.lines[i].rva, "line records are in increasing order"); } }
    reach("end");
});
harness!(h_any_pe, {
    let (a, b, v) = (u(0, u32::MAX as u64, "begin") as u32, u(0, u32::MAX as u64, "end") as u32, u(0, u32::MAX as u64, "export") as u32); let k = choice(3, "what"); if tier() == 0 { for x in [a, b, v] { assume(x < 0x10 || (x >= 0x1000 && x < 0x1010) || (x >= 0x8000_0000 && x < 0x8000_0010) || x >= 0xffff_fff0); } }
    if let Ok(pe) = PeObject::parse(&Pe { runtime: if k < 2 { vec![(a, b)] } else { vec![] }, exports: if k > 0 { vec![("e", v)] } else { vec![] }, ..Pe::default() }.build()) { let s = parse(&dump(&ObjectInfo::from_pe("lib.dll", pe).unwrap())); increasing(&s); }
    reach("end");
});
// ---- C18: the identifiers of a PDB and of an image
fn hexd(v: u8) -> u8 { if v < 10 { b'0' + v } else { b'A' + v - 10 } }
fn guid() -> ([u8; 16], Vec<u8>) { let mut g = GUID; let i = choice(15, "position") as usize; g[i] = u(0, 255, "byte") as u8; g[i + 1] = u(0, 255, "byte") as u8; let mut w = vec![]; for i in [3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15] { w.push(hexd(g[i] >> 4)); w.push(hexd(g[i] & 15)); } (g, w) }
harness!(h_pdb_header, {
    let (g, mut id) = guid(); let age = [1u32, 2, 9, 10, 15, 16, 0x12ab][choice(7, "age") as usize]; id.extend_from_slice(format!("{age:x}").as_bytes());
    let (m, arch) = [(0x14cu16, &b"x86"[..]), (0x8664, b"x86_64"), (0xaa64, b"arm64")][choice(3, "machine") as usize]; let pe = choice(3, "image"); let stamp = u(0, u32::MAX as u64, "stamp") as u32; let size = u(0x1000, 0xffff, "size") as u32;
    let image = Pe { guid: g, age, stamp, size, machine: m, ..Pe::default() }.build(); let pdb = Pdb { guid: g, age, machine: m, pubs: vec![(b"p".to_vec(), 0)], ..Pdb::default() }.build();
    let t = match pe { 0 => dump(&pdb_info(&pdb, None, false)), 1 => dump(&pdb_info(&pdb, Some(&image), false)), _ => dump(&ObjectInfo::from_pe("lib.dll", PeObject::parse(&image).unwrap()).unwrap()) }; show(&t); let s = parse(&t);
    check(s.module[0] == b"windows" && s.module[1] == arch && s.module[3] == b"lib.pdb", "the platform, the architecture and the name"); check(s.module[2] == id, "the identifier is the GUID and the age");
    if pe == 0 { check(s.infos.is_empty(), "no code identifier without the image"); reach("alone"); }
    else { let mut c = b"CODE_ID ".to_vec(); for i in (0..8).rev() { c.push(hexd((stamp >> (4 * i)) as u8 & 15)); } for i in (0..4).rev() { c.push(hexd((size >> (4 * i)) as u8 & 15)); } c.extend_from_slice(b" lib.dll"); check(s.infos.len() == 1 && s.infos[0] == c, "INFO CODE_ID is the image's time stamp and size, and its name"); }
    reach("end");
});
// the unwind information of a 32-bit PDB, with or without an image which has none itself; only what is there counts as such
harness!(h_pdb_stack, {
    let n = choice(3, "frames") as usize; let a = u(0, 0xff0, "start"); let z = u(2, 0x20, "size"); let pro = u(1, 15, "prolog"); assume(pro < z); let b = a + z + u(0, 8, "gap"); let x64 = n > 0 && choice(2, "64 bit") == 1;
    let mut frames = vec![((TEXT + a) as u32, z as u32, pro as u16), ((TEXT + b) as u32, 8, 1)]; frames.truncate(n); let m = if x64 { 0x8664 } else { 0x14c };
    let image = choice(3, "image"); fs_dir(&p("out")); setenv("HOME", "/tmp/vhfs/home"); fs_file(&p("in/lib.pdb"), &Pdb { machine: m, frames: if x64 { vec![] } else { frames.clone() }, pubs: vec![(b"p".to_vec(), 0)], ..Pdb::default() }.build());
    let own = x64 && image == 1; if image > 0 { fs_file(&p("in/lib.dll"), &Pe { machine: m, runtime: if own { frames.iter().map(|f| (f.0, f.0 + f.1)).collect() } else { vec![] }, guid: if image == 2 { let mut g = GUID; g[3] ^= 1; g } else { GUID }, ..Pe::default() }.build()); }
    let want: Vec<Vec<u8>> = if own { frames.iter().map(|f| format!("STACK CFI INIT {:x} {:x} ", f.0, f.1).into_bytes()).collect() } else if x64 { vec![] } else { frames.iter().map(|f| format!("STACK WIN 0 {:x} {:x} {:x} ", f.0, f.1, f.2).into_bytes()).collect() };
    let mut c = out(); c.check_cfi = choice(2, "check") == 1; let r = dumper::single_file(&c, &p("in/lib.pdb")); let d = fs_read(&p("out/x.sym"));
    if c.check_cfi && want.is_empty() { check(r.is_err() && d.is_none(), "a file without unwind information is refused when it is required"); reach("refused"); return; }
    check(r.is_ok() && d.is_some(), "dumping a readable file succeeds"); let d = d.unwrap(); show(&d); let s = parse(&d);
    check(s.stack.len() == want.len() && s.stack.iter().zip(&want).all(|(l, w)| l.starts_with(w)), "unwind information appears as STACK records: the image's, or the PDB's"); if image == 1 && !x64 && n > 0 { reach("the PDB's"); } if own { reach("the image's"); } reach("end");
});
// ---- C16: which files are put together
fn out() -> dumper::Config<'static> { config(Output::File(FileOutput::Path(PathBuf::from(p("out/x.sym"))))) }
fn result(name: &str) -> SymFile { let r = dumper::single_file(&out(), name); check(r.is_ok(), "dumping a readable file succeeds"); let d = fs_read(&p("out/x.sym")); check(d.is_some(), "the symbols are written"); let d = d.unwrap(); show(&d); parse(&d) }
fn other() -> [u8; 16] { let mut g = GUID; g[u(0, 15, "different byte") as usize] ^= 0x11; g }
// a PDB and what lies beside it
harness!(h_pair_pdb, {
    fs_dir(&p("out")); setenv("HOME", "/tmp/vhfs/home"); fs_file(&p("in/lib.pdb"), &Pdb { pubs: vec![(b"p".to_vec(), 0)], ..Pdb::default() }.build());
    let mut want: Option<(&str, u32)> = None; let mut n = 1; let og = other();
    for (i, (f, name)) in [("lib.dll", "lib.dll"), ("lib.dl_", "lib.dll"), ("lib.exe", "lib.exe"), ("lib.ex_", "lib.exe")].into_iter().enumerate() {
        let stamp = 0x1000_0000 * (i as u32 + 1); match choice(if i == 1 { 7 } else if i < 1 { 5 } else { 3 }, f) {
            0 => continue, 1 => { fs_file(&p(&format!("in/{f}")), &Pe { stamp, ..Pe::default() }.build()); if want.is_none() { want = Some((name, stamp)); } }
            2 => fs_file(&p(&format!("in/{f}")), &Pe { stamp, guid: og, ..Pe::default() }.build()), 3 => fs_file(&p(&format!("in/{f}")), &Pe { stamp, age: 2, ..Pe::default() }.build()), 4 => fs_file(&p(&format!("in/{f}")), b"something else"), 5 => { fs_file(&p(&format!("in/{f}")), &cab(&[(name, &Pe { stamp, ..Pe::default() }.build())])); if want.is_none() { want = Some((name, stamp)); reach("cabinet"); } } _ => fs_file(&p(&format!("in/{f}")), &cab(&[("readme.txt", b"text")])) } n += 1; }
    let s = result(&p("in/lib.pdb")); check(s.module[2] == ID && s.module[3] == b"lib.pdb", "the PDB gives the module's name and identifier"); check(at(&s, TEXT).is_some(), "the PDB gives the symbols");
    match want { None => { check(s.infos.is_empty(), "an image with another identifier is not used"); reach("none"); } Some((name, stamp)) => { check(s.infos.len() == 1 && s.infos[0] == format!("CODE_ID {stamp:08X}9000 {name}").into_bytes(), "the image with the PDB's identifier gives the code identifier"); reach("paired"); } }
    check(all_files().len() == n + 1, "nothing else is written"); reach("end");
});
// an image and the places where its PDB may be
harness!(h_pair_pe, {
    fs_dir(&p("out")); setenv("HOME", "/tmp/vhfs/home"); let rec = [&b"lib.pdb"[..], b"c:\\x\\lib.pdb", b"..\\lib.pdb", b"x/lib.pdb"][choice(4, "recorded name") as usize];
    fs_file(&p("in/lib.dll"), &Pe { pdb: Some(rec.to_vec()), runtime: vec![(0x1000, 0x1004)], ..Pe::default() }.build()); let og = other();
    // beside the image, beside it and compressed, in the current directory
    let mut found: Vec<&[u8]> = vec![]; for (i, f) in ["in/lib.pdb", "in/lib.pd_", "lib.pdb"].into_iter().enumerate() { let k = choice(if i == 1 { 5 } else { 3 }, f); if k == 0 { continue; } const N: [&[u8]; 3] = [b"p0", b"p1", b"p2"];
        let b = Pdb { pubs: vec![(N[i].to_vec(), 0x100)], guid: if k == 2 { og } else { GUID }, ..Pdb::default() }.build(); fs_file(&p(f), &if k > 2 { cab(&[(if k == 3 { "lib.pdb" } else { "other.pdb" }, &b)]) } else { b }); if k == 1 || k == 3 { found.push(N[i]); } }
    let s = result(&p("in/lib.dll")); check(s.module[2] == ID, "the module's identifier is the image's"); check(s.module[3] == b"lib.pdb", "the module has the name of the PDB"); check(s.infos.len() == 1 && s.infos[0] == b"CODE_ID 5F0012349000 lib.dll", "the image gives the code identifier"); check(!s.stack.is_empty(), "the image gives the unwind information");
    if !found.is_empty() { let r = at(&s, TEXT + 0x100); check(r.is_some() && found.iter().any(|n| r.unwrap().name == *n), "the image's own PDB gives the symbols"); reach("paired"); } else { let r = at(&s, 0x1000); check(r.is_some() && r.unwrap().name == b"<unknown in lib.dll>" && at(&s, TEXT + 0x100).is_none(), "without its PDB, an image gives its own functions"); reach("none"); }
    reach("end");
});
// an image that records no file name for its PDB stands by itself
harness!(h_pair_noname, {
    fs_dir(&p("out")); setenv("HOME", "/tmp/vhfs/home"); let rec = [&b""[..], b"..", b"x/..", b"c:\\x\\..", b"/", b"\\", b"."][choice(7, "recorded name") as usize]; let (a, z) = (0x1000 + u(0, 0x100, "function"), u(1, 8, "size"));
    fs_file(&p("in/lib.dll"), &Pe { pdb: Some(rec.to_vec()), runtime: vec![(a as u32, (a + z) as u32)], ..Pe::default() }.build()); for f in ["in/lib.pdb", "lib.pdb", "in/.pdb"] { if choice(2, f) == 1 { fs_file(&p(f), &Pdb { pubs: vec![(b"p".to_vec(), 0x200)], ..Pdb::default() }.build()); } }
    let s = result(&p("in/lib.dll")); check(s.module[2] == ID, "the module's identifier is the image's"); check(s.module[3] == b"lib.dll", "the module has the name of the image"); check(at(&s, a).is_some_and(|r| !r.public && r.len == z && r.name == b"<unknown in lib.dll>") && at(&s, TEXT + 0x200).is_none(), "without a PDB the image's own functions are there"); reach("end");
});
// an image whose PDB is in a cache or on a server, under its name and identifier
fn serve_pdb(method: &str, url: &str) -> reqwest::Answer { let hit = unsafe { ON && url == std::str::from_utf8(&[b"http://one.example/sym/lib.pdb/", ID, b"/lib.pdb"].concat()).unwrap() }; reqwest::Answer { status: Some(if hit { 200 } else { 404 }), body: if hit && method == "GET" { Pdb { pubs: vec![(b"server".to_vec(), 0x100)], ..Pdb::default() }.build() } else { vec![] }, broken: false, delay: 0 } }
static mut ON: bool = false;
harness!(h_pair_srv, {
    fs_dir(&p("out")); setenv("HOME", &p("home")); reqwest::serve(serve_pdb); let rec = [&b"lib.pdb"[..], b"c:\\x\\lib.pdb", b"x/lib.pdb"][choice(3, "recorded name") as usize];
    fs_file(&p("in/lib.dll"), &Pe { pdb: Some(rec.to_vec()), runtime: vec![(0x1000, 0x1004)], ..Pe::default() }.build()); let mk = |n: &[u8], o: bool| Pdb { pubs: vec![(n.to_vec(), 0x100)], guid: if o { other() } else { GUID }, ..Pdb::default() }.build();
    let beside = choice(3, "beside"); if beside > 0 { fs_file(&p("in/lib.pdb"), &mk(b"beside", beside == 2)); } let cache = choice(2, "cached") == 1; let ids = String::from_utf8(ID.to_vec()).unwrap(); if cache { fs_file(&p(&format!("c1/lib.pdb/{ids}/lib.pdb")), &mk(b"cached", false)); } fs_file(&p("c1/lib.pdb/0123ABCD1/lib.pdb"), &mk(b"wrong", false)); unsafe { ON = choice(2, "server") == 1; }
    let mut c = out(); let set = format!("srv*{}*http://one.example/sym", p("c1")); let on = choice(2, "setting") == 1; if on { c.symbol_server = Some(&set); }
    check(dumper::single_file(&c, &p("in/lib.dll")).is_ok(), "dumping a readable file succeeds"); let s = parse(&fs_read(&p("out/x.sym")).unwrap()); check(s.module[2] == ID && s.module[3] == b"lib.pdb", "the module's identifier is the image's"); check(s.infos.len() == 1 && s.infos[0] == b"CODE_ID 5F0012349000 lib.dll", "the image gives the code identifier");
    let want: Option<&[u8]> = if beside == 1 { Some(b"beside") } else if on && cache { Some(b"cached") } else if on && unsafe { ON } { Some(b"server") } else { None };
    match want { Some(w) => { check(at(&s, TEXT + 0x100).is_some_and(|r| r.name == w), "the image's own PDB gives the symbols"); if w[0] != b'b' { reach("found"); } } None => { check(at(&s, 0x1000).is_some_and(|r| r.name == b"<unknown in lib.dll>") && at(&s, TEXT + 0x100).is_none(), "without its PDB, an image gives its own functions"); reach("none"); } }
    reach("end");
});
// ---- C09: the name an image records for its PDB is the module's name in the store, if it is one
harness!(h_store_pe, {
    fs_dir(&p("store")); fs_dir(&p("home")); setenv("HOME", &p("home")); let n = choice(if tier() == 1 { 5 } else { 4 }, "n") as usize; let mut b = bytes(n, "recorded name"); for c in &b { assume(*c == b'a' || *c == b'.' || *c == b'/' || *c == b'\\'); } for c in &mut b { *c = conc(*c as u64) as u8; } if choice(2, "extension") == 1 { b.extend_from_slice(b".pdb"); }
    fs_file(&p("in/lib.dll"), &Pe { pdb: Some(b.clone()), runtime: vec![(0x1000, 0x1004)], ..Pe::default() }.build()); let k = b.iter().rposition(|c| *c == b'/' || *c == b'\\').map_or(0, |i| i + 1);
    let last = std::str::from_utf8(&b[k..]).unwrap(); let name = if last.is_empty() || last == "." || last == ".." { reach("none"); "lib.dll" } else { last }; let want = p(&format!("store/{}", String::from_utf8_lossy(&crate::paths::store_oracle(name.as_bytes(), ID))));
    check(dumper::single_file(&config(Output::Store(PathBuf::from(p("store")))), &p("in/lib.dll")).is_ok(), "dumping a readable file succeeds");
    let f = all_files(); let t = fs_read(&want); if !is_symbolic() && std::env::var("VH_SHOW").is_ok() { eprintln!("{f:?} {want}"); } check(t.is_some(), "the symbols are stored under the module's name and identifier"); check(f.len() == 2, "nothing else is written"); let s = parse(&t.unwrap()); check(s.module[3] == name.as_bytes(), "the module has the name it is stored under"); reach("end");
});
// ---- C04: a PDB and its image, given as two files; what the image knows only by its unwind information never replaces what the PDB knows
harness!(h_merge_win, {
    let a = 0x2000 + u(0, 8, "function"); let z = u(1, 4, "size"); let v = 0x2000 + u(0, 0x10, "symbol"); let fun = choice(2, "function") == 1; if fun { assume(v < a || v >= a + z); }
    let n = 1 + choice(2, "runtime functions") as usize; let mut rt = vec![]; let mut b = 0x2000; for _ in 0..n { b += u(0, 8, "hole"); let e = b + u(1, 4, "runtime size"); rt.push((b as u32, e as u32)); b = e; } let far = choice(2, "more runtime functions") == 1; if far { for i in 0..4 { rt.push((0x4000 + 16 * i, 0x4008 + 16 * i)); } } let (l1, m) = (u(1, 9, "line"), choice(2, "order") == 0);
    let pdb = Pdb { funcs: if fun { vec![func("f", a, z, &[Row { addr: a, line: l1, file: 1 }])] } else { vec![] }, files: files(), pubs: vec![(b"p".to_vec(), (v - TEXT) as u32)], ..Pdb::default() }.build(); let pe = Pe { runtime: rt.clone(), ..Pe::default() }.build(); save(&pdb);
    let l = pdb_info(&pdb, None, false); let r = ObjectInfo::from_pe("lib.dll", PeObject::parse(&pe).unwrap()).unwrap(); let t = dump(&if m { ObjectInfo::merge(l, r) } else { ObjectInfo::merge(r, l) }.unwrap()); show(&t); let s = parse(&t); increasing(&s);
    check(s.module[2] == ID && s.module[3] == b"lib.pdb", "the merged module is the PDB's"); check(s.infos.len() == 1 && s.infos[0] == b"CODE_ID 5F0012349000 lib.dll", "the image gives the code identifier and its name");
    if fun { let r = at(&s, a); check(r.is_some_and(|r| !r.public && r.name == b"f" && r.len == z && r.lines.len() == 1 && r.lines[0].num == l1 && s.files[conc(r.lines[0].file) as usize] == FILES[0].as_bytes()), "the FUNC record of a function survives merging"); }
    // a symbol inside a runtime function may be left out
    let mut inside = false; for (b, e) in &rt { inside |= v > *b as u64 && v < *e as u64; } let r = at(&s, v); if !inside { check(r.is_some_and(|r| r.name == b"p"), "symbols survive merging"); } else if let Some(r) = r { check(r.name == b"p", "symbols survive merging"); }
    for (b, e) in &rt { let (b, e) = (*b as u64, *e as u64); let r = at(&s, b); check(r.is_some(), "every runtime function has a record"); let r = r.unwrap(); if b != v && !(fun && b == a) { check(r.name == b"<unknown in lib.dll>" && !r.public && r.len == e - b && !r.multi, "the runtime functions survive merging"); } else { reach("same"); } }
    reach("end");
});
