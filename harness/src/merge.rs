//! C04: merging the information of several files of one module.
use crate::elf::*;
use crate::lines::resolve;
use crate::sym::*;
use crate::syms::{at, increasing};
use dump_syms::object_info::ObjectInfo;
use dump_syms::platform::Platform;

pub fn info(e: Elf, name: &str, inl: bool) -> ObjectInfo { ObjectInfo::from_elf(&e.build(), name, Platform::Mac, None, inl).unwrap() }
pub fn merge(a: ObjectInfo, b: ObjectInfo) -> ObjectInfo { ObjectInfo::merge(a, b).unwrap() }
fn text(o: &ObjectInfo) -> SymFile { let t = dump(o); if !is_symbolic() && std::env::var("VH_SHOW").is_ok() { eprintln!("{}", String::from_utf8_lossy(&t)); } parse(&t) }
const F: [&[u8]; 3] = [b"a.c", b"b.c", b"d.c"];
const P: [&[u8]; 3] = [b"/c/a.c", b"/c/b.c", b"/c/d.c"];
const O: [&str; 4] = ["inlined_helper_one", "inlined_helper_two", "inlined_helper_one_more", "inlined"];
#[derive(Clone)]
pub struct Fun { pub name: &'static str, pub low: u64, pub size: u64, pub file: usize, pub line: u64, pub inl: Option<(usize, u64)> }
/// one unit per function, each with a line covering it; the inlined call (if any) takes its last byte
pub fn dwarf(fs: &[Fun]) -> Option<Dwarf> {
    Some(Dwarf::new(fs.iter().map(|f| Unit { files: vec![(F[f.file].to_vec(), 0)], origins: O.to_vec(),
        funcs: vec![Func { name: f.name, low: f.low, size: f.size, inl: f.inl.iter().map(|i| Inl { origin: i.0, low: f.low + f.size - 1, size: 1, call_file: 1, call_line: i.1 as u32, more: vec![], kids: vec![] }).collect() }],
        seqs: vec![(vec![Row { addr: f.low, line: f.line, file: 1 }], f.low + f.size)], ..Unit::default() }).collect()))
}
fn check_fun(s: &SymFile, f: &Fun) {
    let r = at(s, f.low); check(r.is_some(), "every function of the merged files has a record"); let r = r.unwrap();
    check(!r.public && r.len == f.size && r.name == f.name.as_bytes(), "the FUNC record of a function survives merging");
    let g = resolve(r, f.low); check(g.is_some(), "line information survives merging"); let (l, id) = g.unwrap();
    check(l == f.line, "line numbers survive merging");
    check(id < s.files.len() as u64, "the file of a merged line record is defined");
    check(s.files[conc(id) as usize] == P[f.file], "the source file of a line record is the same after merging");
    match f.inl {
        None => check(r.inls.is_empty(), "merging invents no inline records"),
        Some((o, cl)) => {
            check(r.inls.len() == 1, "inline records survive merging"); let i = &r.inls[0];
            check(i.depth == 0 && i.line == cl && i.ranges.len() == 1 && i.ranges[0] == (f.low + f.size - 1, 1), "inline records survive merging unchanged");
            check(i.origin < s.origins.len() as u64, "the origin of a merged inline record is defined");
            check(s.origins[conc(i.origin) as usize] == O[o].as_bytes(), "the origin of an inline record is the same after merging");
            check(i.file < s.files.len() as u64 && s.files[conc(i.file) as usize] == P[f.file], "the call file of an inline record is the same after merging");
        }
    }
}
fn files_ok(s: &SymFile, want: &[usize]) {
    for (i, f) in s.files.iter().enumerate() { for g in &s.files[..i] { check(f != g, "a source file is listed once after merging"); } let mut k = false; for &w in want { k |= P[w] == &f[..]; } check(k, "only the source files of the merged files are listed"); }
}
fn fun(name: &'static str, low: u64, file: usize, inl: bool) -> Fun { Fun { name, low, size: 2 + u(0, 2, "size"), file, line: u(1, 9, "line"), inl: if inl { Some((choice(2, "origin") as usize, u(1, 9, "call line"))) } else { None } } }
// two files with debug information about different functions
fn two(inl: bool) {
    let a = u(0x2000, 0x2f00, "a"); let b = u(0x2000, 0x2f00, "b");
    let wh = if inl { choice(3, "inlined calls in") } else { 0 };
    let f0 = fun("f0", a, choice(2, "file") as usize, inl && wh != 1); let f1 = fun("f1", b, 1 + choice(2, "file") as usize, inl && wh != 2);
    assume(a + f0.size <= b || b + f1.size <= a);
    let mut l = vec![f0.clone()]; let mut r = vec![f1.clone()];
    let extra = choice(3, "third function"); let mut all = vec![f0, f1];
    if extra > 0 { let f2 = Fun { name: "f2", low: 0x4000, size: 4, file: 0, line: 7, inl: None }; all.push(f2.clone()); if extra == 1 { l.push(f2) } else { r.insert(0, f2) } }
    let want: Vec<usize> = all.iter().map(|f| f.file).collect();
    let s = text(&merge(info(Elf { dwarf: dwarf(&l), ..Elf::default() }, "lib.so", inl), info(Elf { dwarf: dwarf(&r), ..Elf::default() }, "lib.so", inl)));
    increasing(&s);
    for f in &all { check_fun(&s, f); }
    files_ok(&s, &want);
    check(s.recs.len() == all.len() + 1, "merging neither loses nor invents records");
    reach("end");
}
harness!(h_merge_two, { two(false) });
harness!(h_merge_inl, { two(true) });
// both files have debug information and inlined calls; one also has a plain symbol, possibly at a function of the other
harness!(h_merge_cross, {
    let a = u(0x2000, 0x2008, "a"); let b = u(0x2010, 0x2018, "b");
    let f0 = fun("f0", a, choice(2, "file") as usize, true); let f1 = fun("f1", b, 1, true);
    let v = u(0x2000, 0x201c, "sym");
    assume(v <= a || v >= a + f0.size); assume(v < b || v >= b + f1.size);
    let more = choice(2, "which file is bigger"); let f2 = Fun { name: "f2", low: 0x4000, size: 4, file: 2, line: 7, inl: None };
    let f3 = Fun { name: "f3", low: 0x4010, size: 4, file: 0, line: 8, inl: None };
    let (mut l, mut r) = (vec![f0.clone()], vec![f1.clone()]); let x = if more == 0 { &mut l } else { &mut r }; x.push(f2.clone()); x.push(f3.clone());
    let l = info(Elf { dwarf: dwarf(&l), ..Elf::default() }, "lib.so", true);
    let r = info(Elf { dwarf: dwarf(&r), syms: vec![func_sym("s", v, 0)], ..Elf::default() }, "lib.so", true);
    let s = text(&if choice(2, "order") == 0 { merge(l, r) } else { merge(r, l) });
    increasing(&s);
    for f in [&f0, &f1, &f2, &f3] { check_fun(&s, f); }
    files_ok(&s, &[0, 1, 2]);
    let q = at(&s, v); check(q.is_some(), "symbols survive merging"); let q = q.unwrap();
    if v == a { reach("symbol at a function"); } else { check(q.public && q.name == b"s" && !q.multi, "PUBLIC records survive merging"); }
    check(s.recs.len() == if v == a { 5 } else { 6 }, "merging neither loses nor invents records");
    reach("end");
});
// a third file merged in, in any association
harness!(h_merge_three, {
    let fs = [Fun { name: "f0", low: 0x2000, size: 4, file: choice(2, "file") as usize, line: u(1, 9, "line"), inl: None }, Fun { name: "f1", low: u(0x2010, 0x2f00, "b"), size: 4, file: choice(3, "file") as usize, line: u(1, 9, "line"), inl: None }, Fun { name: "f2", low: 0x3000, size: 4, file: choice(3, "file") as usize, line: u(1, 9, "line"), inl: None }];
    let big = choice(3, "which file has more functions"); let f3 = Fun { name: "f3", low: 0x3010, size: 4, file: 2, line: 5, inl: None };
    // one of them may have symbols only, few or many
    let bare = choice(4, "which file has no debug information") as usize; let sy = if bare < 3 { 1 + 3 * choice(2, "symbols") as usize } else { 0 }; const S: [&str; 4] = ["s0", "s1", "s2", "s3"];
    let mut v = vec![]; for i in 0..3 { if bare == i { v.push(info(Elf { syms: (0..sy).map(|k| func_sym(S[k], 0x5000 + k as u64, 0)).collect(), ..Elf::default() }, "lib.so", false)); continue; } let mut x = vec![fs[i].clone()]; if big == i as u64 { x.push(f3.clone()); } v.push(info(Elf { dwarf: dwarf(&x), ..Elf::default() }, "lib.so", false)); }
    let c = v.pop().unwrap(); let b = v.pop().unwrap(); let a = v.pop().unwrap();
    let m = if choice(2, "association") == 0 { merge(merge(a, b), c) } else { merge(a, merge(b, c)) };
    let s = text(&m);
    increasing(&s);
    for (i, f) in fs.iter().chain(std::iter::once(&f3)).enumerate() { if bare != i && !(i == 3 && big == bare as u64) { check_fun(&s, f); } }
    for k in 0..sy { check(at(&s, 0x5000 + k as u64).is_some_and(|r| r.public && r.name == S[k].as_bytes()), "PUBLIC records survive merging"); }
    files_ok(&s, &[fs[0].file, fs[1].file, fs[2].file, 2]);
    reach("end");
});
// the debug file and the stripped file (symbols, unwind information) of a module, in either order
harness!(h_merge_stripped, {
    let a = u(0x2000, 0x2010, "a"); let f0 = fun("f0", a, 0, false);
    let n = 1 + choice(2, "symbols") as usize; const N: [&str; 2] = ["s0", "s1"];
    let mut sy = vec![]; let mut addrs = vec![];
    // one symbol of any size, or two
    for i in 0..n { let v = 0x2000 + u(0, 0x18, "sym"); addrs.push(v); sy.push(func_sym(N[i], v, if n == 1 { u(0, 8, "symbol size") } else { 0 })); }
    let eh = u(0x2000, 0x2fff, "eh"); let both = choice(2, "unwind information in both") == 1;
    let dbg = info(Elf { dwarf: dwarf(&[f0.clone()]), eh: if both { vec![(0x2800, 8)] } else { vec![] }, ..Elf::default() }, "lib.so.debug", false);
    let str_ = info(Elf { syms: sy, eh: vec![(eh, 16)], ..Elf::default() }, "lib.so", false);
    let m = if choice(2, "order") == 0 { merge(dbg, str_) } else { merge(str_, dbg) };
    let s = text(&m); increasing(&s);
    check(s.module[3] == b"lib.so", "the merged module is named after the stripped file");
    check_fun(&s, &f0); files_ok(&s, &[0]);
    for (i, &v) in addrs.iter().enumerate() {
        // a symbol inside the function may be left out
        let r = at(&s, v); if r.is_none() && v > a && v < a + f0.size { reach("inside"); continue; } check(r.is_some(), "symbols survive merging"); let r = r.unwrap();
        if v == a { reach("func beats public"); continue; }
        let mut other = false; for (j, &w) in addrs.iter().enumerate() { if j != i && w == v { other = true; } }
        check(r.public && (r.name == N[i].as_bytes() || other), "PUBLIC records survive merging");
    }
    let mut n = 0; for l in &s.stack { if l.starts_with(b"STACK CFI INIT ") { n += 1; let w: Vec<&[u8]> = l.split(|c| *c == b' ').collect(); let h = format!("{:x}", eh as u32); check(w[3] == h.as_bytes() || (both && w[3] == b"2800"), "unwind records survive merging unchanged"); } }
    check(n == if both { 2 } else { 1 }, "unwind records survive merging");
    for r in &s.recs { let mut ok = r.rva == 0x1000 || r.rva == a; for &v in &addrs { ok |= v == r.rva; } check(ok, "merging invents no records"); }
    reach("end");
});
// placeholders for executable sections never replace symbols or functions, in either order
harness!(h_merge_placeholder, {
    let v = u(0xff8, 0x1008, "v"); let k = choice(2, "function or symbol"); let z = if k == 1 { u(0, 4, "size") } else { 4 };
    let extra = choice(2, "more symbols") == 1; let twice = k == 0 && choice(2, "described twice") == 1;
    let f0 = Fun { name: "f0", low: v, size: 4, file: 0, line: 3, inl: None };
    let l = info(if k == 0 { Elf { dwarf: dwarf(&if twice { vec![f0.clone(), Fun { size: 3, ..f0 }] } else { vec![f0] }), ..Elf::default() } } else { Elf { syms: vec![func_sym("f0", v, z)], ..Elf::default() } }, "lib.so", false);
    let r = info(Elf { syms: if extra { vec![func_sym("x", 0x3000, 1), func_sym("y", 0x3001, 1), func_sym("z", 0x3002, 1)] } else { vec![] }, ..Elf::default() }, "lib.so", false);
    let m = if choice(2, "order") == 0 { merge(l, r) } else { merge(r, l) };
    let s = text(&m); increasing(&s);
    let q = at(&s, v); check(q.is_some() && q.unwrap().name == b"f0" && q.unwrap().public == (k == 1), "a placeholder never replaces a real record"); if k == 1 { check(!q.unwrap().multi, "a placeholder is no second symbol"); } else { check(q.unwrap().multi == twice, "a merged function is marked multiple iff it was described several times"); }
    if v != 0x1000 { check(at(&s, 0x1000).is_some(), "the executable section keeps its placeholder"); } else { reach("same"); }
    reach("end");
});
// rows without a line (line 0), which may be of files that nothing else refers to
harness!(h_merge_zero, {
    let f0 = fun("f0", 0x2000 + u(0, 8, "a"), choice(3, "file") as usize, false); let f1 = Fun { name: "f1", low: 0x2020, size: 4, file: choice(3, "file") as usize, line: 6, inl: None };
    let f2 = fun("f2", 0x2030 + u(0, 8, "b"), choice(3, "file") as usize, false); let z = choice(3, "file of the row without a line") as usize; let both = choice(2, "the other too") == 1;
    let make = |fs: &[Fun], zero: bool| { let mut us: Vec<Unit> = fs.iter().map(|f| Unit { files: vec![(F[f.file].to_vec(), 0), (F[z].to_vec(), 0)], funcs: vec![Func { name: f.name, low: f.low, size: f.size, inl: vec![] }], seqs: vec![(vec![Row { addr: f.low, line: f.line, file: 1 }], f.low + f.size)], ..Unit::default() }).collect(); if zero { us[0].seqs[0].0.push(Row { addr: fs[0].low + 1, line: 0, file: 2 }); } info(Elf { dwarf: Some(Dwarf::new(us)), ..Elf::default() }, "lib.so", false) };
    let l = make(&[f0.clone(), f1.clone()], true); let r = make(&[f2.clone()], both); let s = text(&if choice(2, "order") == 0 { merge(l, r) } else { merge(r, l) }); increasing(&s);
    for f in [&f0, &f1, &f2] { check_fun(&s, f); } for i in 0..s.files.len() { for j in 0..i { check(s.files[i] != s.files[j], "a source file is listed once"); } }
    if z != f0.file && z != f1.file && z != f2.file { reach("unused"); } reach("end");
});
// two symbol tables: same symbol twice is not a conflict, different symbols at one address are
harness!(h_merge_pubs, {
    let a = u(0x2000, 0x2008, "a"); let b = u(0x2000, 0x2008, "b"); let same = choice(2, "same name") == 1;
    let l = info(Elf { syms: vec![func_sym("p", a, 0)], ..Elf::default() }, "lib.so", false);
    let r = info(Elf { syms: vec![func_sym(if same { "p" } else { "q" }, b, 0)], ..Elf::default() }, "lib.so", false);
    let s = text(&merge(l, r)); increasing(&s);
    let x = at(&s, a); let y = at(&s, b); check(x.is_some() && y.is_some(), "symbols survive merging");
    let (x, y) = (x.unwrap(), y.unwrap());
    if a == b { reach("same address"); check(x.multi == !same, "a merged record is marked multiple iff different symbols share its address"); check(x.name == b"p" || (!same && x.name == b"q"), "a merged record keeps the name of one of its symbols"); }
    else { check(!x.multi && !y.multi && x.name == b"p" && y.name == (if same { b"p" } else { b"q" }), "symbols survive merging unchanged"); }
    check(s.recs.len() == if a == b { 2 } else { 3 }, "merging neither loses nor invents records");
    reach("end");
});
// files of different modules are not merged
harness!(h_merge_ids, {
    let mut id = Elf::default().build_id.unwrap(); let k = choice(2, "which byte"); let at_ = if k == 0 { 0 } else { 15 }; id[at_] = u(0, 255, "byte") as u8; let same = id[at_] == Elf::default().build_id.unwrap()[at_];
    let l = info(Elf::default(), "lib.so", false); let r = info(Elf { build_id: Some(id), ..Elf::default() }, "lib.so", false);
    let m = ObjectInfo::merge(l, r);
    if same { reach("same"); check(m.is_ok(), "files of one module are merged"); } else { reach("different"); check(m.is_err(), "files with different debug ids are not merged"); }
    reach("end");
});
// the debug information in two files, and the stripped file: the module has the stripped file's name whatever is merged first
harness!(h_merge_names, {
    let mut v = vec![]; let mut next = 0x2000; for (i, n) in [choice(4, "functions"), choice(4, "functions"), choice(4, "symbols")].into_iter().enumerate() {
        const F: [&str; 3] = ["f0", "f1", "f2"]; let mut fs = vec![]; let mut sy = vec![]; for k in 0..n as usize { if i < 2 { fs.push(Fun { name: F[k], low: next, size: 4, file: 0, line: 3, inl: None }); } else { sy.push(func_sym(F[k], next, 0)); } next += 0x10; }
        v.push(info(if i < 2 { Elf { dwarf: dwarf(&fs), ..Elf::default() } } else { Elf { syms: sy, ..Elf::default() } }, ["a.debug", "b.debug", "lib.so"][i], false)); }
    let r = choice(3, "rotation") as usize; v.rotate_left(r); let c = v.pop().unwrap(); let b = v.pop().unwrap(); let a = v.pop().unwrap();
    let s = text(&if choice(2, "association") == 0 { merge(merge(a, b), c) } else { merge(a, merge(b, c)) }); increasing(&s); check(s.module[3] == b"lib.so", "the merged module is named after the stripped file"); reach("end");
});
