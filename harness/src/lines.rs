//! C01: line records (inlining not requested).
use crate::elf::*;
use crate::sym::*;
use dump_syms::object_info::ObjectInfo;
use dump_syms::platform::Platform;

/// What the line records of a FUNC say about address x: (line, file id); also checks that at most one record covers it.
pub fn resolve(f: &Rec, x: u64) -> Option<(u64, u64)> {
    let mut r = None;
    for l in &f.lines { if l.rva <= x && x < l.rva + l.len { check(r.is_none(), "line records of a function do not overlap"); r = Some((l.num, l.file)); } }
    r
}
pub fn sorted_lines(f: &Rec) { for w in f.lines.windows(2) { check(w[0].rva <= w[1].rva, "line records are sorted by address"); } }
pub fn func_at<'a>(s: &'a SymFile, a: u64) -> &'a Rec {
    let mut r = None;
    for f in &s.recs { if !f.public && f.rva == a { check(r.is_none(), "one FUNC per address"); r = Some(f); } }
    check(r.is_some(), "every function of the debug information has a FUNC record"); r.unwrap()
}
pub fn from(elf: &[u8], inl: bool) -> SymFile {
    let o = ObjectInfo::from_elf(elf, "lib.so", Platform::Mac, None, inl).unwrap();
    let t = dump(&o);
    if !is_symbolic() && std::env::var("VH_SHOW").is_ok() { eprintln!("{}", String::from_utf8_lossy(&t)); }
    parse(&t)
}
/// the debug information's answer: the last row at or before x inside the function, ignoring rows without a line
fn oracle(rows: &[Row], low: u64, x: u64) -> Option<(u64, u8)> {
    let mut r = None;
    for w in rows { if w.addr >= low && w.addr <= x && w.line != 0 { r = Some((w.line, w.file)); } }
    r
}
pub const FILES: [&str; 3] = ["/c/a.c", "/c/b.c", "/c/d.c"];
fn files() -> Vec<(Vec<u8>, u8)> { vec![(b"a.c".to_vec(), 0), (b"b.c".to_vec(), 0), (b"d.c".to_vec(), 0)] }
pub fn check_at(s: &SymFile, rows: &[Row], low: u64, size: u64, x: u64) {
    let f = func_at(s, low);
    check(f.len == size, "the FUNC record has the size of the function");
    sorted_lines(f);
    let got = resolve(f, x); let want = oracle(rows, low, x);
    match (got, want) {
        (None, None) => reach("no line"),
        (Some((l, id)), Some((wl, wf))) => {
            check(l == wl, "line number of an address is that of the covering row");
            check(id < s.files.len() as u64, "the file id of a line record is defined");
            check(s.files[conc(id) as usize] == FILES[conc(wf as u64) as usize - 1].as_bytes(), "source file of an address is that of the covering row");
            reach("line");
        }
        (Some(_), None) => check(false, "an address without a source line has no line record"),
        (None, Some(_)) => check(false, "an address with a source line has a line record"),
    }
}
/// one function, rows anywhere relative to it, lines may be missing (0), duplicates addresses
fn one(n: usize, gap: u64) {
    let low = u(0x2000, 0x2f00, "low");
    let mut rows = vec![]; let mut a = low;
    for i in 0..n {
        if i > 0 { a += u(1, gap, "gap"); }
        rows.push(Row { addr: a, line: u(0, 9, "line"), file: 1 + choice(if i == 0 { 1 } else { 2 }, "file") as u8 });
    }
    let end = a + u(1, gap, "gap");
    let size = u(1, 15, "size"); assume(low + size <= end);
    let elf = Elf { dwarf: Some(Dwarf::new(vec![Unit { files: files(), funcs: vec![Func { name: "f", low, size, inl: vec![] }], seqs: vec![(rows.clone(), end)], ..Unit::default() }])), ..Elf::default() }.build();
    let s = from(&elf, false);
    let x = low + u(0, 15, "x"); assume(x < low + size);
    check_at(&s, &rows, low, size, x);
    reach("end");
}
harness!(h_lines_one, { one(if tier() == 1 { 4 } else { 3 }, 4) });
// two adjacent or separate functions of one unit, in either order in the line program (one sequence each or a shared one)
harness!(h_lines_two, {
    let l1 = u(0x2000, 0x2f00, "low"); let s1 = u(1, 6, "s1"); let shared = choice(2, "shared sequence") == 1; let hole = u(0, if shared { 0 } else { 3 }, "hole");
    let l2 = l1 + s1 + hole; let s2 = u(1, 6, "s2");
    let f1 = choice(2, "file") as u8 + 1;
    let m1 = u(1, 5, "m1"); assume(m1 < s1);
    let m2 = u(1, 5, "m2"); assume(m2 < s2);
    let r1 = vec![Row { addr: l1, line: u(0, 9, "line"), file: 1 }, Row { addr: l1 + m1, line: u(1, 9, "line"), file: 2 }];
    let r2 = vec![Row { addr: l2, line: u(0, 9, "line"), file: f1 }, Row { addr: l2 + m2, line: u(1, 9, "line"), file: 3 }];
    let seqs = if shared { let mut r = r1.clone(); r.extend(r2.clone()); vec![(r, l2 + s2)] } else if choice(2, "order") == 0 { vec![(r1.clone(), l1 + s1), (r2.clone(), l2 + s2)] } else { vec![(r2.clone(), l2 + s2), (r1.clone(), l1 + s1)] };
    let fs = vec![Func { name: "f", low: l1, size: s1, inl: vec![] }, Func { name: "g", low: l2, size: s2, inl: vec![] }];
    let fs = if choice(2, "die order") == 0 { fs } else { fs.into_iter().rev().collect() };
    let elf = Elf { dwarf: Some(Dwarf::new(vec![Unit { files: files(), funcs: fs, seqs, ..Unit::default() }])), ..Elf::default() }.build();
    let s = from(&elf, false);
    let x = l1 + u(0, 20, "x");
    if x < l1 + s1 { check_at(&s, &r1, l1, s1, x); } else { assume(x >= l2 && x < l2 + s2); check_at(&s, &r2, l2, s2, x); }
    reach("end");
});
// two units, each with its own files and line program
harness!(h_lines_units, {
    let l1 = u(0x2000, 0x2f00, "low"); let s1 = u(2, 6, "s1"); let l2 = l1 + s1; let s2 = u(2, 6, "s2");
    let m1 = u(1, 5, "m1"); assume(m1 < s1);
    let r1 = vec![Row { addr: l1, line: u(1, 9, "line"), file: 1 }, Row { addr: l1 + m1, line: u(1, 9, "line"), file: 2 }];
    let r2 = vec![Row { addr: l2, line: u(1, 9, "line"), file: 1 }];
    let u1 = Unit { files: vec![(b"a.c".to_vec(), 0), (b"b.c".to_vec(), 0)], funcs: vec![Func { name: "f", low: l1, size: s1, inl: vec![] }], seqs: vec![(r1.clone(), l1 + s1)], ..Unit::default() };
    let k = choice(3, "second unit's file");
    let u2 = Unit { files: vec![(files()[k as usize].0.clone(), 0)], funcs: vec![Func { name: "g", low: l2, size: s2, inl: vec![] }], seqs: vec![(r2.clone(), l2 + s2)], ..Unit::default() };
    let us = if choice(2, "unit order") == 0 { vec![u1, u2] } else { vec![u2, u1] };
    let elf = Elf { dwarf: Some(Dwarf::new(us)), ..Elf::default() }.build();
    let s = from(&elf, false);
    let r2: Vec<Row> = r2.into_iter().map(|r| Row { file: k as u8 + 1, ..r }).collect();
    let x = l1 + u(0, 20, "x");
    if x < l1 + s1 { check_at(&s, &r1, l1, s1, x); } else { assume(x < l2 + s2); check_at(&s, &r2, l2, s2, x); }
    reach("end");
});
// large functions, high addresses and large line numbers
harness!(h_lines_big, {
    let low = u(0x8000_0000, 0x8fff_ffff, "low"); let g1 = u(0x100_0000, 0xfff_ffff, "gap"); let g2 = u(0x100_0000, 0xfff_ffff, "gap");
    let rows = vec![Row { addr: low, line: u(10_000, 99_999, "line"), file: 1 }, Row { addr: low + g1, line: u(10_000_000, 99_999_999, "line"), file: 2 }];
    let size = g1 + g2; assume(size <= 0xfff_ffff && size >= 0x100_0000);
    let elf = Elf { dwarf: Some(Dwarf::new(vec![Unit { files: files(), funcs: vec![Func { name: "f", low, size, inl: vec![] }], seqs: vec![(rows.clone(), low + size)], high: 0xf000_0000, ..Unit::default() }])), text: (0x7000_0000, 0x4000_0000), ..Elf::default() }.build();
    let s = from(&elf, false);
    let x = low + u(0, 0x1fff_ffff, "x"); assume(x < low + size);
    let f = func_at(&s, low); check(f.len == size, "the FUNC record has the size of the function"); sorted_lines(f);
    let w = if x < low + g1 { &rows[0] } else { &rows[1] };
    let mut n = 0;
    for l in &f.lines { if l.rva <= x && x < l.rva + l.len { n += 1;
        // compared as text: inverting the decimal conversion of large numbers is hard for the solver
        check(l.text == (w.line as u32).to_string().into_bytes(), "line number of an address is that of the covering row");
        check(s.files[conc(l.file) as usize] == FILES[w.file as usize - 1].as_bytes(), "source file of an address is that of the covering row"); } }
    check(n == 1, "an address with a source line has one line record");
    reach("end");
});
// inlined calls are attributed to their call site when inlining information is not requested
harness!(h_lines_inl, {
    let low = u(0x2000, 0x2f00, "low"); let size = u(4, 12, "size");
    let m = u(1, 11, "m"); assume(m < size);
    let i0 = u(0, 11, "i0"); let il = u(1, 12, "il"); assume(i0 + il <= size);
    let cl = u(1, 9, "call line"); let cf = 1 + choice(2, "call file") as u8;
    let rows = vec![Row { addr: low, line: u(1, 9, "line"), file: 1 }, Row { addr: low + m, line: u(1, 9, "line"), file: 3 }];
    let nested = choice(2, "nested") == 1;
    let kids = if nested { vec![Inl { origin: 1, low: low + i0, size: 1, call_file: 3, call_line: 5, more: vec![], kids: vec![] }] } else { vec![] };
    let inl = Inl { origin: 0, low: low + i0, size: il, call_file: cf, call_line: cl as u32, more: vec![], kids };
    let elf = Elf { dwarf: Some(Dwarf::new(vec![Unit { files: files(), origins: crate::inl::ORIG.to_vec(), funcs: vec![Func { name: "f", low, size, inl: vec![inl] }], seqs: vec![(rows.clone(), low + size)], ..Unit::default() }])), ..Elf::default() }.build();
    let s = from(&elf, false);
    let x = low + u(0, 11, "x"); assume(x < low + size);
    let f = func_at(&s, low);
    sorted_lines(f);
    check(f.inls.is_empty() && s.origins.is_empty(), "no inline records when they are not requested");
    let inside = x >= low + i0 && x < low + i0 + il;
    let (wl, wf) = if inside { reach("inlined"); (cl, cf) } else { reach("own"); oracle(&rows, low, x).unwrap() };
    let got = resolve(f, x); check(got.is_some(), "an address with a source line has a line record");
    let (l, id) = got.unwrap();
    check(l == wl, "line of an address (the call site's inside inlined code)");
    check(s.files[conc(id) as usize] == FILES[conc(wf as u64) as usize - 1].as_bytes(), "file of an address (the call site's inside inlined code)");
    reach("end");
});

// many rows and files; one row has a symbolic line and file, and functions may start or end in the middle of a row's range
harness!(h_lines_many, {
    let base = u(0x2000, 0x2f00, "low"); let n = if tier() == 1 { 24u64 } else { 12 };
    const M: [&str; 8] = ["/c/f0.c", "/c/f1.c", "/c/f2.c", "/c/f3.c", "/c/f4.c", "/c/f5.c", "/c/f6.c", "/c/f7.c"];
    let k = u(0, n - 1, "which"); let (kl, kf) = (u(0, 9, "line"), choice(3, "file"));
    let mut rows = vec![]; for i in 0..n { let it = conc((i == k) as u64) == 1; rows.push(Row { addr: base + 4 * i, line: if it { kl } else { 1 + i / 3 }, file: 1 + if it { kf } else { i / 2 % 8 } as u8 }); }
    let cut = [2, 4 * (n / 2), 4 * (n / 2) + 3][choice(3, "cut") as usize]; // two functions share the sequence
    let fs = vec![Func { name: "f", low: base, size: cut, inl: vec![] }, Func { name: "g", low: base + cut, size: 4 * n - cut, inl: vec![] }];
    let elf = Elf { dwarf: Some(Dwarf::new(vec![Unit { files: M.iter().map(|m| (m[3..].as_bytes().to_vec(), 0)).collect(), funcs: fs, seqs: vec![(rows.clone(), base + 4 * n)], ..Unit::default() }])), ..Elf::default() }.build();
    let s = from(&elf, false);
    for (i, f) in s.files.iter().enumerate() { for g in &s.files[..i] { check(f != g, "a source file is listed once"); } }
    let x = u(0, 4 * n - 1, "x"); let xi = conc(x / 4) as usize;
    let f = func_at(&s, if x < cut { base } else { base + cut }); sorted_lines(f);
    match resolve(f, base + x) {
        None => { check(rows[xi].line == 0 || cut > 4 * xi as u64, "an address with a source line has a line record"); }
        Some((l, id)) => if rows[xi].line != 0 {
            check(l == rows[xi].line, "line number of an address is that of the covering row");
            check(id < s.files.len() as u64, "the file id of a line record is defined");
            check(s.files[conc(id) as usize] == M[rows[xi].file as usize - 1].as_bytes(), "source file of an address is that of the covering row"); reach("line"); }
    }
    reach("end");
});
