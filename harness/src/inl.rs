//! C02: inline records (inlining requested).
use crate::elf::*;
use crate::lines::{func_at, from, resolve, sorted_lines};
use crate::sym::*;
const FILES: [&str; 3] = ["/c/a.c", "/c/b.c", "/c/d.c"];
fn files() -> Vec<(Vec<u8>, u8)> { vec![(b"a.c".to_vec(), 0), (b"b.c".to_vec(), 0), (b"d.c".to_vec(), 0)] }
/// names of the same length with the same beginning, and one that continues another
pub const ORIG: [&str; 3] = ["inlined_helper_one", "inlined_helper_two", "inlined_helper_one_more"];
/// the inline stack of x according to the debug information, outermost first
fn stack(inl: &[Inl], x: u64, out: &mut Vec<(usize, u64, u8)>) { for i in inl { let mut at = x >= i.low && x < i.low + i.size; for r in &i.more { if x >= r.0 && x < r.0 + r.1 { at = true; } } if at { out.push((i.origin, i.call_line as u64, i.call_file)); stack(&i.kids, x, out); return; } } }
pub fn check_stack(s: &SymFile, f: &Rec, want: &[(usize, u64, u8)], x: u64) {
    let mut depth = 0u64;
    loop {
        let mut n = 0; let mut got = None;
        for i in &f.inls { if i.depth == depth { for r in &i.ranges { if r.0 <= x && x < r.0 + r.1 { n += 1; got = Some(i); } } } }
        if (depth as usize) < want.len() {
            check(n == 1, "exactly one inline record of each depth of the inline stack covers an address");
            let (o, l, fi) = want[depth as usize]; let g = got.unwrap();
            check(g.origin < s.origins.len() as u64, "the origin of an inline record is defined");
            check(s.origins[conc(g.origin) as usize] == ORIG[o].as_bytes(), "name of an inlined function");
            check(g.line == l, "call line of an inlined call");
            check(g.file < s.files.len() as u64, "the call file of an inline record is defined");
            check(s.files[conc(g.file) as usize] == FILES[conc(fi as u64) as usize - 1].as_bytes(), "call file of an inlined call");
        } else { check(n == 0, "no inline record covers an address beyond its inline stack"); }
        depth += 1;
        if depth as usize > want.len() { break; }
    }
    for i in &f.inls { check(i.depth <= 12, "call depth of inline records is within the nesting of the calls"); }
}
pub fn check_leaf(s: &SymFile, f: &Rec, rows: &[Row], x: u64) {
    let mut w = None; for r in rows { if r.addr <= x { w = Some((r.line, r.file)); } } let (wl, wf) = w.unwrap();
    let g = resolve(f, x); check(g.is_some(), "every address covered by a row has a line record"); let (l, id) = g.unwrap();
    check(l == wl, "the line record gives the line of the innermost frame");
    check(id < s.files.len() as u64, "the file id of a line record is defined");
    check(s.files[conc(id) as usize] == FILES[conc(wf as u64) as usize - 1].as_bytes(), "the line record gives the file of the innermost frame");
}
fn run(low: u64, size: u64, rows: Vec<Row>, inl: Vec<Inl>) {
    let elf = Elf { dwarf: Some(Dwarf::new(vec![Unit { files: files(), origins: ORIG.to_vec(), funcs: vec![Func { name: "f", low, size, inl: inl.clone() }], seqs: vec![(rows.clone(), low + size)], ..Unit::default() }])), ..Elf::default() }.build();
    let s = from(&elf, true);
    let x = low + u(0, 15, "x"); assume(x < low + size);
    let f = func_at(&s, low); check(f.len == size, "the FUNC record has the size of the function");
    sorted_lines(f);
    check_leaf(&s, f, &rows, x);
    let mut want = vec![]; stack(&inl, x, &mut want);
    if want.len() == 0 { reach("own"); } else if want.len() == 1 { reach("inlined"); } else { reach("nested"); }
    check_stack(&s, f, &want, x);
    reach("end");
}
fn rows2(low: u64, size: u64) -> Vec<Row> { let m = u(1, 11, "m"); assume(m < size); vec![Row { addr: low, line: u(1, 9, "line"), file: 1 }, Row { addr: low + m, line: u(1, 9, "line"), file: 2 }] }
fn site(o: usize, low: u64, size: u64, kids: Vec<Inl>) -> Inl { Inl { origin: o, low, size, call_file: 1 + choice(2, "call file") as u8, call_line: u(1, 9, "call line") as u32, more: vec![], kids } }
// one inlined call anywhere in the function
harness!(h_inl_one, {
    let low = u(0x2000, 0x2f00, "low"); let size = u(4, 12, "size"); let rows = rows2(low, size);
    let i0 = u(0, 11, "i0"); let il = u(1, 12, "il"); assume(i0 + il <= size);
    let i = site(0, low + i0, il, vec![]); run(low, size, rows, vec![i]);
});
// a call nested in an inlined call; the inner one may start or end together with the outer one
harness!(h_inl_nest, {
    let low = u(0x2000, 0x2f00, "low"); let size = u(4, 12, "size"); let m = u(1, 11, "m"); assume(m < size);
    let rows = vec![Row { addr: low, line: 3, file: 1 }, Row { addr: low + m, line: u(1, 9, "line"), file: 2 }];
    let i0 = u(0, 11, "i0"); let il = u(1, 12, "il"); assume(i0 + il <= size);
    let k0 = u(0, 11, "k0"); let kl = u(1, 12, "kl"); assume(k0 + kl <= il);
    let kid = Inl { origin: 1, low: low + i0 + k0, size: kl, call_file: 3, call_line: u(1, 9, "kid call line") as u32, more: vec![], kids: vec![] };
    let i = Inl { origin: 0, low: low + i0, size: il, call_file: 1, call_line: u(1, 9, "call line") as u32, more: vec![], kids: vec![kid] }; run(low, size, rows, vec![i]);
});
// two calls, possibly adjacent, possibly to the same function from the same place
harness!(h_inl_two, {
    let low = u(0x2000, 0x2f00, "low"); let size = u(4, 12, "size"); let m = u(1, 11, "m"); assume(m < size);
    let rows = vec![Row { addr: low, line: 3, file: 1 }, Row { addr: low + m, line: u(3, 4, "line"), file: if tier() == 1 { 1 + choice(2, "file") as u8 } else { 2 } }];
    let i0 = u(0, 11, "i0"); let il = u(1, 12, "il"); let gap = u(0, 11, "gap"); let jl = u(1, 12, "jl"); assume(i0 + il + gap + jl <= size);
    let a = Inl { origin: 0, low: low + i0, size: il, call_file: 1, call_line: u(1, 2, "call line") as u32, more: vec![], kids: vec![] };
    let b = Inl { origin: choice(2, "origin") as usize, low: low + i0 + il + gap, size: jl, call_file: 1 + choice(2, "call file") as u8, call_line: 1, more: vec![], kids: vec![] };
    let v = if tier() == 0 || choice(2, "order") == 0 { vec![a, b] } else { vec![b, a] };
    run(low, size, rows, v);
});

// an inlined call in two pieces (a list of ranges), the code around and inside it from the same or different lines; another call inside one of the pieces or between them
harness!(h_inl_split, {
    let low = u(0x2000, 0x2f00, "low"); let (i0, a) = (u(0, 2, "start"), u(1, 4, "piece")); let (gap, b) = (u(1, 3, "gap"), u(1, 3, "piece")); let size = i0 + a + gap + b + u(0, 2, "rest");
    let (l1, l2) = (u(3, 4, "line"), u(3, 4, "line")); let kid = choice(3, "inner");
    let rows = vec![Row { addr: low, line: l1, file: 1 }, Row { addr: low + i0 + a, line: l2, file: 1 }, Row { addr: low + i0 + a + gap, line: l1, file: 1 }];
    let k = |low: u64, size: u64| Inl { origin: 1, low, size, call_file: 2, call_line: 7, more: vec![], kids: vec![] };
    let mut v = vec![]; if kid == 2 { v.push(k(low + i0 + a, 1)); }
    v.insert(choice(if kid == 2 { 2 } else { 1 }, "order") as usize, Inl { origin: 0, low: low + i0, size: a, call_file: 1, call_line: u(1, 9, "call line") as u32, more: vec![(low + i0 + a + gap, b)], kids: if kid == 1 { vec![k(low + i0, 1)] } else { vec![] } });
    run(low, size, rows, v);
});
// a chain of nested calls (possibly recursive), each one byte shorter at one of its ends
harness!(h_inl_deep, {
    let low = u(0x2000, 0x2f00, "low"); let d = 1 + choice(4, "depth") as usize; let rec = choice(2, "recursive") == 1;
    let mut g = vec![]; let (mut a, mut e) = (low + 1, low + 11);
    for i in 0..d { g.push((a, e)); if choice(2, "shrink") == 0 { a += 1 } else { e -= 2 } ; let _ = i; }
    let mut cur: Vec<Inl> = vec![];
    for i in (0..d).rev() { cur = vec![Inl { origin: if rec { 0 } else { i % 3 }, low: g[i].0, size: g[i].1 - g[i].0, call_file: 1 + (i % 3) as u8, call_line: u(1, 9, "call line") as u32, more: vec![], kids: cur }]; }
    let rows = vec![Row { addr: low, line: u(1, 9, "line"), file: 1 }, Row { addr: low + 4, line: u(1, 9, "line"), file: 2 }];
    run(low, 12, rows, cur);
});
// a chain of nested calls deeper than anyone writes by hand, of which every level has a byte of its own
harness!(h_inl_chain, {
    let low = u(0x2000, 0x2f00, "low"); let d = 6 + choice(7, "depth"); let rec = choice(3, "names") as u64; let k = choice(6, "which") as u64; let mut cur: Vec<Inl> = vec![]; let end = choice(2, "shrinks at") as u64;
    for i in (0..d).rev() { cur = vec![Inl { origin: if rec == 0 { 0 } else if rec == 1 { (i % 2) as usize } else { (i % 3) as usize }, low: low + 1 + i * (1 - end), size: 14 - i, call_file: 1 + (i % 3) as u8, call_line: if i % 6 == k { u(1, 9, "call line") as u32 } else { 5 }, more: vec![], kids: cur }]; }
    let rows = vec![Row { addr: low, line: 4, file: 1 }, Row { addr: low + 4, line: u(4, 5, "line"), file: 2 }];
    run(low, 15, rows, cur);
});
// many calls side by side: any of three functions from any of two lines of two files
harness!(h_inl_many, {
    let low = u(0x2000, 0x2f00, "low"); let n = if tier() == 1 { 5 } else { 4 }; let mut v = vec![]; let mut a = low;
    let k = choice(n, "which"); 
    for i in 0..n { let gap = if i == k { u(0, 1, "gap") } else { i & 1 }; a += gap; v.push(Inl { origin: if i == k { choice(2, "origin") as usize } else { (i / 2) as usize }, low: a, size: 2, call_file: if i == k { 1 + choice(2, "call file") as u8 } else { 1 }, call_line: u(4, 5, "call line") as u32, more: vec![], kids: vec![] }); a += 2; }
    let rows = vec![Row { addr: low, line: 4, file: 1 }, Row { addr: low + 5, line: u(4, 5, "line"), file: 1 }];
    run(low, 15, rows, v);
});
// large functions, high addresses and large line numbers
harness!(h_inl_big, {
    let low = u(0x8000_0000, 0x8fff_ffff, "low"); let i0 = u(0x100_0000, 0xfff_ffff, "i0"); let il = u(0x100_0000, 0xfff_ffff, "il"); let rest = u(0x100_0000, 0xfff_ffff, "rest");
    let size = i0 + il + rest; assume(size <= 0xfff_ffff);
    let cl = u(100_000, 999_999, "call line"); let l = u(10_000_000, 99_999_999, "line");
    let inl = Inl { origin: 0, low: low + i0, size: il, call_file: 2, call_line: cl as u32, more: vec![], kids: vec![] };
    let rows = vec![Row { addr: low, line: l, file: 1 }];
    let elf = Elf { dwarf: Some(Dwarf::new(vec![Unit { files: files(), origins: ORIG.to_vec(), funcs: vec![Func { name: "f", low, size, inl: vec![inl] }], seqs: vec![(rows, low + size)], high: 0xf000_0000, ..Unit::default() }])), text: (0x7000_0000, 0x4000_0000), ..Elf::default() }.build();
    let s = from(&elf, true); let f = func_at(&s, low); check(f.len == size, "the FUNC record has the size of the function"); sorted_lines(f);
    check(f.inls.len() == 1 && f.inls[0].ranges.len() == 1 && f.inls[0].ranges[0] == (low + i0, il) && f.inls[0].depth == 0, "an inlined call has one inline record with its address range");
    check(f.inls[0].text == cl.to_string().into_bytes(), "call line of an inlined call");
    check(s.files[conc(f.inls[0].file) as usize] == b"/c/b.c" && s.origins[conc(f.inls[0].origin) as usize] == ORIG[0].as_bytes(), "call file and name of an inlined call");
    let x = low + u(0, 0x1fff_ffff, "x"); assume(x < low + size);
    let mut n = 0; for r in &f.lines { if r.rva <= x && x < r.rva + r.len { n += 1; check(r.text == (l as u32).to_string().into_bytes() && s.files[conc(r.file) as usize] == b"/c/a.c", "the line record gives the position of the innermost frame"); } }
    check(n == 1, "every address covered by a row has a line record");
    reach("end");
});
// two functions (of one unit or two) with inlined calls of the same or different functions: one origin per name, each record refers to its own
harness!(h_inl_units, {
    let l1 = u(0x2000, 0x2f00, "low"); let l2 = l1 + 8; let units = choice(2, "units") == 1;
    let (o1, o2) = (choice(2, "origin") as usize, choice(2, "origin") as usize); let (c1, c2) = (u(1, 9, "call line"), u(1, 9, "call line"));
    let mk = |name: &'static str, low: u64, o: usize, c: u64| Func { name, low, size: 8, inl: vec![Inl { origin: o, low: low + 2, size: 3, call_file: 2, call_line: c as u32, more: vec![], kids: vec![] }] };
    let (f1, f2) = (mk("f", l1, o1, c1), mk("g", l2, o2, c2));
    let row = |low: u64, line: u64| (vec![Row { addr: low, line, file: 1 }], low + 8);
    let (r1, r2) = (u(1, 9, "line"), u(1, 9, "line"));
    let un = |fs: Vec<Func>, seqs| Unit { files: files(), origins: ORIG.to_vec(), funcs: fs, seqs, ..Unit::default() };
    let us = if units { vec![un(vec![f1.clone()], vec![row(l1, r1)]), un(vec![f2.clone()], vec![row(l2, r2)])] } else { vec![un(vec![f1.clone(), f2.clone()], vec![row(l1, r1), row(l2, r2)])] };
    let elf = Elf { dwarf: Some(Dwarf::new(us)), ..Elf::default() }.build();
    let s = from(&elf, true);
    check(s.origins.len() == if o1 == o2 { 1 } else { 2 }, "each inlined function has one INLINE_ORIGIN record");
    for (f, r) in [(&f1, r1), (&f2, r2)] {
        let q = func_at(&s, f.low); sorted_lines(q); let x = f.low + u(0, 7, "x");
        check_leaf(&s, q, &[Row { addr: f.low, line: r, file: 1 }], x);
        let mut want = vec![]; stack(&f.inl, x, &mut want); check_stack(&s, q, &want, x);
    }
    reach("end");
});
