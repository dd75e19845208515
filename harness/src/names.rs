//! C06: Windows decorated names, skipped symbols, compiler suffixes; C10: any name keeps the record syntax intact.
use crate::elf::*;
use crate::sym::*;
use crate::syms::{at, increasing};
use dump_syms::object_info::ObjectInfo;
use dump_syms::platform::Platform;

fn load(elf: &[u8], p: Platform, inl: bool) -> SymFile {
    let t = dump(&ObjectInfo::from_elf(elf, "lib.so", p, None, inl).unwrap());
    if !is_symbolic() && std::env::var("VH_SHOW").is_ok() { eprintln!("{}", String::from_utf8_lossy(&t)); }
    parse(&t)
}
fn fsym(name: &[u8], value: u64, size: u64) -> ElfSym { ElfSym { name: name.to_vec(), value, size, info: 0x12, shndx: 1 } }
fn unit(name: &'static str, low: u64, size: u64) -> Option<Dwarf> { Some(Dwarf::new(vec![Unit { files: vec![(b"a.c".to_vec(), 0)], funcs: vec![Func { name, low, size, inl: vec![] }], ..Unit::default() }])) }
fn number(b: &[u8]) -> Option<u64> { if b.is_empty() { return None; } let mut v = 0u64; for &c in b { if !c.is_ascii_digit() { return None; } v = v * 10 + (c - b'0') as u64; } if v > u32::MAX as u64 { None } else { Some(v) } }
/// the documented decoration rules: (name, size of the parameters)
pub fn decorated(n: &[u8]) -> (Vec<u8>, u64) {
    for c in n { if *c == b':' || *c == b'(' { return (n.to_vec(), 0); } }
    let mut i = n.len(); while i >= 2 { if n[i - 2] == b'@' && n[i - 1] == b'@' { if let Some(v) = number(&n[i..]) { return (n[..i - 2].to_vec(), v); } break; } i -= 1; }
    if !n.is_empty() && (n[0] == b'@' || n[0] == b'_') {
        let mut i = n.len(); while i >= 2 { if n[i - 1] == b'@' { if let Some(v) = number(&n[i..]) { return (n[1..i - 1].to_vec(), v); } break; } i -= 1; }
        if n[0] == b'_' { return (n[1..].to_vec(), 0); }
    }
    (n.to_vec(), 0)
}
/// letters, digits and the punctuation that decorations are made of
pub fn plain(n: &[u8]) { for c in n { assume((*c >= b'a' && *c <= b'z') || (*c >= b'0' && *c <= b'9') || *c == b'_' || *c == b'@' || *c == b':' || *c == b'('); } }
fn symbol_on_win(n: Vec<u8>) {
    let a = 0x2000u64; let s = load(&Elf { syms: vec![fsym(&n, a, 4)], ..Elf::default() }.build(), Platform::Win, false);
    let (name, param) = decorated(&n);
    let r = at(&s, a); check(r.is_some(), "a symbol has a record"); let r = r.unwrap();
    check(r.name == name, "a decorated name loses its decoration"); check(r.param == param, "the parameter size comes from the decoration");
    check(s.recs.len() == 2, "nothing else is recorded");
    reach("end");
}
harness!(h_win_any, { let n = bytes(1 + choice(if tier() == 1 { 5 } else { 4 }, "n") as usize, "name"); plain(&n); symbol_on_win(n) });
// every kind of decoration, with a longer number
harness!(h_win_deco, {
    let k = choice(5, "kind"); let mut n = match k { 0 => b"_a".to_vec(), 1 => b"@a".to_vec(), 2 => b"a".to_vec(), 3 => b"_".to_vec(), _ => b"@".to_vec() };
    let x = bytes(1, "x"); plain(&x); n.extend_from_slice(&x); if choice(2, "more") == 1 { n.push(b'b'); } n.extend_from_slice(if choice(2, "double") == 1 { b"@@" } else { b"@" });
    n.extend_from_slice([&b""[..], b"0", b"10", b"4294967", b"42949672", b"99999999"][choice(6, "number") as usize]);
    let d = choice(3, "digits") + 1; for _ in 0..d { n.push(u(b'0' as u64, b'9' as u64, "d") as u8); }
    symbol_on_win(n)
});
// names which are not ASCII, in any place
harness!(h_win_utf8, {
    let mut n = vec![]; let k = choice(3, "place"); let c = u(0x80, 0xbf, "c") as u8; let x = bytes(2, "x"); plain(&x);
    for i in 0..3 { if i == k { n.push(0xc3); n.push(c); } else { n.push(x[if i > k { i as usize - 1 } else { i as usize }]); } }
    symbol_on_win(n)
});
// elsewhere names are kept
harness!(h_win_not, { let n = bytes(1 + choice(4, "n") as usize, "name"); plain(&n); assume(n[0] != b'_');
    let s = load(&Elf { syms: vec![fsym(&n, 0x2000, 4)], ..Elf::default() }.build(), Platform::Mac, false); let r = at(&s, 0x2000); check(r.is_some(), "a symbol has a record"); let r = r.unwrap();
    check(r.name == n && r.param == 0, "names are not taken as decorated elsewhere"); reach("end"); });
// a function with debug information takes its name and parameter size from the symbol at its address
harness!(h_win_func, {
    let paren = choice(2, "described with parameters") == 1; let f: &'static str = if paren { "f(int)" } else { "f" };
    let v = u(0x1ffc, 0x2006, "v"); let k = choice(4, "n") as usize; let n = if k < 3 { let n = bytes(1 + k, "name"); plain(&n); n } else { let mut n = [&b"_g@"[..], b"@g@", b"g@@", b"_g(@"][choice(4, "kind") as usize].to_vec(); n.extend_from_slice([&b""[..], b"102", b"9999", b"429496729"][choice(4, "number") as usize]); n.push(u(b'0' as u64, b'9' as u64, "d") as u8); n }; let (name, param) = decorated(&n);
    let s = load(&Elf { syms: vec![fsym(&n, v, 2)], dwarf: unit(f, 0x2000, 4), ..Elf::default() }.build(), Platform::Win, false); increasing(&s);
    let r = at(&s, 0x2000); check(r.is_some(), "a function has a record"); let r = r.unwrap(); check(!r.public && r.len == 4, "a function has a FUNC record");
    if v == 0x2000 { reach("same"); check(r.param == param, "a FUNC record has the parameter size of the symbol at its address"); check(r.name == name || (paren && r.name == f.as_bytes()), "a FUNC record has the name of the symbol at its address, unless its own has parameters"); check(!r.multi, "one symbol and one function at an address are not several"); }
    else { check(r.name == f.as_bytes() && r.param == 0, "a FUNC record does not change for a symbol elsewhere"); if v > 0x2000 && v < 0x2004 { check(at(&s, v).is_none(), "a symbol inside a function gets no record"); } else { let q = at(&s, v); check(q.is_some(), "a symbol has a record"); let q = q.unwrap(); check(q.public && q.name == name && q.param == param, "a symbol has a PUBLIC record with its undecorated name"); } }
    reach("end");
});
// literals and constants are never symbols
harness!(h_win_skip, {
    const P: [&str; 4] = ["??_C", "__real@", "__xmm@", "__ymm@"]; let k = choice(4, "prefix") as usize; let mut n = P[k].as_bytes().to_vec();
    let m = choice(4, "changed") as usize; let whole = m == 0; if !whole { let i = n.len() - m; let c = u(b'a' as u64, b'z' as u64, "c") as u8; assume(c != n[i]); n[i] = c; if k == 0 && i < 2 { n[0] = b'a'; } }
    if k == 0 && !whole { n[0] = b'a'; }
    let t = bytes(choice(3, "n") as usize, "tail"); plain(&t); n.extend_from_slice(&t);
    let p = if choice(2, "windows") == 1 { Platform::Win } else { Platform::Mac };
    let s = load(&Elf { syms: vec![fsym(&n, 0x2000, 4), fsym(b"other", 0x2002, 4)], ..Elf::default() }.build(), p, false);
    if whole { check(at(&s, 0x2000).is_none(), "literals and constants get no record"); let o = at(&s, 0x2002); check(o.is_some() && o.unwrap().name == b"other", "literals and constants hide nothing"); }
    else { check(at(&s, 0x2000).is_some(), "a symbol which is not a literal or a constant has a record"); }
    reach("end");
});
// what the compiler appends to a name is removed, what the programmer wrote is not
harness!(h_suffix, {
    let cnt = choice(if tier() == 1 { 4 } else { 3 }, "suffixes"); let free = cnt < 2;
    let mut n = b"fu".to_vec(); n.push(if free { u(b'a' as u64, b'z' as u64, "c") as u8 } else { b'n' }); let mut keep = n.len();
    const K: [&str; 8] = [".cold", ".constprop", ".llvm", ".localalias", ".lto_priv", ".isra", ".part", ".str"]; const X: [&str; 7] = [".foo", ".colder", "[clone]x", "_cold", ".7x", ".cold.", ".isra.0."];
    for _ in 0..cnt {
        let t = choice(17, "suffix") as usize;
        if t < 8 { n.extend_from_slice(K[t].as_bytes()); if choice(2, "numbered") == 1 { n.push(b'.'); n.push(u(b'0' as u64, b'9' as u64, "d") as u8); if t == 2 { n.push(u(b'0' as u64, b'9' as u64, "d") as u8); } } }
        else if t < 10 { n.extend_from_slice(if t == 8 { b" [clone ." } else { b"[clone ." }); n.push(if free { u(b'a' as u64, b'z' as u64, "d") as u8 } else { b'c' }); n.push(b']'); }
        else { n.extend_from_slice(X[t - 10].as_bytes()); keep = n.len(); }
    }
    let leak: &'static str = Box::leak(unsafe { String::from_utf8_unchecked(n.clone()) }.into_boxed_str());
    let inl = choice(2, "inlined") == 1;
    let s = if inl { load(&Elf { dwarf: Some(Dwarf::new(vec![Unit { files: vec![(b"a.c".to_vec(), 0)], origins: vec![leak], funcs: vec![Func { name: "f", low: 0x2000, size: 4, inl: vec![Inl { origin: 0, low: 0x2001, size: 2, call_file: 1, call_line: 5, more: vec![], kids: vec![] }] }], seqs: vec![(vec![Row { addr: 0x2000, line: 1, file: 1 }], 0x2004)], ..Unit::default() }])), ..Elf::default() }.build(), Platform::Mac, true) }
            else { load(&Elf { dwarf: unit(leak, 0x2000, 4), ..Elf::default() }.build(), Platform::Mac, false) };
    if inl { check(s.origins.len() == 1 && s.origins[0] == n[..keep], "an inlined function's name loses what the compiler appended, and nothing else"); }
    else { let r = at(&s, 0x2000); check(r.is_some() && r.unwrap().name == n[..keep], "a function's name loses what the compiler appended, and nothing else"); }
    reach("end");
});
// ---- C10 ----
/// three arbitrary bytes (NUL ends a string in the file) inside a name
pub fn odd(k: usize) -> Vec<u8> { let v = bytes(k, "odd"); for c in &v { assume(*c != 0); } let mut n = b"n".to_vec(); n.extend_from_slice(&v); n.push(b'z'); n }
pub fn leak(v: Vec<u8>) -> &'static str { Box::leak(unsafe { String::from_utf8_unchecked(v) }.into_boxed_str()) }
fn odd_unit(which: u64, k: usize) -> Unit {
    let mut un = Unit { comp_dir: b"/s".to_vec(), dirs: vec![b"d".to_vec()], files: vec![(b"a.c".to_vec(), 1)], origins: vec!["o"], funcs: vec![Func { name: "f", low: 0x2000, size: 4, inl: vec![Inl { origin: 0, low: 0x2001, size: 2, call_file: 1, call_line: 5, more: vec![], kids: vec![] }] }, Func { name: "g", low: 0x2008, size: 4, inl: vec![] }], seqs: vec![(vec![Row { addr: 0x2000, line: 1, file: 1 }, Row { addr: 0x2008, line: 2, file: 1 }], 0x200c)], ..Unit::default() };
    match which { 0 => un.funcs[0].name = leak(odd(k)), 1 => un.origins[0] = leak(odd(k)), 2 => un.files[0].0 = odd(k), 3 => un.dirs[0] = odd(k), _ => { un.comp_dir = b"/".to_vec(); un.comp_dir.extend_from_slice(&odd(k)); } }
    un
}
fn shape(s: &SymFile, inl: bool) {
    check(s.files.len() == 1 && s.origins.len() == inl as usize, "one FILE record per file and one INLINE_ORIGIN record per inlined function");
    check(s.recs.len() == 3, "one record per function");
    let f = at(s, 0x2000); check(f.is_some(), "a function has a record"); let f = f.unwrap(); check(!f.public && f.len == 4 && f.inls.len() == inl as usize, "a function keeps its size and inlined calls");
    let mut n = 0; for l in &f.lines { check(l.rva >= 0x2000 && l.rva + l.len <= 0x2004 && l.file == 0, "line records stay within the function"); n += l.len; } check(n == if inl { 2 + 2 } else { 4 }, "the lines cover the function");
    let g = at(s, 0x2008); check(g.is_some(), "a function has a record"); let g = g.unwrap(); check(!g.public && g.len == 4 && g.name == b"g" && g.lines.len() == 1 && g.lines[0].num == 2, "the function after it keeps its name and lines");
    for l in s.recs.iter().map(|r| &r.name).chain(&s.files).chain(&s.origins).chain(&s.module) { for c in l { check(*c >= b' ' && *c != 0x7f, "no control characters in a record"); } }
}
fn odd_dwarf(which: u64) { let inl = choice(2, "inlines") == 1; let s = load(&Elf { dwarf: Some(Dwarf::new(vec![odd_unit(which, 2)])), ..Elf::default() }.build(), Platform::Mac, inl); shape(&s, inl); reach("end"); }
harness!(h_odd_func, { odd_dwarf(0) });
harness!(h_odd_origin, { odd_dwarf(1) });
harness!(h_odd_file, { odd_dwarf(2) });
harness!(h_odd_dir, { odd_dwarf(3) });
harness!(h_odd_comp, { odd_dwarf(4) });
/// the string tables of an ELF file are read only if they are UTF-8
fn utf(n: Vec<u8>) -> Vec<u8> { assume((n[1] < 0x80 && n[2] < 0x80) || (n[1] >= 0xc2 && n[1] < 0xe0 && n[2] >= 0x80 && n[2] < 0xc0)); n }
// symbols, the library's own name, the file's name, a section's name
harness!(h_odd_elf, {
    let which = choice(4, "which"); let win = choice(2, "windows") == 1; let k = 2;
    let mut e = Elf { syms: vec![fsym(b"s", 0x2000, 4), fsym(b"t", 0x2004, 4)], ..Elf::default() }; let mut fname = "lib.so".to_string();
    match which { 0 => e.syms[0].name = utf(odd(k)), 1 => e.soname = Some(utf(odd(k))), 2 => { let v = odd(k); for c in &v { assume(*c < 0x80); } fname = unsafe { String::from_utf8_unchecked(v) } } _ => e.extra.push(Sec { name: leak({ let v = odd(k); for c in &v { assume(*c < 0x80); } v }), ty: 8, flags: 6, addr: 0x3000, data: vec![], link: 0, info: 0, ent: 0, size: Some(16) }) }
    let t = dump(&ObjectInfo::from_elf(&e.build(), &fname, if win { Platform::Win } else { Platform::Mac }, None, false).unwrap());
    if !is_symbolic() && std::env::var("VH_SHOW").is_ok() { eprintln!("{}", String::from_utf8_lossy(&t)); }
    let s = parse(&t); increasing(&s);
    check(s.module.len() == 4 && s.infos.len() == 1 && s.recs.len() == if which == 3 { 4 } else { 3 }, "one record per symbol");
    let r = at(&s, 0x2004); check(r.is_some() && r.unwrap().name == b"t", "the next symbol keeps its name"); let r = at(&s, 0x2000); check(r.is_some() && r.unwrap().public, "a symbol has a PUBLIC record");
    for l in s.recs.iter().map(|r| &r.name).chain(&s.module) { for c in l { check(*c >= b' ' && *c != 0x7f, "no control characters in a record"); } }
    reach("end");
});
// an inlined function without a name, or whose name is made of white space: its record has a name nevertheless
harness!(h_odd_blank, {
    let n = bytes(choice(4, "n") as usize, "name"); for c in &n { assume(*c == b' ' || *c == b'\t' || *c == b'\n' || *c == b'\r' || *c == b'a'); } let plat = if choice(2, "windows") == 1 { Platform::Win } else { Platform::Mac };
    let mut un = odd_unit(9, 0); un.comp_dir = b"/s".to_vec(); un.origins[0] = leak(n.clone()); let s = load(&Elf { dwarf: Some(Dwarf::new(vec![un])), ..Elf::default() }.build(), plat, true);
    let mut w = n; w.retain(|c| *c >= b' '); let mut blank = true; for c in &w { blank &= *c == b' '; }
    check(s.origins.len() == 1, "an inlined function has one INLINE_ORIGIN record"); if blank { reach("omitted"); check(s.origins[0] == b"<name omitted>", "a name is never left out"); } else { check(s.origins[0] == w, "a name keeps its other characters"); }
    reach("end");
});
