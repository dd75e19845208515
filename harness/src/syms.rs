//! C03: which FUNC and PUBLIC records there are.
use crate::elf::*;
use crate::sym::*;
use dump_syms::object_info::ObjectInfo;
use dump_syms::platform::Platform;

pub fn load(elf: &[u8], p: Platform) -> SymFile {
    let o = ObjectInfo::from_elf(elf, "lib.so", p, None, false).unwrap();
    let t = dump(&o);
    if !is_symbolic() && std::env::var("VH_SHOW").is_ok() { eprintln!("{}", String::from_utf8_lossy(&t)); }
    parse(&t)
}
pub fn increasing(s: &SymFile) { for w in s.recs.windows(2) { check(w[0].rva < w[1].rva, "records are in strictly increasing address order, one per address"); } }
pub fn at<'a>(s: &'a SymFile, a: u64) -> Option<&'a Rec> { for r in &s.recs { if r.rva == a { return Some(r); } } None }
const N: [&str; 4] = ["s0", "s1", "s2", "s3"];
fn unit(funcs: Vec<Func>) -> Option<Dwarf> { Some(Dwarf::new(vec![Unit { files: vec![(b"a.c".to_vec(), 0)], funcs, ..Unit::default() }])) }
/// f functions with debug information and k symbols, at arbitrary addresses
fn run(nf: usize, ns: usize, span: u64) { run2(nf, ns, span, 4, 4) }
fn run2(nf: usize, ns: usize, span: u64, maxf: u64, maxs: u64) {
    let base = 0x2000u64; let mut funcs = vec![]; let mut a = base;
    const FN: [&str; 3] = ["f0", "f1", "f2"];
    for i in 0..nf { a += u(0, maxf, "hole"); let size = u(1, maxf, "size"); funcs.push(Func { name: FN[i], low: a, size, inl: vec![] }); a += size; }
    let mut syms = vec![]; let mut addrs = vec![];
    for i in 0..ns { let v = base + u(0, span, "sym"); let sz = u(0, maxs, "symsize"); addrs.push((v, sz)); syms.push(func_sym(N[i], v, sz)); }
    let elf = Elf { dwarf: if nf > 0 { unit(funcs.clone()) } else { None }, syms, ..Elf::default() }.build();
    let s = load(&elf, Platform::Mac);
    increasing(&s);
    let inside = |x: u64| { let mut r = false; for f in &funcs { r |= x > f.low && x < f.low + f.size; } r };
    let start = |x: u64| { let mut r = false; for f in &funcs { r |= x == f.low; } r };
    // every function has its FUNC record
    for f in &funcs {
        let r = at(&s, f.low); check(r.is_some(), "every function with debug information has a record"); let r = r.unwrap();
        check(!r.public && r.len == f.size, "a function with debug information has a FUNC record of its size");
        let mut named = false; for (i, q) in addrs.iter().enumerate() { if q.0 == f.low && r.name == N[i].as_bytes() { named = true; } }
        check(named || r.name == f.name.as_bytes(), "a FUNC record is named after the function or a symbol at its address");
    }
    // every symbol is represented
    for (i, q) in addrs.iter().enumerate() {
        if start(q.0) { reach("symbol at a function"); continue; }
        if inside(q.0) { reach("symbol inside a function"); check(at(&s, q.0).is_none(), "a symbol inside a function with debug information gets no record of its own"); continue; }
        let mut covered = false; let mut dup = 0; let mut named = false;
        for (j, p) in addrs.iter().enumerate() { if j == i { continue; } if p.0 < q.0 && q.0 < p.0 + p.1 { covered = true; } if p.0 == q.0 { dup += 1; } }
        match at(&s, q.0) {
            None => { reach("covered"); check(covered, "a symbol outside every function and every other symbol has a record"); }
            Some(r) => {
                reach("public");
                check(r.public, "a symbol without debug information gets a PUBLIC record");
                for (j, p) in addrs.iter().enumerate() { if p.0 == q.0 && r.name == N[j].as_bytes() { named = true; } }
                check(named, "a PUBLIC record is named after a symbol at its address");
                if dup == 0 { check(!r.multi, "a record is marked multiple only when several symbols share its address"); }
                else if !covered { check(r.multi, "a record of an address with several symbols is marked multiple"); }
            }
        }
    }
    // nothing is invented: only functions, symbols and the executable section
    for r in &s.recs {
        let mut ok = start(r.rva); for q in &addrs { ok |= q.0 == r.rva; }
        if r.rva == 0x1000 { check(r.public && r.name.starts_with(b"<.text ELF section in "), "the executable section has a placeholder record"); ok = true; }
        check(ok, "every record belongs to a function, a symbol or an executable section");
        if r.public { check(r.lines.is_empty(), "PUBLIC records have no lines"); }
    }
    check(at(&s, 0x1000).is_some(), "the executable section has a placeholder record");
    reach("end");
}
harness!(h_syms_fs, { run(1, if tier() == 1 { 3 } else { 2 }, 9) });
// large functions and symbols
harness!(h_syms_wide, { if choice(2, "functions") == 1 { run2(1, 1, 0xf0_0000, 0x40_0000, 0x40_0000) } else { run2(0, 2, 0xf0_0000, 0, 0x40_0000) } });
harness!(h_syms_pub, { run(0, if tier() == 1 { 4 } else { 3 }, 6) });
harness!(h_syms_ff, { run(if tier() == 1 { 3 } else { 2 }, 2, 16) });
// the same function described twice, or two overlapping descriptions at one address, give one record marked multiple
harness!(h_syms_dup, {
    let low = u(0x2000, 0x2f00, "low"); let s1 = u(1, 8, "s1"); let s2 = u(1, 8, "s2");
    let fs = vec![Func { name: "f0", low, size: s1, inl: vec![] }, Func { name: "f1", low, size: s2, inl: vec![] }];
    let elf = Elf { dwarf: unit(fs), ..Elf::default() }.build();
    let s = load(&elf, Platform::Mac); increasing(&s);
    let r = at(&s, low); check(r.is_some(), "every function with debug information has a record"); let r = r.unwrap();
    check(!r.public && ((r.len == s1 && r.name == b"f0") || (r.len == s2 && r.name == b"f1")), "a function record comes from one of the descriptions");
    if s1 != s2 { reach("two"); check(r.multi, "a record of an address with several functions is marked multiple"); }
    check(s.recs.len() == 2, "one record per address");
    reach("end");
});
// the executable section's placeholder never replaces something real at its address
harness!(h_syms_sect, {
    let v = u(0x0ff0, 0x1010, "v"); let isf = choice(2, "function or symbol") == 0;
    let elf = if isf { Elf { dwarf: unit(vec![Func { name: "f0", low: v, size: 4, inl: vec![] }]), ..Elf::default() } } else { Elf { syms: vec![func_sym("f0", v, 4)], ..Elf::default() } }.build();
    let s = load(&elf, Platform::Mac); increasing(&s);
    let r = at(&s, v); check(r.is_some(), "every function or symbol has a record"); let r = r.unwrap();
    check(r.public != isf && r.name == b"f0", "the executable section's placeholder does not replace a real record");
    if v != 0x1000 { let p = at(&s, 0x1000); check(p.is_some() && p.unwrap().public, "the executable section has a placeholder record"); check(s.recs.len() == 2, "nothing else is recorded"); } else { reach("same"); check(s.recs.len() == 1, "nothing else is recorded"); }
    reach("end");
});
fn crc(v: &[u8]) -> u32 { let mut c = !0u32; for b in v { c ^= *b as u32; for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0xedb88320 } else { c >> 1 }; } } !c }
/// an xz file whose contents are stored as they are
pub fn xz(d: &[u8]) -> Vec<u8> {
    let mut b = Buf::new(); b.raw(&[0xfd, b'7', b'z', b'X', b'Z', 0]); let fl = [0u8, 0]; b.raw(&fl); b.u32(crc(&fl));
    let bh = [2u8, 0, 0x21, 1, 0x16, 0, 0, 0]; b.raw(&bh); b.u32(crc(&bh)); let n = d.len() - 1; b.raw(&[1, (n >> 8) as u8, n as u8]); b.raw(d); b.u8(0); let unpadded = 12 + 3 + d.len() + 1; while b.len() % 4 != 0 { b.u8(0); }
    let mut ix = Buf::new(); ix.raw(&[0, 1]); ix.uleb(unpadded as u64); ix.uleb(d.len() as u64); while ix.len() % 4 != 0 { ix.u8(0); } let c = crc(&ix.0); ix.u32(c); b.raw(&ix.0);
    let mut f = Buf::new(); f.u32(ix.len() as u32 / 4 - 1); f.raw(&fl); b.u32(crc(&f.0)); b.raw(&f.0); b.raw(b"YZ"); b.0
}
// the symbols of the compressed symbol table of a stripped file
harness!(h_syms_mini, {
    let n = 1 + choice(2, "symbols") as usize; let more = choice(2, "symbols of its own") == 1; let fun = choice(2, "function") == 1; let mut v = vec![]; for _ in 0..n { v.push((0x2000 + u(0, 12, "sym"), u(0, 2, "symsize"))); }
    let inner = Elf { syms: (0..n).map(|i| func_sym(N[i], v[i].0, v[i].1)).collect(), ..Elf::default() }.build(); let mut z = xz(&inner); let bad = choice(3, "damaged"); if bad == 1 { z[0] = 0; } else if bad == 2 { let k = z.len() / 2; z.truncate(k); }
    let mut all: Vec<(u64, u64, &str)> = if bad == 0 { (0..n).map(|i| (v[i].0, v[i].1, N[i])).collect() } else { vec![] }; let mut e = Elf { extra: vec![sec(".gnu_debugdata", 1, z)], ..Elf::default() }; if more { let a = 0x2000 + u(0, 12, "own"); e.syms.push(func_sym("own", a, 1)); all.push((a, 1, "own")); } if fun { e.dwarf = unit(vec![Func { name: "f0", low: 0x2004, size: 4, inl: vec![] }]); }
    let s = load(&e.build(), Platform::Mac); increasing(&s); let mut count = 1 + fun as usize;
    if fun { check(at(&s, 0x2004).is_some_and(|r| !r.public && r.len == 4), "a function with debug information has a FUNC record of its size"); }
    for (i, q) in all.iter().enumerate() {
        if fun && q.0 >= 0x2004 && q.0 < 0x2008 { if q.0 > 0x2004 { check(at(&s, q.0).is_none(), "a symbol inside a function with debug information gets no record of its own"); } continue; }
        let mut covered = false; let mut dup = false; let mut first = true; for (j, p) in all.iter().enumerate() { if j == i { continue; } if p.0 < q.0 && q.0 < p.0 + p.1 { covered = true; } if p.0 == q.0 { dup = true; if j < i { first = false; } } }
        match at(&s, q.0) { None => check(covered, "a symbol of the compressed symbol table has a record"), Some(r) => { if first { count += 1; } let mut named = false; for p in &all { named |= p.0 == q.0 && r.name == p.2.as_bytes(); } check(r.public && named, "a symbol has a PUBLIC record with its name"); if !covered { check(r.multi == dup, "a record is marked multiple exactly when several symbols share its address"); } } }
    }
    check(s.recs.len() == count, "nothing else is recorded"); reach(if bad == 0 { "symbols" } else { "damaged" }); reach("end");
});
