//! C14: no addresses, sizes or section contents make dumping panic, and the result is a symbol file.
use crate::elf::*;
use crate::sym::*;
use dump_syms::object_info::ObjectInfo;
use dump_syms::platform::Platform;

/// loading fails or gives a symbol file whose records are in increasing order
fn load(e: Elf, inl: bool) -> Option<ObjectInfo> {
    let p = if choice(2, "windows") == 1 { Platform::Win } else { Platform::Mac };
    let b = e.build(); ObjectInfo::from_elf(&b, "lib.so", p, None, inl).ok()
}
fn ordered(o: &ObjectInfo) -> SymFile {
    let s = parse(&dump(o));
    for i in 1..s.recs.len() { check(s.recs[i - 1].rva < s.recs[i].rva, "one record per address, in increasing order"); }
    for r in &s.recs { for i in 1..r.lines.len() { check(r.lines[i - 1].rva <= r.lines[i].rva, "line records are in increasing order"); } }
    s
}
fn any(n: &str) -> u64 { match choice(3, n) { 0 => u(0, 0x2000, n), 1 => u(0xffff_0000, 0x1_0000_ffff, n), _ => u(0xffff_ffff_ffff_0000, u64::MAX, n) } }
fn any2(n: &str) -> u64 { if choice(2, n) == 0 { u(0, 0x2000, n) } else { u(0xffff_0000, 0x1_0000_ffff, n) } }
// symbols with any address and size
harness!(h_any_syms, {
    let (v1, s1, v2, s2) = (u(0, u64::MAX, "v1"), u(0, u64::MAX, "s1"), u(0, u64::MAX, "v2"), u(0, u64::MAX, "s2"));
    if let Some(o) = load(Elf { syms: vec![func_sym("a", v1, s1), func_sym("b", v2, s2)], ..Elf::default() }, false) { ordered(&o); reach("ok"); }
    reach("end");
});
// a function with any address, size and line table
harness!(h_any_func, {
    let (low, size) = (any("low"), any2("size")); let a1 = any("a1"); let (a2, e) = (a1.wrapping_add(u(0, 0x2_0000, "d")), u64::MAX); let inl = choice(2, "inlines") == 1;
    let un = Unit { files: vec![(b"a.c".to_vec(), 0)], funcs: vec![Func { name: "f", low, size, inl: vec![] }], seqs: vec![(vec![Row { addr: a1, line: 1, file: 1 }, Row { addr: a2, line: 2, file: 1 }], e)], high: u64::MAX - 0x2000, ..Unit::default() };
    if let Some(o) = load(Elf { syms: vec![], dwarf: Some(Dwarf::new(vec![un])), ..Elf::default() }, inl) { let s = ordered(&o); if s.recs.len() == 2 { reach("func"); } }
    reach("end");
});
// a function and an inlined call anywhere
harness!(h_any_inl, {
    let (low, size) = (u(0x2000, 0x2004, "low"), u(0, 0x2_0000_0000, "size")); let (il, is) = (any("il"), any("is")); let a2 = u(0x2000, 0x3000, "a2");
    let un = Unit { files: vec![(b"a.c".to_vec(), 0)], origins: vec!["o"], funcs: vec![Func { name: "f", low, size, inl: vec![Inl { origin: 0, low: il, size: is, call_file: 1, call_line: 3, more: vec![], kids: vec![] }] }], seqs: vec![(vec![Row { addr: low, line: 1, file: 1 }, Row { addr: a2, line: 2, file: 1 }], u64::MAX)], high: u64::MAX - 0x2000, ..Unit::default() };
    if let Some(o) = load(Elf { dwarf: Some(Dwarf::new(vec![un])), ..Elf::default() }, true) { ordered(&o); reach("ok"); }
    reach("end");
});
// a function and a symbol near the end of the address space, merged with another file
harness!(h_any_merge, {
    let (v1, s1) = (u(0xffff_fff0, 0x1_0000_0000, "v1"), u(0, 0x1_0000_0000, "s1")); let (v2, s2) = (u(0xffff_fff0, 0x1_0000_0000, "v2"), u(0, 0x1_0000_0000, "s2"));
    let l = load(Elf { syms: vec![func_sym("a", v1, s1)], ..Elf::default() }, false); let r = load(Elf { syms: vec![func_sym("b", v2, s2)], ..Elf::default() }, false);
    if let (Some(l), Some(r)) = (l, r) { let m = ObjectInfo::merge(l, r); check(m.is_ok(), "files with one id are merged"); ordered(&m.unwrap()); reach("ok"); }
    reach("end");
});
// sections with any address, offset and size: the executable ones and the compressed one
harness!(h_any_sect, {
    let k = choice(2, "kind"); let name = [".x", ".gnu_debugdata"][k as usize];
    let s = Sec { flags: if k == 0 { 6 } else { 2 }, addr: u(0, u64::MAX, "address"), size: Some(u(0, u64::MAX, "size")), ..sec(name, 1, bytes(8, "data")) };
    if let Some(o) = load(Elf { syms: vec![func_sym("a", 0x2000, 4)], extra: vec![s], ..Elf::default() }, false) { ordered(&o); reach("ok"); }
    reach("end");
});
