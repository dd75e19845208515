//! C17: Mach-O files, universal files and dSYM bundles.
use crate::elf::*;
use crate::store::{all_files, config, p};
use crate::sym::*;
use dump_syms::dumper::{self, FileOutput, Output};
use std::path::PathBuf;
pub const BASE: u64 = 0x1_0000_0000;
pub struct Mach { pub cpu: (u32, u32), pub uuid: Option<[u8; 16]>, pub syms: Vec<(Vec<u8>, u64)>, pub dwarf: Option<Dwarf>, pub id: Option<&'static str> }
pub const X86_64: (u32, u32) = (0x0100_0007, 3); pub const ARM64: (u32, u32) = (0x0100_000c, 0); pub const X86_64H: (u32, u32) = (0x0100_0007, 8); pub const ARM64E: (u32, u32) = (0x0100_000c, 2); pub const I386: (u32, u32) = (7, 3);
pub const UUID: [u8; 16] = [0xa0, 0xa1, 0xa2, 0xa3, 0xb0, 0xb1, 0xc0, 0xc1, 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7];
impl Default for Mach { fn default() -> Mach { Mach { cpu: X86_64, uuid: Some(UUID), syms: vec![], dwarf: None, id: None } } }
impl Mach {
    pub fn build(self) -> Vec<u8> {
        let name16 = |b: &mut Buf, n: &str| { b.raw(n.as_bytes()); for _ in n.len()..16 { b.u8(0); } };
        let dw: Vec<(&str, Vec<u8>)> = match self.dwarf { None => vec![], Some(d) => { let (info, ab, line, _, ranges) = d.build(); let mut v = vec![("__debug_info", info), ("__debug_abbrev", ab), ("__debug_line", line)]; if !ranges.is_empty() { v.push(("__debug_ranges", ranges)); } v } };
        let mut st = Buf::new(); st.u8(0); let mut sy = Buf::new(); for (n, v) in &self.syms { sy.u32(st.len() as u32); st.s(n); sy.u8(0xf); sy.u8(1); sy.u16(0); sy.u64(BASE + *v); }
        let idlen = self.id.map_or(0, |n| (24 + n.len() + 8) / 8 * 8);
        let mut cmds = 72 + 80; let mut n = 1; if self.uuid.is_some() { cmds += 24; n += 1; } if !self.syms.is_empty() { cmds += 24; n += 1; } if !dw.is_empty() { cmds += 72 + 80 * dw.len(); n += 1; } if self.id.is_some() { cmds += idlen; n += 1; }
        let mut off = 32 + cmds; let mut b = Buf::new();
        b.u32(0xfeed_facf); b.u32(self.cpu.0); b.u32(self.cpu.1); b.u32(if self.id.is_some() { 6 } else { 2 }); b.u32(n); b.u32(cmds as u32); b.u32(0); b.u32(0);
        b.u32(0x19); b.u32(72 + 80); name16(&mut b, "__TEXT"); b.u64(BASE); b.u64(0x10000); b.u64(0); b.u64(0); b.u32(5); b.u32(5); b.u32(1); b.u32(0);
        name16(&mut b, "__text"); name16(&mut b, "__TEXT"); b.u64(BASE + 0x1000); b.u64(0x8000); b.u32(0); b.u32(0); b.u32(0); b.u32(0); b.u32(0x8000_0400); b.u32(0); b.u32(0); b.u32(0);
        if let Some(u) = self.uuid { b.u32(0x1b); b.u32(24); b.raw(&u); }
        if let Some(n) = self.id { b.u32(0xd); b.u32(idlen as u32); b.u32(24); b.u32(0); b.u32(0); b.u32(0); b.s(n.as_bytes()); for _ in 24 + n.len() + 1..idlen { b.u8(0); } }
        let mut body = Buf::new();
        if !dw.is_empty() {
            let size: usize = dw.iter().map(|d| d.1.len()).sum(); b.u32(0x19); b.u32((72 + 80 * dw.len()) as u32); name16(&mut b, "__DWARF"); b.u64(BASE + 0x20000); b.u64(0x10000); b.u64(off as u64); b.u64(size as u64); b.u32(7); b.u32(3); b.u32(dw.len() as u32); b.u32(0);
            let mut a = BASE + 0x20000; for (n, d) in &dw { name16(&mut b, n); name16(&mut b, "__DWARF"); b.u64(a); b.u64(d.len() as u64); b.u32(off as u32); b.u32(0); b.u32(0); b.u32(0); b.u32(0x0200_0000); b.u32(0); b.u32(0); b.u32(0); body.raw(d); off += d.len(); a += d.len() as u64; }
        }
        if !self.syms.is_empty() { b.u32(2); b.u32(24); b.u32(off as u32); b.u32(self.syms.len() as u32); b.u32((off + sy.len()) as u32); b.u32(st.len() as u32); body.raw(&sy.0); body.raw(&st.0); }
        check(b.len() == 32 + cmds, "builder"); b.raw(&body.0); b.0
    }
}
/// a universal file
pub fn fat(objs: &[((u32, u32), Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![]; let be = |o: &mut Vec<u8>, v: u32| o.extend_from_slice(&v.to_be_bytes()); be(&mut o, 0xcafe_babe); be(&mut o, objs.len() as u32); let mut off = (8 + 20 * objs.len() + 15) / 16 * 16; let mut body = vec![]; let start = off;
    for (c, d) in objs { be(&mut o, c.0); be(&mut o, c.1); be(&mut o, off as u32); be(&mut o, d.len() as u32); be(&mut o, 4); body.extend_from_slice(d); off += d.len(); while off % 16 != 0 { off += 1; body.push(0); } }
    while o.len() < start { o.push(0); } o.extend_from_slice(&body); o
}
pub const ARCHS: [((u32, u32), &str); 4] = [(X86_64, "x86_64"), (ARM64, "arm64"), (X86_64H, "x86_64h"), (ARM64E, "arm64e")];
pub fn one(i: usize, n: &'static str) -> ((u32, u32), Vec<u8>) { let mut u = UUID; u[15] = i as u8; (ARCHS[i].0, Mach { cpu: ARCHS[i].0, uuid: Some(u), syms: vec![(n.as_bytes().to_vec(), 0x2000)], ..Mach::default() }.build()) }
fn with(arch: &'static str) -> dumper::Config<'static> { let mut c = config(Output::File(FileOutput::Path(PathBuf::from(p("out/x.sym"))))); c.arch = arch; c }
// the object of the architecture asked for; the only one whatever is asked for
harness!(h_fat, {
    fs_dir(&p("out")); setenv("HOME", &p("home")); let n = 1 + choice(3, "objects") as usize; const S: [&str; 3] = ["_s0", "_s1", "_s2"]; let mut ids = vec![]; let mut objs = vec![];
    for i in 0..n { let a = choice(4, "architecture") as usize; assume(!ids.contains(&a)); ids.push(a); objs.push(one(a, S[i])); }
    let thin = n == 1 && choice(2, "thin") == 1; fs_file(&p("in/lib.dylib"), &if thin { objs[0].1.clone() } else { fat(&objs) });
    let w = choice(4, "wanted") as usize; let mut k = None; for i in 0..n { if n == 1 || ids[i] == w { k = Some(i); } }
    let r = dumper::single_file(&with(ARCHS[w].1), &p("in/lib.dylib"));
    match k {
        None => { check(r.is_err(), "an architecture which is not there is an error"); check(all_files().len() == 1, "nothing is written for an architecture which is not there"); reach("none"); }
        Some(k) => { check(r.is_ok(), "the object of the architecture is dumped"); let s = parse(&fs_read(&p("out/x.sym")).unwrap()); check(s.module[0] == b"Mac" && s.module[1] == ARCHS[ids[k]].1.as_bytes() && s.module[3] == b"lib.dylib", "the module is that of the architecture"); check(s.module[2] == format!("A0A1A2A3B0B1C0C1D0D1D2D3D4D5D6{:02X}0", ids[k]).into_bytes(), "the identifier is the object's");
            check(s.recs.iter().any(|r| r.public && r.rva == 0x2000 && r.name == S[k][1..].as_bytes()) && !s.recs.iter().any(|r| (0..n).any(|j| j != k && r.name == S[j][1..].as_bytes())), "the symbols are the object's"); reach("one"); }
    }
    reach("end");
});
// the list of the architectures
harness!(h_fat_list, {
    let n = 1 + choice(3, "objects") as usize; let mut ids = vec![]; let mut objs = vec![]; for _ in 0..n { let a = choice(4, "architecture") as usize; assume(!ids.contains(&a)); ids.push(a); objs.push(one(a, "_s")); }
    let f = fat(&objs); check(dump_syms::mac::print_macho_architectures(&f, "lib.dylib".to_string()).is_ok(), "the architectures are listed");
    let mut w = format!("lib.dylib contains the following architecture{}:\n", if n == 1 { "" } else { "s" }); for i in 0..n { if i > 0 { w.push_str(", "); } w.push_str(ARCHS[ids[i]].1); } w.push('\n'); check(stdout() == w.as_bytes(), "every architecture is listed, in the order of the file"); reach("end");
});
// a dSYM bundle: its one file with debug information
harness!(h_bundle, {
    fs_dir(&p("out")); setenv("HOME", &p("home")); let n = choice(3, "files") as usize; let dir = choice(2, "bundle") == 0; let slash = choice(2, "slash") == 1; const F: [&str; 2] = ["lib", "other"]; let first = choice(2, "which") as usize;
    let at = if dir { p("in/lib.dSYM/Contents/Resources/DWARF") } else { p("in/lib.dSYM/Contents") }; fs_dir(&at); fs_file(&p("in/lib.dSYM/Contents/Info.plist"), b"<plist>");
    let l = u(1, 9, "line"); for i in 0..n { fs_file(&format!("{at}/{}", F[(first + i) % 2]), &Mach { dwarf: Some(Dwarf::new(vec![Unit { files: vec![(b"a.c".to_vec(), 0)], funcs: vec![Func { name: "f", low: BASE + 0x2000, size: 4, inl: vec![] }], seqs: vec![(vec![Row { addr: BASE + 0x2000, line: l, file: 1 }], BASE + 0x2004)], high: 0x10_0000_0000, ..Unit::default() }])), ..Mach::default() }.build()); }
    let name = p(if slash { "in/lib.dSYM/" } else { "in/lib.dSYM" }); let r = guarded(|| dumper::single_file(&with("x86_64"), &name).is_ok());
    if n == 1 && dir { check(r == Some(true), "a bundle with one file is dumped"); let s = parse(&fs_read(&p("out/x.sym")).unwrap()); check(s.module[2] == b"A0A1A2A3B0B1C0C1D0D1D2D3D4D5D6D70", "the identifier is the object's"); check(s.recs.len() == 1 && !s.recs[0].public && s.recs[0].rva == 0x2000 && s.recs[0].len == 4 && s.recs[0].name == b"f" && s.recs[0].lines.len() == 1 && s.recs[0].lines[0].num == l, "the symbols are the object's"); reach("bundle"); }
    else { check(r != Some(true), "what is no bundle with one file is an error"); check(fs_read(&p("out/x.sym")).is_none(), "nothing is written for what is no bundle"); reach("none"); }
    reach("end");
});
// ---- the guarantees of C01, C02, C03, C09 and C18 for Mach-O files
use crate::inl::{check_leaf, check_stack};
use crate::lines::{check_at, func_at, sorted_lines};
use crate::syms::{at, increasing};
fn from_mach(m: Mach, inl: bool) -> SymFile { let b = m.build(); save(&b); let t = dump(&dump_syms::object_info::ObjectInfo::from_macho(&b, "lib.dylib", symbolic::common::Arch::Amd64, None, inl).unwrap()); if !is_symbolic() && std::env::var("VH_SHOW").is_ok() { eprintln!("{}", String::from_utf8_lossy(&t)); } parse(&t) }
fn files() -> Vec<(Vec<u8>, u8)> { vec![(b"a.c".to_vec(), 0), (b"b.c".to_vec(), 0), (b"d.c".to_vec(), 0)] }
/// the unit with its addresses moved to where the image is
fn unit(mut funcs: Vec<Func>, mut seqs: Vec<(Vec<Row>, u64)>) -> Option<Dwarf> {
    fn up(i: &mut Inl) { i.low += BASE; for m in &mut i.more { m.0 += BASE; } for k in &mut i.kids { up(k); } }
    for f in &mut funcs { f.low += BASE; for i in &mut f.inl { up(i); } } for s in &mut seqs { s.1 += BASE; for r in &mut s.0 { r.addr += BASE; } }
    Some(Dwarf::new(vec![Unit { files: files(), origins: crate::inl::ORIG.to_vec(), funcs, seqs, high: 0x10_0000_0000, ..Unit::default() }]))
}
harness!(h_mach_lines, {
    let low = u(0x2000, 0x2f00, "low"); let mut rows = vec![]; let mut a = low; for i in 0..3 { if i > 0 { a += u(1, 4, "gap"); } rows.push(Row { addr: a, line: u(0, 9, "line"), file: 1 + choice(if i == 0 { 1 } else { 2 }, "file") as u8 }); }
    let size = a - low + u(1, 4, "gap"); let s = from_mach(Mach { dwarf: unit(vec![Func { name: "f", low, size, inl: vec![] }], vec![(rows.clone(), low + size)]), ..Mach::default() }, false);
    let x = low + u(0, 15, "x"); assume(x < low + size); check_at(&s, &rows, low, size, x); reach("end");
});
harness!(h_mach_inl, {
    let low = if tier() == 1 { u(0x2000, 0x2f00, "low") } else { 0x2000 }; let (a, l) = (u(0, 3, "start"), u(2, 4, "length")); let (k0, kl) = (u(0, 3, "inner start"), u(1, 4, "inner length")); assume(k0 + kl <= l); let size = a + l + u(0, 3, "rest"); let (c1, c2) = (u(1, 9, "call line"), u(1, 9, "call line")); let nest = choice(2, "nested") == 1;
    let rows = vec![Row { addr: low, line: 11, file: 1 }, Row { addr: low + u(1, 9, "row"), line: 12, file: 2 }]; assume(rows[1].addr < low + size);
    let kids = if nest { vec![Inl { origin: 1, low: low + a + k0, size: kl, call_file: 2, call_line: c2 as u32, more: vec![], kids: vec![] }] } else { vec![] };
    let s = from_mach(Mach { dwarf: unit(vec![Func { name: "f", low, size, inl: vec![Inl { origin: 0, low: low + a, size: l, call_file: 1, call_line: c1 as u32, more: vec![], kids }] }], vec![(rows.clone(), low + size)]), ..Mach::default() }, true);
    let x = low + u(0, 15, "x"); assume(x < low + size); let f = func_at(&s, low); check(f.len == size, "the FUNC record has the size of the function"); sorted_lines(f);
    let mut want = vec![]; if x >= low + a && x < low + a + l { want.push((0, c1, 1)); if nest && x >= low + a + k0 && x < low + a + k0 + kl { want.push((1, c2, 2)); reach("nested"); } } check_stack(&s, f, &want, x); check_leaf(&s, f, &rows, x); reach("end");
});
// functions and symbols; C names lose their underscore
harness!(h_mach_syms, {
    let l1 = u(0x2000, 0x2004, "low"); let s1 = u(1, 4, "size"); let n = if tier() == 1 { 3 } else { 2 }; const N: [&str; 3] = ["_p0", "_p1", "_p2"]; let v: Vec<u64> = (0..n).map(|_| 0x2000 + u(0, 10, "symbol")).collect(); let dw = choice(2, "debug information") == 1;
    let s = from_mach(Mach { dwarf: if dw { unit(vec![Func { name: "f", low: l1, size: s1, inl: vec![] }], vec![]) } else { None }, syms: (0..n).map(|i| (N[i].as_bytes().to_vec(), v[i])).collect(), ..Mach::default() }, false); increasing(&s); let mut count = 0;
    if dw { let r = at(&s, l1); check(r.is_some(), "every function with debug information has a record"); let r = r.unwrap(); check(!r.public && r.len == s1, "a function with debug information has a FUNC record of its size"); let mut named = r.name == b"f"; for i in 0..n { named |= v[i] == l1 && r.name == N[i][1..].as_bytes(); } check(named, "a FUNC record is named after the symbol at its address, or the function"); count += 1; }
    for i in 0..n { let x = v[i]; if dw && x == l1 { continue; } if dw && x > l1 && x < l1 + s1 { reach("inside"); check(at(&s, x).is_none(), "a symbol inside a function with debug information gets no record of its own"); continue; }
        // without sizes, a symbol reaches to the next one at most
        let r = at(&s, x); check(r.is_some(), "a symbol outside every function has a record"); let r = r.unwrap(); check(r.public, "a symbol without debug information gets a PUBLIC record"); let (mut named, mut first, mut dup) = (false, true, 0); for j in 0..n { if v[j] == x { dup += 1; if j < i { first = false; } named |= r.name == N[j][1..].as_bytes(); } } check(named, "a PUBLIC record is named after a symbol at its address"); check(r.multi == (dup > 1), "a record is marked multiple exactly when several symbols share its address"); if first { count += 1; } }
    check(s.recs.len() == count, "nothing else is recorded"); reach("end");
});
// the identifier and the name
harness!(h_mach_header, {
    let mut g = UUID; let i = choice(15, "position") as usize; g[i] = u(0, 255, "byte") as u8; g[i + 1] = u(0, 255, "byte") as u8; let hex = |v: u8| if v < 10 { b'0' + v } else { b'A' + v - 10 }; let mut id = vec![]; for b in &g { id.push(hex(b >> 4)); id.push(hex(b & 15)); } let code = [&b"CODE_ID "[..], &id].concat(); id.push(b'0');
    let a = choice(4, "architecture") as usize; let (inst, name) = [(None, "lib.dylib"), (Some("/usr/lib/libx.1.dylib"), "libx.1.dylib"), (Some("@rpath/F.framework/Versions/A/F"), "F"), (Some("y.dylib"), "y.dylib"), (Some("a/.."), "lib.dylib"), (Some("a/"), "lib.dylib")][choice(6, "name") as usize];
    let s = from_mach(Mach { cpu: ARCHS[a].0, uuid: Some(g), id: inst, syms: vec![(b"_s".to_vec(), 0x2000)], ..Mach::default() }, false);
    check(s.module[0] == b"Mac" && s.module[1] == ARCHS[a].1.as_bytes(), "the platform and the architecture"); check(s.module[2] == id, "the identifier is the UUID"); check(s.module[3] == name.as_bytes(), "the name is that of the library"); check(s.infos.len() == 1 && s.infos[0] == code, "INFO CODE_ID is the UUID"); reach("end");
});
// ---- C09: the install name of a library is the module's name in the store, if it is one
harness!(h_store_mach, {
    fs_dir(&p("store")); setenv("HOME", &p("home")); let n = 1 + choice(if tier() == 1 { 4 } else { 3 }, "n") as usize; let mut b = bytes(n, "install name"); for c in &b { assume(*c == b'a' || *c == b'.' || *c == b'/'); } for c in &mut b { *c = conc(*c as u64) as u8; } if choice(2, "prefix") == 1 { b.splice(0..0, *b"@rpath/x/"); }
    fs_file(&p("in/lib.dylib"), &Mach { id: Some(crate::names::leak(b.clone())), syms: vec![(b"_s".to_vec(), 0x2000)], ..Mach::default() }.build()); let k = b.iter().rposition(|c| *c == b'/').map_or(0, |i| i + 1);
    let last = std::str::from_utf8(&b[k..]).unwrap(); let name = if last.is_empty() || last == "." || last == ".." { reach("none"); "lib.dylib" } else { last }; let want = p(&format!("store/{}", String::from_utf8_lossy(&crate::paths::store_oracle(name.as_bytes(), b"A0A1A2A3B0B1C0C1D0D1D2D3D4D5D6D70"))));
    check(dumper::single_file(&dumper::Config { arch: "x86_64", ..config(Output::Store(PathBuf::from(p("store")))) }, &p("in/lib.dylib")).is_ok(), "dumping a readable file succeeds");
    let t = fs_read(&want); check(t.is_some(), "the symbols are stored under the module's name and identifier"); check(all_files().len() == 2, "nothing else is written"); let s = parse(&t.unwrap()); check(s.module[3] == name.as_bytes(), "the module has the name it is stored under"); reach("end");
});
