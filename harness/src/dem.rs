//! C21: mangled names are demangled.
use crate::elf::*;
use crate::names::leak;
use crate::sym::*;
use crate::syms::at;
use crate::win::*;
use crate::windows::from_pdb;
use dump_syms::object_info::ObjectInfo;
use dump_syms::platform::Platform;
/// a mangled name and what it means, % standing for a letter; where its language is Rust; whether the symbol alone tells it is mangled
const T: [(&str, &str, bool); 19] = [
    ("_Z1%v", "%()", false), ("_ZN1a1%Ei", "a::%(int)", false), ("_ZN12_GLOBAL__N_11%EPKc", "(anonymous namespace)::%(char const*)", false), ("_Z1%IiET_S0_", "%<int>(int)", false), ("_ZNK1%ltERKS_", "%::operator<(% const&) const", false),
    ("_ZN1a1%17h0123456789abcdefE", "a::%", true), ("_RNvC1a1%", "a::%", true), ("?%@@YAHH@Z", "%(int)", false), ("?%@b@@QEAAXXZ", "b::%(void)", false),
    ("_ZN13a_long_prefix1%EPNS_5thingES1_S1_S1_S1_S1_", "a_long_prefix::%(a_long_prefix::thing*, a_long_prefix::thing*, a_long_prefix::thing*, a_long_prefix::thing*, a_long_prefix::thing*, a_long_prefix::thing*)", false), ("_ZN1%C2Ev", "%::%()", false), ("_ZN1%D0Ev", "%::~%()", false), ("_ZZ1%vENKUlvE_clEv", "%()::{lambda()#1}::operator()() const", false), ("_ZThn8_N1%1fEv", "{virtual override thunk({offset(-8)}, %::f())}", false), ("_ZN1%cviEv", "%::operator int()", false), ("_Z1%ILi3ELb1EEvv", "%<3, true>()", false), ("_ZN1a1%B5cxx11Ev", "a::%[abi:cxx11]()", false), ("_RINvC1a1%lE", "a::%::<i32>", true), ("_ZTV1%", "{vtable(%)}", false)];
fn fill(t: &str, x: u8) -> Vec<u8> { t.bytes().map(|c| if c == b'%' { x } else { c }).collect() }
harness!(h_dem, {
    let k = choice(19, "name") as usize; let x = u(b'a' as u64, b'z' as u64, "letter") as u8; let (m, d, rust) = T[k]; let name = fill(m, x); let want = fill(d, x);
    let wh = choice(3, "where"); let sfx = if rust { 0 } else { choice(4, "suffix") as usize }; let mut n = name.clone(); n.extend_from_slice([&b""[..], b".cold", b".isra.0.cold.3", b".llvm.123"][sfx]); let c = wh < 2 && choice(2, "language C") == 1;
    let lang = if c { 0x0c } else if rust { 0x1c } else { 0x04 }; let rows = vec![(vec![Row { addr: 0x2000, line: 1, file: 1 }], 0x2004)]; let files = vec![(b"a.c".to_vec(), 0)];
    let dw = |un: Unit| Some(Dwarf { lang, link: true, ..Dwarf::new(vec![un]) });
    let e = match wh { 0 => Elf { dwarf: dw(Unit { files, funcs: vec![Func { name: leak(n), low: 0x2000, size: 4, inl: vec![] }], seqs: rows, ..Unit::default() }), ..Elf::default() },
        1 => Elf { dwarf: dw(Unit { files, origins: vec![leak(n)], funcs: vec![Func { name: "main", low: 0x2000, size: 4, inl: vec![Inl { origin: 0, low: 0x2001, size: 2, call_file: 1, call_line: 5, more: vec![], kids: vec![] }] }], seqs: rows, ..Unit::default() }), ..Elf::default() },
        _ => Elf { syms: vec![func_sym(leak(n), 0x2000, 4)], ..Elf::default() } };
    let t = dump(&ObjectInfo::from_elf(&e.build(), "lib.so", Platform::Linux, None, true).unwrap()); if !is_symbolic() && std::env::var("VH_SHOW").is_ok() { eprintln!("{}", String::from_utf8_lossy(&t)); } let s = parse(&t);
    let want = if c { name } else { want };
    if wh == 1 { check(s.origins.len() == 1 && s.origins[0] == want, "a mangled name of an inlined function is demangled"); }
    else { let r = at(&s, 0x2000); check(r.is_some_and(|r| r.name == want && r.public == (wh == 2)), "a mangled name is demangled"); }
    reach("end");
});
// what is no mangled name, or not a whole one, is kept
harness!(h_dem_not, {
    const N: [&str; 10] = ["_Z!%", "_ZN1a", "_Z9%", "_R%", "?%", "%main", "a::%", "_%", "Z1%v", "_ZN1a1%"]; let k = choice(10, "name") as usize; let n = fill(N[k], u(b'a' as u64, b'z' as u64, "letter") as u8); let wh = choice(2, "where"); let lang = [0x04, 0x1c][choice(2, "language") as usize];
    let e = if wh == 0 { Elf { dwarf: Some(Dwarf { lang, link: true, ..Dwarf::new(vec![Unit { files: vec![(b"a.c".to_vec(), 0)], funcs: vec![Func { name: leak(n.clone()), low: 0x2000, size: 4, inl: vec![] }], seqs: vec![(vec![Row { addr: 0x2000, line: 1, file: 1 }], 0x2004)], ..Unit::default() }]) }), ..Elf::default() } } else { Elf { syms: vec![func_sym(leak(n.clone()), 0x2000, 4)], ..Elf::default() } };
    let t = dump(&ObjectInfo::from_elf(&e.build(), "lib.so", Platform::Linux, None, true).unwrap()); if !is_symbolic() && std::env::var("VH_SHOW").is_ok() { eprintln!("{}", String::from_utf8_lossy(&t)); } let s = parse(&t);
    check(at(&s, 0x2000).is_some_and(|r| r.name == n && r.public == (wh == 1)), "a name that is not mangled is kept"); reach("end");
});
// the public symbol of a PDB file, alone or at a function, and the functions that are named by their debug information alone
harness!(h_dem_pdb, {
    const P: [(&str, &str); 4] = [("?%@@YAHH@Z", "%(int)"), ("?%@b@@QEAAXXZ", "b::%(void)"), ("??0%@@QEAA@XZ", "%::%(void)"), ("??4%@@QEAAAEAV0@AEBV0@@Z", "%::operator=(% const&)")];
    let k = choice(4, "name") as usize; let x = u(b'a' as u64, b'z' as u64, "letter") as u8; let n = fill(P[k].0, x); let want = fill(P[k].1, x); let f = choice(2, "function") == 1;
    let s = from_pdb(Pdb { funcs: if f { vec![PFunc { name: "w", off: 0x1000, len: 4, rows: vec![], inl: vec![] }] } else { vec![] }, pubs: vec![(n, 0x1000)], ..Pdb::default() }, false);
    check(at(&s, 0x2000).is_some_and(|r| r.name == want && r.public != f), "a mangled symbol is demangled");
    reach("end");
});
// a function that its debug information alone names
harness!(h_dem_anon, {
    const P: [(&str, &str); 5] = [("`anonymous namespace'::%", "(anonymous namespace)::%"), ("b::`anonymous namespace'::c::%", "b::(anonymous namespace)::c::%"), ("`anonymous namespace'::%::`anonymous namespace'::b", "(anonymous namespace)::%::(anonymous namespace)::b"), ("`anonymous%'", "`anonymous%'"), ("b::operator%", "b::operator%")];
    let k = choice(5, "name") as usize; let x = u(b'a' as u64, b'z' as u64, "letter") as u8; let n = fill(P[k].0, x); let want = fill(P[k].1, x); let inl = choice(2, "inlined") == 1;
    let mut f = PFunc { name: leak(n.clone()), off: 0x1000, len: 4, rows: vec![(0, 1, 0)], inl: vec![] }; if inl { f.name = "w"; f.inl.push(PInl { origin: 0, pieces: vec![(1, 2, 0)], kids: vec![] }); }
    let s = from_pdb(Pdb { funcs: vec![f], files: vec![b"a.c".to_vec()], origins: if inl { vec![(leak(n), 0, 30)] } else { vec![] }, ..Pdb::default() }, inl);
    if inl { let mut w = want; w.extend_from_slice(b"()"); check(s.origins.len() == 1 && s.origins[0] == w, "an anonymous namespace of an inlined function is named as on other platforms"); } else { check(at(&s, 0x2000).is_some_and(|r| r.name == want && !r.public), "an anonymous namespace is named as on other platforms"); }
    reach("end");
});
