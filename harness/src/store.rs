//! C09: where symbols go; C12: a success means they are all there; C18: the header of a symbol file.
use crate::elf::*;
use crate::sym::*;
use crate::paths::store_oracle;
use dump_syms::dumper::{self, Config, FileOutput, Output};
use dump_syms::object_info::ObjectInfo;
use dump_syms::platform::Platform;
use std::path::PathBuf;

pub const ROOT: &str = "/tmp/vhfs";
pub fn p(s: &str) -> String { format!("{ROOT}/{s}") }
pub fn config<'a>(output: Output) -> Config<'a> { Config { check_cfi: false, emit_inlines: false, ..Config::with_output(output) } }
fn small(soname: Option<&[u8]>) -> Elf { Elf { syms: vec![func_sym("s", 0x2000, 4)], soname: soname.map(|s| s.to_vec()), ..Elf::default() } }
pub fn all_files() -> Vec<String> { let mut v = vec![]; let mut i = 0; while let Some(f) = fs_list(i) { v.push(f); i += 1; } v }
const ID: &str = "A3A2A1A0B1B0C1C0D0D1D2D3D4D5D6D70";
fn output(kind: u64, file: &str, store: &str) -> Output {
    let f = FileOutput::Path(PathBuf::from(file));
    match kind { 0 => Output::File(f), 1 => Output::Store(PathBuf::from(store)), _ => Output::FileAndStore { file: f, store_directory: PathBuf::from(store) } }
}
fn expected(elf: &[u8], name: &str, plat: Platform) -> Vec<u8> { dump(&ObjectInfo::from_elf(elf, name, plat, None, false).unwrap()) }
/// dump a library whose own name is `so` and whose file is `name`, and look at every file that exists afterwards
fn stored(so: Option<&[u8]>, name: &str, want: &[u8]) {
    let kind = choice(3, "output"); let elf = small(so).build(); let text = expected(&elf, name, Platform::Linux);
    fs_dir(&p("out")); fs_file(&p(&format!("in/{name}")), &elf); let file = p("out/x.sym"); let store = p("store");
    let r = dumper::single_file(&config(output(kind, &file, &store)), &p(&format!("in/{name}")));
    check(r.is_ok(), "dumping a readable file succeeds");
    let spath = p(&format!("store/{}", String::from_utf8_lossy(&store_oracle(want, ID.as_bytes()))));
    let mut n = 1; if kind != 1 { n += 1; let d = fs_read(&file); check(d.is_some(), "the output file exists"); check(d.unwrap() == text, "the output file has the symbols"); }
    if kind != 0 { n += 1; let d = fs_read(&spath); check(d.is_some(), "the symbols are stored as NAME/ID/NAME.sym in the store"); check(d.unwrap() == text, "the file in the store has the symbols"); }
    for f in all_files() { check(f.starts_with(&p("in/")) || f.starts_with(&p("out/")) || f.starts_with(&p("store/")), "nothing is written outside the output file and the store"); }
    check(all_files().len() == n, "nothing else is written");
    reach("end");
}
harness!(h_store_names, {
    const N: [&str; 9] = ["lib.so", "a.PDB", "a.pdb", "x.dl_", "x.Ex_", "x.pd_", "noext", ".pdb", "a.b.pdb"];
    let n = N[choice(9, "name") as usize]; let so = choice(3, "soname");
    match so { 0 => stored(None, n, n.as_bytes()), 1 => { let s = format!("dir/{n}"); stored(Some(s.as_bytes()), "other", n.as_bytes()) } _ => stored(Some(n.as_bytes()), "other", n.as_bytes()) }
});
// the library's own name is made of any components: the symbols stay in the store
harness!(h_store_soname, {
    const P: [&str; 6] = ["a", ".", "..", "", "é", "b.pdb"]; let mut s = String::new(); let k = 1 + choice(2, "components"); let mut last = "";
    for i in 0..k { if i > 0 { s.push('/'); } last = P[choice(6, "component") as usize]; s.push_str(last); }
    // a name that names no file is not used
    let want = if last.is_empty() || last == "." || last == ".." { "fallback" } else { last };
    stored(Some(s.as_bytes()), "fallback", want.as_bytes())
});
harness!(h_store_soname_any, {
    let b = bytes(2, "soname"); for c in &b { assume(*c == b'a' || *c == b'.' || *c == b'/'); }
    let mut k = 2; while k > 0 && b[k - 1] != b'/' { k -= 1; } let last = conc_bytes(&b[k..]);
    let want = if last.is_empty() || last == b"." || last == b".." { b"fallback".to_vec() } else { last };
    stored(Some(&b), "fallback", &want)
});
fn conc_bytes(b: &[u8]) -> Vec<u8> { b.iter().map(|c| conc(*c as u64) as u8).collect() }
// ---- C12 ----
pub const F_WRITE: u64 = 1;
// any sequence of failing or partial writes (and failing creations): success means the whole text is there
harness!(h_write_fault, {
    let kind = choice(4, "output"); let mut e = small(None);
    // long: the text does not fit in one buffer; a single record may not either
    let long = choice(3, "long"); if long > 0 { let n = "n".repeat(if long == 1 { 3000 } else { 9000 }); for i in 0..(if long == 1 { 4 } else { 1 }) { e.syms.push(func_sym(&n, 0x2100 + 8 * i, 4)); } }
    let elf = e.build();
    let text = expected(&elf, "lib.so", Platform::Linux); fs_dir(&p("out")); fs_file(&p("in/lib.so"), &elf);
    let old = choice(2, "an older file is there") == 1; if old { fs_file(&p("out/x.sym"), b"old contents\n"); }
    faults(0xff, if tier() == 1 { 4 } else { 3 });
    allow_panic(true);
    let r = dumper::single_file(&config(if kind == 3 { Output::File(FileOutput::Stdout) } else { output(kind, &p("out/x.sym"), &p("store")) }), &p("in/lib.so"));
    let failed = r.is_err(); faults(0, 0);
    if failed { reach("error"); check(fault_count() > 0, "dumping fails only when something failed"); }
    else {
        if fault_count() > 0 { reach("tolerated"); }
        if kind == 3 { check(stdout() == text, "success means all the symbols were written on the standard output"); }
        if kind == 0 || kind == 2 { let d = fs_read(&p("out/x.sym")); check(d.is_some() && d.unwrap() == text, "success means the output file has all the symbols"); }
        if kind == 1 || kind == 2 { let d = fs_read(&p(&format!("store/lib.so/{ID}/lib.so.sym"))); check(d.is_some() && d.unwrap() == text, "success means the file in the store has all the symbols"); }
    }
    reach("end");
});
// ---- C18 ----
harness!(h_header, {
    let n = [1usize, 8, 15, 16, 17, 20, 32][choice(7, "build id length") as usize]; let mut id: Vec<u8> = (0..n as u8).map(|i| i.wrapping_mul(37) ^ 0x5b).collect();
    // any two bytes take any value
    let k = choice(n as u64, "position") as usize; let v = bytes(2, "build id"); id[k] = v[0]; if k + 1 < n { id[k + 1] = v[1]; }
    let (m, cpu): (u16, &[u8]) = [(62, &b"x86_64"[..]), (183, b"arm64"), (21, b"ppc64")][choice(3, "machine") as usize];
    let pl = choice(3, "platform"); let elf = Elf { machine: m, build_id: Some(id.clone()), syms: vec![func_sym("s", 0x2000, 4)], ..Elf::default() }.build();
    let s = parse(&expected(&elf, "lib.so", [Platform::Linux, Platform::Mac, Platform::Win][pl as usize]));
    check(s.module[0] == [&b"Linux"[..], b"Mac", b"windows"][pl as usize], "MODULE names the platform"); check(s.module[1] == cpu, "MODULE names the architecture"); check(s.module[3] == b"lib.so", "MODULE names the file");
    // the debug id: the first 16 bytes of the build id as a GUID, and age 0
    let mut g = id.clone(); g.resize(16, 0); let o = [3usize, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15];
    check(s.module[2].len() == 33, "the debug id has 33 digits"); let hexd = |c: u8| if c < 10 { b'0' + c } else { b'A' + c - 10 };
    for i in 0..16 { check(s.module[2][2 * i] == hexd(g[o[i]] >> 4) && s.module[2][2 * i + 1] == hexd(g[o[i]] & 15), "the debug id comes from the build id"); } check(s.module[2][32] == b'0', "the debug id ends with the age");
    check(s.infos.len() == 1 && s.infos[0].len() == 8 + 2 * n && s.infos[0].starts_with(b"CODE_ID "), "INFO CODE_ID has the whole build id"); for i in 0..n { check(s.infos[0][8 + 2 * i] == hexd(id[i] >> 4) && s.infos[0][9 + 2 * i] == hexd(id[i] & 15), "INFO CODE_ID is the build id"); }
    reach("end");
});
// the INFO lines asked for follow, each once and in the order given, with the values they were given
harness!(h_info, {
    let n = choice(4, "lines") as usize; let a = bytes(2, "value"); for c in &a { assume(*c >= 0x20 && *c < 0x7f); }
    let mut lines: Vec<Vec<u8>> = vec![]; for i in 0..n { lines.push([&b"RELEASECHANNEL nightly"[..], b"VERSION ", b"VENDOR  Mozilla "][(i + choice(2, "kind") as usize) % 3].to_vec()); if i == n / 2 { lines[i].extend_from_slice(&a); } }
    let id = choice(2, "build id") == 1; let mut e = Elf { build_id: if id { Some((0..20).collect()) } else { None }, syms: vec![func_sym("s", 0x2000, 4)], ..Elf::default() }; e.soname = None; let elf = e.build();
    let bare = expected(&elf, "lib.so", Platform::Linux); let b = parse(&bare);
    let _ = dump_syms::common::EXTRA_INFO.set(lines.iter().map(|l| String::from_utf8(l.clone()).unwrap()).collect());
    let text = expected(&elf, "lib.so", Platform::Linux); let s = parse(&text);
    check(s.infos.len() == b.infos.len() + n, "each INFO line asked for is there once"); for i in 0..b.infos.len() { check(s.infos[i] == b.infos[i], "INFO CODE_ID comes first"); }
    for i in 0..n { check(s.infos[b.infos.len() + i] == lines[i], "the INFO lines are those asked for, in their order"); }
    let mut want = bare.len(); for l in &lines { want += l.len() + 6; } check(text.len() == want, "nothing else is different");
    reach("end");
});
// without unwind information there is no output when it is required
harness!(h_check_cfi, {
    let cfi = choice(2, "unwind information") == 1; let req = choice(2, "required") == 1; let kind = choice(3, "output");
    let mut e = small(None); let (a, l) = (u(0x2000, 0x20ff, "address"), u(1, 0xff, "length")); if cfi { e.eh.push((a, l)); } let elf = e.build(); let text = expected(&elf, "lib.so", Platform::Linux);
    fs_dir(&p("out")); fs_file(&p("in/lib.so"), &elf);
    let mut c = config(output(kind, &p("out/x.sym"), &p("store"))); c.check_cfi = req;
    let r = dumper::single_file(&c, &p("in/lib.so"));
    check(r.is_ok() == (cfi || !req), "dumping fails exactly when unwind information is required and absent");
    if r.is_err() { check(all_files().len() == 1, "a failed dump writes nothing"); reach("refused"); }
    else { let f = if kind == 1 { p(&format!("store/lib.so/{ID}/lib.so.sym")) } else { p("out/x.sym") }; let d = fs_read(&f); check(d.is_some() && d.unwrap() == text, "the symbols are written"); check(all_files().len() == if kind == 2 { 3 } else { 2 }, "nothing else is written"); let s = parse(&text); check(s.stack.is_empty() == !cfi, "unwind information gives STACK records"); }
    reach("end");
});
