//! C20: the options of the command line have their effects.
use crate::elf::*;
use crate::mach::{fat, one, ARCHS};
use crate::store::{all_files, p};
use crate::sym::*;
use dump_syms::object_info::ObjectInfo;
use dump_syms::platform::Platform;

const ID: &str = "A3A2A1A0B1B0C1C0D0D1D2D3D4D5D6D70";
/// run the program: its exit status (101: it panicked)
fn run(a: &[&str]) -> u64 { setenv("HOME", &p("home")); let mut v = vec!["dump_syms"]; v.extend_from_slice(a); args(&v); match guarded_exit(vh_cli::run) { Ok(()) => 0, Err(1) => 101, Err(c) => c - 2 } }
fn expected(elf: &[u8], inl: bool) -> Vec<u8> { dump(&ObjectInfo::from_elf(elf, "lib.so", Platform::Linux, None, inl).unwrap()) }
/// the text with more INFO lines after those it has
fn with_info(text: &[u8], lines: &[String]) -> Vec<u8> {
    let mut at = 0; for l in text.split(|c| *c == b'\n') { if l.starts_with(b"MODULE ") || l.starts_with(b"INFO ") { at += l.len() + 1; } else { break; } }
    let mut o = text[..at].to_vec(); for l in lines { o.extend_from_slice(b"INFO "); o.extend_from_slice(l.as_bytes()); o.push(b'\n'); } o.extend_from_slice(&text[at..]); o
}
fn generator() -> String { format!("GENERATOR mozilla/dump_syms {}", vh_cli::VERSION) }
/// a function with an inlined call
fn lib(eh: bool) -> Vec<u8> {
    let l = u(1, 9, "line"); let a = 0x2000 + u(0, 0xf, "address");
    let i = Inl { origin: 0, low: a + 1, size: 2, call_file: 1, call_line: 3, more: vec![], kids: vec![] };
    Elf { eh: if eh { vec![(a, 4)] } else { vec![] }, dwarf: Some(Dwarf::new(vec![Unit { comp_dir: b"/c".to_vec(), files: vec![(b"a.c".to_vec(), 0)], origins: vec!["o"], funcs: vec![Func { name: "f", low: a, size: 4, inl: vec![i] }], seqs: vec![(vec![Row { addr: a, line: l, file: 1 }], a + 4)], ..Unit::default() }])), ..Elf::default() }.build()
}
// where the symbols go, in which spelling the options are and wherever they are; unwind information required; inlined calls
harness!(h_cli_out, {
    let eh = choice(2, "unwind information") == 1; let elf = lib(eh); let inl = choice(2, "inlines") == 1; let mut text = expected(&elf, inl); check((text != expected(&elf, !inl)), "builder");
    fs_dir(&p("out")); let there = choice(2, "missing") == 0; if there { fs_file(&p("in/lib.so"), &elf); } let (f, o, st) = (p("in/lib.so"), p("out/x.sym"), p("store")); let mut v: Vec<String> = vec![];
    let out = choice(6, "output"); let store = choice(4, "store");
    match out { 0 => {} 1 => { v.push("-o".into()); v.push("-".into()); } 2 => { v.push("-o".into()); v.push(o.clone()); } 3 => { v.push("--output".into()); v.push(o.clone()); } 4 => v.push(format!("--output={o}")), _ => v.push("--output=-".into()) }
    match store { 0 => {} 1 => { v.push("-s".into()); v.push(st.clone()); } 2 => { v.push("--store".into()); v.push(st.clone()); } _ => v.push(format!("--store={st}")) }
    let gen = choice(2, "generator") == 1; if !gen { v.push("--no-generator".into()); } else { text = with_info(&text, &[generator()]); }
    if inl { v.push("--inlines".into()); } let cfi = choice(2, "check") == 1; if cfi { v.push("--check-cfi".into()); }
    if choice(2, "file first") == 1 { v.insert(0, f); } else { v.push(f); }
    let v: Vec<&str> = v.iter().map(|s| &s[..]).collect(); let r = run(&v);
    let (tofile, tostore, toout) = ((2..5).contains(&out), store > 0, out == 1 || out == 5 || (out == 0 && store == 0)); let n = there as usize;
    if !there || (cfi && !eh) { check(r != 0, "a file that cannot be dumped is told by the exit status"); check(all_files().len() == n && stdout().is_empty(), "a failed dump writes nothing"); reach("failed"); }
    else {
        check(r == 0, "dumping a readable file succeeds"); reach("dumped");
        check(all_files().len() == n + tofile as usize + tostore as usize, "only what is asked for is written");
        if tofile { check(fs_read(&o).is_some_and(|t| t == text), "the output file has the symbols"); }
        if tostore { check(fs_read(&p(&format!("store/lib.so/{ID}/lib.so.sym"))).is_some_and(|t| t == text), "the store has the symbols"); }
        if toout { check(stdout() == text, "the symbols are on the standard output"); } else { check(stdout().is_empty(), "nothing else is on the standard output"); }
    }
    reach("end");
});
// the INFO lines asked for, in their order, and then that of the program
harness!(h_cli_info, {
    let elf = Elf { syms: vec![func_sym("s", 0x2000 + u(0, 0xff, "address"), 4)], ..Elf::default() }.build(); let mut text = expected(&elf, false); fs_dir(&p("out")); fs_file(&p("in/lib.so"), &elf); let (f, o) = (p("in/lib.so"), p("out/x.sym"));
    const A: [char; 6] = ['A', '_', ' ', 'a', '1', 'é']; let mut s = String::new(); let n = choice(4, "length"); for _ in 0..n { s.push(A[choice(6, "character") as usize]); }
    let c: Vec<char> = s.chars().collect(); let mut k = 0; while k < c.len() && (c[k] == 'A' || c[k] == '_') { k += 1; } let valid = k > 0 && k < c.len() && c[k] == ' ';
    let mut v = vec!["-o", &o, &f]; let mut lines = vec![]; let more = choice(3, "other lines"); let gen = if tier() == 1 { choice(2, "generator") == 1 } else { more != 1 };
    if more > 0 { v.push("--extra-info"); v.push("RELEASECHANNEL nightly"); lines.push("RELEASECHANNEL nightly".to_string()); } v.push("--extra-info"); v.push(&s); lines.push(s.clone()); if more == 2 { v.push("--extra-info"); v.push("VENDOR a  b"); lines.push("VENDOR a  b".to_string()); }
    if gen { lines.push(generator()); } else { v.push("--no-generator"); } text = with_info(&text, &lines);
    let r = run(&v);
    if valid { check(r == 0, "a line that is a keyword and a value is accepted"); check(fs_read(&o).is_some_and(|t| t == text), "the INFO lines asked for are there, in their order, and then the generator"); reach("valid"); }
    else { check(r != 0, "a line that is no keyword and a value is refused"); check(fs_read(&o).is_none(), "nothing is written"); reach("refused"); }
    reach("end");
});
// the architecture of a universal file, and their list
harness!(h_cli_arch, {
    fs_dir(&p("out")); let (a, b) = (choice(4, "architecture") as usize, choice(4, "architecture") as usize); assume(a != b); let (f, g, o) = (p("in/lib.dylib"), p("in/x.dylib"), p("out/x.sym")); let file = fat(&[one(a, "_s0"), one(b, "_s1")]); fs_file(&f, &file);
    if choice(2, "list") == 1 {
        let two = choice(3, "files"); fs_file(&g, &if two == 2 { b"no object".to_vec() } else { fat(&[one(b, "_s1")]) }); let mut v = vec!["--list-arch", &f]; if two > 0 { v.push(&g); } let r = run(&v); let mut w = format!("lib.dylib contains the following architectures:\n{}, {}\n", ARCHS[a].1, ARCHS[b].1); if two == 1 { w.push_str(&format!("x.dylib contains the following architecture:\n{}\n", ARCHS[b].1)); }
        check((r == 0) == (two < 2), "the exit status tells whether all could be listed"); check(stdout() == w.as_bytes(), "the architectures of every file are listed"); check(all_files().len() == 2, "nothing is written"); reach("list");
    } else {
        let w = choice(5, "wanted") as usize; let how = choice(3, "spelling"); let eq = format!("--arch={}", ARCHS[w % 4].1); let mut v = vec!["-o", &o, &f]; if w < 4 { match how { 0 => { v.push("--arch"); v.push(ARCHS[w].1); } 1 => { v.push("-a"); v.push(ARCHS[w].1); } _ => v.push(&eq) } }
        let w = if w == 4 { 0 } else { w }; let r = run(&v); let k = if w == a { Some(&b"s0"[..]) } else if w == b { Some(&b"s1"[..]) } else { None };
        match k { None => { check(r != 0, "an architecture which is not there is an error"); check(all_files().len() == 1, "nothing is written"); reach("none"); }
            Some(n) => { check(r == 0, "the object of the architecture is dumped"); let s = parse(&fs_read(&o).unwrap()); check(s.module[1] == ARCHS[w].1.as_bytes() && s.recs.iter().any(|r| r.rva == 0x2000 && r.name == n), "the object dumped is that of the architecture asked for, by default that of this machine"); reach("one"); } }
    }
    reach("end");
});
// the mappings of the source paths
harness!(h_cli_map, {
    let elf = lib(false); fs_dir(&p("out")); fs_file(&p("in/lib.so"), &elf); let (f, o, m) = (p("in/lib.so"), p("out/x.sym"), p("in/map.json")); let val = u(b'a' as u64, if tier() == 1 { b'z' } else { b'b' } as u64, "value") as u8; let var = String::from_utf8(vec![b'r', b'=', val]).unwrap();
    fs_file(&m, b"{\"variables\": {\"w\": \"W\"}, \"mappings\": [{\"source\": \"^/c/(a).c$\", \"destination\": \"file:{w}:{1}\", \"files\": []}]}");
    let mut v = vec!["-o", &o, &f]; let vars = choice(3, "variables"); if vars > 0 { v.push("--mapping-var"); v.push(&var); } if vars == 2 { v.push("--mapping-var"); v.push("q=Q"); }
    const S: [&str; 2] = ["^/c/(.*)$", "^/d/(.*)$"]; let n = choice(3, "mappings") as usize; let mut want: Option<Vec<u8>> = None;
    let file = choice(2, "file") == 1; if file { v.push("--mapping-file"); v.push(&m); want = Some(b"file:W:a".to_vec()); }
    for i in 0..n { let k = choice(2, "expression") as usize; let d = choice(3, "destination") as usize; if d == 1 && vars == 0 || d == 2 && vars < 2 { assume(false); }
        v.push("--mapping-src"); v.push(S[k]); v.push("--mapping-dest"); v.push(["0/{1}", "{r}/{1}", "{q}{r}/{1}"][d]);
        if k == 0 && want.is_none() { want = Some(match d { 0 => b"0/a.c".to_vec(), 1 => vec![val, b'/', b'a', b'.', b'c'], _ => vec![b'Q', val, b'/', b'a', b'.', b'c'] }); } let _ = i; }
    check(run(&v) == 0, "valid mappings are accepted"); let s = parse(&fs_read(&o).unwrap()); let w = want.unwrap_or(b"/c/a.c".to_vec()); check(s.files.len() == 1 && s.files[0] == w, "the mappings given are used, in their order"); reach("end");
});
// several files: all are dumped, however many jobs there are, and one that cannot be is told by the exit status
harness!(h_cli_many, {
    let id = |k: u8| { let mut v = Elf::default().build_id.unwrap(); v[15] = 0xd0 + k; v }; let mk = |k: u8, n: &'static str| Elf { build_id: Some(id(k)), syms: vec![func_sym(n, 0x2000, 4)], soname: Some(b"lib.so".to_vec()), ..Elf::default() }.build();
    let (a, b, c, st) = (p("in/a"), p("in/b"), p("in/c"), p("store")); fs_file(&a, &mk(0, "s0")); fs_file(&b, &mk(1, "s1")); let bad = choice(3, "third"); let mut v = vec!["-s", &st, &a, &b]; if bad > 0 { fs_file(&c, &if bad == 1 { mk(2, "s2") } else { b"no object".to_vec() }); v.push(&c); }
    match choice(4, "jobs") { 0 => {} 1 => { v.push("-j"); v.push("1"); } 2 => v.push("-j2"), _ => { v.push("-j"); v.push("many"); } }
    // these have no effect on what is stored
    if choice(2, "without effect") == 1 { v.push("--verbose"); v.push("debug"); v.push("-t"); v.push("macho"); }
    threads(0); let r = run(&v); check((r == 0) == (bad < 2), "the exit status tells whether all were dumped"); let n = 2 + (bad == 1) as usize; if bad == 2 { reach("failed"); }
    for i in 0..n { let d = fs_read(&p(&format!("store/lib.so/A3A2A1A0B1B0C1C0D0D1D2D3D4D5D6D{i}0/lib.so.sym"))); check(d.is_some(), "the symbols of every file are stored"); let s = parse(&d.unwrap()); check(s.recs.iter().any(|r| r.rva == 0x2000 && r.name == [b's', b'0' + i as u8]), "what is stored are the symbols of the file"); }
    check(all_files().len() == 2 + (bad > 0) as usize + n, "nothing else is stored"); reach("end");
});
// files by their identifiers, from the servers of the setting
harness!(h_cli_srv, {
    use crate::win::{Pdb, TEXT}; fs_dir(&p("out")); reqwest::serve(|_, _| reqwest::Answer { status: Some(404), body: vec![], broken: false, delay: 0 }); let n = u(0x100, 0x10f, "symbol") as u32; let mk = |s: &[u8]| Pdb { pubs: vec![(s.to_vec(), n)], ..Pdb::default() }.build();
    for (d, i, s) in [("c1", "AAAA1", &b"one"[..]), ("c1", "BBBB2", b"two"), ("c2", "AAAA1", b"three"), ("c2", "BBBB2", b"four")] { fs_file(&p(&format!("{d}/lib.pdb/{i}/lib.pdb")), &mk(s)); } fs_file(&p("in/lib.pdb"), &mk(b"here")); let home = choice(2, "setting at home") == 1; if home { fs_file(&p("home/.dump_syms/config"), format!("srv*{}*http://two.example", p("c2")).as_bytes()); }
    let (f, o) = (p("in/lib.pdb"), p("out/x.sym")); let set = format!("srv*{}*http://one.example", p("c1")); let mut v = vec!["-o", &o, &f]; let given = choice(2, "setting") == 1; if given { v.push("--symbol-server"); v.push(&set); } let files = all_files().len();
    let k = choice(4, "identifiers"); if k & 1 == 1 { v.push("--debug-id"); v.push("AAAA1"); } if k & 2 == 2 { v.push("--code-id"); v.push("BBBB2"); } let r = run(&v);
    let want: Option<&[u8]> = if k == 0 { Some(b"here") } else if given { Some(if k & 1 == 1 { b"one" } else { b"two" }) } else if home { Some(if k & 1 == 1 { b"three" } else { b"four" }) } else { None };
    match want { None => { check(r != 0, "a file that is nowhere is an error"); check(all_files().len() == files, "nothing is written"); reach("nowhere"); }
        Some(w) => { check(r == 0, "a file that is there is dumped"); let s = parse(&fs_read(&o).unwrap()); check(crate::syms::at(&s, TEXT + n as u64).is_some_and(|r| r.name == w), "the file dumped is that of the identifier, in the servers of the setting"); reach("found"); } }
    reach("end");
});
