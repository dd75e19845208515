//! C08: source paths are mapped by the given templates.
use crate::elf::*;
use crate::store::{config, p};
use crate::sym::*;
use dump_syms::dumper::{self, Config, FileOutput, Output};
use std::path::PathBuf;

fn elf(name: &str) -> Vec<u8> { Elf { dwarf: Some(Dwarf::new(vec![Unit { comp_dir: b"/c".to_vec(), files: vec![(name.as_bytes().to_vec(), 0)], funcs: vec![Func { name: "f", low: 0x2000, size: 4, inl: vec![] }], seqs: vec![(vec![Row { addr: 0x2000, line: 1, file: 1 }], 0x2004)], ..Unit::default() }])), ..Elf::default() }.build() }
fn base<'a>() -> Config<'a> { config(Output::File(FileOutput::Path(PathBuf::from(p("out/x.sym"))))) }
/// the path in the FILE record, or nothing when dumping was refused
fn mapped(c: &Config, name: &str) -> Option<Vec<u8>> {
    fs_dir(&p("out")); fs_file(&p("in/lib.so"), &elf(name));
    let r = dumper::single_file(c, &p("in/lib.so"));
    if r.is_err() { check(fs_read(&p("out/x.sym")).is_none(), "a refused dump writes nothing"); return None; }
    let t = fs_read(&p("out/x.sym")).unwrap(); if !is_symbolic() && std::env::var("VH_SHOW").is_ok() { eprintln!("{}", String::from_utf8_lossy(&t)); }
    let s = parse(&t); check(s.files.len() == 1, "a source file has one FILE record"); Some(s.files[0].clone())
}
/// the documented template rules: None: an invalid name between braces; Some(None): a group that does not take part
fn template(t: &[u8], groups: &[Option<&[u8]>], vars: &[(&[u8], &[u8])]) -> Option<Option<Vec<u8>>> {
    let mut out = vec![]; let mut lit = 0; let mut open = None; let mut absent = false; let mut i = 0;
    while i < t.len() {
        if t[i] == b'{' { open = Some(i); }
        else if t[i] == b'}' { if let Some(o) = open {
            out.extend_from_slice(&t[lit..o]); let n = &t[o + 1..i]; let mut done = false;
            for (k, v) in vars { if !done && n == *k { out.extend_from_slice(v); done = true; } }
            if !done {
                if n.is_empty() { return None; } let mut g = 0usize; for c in n { if !c.is_ascii_digit() { return None; } g = g * 10 + (*c - b'0') as usize; }
                match groups.get(conc(g as u64) as usize) { Some(Some(v)) => out.extend_from_slice(v), _ => absent = true }
            }
            open = None; lit = i + 1;
        } }
        i += 1;
    }
    out.extend_from_slice(&t[lit..]);
    Some(if absent { None } else { Some(out) })
}
const RE: &str = "^/c/(a)?(b.*)$";
fn groups(name: &str) -> Option<Vec<Option<Vec<u8>>>> {
    let b = name.as_bytes(); let (g1, rest) = if b[0] == b'a' { (Some(vec![b'a']), &b[1..]) } else { (None, b) };
    if rest.is_empty() || rest[0] != b'b' { return None; }
    let mut whole = b"/c/".to_vec(); whole.extend_from_slice(b); Some(vec![Some(whole), g1, Some(rest.to_vec())])
}
fn subst(t: &[u8], name: &str, vars: &[(&[u8], &[u8])]) -> Option<Option<Vec<u8>>> {
    let g = groups(name); match g { None => { template(t, &[Some(b""), Some(b""), Some(b"")], vars)?; Some(None) } Some(g) => { let g: Vec<Option<&[u8]>> = g.iter().map(|x| x.as_deref()).collect(); template(t, &g, vars) } }
}
fn path(name: &str) -> Vec<u8> { let mut v = b"/c/".to_vec(); v.extend_from_slice(name.as_bytes()); v }
fn result(got: Option<Vec<u8>>, want: Option<Option<Vec<u8>>>, name: &str) {
    match want {
        None => { reach("refused"); check(got.is_none(), "an invalid template is refused"); }
        Some(w) => { check(got.is_some(), "a valid template is accepted"); if w.is_some() { reach("mapped"); } check(got.unwrap() == w.unwrap_or(path(name)), "the path is the template with groups and variables filled in, and stays as it is when nothing matches"); }
    }
}
// any template over an alphabet with braces, group numbers and a variable
harness!(h_map_template, {
    let n = choice(if tier() == 1 { 7 } else { 6 }, "n") as usize; let t = bytes(n, "template"); for c in &t { assume(*c == b'{' || *c == b'}' || *c == b'v' || *c == b'x' || (*c >= b'0' && *c <= b'3')); }
    let name = ["ab.c", "b.c", "z.c"][choice(3, "name") as usize]; let s = unsafe { std::str::from_utf8_unchecked(&t) };
    let mut c = base(); c.mapping_var = Some(vec!["v=V"]); c.mapping_src = Some(vec![RE]); c.mapping_dest = Some(vec![s]);
    let got = mapped(&c, name); result(got, subst(&t, name, &[(b"v", b"V")]), name);
    reach("end");
});
// longer templates, made of whole pieces
harness!(h_map_pieces, {
    const P: [&str; 9] = ["{1}", "{2}", "{0}", "{rev}", "lit/", "{", "}", "{9}", "é"]; let mut t = String::from(if choice(2, "prefix") == 1 { "https://s/" } else { "" });
    for i in 0..3 { t.push_str(P[choice(if i == 2 && tier() == 0 { 4 } else { 9 }, "piece") as usize]); }
    let name = ["ab.c", "b.c"][choice(2, "name") as usize];
    let mut c = base(); c.mapping_var = Some(vec!["rev=1{2}3=4"]); c.mapping_src = Some(vec![RE]); c.mapping_dest = Some(vec![&t]);
    let got = mapped(&c, name); result(got, subst(t.as_bytes(), name, &[(b"rev", b"1{2}3=4")]), name);
    reach("end");
});
// several mappings: from the command line and from a file; the first that applies is used
harness!(h_map_order, {
    // each mapping matches ab.c, b.c or both
    let re = ["^/c/(a)?(b.*)$", "^/c/a(b).*$", "^/c/(b).*$", "^/d/(b).*$"]; let name = ["ab.c", "b.c"][choice(2, "name") as usize];
    let hit = |k: usize| match k { 0 => true, 1 => name == "ab.c", 2 => name == "b.c", _ => false };
    // group 1 of the first expression takes no part in b.c
    let fill = |k: usize| match k { 0 => if name == "ab.c" { Some("a") } else { None }, _ => Some("b") };
    let ncmd = choice(3, "on the command line") as usize; let ks: Vec<usize> = (0..ncmd).map(|_| choice(if ncmd > 1 && tier() == 0 { 3 } else { 4 }, "expression") as usize).collect();
    let nfile = choice(3, "in the file") as usize; let wide = tier() == 1; let mut fs: Vec<(usize, u64)> = vec![]; for _ in 0..nfile { let k = choice(if wide { 4 } else if ncmd > 1 || nfile > 1 { 2 } else { 4 }, "file expression") as usize; fs.push((k, choice(if nfile == 1 && ncmd == 0 || wide { 7 } else { 3 }, "files"))); }
    let mut json = String::from("{\"variables\": {\"v\": \"file\", \"w\": \"W\"}, \"mappings\": [");
    for (i, (k, f)) in fs.iter().enumerate() { if i > 0 { json.push(','); } json.push_str(&format!("{{\"source\": \"{}\", \"destination\": \"f{i}:{{v}}{{w}}:{{1}}\", \"files\": [{}]}}", re[*k], match f { 0 => "".to_string(), 1 => format!("\"/c/{name}\""), 2 => "\"/c/other\"".to_string(), 3 => format!("\"/c/other\", \"/c/{name}\""), 4 => "\"/c/other\", \"/c/more\"".to_string(), 5 => format!("\"{name}\""), _ => format!("\"/C/{}\", \"/c/{name}/x\"", name.to_uppercase()) })); }
    json.push_str("]}"); let over = nfile < 2 && choice(2, "variable given twice") == 1;
    fs_file(&p("in/map.json"), json.as_bytes()); let mf = p("in/map.json");
    let dests: Vec<String> = (0..ncmd).map(|i| format!("c{i}:{{1}}")).collect();
    let mut c = base(); if over { c.mapping_var = Some(vec!["v=cmd"]); }
    if ncmd > 0 { c.mapping_src = Some(ks.iter().map(|k| re[*k]).collect()); c.mapping_dest = Some(dests.iter().map(|s| &s[..]).collect()); }
    if nfile > 0 || choice(2, "file given") == 1 { c.mapping_file = Some(&mf); } else { fs.clear(); }
    let got = mapped(&c, name); check(got.is_some(), "valid mappings are accepted"); let v = if over { "cmd" } else { "file" };
    let mut want = None;
    for pass in 0..2 { for (i, (k, f)) in fs.iter().enumerate() { if (pass == 0) == (*f > 0) && (*f < 2 || *f == 3) && want.is_none() && hit(*k) { if let Some(g) = fill(*k) { want = Some(format!("f{i}:{v}W:{g}")); } } } }
    for (i, k) in ks.iter().enumerate() { if want.is_none() && hit(*k) { if let Some(g) = fill(*k) { want = Some(format!("c{i}:{g}")); } } }
    if want.is_some() { reach("mapped"); }
    check(got.unwrap() == want.unwrap_or(format!("/c/{name}")).as_bytes(), "the first mapping that applies is used: the file's for named files, the file's others, then the command line's");
    reach("end");
});
// what is not a mapping is refused
harness!(h_map_refused, {
    let k = choice(11, "case"); let mut c = base(); let x = u(b'a' as u64, b'z' as u64, "x") as u8; let var = [b'v', x]; let var = unsafe { std::str::from_utf8_unchecked(&var) }; let missing = p("in/none.json"); let bad = p("in/bad.json");
    match k {
        0 => c.mapping_var = Some(vec![var]),
        1 => { c.mapping_src = Some(vec![RE, RE]); c.mapping_dest = Some(vec!["x"]); }
        2 => c.mapping_src = Some(vec![RE]),
        3 => c.mapping_dest = Some(vec!["x"]),
        4 => { c.mapping_src = Some(vec!["(a"]); c.mapping_dest = Some(vec!["x"]); }
        5 => c.mapping_file = Some(&missing),
        6 => { fs_file(&bad, b"{\"variables\": {}"); c.mapping_file = Some(&bad); }
        7 => { fs_file(&bad, b"{\"variables\": {}, \"mappings\": [{\"source\": \"(a\", \"destination\": \"x\", \"files\": [\"/d\"]}]}"); c.mapping_file = Some(&bad); }
        8 => { fs_file(&bad, b"{\"variables\": {}, \"mappings\": [{\"source\": \"^/c\", \"destination\": \"x\", \"files\": []}, {\"source\": \"^/d\", \"destination\": \"{y}\", \"files\": [\"/d\"]}]}"); c.mapping_file = Some(&bad); }
        9 => { c.mapping_src = Some(vec![RE, "^/d"]); c.mapping_dest = Some(vec!["x", "{y}"]); }
        _ => { c.mapping_var = Some(vec!["a=b", var]); c.mapping_src = Some(vec![RE]); c.mapping_dest = Some(vec!["x"]); }
    }
    check(mapped(&c, "b.c").is_none(), "what is not a mapping is refused"); reach("end");
});
// the digest is that of the source file
harness!(h_map_digest, {
    let up = choice(2, "upper case") == 1; let there = choice(2, "the file exists") == 1; let k = choice(3, "contents") as usize; let long = vec![b'x'; 9000]; let txt: &[u8] = [&b""[..], b"abc", &long][k];
    const D: [&str; 3] = ["cf83e1357eefb8bdf1542850d66d8007d620e4050b5715dc83f4a921d36ce9ce47d0d13c5d85f2b0ff8318d2877eec2f63b931bd47417a81a538327af927da3e", "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f", "19b8941141c85eef29862fe492f00ef8a68bf8d9810a73345955394f7a4c4d97cbda065c9e4ab35edfde9ad4a7ef8256f39df3d15df233a4a42b02c520e602ee"];
    let src = p("c/s.c"); if there { fs_file(&src, txt); }
    let more = choice(2, "another mapping") == 1; let mut c = base(); c.mapping_src = Some(if more { vec![".*", ".*"] } else { vec![".*"] }); let mut dest = vec!["other"]; dest.truncate(more as usize); dest.insert(0, if up { "{DIGEST}/s" } else { "{digest}/s" }); c.mapping_dest = Some(dest);
    let got = mapped(&c, &src); check(got.is_some(), "dumping goes on without the digest"); let d = D[k];
    let want = if there { if up { format!("{}/s", d.to_uppercase()) } else { format!("{d}/s") } } else { src.clone() };
    check(got.unwrap() == want.as_bytes(), "the digest is the SHA-512 of the source file; without the file the path stays"); reach("end");
});
// two source files, in one object file or in two that are merged: each is mapped by itself, whatever was mapped before
harness!(h_map_two, {
    const D: [&str; 3] = ["/c", "/d", "/c/x"]; const N: [&str; 2] = ["b.c", "ab.c"]; let (d1, n1, d2, n2) = (choice(2, "directory") as usize, choice(2, "name") as usize, choice(3, "directory") as usize, choice(2, "name") as usize);
    let k = choice(3, "mappings"); let two = choice(2, "object files") == 1; let (l1, l2) = (u(1, 9, "line"), u(1, 9, "line"));
    let un = |d: usize, n: usize, low: u64, line: u64| Unit { comp_dir: D[d].as_bytes().to_vec(), files: vec![(N[n].as_bytes().to_vec(), 0)], funcs: vec![Func { name: if low == 0x2000 { "f" } else { "g" }, low, size: 4, inl: vec![] }], seqs: vec![(vec![Row { addr: low, line, file: 1 }], low + 4)], ..Unit::default() };
    let mk = |v: Vec<Unit>| Elf { dwarf: Some(Dwarf::new(v)), soname: Some(b"lib.so".to_vec()), ..Elf::default() }.build(); let (u1, u2) = (un(d1, n1, 0x2000, l1), un(d2, n2, 0x2010, l2));
    fs_dir(&p("store")); let (f1, f2) = (p("in/one"), p("in/two")); if two { fs_file(&f1, &mk(vec![u1])); fs_file(&f2, &mk(vec![u2])); } else { fs_file(&f1, &mk(vec![u1, u2])); }
    let mut c = config(Output::Store(PathBuf::from(p("store")))); c.num_jobs = 1;
    c.mapping_src = Some(match k { 0 => vec!["^/c/(.*)$"], 1 => vec!["^/c/(b.*)$", "^/(.)/(.*)$"], _ => vec!["^.*/([^/]*)$"] }); c.mapping_dest = Some(match k { 0 => vec!["s/{1}"], 1 => vec!["B:{1}", "{1}:{2}"], _ => vec!["{1}"] });
    let want = |d: usize, n: usize| { let path = format!("{}/{}", D[d], N[n]); match k { 0 => if d == 1 { path } else { format!("s/{}", &path[3..]) }, 1 => if d == 0 && n == 0 { format!("B:{}", N[n]) } else { format!("{}:{}", &path[1..2], &path[3..]) }, _ => N[n].to_string() } }.into_bytes(); let (w1, w2) = (want(d1, n1), want(d2, n2));
    threads(1); let ok = if two { dumper::several_files(&c, &[&f1, &f2]).is_ok() } else { dumper::single_file(&c, &f1).is_ok() }; threads(0); check(ok, "readable files are dumped");
    let t = fs_read(&p("store/lib.so/A3A2A1A0B1B0C1C0D0D1D2D3D4D5D6D70/lib.so.sym")); check(t.is_some(), "the symbols are stored"); let s = parse(&t.unwrap());
    for (low, l, w) in [(0x2000, l1, w1), (0x2010, l2, w2)] { let r = s.recs.iter().find(|r| r.rva == low); check(r.is_some_and(|r| !r.public && r.lines.len() == 1 && r.lines[0].num == l && r.lines[0].file < s.files.len() as u64 && s.files[conc(r.lines[0].file) as usize] == w), "every source file is mapped by itself"); }
    reach("end");
});
