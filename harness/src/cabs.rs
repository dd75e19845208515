//! C15: files in cabinets.
use crate::store::p;
use crate::sym::*;
use dump_syms::utils;
/// a cabinet with stored (not compressed) files in one folder
pub fn cab(files: &[(&str, &[u8])]) -> Vec<u8> { cab2(files, files.len()) }
/// the first n files in one folder, the others in another
pub fn cab2(files: &[(&str, &[u8])], n: usize) -> Vec<u8> {
    let mut o = vec![]; let w16 = |o: &mut Vec<u8>, v: u16| o.extend_from_slice(&v.to_le_bytes()); let w32 = |o: &mut Vec<u8>, v: u32| o.extend_from_slice(&v.to_le_bytes());
    let folders: Vec<&[(&str, &[u8])]> = if n == files.len() { vec![files] } else { vec![&files[..n], &files[n..]] }; let sizes: Vec<usize> = folders.iter().map(|f| f.iter().map(|f| f.1.len()).sum()).collect();
    let heads: usize = files.iter().map(|f| 16 + f.0.len() + 1).sum(); let at = 36 + 8 * folders.len(); let dat = at + heads; let total = dat + sizes.iter().map(|s| 8 + s).sum::<usize>();
    o.extend_from_slice(b"MSCF"); w32(&mut o, 0); w32(&mut o, total as u32); w32(&mut o, 0); w32(&mut o, at as u32); w32(&mut o, 0); o.extend_from_slice(&[3, 1]); w16(&mut o, folders.len() as u16); w16(&mut o, files.len() as u16); w16(&mut o, 0); w16(&mut o, 1); w16(&mut o, 0);
    let mut d = dat; for s in &sizes { w32(&mut o, d as u32); w16(&mut o, 1); w16(&mut o, 0); d += 8 + s; }
    for (k, f) in folders.iter().enumerate() { let mut off = 0; for (n, d) in f.iter() { w32(&mut o, d.len() as u32); w32(&mut o, off); w16(&mut o, k as u16); w16(&mut o, 0x5a21); w16(&mut o, 0x6000); w16(&mut o, if n.is_ascii() { 0x20 } else { 0xa0 }); o.extend_from_slice(n.as_bytes()); o.push(0); off += d.len() as u32; } }
    for (f, s) in folders.iter().zip(&sizes) { w32(&mut o, 0); w16(&mut o, *s as u16); w16(&mut o, *s as u16); for (_, d) in f.iter() { o.extend_from_slice(d); } } o
}
const DISK: [(&str, &str); 11] = [("lib.pd_", "lib.pdb"), ("lib.dl_", "lib.dll"), ("lib.ex_", "lib.exe"), ("lib.db_", "lib.dbg"), ("lib.pdb", "lib.pdb"), ("lib.dll", "lib.dll"), ("lib.exe", "lib.exe"), ("lib", "lib"), ("lib.x_", "lib.x_"), ("a.b.pd_", "a.b.pdb"), ("lib.so", "lib.so")];
const IN: [&str; 9] = ["lib.pdb", "lib.dll", "lib.exe", "lib.dbg", "lib", "lib.x_", "a.b.pdb", "lib.so", "x/lib.pdb"];
// the file of the cabinet that has the name of the cabinet, with its extension completed
harness!(h_cab_pick, {
    let (disk, want) = DISK[choice(11, "name") as usize]; let (e1, e2) = (IN[choice(9, "first") as usize], IN[choice(9, "second") as usize]); assume(e1 != e2); let (b1, b2) = (bytes(1 + choice(3, "size") as usize, "content"), bytes(3, "content"));
    fs_file(&p(disk), &cab2(&[(e1, &b1), (e2, &b2)], 1 + choice(2, "folder") as usize)); let base = |n: &str| n.rsplit('/').next().unwrap().to_string();
    let r = guarded(|| utils::read_file(p(disk)));
    let (m1, m2) = (base(e1) == want, base(e2) == want);
    match r { Some(d) => { check((m1 && d == b1) || (!m1 && m2 && d == b2), "a cabinet gives its file of the same name"); reach("found"); } None => { check(!m1 && !m2, "a file in a cabinet is found"); reach("missing"); } }
    reach("end");
});
// what is not a cabinet is taken as it is, whatever its name
harness!(h_cab_not, {
    let disk = DISK[choice(11, "name") as usize].0; let n = choice(6, "size") as usize; let b = bytes(n, "content"); if n > 3 { assume(b[..4] != *b"MSCF"); }
    fs_file(&p(disk), &b); let d = utils::read_file(p(disk)); check(d == b, "a file that is no cabinet is read as it is"); reach("end");
});
// a cabinet cut short never gives wrong data; a file in it may be called anything
harness!(h_cab_cut, {
    let b = bytes(3, "content"); let odd = ["lib.dll", "..", "/", "a/..", "é", "\\x"][choice(6, "other name") as usize]; let mut c = cab(&[(odd, b"xy"), ("lib.pdb", &b)]); let n = c.len(); let l = choice(n as u64 + 1, "length") as usize; c.truncate(l);
    fs_file(&p("lib.pd_"), &c); let r = guarded(|| utils::read_file(p("lib.pd_")));
    match r { None => { check(l < n, "a whole cabinet can be read"); reach("refused"); } Some(d) => if l == n { check(d == b, "a cabinet gives its file of the same name"); } else { check(d == c, "a cut cabinet gives no wrong data"); reach("as it is"); } }
    reach("end");
});
