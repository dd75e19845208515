//! C19: the symbol file depends on nothing but the input.
use crate::elf::*;
use crate::merge::{dwarf, info, merge, Fun};
use crate::store::{config, p};
use crate::sym::*;
use dump_syms::dumper::{self, FileOutput, Output};
use dump_syms::object_info::ObjectInfo;
fn same(a: Vec<u8>, b: Vec<u8>) { if !is_symbolic() && std::env::var("VH_SHOW").is_ok() { eprintln!("{}\n----\n{}", String::from_utf8_lossy(&a), String::from_utf8_lossy(&b)); } check(a == b, "dumping the same files again gives the same symbol file"); }
fn twice(f: &dyn Fn() -> Vec<u8>) { hash_order(0); let a = f(); hash_order(1 + choice(3, "order")); same(a, f()); reach("end"); }
fn f(name: &'static str, low: u64, file: usize) -> Fun { Fun { name, low, size: 4, file, line: 3, inl: Some((file % 2, 5)) } }
// files merged: which source files and inlined functions are new to the other one varies
harness!(h_det_merge, {
    let a = u(0x2000, 0x20f0, "a"); let l = u(1, 9, "line"); let which = choice(3, "shared file") as usize; let order = choice(2, "sides");
    let mut fs = vec![]; for (i, n) in ["f0", "f1", "f2", "f3"].into_iter().enumerate() { fs.push(Fun { line: l, ..f(n, a + 0x10 * i as u64, which) }); }
    let mut gs = vec![]; for (i, n) in ["g0", "g1", "g2"].into_iter().enumerate() { gs.push(Fun { inl: Some((i + 1, 5)), ..f(n, 0x3000 + 0x10 * i as u64, i) }); }
    twice(&|| { let x = info(Elf { dwarf: dwarf(&fs), ..Elf::default() }, "a", true); let y = info(Elf { dwarf: dwarf(&gs), syms: vec![func_sym("s", 0x4000, 0)], ..Elf::default() }, "b", true); dump(&if order == 0 { merge(x, y) } else { merge(y, x) }) });
});
// one file of each kind
harness!(h_det_one, {
    let a = u(0x2000, 0x20f0, "a"); let inl = choice(2, "inlines") == 1; let mut fs = vec![]; for (i, n) in ["f0", "f1", "f2"].into_iter().enumerate() { fs.push(f(n, a + 0x10 * i as u64, i)); }
    let e = Elf { dwarf: dwarf(&fs), syms: vec![func_sym("s", 0x3000, 0), func_sym("t", 0x3000, 0), func_sym("f0", a, 4)], eh: vec![(0x2000, 8), (0x2800, 8)], ..Elf::default() }.build();
    twice(&|| dump(&ObjectInfo::from_elf(&e, "lib.so", dump_syms::platform::Platform::Mac, None, inl).unwrap()));
});
// with mappings, through the file system
harness!(h_det_map, {
    fs_dir(&p("out")); setenv("HOME", &p("home")); let mut fs = vec![]; for (i, n) in ["f0", "f1"].into_iter().enumerate() { fs.push(f(n, 0x2000 + 0x10 * i as u64, i)); }
    fs_file(&p("in/lib.so"), &Elf { dwarf: dwarf(&fs), ..Elf::default() }.build()); let vars = choice(2, "variables") == 1;
    twice(&|| { let mut c = config(Output::File(FileOutput::Path(p("out/x.sym").into()))); c.mapping_src = Some(vec!["/c/(.*)", "(.*)"]); c.mapping_dest = Some(vec!["v:{1}:{rev}", "w:{1}"]); c.mapping_var = Some(if vars { vec!["rev=1", "x=2", "rev=3"] } else { vec!["rev=1", "x=2"] }); check(dumper::single_file(&c, &p("in/lib.so")).is_ok(), "dumping a readable file succeeds"); fs_read(&p("out/x.sym")).unwrap() });
});
