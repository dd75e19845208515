//! Builds small ELF files (with symbol table and DWARF) whose addresses may be symbolic.
pub struct Buf(pub Vec<u8>);
impl Buf {
    pub fn new() -> Buf { Buf(Vec::with_capacity(4096)) }
    pub fn u8(&mut self, v: u8) { self.0.push(v) }
    pub fn u16(&mut self, v: u16) { self.0.extend_from_slice(&v.to_le_bytes()) }
    pub fn u32(&mut self, v: u32) { self.0.extend_from_slice(&v.to_le_bytes()) }
    pub fn u64(&mut self, v: u64) { self.0.extend_from_slice(&v.to_le_bytes()) }
    pub fn s(&mut self, v: &[u8]) { self.0.extend_from_slice(v); self.0.push(0) }
    pub fn raw(&mut self, v: &[u8]) { self.0.extend_from_slice(v) }
    pub fn uleb(&mut self, mut v: u64) { loop { let b = (v & 0x7f) as u8; v >>= 7; if v == 0 { self.u8(b); break; } self.u8(b | 0x80); } }
    /// fixed-length (padded) signed LEB128, so that symbolic values keep the layout concrete
    pub fn sleb5(&mut self, v: i64) { for i in 0..4 { self.u8(((v >> (7 * i)) as u8 & 0x7f) | 0x80); } self.u8((v >> 28) as u8 & 0x7f); }
    pub fn put32(&mut self, at: usize, v: u32) { self.0[at..at + 4].copy_from_slice(&v.to_le_bytes()) }
    pub fn len(&self) -> usize { self.0.len() }
}
pub struct Sec { pub name: &'static str, pub ty: u32, pub flags: u64, pub addr: u64, pub data: Vec<u8>, pub link: u32, pub info: u32, pub ent: u64, pub size: Option<u64> }
pub fn sec(name: &'static str, ty: u32, data: Vec<u8>) -> Sec { Sec { name, ty, flags: 0, addr: 0, data, link: 0, info: 0, ent: 0, size: None } }
pub struct ElfSym { pub name: Vec<u8>, pub value: u64, pub size: u64, pub info: u8, pub shndx: u16 }
pub fn func_sym(name: &str, value: u64, size: u64) -> ElfSym { ElfSym { name: name.as_bytes().to_vec(), value, size, info: 0x12, shndx: 1 } }
/// An ELF64 executable. Section 1 is .text at `text`.
pub struct Elf { pub ty: u16, pub machine: u16, pub text: (u64, u64), pub build_id: Option<Vec<u8>>, pub syms: Vec<ElfSym>, pub dwarf: Option<Dwarf>, pub extra: Vec<Sec>, pub soname: Option<Vec<u8>>, pub eh: Vec<(u64, u64)> }
impl Default for Elf { fn default() -> Elf { Elf { ty: 2, machine: 62, text: (0x1000, 0x8000), build_id: Some(vec![0xa0, 0xa1, 0xa2, 0xa3, 0xb0, 0xb1, 0xc0, 0xc1, 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7]), syms: vec![], dwarf: None, extra: vec![], soname: None, eh: vec![] } } }
impl Elf {
    pub fn build(self) -> Vec<u8> {
        let mut secs: Vec<Sec> = vec![];
        secs.push(Sec { name: ".text", ty: 8, flags: 6, addr: self.text.0, data: vec![], link: 0, info: 0, ent: 0, size: Some(self.text.1) });
        if let Some(id) = &self.build_id { let mut b = Buf::new(); b.u32(4); b.u32(id.len() as u32); b.u32(3); b.s(b"GNU"); b.raw(id); secs.push(Sec { flags: 2, addr: 0x200, ..sec(".note.gnu.build-id", 7, b.0) }); }
        if !self.syms.is_empty() {
            let mut st = Buf::new(); st.u8(0); let mut sy = Buf::new(); for _ in 0..24 { sy.u8(0); }
            for s in &self.syms { let off = st.len() as u32; st.s(&s.name); sy.u32(off); sy.u8(s.info); sy.u8(0); sy.u16(s.shndx); sy.u64(s.value); sy.u64(s.size); }
            let k = secs.len() as u32 + 1;
            secs.push(Sec { link: k + 1, info: 1, ent: 24, ..sec(".symtab", 2, sy.0) });
            secs.push(sec(".strtab", 3, st.0));
        }
        if let Some(d) = self.dwarf { let (info, abbrev, line, strs, ranges) = d.build(); secs.push(sec(".debug_info", 1, info)); secs.push(sec(".debug_abbrev", 1, abbrev)); secs.push(sec(".debug_line", 1, line)); if !strs.is_empty() { secs.push(sec(".debug_line_str", 1, strs)); } if !ranges.is_empty() { secs.push(sec(".debug_ranges", 1, ranges)); } }
        if !self.eh.is_empty() {
            let mut b = Buf::new();
            b.u32(20); b.u32(0); b.raw(&[1, 0, 1, 0x78, 16, 0x0c, 7, 8, 0x90, 1, 0, 0, 0, 0, 0, 0]);
            for (lo, len) in &self.eh { b.u32(20); let here = b.len() as u32; b.u32(here); b.u64(*lo); b.u64(*len); }
            b.u32(0);
            secs.push(Sec { flags: 2, addr: 0x900, ..sec(".eh_frame", 1, b.0) });
        }
        secs.extend(self.extra);
        let mut dynph = None;
        if let Some(so) = &self.soname {
            let mut st = Buf::new(); st.u8(0); st.s(so);
            let staddr = 0x600u64; let k = secs.len() as u32 + 1;
            secs.push(Sec { flags: 2, addr: staddr, ..sec(".dynstr", 3, st.0.clone()) });
            let mut d = Buf::new(); d.u64(14); d.u64(1); d.u64(5); d.u64(staddr); d.u64(10); d.u64(st.len() as u64); d.u64(0); d.u64(0);
            secs.push(Sec { flags: 3, addr: 0x800, link: k, ent: 16, ..sec(".dynamic", 6, d.0) });
            dynph = Some(secs.len() - 1);
        }
        let mut shstr = Buf::new(); shstr.u8(0);
        let mut names = vec![]; for s in &secs { names.push(shstr.len() as u32); shstr.s(s.name.as_bytes()); }
        let shn = shstr.len() as u32; shstr.s(b".shstrtab");
        let nph: u64 = if dynph.is_some() { 2 } else { 1 };
        // layout: header, phdrs, section data, section headers; when a dynamic section exists its addresses equal file offsets
        let mut body = Buf::new(); let mut offs = vec![]; let base = 64 + 56 * nph;
        for s in &secs { while (base as usize + body.len()) % 8 != 0 { body.u8(0); } offs.push(base + body.len() as u64); body.raw(&s.data); }
        let shstroff = base + body.len() as u64; body.raw(&shstr.0);
        while body.len() % 8 != 0 { body.u8(0); }
        let shoff = base + body.len() as u64; let nsec = secs.len() as u16 + 2;
        let mut e = Buf::new();
        e.raw(&[0x7f, b'E', b'L', b'F', 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        e.u16(self.ty); e.u16(self.machine); e.u32(1); e.u64(0); e.u64(64); e.u64(shoff); e.u32(0); e.u16(64); e.u16(56); e.u16(nph as u16); e.u16(64); e.u16(nsec); e.u16(nsec - 1);
        e.u32(1); e.u32(5); e.u64(0); e.u64(0); e.u64(0); e.u64(shoff); e.u64(0x10_0000); e.u64(0x1000);
        if let Some(k) = dynph { e.u32(2); e.u32(6); e.u64(offs[k]); e.u64(offs[k]); e.u64(offs[k]); e.u64(secs[k].data.len() as u64); e.u64(secs[k].data.len() as u64); e.u64(8); }
        if let Some(k) = dynph { // DT_STRTAB must be a mapped address: patch to the file offset of .dynstr
            let at = (offs[k] - base) as usize + 24; body.0[at..at + 8].copy_from_slice(&offs[k - 1].to_le_bytes());
        }
        e.raw(&body.0);
        for _ in 0..64 { e.u8(0); }
        for (i, s) in secs.iter().enumerate() { e.u32(names[i]); e.u32(s.ty); e.u64(s.flags); e.u64(if Some(i) == dynph || (dynph.is_some() && i + 1 == dynph.unwrap()) { offs[i] } else { s.addr }); e.u64(offs[i]); e.u64(s.size.unwrap_or(s.data.len() as u64)); e.u32(s.link); e.u32(s.info); e.u64(1); e.u64(s.ent); }
        e.u32(shn); e.u32(3); e.u64(0); e.u64(0); e.u64(shstroff); e.u64(shstr.len() as u64); e.u32(0); e.u32(0); e.u64(1); e.u64(0);
        save(&e.0);
        e.0
    }
}
#[derive(Clone)]
pub struct Inl { pub origin: usize, pub low: u64, pub size: u64, pub call_file: u8, pub call_line: u32, /// further address ranges
    pub more: Vec<(u64, u64)>, pub kids: Vec<Inl> }
#[derive(Clone)]
pub struct Func { pub name: &'static str, pub low: u64, pub size: u64, pub inl: Vec<Inl> }
/// One line-table row; file is 1-based.
#[derive(Clone)]
pub struct Row { pub addr: u64, pub line: u64, pub file: u8 }
#[derive(Clone)]
pub struct Unit { pub comp_dir: Vec<u8>, pub dirs: Vec<Vec<u8>>, pub files: Vec<(Vec<u8>, u8)>, pub origins: Vec<&'static str>, pub funcs: Vec<Func>, pub seqs: Vec<(Vec<Row>, u64)>, pub high: u64 }
impl Default for Unit { fn default() -> Unit { Unit { high: 0xf000, comp_dir: b"/c".to_vec(), dirs: vec![], files: vec![], origins: vec![], funcs: vec![], seqs: vec![] } } }
pub struct Dwarf { pub units: Vec<Unit>, pub lang: u16, pub v5: bool, pub link: bool } // v5: line tables of DWARF 5, whose units share their strings; link: functions have linkage names
impl Dwarf {
    pub fn new(units: Vec<Unit>) -> Dwarf { Dwarf { units, lang: 0x0c, v5: false, link: false } } // C99: names are taken as they are
    pub fn build(self) -> (Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>) {
        let mut ab = Buf::new();
        ab.raw(&[1, 0x11, 1, 0x03, 0x08, 0x1b, 0x08, 0x13, 0x05, 0x10, 0x17, 0x11, 0x01, 0x12, 0x07, 0, 0]); // CU: name comp_dir language stmt_list low_pc high_pc
        let nm = if self.link { 0x6e } else { 0x03 }; ab.raw(&[2, 0x2e, 1, nm, 0x08, 0x11, 0x01, 0x12, 0x07, 0, 0]); // subprogram: name low_pc high_pc(data8)
        ab.raw(&[3, 0x1d, 1, 0x31, 0x13, 0x11, 0x01, 0x12, 0x07, 0x58, 0x0b, 0x59, 0x06, 0, 0]); // inlined: origin low high call_file(data1) call_line(data4)
        ab.raw(&[4, 0x2e, 0, nm, 0x08, 0x20, 0x0b, 0, 0]); // abstract: name inline
        ab.raw(&[5, 0x1d, 1, 0x31, 0x13, 0x55, 0x17, 0x58, 0x0b, 0x59, 0x06, 0, 0]); // inlined: origin ranges call_file call_line
        ab.u8(0);
        let mut ranges = Buf::new(); let mut info = Buf::new(); let mut line = Buf::new(); let mut strs = Buf::new(); let mut have: Vec<(Vec<u8>, u32)> = vec![];
        let mut shared = |n: &[u8]| { for (h, o) in &have { if h.len() == n.len() && h == n { return *o; } } let o = strs.len() as u32; strs.s(n); have.push((n.to_vec(), o)); o };
        for u in &self.units {
            let start = info.len(); info.u32(0); info.u16(4); info.u32(0); info.u8(8);
            info.u8(1); info.s(b"cu"); info.s(&u.comp_dir); info.u16(self.lang); info.u32(line.len() as u32); info.u64(0x1000); info.u64(u.high);
            let mut offs = vec![];
            for o in &u.origins { offs.push((info.len() - start) as u32); info.u8(4); info.s(o.as_bytes()); info.u8(1); }
            for f in &u.funcs { info.u8(2); info.s(f.name.as_bytes()); info.u64(f.low); info.u64(f.size); for i in &f.inl { emit_inl(&mut info, i, &offs, &mut ranges); } info.u8(0); }
            info.u8(0);
            let l = (info.len() - start - 4) as u32; info.put32(start, l);
            // line program
            let ls = line.len(); line.u32(0); if self.v5 { line.raw(&[5, 0, 8, 0]); } else { line.u16(4); } let hl = line.len(); line.u32(0);
            line.raw(&[1, 1, 1, 0xfb, 14, 13, 0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1]);
            if self.v5 {
                line.raw(&[1, 1, 0x1f]); line.u8(1 + u.dirs.len() as u8); line.u32(shared(&u.comp_dir)); for d in &u.dirs { line.u32(shared(d)); }
                line.raw(&[2, 1, 0x1f, 2, 0x0b]); line.u8(1 + u.files.len() as u8); line.u32(shared(b"cu")); line.u8(0); for (n, d) in &u.files { line.u32(shared(n)); line.u8(*d); }
            } else {
                for d in &u.dirs { line.s(d); } line.u8(0);
                for (n, d) in &u.files { line.s(n); line.uleb(*d as u64); line.u8(0); line.u8(0); } line.u8(0);
            }
            let h = (line.len() - hl - 4) as u32; line.put32(hl, h);
            for (rows, end) in &u.seqs {
                let mut file = 1;
                for r in rows {
                    line.raw(&[0, 9, 2]); line.u64(r.addr);
                    if r.file != file { line.u8(4); line.uleb(r.file as u64); file = r.file; }
                    // back to line 0 (the reader saturates there), then forward: no sign bit to reason about
                    line.u8(3); line.raw(&[0x80, 0x80, 0x80, 0x80, 0x78 & 0x7f | 0x40]); line.u8(3); line.sleb5(r.line as i64);
                    line.u8(1);
                }
                line.raw(&[0, 9, 2]); line.u64(*end); line.raw(&[0, 1, 1]);
            }
            let l = (line.len() - ls - 4) as u32; line.put32(ls, l);
        }
        let strs = if self.v5 { strs.0 } else { vec![] };
        (info.0, ab.0, line.0, strs, ranges.0)
    }
}
fn emit_inl(b: &mut Buf, i: &Inl, offs: &[u32], ranges: &mut Buf) {
    if i.more.is_empty() { b.u8(3); b.u32(offs[i.origin]); b.u64(i.low); b.u64(i.size); }
    else { b.u8(5); b.u32(offs[i.origin]); b.u32(ranges.len() as u32); for (a, n) in [(i.low, i.size)].iter().chain(&i.more) { ranges.u64(a - 0x1000); ranges.u64(a + n - 0x1000); } ranges.u64(0); ranges.u64(0); }
    b.u8(i.call_file); b.u32(i.call_line); for k in &i.kids { emit_inl(b, k, offs, ranges); } b.u8(0);
}

/// A parsed Breakpad symbol file.
#[derive(Default)]
pub struct SymFile { pub module: Vec<Vec<u8>>, pub infos: Vec<Vec<u8>>, pub files: Vec<Vec<u8>>, pub origins: Vec<Vec<u8>>, pub recs: Vec<Rec>, pub stack: Vec<Vec<u8>> }
#[derive(Default)]
pub struct Rec { pub public: bool, pub multi: bool, pub rva: u64, pub len: u64, pub param: u64, pub name: Vec<u8>, pub lines: Vec<Ln>, pub inls: Vec<InlRec> }
pub struct Ln { pub rva: u64, pub len: u64, pub num: u64, pub file: u64, pub text: Vec<u8> }
pub struct InlRec { pub text: Vec<u8>, pub depth: u64, pub line: u64, pub file: u64, pub origin: u64, pub ranges: Vec<(u64, u64)> }
fn hex(b: &[u8]) -> u64 { let mut v = 0u64; for &c in b { v = (v << 4) | ((c & 0xf) + 9 * (c >> 6)) as u64; } v }
fn dec(b: &[u8]) -> u64 { let mut v = 0u64; for &c in b { v = v * 10 + (c & 0xf) as u64; } v }
/// Parses the text; asserts that every line is a well-formed record in the documented order.
pub fn parse(t: &[u8]) -> SymFile {
    use crate::sym::check;
    let mut s = SymFile::default();
    check(t.last() == Some(&b'\n'), "symbol file ends with a newline");
    let mut stage = 0;
    for l in t[..t.len() - 1].split(|&c| c == b'\n') {
        let mut w: Vec<&[u8]> = l.split(|&c| c == b' ').collect();
        let rest = |k: usize| { let mut i = 0; let mut n = 0; while n < k { if i >= l.len() { return vec![]; } if l[i] == b' ' { n += 1; } i += 1; } l[i..].to_vec() };
        match w[0] {
            b"MODULE" => { check(stage == 0, "MODULE comes first"); stage = 1; check(w.len() >= 5, "MODULE has four fields"); s.module = vec![w[1].to_vec(), w[2].to_vec(), w[3].to_vec(), rest(4)]; }
            b"INFO" => { check(stage == 1, "INFO follows MODULE"); s.infos.push(rest(1)); }
            b"FILE" => { check(stage == 1 || stage == 2, "FILE records follow INFO"); stage = 2; check(dec(w[1]) == s.files.len() as u64, "FILE ids are consecutive"); s.files.push(rest(2)); }
            b"INLINE_ORIGIN" => { check((1..=3).contains(&stage), "INLINE_ORIGIN records follow FILE"); stage = 3; check(dec(w[1]) == s.origins.len() as u64, "INLINE_ORIGIN ids are consecutive"); s.origins.push(rest(2)); }
            b"FUNC" | b"PUBLIC" => {
                check((1..=4).contains(&stage), "FUNC/PUBLIC records come before STACK"); stage = 4;
                let public = w[0] == b"PUBLIC"; let multi = w[1] == b"m"; let mut k = 1; if multi { w.remove(1); k = 2; }
                let mut r = Rec { public, multi, ..Rec::default() };
                if public { check(w.len() >= 4, "PUBLIC fields"); r.rva = hex(w[1]); r.param = hex(w[2]); r.name = rest(k + 2); }
                else { check(w.len() >= 5, "FUNC fields"); r.rva = hex(w[1]); r.len = hex(w[2]); r.param = hex(w[3]); r.name = rest(k + 3); }
                s.recs.push(r);
            }
            b"INLINE" => {
                check(w.len() >= 7 && w.len() % 2 == 1, "INLINE fields");
                let mut ranges = vec![]; let mut i = 5; while i + 1 < w.len() { ranges.push((hex(w[i]), hex(w[i + 1]))); i += 2; }
                let f = s.recs.last_mut(); check(f.is_some(), "INLINE belongs to a FUNC"); let f = f.unwrap(); check(!f.public && f.lines.is_empty(), "INLINE records precede line records of a FUNC");
                f.inls.push(InlRec { text: w[2].to_vec(), depth: dec(w[1]), line: dec(w[2]), file: dec(w[3]), origin: dec(w[4]), ranges });
            }
            b"STACK" => { stage = 5; s.stack.push(l.to_vec()); }
            _ => {
                check(w.len() == 4, "every other line is a line record");
                for f in &w { check(!f.is_empty(), "no empty field in a line record"); }
                let f = s.recs.last_mut(); check(f.is_some(), "line record belongs to a FUNC"); let f = f.unwrap(); check(!f.public, "line record belongs to a FUNC");
                f.lines.push(Ln { rva: hex(w[0]), len: hex(w[1]), num: dec(w[2]), file: dec(w[3]), text: w[2].to_vec() });
            }
        }
    }
    check(stage >= 1, "MODULE record present");
    s
}
/// In a native run with VH_SAVE=<prefix>, keeps the generated input files (for demonstrations).
pub fn save(b: &[u8]) {
    if crate::sym::is_symbolic() { return; }
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    if let Ok(p) = std::env::var("VH_SAVE") { let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst); std::fs::write(format!("{p}{n}"), b).unwrap(); }
}
pub fn dump(o: &dump_syms::object_info::ObjectInfo) -> Vec<u8> { let mut v: Vec<u8> = Vec::with_capacity(8192); o.dump(&mut v).unwrap(); v }
