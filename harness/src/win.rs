//! Builds small PDB and PE files whose addresses may be symbolic.
use crate::elf::Buf;

pub const GUID: [u8; 16] = [0xa0, 0xa1, 0xa2, 0xa3, 0xb0, 0xb1, 0xc0, 0xc1, 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7];
/// the identifier of GUID (a little-endian GUID) with age 1
pub const ID: &[u8] = b"A3A2A1A0B1B0C1C0D0D1D2D3D4D5D6D71";
/// an inlined call: annotations give its pieces as (start from the function's, length, line delta)
#[derive(Clone)]
pub struct PInl { pub origin: usize, pub pieces: Vec<(u8, u8, u8)>, pub kids: Vec<PInl> }
#[derive(Clone)]
pub struct PFunc { pub name: &'static str, pub off: u32, pub len: u32, pub rows: Vec<(u32, u32, usize)>, pub inl: Vec<PInl> }
#[derive(Clone)]
pub struct Pdb { pub guid: [u8; 16], pub age: u32, pub machine: u16, pub funcs: Vec<PFunc>, pub pubs: Vec<(Vec<u8>, u32)>, pub files: Vec<Vec<u8>>, pub origins: Vec<(&'static str, usize, u32)>, pub page: usize, pub frames: Vec<(u32, u32, u16)> }
impl Default for Pdb { fn default() -> Pdb { Pdb { guid: GUID, age: 1, machine: 0x8664, funcs: vec![], pubs: vec![], files: vec![], origins: vec![], page: 1024, frames: vec![] } } }
/// where the code section begins
pub const TEXT: u64 = 0x1000;
fn rec(b: &mut Buf, kind: u16, body: &[u8]) { let pad = (4 - (body.len() + 4) % 4) % 4; b.u16((body.len() + 2 + pad) as u16); b.u16(kind); b.raw(body); for _ in 0..pad { b.u8(0); } }
fn section(name: &[u8], vsize: u32, va: u32, raw: u32, rawsize: u32, flags: u32) -> Vec<u8> { let mut s = Buf::new(); let mut n = name.to_vec(); n.resize(8, 0); s.raw(&n); s.u32(vsize); s.u32(va); s.u32(rawsize); s.u32(raw); s.u32(0); s.u32(0); s.u32(0); s.u32(flags); s.0 }
impl Pdb {
    pub fn build(self) -> Vec<u8> {
        let mut info = Buf::new(); info.u32(20000404); info.u32(0); info.u32(1); info.raw(&self.guid);
        info.u32(7); info.raw(b"/names\0"); info.u32(1); info.u32(1); info.u32(1); info.u32(1); info.u32(0); info.u32(0); info.u32(8);
        let tpi = |first: u32, recs: &[u8], n: u32| { let mut t = Buf::new(); t.u32(20040203); t.u32(56); t.u32(first); t.u32(first + n); t.u32(recs.len() as u32); t.u16(0xffff); t.u16(0xffff); t.u32(4); t.u32(0x3ffff); for _ in 0..6 { t.u32(0); } t.raw(recs); t.0 };
        // the type of inlined functions: void ()
        let mut ty = Buf::new(); rec(&mut ty, 0x1201, &[0, 0, 0, 0]); rec(&mut ty, 0x1008, &[3, 0, 0, 0, 0, 0, 0, 0, 0, 0x10, 0, 0]);
        let types = tpi(0x1000, &ty.0, 2);
        let mut ids = Buf::new(); for (n, _, _) in &self.origins { let mut b = Buf::new(); b.u32(0); b.u32(0x1001); b.s(n.as_bytes()); rec(&mut ids, 0x1601, &b.0); }
        let ids = tpi(0x1000, &ids.0, self.origins.len() as u32);
        // string table and the file checksums that refer to it
        let mut names = Buf::new(); names.u8(0); let mut sums = Buf::new(); let mut sum_at = vec![];
        for f in &self.files { sum_at.push(sums.len() as u32); sums.u32(names.len() as u32); sums.u8(0); sums.u8(0); sums.u16(0); names.s(f); }
        let mut st = Buf::new(); st.u32(0xeffeeffe); st.u32(1); st.u32(names.len() as u32); st.raw(&names.0); while st.len() % 4 != 0 { st.u8(0); } st.u32(0); st.u32(0); for _ in 0..names.len() { st.u32(0); }
        // the module: symbols, then lines
        let mut m = Buf::new(); m.u32(4);
        for f in &self.funcs {
            let mut b = Buf::new(); b.u32(0); b.u32(0); b.u32(0); b.u32(f.len); b.u32(0); b.u32(f.len); b.u32(0); b.u32(f.off); b.u16(1); b.u8(0); b.s(f.name.as_bytes());
            rec(&mut m, 0x1110, &b.0); for i in &f.inl { emit(&mut m, i); } rec(&mut m, 6, &[]);
        }
        let nsym = m.len() as u32; let mut c13 = Buf::new();
        let sub = |c: &mut Buf, kind: u32, b: &[u8]| { c.u32(kind); c.u32(b.len() as u32); c.raw(b); while c.len() % 4 != 0 { c.u8(0); } };
        sub(&mut c13, 0xf4, &sums.0);
        for f in &self.funcs {
            if f.rows.is_empty() { continue; }
            let mut b = Buf::new(); b.u32(f.off); b.u16(1); b.u16(0); b.u32(f.len);
            for (o, l, file) in &f.rows { b.u32(sum_at[*file]); b.u32(1); b.u32(20); b.u32(*o); b.u32(*l | 0x8000_0000); }
            sub(&mut c13, 0xf2, &b.0);
        }
        if !self.origins.is_empty() { let mut b = Buf::new(); b.u32(0); for (i, (_, f, l)) in self.origins.iter().enumerate() { b.u32(0x1000 + i as u32); b.u32(sum_at[*f]); b.u32(*l); } sub(&mut c13, 0xf6, &b.0); }
        m.raw(&c13.0); m.u32(0);
        // global symbols
        let mut g = Buf::new(); for (n, off) in &self.pubs { let mut b = Buf::new(); b.u32(2); b.u32(*off); b.u16(1); b.s(n); rec(&mut g, 0x110e, &b.0); }
        let sect = section(b".text", 0xfffff000, TEXT as u32, 0x400, 0x1000, 0x60000020);
        let mut mods = Buf::new(); mods.u32(0); mods.u16(1); mods.u16(0); mods.u32(0); mods.u32(0x1000); mods.u32(0x60000020); mods.u16(0); mods.u16(0); mods.u32(0); mods.u32(0);
        mods.u16(0); mods.u16(7); mods.u32(nsym); mods.u32(0); mods.u32(c13.len() as u32); mods.u16(0); mods.u16(0); mods.u32(0); mods.u32(0); mods.u32(0); mods.s(b"m"); mods.s(b"m"); while mods.len() % 4 != 0 { mods.u8(0); }
        let mut d = Buf::new(); d.u32(0xffffffff); d.u32(19990903); d.u32(self.age); d.u16(0xffff); d.u16(0x8e0b); d.u16(0xffff); d.u16(0); d.u16(6); d.u16(0);
        d.u32(mods.len() as u32); d.u32(4); d.u32(0); d.u32(0); d.u32(0); d.u32(0); d.u32(22); d.u32(0); d.u16(0); d.u16(self.machine); d.u32(0);
        d.raw(&mods.0); d.u32(0xeffe0000 + 19970605); // the unwind information of a 32-bit program: start, size, attributes
        let mut fpo = Buf::new(); for (a, z, k) in &self.frames { fpo.u32(*a); fpo.u32(*z); fpo.u32(1); fpo.u16(2); fpo.u16(*k); }
        for i in 0..11 { d.u16(if i == 5 { 5 } else if i == 0 && !self.frames.is_empty() { 9 } else { 0xffff }); }
        msf(self.page, &[vec![], info.0, types, d.0, ids, sect, g.0, m.0, st.0, fpo.0])
    }
}
fn emit(m: &mut Buf, i: &PInl) {
    let mut b = Buf::new(); b.u32(0); b.u32(0); b.u32(0x1000 + i.origin as u32);
    let mut at = 0;
    // ChangeLineOffset, then ChangeCodeLengthAndCodeOffset: the piece's length and the distance from the previous piece's start
    for (o, l, line) in &i.pieces { if *line != 0 { b.u8(6); b.u8(line << 1); } b.u8(12); b.u8(*l); b.u8(o - at); at = *o; }
    rec(m, 0x114d, &b.0); for k in &i.kids { emit(m, k); } rec(m, 0x114e, &[]);
}
fn msf(page: usize, streams: &[Vec<u8>]) -> Vec<u8> {
    // page 0: header, 1 and 2: free page maps, 3: pages of the directory, 4: the directory
    let n = |l: usize| (l + page - 1) / page; let mut dir = Buf::new(); dir.u32(streams.len() as u32); for s in streams { dir.u32(s.len() as u32); }
    let mut next = 5; for s in streams { for _ in 0..n(s.len()) { dir.u32(next); next += 1; } }
    let mut o = vec![0u8; page * next as usize]; let mut h = Buf::new();
    h.raw(b"Microsoft C/C++ MSF 7.00\r\n\x1aDS\0\0\0"); h.u32(page as u32); h.u32(1); h.u32(next); h.u32(dir.len() as u32); h.u32(0); h.u32(3);
    o[..h.len()].copy_from_slice(&h.0); o[3 * page..3 * page + 4].copy_from_slice(&4u32.to_le_bytes()); o[4 * page..4 * page + dir.len()].copy_from_slice(&dir.0);
    let mut at = 5 * page; for s in streams { o[at..at + s.len()].copy_from_slice(s); at += n(s.len()) * page; }
    o
}

/// A PE+ image (x86-64): runtime functions, exports and the name of its PDB.
#[derive(Clone)]
pub struct Pe { pub guid: [u8; 16], pub age: u32, pub stamp: u32, pub size: u32, pub pdb: Option<Vec<u8>>, pub runtime: Vec<(u32, u32)>, pub exports: Vec<(&'static str, u32)>, pub machine: u16 }
impl Default for Pe { fn default() -> Pe { Pe { guid: GUID, age: 1, stamp: 0x5f00_1234, size: 0x9000, pdb: Some(b"lib.pdb".to_vec()), runtime: vec![], exports: vec![], machine: 0x8664 } } }
impl Pe {
    pub fn build(self) -> Vec<u8> {
        // one section for everything but the code, at 0x4000, file offset 0x400
        let base = 0x4000u32; let raw = 0x400u32; let mut s = Buf::new(); let mut dirs = [(0u32, 0u32); 16];
        // unwind information: version 1, no codes
        let uw = base; s.raw(&[1, 0, 0, 0]);
        if !self.runtime.is_empty() { dirs[3] = (base + s.len() as u32, 12 * self.runtime.len() as u32); for (a, b) in &self.runtime { s.u32(*a); s.u32(*b); s.u32(uw); } }
        if let Some(p) = &self.pdb {
            let mut cv = Buf::new(); cv.raw(b"RSDS"); cv.raw(&self.guid); cv.u32(self.age); cv.s(p);
            let at = s.len() as u32; dirs[6] = (base + at, 28); s.u32(0); s.u32(self.stamp); s.u16(0); s.u16(0); s.u32(2); s.u32(cv.len() as u32); s.u32(base + at + 28); s.u32(raw + at + 28); s.raw(&cv.0); while s.len() % 4 != 0 { s.u8(0); }
        }
        if !self.exports.is_empty() {
            let at = s.len() as u32; let n = self.exports.len() as u32; let addrs = base + at + 40; let nptr = addrs + 4 * n; let ords = nptr + 4 * n; let mut strs = ords + 2 * n;
            let mut e = Buf::new(); e.u32(0); e.u32(0); e.u32(0); e.u32(strs + self.exports.iter().map(|x| x.0.len() as u32 + 1).sum::<u32>()); e.u32(1); e.u32(n); e.u32(n); e.u32(addrs); e.u32(nptr); e.u32(ords);
            for x in &self.exports { e.u32(x.1); } for x in &self.exports { e.u32(strs); strs += x.0.len() as u32 + 1; } for i in 0..n { e.u16(i as u16); } for x in &self.exports { e.s(x.0.as_bytes()); } e.s(b"lib.dll");
            dirs[0] = (base + at, e.len() as u32); s.raw(&e.0); while s.len() % 4 != 0 { s.u8(0); }
        }
        while s.len() < 0x400 { s.u8(0); }
        let mut o = Buf::new(); let mut dos = vec![0u8; 0x40]; dos[0] = b'M'; dos[1] = b'Z'; dos[0x3c] = 0x40; o.raw(&dos); o.raw(b"PE\0\0");
        o.u16(self.machine); o.u16(2); o.u32(self.stamp); o.u32(0); o.u32(0); o.u16(240); o.u16(0x2022);
        o.u16(0x20b); o.u8(14); o.u8(0); o.u32(0x200); o.u32(0x400); o.u32(0); o.u32(0x1000); o.u32(0x1000); o.u64(0x1_8000_0000); o.u32(0x1000); o.u32(0x200); o.u16(6); o.u16(0); o.u16(0); o.u16(0); o.u16(6); o.u16(0); o.u32(0);
        o.u32(self.size); o.u32(0x400); o.u32(0); o.u16(2); o.u16(0); for _ in 0..4 { o.u64(0x1000); } o.u32(0); o.u32(16); for (a, b) in dirs { o.u32(a); o.u32(b); }
        o.raw(&section(b".text", 0x3000, 0x1000, 0x800, 0x200, 0x60000020)); o.raw(&section(b".rdata", 0x1000, base, raw, 0x400, 0x40000040));
        while o.len() < raw as usize { o.u8(0); } o.raw(&s.0); while o.len() < 0xa00 { o.u8(0); }
        o.0
    }
}
