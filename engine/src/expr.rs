//! Hash-consed bit-vector expressions with local simplification.
//! Width-1 expressions are booleans. Widths up to 128.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var, Const, Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Zext, Sext, Extract, Concat, Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Key { pub op: Op, pub w: u8, pub a: E, pub b: E, pub c: E, pub k: u128 }

pub struct Node { pub key: Key, pub lo: u128, pub hi: u128, dep: E, tab: Option<Rc<[u64]>>, cost: u32 }
/// no atom (constant) / depends on more than one atom
const NODEP: E = 0;
const MANY: E = u32::MAX;
/// largest domain of an atom for which value tables are kept
const DOM: u128 = 64;

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Key, E>,
    pub var_names: Vec<String>,
    vars_cache: HashMap<E, Rc<Vec<u32>>>,
    named: HashMap<String, E>,
    tables: HashMap<(E, u8, Rc<[u64]>), E>,
}

thread_local! { static AR: RefCell<Arena> = RefCell::new(Arena{nodes:vec![Node{key:Key{op:Op::Const,w:0,a:0,b:0,c:0,k:0},lo:0,hi:0,dep:0,tab:None,cost:0}],map:HashMap::new(),var_names:vec![],vars_cache:HashMap::new(),named:HashMap::new(),tables:HashMap::new()}); }

#[inline] pub fn mask(w: u8) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline] pub fn sext_val(v: u128, w: u8) -> i128 { if w >= 128 { v as i128 } else { let s = 128 - w as u32; ((v << s) as i128) >> s } }

pub fn key(e: E) -> Key { AR.with(|a| a.borrow().nodes[e as usize].key) }
pub fn width(e: E) -> u8 { AR.with(|a| a.borrow().nodes[e as usize].key.w) }
pub fn range(e: E) -> (u128, u128) { AR.with(|a| { let a = a.borrow(); let n = &a.nodes[e as usize]; (n.lo, n.hi) }) }
pub fn as_const(e: E) -> Option<u128> { let k = key(e); if k.op == Op::Const { Some(k.k) } else { None } }
pub fn var_name(v: u32) -> String { AR.with(|a| a.borrow().var_names[v as usize].clone()) }
pub fn num_nodes() -> usize { AR.with(|a| a.borrow().nodes.len()) }

fn intern(op: Op, w: u8, a: E, b: E, c: E, k: u128) -> E {
    let key = Key { op, w, a, b, c, k };
    let (e, aff) = AR.with(|ar| {
        let mut ar = ar.borrow_mut();
        if let Some(&e) = ar.map.get(&key) { return (e, None); }
        let (mut lo, mut hi) = compute_range(&ar, &key);
        let id = ar.nodes.len() as E;
        let (dep, tab) = if matches!(op, Op::Const | Op::Var) { (if op == Op::Const { NODEP } else { MANY }, None) } else { table(&ar, &key, id, lo, hi) };
        let kids = match op { Op::Const | Op::Var => 0, Op::Zext | Op::Sext | Op::Extract => ar.nodes[a as usize].cost, Op::Ite => ar.nodes[a as usize].cost.saturating_add(ar.nodes[b as usize].cost).saturating_add(ar.nodes[c as usize].cost), _ => ar.nodes[a as usize].cost.saturating_add(ar.nodes[b as usize].cost) };
        let cost = kids.saturating_add(1);
        let mut res = id; let mut aff = None;
        if let Some(t) = &tab {
            lo = *t.iter().min().unwrap() as u128; hi = *t.iter().max().unwrap() as u128;
            if lo == hi { aff = Some((NODEP, t[0] as u128)); }
            else if dep != id && !matches!(op, Op::Zext | Op::Concat) && !(op == Op::Extract && k == 0) && !(op == Op::Add && ar.nodes[b as usize].key.op == Op::Const) {
                // shape atom + constant
                let m = mask(w); let base = ar.nodes[dep as usize].lo;
                let off = (t[0] as u128).wrapping_sub(base) & m;
                if w > 1 && mask(w) >= ar.nodes[dep as usize].hi && t.iter().enumerate().all(|(i, &v)| v as u128 == (base + i as u128).wrapping_add(off) & m) { aff = Some((dep, off)); }
                else {
                    let tk = (dep, w, t.clone());
                    match ar.tables.get(&tk).copied() { Some(e) if ar.nodes[e as usize].cost <= cost => { res = e; } _ => { ar.tables.insert(tk, id); } }
                }
            }
        }
        ar.nodes.push(Node { key, lo, hi, dep, tab, cost });
        if aff.is_none() { ar.map.insert(key, res); }
        (res, aff)
    });
    let Some((dep, off)) = aff else { return e; };
    let r = if dep == NODEP { cst(off, w) } else { let dw = width(dep); let x = if dw == w { dep } else if dw < w { zext(dep, w) } else { extract(dep, 0, w) }; if off == 0 { x } else { bin(Op::Add, x, cst(off, w)) } };
    AR.with(|ar| ar.borrow_mut().map.insert(key, r));
    r
}
/// The atom an expression is a function of, and its value for every value of the atom.
fn table(ar: &Arena, k: &Key, id: E, lo: u128, hi: u128) -> (E, Option<Rc<[u64]>>) {
    let kids: &[E] = match k.op { Op::Zext | Op::Sext | Op::Extract => &[k.a], Op::Ite => &[k.a, k.b, k.c], _ => &[k.a, k.b] };
    let mut dep = NODEP;
    for &x in kids { let n = &ar.nodes[x as usize]; if n.key.w > 64 { dep = MANY; } else if n.dep != NODEP { if dep == NODEP { dep = n.dep; } else if dep != n.dep { dep = MANY; } } }
    if k.w > 64 { return (MANY, None); }
    if dep == MANY {
        // a new atom when its own domain is small (booleans excepted: their structure is kept)
        if k.w > 1 && hi - lo < DOM { return (id, Some((lo..=hi).map(|v| v as u64).collect())); }
        return (MANY, None);
    }
    if dep == NODEP { return (NODEP, None); }
    let dn = &ar.nodes[dep as usize]; let n = (dn.hi - dn.lo + 1) as usize;
    let val = |x: E, i: usize| -> u128 { let nd = &ar.nodes[x as usize]; if nd.key.op == Op::Const { nd.key.k } else { nd.tab.as_ref().unwrap()[i] as u128 } };
    let t: Rc<[u64]> = (0..n).map(|i| (match k.op {
        Op::Zext => val(k.a, i),
        Op::Sext => sext_val(val(k.a, i), ar.nodes[k.a as usize].key.w) as u128 & mask(k.w),
        Op::Extract => (val(k.a, i) >> k.k) & mask(k.w),
        Op::Concat => (val(k.a, i) << ar.nodes[k.b as usize].key.w) | val(k.b, i),
        Op::Ite => if val(k.a, i) == 1 { val(k.b, i) } else { val(k.c, i) },
        _ => fold(k.op, ar.nodes[k.a as usize].key.w, val(k.a, i), val(k.b, i)),
    }) as u64).collect();
    (dep, Some(t))
}

fn compute_range(ar: &Arena, k: &Key) -> (u128, u128) {
    let m = mask(k.w);
    let r = |e: E| { let n = &ar.nodes[e as usize]; (n.lo, n.hi) };
    match k.op {
        Op::Const => (k.k, k.k),
        Op::Var => (0, m),
        Op::Add => { let (al, ah) = r(k.a); let (bl, bh) = r(k.b);
            match (ah.checked_add(bh), al.checked_add(bl)) { (Some(h), Some(l)) if h <= m => (l, h),
                // both always overflow exactly once
                (Some(h), Some(l)) if k.w < 127 && l > m && h <= 2 * m + 1 => (l & m, h & m),
                _ => (0, m) } }
        Op::Sub => { let (al, ah) = r(k.a); let (bl, bh) = r(k.b); if al >= bh { (al - bh, ah - bl) } else { (0, m) } }
        Op::Mul => { let (al, ah) = r(k.a); let (bl, bh) = r(k.b); match ah.checked_mul(bh) { Some(h) if h <= m => (al * bl, h), _ => (0, m) } }
        Op::UDiv => { let (al, ah) = r(k.a); let (bl, bh) = r(k.b); if bl > 0 { (al / bh, ah / bl) } else { (0, m) } }
        Op::URem => { let (_, ah) = r(k.a); let (bl, bh) = r(k.b); if bl > 0 { (0, ah.min(bh - 1)) } else { (0, m) } }
        Op::And => { let (_, ah) = r(k.a); let (_, bh) = r(k.b); (0, ah.min(bh)) }
        Op::Or => { let (al, ah) = r(k.a); let (bl, bh) = r(k.b); let h = ah | bh; let hm = if h == 0 { 0 } else { (!0u128) >> h.leading_zeros() }; (al.max(bl), hm & m) }
        Op::Xor => { let (_, ah) = r(k.a); let (_, bh) = r(k.b); let h = ah | bh; (0, if h == 0 { 0 } else { (!0u128) >> h.leading_zeros() }) }
        Op::LShr => { let (al, ah) = r(k.a); if let Key { op: Op::Const, k: s, .. } = ar.nodes[k.b as usize].key { if s < k.w as u128 { return (al >> s, ah >> s); } } (0, ah) }
        Op::Zext => r(k.a),
        Op::Extract => { let (al, ah) = r(k.a); let s = k.k as u32; let t = s + k.w as u32; if t >= 128 || (al >> t) == (ah >> t) { ((al >> s) & m, (ah >> s) & m) } else { (0, m) } }
        Op::Concat => { let (al, ah) = r(k.a); let (bl, bh) = r(k.b); let bw = ar.nodes[k.b as usize].key.w; ((al << bw) | bl, (ah << bw) | bh) }
        Op::Ite => { let (al, ah) = r(k.b); let (bl, bh) = r(k.c); (al.min(bl), ah.max(bh)) }
        _ => (0, m),
    }
}

pub fn new_var(w: u8, name: &str) -> E {
    let id = AR.with(|a| { let mut a = a.borrow_mut(); a.var_names.push(name.to_string()); a.var_names.len() as u128 - 1 });
    intern(Op::Var, w, 0, 0, 0, id)
}
/// variable with a static unsigned range (the range is also asserted to the solver by the caller)
pub fn new_var_range(w: u8, name: &str, lo: u128, hi: u128) -> E {
    let e = new_var(w, name);
    AR.with(|a| { let mut a = a.borrow_mut(); let n = &mut a.nodes[e as usize]; n.lo = lo; n.hi = hi; if w > 1 && w <= 64 && hi - lo < DOM { n.dep = e; n.tab = Some((lo..=hi).map(|v| v as u64).collect()); } });
    e
}

/// variable identified by its name (same name gives the same variable)
pub fn named_var(w: u8, name: &str) -> E { named_var_range(w, name, 0, mask(w)) }
pub fn named_var_range(w: u8, name: &str, lo: u128, hi: u128) -> E {
    // paths may give one name different ranges: these are different variables
    let key = format!("{name}/{w}/{lo}/{hi}");
    let found = AR.with(|a| { let a = a.borrow(); a.named.get(&key).copied() });
    if let Some(e) = found { return e; }
    let e = new_var_range(w, name, lo, hi);
    AR.with(|a| a.borrow_mut().named.insert(key, e));
    e
}

pub fn cst(v: u128, w: u8) -> E { intern(Op::Const, w, 0, 0, 0, v & mask(w)) }
pub fn tru() -> E { cst(1, 1) }
pub fn fls() -> E { cst(0, 1) }

pub fn fold(op: Op, w: u8, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => if b == 0 { 0 } else { (sext_val(a, w).wrapping_div(sext_val(b, w))) as u128 & m },
        Op::SRem => if b == 0 { a } else { (sext_val(a, w).wrapping_rem(sext_val(b, w))) as u128 & m },
        Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = b.min(w as u128 - 1); (sext_val(a, w) >> s) as u128 & m }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128, Op::Ule => (a <= b) as u128,
        Op::Slt => (sext_val(a, w) < sext_val(b, w)) as u128,
        Op::Sle => (sext_val(a, w) <= sext_val(b, w)) as u128,
        _ => unreachable!(),
    }
}

pub fn not(a: E) -> E {
    let k = key(a);
    debug_assert!(k.w == 1);
    match k.op {
        Op::Const => cst(k.k ^ 1, 1),
        Op::Xor if as_const(k.b) == Some(1) => k.a,
        Op::Ult => bin(Op::Ule, k.b, k.a),
        Op::Ule => bin(Op::Ult, k.b, k.a),
        Op::Slt => bin(Op::Sle, k.b, k.a),
        Op::Sle => bin(Op::Slt, k.b, k.a),
        _ => intern(Op::Xor, 1, a, cst(1, 1), 0, 0),
    }
}
pub fn is_not(a: E) -> Option<E> { let k = key(a); if k.op == Op::Xor && k.w == 1 && as_const(k.b) == Some(1) { Some(k.a) } else { None } }

pub fn bin(op: Op, mut a: E, mut b: E) -> E {
    let (ka, kb) = (key(a), key(b));
    let w = ka.w;
    debug_assert!(ka.w == kb.w, "width mismatch {:?} {} {}", op, ka.w, kb.w);
    let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
    if ka.op == Op::Const && kb.op == Op::Const { return cst(fold(op, w, ka.k, kb.k), if cmp { 1 } else { w }); }
    // commute constants right
    if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) && (ka.op == Op::Const || (kb.op != Op::Const && a > b)) { std::mem::swap(&mut a, &mut b); }
    let (ka, kb) = (key(a), key(b));
    let cb = if kb.op == Op::Const { Some(kb.k) } else { None };
    let m = mask(w);
    match op {
        Op::Add => {
            if cb == Some(0) { return a; }
            if let Some(c) = cb { if ka.op == Op::Add { if let Some(c2) = as_const(ka.b) { return bin(Op::Add, ka.a, cst(c.wrapping_add(c2), w)); } }
                if ka.op == Op::Ite && as_const(ka.b).is_some() && as_const(ka.c).is_some() { return ite(ka.a, bin(Op::Add, ka.b, b), bin(Op::Add, ka.c, b)); } }
            if w > 1 { if let Some(e) = lin_sum(a, b, false) { return e; } }
        }
        Op::Sub => {
            if a == b { return cst(0, w); }
            if let Some(c) = cb { return bin(Op::Add, a, cst(0u128.wrapping_sub(c), w)); }
            if w > 1 { if let Some(e) = lin_sum(a, b, true) { return e; } }
            if let Some((l, n, _, _)) = lin_diff(a, b) { if n > 0 && l.pos.iter().chain(&l.neg).all(|x| width(*x) <= w) {
                let mut e = cst(l.c as u128, w);
                let mut p: Option<E> = None; for x in &l.pos { let x = zext(*x, w); p = Some(match p { None => x, Some(q) => bin(Op::Add, q, x) }); }
                for x in &l.neg { let x = zext(*x, w); p = Some(bin(Op::Sub, p.unwrap_or(cst(0, w)), x)); }
                if let Some(q) = p { e = bin(Op::Add, q, e); }
                return e; } }
        }
        Op::Mul => { if let Some(c) = cb { if ite_const(a) { return ite(ka.a, bin(Op::Mul, ka.b, b), bin(Op::Mul, ka.c, b)); } if c == 0 { return b; } if c == 1 { return a; } if c.is_power_of_two() { return bin(Op::Shl, a, cst(c.trailing_zeros() as u128, w)); } } }
        Op::UDiv => { if let Some(c) = cb { if c == 1 { return a; } if c.is_power_of_two() { return bin(Op::LShr, a, cst(c.trailing_zeros() as u128, w)); } if range(a).1 < c && c != 0 { return cst(0, w); } } }
        Op::URem => { if let Some(c) = cb { if c.is_power_of_two() { return bin(Op::And, a, cst(c - 1, w)); } if range(a).1 < c { return a; } } }
        Op::And => {
            if a == b { return a; }
            if let Some(c) = cb {
                if c == 0 { return b; } if c == m { return a; }
                if w > 1 && (c & (c + 1)) == 0 { let n = c.count_ones() as u8; if range(a).1 <= c { return a; } return zext(extract(a, 0, n), w); }
                if w > 1 { // high mask / contiguous: shift form
                    let tz = c.trailing_zeros() as u8; let cc = c >> tz;
                    if (cc & (cc + 1)) == 0 { let n = cc.count_ones() as u8; let x = extract(a, tz, n); let lowz = concat(x, cst(0, tz)); return zext(lowz, w); }
                }
            }
            if w == 1 { if is_not(a) == Some(b) || is_not(b) == Some(a) { return fls(); } }
        }
        Op::Or => {
            if a == b { return a; }
            if let Some(c) = cb { if c == 0 { return a; } if c == m { return b; } }
            if w == 1 { if is_not(a) == Some(b) || is_not(b) == Some(a) { return tru(); } }
            else if let Some(r) = or_concat(a, b, w).or_else(|| or_concat(b, a, w)) { return r; }
        }
        Op::Xor => { if a == b { return cst(0, w); } if cb == Some(0) { return a; } if w == 1 && cb == Some(1) { return not(a); }
            if w == 1 { if let Some(x) = is_not(a) { return not(bin(Op::Xor, x, b)); } if let Some(x) = is_not(b) { return not(bin(Op::Xor, a, x)); } }
            if let Some(c) = cb { if ka.op == Op::Xor { if let Some(c2) = as_const(ka.b) { return bin(Op::Xor, ka.a, cst(c ^ c2, w)); } } } }
        Op::Shl => { if let Some(c) = cb { if c == 0 { return a; } if c >= w as u128 { return cst(0, w); } return concat(extract(a, 0, w - c as u8), cst(0, c as u8)); } if ka.op == Op::Const && ka.k == 0 { return a; } }
        Op::LShr => { if let Some(c) = cb { if c == 0 { return a; } if c >= w as u128 { return cst(0, w); } return zext(extract(a, c as u8, w - c as u8), w); } if ka.op == Op::Const && ka.k == 0 { return a; } }
        Op::AShr => { if let Some(c) = cb { let c = c.min(w as u128 - 1) as u8; if c == 0 { return a; } return sext(extract(a, c, w - c), w); } }
        Op::Eq => {
            if a == b { return tru(); }
            let (al, ah) = range(a); let (bl, bh) = range(b);
            if ah < bl || bh < al { return fls(); }
            if w == 1 { if let Some(c) = cb { return if c == 1 { a } else { not(a) }; } }
            if let Some(c) = cb {
                match ka.op {
                    Op::Zext => { let iw = width(ka.a); return if c > mask(iw) { fls() } else { bin(Op::Eq, ka.a, cst(c, iw)) }; }
                    Op::Sext => { let iw = width(ka.a); let back = sext_val(c & mask(iw), iw) as u128 & m; return if back != c { fls() } else { bin(Op::Eq, ka.a, cst(c, iw)) }; }
                    Op::Concat => { let bw = width(ka.b); let aw = w - bw; return bin(Op::And, bin(Op::Eq, ka.a, cst(c >> bw, aw)), bin(Op::Eq, ka.b, cst(c, bw))); }
                    Op::Extract if c == 0 && ka.k as u8 + w == width(ka.a) => { let aw = width(ka.a); return bin(Op::Ult, ka.a, cst(1u128 << ka.k, aw)); }
                    Op::Add => if let Some(c2) = as_const(ka.b) { return bin(Op::Eq, ka.a, cst(c.wrapping_sub(c2), w)); }
                    Op::Xor => if let Some(c2) = as_const(ka.b) { return bin(Op::Eq, ka.a, cst(c ^ c2, w)); }
                    Op::Sub => if c == 0 { return bin(Op::Eq, ka.a, ka.b); }
                    Op::Ite => {
                        let (x, y) = (bin(Op::Eq, ka.b, b), bin(Op::Eq, ka.c, b));
                        if as_const(x).is_some() || as_const(y).is_some() { return ite(ka.a, x, y); }
                    }
                    _ => {}
                }
            } else {
                if ka.op == Op::Zext && kb.op == Op::Zext && width(ka.a) == width(kb.a) { return bin(Op::Eq, ka.a, kb.a); }
                let (xa, ca) = split_add(a); let (xb, cbb) = split_add(b);
                if xa == xb { return if (ca ^ cbb) & m == 0 { tru() } else { fls() }; }
                if ca != 0 && ca == cbb { return bin(Op::Eq, xa, xb); }
            }
            if w > 1 && (ka.op == Op::Add || kb.op == Op::Add || ka.op == Op::Sub || kb.op == Op::Sub) { if let Some((x, y)) = mod_cancel(a, b) { if (x, y) != (a, b) && (y, x) != (a, b) { return bin(Op::Eq, x, y); } } }
            if ka.op == Op::Add || kb.op == Op::Add || ka.op == Op::Sub || kb.op == Op::Sub { if let Some((l, n, lo, hi)) = lin_diff(a, b) {
                if hi < 0 || lo > 0 { return fls(); }
                if n > 0 { if let Some((x, y)) = lin_sides(&l, w) { return bin(Op::Eq, x, y); } }
            } }
        }
        Op::Ult => {
            if a == b { return fls(); }
            let (al, ah) = range(a); let (bl, bh) = range(b);
            if ah < bl { return tru(); } if al >= bh { return fls(); }
            if matches!(ka.op, Op::Add | Op::Sub | Op::Zext) || matches!(kb.op, Op::Add | Op::Sub | Op::Zext) { if let Some((l, n, lo, hi)) = lin_diff(a, b) {
                if hi < 0 { return tru(); } if lo >= 0 { return fls(); }
                if n > 0 { if let Some((x, y)) = lin_sides(&l, w) { return bin(Op::Ult, x, y); } }
            } }
            if let Some(c) = cb {
                if c == 0 { return fls(); }
                if c == 1 { return bin(Op::Eq, a, cst(0, w)); }
                if c == m { return not(bin(Op::Eq, a, b)); }
                if ka.op == Op::Zext { return bin(Op::Ult, ka.a, cst(c, width(ka.a))); }
                if ka.op == Op::Ite { let (x, y) = (bin(Op::Ult, ka.b, b), bin(Op::Ult, ka.c, b)); if as_const(x).is_some() && as_const(y).is_some() { return ite(ka.a, x, y); } }
            } else if let Some(c) = if ka.op == Op::Const { Some(ka.k) } else { None } {
                if c == m { return fls(); } if c == 0 { return not(bin(Op::Eq, b, a)); }
                if kb.op == Op::Zext { let iw = width(kb.a); return if c > mask(iw) { fls() } else { bin(Op::Ult, cst(c, iw), kb.a) }; }
            } else if ka.op == Op::Zext && kb.op == Op::Zext && width(ka.a) == width(kb.a) { return bin(Op::Ult, ka.a, kb.a); }
        }
        Op::Ule => {
            if a == b { return tru(); }
            let (al, ah) = range(a); let (bl, bh) = range(b);
            if ah <= bl { return tru(); } if al > bh { return fls(); }
            if matches!(ka.op, Op::Add | Op::Sub | Op::Zext) || matches!(kb.op, Op::Add | Op::Sub | Op::Zext) { if let Some((l, n, lo, hi)) = lin_diff(a, b) {
                if hi <= 0 { return tru(); } if lo > 0 { return fls(); }
                if n > 0 { if let Some((x, y)) = lin_sides(&l, w) { return bin(Op::Ule, x, y); } }
            } }
            if let Some(c) = cb { if c == m { return tru(); } return bin(Op::Ult, a, cst(c + 1, w)); }
            if ka.op == Op::Const { if ka.k == 0 { return tru(); } return bin(Op::Ult, cst(ka.k - 1, w), b); }
            if ka.op == Op::Zext && kb.op == Op::Zext && width(ka.a) == width(kb.a) { return bin(Op::Ule, ka.a, kb.a); }
        }
        Op::Slt | Op::Sle => {
            if a == b { return if op == Op::Sle { tru() } else { fls() }; }
            let half = 1u128 << (w - 1);
            let (_, ah) = range(a); let (_, bh) = range(b);
            if ah < half && bh < half { return bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
            if w > 1 && op == Op::Slt && cb == Some(0) { return extract(a, w - 1, 1); } // x < 0
            if w > 1 && op == Op::Slt && ka.op == Op::Const && ka.k == m { return not(extract(b, w - 1, 1)); } // x > -1
            if w > 1 && op == Op::Sle && ka.op == Op::Const && ka.k == 0 { return not(extract(b, w - 1, 1)); } // 0 <= x
            if w > 1 && op == Op::Sle && cb == Some(m) { return extract(a, w - 1, 1); }
            if ka.op == Op::Sext && kb.op == Op::Const { let iw = width(ka.a); let back = sext_val(kb.k & mask(iw), iw) as u128 & m; if back == kb.k { return bin(op, ka.a, cst(kb.k, iw)); } }
        }
        _ => {}
    }
    intern(op, if cmp { 1 } else { w }, a, b, 0, 0)
}

fn ite_const(a: E) -> bool { let k = key(a); k.op == Op::Ite && as_const(k.b).is_some() && as_const(k.c).is_some() }
/// modular linear form: (atom, coefficient) terms plus a constant
struct Mod { t: Vec<(E, u128)>, c: u128 }
fn mod_into(e: E, f: u128, l: &mut Mod, w: u8, depth: u32) -> bool {
    if l.t.len() > 16 || depth > 24 { return false; }
    let k = key(e); let m = mask(w);
    match k.op {
        Op::Const => { l.c = l.c.wrapping_add(f.wrapping_mul(k.k)) & m; true }
        Op::Add => mod_into(k.a, f, l, w, depth + 1) && mod_into(k.b, f, l, w, depth + 1),
        Op::Sub => mod_into(k.a, f, l, w, depth + 1) && mod_into(k.b, 0u128.wrapping_sub(f) & m, l, w, depth + 1),
        Op::Mul if as_const(k.b).is_some() => mod_into(k.a, f.wrapping_mul(as_const(k.b).unwrap()) & m, l, w, depth + 1),
        _ => { if let Some(x) = l.t.iter_mut().find(|x| x.0 == e) { x.1 = x.1.wrapping_add(f) & m; } else { l.t.push((e, f & m)); } true }
    }
}
fn mod_build(t: &[(E, u128)], c: u128, w: u8) -> E {
    let m = mask(w); let half = 1u128 << (w - 1);
    let mut p: Option<E> = None;
    let term = |x: E, f: u128| if f == 1 { x } else if f.is_power_of_two() { bin(Op::Mul, x, cst(f, w)) } else { intern(Op::Mul, w, x, cst(f, w), 0, 0) };
    for &(x, f) in t { if f != 0 && f < half { let y = term(x, f); p = Some(match p { None => y, Some(q) => intern(Op::Add, w, q, y, 0, 0) }); } }
    let mut c = c & m;
    if p.is_none() && t.iter().any(|x| x.1 != 0) { p = Some(cst(c, w)); c = 0; }
    for &(x, f) in t { if f >= half { let y = term(x, 0u128.wrapping_sub(f) & m); p = Some(intern(Op::Sub, w, p.unwrap(), y, 0, 0)); } }
    match p { None => cst(c, w), Some(q) => if c == 0 { q } else { intern(Op::Add, w, q, cst(c, w), 0, 0) } }
}
/// canonical a+b or a-b
fn lin_sum(a: E, b: E, sub: bool) -> Option<E> {
    let w = width(a); let mut l = Mod { t: vec![], c: 0 };
    if !mod_into(a, 1, &mut l, w, 0) || !mod_into(b, if sub { mask(w) } else { 1 }, &mut l, w, 0) { return None; }
    l.t.retain(|x| x.1 != 0); l.t.sort();
    Some(mod_build(&l.t, l.c, w))
}
/// a == b  <=>  x == y with common terms removed (modular, always valid)
fn mod_cancel(a: E, b: E) -> Option<(E, E)> {
    let w = width(a); let mut l = Mod { t: vec![], c: 0 }; let m = mask(w); let half = 1u128 << (w - 1);
    if !mod_into(a, 1, &mut l, w, 0) || !mod_into(b, m, &mut l, w, 0) { return None; }
    l.t.retain(|x| x.1 != 0); l.t.sort();
    let pos: Vec<(E, u128)> = l.t.iter().copied().filter(|x| x.1 < half).collect();
    let neg: Vec<(E, u128)> = l.t.iter().filter(|x| x.1 >= half).map(|x| (x.0, 0u128.wrapping_sub(x.1) & m)).collect();
    let (mut cp, mut cn) = if l.c < half { (l.c, 0) } else { (0, 0u128.wrapping_sub(l.c) & m) };
    if neg.is_empty() { cn = cn.wrapping_sub(cp) & m; cp = 0; } else if pos.is_empty() { cp = cp.wrapping_sub(cn) & m; cn = 0; }
    Some((mod_build(&pos, cp, w), mod_build(&neg, cn, w)))
}

/// exact (non-wrapping) linear form: positive atoms, negative atoms, constant; zero extensions are looked through
struct Lin { pos: Vec<E>, neg: Vec<E>, c: i128 }
fn lin_into(e: E, sign: bool, l: &mut Lin, depth: u32) {
    let k = key(e);
    if depth < 12 {
        match k.op {
            Op::Const if k.w <= 64 => { if sign { l.c += k.k as i128 } else { l.c -= k.k as i128 } return; }
            Op::Zext => return lin_into(k.a, sign, l, depth + 1),
            Op::Add if range(k.a).1 + range(k.b).1 <= mask(k.w) => { lin_into(k.a, sign, l, depth + 1); lin_into(k.b, sign, l, depth + 1); return; }
            // x + (-c) with x >= c
            Op::Add if as_const(k.b).is_some() && k.k == 0 => { let c = as_const(k.b).unwrap(); let n = mask(k.w) + 1 - c; if range(k.a).0 >= n { lin_into(k.a, sign, l, depth + 1); if sign { l.c -= n as i128 } else { l.c += n as i128 } return; } }
            Op::Sub if range(k.a).0 >= range(k.b).1 => { lin_into(k.a, sign, l, depth + 1); lin_into(k.b, !sign, l, depth + 1); return; }
            _ => {}
        }
    }
    if sign { l.pos.push(e) } else { l.neg.push(e) }
}
/// the linear form of a-b, the number of cancelled atoms, and its integer range
fn lin_diff(a: E, b: E) -> Option<(Lin, usize, i128, i128)> {
    if width(a) > 64 { return None; }
    let mut l = Lin { pos: vec![], neg: vec![], c: 0 };
    lin_into(a, true, &mut l, 0); lin_into(b, false, &mut l, 0);
    if l.pos.len() + l.neg.len() > 40 { return None; }
    let mut cancelled = 0;
    let mut i = 0;
    while i < l.pos.len() { if let Some(j) = l.neg.iter().position(|x| *x == l.pos[i]) { l.pos.remove(i); l.neg.remove(j); cancelled += 1; } else { i += 1; } }
    let (mut lo, mut hi) = (l.c, l.c);
    for x in &l.pos { let (a, b) = range(*x); lo += a as i128; hi += b as i128; }
    for x in &l.neg { let (a, b) = range(*x); lo -= b as i128; hi -= a as i128; }
    Some((l, cancelled, lo, hi))
}
/// rebuild both sides of a comparison after cancellation, when neither side can wrap
fn lin_sides(l: &Lin, w: u8) -> Option<(E, E)> {
    let m = mask(w) as i128;
    let side = |v: &Vec<E>, c: i128| -> Option<E> {
        let mut t = c; for x in v { t += range(*x).1 as i128; if width(*x) > w { return None; } }
        if t > m { return None; }
        let mut e = cst(c as u128, w); for x in v { e = bin(Op::Add, zext(*x, w), e); } Some(e) };
    let (cp, cn) = if l.c >= 0 { (l.c, 0) } else { (0, -l.c) };
    Some((side(&l.pos, cp)?, side(&l.neg, cn)?))
}
fn split_add(a: E) -> (E, u128) { let k = key(a); if k.op == Op::Add { if let Some(c) = as_const(k.b) { return (k.a, c); } } (a, 0) }

// or(concat(x, 0_n), zext(y_n)) -> concat(x, y)
fn or_concat(a: E, b: E, w: u8) -> Option<E> {
    let ka = key(a);
    if let Some(c) = as_const(a) { let h = range(b).1; let bw = (128 - h.leading_zeros()) as u8; if bw > 0 && bw < w && c & mask(bw) == 0 { return Some(concat(cst(c >> bw, w - bw), extract(b, 0, bw))); } }
    // strip zext on a
    let (inner, iw) = if ka.op == Op::Zext { (ka.a, width(ka.a)) } else { (a, w) };
    let ki = key(inner);
    if ki.op == Op::Concat && as_const(ki.b) == Some(0) {
        let bw = width(ki.b);
        if range(b).1 <= mask(bw) { return Some(zext(concat(ki.a, extract(b, 0, bw)), w)).filter(|_| iw <= w); }
    }
    None
}

pub fn zext(a: E, w: u8) -> E {
    let k = key(a);
    if k.w == w { return a; }
    debug_assert!(k.w < w);
    if k.op == Op::Extract && k.k == 0 && range(k.a).1 <= mask(k.w) { let xw = width(k.a); return if xw >= w { extract(k.a, 0, w) } else { zext(k.a, w) }; }
    if k.op == Op::Add && k.w > 1 && w <= 64 && range(k.a).1 + range(k.b).1 <= mask(k.w) { return bin(Op::Add, zext(k.a, w), zext(k.b, w)); }
    match k.op { Op::Const => cst(k.k, w), Op::Zext => zext(k.a, w), _ if k.w == 1 => ite(a, cst(1, w), cst(0, w)),
        Op::Ite if as_const(k.b).is_some() && as_const(k.c).is_some() => ite(k.a, zext(k.b, w), zext(k.c, w)),
        _ => intern(Op::Zext, w, a, 0, 0, 0) }
}
pub fn sext(a: E, w: u8) -> E {
    let k = key(a);
    if k.w == w { return a; }
    match k.op { Op::Const => cst(sext_val(k.k, k.w) as u128, w), Op::Zext => zext(a, w), _ => {
        if k.w > 1 && range(a).1 < (1u128 << (k.w - 1)) { return zext(a, w); }
        intern(Op::Sext, w, a, 0, 0, 0) } }
}
pub fn extract(a: E, lo: u8, n: u8) -> E {
    let k = key(a);
    if lo == 0 && n == k.w { return a; }
    debug_assert!(lo + n <= k.w && n > 0);
    match k.op {
        Op::Const => cst(k.k >> lo, n),
        Op::Extract => extract(k.a, lo + k.k as u8, n),
        Op::Zext => { let iw = width(k.a); if lo >= iw { cst(0, n) } else if lo + n <= iw { extract(k.a, lo, n) } else { zext(extract(k.a, lo, iw - lo), n) } }
        Op::Sext => { let iw = width(k.a); if lo + n <= iw { extract(k.a, lo, n) } else if lo == 0 { sext(k.a, n) } else if lo < iw { sext(extract(k.a, lo, iw - lo), n) } else if n == 1 { extract(k.a, iw - 1, 1) } else { intern(Op::Extract, n, a, 0, 0, lo as u128) } }
        Op::Concat => { let bw = width(k.b); if lo + n <= bw { extract(k.b, lo, n) } else if lo >= bw { extract(k.a, lo - bw, n) } else { concat(extract(k.a, 0, lo + n - bw), extract(k.b, lo, bw - lo)) } }
        Op::And | Op::Or | Op::Xor => bin(k.op, extract(k.a, lo, n), extract(k.b, lo, n)),
        Op::Add | Op::Sub | Op::Mul if lo == 0 => bin(k.op, extract(k.a, 0, n), extract(k.b, 0, n)),
        Op::Ite if as_const(k.b).is_some() || as_const(k.c).is_some() => ite(k.a, extract(k.b, lo, n), extract(k.c, lo, n)),
        _ => intern(Op::Extract, n, a, 0, 0, lo as u128),
    }
}
pub fn concat(a: E, b: E) -> E {
    let (ka, kb) = (key(a), key(b));
    let w = ka.w + kb.w;
    if ka.op == Op::Const && kb.op == Op::Const { return cst((ka.k << kb.w) | kb.k, w); }
    if ka.op == Op::Const { // a constant that equals the next bits of what b is a part of
        let (x, l) = if kb.op == Op::Extract { (kb.a, kb.k as u8) } else { (b, 0) };
        if l as u32 + w as u32 <= width(x) as u32 && as_const(extract(x, l + kb.w, ka.w)) == Some(ka.k) { return extract(x, l, w); }
        let r = width(x) - l - kb.w; if r > 0 && ka.w > r && as_const(extract(x, l + kb.w, r)) == Some(ka.k) { return zext(extract(x, l, kb.w + r), w); }
    }
    if ka.op == Op::Const && ka.k == 0 { return zext(b, w); }
    // adjacent extracts
    let (xa, la) = if ka.op == Op::Extract { (ka.a, ka.k as u8) } else { (a, 0) };
    let (xb, lb) = if kb.op == Op::Extract { (kb.a, kb.k as u8) } else { (b, 0) };
    if xa == xb && ka.op == Op::Extract && la == lb + kb.w { return extract(xa, lb, w); }
    if ka.op == Op::Extract && la >= kb.w && extract(ka.a, la - kb.w, kb.w) == b { return extract(ka.a, la - kb.w, w); }
    if ka.op == Op::Ite && kb.op == Op::Ite && ka.a == kb.a { return ite(ka.a, concat(ka.b, kb.b), concat(ka.c, kb.c)); }
    // concat(concat(p,q), b) where q,b adjacent
    if ka.op == Op::Concat { let kq = key(ka.b); if kq.op == Op::Extract { let la = kq.k as u8; if la >= kb.w && extract(kq.a, la - kb.w, kb.w) == b { return concat(ka.a, extract(kq.a, la - kb.w, kb.w + kq.w)); } } }
    if ka.op == Op::Concat { let kq = key(ka.b); if kq.op == Op::Extract && kq.a == xb && kq.k as u8 == lb + kb.w { return concat(ka.a, extract(xb, lb, kb.w + kq.w)); } 
        if kq.op == Op::Const && kb.op == Op::Const { return concat(ka.a, cst((kq.k << kb.w) | kb.k, kq.w + kb.w)); } }
    if ka.op == Op::Zext { return zext(concat(ka.a, b), w); }
    intern(Op::Concat, w, a, b, 0, 0)
}
pub fn ite(c: E, t: E, f: E) -> E {
    if let Some(v) = as_const(c) { return if v == 1 { t } else { f }; }
    if t == f { return t; }
    if let Some(x) = is_not(c) { return ite(x, f, t); }
    let w = width(t);
    if w == 1 {
        match (as_const(t), as_const(f)) { (Some(1), Some(0)) => return c, (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(Op::Or, c, f), (Some(0), None) => return bin(Op::And, not(c), f),
            (None, Some(1)) => return bin(Op::Or, not(c), t), (None, Some(0)) => return bin(Op::And, c, t), _ => {} }
    }
    let (kt, kf) = (key(t), key(f));
    if kt.op == Op::Ite && kt.a == c { return ite(c, kt.b, f); }
    if kf.op == Op::Ite && kf.a == c { return ite(c, t, kf.c); }
    intern(Op::Ite, w, c, t, f, 0)
}

/// number of bits known to be zero at the bottom
pub fn tz(e: E) -> u32 {
    let k = key(e);
    match k.op { Op::Const => if k.k == 0 { k.w as u32 } else { k.k.trailing_zeros() }, Op::Concat => { let t = tz(k.b); if t >= width(k.b) as u32 { t + tz(k.a) } else { t } }
        Op::Zext => { let t = tz(k.a); if t >= width(k.a) as u32 { k.w as u32 } else { t } } Op::Add | Op::Sub | Op::Or => tz(k.a).min(tz(k.b)), Op::Mul => (tz(k.a) + tz(k.b)).min(k.w as u32), Op::Ite => tz(k.b).min(tz(k.c)), _ => 0 }
}

pub fn vars(e: E) -> Rc<Vec<u32>> {
    if let Some(v) = AR.with(|a| a.borrow().vars_cache.get(&e).cloned()) { return v; }
    let k = key(e);
    let r = match k.op {
        Op::Const => Rc::new(vec![]),
        Op::Var => Rc::new(vec![e]),
        Op::Zext | Op::Sext | Op::Extract => vars(k.a),
        Op::Ite => merge(&merge(&vars(k.a), &vars(k.b)), &vars(k.c)),
        _ => merge(&vars(k.a), &vars(k.b)),
    };
    AR.with(|a| a.borrow_mut().vars_cache.insert(e, r.clone()));
    r
}
fn merge(a: &Rc<Vec<u32>>, b: &Rc<Vec<u32>>) -> Rc<Vec<u32>> {
    if a.is_empty() || Rc::ptr_eq(a, b) { return b.clone(); } if b.is_empty() { return a.clone(); }
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i] < b[j]) { r.push(a[i]); i += 1; }
        else if i >= a.len() || b[j] < a[i] { r.push(b[j]); j += 1; }
        else { r.push(a[i]); i += 1; j += 1; }
    }
    if r.len() == a.len() { return a.clone(); } if r.len() == b.len() { return b.clone(); }
    Rc::new(r)
}

/// Model: values of variables (keyed by the variable's expression id).
pub type Model = HashMap<E, u128>;

pub fn eval(e: E, m: &Model, memo: &mut HashMap<E, u128>) -> u128 {
    let k = key(e);
    match k.op { Op::Const => return k.k, Op::Var => return m.get(&e).copied().unwrap_or_else(|| range(e).0), _ => {} }
    if let Some(&v) = memo.get(&e) { return v; }
    let r = match k.op {
        Op::Zext => eval(k.a, m, memo),
        Op::Sext => sext_val(eval(k.a, m, memo), width(k.a)) as u128 & mask(k.w),
        Op::Extract => (eval(k.a, m, memo) >> k.k) & mask(k.w),
        Op::Concat => (eval(k.a, m, memo) << width(k.b)) | eval(k.b, m, memo),
        Op::Ite => if eval(k.a, m, memo) == 1 { eval(k.b, m, memo) } else { eval(k.c, m, memo) },
        _ => { let x = eval(k.a, m, memo); let y = eval(k.b, m, memo); fold(k.op, width(k.a), x, y) }
    };
    memo.insert(e, r);
    r
}

pub fn show(e: E) -> String {
    let k = key(e);
    match k.op { Op::Const => format!("{:#x}:{}", k.k, k.w), Op::Var => format!("{}:{}", var_name(k.k as u32), k.w),
        Op::Zext | Op::Sext => format!("({:?}{} {})", k.op, k.w, show(k.a)), Op::Extract => format!("{}[{}+{}]", show(k.a), k.k, k.w),
        Op::Ite => format!("(ite {} {} {})", show(k.a), show(k.b), show(k.c)),
        _ => format!("({:?} {} {})", k.op, show(k.a), show(k.b)) }
}
