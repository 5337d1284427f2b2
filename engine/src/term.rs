//! Hash-consed symbolic terms (the value-numbering domain).
//! A term denotes a mathematical integer.  An IR value of width N is represented by a term that is
//! congruent to it modulo 2^N; wrapping operators are introduced only where a signed or unsigned
//! reading is needed and the interval / affine enclosure cannot show that no wrap happens.
use std::cell::UnsafeCell;
use std::collections::HashMap;

pub type T = u32;
pub const NINF: i64 = i64::MIN;
pub const PINF: i64 = i64::MAX;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Lin(i64, Box<[(T, i64)]>),
    Sym(u32),
    /// n bytes (unsigned, little endian view) of the initial contents of object `obj` at offset
    Cell(u32, T, u8),
    /// contents forgotten at havoc `tag`
    Hav(u32, u32, T, u8),
    Shr(T, u8),
    ShrV(T, T),
    Pow2(T),
    Mul(T, T),
    WrapS(u8, T),
    WrapU(u8, T),
    And(T, T),
    Or(T, T),
    Xor(T, T),
    Ge0(T),
    Eq0(T),
    Ite(T, T, T),
    TDiv(T, T),
    TRem(T, T),
    Clz(u8, T),
    Def(T),
    Look(u32, T),
    Undef(u32),
}

pub struct SymInfo {
    pub name: String,
}

#[derive(Clone)]
pub struct Aff {
    pub c: f64,
    pub terms: Vec<(T, f64)>,
    pub elo: f64,
    pub ehi: f64,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub rng: Vec<(i64, i64)>,
    pub undef: Vec<bool>,
    /// built from sample data (bytes or 16-bit values of a buffer)
    pub data: Vec<bool>,
    pub fast_data: bool,
    pub map: HashMap<Node, T, Fx>,
    pub syms: Vec<SymInfo>,
    pub affs: HashMap<T, Option<std::rc::Rc<Aff>>, Fx>,
    pub tables: Vec<Vec<i64>>,
    pub cell_rng: HashMap<u32, (i64, i64)>,
    pub use_aff: bool,
    pub nundef: u32,
    pub ntag: u32,
    pub nsw: std::collections::HashSet<(T, u8), Fx>,
    pub tilecfg: TileCfg,
}
#[derive(Clone, Copy)]
pub struct TileCfg { pub cx: i64, pub cy: i64, pub lo: i64, pub hi: i64, pub qlo: i64, pub qhi: i64 }

#[derive(Default, Clone)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl FxH {
    #[inline]
    fn add(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(v));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.add(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.add(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.add(i)
    }
    fn write_i64(&mut self, i: i64) {
        self.add(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.add(i as u64)
    }
}

thread_local! {
    static AR: UnsafeCell<Arena> = UnsafeCell::new(Arena::new());
}
#[inline]
pub fn ar() -> &'static mut Arena {
    // one arena per thread; references never escape the thread
    AR.with(|a| unsafe { &mut *a.get() })
}
pub fn reset_arena() {
    *ar() = Arena::new();
}

fn sat(x: i128) -> i64 {
    if x <= NINF as i128 {
        NINF
    } else if x >= PINF as i128 {
        PINF
    } else {
        x as i64
    }
}
fn mulr(c: i64, r: (i64, i64)) -> (i128, i128) {
    let f = |v: i64| -> i128 {
        if v == NINF {
            if c > 0 { i128::MIN / 4 } else { i128::MAX / 4 }
        } else if v == PINF {
            if c > 0 { i128::MAX / 4 } else { i128::MIN / 4 }
        } else {
            c as i128 * v as i128
        }
    };
    let (a, b) = (f(r.0), f(r.1));
    if a < b { (a, b) } else { (b, a) }
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: vec![],
            rng: vec![],
            undef: vec![],
            data: vec![],
            fast_data: true,
            map: HashMap::default(),
            syms: vec![],
            affs: HashMap::default(),
            tables: vec![],
            cell_rng: HashMap::default(),
            use_aff: true,
            nundef: 0,
            ntag: 0,
            nsw: Default::default(),
            tilecfg: TileCfg { cx: 64, cy: 64, lo: 0, hi: 1023, qlo: i32::MIN as i64, qhi: i32::MAX as i64 },
        };
        // constants 0 and 1 get fixed ids
        a.intern(Node::Lin(0, Box::new([])));
        a.intern(Node::Lin(1, Box::new([])));
        a
    }
    fn intern(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let r = self.node_range(&n);
        let u = self.node_undef(&n);
        let id = self.nodes.len() as T;
        self.nodes.push(n.clone());
        self.rng.push(r);
        self.undef.push(u);
        let d = self.node_data(&n);
        self.data.push(d);
        self.map.insert(n, id);
        id
    }
    fn node_data(&self, n: &Node) -> bool {
        let u = |t: &T| self.data[*t as usize];
        match n {
            Node::Undef(_) | Node::Sym(_) => false,
            Node::Lin(_, ts) => ts.iter().any(|(t, _)| u(t)),
            Node::Cell(_, _, n) | Node::Hav(_, _, _, n) => *n <= 2,
            Node::Shr(t, _) | Node::Pow2(t) | Node::WrapS(_, t) | Node::WrapU(_, t) | Node::Ge0(t) | Node::Eq0(t) | Node::Clz(_, t) | Node::Def(t) | Node::Look(_, t) => u(t),
            Node::ShrV(a, b) | Node::Mul(a, b) | Node::And(a, b) | Node::Or(a, b) | Node::Xor(a, b) | Node::TDiv(a, b) | Node::TRem(a, b) => u(a) || u(b),
            Node::Ite(a, b, c) => u(a) || u(b) || u(c),
        }
    }
    fn node_undef(&self, n: &Node) -> bool {
        let u = |t: &T| self.undef[*t as usize];
        match n {
            Node::Undef(_) => true,
            Node::Lin(_, ts) => ts.iter().any(|(t, _)| u(t)),
            Node::Sym(_) => false,
            Node::Cell(_, t, _) | Node::Hav(_, _, t, _) | Node::Shr(t, _) | Node::Pow2(t) | Node::WrapS(_, t) | Node::WrapU(_, t) | Node::Ge0(t) | Node::Eq0(t) | Node::Clz(_, t) | Node::Def(t) | Node::Look(_, t) => u(t),
            Node::ShrV(a, b) | Node::Mul(a, b) | Node::And(a, b) | Node::Or(a, b) | Node::Xor(a, b) | Node::TDiv(a, b) | Node::TRem(a, b) => u(a) || u(b),
            Node::Ite(a, b, c) => u(a) || u(b) || u(c),
        }
    }
    fn node_range(&self, n: &Node) -> (i64, i64) {
        let r = |t: T| self.rng[t as usize];
        match n {
            Node::Lin(c, ts) => {
                let (mut lo, mut hi) = (*c as i128, *c as i128);
                for &(t, k) in ts.iter() {
                    let (a, b) = mulr(k, r(t));
                    lo = lo.saturating_add(a);
                    hi = hi.saturating_add(b);
                }
                (sat(lo), sat(hi))
            }
            Node::Sym(_) => (NINF, PINF),
            Node::Cell(_, _, n) | Node::Hav(_, _, _, n) => {
                if *n >= 8 { (NINF, PINF) } else { (0, (1i64 << (8 * *n)) - 1) }
            }
            Node::Shr(t, k) => {
                let (a, b) = r(*t);
                (if a == NINF { NINF } else { a >> k }, if b == PINF { PINF } else { b >> k })
            }
            Node::ShrV(t, v) => {
                let (a, b) = r(*t);
                let (vl, vh) = r(*v);
                let vl = vl.max(0).min(63);
                let vh = vh.max(0).min(63);
                let lo = if a == NINF { NINF } else { (a >> vl).min(a >> vh) };
                let hi = if b == PINF { PINF } else { (b >> vl).max(b >> vh) };
                (lo, hi)
            }
            Node::Pow2(t) => {
                let (a, b) = r(*t);
                (if a < 0 { 0 } else if a > 61 { PINF } else { 1 << a }, if b > 61 { PINF } else if b < 0 { 0 } else { 1 << b })
            }
            Node::Mul(a, b) => {
                let (al, ah) = r(*a);
                let (bl, bh) = r(*b);
                if al == NINF || ah == PINF || bl == NINF || bh == PINF {
                    if al >= 0 && bl >= 0 { return (0, PINF); }
                    return (NINF, PINF);
                }
                let c = [al as i128 * bl as i128, al as i128 * bh as i128, ah as i128 * bl as i128, ah as i128 * bh as i128];
                (sat(*c.iter().min().unwrap()), sat(*c.iter().max().unwrap()))
            }
            Node::WrapS(n, _) => {
                if *n >= 64 { (NINF, PINF) } else { (-(1i64 << (n - 1)), (1i64 << (n - 1)) - 1) }
            }
            Node::WrapU(n, _) => {
                if *n >= 63 { (0, PINF) } else { (0, (1i64 << n) - 1) }
            }
            Node::And(a, b) => {
                let (al, ah) = r(*a);
                let (bl, bh) = r(*b);
                if al >= 0 && bl >= 0 { (0, ah.min(bh)) }
                else if al >= 0 { (0, ah) }
                else if bl >= 0 { (0, bh) }
                else { self.bitr(al, ah, bl, bh) }
            }
            Node::Or(a, b) => {
                let (al, ah) = r(*a);
                let (bl, bh) = r(*b);
                if al >= 0 && bl >= 0 { let (_, h) = self.bitr(al, ah, bl, bh); (al.max(bl), h) } else { self.bitr(al, ah, bl, bh) }
            }
            Node::Xor(a, b) => {
                let (al, ah) = r(*a);
                let (bl, bh) = r(*b);
                let (l, h) = self.bitr(al, ah, bl, bh);
                if al >= 0 && bl >= 0 { (0, h) } else { (l, h) }
            }
            Node::Ge0(_) | Node::Eq0(_) => (0, 1),
            Node::Ite(_, a, b) => {
                let (al, ah) = r(*a);
                let (bl, bh) = r(*b);
                (al.min(bl), ah.max(bh))
            }
            Node::TDiv(a, b) => {
                let (al, ah) = r(*a);
                let (bl, bh) = r(*b);
                if al == NINF || ah == PINF { return (NINF, PINF); }
                if bl > 0 {
                    let c = [al / bl, al / bh, ah / bl, ah / bh];
                    return (*c.iter().min().unwrap(), *c.iter().max().unwrap());
                }
                let m = al.saturating_abs().max(ah.saturating_abs());
                (-m, m)
            }
            Node::TRem(a, b) => {
                let (al, ah) = r(*a);
                let (bl, bh) = r(*b);
                if bl > 0 && bh != PINF {
                    let m = bh - 1;
                    return (if al >= 0 { 0 } else { (-m).max(al) }, if ah <= 0 { 0 } else { m.min(ah) });
                }
                (NINF, PINF)
            }
            Node::Clz(n, t) => {
                let (a, _b) = r(*t);
                (0, if a > 0 { *n as i64 - 1 } else { *n as i64 })
            }
            Node::Def(t) => r(*t),
            Node::Look(tb, t) => {
                let tab = &self.tables[*tb as usize];
                let (a, b) = r(*t);
                let lo = a.max(0) as usize;
                let hi = (b.min(tab.len() as i64 - 1)).max(0) as usize;
                if lo > hi { return (NINF, PINF); }
                (*tab[lo..=hi].iter().min().unwrap(), *tab[lo..=hi].iter().max().unwrap())
            }
            Node::Undef(_) => (NINF, PINF),
        }
    }
    fn bitr(&self, al: i64, ah: i64, bl: i64, bh: i64) -> (i64, i64) {
        let m = [al, ah, bl, bh];
        if m.iter().any(|&x| x == NINF || x == PINF) { return (NINF, PINF); }
        let mut k = 0;
        while k < 62 && m.iter().any(|&x| x >= (1i64 << k) || x < -(1i64 << k)) { k += 1; }
        let neg = al < 0 || bl < 0;
        (if neg { -(1i64 << k) } else { 0 }, (1i64 << k) - 1)
    }
}

#[inline]
pub fn node(t: T) -> &'static Node {
    &ar().nodes[t as usize]
}
#[inline]
pub fn rng(t: T) -> (i64, i64) {
    ar().rng[t as usize]
}
pub fn has_undef(t: T) -> bool {
    ar().undef[t as usize]
}
pub fn is_data(t: T) -> bool { ar().data[t as usize] }
pub fn cst(c: i64) -> T {
    match c {
        0 => 0,
        1 => 1,
        _ => ar().intern(Node::Lin(c, Box::new([]))),
    }
}
pub fn as_const(t: T) -> Option<i64> {
    match node(t) {
        Node::Lin(c, ts) if ts.is_empty() => Some(*c),
        _ => None,
    }
}
pub fn sym(name: &str, lo: i64, hi: i64) -> T {
    let a = ar();
    let id = a.syms.len() as u32;
    a.syms.push(SymInfo { name: name.to_string() });
    let t = a.intern(Node::Sym(id));
    a.rng[t as usize] = (lo, hi);
    t
}
pub fn undef() -> T {
    let a = ar();
    a.nundef += 1;
    let n = a.nundef;
    a.intern(Node::Undef(n))
}
pub fn set_rng(t: T, lo: i64, hi: i64) {
    let r = &mut ar().rng[t as usize];
    *r = (lo, hi);
}
pub fn cell(obj: u32, off: T, n: u8) -> T {
    let a = ar();
    let k = Node::Cell(obj, off, n);
    if let Some(&t) = a.map.get(&k) { return t; }
    a.intern(k)
}
pub fn hav(tag: u32, obj: u32, off: T, n: u8) -> T {
    ar().intern(Node::Hav(tag, obj, off, n))
}
pub fn new_tag() -> u32 {
    let a = ar();
    a.ntag += 1;
    a.ntag
}
pub fn look(table: Vec<i64>, idx: T) -> T {
    if let Some(c) = as_const(idx) {
        if c >= 0 && (c as usize) < table.len() { return cst(table[c as usize]); }
    }
    let (lo, hi) = rng(idx);
    // strided index: keep only the reachable entries
    {
        let (c, ts) = lin_parts(idx);
        let mut g = 0;
        for &(_, k) in &ts { g = gcd(g, k.abs()); }
        if g > 1 {
            let b = c.rem_euclid(g);
            let sub: Vec<i64> = table.iter().skip(b as usize).step_by(g as usize).cloned().collect();
            return look(sub, mk_lin((c - b) / g, ts.iter().map(|&(t, k)| (t, k / g)).collect()));
        }
        if lo > 0 && lo != NINF && (lo as usize) < table.len() { return look(table[lo as usize..].to_vec(), addc(idx, -lo)); }
        if lo >= 0 && hi >= 0 && hi != PINF && (hi as usize) + 1 < table.len() { return look(table[..hi as usize + 1].to_vec(), idx); }
    }
    if lo >= 0 && hi < table.len() as i64 && hi - lo < 4096 {
        let sl: Vec<i64> = table[lo as usize..=hi as usize].to_vec();
        if sl.iter().all(|&x| x == sl[0]) { return cst(sl[0]); }
        // affine table
        if sl.len() >= 2 {
            let d = sl[1] - sl[0];
            if sl.windows(2).all(|w| w[1] - w[0] == d) { return add(cst(sl[0] - d * lo), scale(idx, d)); }
            // 2^(i+k)
            if sl[0] > 0 && (sl[0] as u64).is_power_of_two() && sl.windows(2).all(|w| w[1] == 2 * w[0]) {
                return pow2(addc(idx, sl[0].trailing_zeros() as i64 - lo));
            }
        }
    }
    let a = ar();
    let tb = match a.tables.iter().position(|x| *x == table) {
        Some(i) => i,
        None => { a.tables.push(table); a.tables.len() - 1 }
    };
    a.intern(Node::Look(tb as u32, idx))
}

pub fn lin_parts(t: T) -> (i64, Vec<(T, i64)>) {
    match node(t) {
        Node::Lin(c, ts) => (*c, ts.to_vec()),
        _ => (0, vec![(t, 1)]),
    }
}
#[inline]
pub fn with_lin<R>(t: T, f: impl FnOnce(i64, &[(T, i64)]) -> R) -> R {
    match node(t) {
        Node::Lin(c, ts) => f(*c, ts),
        _ => f(0, &[(t, 1)]),
    }
}
const MAXLIN: usize = 96;
pub fn mk_lin(c: i64, ts: Vec<(T, i64)>) -> T {
    debug_assert!(ts.windows(2).all(|w| w[0].0 < w[1].0));
    if ts.is_empty() { return cst(c); }
    if ts.len() == 1 && c == 0 && ts[0].1 == 1 { return ts[0].0; }
    if ts.len() > MAXLIN {
        let inner = ar().intern(Node::Lin(0, ts.into_boxed_slice()));
        let d = ar().intern(Node::Def(inner));
        return mk_lin(c, vec![(d, 1)]);
    }
    ar().intern(Node::Lin(c, ts.into_boxed_slice()))
}
pub fn lin_comb(a: T, ka: i64, b: T, kb: i64) -> T {
    with_lin(a, |ca, ta| {
        with_lin(b, |cb, tb| {
            let mut ovf = false;
            let mut mulk = |x: i64, k: i64| match x.checked_mul(k) { Some(v) => v, None => { ovf = true; 0 } };
            let c1 = mulk(ca, ka);
            let c2 = mulk(cb, kb);
            let mut out: Vec<(T, i64)> = Vec::with_capacity(ta.len() + tb.len());
            let (mut i, mut j) = (0, 0);
            let mut ov2 = false;
            while i < ta.len() || j < tb.len() {
                if j >= tb.len() || (i < ta.len() && ta[i].0 < tb[j].0) {
                    let v = mulk(ta[i].1, ka);
                    if v != 0 { out.push((ta[i].0, v)); }
                    i += 1;
                } else if i >= ta.len() || tb[j].0 < ta[i].0 {
                    let v = mulk(tb[j].1, kb);
                    if v != 0 { out.push((tb[j].0, v)); }
                    j += 1;
                } else {
                    let x = mulk(ta[i].1, ka);
                    let y = mulk(tb[j].1, kb);
                    match x.checked_add(y) { Some(v) => if v != 0 { out.push((ta[i].0, v)) }, None => ov2 = true }
                    i += 1;
                    j += 1;
                }
            }
            let c = match c1.checked_add(c2) { Some(v) => v, None => { ov2 = true; 0 } };
            if ovf || ov2 {
                // out of the representable coefficient range: opaque product/sum
                return ar().intern(Node::Undef({ ar().nundef += 1; ar().nundef }));
            }
            if ta.len() + tb.len() <= 40 && out.iter().any(|p| matches!(node(p.0), Node::WrapU(..))) && out.iter().any(|p| matches!(node(p.0), Node::Shr(..))) {
                if let Some((i, j, v, k)) = rejoin(&out) {
                    let rest: Vec<(T, i64)> = out.iter().enumerate().filter(|(x, _)| *x != i && *x != j).map(|(_, p)| *p).collect();
                    return add(mk_lin(c, rest), scale(v, k));
                }
            }
            mk_lin(c, out)
        })
    })
}
/// k*(v mod 2^n) + k*2^n*(v >> n) = k*v
fn rejoin(ts: &[(T, i64)]) -> Option<(usize, usize, T, i64)> {
    for (i, &(x, k)) in ts.iter().enumerate() {
        if let Node::WrapU(n, u) = node(x) {
            if *n > 40 { continue; }
            for (j, &(y, q)) in ts.iter().enumerate() {
                if let Node::Shr(v, m) = node(y) {
                    if m != n || k.checked_mul(1i64 << *n) != Some(q) { continue; }
                    if *v == *u { return Some((i, j, *v, k)); }
                    let (c, ds) = lin_parts(sub(*v, *u));
                    let f = 1i64 << *n;
                    if c % f == 0 && ds.iter().all(|p| p.1 % f == 0) { return Some((i, j, *v, k)); }
                }
            }
        }
    }
    None
}
pub fn add(a: T, b: T) -> T { if a == 0 { return b; } if b == 0 { return a; } lin_comb(a, 1, b, 1) }
pub fn sub(a: T, b: T) -> T { if b == 0 { return a; } if a == b { return 0; } lin_comb(a, 1, b, -1) }
pub fn addc(a: T, c: i64) -> T { if c == 0 { a } else { add(a, cst(c)) } }
pub fn scale(a: T, k: i64) -> T { if k == 1 { a } else if k == 0 { 0 } else { lin_comb(a, k, 0, 0) } }
pub fn neg(a: T) -> T { scale(a, -1) }

pub fn mul(a: T, b: T) -> T {
    if let Some(c) = as_const(a) { return scale(b, c); }
    if let Some(c) = as_const(b) { return scale(a, c); }
    // distribute over small linear forms
    let (ca, ta) = lin_parts(a);
    let (cb, tb) = lin_parts(b);
    if ta.len() * tb.len() <= 16 {
        let mut r = cst(ca.wrapping_mul(cb));
        for &(x, k) in &ta { r = add(r, scale(x, k.wrapping_mul(cb))); }
        for &(y, k) in &tb { r = add(r, scale(y, k.wrapping_mul(ca))); }
        for &(x, kx) in &ta {
            for &(y, ky) in &tb {
                let m = mul_atoms(x, y);
                r = add(r, scale(m, kx.wrapping_mul(ky)));
            }
        }
        return r;
    }
    let (x, y) = if a < b { (a, b) } else { (b, a) };
    ar().intern(Node::Mul(x, y))
}
fn mul_atoms(x: T, y: T) -> T {
    if let (Node::Pow2(p), Node::Pow2(q)) = (node(x), node(y)) { return pow2(add(*p, *q)); }
    // 0/1 atoms: idempotent
    if x == y && is_bool(x) { return x; }
    let (x, y) = if x < y { (x, y) } else { (y, x) };
    // flatten nested products into a right comb sorted by id
    let mut fs = vec![];
    fn coll(t: T, fs: &mut Vec<T>) { if let Node::Mul(a, b) = node(t) { if !matches!(node(*a), Node::Lin(..)) && !matches!(node(*b), Node::Lin(..)) { coll(*a, fs); coll(*b, fs); return; } } fs.push(t); }
    coll(x, &mut fs);
    coll(y, &mut fs);
    fs.sort();
    let mut r = fs.pop().unwrap();
    while let Some(f) = fs.pop() { r = ar().intern(Node::Mul(f, r)); }
    r
}
pub fn is_bool(t: T) -> bool { let r = rng(t); r.0 >= 0 && r.1 <= 1 }
pub fn pow2(t: T) -> T {
    if let Some(c) = as_const(t) { if c >= 0 && c < 62 { return cst(1 << c); } }
    let (c, ts) = lin_parts(t);
    if c > 0 && c < 62 && !ts.is_empty() {
        // normalise 2^(t+c) = 2^c * 2^t only when the remaining exponent stays nonnegative
        let base = mk_lin(0, ts.clone());
        if rng(base).0 >= 0 { return scale(ar().intern(Node::Pow2(base)), 1 << c); }
    }
    ar().intern(Node::Pow2(t))
}

/// floor(t / 2^k)
pub fn shr(t: T, k: u8) -> T {
    if k == 0 { return t; }
    if let Some(c) = as_const(t) { return cst(if k > 63 { if c < 0 { -1 } else { 0 } } else { c >> k }); }
    let (lo, hi) = rng(t);
    if k >= 63 { if lo >= 0 { return 0; } if hi < 0 { return cst(-1); } }
    if lo != NINF && hi != PINF && k < 63 && (lo >> k) == (hi >> k) { return cst(lo >> k); }
    let (c, ts) = lin_parts(t);
    let m = 1i64 << k.min(62);
    let mut outp: Vec<(T, i64)> = vec![];
    let mut rem: Vec<(T, i64)> = vec![];
    for &(x, q) in &ts { if q % m == 0 { outp.push((x, q / m)); } else { rem.push((x, q)); } }
    let co = c >> k;
    let cr = c - (co << k);
    if !outp.is_empty() || co != 0 {
        let o = mk_lin(co, outp);
        let r = mk_lin(cr, rem);
        return add(o, shr(r, k));
    }
    // 2^p >> k = 2^(p-k)
    if c == 0 && ts.len() == 1 && ts[0].1 == 1 { if let Node::Pow2(p) = node(ts[0].0) { if rng(*p).0 >= k as i64 { return pow2(addc(*p, -(k as i64))); } } }
    // Shr(Shr(u,a)+c, k) = Shr(u + c*2^a, a+k)
    if ts.len() == 1 && ts[0].1 == 1 {
        if let Node::Shr(u, a) = node(ts[0].0) {
            if (*a as u32) + (k as u32) < 60 {
                if let Some(cc) = c.checked_mul(1 << *a) { return shr(addc(*u, cc), a + k); }
            }
        }
        if c == 0 {
            if let Node::ShrV(u, v) = node(ts[0].0) { return shrv(*u, addc(*v, k as i64)); }
        }
    }
    // common factor 2^j
    let mut j = k;
    for &(_, q) in &ts { j = j.min(q.trailing_zeros() as u8); }
    if j > 0 {
        let f = 1i64 << j;
        let r = mk_lin(c >> j, ts.iter().map(|&(x, q)| (x, q / f)).collect());
        return shr(r, k - j);
    }
    // ite push for small cases
    if ts.len() == 1 && ts[0].1 == 1 {
        if let Node::Ite(cd, a, b) = node(ts[0].0) {
            if as_const(*a).is_some() || as_const(*b).is_some() { return ite(*cd, shr(addc(*a, c), k), shr(addc(*b, c), k)); }
        }
    }
    // affine enclosure can pin the result
    if ar().use_aff && ts.len() > 1 && hi != PINF && lo != NINF {
        let (l2, h2) = arng(t);
        if (l2 >> k) == (h2 >> k) { return cst(l2 >> k); }
    }
    let r = ar().intern(Node::Shr(t, k));
    r
}
pub fn shrv(t: T, v: T) -> T {
    if let Some(c) = as_const(v) { if c >= 0 && c < 64 { return shr(t, c as u8); } }
    if t == 0 { return 0; }
    let (l, h) = rng(t);
    if l >= -1 && h <= 0 && rng(v).0 >= 0 { return t; }
    if let Node::ShrV(u, w) = node(t) { return shrv(*u, add(*w, v)); }
    if let Node::Shr(u, k) = node(t) { return shrv(*u, addc(v, *k as i64)); }
    ar().intern(Node::ShrV(t, v))
}

fn strip(n: u8, t: T) -> T {
    // remove inner wraps that are irrelevant modulo 2^n, reduce coefficients
    let (c, ts) = lin_parts(t);
    let red = |x: i64| -> i64 {
        if n >= 63 { return x; }
        let m = 1i128 << n;
        let mut v = (x as i128).rem_euclid(m);
        if v > m / 2 { v -= m; }
        v as i64
    };
    let mut changed = false;
    let mut r: T = cst(red(c));
    if red(c) != c { changed = true; }
    let mut plain: Vec<(T, i64)> = vec![];
    for &(x, k) in &ts {
        let tz = k.trailing_zeros() as u8;
        let k2 = red(k);
        if k2 != k { changed = true; }
        if k2 == 0 { continue; }
        match node(x) {
            Node::WrapS(m, u) | Node::WrapU(m, u) if (*m as u32 + tz as u32) >= n as u32 => {
                changed = true;
                let su = strip(n - tz.min(n), *u);
                r = add(r, scale(su, k2));
            }
            Node::Ite(cd, a, b) if n.saturating_sub(tz) < 63 => {
                let nn = n - tz;
                let a2 = strip(nn, *a);
                let b2 = strip(nn, *b);
                if a2 != *a || b2 != *b { changed = true; r = add(r, scale(ite(*cd, a2, b2), k2)); } else { plain.push((x, k2)); }
            }
            _ => plain.push((x, k2)),
        }
    }
    if !changed { return t; }
    let r2 = add(r, mk_lin(0, plain));
    if r2 != t { strip(n, r2) } else { r2 }
}
fn wrap_parts(n: u8, t: T) -> T { strip(n, t) }

pub fn wrap_s(n: u8, t: T) -> T {
    if n >= 64 { return t; }
    let (lo, hi) = (-(1i64 << (n - 1)), (1i64 << (n - 1)) - 1);
    let r = rng(t);
    if r.0 >= lo && r.1 <= hi { return t; }
    if let Some(c) = as_const(t) { return cst((c << (64 - n)) >> (64 - n)); }
    if let Node::WrapS(m, _) = node(t) { if *m <= n { return t; } }
    let s = wrap_parts(n, t);
    if let Some(c) = as_const(s) { return cst((c << (64 - n)) >> (64 - n)); }
    let r = rng(s);
    if r.0 >= lo && r.1 <= hi { return s; }
    if ar().use_aff {
        let (a, b) = arng(s);
        if a >= lo && b <= hi { return s; }
        if s != t { let (a, b) = arng(t); if a >= lo && b <= hi { return t; } }
    }
    // a single-shift correction: value in [2^(n-1), 2^n) or so
    if let Node::Ite(c, a, b) = node(s) { let (c, a, b) = (*c, *a, *b); let (wa, wb) = (wrap_s(n, a), wrap_s(n, b)); return ite(c, wa, wb); }
    ar().intern(Node::WrapS(n, s))
}
pub fn wrap_u(n: u8, t: T) -> T {
    if n >= 64 { return t; }
    let hi = if n == 63 { PINF } else { (1i64 << n) - 1 };
    let r = rng(t);
    if r.0 >= 0 && r.1 <= hi { return t; }
    if let Some(c) = as_const(t) { return cst(c & hi); }
    if let Node::WrapU(m, _) = node(t) { if *m <= n { return t; } }
    let s = wrap_parts(n, t);
    if let Some(c) = as_const(s) { return cst(c & hi); }
    let r = rng(s);
    if r.0 >= 0 && r.1 <= hi { return s; }
    if n < 62 {
        // multiples of 2^j above the window vanish; common factor moves out
        let (c, ts) = lin_parts(s);
        let mut j = n;
        for &(_, q) in &ts { j = j.min(q.trailing_zeros() as u8); }
        if j > 0 {
            let f = 1i64 << j;
            let cl = c & (f - 1);
            let inner = mk_lin((c - cl) >> j, ts.iter().map(|&(x, q)| (x, q / f)).collect());
            return addc(scale(wrap_u(n - j, inner), f), cl);
        }
        // all atoms with odd part in window and the rest aligned: x + 2^j y with 0<=x<2^j
        for &(x, q) in &ts {
            if q == 1 {
                let rx = rng(x);
                if rx.0 >= 0 && rx.1 < hi {
                    let bits = 64 - (rx.1 as u64).leading_zeros() as u8;
                    let others_ok = c >= 0 && (c & ((1i64 << bits) - 1)) == 0 && ts.iter().all(|&(y, k)| y == x || (k.trailing_zeros() as u8) >= bits);
                    if others_ok && bits < n && ts.len() > 1 {
                        let rest = mk_lin(c, ts.iter().filter(|p| p.0 != x).cloned().collect());
                        return add(x, wrap_u(n, rest));
                    }
                }
            }
        }
    }
    if ar().use_aff {
        let (a, b) = arng(s);
        if a >= 0 && b <= hi { return s; }
        if s != t { let (a, b) = arng(t); if a >= 0 && b <= hi { return t; } }
    }
    if let Node::Ite(c, a, b) = node(s) { let (c, a, b) = (*c, *a, *b); let (wa, wb) = (wrap_u(n, a), wrap_u(n, b)); return ite(c, wa, wb); }
    // WrapU(n, Shr(WrapX(m,u),k)) with m >= n+k  ->  WrapU(n, Shr(u,k))
    if let Node::Shr(u, k) = node(s) {
        let u2 = strip(n + *k, *u);
        if u2 != *u { return wrap_u(n, shr(u2, *k)); }
    }
    ar().intern(Node::WrapU(n, s))
}

pub fn and(a: T, b: T) -> T {
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) { return cst(x & y); }
    if a == b { return a; }
    let (x, c) = if let Some(c) = as_const(b) { (a, Some(c)) } else if let Some(c) = as_const(a) { (b, Some(c)) } else { (a, None) };
    if let Some(c) = c {
        if c == 0 { return 0; }
        if c == -1 { return x; }
        // decompose the mask into runs of ones
        let mut r = 0;
        let mut i = 0u8;
        let cu = c as u64;
        let mut nruns = 0;
        { let mut p = 0; for j in 0..64 { let bt = (cu >> j) & 1; if bt == 1 && p == 0 { nruns += 1; } p = bt; } }
        if nruns <= 4 {
            while i < 64 {
                if (cu >> i) & 1 == 0 { i += 1; continue; }
                let mut j = i;
                while j < 64 && (cu >> j) & 1 == 1 { j += 1; }
                let s = shr(x, i);
                let w = if j == 64 { s } else { wrap_u(j - i, s) };
                r = add(r, scale(w, 1i64.wrapping_shl(i as u32)));
                i = j;
            }
            return r;
        }
    }
    if is_bool(a) && is_bool(b) { return band(a, b); }
    // -B mask style: and(x, -b) with b in {0,1}
    for (p, q) in [(a, b), (b, a)] {
        let nb = neg(p);
        if is_bool(nb) { return ite(nb, q, 0); }
        if let Some(cd) = sign_mask(p) { return ite(cd, q, 0); }
    }
    let (x, y) = if a < b { (a, b) } else { (b, a) };
    ar().intern(Node::And(x, y))
}
/// p in {-1,0}: returns the condition "p == -1"
fn sign_mask(p: T) -> Option<T> {
    let r = rng(p);
    if r.0 == -1 && r.1 == 0 {
        if let Node::Shr(t, k) = node(p) {
            let _ = k;
            return Some(bnot(ge0(*t)));
        }
    }
    None
}
pub fn or(a: T, b: T) -> T {
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) { return cst(x | y); }
    if a == b { return a; }
    if a == 0 { return b; }
    if b == 0 { return a; }
    if is_bool(a) && is_bool(b) { return bnot(band(bnot(a), bnot(b))); }
    // disjoint bits -> sum
    for (p, q) in [(a, b), (b, a)] {
        let (lo, hi) = rng(q);
        if lo >= 0 && hi != PINF {
            let bits = 64 - (hi as u64).leading_zeros();
            let (c, ts) = lin_parts(p);
            if (c == 0 || c.trailing_zeros() >= bits) && ts.iter().all(|&(_, k)| k.trailing_zeros() >= bits) { return add(p, q); }
        }
    }
    // (x | c) with c constant: x + c - (x & c)
    if let Some(c) = as_const(b) { if (c as u64).count_ones() <= 8 { return sub(addc(a, c), and(a, b)); } }
    if let Some(c) = as_const(a) { if (c as u64).count_ones() <= 8 { return sub(addc(b, c), and(a, b)); } }
    for (p, q) in [(a, b), (b, a)] { if let Some(cd) = sign_mask(p) { return ite(cd, cst(-1), q); } }
    let (x, y) = if a < b { (a, b) } else { (b, a) };
    ar().intern(Node::Or(x, y))
}
pub fn xor(a: T, b: T) -> T {
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) { return cst(x ^ y); }
    if a == b { return 0; }
    if a == 0 { return b; }
    if b == 0 { return a; }
    for (p, q) in [(a, b), (b, a)] {
        if let Some(c) = as_const(p) {
            if c == -1 { return sub(cst(-1), q); }
            let (lo, hi) = rng(q);
            if c > 0 && (c & (c + 1)) == 0 && lo >= 0 && hi <= c { return sub(cst(c), q); }
        }
        if is_bool(p) && is_bool(q) { return sub(add(p, q), scale(band(p, q), 2)); }
        let nb = neg(p);
        if is_bool(nb) { return ite(nb, sub(cst(-1), q), q); }
        if let Some(cd) = sign_mask(p) { return ite(cd, sub(cst(-1), q), q); }
    }
    // single-bit constant: x ^ c = x + c - 2 (x & c)
    for (p, q) in [(a, b), (b, a)] {
        if let Some(c) = as_const(p) { if (c as u64).count_ones() == 1 { return sub(addc(q, c), scale(and(q, p), 2)); } }
    }
    let (x, y) = if a < b { (a, b) } else { (b, a) };
    ar().intern(Node::Xor(x, y))
}
pub fn bnot(b: T) -> T { sub(1, b) }
pub fn band(a: T, b: T) -> T {
    if a == 0 || b == 0 { return 0; }
    if a == 1 { return b; }
    if b == 1 { return a; }
    if a == b { return a; }
    if a == bnot(b) { return 0; }
    ite(a, b, 0)
}
pub fn ge0(t: T) -> T {
    let (lo, hi) = rng(t);
    if lo >= 0 { return 1; }
    if hi < 0 { return 0; }
    let (c, ts) = lin_parts(t);
    if ts.len() == 1 {
        let (x, k) = ts[0];
        if is_bool(x) {
            let v0 = c >= 0;
            let v1 = c.saturating_add(k) >= 0;
            return match (v0, v1) { (true, true) => 1, (false, false) => 0, (false, true) => x, (true, false) => bnot(x) };
        }
        if let Node::Ite(cd, a, b) = node(x) {
            let (ra, rb) = (ge0(addc(scale(*a, k), c)), ge0(addc(scale(*b, k), c)));
            if as_const(ra).is_some() || as_const(rb).is_some() { return ite(*cd, ra, rb); }
        }
    }
    // divide by gcd
    let mut g = 0i64;
    for &(_, k) in &ts { g = gcd(g, k.abs()); }
    let t2 = if g > 1 { mk_lin(c.div_euclid(g), ts.iter().map(|&(x, k)| (x, k / g)).collect()) } else { t };
    if t2 != t { return ge0(t2); }
    if ar().use_aff && ts.len() > 1 {
        let (a, b) = arng(t);
        if a >= 0 { return 1; }
        if b < 0 { return 0; }
    }
    // canonical polarity: leading coefficient positive
    if ts[0].1 < 0 { return bnot(ar().intern(Node::Ge0(sub(cst(-1), t)))); }
    // x >= 0 for Shr(u,k): u >= 0
    if ts.len() == 1 && ts[0].1 == 1 {
        match node(ts[0].0) {
            Node::Shr(u, k) if *k < 60 => { if let Some(m) = c.checked_mul(1 << *k) { return ge0(addc(*u, m)); } }
            _ => {}
        }
    }
    ar().intern(Node::Ge0(t))
}
pub fn gcd(a: i64, b: i64) -> i64 { if b == 0 { a } else { gcd(b, a % b) } }
pub fn eq0(t: T) -> T {
    let (lo, hi) = rng(t);
    if lo > 0 || hi < 0 { return 0; }
    let (c, ts) = lin_parts(t);
    if ts.is_empty() { return if c == 0 { 1 } else { 0 }; }
    if ts.len() == 1 {
        let (x, k) = ts[0];
        if is_bool(x) {
            let v0 = c == 0;
            let v1 = c.saturating_add(k) == 0;
            return match (v0, v1) { (true, true) => 1, (false, false) => 0, (false, true) => x, (true, false) => bnot(x) };
        }
        if let Node::Ite(cd, a, b) = node(x) {
            let (ra, rb) = (eq0(addc(scale(*a, k), c)), eq0(addc(scale(*b, k), c)));
            if as_const(ra).is_some() || as_const(rb).is_some() { return ite(*cd, ra, rb); }
        }
    }
    let mut g = 0i64;
    for &(_, k) in &ts { g = gcd(g, k.abs()); }
    if g > 1 {
        if c % g != 0 { return 0; }
        return eq0(mk_lin(c / g, ts.iter().map(|&(x, k)| (x, k / g)).collect()));
    }
    if ts[0].1 < 0 { return eq0(neg(t)); }
    if ar().use_aff && ts.len() > 1 {
        let (a, b) = arng(t);
        if a > 0 || b < 0 { return 0; }
    }
    // boundary: t >= 0 known -> eq0 = not(t-1 >= 0)
    ar().intern(Node::Eq0(t))
}
pub fn ite(c: T, a: T, b: T) -> T {
    if let Some(k) = as_const(c) { return if k != 0 { a } else { b }; }
    if a == b { return a; }
    // canonical condition polarity
    if let Node::Lin(k, ts) = node(c) {
        if *k == 1 && ts.len() == 1 && ts[0].1 == -1 { return ite(ts[0].0, b, a); }
    }
    let d = sub(a, b);
    if let Some(k) = as_const(d) { return add(b, scale(c, k)); }
    // nested same condition
    let a2 = if let Node::Ite(c2, x, _) = node(a) { if *c2 == c { *x } else { a } } else { a };
    let b2 = if let Node::Ite(c2, _, y) = node(b) { if *c2 == c { *y } else { b } } else { b };
    if a2 != a || b2 != b { return ite(c, a2, b2); }
    // min/max style simplification: if the condition makes both equal etc. is left to callers
    ar().intern(Node::Ite(c, a, b))
}
pub fn tdiv(a: T, b: T) -> T {
    if let Some(k) = as_const(b) {
        if k == 0 { return undef(); }
        if let Some(c) = as_const(a) { return cst(c.wrapping_div(k)); }
        if k == 1 { return a; }
        if k == -1 { return neg(a); }
        let (c, ts) = lin_parts(a);
        if k > 0 {
            // exact multiples
            if c % k == 0 && ts.iter().all(|&(_, q)| q % k == 0) { return mk_lin(c / k, ts.iter().map(|&(x, q)| (x, q / k)).collect()); }
            let (lo, _) = rng(a);
            if lo >= 0 {
                if k.count_ones() == 1 { return shr(a, k.trailing_zeros() as u8); }
                // pull out multiples when the remainder part is nonnegative
                let mut o = vec![];
                let mut r = vec![];
                for &(x, q) in &ts { if q % k == 0 { o.push((x, q / k)) } else { r.push((x, q)) } }
                let rr = mk_lin(c.rem_euclid(k), r);
                if rng(rr).0 >= 0 && !o.is_empty() {
                    let oo = mk_lin(c.div_euclid(k), o);
                    return add(oo, tdiv(rr, b));
                }
                let (_, hi) = rng(a);
                if hi != PINF && lo / k == hi / k { return cst(lo / k); }
            }
        }
    }
    ar().intern(Node::TDiv(a, b))
}
pub fn trem(a: T, b: T) -> T {
    if let Some(k) = as_const(b) {
        if k == 0 { return undef(); }
        if let Some(c) = as_const(a) { return cst(c.wrapping_rem(k)); }
        let k = k.abs();
        if rng(a).0 >= 0 && k.count_ones() == 1 { return wrap_u(k.trailing_zeros() as u8, a); }
        return sub(a, scale(tdiv(a, cst(k)), k));
    }
    ar().intern(Node::TRem(a, b))
}
pub fn clz(n: u8, t: T) -> T {
    if let Some(c) = as_const(t) { if c >= 0 { return cst(((c as u64).leading_zeros() as i64) - (64 - n as i64)); } }
    ar().intern(Node::Clz(n, t))
}

// ---------------------------------------------------------------- affine enclosures
pub fn aff(t: T) -> Option<std::rc::Rc<Aff>> {
    if let Some(a) = ar().affs.get(&t) { return a.clone(); }
    let r = aff0(t).map(std::rc::Rc::new);
    ar().affs.insert(t, r.clone());
    r
}
fn leaf(t: T) -> Option<Aff> {
    let (lo, hi) = rng(t);
    if lo == NINF || hi == PINF { return None; }
    Some(Aff { c: 0.0, terms: vec![(t, 1.0)], elo: 0.0, ehi: 0.0 })
}
fn box_(t: T) -> Option<Aff> {
    let (lo, hi) = rng(t);
    if lo == NINF || hi == PINF { return None; }
    Some(Aff { c: 0.0, terms: vec![], elo: lo as f64, ehi: hi as f64 })
}
fn aff0(t: T) -> Option<Aff> {
    match node(t) {
        Node::Lin(c, ts) => {
            let mut acc: HashMap<T, f64, Fx> = HashMap::default();
            let mut r = Aff { c: *c as f64, terms: vec![], elo: 0.0, ehi: 0.0 };
            for &(x, k) in ts.iter() {
                let a = aff(x)?;
                let k = k as f64;
                r.c += k * a.c;
                if k > 0.0 { r.elo += k * a.elo; r.ehi += k * a.ehi; } else { r.elo += k * a.ehi; r.ehi += k * a.elo; }
                for &(y, q) in &a.terms { *acc.entry(y).or_insert(0.0) += k * q; }
            }
            let mut v: Vec<(T, f64)> = acc.into_iter().filter(|p| p.1 != 0.0).collect();
            v.sort_by_key(|p| p.0);
            r.terms = v;
            Some(r)
        }
        Node::Shr(u, k) => {
            let a = aff(*u)?;
            let f = 1.0 / (1u64 << k) as f64;
            Some(Aff { c: a.c * f, terms: a.terms.iter().map(|&(y, q)| (y, q * f)).collect(), elo: a.elo * f - (1.0 - f), ehi: a.ehi * f })
        }
        Node::Sym(_) | Node::Cell(..) | Node::Hav(..) => leaf(t),
        Node::Ite(_, _, _) | _ => {
            // treated as a base variable of its own
            let _ = box_;
            leaf(t)
        }
    }
}
/// interval from the affine enclosure (integers, outward rounded)
pub fn arng(t: T) -> (i64, i64) {
    let r0 = rng(t);
    match aff(t) {
        None => r0,
        Some(a) => {
            let (mut lo, mut hi) = (a.c + a.elo, a.c + a.ehi);
            for &(x, k) in &a.terms {
                let (l, h) = rng(x);
                if k > 0.0 { lo += k * l as f64; hi += k * h as f64; } else { lo += k * h as f64; hi += k * l as f64; }
            }
            if lo.abs() > 1e15 || hi.abs() > 1e15 { return r0; }
            let l = (lo - 1e-6).ceil() as i64;
            let h = (hi + 1e-6).floor() as i64;
            (l.max(r0.0), h.min(r0.1))
        }
    }
}

// ---------------------------------------------------------------- substitution / evaluation / printing
pub struct Subst<'a> {
    pub f: &'a dyn Fn(T, &Node) -> Option<T>,
    pub memo: HashMap<T, T, Fx>,
}
impl<'a> Subst<'a> {
    pub fn new(f: &'a dyn Fn(T, &Node) -> Option<T>) -> Subst<'a> { Subst { f, memo: HashMap::default() } }
    pub fn go(&mut self, t: T) -> T {
        if t < 2 { return t; }
        if let Some(&r) = self.memo.get(&t) { return r; }
        let nd = node(t).clone();
        let r = if let Some(r) = (self.f)(t, &nd) { r } else {
            match nd {
                Node::Lin(c, ts) => {
                    let mut same = true;
                    let xs: Vec<(T, i64)> = ts.iter().map(|&(x, k)| { let y = self.go(x); if y != x { same = false; } (y, k) }).collect();
                    if same { t } else {
                        let mut acc = cst(c);
                        for (y, k) in xs { acc = add(acc, scale(y, k)); }
                        acc
                    }
                }
                Node::Sym(_) | Node::Undef(_) => t,
                Node::Cell(o, x, n) => { let y = self.go(x); if y == x { t } else { let r = cell(o, y, n); let (l, h) = rng(t); set_rng(r, l, h); r } }
                Node::Hav(g, o, x, n) => { let y = self.go(x); if y == x { t } else { let r = hav(g, o, y, n); let (l, h) = rng(t); set_rng(r, l, h); r } }
                Node::Shr(x, k) => { let y = self.go(x); if y == x { t } else { shr(y, k) } }
                Node::ShrV(x, v) => { let (y, w) = (self.go(x), self.go(v)); if (y, w) == (x, v) { t } else { shrv(y, w) } }
                Node::Pow2(x) => { let y = self.go(x); if y == x { t } else { pow2(y) } }
                Node::Mul(x, v) => { let (y, w) = (self.go(x), self.go(v)); if (y, w) == (x, v) { t } else { mul(y, w) } }
                Node::WrapS(n, x) => { let y = self.go(x); if y == x { t } else { wrap_s(n, y) } }
                Node::WrapU(n, x) => { let y = self.go(x); if y == x { t } else { wrap_u(n, y) } }
                Node::And(x, v) => { let (y, w) = (self.go(x), self.go(v)); if (y, w) == (x, v) { t } else { and(y, w) } }
                Node::Or(x, v) => { let (y, w) = (self.go(x), self.go(v)); if (y, w) == (x, v) { t } else { or(y, w) } }
                Node::Xor(x, v) => { let (y, w) = (self.go(x), self.go(v)); if (y, w) == (x, v) { t } else { xor(y, w) } }
                Node::Ge0(x) => { let y = self.go(x); if y == x { t } else { ge0(y) } }
                Node::Eq0(x) => { let y = self.go(x); if y == x { t } else { eq0(y) } }
                Node::Ite(c, a, b) => { let (c2, a2, b2) = (self.go(c), self.go(a), self.go(b)); if (c2, a2, b2) == (c, a, b) { t } else { ite(c2, a2, b2) } }
                Node::TDiv(x, v) => { let (y, w) = (self.go(x), self.go(v)); if (y, w) == (x, v) { t } else { tdiv(y, w) } }
                Node::TRem(x, v) => { let (y, w) = (self.go(x), self.go(v)); if (y, w) == (x, v) { t } else { trem(y, w) } }
                Node::Clz(n, x) => { let y = self.go(x); if y == x { t } else { clz(n, y) } }
                Node::Def(x) => { let y = self.go(x); if y == x { t } else { y } }
                Node::Look(tb, x) => { let y = self.go(x); if y == x { t } else { look(ar().tables[tb as usize].clone(), y) } }
            }
        };
        self.memo.insert(t, r);
        r
    }
}
pub fn subst1(t: T, map: &HashMap<T, T, Fx>) -> T {
    if map.is_empty() { return t; }
    let f = |x: T, _: &Node| map.get(&x).cloned();
    let mut s = Subst::new(&f);
    s.go(t)
}

/// evaluate a term under a pseudo-random valuation of its leaves (used only to look for a witness
/// that two normal forms really differ)
pub fn eval(t: T, seed: u64, memo: &mut HashMap<T, i64, Fx>) -> i64 {
    if let Some(&v) = memo.get(&t) { return v; }
    let v = match node(t).clone() {
        Node::Lin(c, ts) => ts.iter().fold(c, |a, &(x, k)| a.wrapping_add(k.wrapping_mul(eval(x, seed, memo)))),
        Node::Sym(_) | Node::Undef(_) | Node::Hav(..) | Node::Cell(..) => {
            let (mut lo, mut hi) = rng(t);
            if lo == NINF { lo = -1000000; }
            if hi == PINF { hi = 1000000.max(lo); }
            // key on structure so equal leaves in different contexts agree
            let mut h = seed ^ (t as u64).wrapping_mul(0x9E3779B97F4A7C15);
            h ^= h >> 29; h = h.wrapping_mul(0xBF58476D1CE4E5B9); h ^= h >> 32; h = h.wrapping_mul(0x94D049BB133111EB); h ^= h >> 31;
            let style = seed % 4;
            let span = (hi as i128 - lo as i128 + 1) as u128;
            match style {
                0 | 1 => (lo as i128 + ((h as u128) % span) as i128) as i64,
                2 => if h & 1 == 0 { lo } else { hi },
                _ => { let r = (h as u128) % span; let m = span / 2; (lo as i128 + ((m + r / 16) % span) as i128) as i64 }
            }
        }
        Node::Shr(x, k) => eval(x, seed, memo) >> k,
        Node::ShrV(x, v) => { let a = eval(x, seed, memo); let b = eval(v, seed, memo).clamp(0, 63); a >> b }
        Node::Pow2(x) => { let a = eval(x, seed, memo); if (0..62).contains(&a) { 1 << a } else { 0 } }
        Node::Mul(x, y) => eval(x, seed, memo).wrapping_mul(eval(y, seed, memo)),
        Node::WrapS(n, x) => { let a = eval(x, seed, memo); (a << (64 - n)) >> (64 - n) }
        Node::WrapU(n, x) => { let a = eval(x, seed, memo); a & ((1i64 << n) - 1) }
        Node::And(x, y) => eval(x, seed, memo) & eval(y, seed, memo),
        Node::Or(x, y) => eval(x, seed, memo) | eval(y, seed, memo),
        Node::Xor(x, y) => eval(x, seed, memo) ^ eval(y, seed, memo),
        Node::Ge0(x) => (eval(x, seed, memo) >= 0) as i64,
        Node::Eq0(x) => (eval(x, seed, memo) == 0) as i64,
        Node::Ite(c, a, b) => if eval(c, seed, memo) != 0 { eval(a, seed, memo) } else { eval(b, seed, memo) },
        Node::TDiv(x, y) => { let b = eval(y, seed, memo); if b == 0 { 0 } else { eval(x, seed, memo).wrapping_div(b) } }
        Node::TRem(x, y) => { let b = eval(y, seed, memo); if b == 0 { 0 } else { eval(x, seed, memo).wrapping_rem(b) } }
        Node::Clz(n, x) => { let a = eval(x, seed, memo) as u64; a.leading_zeros() as i64 - (64 - n as i64) }
        Node::Def(x) => eval(x, seed, memo),
        Node::Look(tb, x) => { let i = eval(x, seed, memo); let tab = &ar().tables[tb as usize]; if i >= 0 && (i as usize) < tab.len() { tab[i as usize] } else { 0 } }
    };
    memo.insert(t, v);
    v
}

/// base symbols / cells a term depends on
pub fn leaves(t: T, seen: &mut HashMap<T, (), Fx>, out: &mut Vec<T>) {
    if seen.insert(t, ()).is_some() { return; }
    match node(t) {
        Node::Lin(_, ts) => for &(x, _) in ts.iter() { leaves(x, seen, out) },
        Node::Sym(_) | Node::Undef(_) => out.push(t),
        Node::Cell(..) | Node::Hav(..) => out.push(t),
        Node::Shr(x, _) | Node::Pow2(x) | Node::WrapS(_, x) | Node::WrapU(_, x) | Node::Ge0(x) | Node::Eq0(x) | Node::Clz(_, x) | Node::Def(x) | Node::Look(_, x) => leaves(*x, seen, out),
        Node::ShrV(a, b) | Node::Mul(a, b) | Node::And(a, b) | Node::Or(a, b) | Node::Xor(a, b) | Node::TDiv(a, b) | Node::TRem(a, b) => { leaves(*a, seen, out); leaves(*b, seen, out) }
        Node::Ite(a, b, c) => { leaves(*a, seen, out); leaves(*b, seen, out); leaves(*c, seen, out) }
    }
}

pub fn show(t: T) -> String { show_d(t, 6) }
pub fn show_d(t: T, d: u32) -> String {
    if d == 0 { return format!("t{}", t); }
    let s = |x: T| show_d(x, d - 1);
    match node(t) {
        Node::Lin(c, ts) => {
            let mut o = String::new();
            for (i, &(x, k)) in ts.iter().enumerate() {
                if i > 8 { o += &format!(" +..({} more)", ts.len() - i); break; }
                if k == 1 { if i > 0 { o += " + "; } } else if k == -1 { o += if i > 0 { " - " } else { "-" }; } else if k < 0 { o += &format!("{}{}*", if i > 0 { " - " } else { "-" }, -(k as i128)); } else { o += &format!("{}{}*", if i > 0 { " + " } else { "" }, k); }
                o += &s(x);
            }
            if ts.is_empty() { o += &c.to_string(); } else if *c > 0 { o += &format!(" + {}", c); } else if *c < 0 { o += &format!(" - {}", -(*c as i128)); }
            if ts.len() > 1 || (*c != 0 && !ts.is_empty()) { format!("({})", o) } else { o }
        }
        Node::Sym(i) => ar().syms[*i as usize].name.clone(),
        Node::Cell(o, x, n) => format!("m{}[{}]:{}", o, s(*x), n),
        Node::Hav(g, o, x, n) => format!("h{}.m{}[{}]:{}", g, o, s(*x), n),
        Node::Shr(x, k) => format!("({}>>{})", s(*x), k),
        Node::ShrV(x, k) => format!("({}>>{})", s(*x), s(*k)),
        Node::Pow2(x) => format!("2^{}", s(*x)),
        Node::Mul(a, b) => format!("{}*{}", s(*a), s(*b)),
        Node::WrapS(n, x) => format!("s{}({})", n, s(*x)),
        Node::WrapU(n, x) => format!("u{}({})", n, s(*x)),
        Node::And(a, b) => format!("({} & {})", s(*a), s(*b)),
        Node::Or(a, b) => format!("({} | {})", s(*a), s(*b)),
        Node::Xor(a, b) => format!("({} ^ {})", s(*a), s(*b)),
        Node::Ge0(x) => format!("[{}>=0]", s(*x)),
        Node::Eq0(x) => format!("[{}==0]", s(*x)),
        Node::Ite(c, a, b) => format!("({} ? {} : {})", s(*c), s(*a), s(*b)),
        Node::TDiv(a, b) => format!("({} / {})", s(*a), s(*b)),
        Node::TRem(a, b) => format!("({} % {})", s(*a), s(*b)),
        Node::Clz(_, x) => format!("clz({})", s(*x)),
        Node::Def(x) => format!("sum({})", s(*x)),
        Node::Look(t, x) => format!("tab{}[{}]", t, s(*x)),
        Node::Undef(n) => format!("UNINIT{}", n),
    }
}
