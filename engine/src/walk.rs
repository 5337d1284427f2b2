//! Reads a frame back from the abstract output log and checks it block by block against the protocol.
use crate::exec::*;
use crate::job::*;
use crate::lp;
use crate::scen::*;
use crate::state::*;
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Find { pub prop: &'static str, pub func: String, pub file: String, pub line: u32, pub msg: String, pub ndep: bool }
#[derive(Default)]
pub struct Walked { pub finds: Vec<Find>, pub unsure: Vec<String>, pub sticky: Vec<String>, pub frames: u64, pub tiles: u64, pub fields: u64, pub loops: u64, pub planes: u64 }
pub enum Cmp { Same, Differ(String), Unknown }

/// a valuation of the leaves satisfying every fact of the state and every condition (each >= 0)
pub fn witness(st: &State, conds: &[T]) -> Option<HashMap<T, i64, Fx>> {
    let mut ls: Vec<T> = vec![];
    let mut seen = HashMap::default();
    let facts: Vec<T> = st.facts.iter().cloned().filter(|&f| !is_data(f)).collect();
    for &f in facts.iter().chain(conds) { leaves(f, &mut seen, &mut ls); }
    for (&k, _) in st.known.iter() { if !is_data(k) { leaves(k, &mut seen, &mut ls); } }
    let ok = |m: &mut HashMap<T, i64, Fx>, seed: u64| -> bool {
        conds.iter().all(|&c| eval(c, seed, m) >= 0) && facts.iter().all(|&f| eval(f, seed, m) >= 0) && st.known.iter().all(|(&k, &v)| is_data(k) || (eval(k, seed, m) != 0) == v) && st.diseq.iter().all(|&d| is_data(d) || eval(d, seed, m) != 0)
    };
    // a vertex of the linear relaxation
    let (f, vars) = st.lp_w(conds);
    let mut base: HashMap<T, i64, Fx> = HashMap::default();
    match f {
        lp::Feas::Infeasible => return None,
        lp::Feas::Feasible(vals) => { for (x, q) in vars.iter().zip(vals) { if matches!(node(*x), Node::Sym(_) | Node::Cell(..) | Node::Hav(..)) { base.insert(*x, q.floor() as i64); } } }
        _ => {}
    }
    let mut m = base.clone();
    for &l in &ls { m.entry(l).or_insert_with(|| { let (a, b) = rng(l); 0.max(a).min(b) }); }
    if ok(&mut m, 1) { return Some(m); }
    let bounds: Vec<(T, i64, i64)> = ls.iter().take(24).map(|&l| { let r = rng(l); let lo = st.min_of(l, 1 << 33).unwrap_or(r.0).max(r.0).max(-(1 << 33)); let hi = st.max_of(l, 1 << 33).unwrap_or(r.1).min(r.1).min(1 << 33); (l, lo, hi.max(lo)) }).collect();
    let mut z: u64 = 0x1234567;
    let mut rnd = move || { z ^= z << 13; z ^= z >> 7; z ^= z << 17; z };
    for k in 0..6000u64 {
        let mut m: HashMap<T, i64, Fx> = HashMap::default();
        for &(l, lo, hi) in &bounds {
            let v = match rnd() % 6 {
                0 | 1 => base.get(&l).cloned().unwrap_or(lo),
                2 => lo, 3 => hi,
                4 => lo + (rnd() % 8) as i64,
                _ => lo + (rnd() % ((hi - lo) as u64 + 1)) as i64,
            };
            m.insert(l, v.clamp(lo, hi));
        }
        if ok(&mut m, 2 + k) { return Some(m); }
    }
    None
}
pub fn precise_leaf(l: T) -> bool {
    match node(l) { Node::Sym(i) => { let n = &ar().syms[*i as usize].name; n.starts_with("n@") || n.starts_with('L') || n.starts_with('A') || n.starts_with("num_") || n.starts_with("capacity") || n.starts_with("frames_") || n == "width" || n == "height" || n.starts_with("img_") || n.starts_with("stride") } Node::Cell(_, o, _) => { let mut ls = vec![]; leaves(*o, &mut HashMap::default(), &mut ls); ls.into_iter().all(precise_leaf) } _ => false }
}
/// a valuation of arguments and iteration counts that meets every fact of the path and the conditions, none of
/// them connected to a generalised quantity
pub fn exact(st: &State, conds: &[T]) -> Option<String> {
    let lv = |t: T| { let mut ls = vec![]; leaves(t, &mut HashMap::default(), &mut ls); ls };
    let mut set: HashSet<T> = HashSet::new();
    for &c in conds { set.extend(lv(c)); }
    let cons: Vec<Vec<T>> = st.facts.iter().cloned().chain(st.known.keys().cloned()).chain(st.diseq.iter().cloned()).filter(|&f| !is_data(f)).map(lv).collect();
    loop {
        let n = set.len();
        for c in &cons { if c.iter().any(|l| set.contains(l)) { set.extend(c.iter().cloned()); } }
        if set.len() == n { break; }
    }
    if !set.iter().all(|&l| precise_leaf(l)) { return None; }
    let show_m = |m: &HashMap<T, i64, Fx>| { let mut v: Vec<String> = conds.iter().flat_map(|&c| lv(c)).map(|l| format!("{}={}", show(l), m.get(&l).cloned().unwrap_or(0))).collect(); v.dedup(); v.truncate(6); v.join(", ") };
    let mut base: Vec<T> = conds.to_vec();
    for &l in &set { if iter_count(l) { base.push(sub(cst(65534), l)); } }
    if let Some(m) = witness(st, &base) { return Some(show_m(&m)); }
    for l in conds.iter().flat_map(|&c| lv(c)).take(4) { for v in [256, 257, 300, 4096, 8192, 32768] { let mut b = base.clone(); b.push(addc(l, -v)); b.push(sub(cst(v), l)); if let Some(m) = witness(st, &b) { return Some(show_m(&m)); } } }
    None
}
fn iter_count(t: T) -> bool { matches!(node(t), Node::Sym(i) if ar().syms[*i as usize].name.starts_with("n@")) }
/// the value the path's equalities give a symbol
pub fn pinned(st: &State, x: T) -> T {
    for &f in st.facts.iter() {
        let (c, ts) = lin_parts(f);
        if ts.len() > 3 { continue; }
        if let Some(&(_, k)) = ts.iter().find(|p| p.0 == x) {
            if k.abs() != 1 || !st.entails(neg(f)) { continue; }
            let rest: Vec<(T, i64)> = ts.iter().filter(|p| p.0 != x).map(|&(y, q)| (y, -q * k)).collect();
            return mk_lin(-c * k, rest);
        }
    }
    if let (Some(a), Some(b)) = (st.min_of(x, 1 << 20), st.max_of(x, 1 << 20)) { if a == b { return cst(a); } }
    x
}
pub fn equal(st: &State, a: T, b: T) -> bool {
    let (a, b) = (st.simp(a), st.simp(b));
    if a == b { return true; }
    if has_undef(a) || has_undef(b) { return false; }
    let d = sub(a, b);
    if st.entails(d) && st.entails(neg(d)) { return true; }
    // under the path's equalities
    let mut ls = vec![];
    leaves(d, &mut HashMap::default(), &mut ls);
    let mut map: HashMap<T, T, Fx> = HashMap::default();
    for l in ls { if matches!(node(l), Node::Sym(_)) { let p = pinned(st, l); if p != l && (as_const(p).is_some() || iter_count(l)) { map.insert(l, p); } } }
    if !map.is_empty() { let d2 = subst1(d, &map); if d2 == 0 || (st.entails(d2) && st.entails(neg(d2))) { return true; } }
    false
}
/// iteration counts in a term, each bounded by what the arguments allow
fn counts(t: T) -> Vec<T> {
    let mut ls = vec![];
    leaves(t, &mut HashMap::default(), &mut ls);
    ls.into_iter().filter(|&l| iter_count(l)).map(|l| sub(cst(65534), l)).collect()
}
pub fn compare(st: &State, a: T, b: T) -> Cmp {
    if equal(st, a, b) { return Cmp::Same; }
    let (a, b) = (st.simp(a), st.simp(b));
    let d = sub(a, b);
    if has_undef(a) { return Cmp::Differ("it is never initialised".into()); }
    for c in [addc(d, -1), addc(neg(d), -1)] {
        let mut cs = vec![c];
        cs.extend(counts(d));
        if let Some(mut m) = witness(st, &cs) {
            let (x, y) = (eval(a, 1, &mut m), eval(b, 1, &mut m));
            let mut ls = vec![];
            leaves(d, &mut HashMap::default(), &mut ls);
            let w: Vec<String> = ls.iter().take(6).map(|&l| format!("{}={}", show(l), eval(l, 1, &mut m))).collect();
            return Cmp::Differ(format!("it is {} where {} is right{}", x, y, if w.is_empty() { String::new() } else { format!(" (for {})", w.join(", ")) }));
        }
    }
    // counts at which narrow fields wrap
    let mut ls = vec![];
    leaves(d, &mut HashMap::default(), &mut ls);
    for &l in ls.iter().filter(|&&l| matches!(node(l), Node::Sym(_))).take(4) {
        for v in [256, 255, 257, 300, 1000, 4096, 8192, 32768, 65530] {
            let (lo, hi) = rng(l);
            if v < lo || v > hi { continue; }
            let mut cs = vec![addc(l, -v), sub(cst(v), l)];
            cs.extend(counts(d));
            if let Some(mut m) = witness(st, &cs) {
                let (x, y) = (eval(a, 1, &mut m), eval(b, 1, &mut m));
                if x != y { return Cmp::Differ(format!("it is {} where {} is right (for {}={})", x, y, show(l), v)); }
            }
        }
    }
    Cmp::Unknown
}
enum Src { Byte(T, u32, u32), Coder(usize), Nothing, Unknown(String) }
/// geometry of an array the frame holds
struct Arr { end: T, n: T, explicit: usize }

pub struct Walk<'j, 'a> { pub j: &'j Job<'a>, pub cfg: Cfg, pub inp: &'j Inputs, pub out: Walked, pub floors: Vec<T>, pub floor_memo: HashMap<(u32, T), bool>, pub cert: HashMap<(u32, T, T), Option<(T, T)>>, pub general: bool, pub depth: u32, pub class: String, pub g: T, pub header: bool, pub seen_tiles: HashSet<usize>, pub ndep: bool }
struct Ctx { st: State, log: Vec<Rc<LogN>> }

impl<'j, 'a> Walk<'j, 'a> {
    fn find(&mut self, prop: &'static str, func: u32, line: u32, msg: String) {
        let (name, file) = self.j.m.fnames.get(func as usize).map(|n| (n.clone(), self.j.m.m.funcs.get(n).map(|f| f.file.clone()).unwrap_or_default())).unwrap_or_default();
        let msg = format!("{} [{}]", msg, self.class);
        if self.out.finds.iter().any(|f| f.prop == prop && f.func == name && f.line == line) { return; }
        let ndep = self.ndep;
        self.out.finds.push(Find { prop, func: name, file, line, msg, ndep });
    }
    fn unsure(&mut self, s: String) { if self.out.unsure.len() < 40 && !self.out.unsure.contains(&s) { self.out.unsure.push(s); } }
    fn stick(&mut self, s: String) { if self.out.sticky.len() < 40 && !self.out.sticky.contains(&s) { self.out.sticky.push(s); } }
    fn top(&self) -> u32 { *self.j.m.fidx.get("rfxcodec_encode_ex").unwrap_or(&0) }
    /// every write of a summarised iteration lands at or after `p`
    fn floor(&mut self, uid: u32, p: T) -> bool {
        if let Some(&r) = self.floor_memo.get(&(uid, p)) { return r; }
        let rec = match self.j.m.loops.get(&uid) { Some(r) => r, None => return false };
        let mut ok = true;
        'o: for b in &rec.backs {
            let es = b.entries();
            let from = es.iter().rposition(|e| matches!(e.e, Entry::Head(u) if u == uid)).map_or(0, |x| x + 1);
            for e in &es[from..] {
                let off = match e.e { Entry::W { off, .. } | Entry::Copy { off, .. } | Entry::Fill { off, .. } | Entry::Coder { off, .. } => off, Entry::Head(u) => { if !self.floor(u, p) { ok = false; break 'o; } continue; } _ => continue };
                if !b.entails(sub(off, p)) { ok = false; break 'o; }
            }
        }
        self.floor_memo.insert((uid, p), ok);
        ok
    }
    fn read(&mut self, c: &Ctx, off: T) -> Src {
        let be = self.j.m.m.big_endian;
        let off = c.st.simp(off);
        for i in (0..c.log.len()).rev() {
            let inside = |o: T, n: T| -> Option<bool> {
                let d = sub(off, o);
                if let (Some(d), Some(n)) = (as_const(d), as_const(n)) { return Some(d >= 0 && d < n); }
                if rng(d).1 < 0 || rng(sub(d, n)).0 >= 0 { return Some(false); }
                if c.st.entails(addc(neg(d), -1)) || c.st.entails(sub(d, n)) { return Some(false); }
                if c.st.entails(d) && c.st.entails(addc(sub(n, d), -1)) { return Some(true); }
                None
            };
            match &c.log[i].e {
                Entry::W { off: o, n, v, line, func } => {
                    match inside(*o, cst(*n as i64)) {
                        Some(false) => {}
                        Some(true) => {
                            let d = match as_const(c.st.simp(sub(off, *o))) { Some(d) => d as usize, None => return Src::Unknown("byte of a wide store".into()) };
                            return match v { V::I(t) => Src::Byte(byte_of(*t, if be { *n as usize - 1 - d } else { d }), *line, *func), _ => Src::Unknown("a pointer is stored".into()) };
                        }
                        None => return Src::Unknown(format!("a store at {} may or may not reach {}", show(*o), show(off))),
                    }
                }
                Entry::Copy { off: o, len, src, soff, line, func } => match inside(*o, *len) {
                    Some(false) => {}
                    Some(true) => {
                        let ob = match c.st.obj(*src) { Some(x) => x, None => return Src::Unknown("copy from a dead object".into()) };
                        if !matches!(ob.kind, Kind::Input | Kind::Const | Kind::Global) { return Src::Unknown("copy from changing memory".into()); }
                        let so = add(*soff, sub(off, *o));
                        let t = match as_const(so) { Some(k) => match ob.read(k as usize, 1, be) { V::I(t) => t, _ => return Src::Unknown("copy of a pointer".into()) }, None if ob.pages.is_empty() => ob.defval(so, 1, be), _ => return Src::Unknown("copy at a symbolic offset".into()) };
                        return Src::Byte(wrap_u(8, t), *line, *func);
                    }
                    None => return Src::Unknown(format!("a copy to {} may or may not reach {}", show(*o), show(off))),
                },
                Entry::Fill { off: o, len, v, line, func } => match inside(*o, *len) { Some(false) => {} Some(true) => return Src::Byte(wrap_u(8, *v), *line, *func), None => return Src::Unknown("a fill may reach it".into()) },
                Entry::Coder { off: o, cap, len, .. } => {
                    if as_const(*len) != Some(-1) && (*o == off || c.st.simp(sub(*o, off)) == 0) && (rng(*len).0 > 0 || !matches!(inside(*o, *len), Some(false))) { return Src::Coder(i); }
                    match inside(*o, *cap) { Some(false) => {} Some(true) => return Src::Coder(i), None => return Src::Unknown(format!("a coder run at {} may or may not reach {}", show(*o), show(off))) }
                }
                Entry::Head(u) => {
                    let fl = self.floors.clone();
                    let mut ok = false;
                    for p in fl { if (rng(sub(p, off)).0 > 0 || c.st.entails(addc(sub(p, off), -1))) && self.floor(*u, p) { ok = true; break; } }
                    if !ok { return Src::Unknown("written by a summarised loop".into()); }
                }
                _ => {}
            }
        }
        Src::Nothing
    }
    /// n little-endian bytes at off must be `want`
    fn field(&mut self, c: &Ctx, off: T, n: usize, want: T, prop: &'static str, what: &str) -> bool {
        self.out.fields += 1;
        let mut got = 0;
        let mut loc = (0, self.top());
        let mut bytes = vec![];
        for i in 0..n {
            match self.read(c, addc(off, i as i64)) {
                Src::Byte(t, l, f) => { loc = (l, f); got = add(got, scale(t, 1 << (8 * i))); bytes.push(t); }
                Src::Nothing => { let t = self.top(); self.find("C04", t, 0, format!("{}: byte {} at output offset {} is part of the reported frame but never written", what, i, show(off))); return false; }
                Src::Coder(k) => { let (l, f) = if let Entry::Coder { line, func, .. } = c.log[k].e { (line, func) } else { (0, 0) }; self.find("C04", f, l, format!("{}: the bytes at output offset {} are coder data", what, show(off))); return false; }
                Src::Unknown(s) => { self.unsure(format!("{}: {}", what, s)); return false; }
            }
        }
        let w = if n >= 8 { want } else { wrap_u(8 * n as u8, want) };
        // byte by byte first, then the assembled value
        if (0..n).all(|i| c.st.simp(bytes[i]) == c.st.simp(byte_of(want, i))) { return true; }
        if (0..n).all(|i| self.same(&c.st, bytes[i], byte_of(want, i))) { return true; }
        match compare(&c.st, got, w) {
            Cmp::Same => true,
            Cmp::Differ(s) => {
                if self.general && !self.precise(sub(got, w)) { self.unsure(format!("{}: differs from {} only in generalised quantities", what, show(want))); }
                else { self.ndep = !counts(sub(got, w)).is_empty(); self.find(prop, loc.1, loc.0, format!("{} is wrong: {}", what, s)); self.ndep = false; }
                false
            }
            Cmp::Unknown => { self.unsure(format!("{}: {} not shown equal to {}", what, show(got), show(w))); false }
        }
    }
    /// only over quantities with an exact meaning: arguments, coder lengths, iteration counts
    fn precise(&self, t: T) -> bool {
        let mut ls = vec![];
        leaves(t, &mut HashMap::default(), &mut ls);
        ls.into_iter().all(precise_leaf)
    }
    fn precise_off(&self, a: T, b: T) -> bool {
        // offsets built from list cells: look inside them
        let mut ls = vec![];
        leaves(sub(a, b), &mut HashMap::default(), &mut ls);
        ls.iter().all(|&l| match node(l) { Node::Cell(_, o, _) => self.precise(*o), _ => self.precise(l) })
    }
    fn same(&self, st: &State, a: T, b: T) -> bool { equal(st, a, b) }
    /// no entry of the log after `from` touches [lo, hi)
    fn intact(&mut self, c: &Ctx, from: usize, lo: T, hi: T, what: &str) {
        for i in from..c.log.len() {
            let (o, n, line, func) = match &c.log[i].e { Entry::W { off, n, line, func, .. } => (*off, cst(*n as i64), *line, *func), Entry::Copy { off, len, line, func, .. } | Entry::Fill { off, len, line, func, .. } => (*off, *len, *line, *func), Entry::Coder { off, cap, line, func, .. } => (*off, *cap, *line, *func), _ => continue };
            if c.st.entails(sub(o, hi)) || c.st.entails(sub(lo, add(o, n))) { continue; }
            let ov = [addc(sub(add(o, n), lo), -1), addc(sub(hi, o), -1), addc(n, -1)];
            if self.general { self.unsure(format!("{} may be overwritten at line {}", what, line)); continue; }
            if witness(&c.st, &ov).is_some() { self.find("C04+C07", func, line, format!("{} is overwritten by a later store at output offset {}", what, show(o))); } else { self.unsure(format!("{} may be overwritten at line {}", what, line)); }
        }
    }
    fn tile_field(&self, idx: T, f: i64) -> T { tile_cell(self.inp.tiles, addc(scale(idx, TILE_SZ), f)) }
    fn quant_base(&self, idx: T, f: i64) -> T { scale(self.tile_field(idx, f), 5) }
    /// one tile record; returns its end
    fn tile(&mut self, c: &Ctx, pos: T, idx: T) -> Option<T> {
        let pro = self.cfg.pro();
        let alpha = self.cfg.alpha();
        let hl = if pro { 22 } else if alpha { 21 } else { 19 };
        self.out.tiles += 1;
        let mut ok = self.field(c, pos, 2, cst(if pro { 0xCCC5 } else { 0xCAC3 }), "C04", "tile block type");
        for (k, f) in [(6, 16), (7, 20), (8, 24)] { ok &= self.field(c, addc(pos, k), 1, self.tile_field(idx, f), "C08", ["Y quant index of a tile", "Cb quant index of a tile", "Cr quant index of a tile"][(k - 6) as usize]); }
        let (x, y) = (self.tile_field(idx, 0), self.tile_field(idx, 4));
        ok &= self.field(c, addc(pos, 9), 2, shr(x, 6), "C08", "x index of a tile");
        ok &= self.field(c, addc(pos, 11), 2, shr(y, 6), "C08", "y index of a tile");
        // planes
        let np = if alpha { 4 } else { 3 };
        let mut p = addc(pos, hl);
        let mut lens = vec![];
        for k in 0..np {
            let at = (0..c.log.len()).rev().find(|&i| matches!(c.log[i].e, Entry::Coder { off, .. } if c.st.simp(sub(off, p)) == 0));
            let i = match if let Some(i) = at { Src::Coder(i) } else { self.read(c, p) } {
                Src::Coder(i) => i,
                Src::Byte(_, l, f) => { self.find("C04+C07", f, l, format!("plane {} of a tile is not where the tile's header ends: other data is stored there", k)); return None; }
                Src::Nothing => { let t = self.top(); self.find("C04+C07", t, 0, format!("plane {} of a delivered tile was never coded", k)); return None; }
                Src::Unknown(s) => { self.unsure(format!("plane {}: {}", k, s)); return None; }
            };
            let (off, len, cap, kind, line, func, coefs) = if let Entry::Coder { off, len, cap, kind, line, func, coefs, .. } = &c.log[i].e { (*off, *len, *cap, *kind, *line, *func, coefs.clone()) } else { unreachable!() };
            if c.st.simp(sub(off, p)) != 0 && !self.same(&c.st, off, p) { self.find("C04+C07", func, line, format!("plane {} of a delivered tile does not start where the coder wrote it", k)); return None; }
            if as_const(len) == Some(-1) { self.find("C07", func, line, format!("plane {} of a delivered tile failed to encode", k)); return None; }
            let want = if k == 3 { Cut::Alpha as u8 } else if pro { Cut::Diff1 as u8 } else if self.cfg.cflags & F_RLGR1 != 0 { Cut::Plain1 as u8 } else { Cut::Plain3 as u8 };
            let r1 = |k: u8| k == Cut::Plain1 as u8 || k == Cut::Diff1 as u8;
            if (want == Cut::Alpha as u8) != (kind == Cut::Alpha as u8) { self.find("C07", func, line, format!("plane {} of a tile holds the wrong kind of data", k)); return None; }
            if k < 3 && r1(kind) != r1(want) { self.find("C06", func, line, format!("plane {} of a tile is compressed with {} although the stream announces {}", k, if r1(kind) { "RLGR1" } else { "RLGR3" }, if r1(want) { "RLGR1" } else { "RLGR3" })); }
            if k < 3 && (kind == Cut::Plain1 as u8 || kind == Cut::Plain3 as u8) && !c.st.entails(addc(cap, -A1)) {
                if witness(&c.st, &[sub(cst(A1 - 1), cap)]).is_some() && !self.general { self.find("C07", func, line, format!("plane {} of a delivered tile is coded into {} bytes, fewer than a plane may need: it can be cut short", k, show(cap))); } else { self.unsure(format!("plane {}: room for the coder", k)); }
            }
            if self.seen_tiles.insert(Rc::as_ptr(&coefs) as usize) { self.plane(c, &coefs, k, idx, line, func); }
            self.intact(c, i + 1, off, add(off, len), &format!("plane {} of a tile", k));
            lens.push(len);
            p = add(p, len);
        }
        for (k, &l) in lens.iter().enumerate() { ok &= self.field(c, addc(pos, if pro { 14 } else { 13 } + 2 * k as i64), 2, l, "C04", ["Y data length of a tile", "Cb data length of a tile", "Cr data length of a tile", "alpha data length of a tile"][k]); }
        if pro { ok &= self.field(c, addc(pos, 20), 2, 0, "C04", "tail length of a tile"); }
        ok &= self.field(c, addc(pos, 2), 4, sub(p, pos), "C04", "block length of a tile");
        if ok { Some(p) } else { None }
    }
    /// what the coefficients of a plane depend on
    fn plane(&mut self, c: &Ctx, coefs: &Rc<Vec<T>>, k: usize, idx: T, line: u32, func: u32) {
        self.out.planes += 1;
        let px = match self.j.m.pix { Some(p) => p, None => return };
        let mut ls = vec![];
        let mut seen = HashMap::default();
        for &t in coefs.iter() { leaves(t, &mut seen, &mut ls); }
        let want_e = scale(idx, TILE_SZ);
        let qb = self.quant_base(idx, [16, 20, 24, 0][k]);
        for l in ls {
            match node(l) {
                Node::Cell(o, off, _) if *o == px.obj => {
                    match pix_locate(&px, *off) {
                        Some((e, r, b)) => {
                            if !self.same(&c.st, e, want_e) { if self.general && !self.precise(sub(e, want_e)) { self.stick(format!("plane {}: tile entry {}", k, show(e))); return; } self.find("C08", func, line, format!("plane {} of tile {} is computed from the pixels of another tile (list offset {})", k, show(idx), show(e))); return; }
                            if px.planar > 0 { if b / 4096 != k as i64 { self.find("C08", func, line, format!("plane {} of a tile is computed from plane {} of the image data", k, b / 4096)); return; } }
                            else if r < 0 || r >= px.cy || b < 0 || b >= px.cx * px.bpp { self.find("C08", func, line, format!("plane {} of a tile depends on a pixel outside its rectangle (row {}, byte {})", k, r, b)); return; }
                        }
                        None => {
                            let off = c.st.simp(*off);
                            if !self.general {
                                let (x, y) = (self.tile_field(idx, 0), self.tile_field(idx, 4));
                                let unit = if px.planar > 0 { 256 } else { px.bpp };
                                let rel = sub(sub(off, mul(y, px.stride)), scale(x, unit));
                                let mut tries: Vec<Vec<T>> = vec![vec![addc(neg(rel), -1)]];
                                if px.planar > 0 { tries.push(vec![addc(rel, -4096 * px.planar)]); } else {
                                    tries.push(vec![sub(rel, scale(px.stride, px.cy))]);
                                    for r in [0, 1, px.cy - 1] { tries.push(vec![sub(rel, addc(scale(px.stride, r), px.cx * px.bpp)), addc(sub(scale(px.stride, r + 1), rel), -1)]); }
                                }
                                for mut t in tries {
                                    t.push(addc(px.stride, -(1 << 19)));
                                    if witness(&c.st, &t).is_none() { continue; }
                                    self.find("C08", func, line, format!("plane {} of tile {} is computed from pixel address {}, which can lie outside the tile's rectangle", k, show(idx), show(off)));
                                    if px.planar == 0 && self.slope(off, idx) != px.bpp { self.find("C23", func, line, format!("the bytes per pixel used, {}, do not match the format's {}", self.slope(off, idx), px.bpp)); }
                                    return;
                                }
                            }
                            self.stick(format!("plane {} depends on pixel address {}", k, show(off))); return;
                        }
                    }
                }
                Node::Cell(o, off, _) if *o == self.inp.quants => {
                    let d = c.st.simp(sub(*off, scale(qb, 2)));
                    match as_const(d) { Some(x) if (0..10).contains(&x) => {} _ => {
                        // equal tables are fine when the indexes are forced equal
                        let ok = (0..10).any(|x| self.same(&c.st, d, cst(x)));
                        if !ok { if self.general && !self.precise_off(*off, scale(qb, 2)) { self.stick(format!("plane {}: quant table {}", k, show(*off))); return; } self.find("C08", func, line, format!("plane {} of tile {} is quantised with table bytes {} instead of those of its own index", k, show(idx), show(*off))); return; }
                    } }
                }
                _ => {}
            }
        }
    }
    /// how far one pixel to the right moves an address
    fn slope(&self, off: T, idx: T) -> i64 {
        let x = self.tile_field(idx, 0);
        let (_, xs) = lin_parts(x);
        match xs.first() { Some(&(cell, per)) => lin_parts(off).1.iter().find(|p| p.0 == cell).map_or(0, |p| p.1 / per.max(1)), None => 0 }
    }
    /// an array of records written by a loop: explicit when few, else by induction over the loop's summary
    fn array(&mut self, c: &Ctx, pos: T, end: T, what: &'static str, rec: &dyn Fn(&mut Self, &Ctx, T, T) -> Option<T>) -> Option<Arr> {
        // explicit walk
        let mut p = pos;
        let mut k = 0;
        let limit = if self.general { 2 } else { 6 };
        while k <= limit {
            if c.st.simp(sub(p, end)) == 0 || self.same(&c.st, p, end) { return Some(Arr { end: p, n: cst(k), explicit: k as usize }); }
            if self.general && c.log.iter().any(|e| matches!(e.e, Entry::Head(u) if self.j.m.loops.contains_key(&u))) {
                if let Some(a) = self.induct(c, pos, end, what, rec) { return Some(a); }
            }
            if c.st.entails(sub(p, addc(end, 1))) { let t = self.top(); self.find(if what == "tiles" { "C04+C07" } else { "C04" }, t, 0, format!("{} do not end where the frame's next block starts", what)); return None; }
            if self.general && k == limit { break; }
            if self.general && !c.st.entails(sub(addc(end, -1), p)) { break; }
            match rec(self, c, p, cst(k)) { Some(q) => p = q, None => return None }
            k += 1;
        }
        self.unsure(format!("{}: no certificate for an unbounded number", what));
        None
    }
    fn induct(&mut self, c: &Ctx, pos: T, end: T, what: &'static str, rec: &dyn Fn(&mut Self, &Ctx, T, T) -> Option<T>) -> Option<Arr> {
        let uids: Vec<u32> = c.log.iter().filter_map(|e| if let Entry::Head(u) = e.e { Some(u) } else { None }).collect();
        let m = &self.j.m;
        let un0 = self.out.unsure.clone();
        for u in uids {
            if std::env::var("WALKDBG").is_ok() { if let Some(r) = m.loops.get(&u) { eprintln!("{} {}: pos {} end {}", what, u, show(pos), show(end)); for (l, t) in &r.gens { eprintln!("   {:?} {} {:?}", l, show(*t), r.entries.iter().map(|e| j_val(m, r, e, *l)).collect::<Vec<_>>()); } } }
            let r = match m.loops.get(&u) { Some(r) => r, None => continue };
            // cursor: a generalised location equal to the array's end
            let mut cs: Vec<(Loc, T)> = r.gens.clone();
            cs.sort_by_key(|x| match x.0 { Loc::MemOff(..) => 0, Loc::RegOff(_) => 1, _ => 2 });
            for (cl, ct) in cs {
                if !matches!(cl, Loc::MemOff(..) | Loc::RegOff(..) | Loc::Reg(_)) || as_const(ct).is_some() { continue; }
                if !(c.st.simp(sub(ct, end)) == 0 || (lin_parts(sub(ct, end)).1.len() <= 6 && self.same(&c.st, ct, end))) { continue; }
                if let Some(x) = self.cert.get(&(u, pos, ct)) { if let Some((e, n)) = x { return Some(Arr { end: *e, n: *n, explicit: 0 }); } else { continue; } }
                self.out.unsure = un0.clone();
                let res = self.certify(u, pos, cl, ct, what, rec);
                self.cert.insert((u, pos, ct), res);
                if let Some((e, n)) = res {
                    // nothing after the head disturbs the records
                    let h = c.log.iter().position(|x| matches!(x.e, Entry::Head(v) if v == u)).unwrap();
                    self.intact(c, h + 1, pos, e, what);
                    return Some(Arr { end: e, n, explicit: 0 });
                }
            }
        }
        None
    }
    fn certify(&mut self, u: u32, pos: T, cl: Loc, ct: T, what: &'static str, rec: &dyn Fn(&mut Self, &Ctx, T, T) -> Option<T>) -> Option<(T, T)> {
        let j = self.j;
        let r = &j.m.loops[&u];
        let regw = &j.m.regw[r.func as usize];
        let width = |l: Loc| -> u32 { match l { Loc::Reg(r) => regw[r as usize], _ => 0 } };
        let trim = |s: &State| -> State { let mut s = s.clone(); s.frames.truncate(r.depth); s };
        // base: every entry holds the same explicit number of records
        let mut k0: Option<i64> = None;
        for e in &r.entries {
            let e = trim(e);
            let ce = j.m.val_at(&e, cl, width(cl))?;
            let cx = Ctx { log: e.entries(), st: e };
            let a = self.array_explicit(&cx, pos, ce, rec)?;
            if k0.map_or(false, |k| k != a) { return None; }
            k0 = Some(a);
        }
        let k0 = k0?;
        // counter: a generalised location that counts them
        let mut kts: Vec<T> = vec![];
        for &(l, t) in &r.gens {
            if !matches!(l, Loc::Reg(_) | Loc::Mem(..)) || l == cl { continue; }
            let w = width(l);
            if !r.entries.iter().all(|e| { let e = trim(e); j.m.val_at(&e, l, w).map(|v| e.simp(v)) == Some(cst(k0)) }) { continue; }
            if !r.backs.iter().all(|b| { let b = trim(b); j.m.val_at(&b, l, w).map_or(false, |v| b.simp(sub(v, t)) == cst(1)) }) { continue; }
            if !kts.contains(&t) { kts.push(t); }
        }
        if let Some(n) = r.n { let t = addc(n, k0); if !kts.contains(&t) { kts.push(t); } }
        if kts.is_empty() { self.unsure(format!("{}: no counter found", what)); return None; }
        let un = self.out.unsure.clone();
        for kt in kts {
            self.out.unsure = un.clone();
            if let Some(x) = self.step(u, cl, ct, kt, what, rec) { return Some(x); }
        }
        None
    }
    fn step(&mut self, u: u32, cl: Loc, ct: T, kt: T, what: &'static str, rec: &dyn Fn(&mut Self, &Ctx, T, T) -> Option<T>) -> Option<(T, T)> {
        let j = self.j;
        let r = &j.m.loops[&u];
        let regw = &j.m.regw[r.func as usize];
        let width = |l: Loc| -> u32 { match l { Loc::Reg(r) => regw[r as usize], _ => 0 } };
        let trim = |s: &State| -> State { let mut s = s.clone(); s.frames.truncate(r.depth); s };
        // step: every iteration adds exactly one record and disturbs none
        self.out.loops += 1;
        let floors = self.floors.clone();
        self.floors.push(ct);
        let mut good = true;
        for b in &r.backs {
            let b = trim(b);
            let cb = match j.m.val_at(&b, cl, width(cl)) { Some(t) => t, None => { good = false; break; } };
            let all = b.entries();
            let h = all.iter().rposition(|e| matches!(e.e, Entry::Head(v) if v == u)).map_or(0, |x| x + 1);
            let cx = Ctx { log: all[h..].to_vec(), st: b };
            match rec(self, &cx, ct, kt) {
                Some(q) => if !self.same(&cx.st, q, cb) { self.unsure(format!("{}: an iteration's record does not end at the cursor", what)); good = false; break; },
                None => { good = false; break; }
            }
            for e in &cx.log {
                let off = match e.e { Entry::W { off, .. } | Entry::Copy { off, .. } | Entry::Fill { off, .. } | Entry::Coder { off, .. } => off, _ => continue };
                if !cx.st.entails(sub(off, ct)) { self.unsure(format!("{}: an iteration may overwrite earlier records", what)); good = false; break; }
            }
            if !good { break; }
        }
        self.floors = floors;
        if good { Some((ct, kt)) } else { None }
    }
    fn array_explicit(&mut self, c: &Ctx, pos: T, end: T, rec: &dyn Fn(&mut Self, &Ctx, T, T) -> Option<T>) -> Option<i64> {
        let mut p = pos;
        for k in 0..4 {
            if c.st.simp(sub(p, end)) == 0 || self.same(&c.st, p, end) { return Some(k); }
            p = rec(self, c, p, cst(k))?;
        }
        None
    }
    /// a delivered frame
    pub fn frame(&mut self, st: &State, ret: T, size: T) {
        self.out.frames += 1;
        let pro = self.cfg.pro();
        let c = Ctx { log: st.entries(), st: st.clone() };
        let (nr, nq) = (pinned(st, self.inp.nr), if self.cfg.qnull { cst(1) } else { pinned(st, self.inp.nq) });
        let rl1 = self.cfg.cflags & F_RLGR1 != 0;
        let et = if rl1 { 1 } else { 4 };
        let hlen = if !self.header { 0 } else if pro { 22 } else { 47 };
        // positions fixed by the protocol
        let p_fb = cst(hlen);
        let p_reg = addc(p_fb, if pro { 12 } else { 14 });
        let p_rects = addc(p_reg, if pro { 18 } else { 11 });
        let p_rend = add(p_rects, scale(nr, 8));
        let p_ts = if pro { p_rend } else { addc(p_rend, 2 + 2) };
        let p_q = if pro { p_rend } else { addc(p_ts, 22) };
        let p_tiles = add(p_q, scale(nq, 5));
        let fe = if pro { 6 } else { 8 };
        let p_end = addc(size, -fe);
        self.floors = vec![p_rects, p_tiles];
        // which blocks start the frame
        let t = self.top();
        let first = match (self.read(&c, 0), self.read(&c, 1)) { (Src::Byte(a, l, f), Src::Byte(b, _, _)) => as_const(add(a, scale(b, 256))).map(|v| (v, l, f)), (Src::Nothing, _) => { self.find("C04", t, 0, "nothing is written at the start of the frame".into()); return; } (a, b) => { for x in [a, b] { if let Src::Unknown(s) = x { self.unsure(format!("first block: {}", s)); } } None } };
        match first {
            Some((0xCCC0, _, _)) if self.header => {}
            Some((v, _, _)) if v == (if pro { 0xCCC1 } else { 0xCCC4 }) && !self.header => {}
            Some((0xCCC0, l, f)) => { self.find("C05", f, l, "a frame that is not the first one delivered starts with the stream header".into()); return; }
            Some((v, l, f)) if v == (if pro { 0xCCC1 } else { 0xCCC4 }) => { self.find("C05", f, l, "the first frame delivered does not carry the stream header".into()); return; }
            Some((v, l, f)) => { self.find("C04", f, l, format!("the frame starts with block type {:#x}", v)); return; }
            None => { self.unsure("first block of a frame".into()); return; }
        }
        if self.header {
            self.field(&c, 0, 2, cst(0xCCC0), "C04", "sync block type");
            self.field(&c, cst(2), 4, cst(12), "C04", "sync block length");
            self.field(&c, cst(6), 4, cst(0xCACCACCA), "C04", "sync magic");
            self.field(&c, cst(10), 2, cst(0x0100), "C04", "sync version");
            if pro {
                self.field(&c, cst(12), 2, cst(0xCCC3), "C04", "context block type");
                self.field(&c, cst(14), 4, cst(10), "C04", "context block length");
                self.field(&c, cst(18), 1, 0, "C04", "context id");
                self.field(&c, cst(19), 2, cst(0x40), "C04", "context tile size");
                self.field(&c, cst(21), 1, 1, "C04", "context flags");
            } else {
                self.field(&c, cst(12), 2, cst(0xCCC3), "C04", "context block type");
                self.field(&c, cst(14), 4, cst(13), "C04", "context block length");
                self.field(&c, cst(18), 1, 1, "C04", "context codec id");
                self.field(&c, cst(19), 1, cst(255), "C04", "context channel id");
                self.field(&c, cst(20), 1, 0, "C04", "context id");
                self.field(&c, cst(21), 2, cst(0x40), "C04", "context tile size");
                self.props(&c, cst(23), 0, et, "context properties");
                self.field(&c, cst(25), 2, cst(0xCCC1), "C04", "codec versions block type");
                self.field(&c, cst(27), 4, cst(10), "C04", "codec versions block length");
                self.field(&c, cst(31), 1, 1, "C04", "number of codecs");
                self.field(&c, cst(32), 1, 1, "C04", "codec id");
                self.field(&c, cst(33), 2, cst(0x0100), "C04", "codec version");
                self.field(&c, cst(35), 2, cst(0xCCC2), "C04", "channels block type");
                self.field(&c, cst(37), 4, cst(12), "C04", "channels block length");
                self.field(&c, cst(41), 1, 1, "C04", "number of channels");
                self.field(&c, cst(42), 1, 0, "C04", "channel id");
                let (w, h) = self.j.dims;
                self.field(&c, cst(43), 2, w, "C23", "channel width");
                self.field(&c, cst(45), 2, h, "C23", "channel height");
            }
        }
        if pro {
            self.field(&c, p_fb, 2, cst(0xCCC1), "C04", "frame begin block type");
            self.field(&c, addc(p_fb, 2), 4, cst(12), "C04", "frame begin block length");
            self.field(&c, addc(p_fb, 6), 4, self.g, "C05", "frame index");
            self.field(&c, addc(p_fb, 10), 2, 1, "C04", "number of regions");
            self.field(&c, p_reg, 2, cst(0xCCC4), "C04", "region block type");
            self.field(&c, addc(p_reg, 6), 1, cst(0x40), "C04", "region tile size");
            self.field(&c, addc(p_reg, 7), 2, nr, "C04", "number of rectangles");
            self.field(&c, addc(p_reg, 9), 1, nq, "C04", "number of quant tables");
            self.field(&c, addc(p_reg, 10), 1, 0, "C04", "number of progressive quant tables");
            self.field(&c, addc(p_reg, 11), 1, 1, "C04", "region flags");
        } else {
            self.field(&c, p_fb, 2, cst(0xCCC4), "C04", "frame begin block type");
            self.field(&c, addc(p_fb, 2), 4, cst(14), "C04", "frame begin block length");
            self.field(&c, addc(p_fb, 6), 1, 1, "C04", "frame begin codec id");
            self.field(&c, addc(p_fb, 7), 1, 0, "C04", "frame begin channel id");
            self.field(&c, addc(p_fb, 8), 4, self.g, "C05", "frame index");
            self.field(&c, addc(p_fb, 12), 2, 1, "C04", "number of regions");
            self.field(&c, p_reg, 2, cst(0xCCC6), "C04", "region block type");
            self.field(&c, addc(p_reg, 2), 4, addc(scale(nr, 8), 15), "C04", "region block length");
            self.field(&c, addc(p_reg, 6), 1, 1, "C04", "region codec id");
            self.field(&c, addc(p_reg, 7), 1, 0, "C04", "region channel id");
            self.field(&c, addc(p_reg, 8), 1, 1, "C04", "region flags");
            self.field(&c, addc(p_reg, 9), 2, nr, "C04", "number of rectangles");
        }
        // rectangles
        let regions = self.inp.regions;
        let rect = move |w: &mut Self, c: &Ctx, p: T, i: T| -> Option<T> {
            let mut ok = true;
            for f in 0..4i64 { ok &= w.field(c, addc(p, 2 * f), 2, mkcell(regions, addc(scale(i, 16), 4 * f), 4, true), "C04", ["rectangle x", "rectangle y", "rectangle width", "rectangle height"][f as usize]); }
            if ok { Some(addc(p, 8)) } else { None }
        };
        let ar = self.array(&c, p_rects, p_rend, "rectangles", &rect);
        if let Some(a) = &ar { if !self.same(&c.st, a.n, nr) { self.unsure("number of rectangles written".into()); } }
        if !pro {
            self.field(&c, p_rend, 2, cst(0xCAC1), "C04", "region type");
            self.field(&c, addc(p_rend, 2), 2, 1, "C04", "number of tilesets");
            self.field(&c, p_ts, 2, cst(if self.cfg.alpha() { 0xDDD7 } else { 0xCCC7 }), "C04", "tileset block type");
            self.field(&c, addc(p_ts, 2), 4, sub(p_end, p_ts), "C04", "tileset block length");
            self.field(&c, addc(p_ts, 6), 1, 1, "C04", "tileset codec id");
            self.field(&c, addc(p_ts, 7), 1, 0, "C04", "tileset channel id");
            self.field(&c, addc(p_ts, 8), 2, cst(0xCAC2), "C04", "tileset subtype");
            self.field(&c, addc(p_ts, 10), 2, 0, "C04", "tileset index");
            self.props(&c, addc(p_ts, 12), 1, et, "tileset properties");
            self.field(&c, addc(p_ts, 14), 1, nq, "C04", "number of quant tables");
            self.field(&c, addc(p_ts, 15), 1, cst(0x40), "C04", "tile size");
            self.field(&c, addc(p_ts, 18), 4, sub(p_end, p_tiles), "C04", "tile data size");
        } else {
            self.field(&c, addc(p_reg, 2), 4, sub(p_end, p_reg), "C04", "region block length");
            self.field(&c, addc(p_reg, 14), 4, sub(p_end, p_tiles), "C04", "tile data size");
        }
        self.quants(&c, p_q, nq);
        let tile = |w: &mut Self, c: &Ctx, p: T, i: T| -> Option<T> { w.tile(c, p, i) };
        match self.array(&c, p_tiles, p_end, "tiles", &tile) {
            Some(a) => {
                let _ = (a.end, a.explicit);
                self.field(&c, if pro { addc(p_reg, 12) } else { addc(p_ts, 16) }, 2, a.n, "C04+C07", "number of tiles");
                match compare(&c.st, ret, a.n) {
                    Cmp::Same => {}
                    Cmp::Differ(s) if !self.general || self.precise(sub(ret, a.n)) => { self.ndep = !counts(sub(ret, a.n)).is_empty(); let t = self.top(); self.find("C07", t, 0, format!("the return value is not the number of tiles in the frame: {}", s)); self.ndep = false; }
                    _ => self.unsure("return value against the number of tiles".into()),
                }
            }
            None => {}
        }
        self.field(&c, p_end, 2, cst(if pro { 0xCCC2 } else { 0xCCC5 }), "C04", "frame end block type");
        self.field(&c, addc(p_end, 2), 4, cst(fe), "C04", "frame end block length");
        if !pro {
            self.field(&c, addc(p_end, 6), 1, 1, "C04", "frame end codec id");
            self.field(&c, addc(p_end, 7), 1, 0, "C04", "frame end channel id");
        }
    }
    /// the quant tables in the frame are the caller's, or the default one
    fn quants(&mut self, c: &Ctx, p: T, nq: T) {
        if self.cfg.qnull {
            for (i, v) in [0x66, 0x66, 0x77, 0x88, 0x98].iter().enumerate() { self.field(c, addc(p, i as i64), 1, cst(*v), "C08", "default quant table"); }
            return;
        }
        // a generic byte of the tables
        let i = sym("quant_byte", 0, 5 * 255 - 1);
        let mut st = c.st.clone();
        st.fact(addc(sub(scale(nq, 5), i), -1));
        let c2 = Ctx { st, log: c.log.clone() };
        let want = quant_cell(self.inp.quants, i);
        self.field(&c2, add(p, i), 1, want, "C08", "quant table byte");
    }
    fn props(&mut self, c: &Ctx, off: T, sh: i64, et: i64, what: &str) {
        let v = (1i64 << 3 | 1 << 5 | et << 9 | 1 << 13) << sh | if sh == 1 { 1 } else { 0 };
        let mask = 0xFi64 << (9 + sh);
        self.out.fields += 1;
        match (self.read(c, off), self.read(c, addc(off, 1))) {
            (Src::Byte(a, l, f), Src::Byte(b, _, _)) => match as_const(c.st.simp(add(a, scale(b, 256)))) {
                Some(g) => {
                    if (g ^ v) & mask != 0 { self.find("C06", f, l, format!("the {} announce {} where {} was asked for", what, match (g & mask) >> (9 + sh) { 1 => "RLGR1".to_string(), 4 => "RLGR3".to_string(), x => format!("entropy mode {}", x) }, if et == 1 { "RLGR1" } else { "RLGR3" })); }
                    if (g ^ v) & !mask & 0xffff != 0 { self.find("C04", f, l, format!("the {} are {:#x} where {:#x} is right", what, g, v)); }
                }
                None => { self.field(c, off, 2, cst(v), "C06", what); }
            },
            _ => { self.field(c, off, 2, cst(v), "C04", what); }
        }
    }
}
fn j_val(m: &Machine, r: &LoopRec, e: &State, l: Loc) -> String { let mut e = e.clone(); e.frames.truncate(r.depth); m.val_at(&e, l, 32).map_or("?".into(), |t| show(t)) }
/// all delivered frames of all runs of a job
pub fn walk(j: &Job, general: bool) -> Walked {
    let mut out = Walked::default();
    let be = j.m.m.big_endian;
    for r in &j.runs {
        let mut cfg = j.cfg.clone();
        if !r.key { cfg.eflags &= !F_KEY; } else { cfg.eflags |= F_KEY; }
        let header = r.key || !r.delivered;
        let mut w = Walk { j, cfg, inp: &r.inp, out: std::mem::take(&mut out), floors: vec![], floor_memo: HashMap::new(), cert: HashMap::new(), general, depth: 0, class: r.class.clone(), g: if r.key { 0 } else { r.g }, header, seen_tiles: HashSet::new(), ndep: false };
        for (s, v) in &r.finals {
            let t = match v { V::I(t) => s.sread(32, s.simp(*t)), _ => continue };
            let mut s = s.clone();
            match j.outcome(&s, *v) { Some(false) => continue, Some(true) => {} None => { s.assume(ge0(t), true); if s.infeasible() { continue; } } }
            let size = match s.obj(r.inp.outp).unwrap().read(0, 4, be) { V::I(t) => s.sread(32, s.simp(t)), _ => { w.unsure("size of a frame".into()); continue; } };
            w.frame(&s, t, size);
        }
        out = w.out;
    }
    out
}
