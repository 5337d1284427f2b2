//! Abstract machine state: objects with byte-addressed cells, register frames, linear facts.
use crate::lp;
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum V {
    I(T),
    /// object, byte offset, "is non-null" condition
    P(u32, T, T),
    F(u32),
    N,
}
pub const NULL: V = V::P(0, 0, 0);
pub fn vi(c: i64) -> V { V::I(cst(c)) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Slot { Def, S(u8, V), C(u8), H(u32) }
pub const PG: usize = 128;
#[derive(Clone)]
pub struct Page { pub s: [Slot; PG] }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Null, Stack, Heap, Const, Global, Input, InOut, Output }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Def { Zero, Undef, /// initial contents, read in elements of n bytes (signed?)
    Cell(u8, bool), Hav(u32), /// rfx_tile records
    Tiles,
    /// quantisation bytes: two nibbles in 6..15
    Quants }
#[derive(Clone)]
pub struct Obj {
    pub id: u32,
    pub kind: Kind,
    pub name: Rc<str>,
    pub size: T,
    pub live: bool,
    pub def: Def,
    pub pages: Vec<Option<Rc<Page>>>,
    /// ranges holding tables of owned pointers, whose untouched slots are "null or an owned object"
    pub tables: Rc<Vec<(i64, i64)>>,
    pub tabw: Rc<Vec<(T, V)>>,
    pub tab_open: bool,
    pub freed_at: u32,
    pub align: u32,
}
impl Obj {
    pub fn slot(&self, o: usize) -> Slot {
        match self.pages.get(o / PG) { Some(Some(p)) => p.s[o % PG], _ => Slot::Def }
    }
    pub fn set_slot(&mut self, o: usize, s: Slot) {
        let pi = o / PG;
        if pi >= self.pages.len() { self.pages.resize(pi + 1, None); }
        let p = self.pages[pi].get_or_insert_with(|| Rc::new(Page { s: [Slot::Def; PG] }));
        let p = Rc::make_mut(p);
        p.s[o % PG] = s;
    }
    /// break up the cells that partially overlap [o, o+n)
    fn split(&mut self, o: usize, n: usize, be: bool) {
        for &e in &[o, o + n] {
            // cell straddling boundary e
            if let Slot::C(k) = self.slot(e) {
                let st = e - k as usize;
                if let Slot::S(sz, v) = self.slot(st) {
                    for i in 0..sz as usize {
                        let b = match v { V::I(t) => V::I(byte_of(t, if be { sz as usize - 1 - i } else { i })), _ => V::I(undef()) };
                        self.set_slot(st + i, Slot::S(1, b));
                    }
                }
            }
        }
    }
    pub fn split2(&mut self, o: usize, n: usize, be: bool) { self.split(o, n, be); }
    pub fn write(&mut self, o: usize, n: usize, v: V, be: bool) {
        let aligned = matches!(self.slot(o), Slot::S(m, _) if m as usize == n);
        if !aligned { self.split(o, n, be); }
        self.set_slot(o, Slot::S(n as u8, v));
        for i in 1..n { self.set_slot(o + i, Slot::C(i as u8)); }
    }
    pub fn havoc(&mut self, o: usize, n: usize, tag: u32, be: bool) {
        self.split(o, n, be);
        for i in 0..n { self.set_slot(o + i, Slot::H(tag)); }
    }
    pub fn in_table(&self, o: i64) -> bool { self.tables.iter().any(|&(a, b)| o >= a && o < b) }
    fn defbyte(&self, o: T) -> T {
        match self.def {
            Def::Zero => 0,
            Def::Undef => undef(),
            Def::Cell(1, _) => cell(self.id, o, 1),
            Def::Cell(es, sg) => {
                // byte of an element
                if let Some(c) = as_const(o) {
                    let b = c.rem_euclid(es as i64);
                    return byte_of(mkcell(self.id, cst(c - b), es, sg), b as usize);
                }
                hav(0, self.id, o, 1)
            }
            Def::Hav(t) => hav(t, self.id, o, 1),
            Def::Tiles => hav(0, self.id, o, 1),
            Def::Quants => quant_cell(self.id, o),
        }
    }
    pub fn defval(&self, o: T, n: usize, be: bool) -> T {
        match self.def {
            Def::Zero => 0,
            Def::Undef => undef(),
            Def::Cell(es, sg) if es as usize == n => mkcell(self.id, o, es, sg),
            Def::Hav(t) => hav(t, self.id, o, n as u8),
            Def::Tiles if n == 4 => tile_cell(self.id, o),
            Def::Cell(1, _) | Def::Cell(..) | Def::Tiles | Def::Quants => {
                let mut r = 0;
                for i in 0..n { let k = if be { n - 1 - i } else { i }; r = add(r, scale(self.defbyte(addc(o, i as i64)), 1i64 << (8 * k))); }
                r
            }
        }
    }
    /// read n bytes as an integer at a constant offset; None when a pointer is read piecewise
    pub fn read(&self, o: usize, n: usize, be: bool) -> V {
        if let Slot::S(m, v) = self.slot(o) { if m as usize == n { return v; } }
        if matches!(self.slot(o), Slot::Def) && (0..n).all(|i| matches!(self.slot(o + i), Slot::Def)) {
            return V::I(self.defval(cst(o as i64), n, be));
        }
        if let Slot::H(t) = self.slot(o) { if (0..n).all(|i| self.slot(o + i) == Slot::H(t)) { return V::I(hav(t, self.id, cst(o as i64), n as u8)); } }
        let mut r = 0;
        for i in 0..n {
            let b = match self.slot(o + i) {
                Slot::Def => self.defbyte(cst((o + i) as i64)),
                Slot::H(t) => hav(t, self.id, cst((o + i) as i64), 1),
                Slot::S(m, v) => match v { V::I(t) => byte_of(t, if be { m as usize - 1 } else { 0 }), _ => undef() },
                Slot::C(k) => match self.slot(o + i - k as usize) { Slot::S(m, V::I(t)) => byte_of(t, if be { m as usize - 1 - k as usize } else { k as usize }), _ => undef() },
            };
            let k = if be { n - 1 - i } else { i };
            r = add(r, scale(b, 1i64.wrapping_shl(8 * k as u32)));
        }
        V::I(r)
    }
}
pub fn byte_of(t: T, i: usize) -> T { wrap_u(8, shr(t, 8 * i as u8)) }
pub fn mkcell(obj: u32, o: T, es: u8, sg: bool) -> T {
    let t = cell(obj, o, es);
    if let Some(&(l, h)) = ar().cell_rng.get(&obj) { set_rng(t, l, h); }
    else if sg && es < 8 { set_rng(t, -(1i64 << (8 * es - 1)), (1i64 << (8 * es - 1)) - 1); }
    t
}
pub fn quant_cell(id: u32, o: T) -> T {
    let (l, h) = (cell(id, scale(o, 2), 1), cell(id, addc(scale(o, 2), 1), 1));
    set_rng(l, 6, 15);
    set_rng(h, 6, 15);
    add(l, scale(h, 16))
}
pub const TILE_SZ: i64 = 28;
/// rfx_tile fields: x and y are 64 times a grid index, cx and cy come from the configuration
pub fn tile_cell(id: u32, o: T) -> T {
    let (c, ts) = lin_parts(o);
    let f = c.rem_euclid(TILE_SZ);
    if ts.iter().all(|&(_, k)| k % TILE_SZ == 0) && f % 4 == 0 {
        let a = ar();
        let cfg = a.tilecfg;
        if f == 0 || f == 4 { let t = cell(id, o, 4); set_rng(t, cfg.lo, cfg.hi); return scale(t, 64); }
        if f == 8 { return cst(cfg.cx); }
        if f == 12 { return cst(cfg.cy); }
        let t = cell(id, o, 4);
        set_rng(t, cfg.qlo, cfg.qhi);
        return t;
    }
    let t = hav(0, id, o, 4);
    set_rng(t, i32::MIN as i64, i32::MAX as i64);
    t
}

#[derive(Clone)]
pub struct Frame { pub func: u32, pub regs: Vec<V>, pub line: u32 }

#[derive(Clone, Debug)]
pub enum Entry {
    /// store to the output object
    W { off: T, n: u8, v: V, line: u32, func: u32 },
    /// copy of len bytes from (obj, off) of the state at this point
    Copy { off: T, len: T, src: u32, soff: T, line: u32, func: u32 },
    Fill { off: T, len: T, v: T, line: u32, func: u32 },
    /// an entropy coder was run on these coefficients, writing `len` bytes at off (len -1: failed)
    Coder { id: u32, kind: u8, off: T, cap: T, len: T, coefs: Rc<Vec<T>>, line: u32, func: u32, cobj: u32, coff: T, fresh: bool },
    /// loop summarised: everything since the head is one symbolic iteration
    Head(u32),
    Alloc(u32, u32),
    Free(u32, u32),
    /// a clobber of output [off, off+len) by a failed coder
    Mark(u32),
}
pub struct LogN { pub e: Entry, pub prev: Log, pub n: u32 }
pub type Log = Option<Rc<LogN>>;
impl Drop for LogN {
    fn drop(&mut self) {
        let mut p = self.prev.take();
        while let Some(r) = p { match Rc::try_unwrap(r) { Ok(mut n) => p = n.prev.take(), Err(_) => break } }
    }
}
pub fn log_same(a: &Log, b: &Log) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => Rc::ptr_eq(x, y), _ => false } }

const CH: usize = 32;
#[derive(Clone)]
pub struct State {
    pub mem: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    pub frames: Vec<Rc<Frame>>,
    pub facts: Rc<Vec<T>>,
    pub diseq: Rc<Vec<T>>,
    pub known: Rc<HashMap<T, bool, Fx>>,
    pub pc: T,
    pub log: Log,
    pub dead: bool,
}
impl State {
    pub fn new() -> State {
        State { mem: vec![], frames: vec![], facts: Rc::new(vec![]), diseq: Rc::new(vec![]), known: Rc::new(HashMap::default()), pc: 1, log: None, dead: false }
    }
    pub fn push(&mut self, e: Entry) {
        let n = self.log.as_ref().map_or(0, |x| x.n) + 1;
        let prev = self.log.take();
        self.log = Some(Rc::new(LogN { e, prev, n }));
    }
    pub fn entries(&self) -> Vec<Rc<LogN>> {
        let mut v = vec![];
        let mut p = self.log.clone();
        while let Some(n) = p { p = n.prev.clone(); v.push(n); }
        v.reverse();
        v
    }
    pub fn obj(&self, id: u32) -> Option<&Rc<Obj>> { self.mem.get(id as usize / CH).and_then(|c| c.get(id as usize % CH)).and_then(|o| o.as_ref()) }
    pub fn obj_mut(&mut self, id: u32) -> &mut Obj {
        let c = Rc::make_mut(&mut self.mem[id as usize / CH]);
        Rc::make_mut(c[id as usize % CH].as_mut().unwrap())
    }
    pub fn put(&mut self, o: Obj) {
        let id = o.id as usize;
        while self.mem.len() <= id / CH { self.mem.push(Rc::new(vec![None; CH])); }
        Rc::make_mut(&mut self.mem[id / CH])[id % CH] = Some(Rc::new(o));
    }
    pub fn drop_obj(&mut self, id: u32) { let c = Rc::make_mut(&mut self.mem[id as usize / CH]); c[id as usize % CH] = None; }
    pub fn ids(&self) -> Vec<u32> {
        let mut v = vec![];
        for (ci, c) in self.mem.iter().enumerate() { for (k, o) in c.iter().enumerate() { if o.is_some() { v.push((ci * CH + k) as u32); } } }
        v
    }
    pub fn same_mem(&self, o: &State) -> bool { self.mem.len() == o.mem.len() && self.mem.iter().zip(&o.mem).all(|(a, b)| Rc::ptr_eq(a, b)) }
    pub fn reg(&self, r: u32) -> V { self.frames.last().unwrap().regs[r as usize] }
    pub fn set(&mut self, r: u32, v: V) { Rc::make_mut(self.frames.last_mut().unwrap()).regs[r as usize] = v; }

    // ------------------------------------------------------------ facts
    pub fn fact(&mut self, t: T) {
        if rng(t).0 >= 0 { return; }
        // normalise by gcd
        let (c, ts) = lin_parts(t);
        let mut gg = 0;
        for &(_, k) in &ts { gg = gcd(gg, k.abs()); }
        let t = if gg > 1 { mk_lin(c.div_euclid(gg), ts.iter().map(|&(x, k)| (x, k / gg)).collect()) } else { t };
        if self.facts.contains(&t) { return; }
        if rng(t).1 < 0 { self.dead = true; }
        Rc::make_mut(&mut self.facts).push(t);
    }
    /// assume boolean term c has value v
    pub fn assume(&mut self, c: T, v: bool) {
        if let Some(k) = as_const(c) { if (k != 0) != v { self.dead = true; } return; }
        if let Some(&k) = self.known.get(&c) { if k != v { self.dead = true; } return; }
        match node(c).clone() {
            Node::Lin(1, ts) if ts.len() == 1 && ts[0].1 == -1 => { self.assume(ts[0].0, !v); return; }
            Node::Ite(a, x, y) => {
                if y == 0 { // a && x
                    if v { self.assume(a, true); self.assume(x, true); return; }
                    match (self.decide(a), self.decide(x)) { (Some(true), _) => { self.assume(x, false); return; } (_, Some(true)) => { self.assume(a, false); return; } _ => {} }
                } else if x == 1 { // a || y
                    if !v { self.assume(a, false); self.assume(y, false); return; }
                    match (self.decide(a), self.decide(y)) { (Some(false), _) => { self.assume(y, true); return; } (_, Some(false)) => { self.assume(a, true); return; } _ => {} }
                } else if x == 0 { // !a && y
                    if v { self.assume(a, false); self.assume(y, true); return; }
                } else if y == 1 { // !a || x
                    if !v { self.assume(a, true); self.assume(x, false); return; }
                }
                match self.decide(a) { Some(true) => { self.assume(x, v); return; } Some(false) => { self.assume(y, v); return; } None => {} }
                if let Some(k) = self.decide(x) { if k != v { self.assume(a, false); self.assume(y, v); return; } }
                if let Some(k) = self.decide(y) { if k != v { self.assume(a, true); self.assume(x, v); return; } }
                Rc::make_mut(&mut self.known).insert(c, v);
                return;
            }
            _ => {}
        }
        Rc::make_mut(&mut self.known).insert(c, v);
        match node(c) {
            Node::Ge0(t) => { let t = *t; if v { self.fact(t) } else { self.fact(sub(cst(-1), t)) } self.tighten(t); }
            Node::Eq0(t) => {
                let t = *t;
                if v { self.fact(t); self.fact(neg(t)); } else {
                    if self.entails(t) { self.fact(addc(t, -1)); } else if self.entails(neg(t)) { self.fact(addc(neg(t), -1)); } else { Rc::make_mut(&mut self.diseq).push(t); }
                }
            }
            _ => {}
        }
    }
    fn tighten(&mut self, _t: T) {
        if self.diseq.is_empty() { return; }
        let ds = self.diseq.clone();
        let mut rest = vec![];
        for &d in ds.iter() {
            if self.entails(d) { self.fact(addc(d, -1)); } else if self.entails(neg(d)) { self.fact(addc(neg(d), -1)); } else { rest.push(d); }
        }
        if rest.len() != ds.len() { self.diseq = Rc::new(rest); }
    }
    pub fn decide(&self, c: T) -> Option<bool> {
        if let Some(k) = as_const(c) { return Some(k != 0); }
        if let Some(&k) = self.known.get(&c) { return Some(k); }
        match node(c) {
            Node::Lin(1, ts) if ts.len() == 1 && ts[0].1 == -1 => self.decide(ts[0].0).map(|b| !b),
            Node::Lin(k0, ts) if ts.len() <= 4 && ts.iter().all(|&(x, _)| is_bool(x)) => {
                let mut s = *k0;
                for &(x, k) in ts.iter() { s += k * (self.decide(x)? as i64); }
                Some(s != 0)
            }
            Node::Ite(a, x, y) => match self.decide(*a) {
                Some(true) => self.decide(*x),
                Some(false) => self.decide(*y),
                None => { let (p, q) = (self.decide(*x), self.decide(*y)); if p.is_some() && p == q { p } else { None } }
            },
            Node::Ge0(t) => if self.entails(*t) { Some(true) } else if self.entails(sub(cst(-1), *t)) { Some(false) } else { None },
            Node::Eq0(t) => {
                if self.facts.is_empty() && self.known.is_empty() { return None; }
                let t = *t;
                if self.entails(addc(t, -1)) || self.entails(addc(neg(t), -1)) { return Some(false); }
                if self.entails(t) && self.entails(neg(t)) { return Some(true); }
                None
            }
            _ => None,
        }
    }
    /// simplify a term under the known literals (top-level conditionals only)
    pub fn simp(&self, t: T) -> T {
        if self.known.is_empty() { return t; }
        let (c, ts) = lin_parts(t);
        if !ts.iter().any(|&(x, _)| matches!(node(x), Node::Ite(..) | Node::Ge0(_) | Node::Eq0(_)) || is_bool(x)) { return t; }
        let mut r = cst(c);
        for &(x, k) in &ts {
            let y = match node(x) {
                Node::Ite(cd, a, b) => match self.decide(*cd) { Some(true) => self.simp(*a), Some(false) => self.simp(*b), None => x },
                Node::Ge0(_) | Node::Eq0(_) => match self.decide(x) { Some(b) => cst(b as i64), None => x },
                _ if is_bool(x) => match self.known.get(&x) { Some(&b) => cst(b as i64), None => x },
                _ => x,
            };
            r = add(r, scale(y, k));
        }
        r
    }
    pub fn entails(&self, t: T) -> bool { self.entails_d(t, 2) }
    pub fn entails_d(&self, t: T, depth: u32) -> bool {
        if rng(t).0 >= 0 { return true; }
        if as_const(t).is_some() { return false; }
        let t = self.simp(t);
        if rng(t).0 >= 0 { return true; }
        if as_const(t).is_some() { return self.dead; }
        if self.facts.contains(&t) { return true; }
        if is_data(t) && ar().fast_data {
            // the linear domain says something about a data term only through a fact on the same atoms
            let goal_def = with_lin(t, |_, l| l.iter().any(|p| matches!(node(p.0), Node::Def(_))));
            let bears = |f: T| is_data(f) && with_lin(f, |_, l| l.len() <= 40 && (goal_def || l.iter().any(|p| is_data(p.0) && !matches!(node(p.0), Node::Def(_)))));
            if !self.facts.iter().any(|&f| bears(f)) { return false; }
        }
        match self.lp(&[sub(cst(-1), t)]) {
            lp::Feas::Infeasible => return true,
            _ => {}
        }
        if depth > 0 {
            // split on an undecided condition inside the goal
            let (_, ts) = lin_parts(t);
            for &(x, _) in &ts {
                let c = match node(x) { Node::Ite(c, _, _) => *c, Node::Ge0(_) | Node::Eq0(_) => x, _ => continue };
                if self.decide(c).is_some() { continue; }
                let mut a = self.clone();
                a.assume(c, true);
                if !(a.dead || a.entails_d(t, depth - 1)) { return false; }
                let mut b = self.clone();
                b.assume(c, false);
                return b.dead || b.entails_d(t, depth - 1);
            }
        }
        false
    }
    pub fn infeasible(&self) -> bool { self.dead || matches!(self.lp(&[]), lp::Feas::Infeasible) }
    /// rational feasibility of the facts relevant to `extra` together with `extra` (each >= 0)
    pub fn lp(&self, extra: &[T]) -> lp::Feas { self.lp_w(extra).0 }
    pub fn lp_w(&self, extra: &[T]) -> (lp::Feas, Vec<T>) {
        let mut idx: HashMap<T, u32, Fx> = HashMap::default();
        let mut vars: Vec<T> = vec![];
        let mut rows: Vec<lp::Row> = vec![];
        let mut work: Vec<T> = vec![];
        let mut lin: Vec<(i64, Vec<(T, i64)>)> = self.facts.iter().map(|&t| lin_parts(t)).collect();
        let mut used = vec![false; lin.len()];
        let all = extra.is_empty();
        fn addrow(t: &(i64, Vec<(T, i64)>), idx: &mut HashMap<T, u32, Fx>, vars: &mut Vec<T>, work: &mut Vec<T>, rows: &mut Vec<lp::Row>) {
            let mut a = Vec::with_capacity(t.1.len());
            for &(x, k) in &t.1 {
                let i = *idx.entry(x).or_insert_with(|| { vars.push(x); work.push(x); vars.len() as u32 - 1 });
                a.push((i, k));
            }
            rows.push(lp::Row { a, c: t.0 });
        }
        for &e in extra { let l = lin_parts(e); if l.1.len() > 40 { return (lp::Feas::Unknown, vec![]); } addrow(&l, &mut idx, &mut vars, &mut work, &mut rows); }
        if all { for (i, l) in lin.iter().enumerate() { if l.1.len() > 40 { continue; } used[i] = true; addrow(l, &mut idx, &mut vars, &mut work, &mut rows); } }
        let mut ndef = 0;
        while !work.is_empty() {
            while let Some(x) = work.pop() {
                if ndef > 120 { continue; }
                // definitional constraints of the atom
                let mut d: Vec<T> = vec![];
                match node(x).clone() {
                    Node::Shr(u, k) if k < 40 => { let s = scale(x, 1 << k); d.push(sub(u, s)); d.push(addc(sub(s, u), (1 << k) - 1)); }
                    Node::WrapU(_, u) => { if rng(u).0 >= 0 || self.facts.contains(&u) { d.push(sub(u, x)); } }
                    Node::TDiv(u, k) => if let Some(k) = as_const(k) { if k > 0 && rng(u).0 >= 0 { let s = scale(x, k); d.push(sub(u, s)); d.push(addc(sub(s, u), k - 1)); } },
                    Node::And(a, b) => { if rng(a).0 >= 0 { d.push(sub(a, x)); } if rng(b).0 >= 0 { d.push(sub(b, x)); } }
                    Node::Ite(c, a, b) => { match self.known.get(&c) { Some(true) => { d.push(sub(x, a)); d.push(sub(a, x)); } Some(false) => { d.push(sub(x, b)); d.push(sub(b, x)); } None => {
                        // max/min shapes: bounded by both arms when the arms are ordered by the condition
                        if let Node::Ge0(g) = node(c) {
                            let df = sub(a, b);
                            if *g == df || sub(*g, df) == 1 || *g == addc(df, -1) { d.push(sub(x, a)); d.push(sub(x, b)); }
                            let nd = neg(df);
                            if *g == nd || *g == addc(nd, -1) { d.push(sub(a, x)); d.push(sub(b, x)); }
                        }
                    } } }
                    _ => {}
                }
                for t in d { let l = lin_parts(t); if l.1.len() <= 40 { ndef += 1; addrow(&l, &mut idx, &mut vars, &mut work, &mut rows); } }
            }
            for i in 0..lin.len() {
                if used[i] || lin[i].1.len() > 40 { continue; }
                if lin[i].1.iter().any(|(x, _)| idx.contains_key(x)) { used[i] = true; let l = std::mem::take(&mut lin[i]); addrow(&l, &mut idx, &mut vars, &mut work, &mut rows); }
            }
        }
        let b: Vec<(Option<i128>, Option<i128>)> = vars.iter().map(|&x| {
            let (l, h) = if let Some(&k) = self.known.get(&x) { if is_bool(x) { (k as i64, k as i64) } else { rng(x) } } else { rng(x) };
            (if l == NINF { None } else { Some(l as i128) }, if h == PINF { None } else { Some(h as i128) })
        }).collect();
        crate::exec::count_lp();
        (lp::feasible(vars.len(), &b, &rows), vars)
    }
    /// integer bounds of a term under the facts, if they exist: tries intervals then LP probing
    pub fn max_of(&self, t: T, cap: i64) -> Option<i64> {
        let (_, h) = rng(t);
        if !self.entails(sub(cst(cap), t)) { return if h != PINF { Some(h) } else { None }; }
        let (mut lo, mut hi) = (rng(t).0.max(-cap), cap.min(h));
        while lo < hi { let m = lo + (hi - lo) / 2; if self.entails(sub(cst(m), t)) { hi = m; } else { lo = m + 1; } }
        Some(hi)
    }
    pub fn min_of(&self, t: T, cap: i64) -> Option<i64> { self.max_of(neg(t), cap).map(|x| -x) }
    /// signed reading of an N-bit value
    pub fn sread(&self, n: u32, t: T) -> T {
        if n >= 64 { return t; }
        if n == 1 { return neg(wrap_u(1, t)); }
        let r = wrap_s(n as u8, t);
        if r == t { return t; }
        if as_const(r).is_some() { return r; }
        if has_undef(t) { return r; }
        if ar().nsw.contains(&(t, n as u8)) { return t; }
        let h = (1i64 << (n - 1)) - 1;
        if matches!(node(r), Node::WrapS(..)) && self.relevant(t) && self.entails(addc(t, h + 1)) && self.entails(sub(cst(h), t)) { return t; }
        r
    }
    pub fn uread(&self, n: u32, t: T) -> T {
        if n >= 64 { return t; }
        let r = wrap_u(n as u8, t);
        if r == t || as_const(r).is_some() || has_undef(t) { return r; }
        let h = if n >= 63 { PINF } else { (1i64 << n) - 1 };
        if self.relevant(t) && self.entails(t) && self.entails(sub(cst(h), t)) { return t; }
        r
    }
    fn relevant(&self, t: T) -> bool {
        if self.facts.is_empty() { return false; }
        let (_, ts) = lin_parts(t);
        if ts.len() > 16 { return false; }
        let s: HashSet<T> = ts.iter().map(|p| p.0).collect();
        self.facts.iter().any(|&f| with_lin(f, |_, l| l.iter().any(|p| s.contains(&p.0)))) || ts.iter().any(|p| matches!(node(p.0), Node::Shr(..) | Node::Ite(..) | Node::TDiv(..)))
    }
}
