//! The RLGR entropy coders: co-analysis of a coder with an abstract decoder of the protocol's code.
//!
//! Integers are linear forms over unknowns with interval and linear-form facts; the bit accumulator is a vector of
//! lanes (0, 1, bit j of a form, "already decoded"). Bytes put out are handed to the decoder as they become final.
//! At loop heads the decoder catches up with the bits still pending, and states are joined per (position of the
//! decoder in its code, k, kr, number of pending bits) with affine relations to the decoder's own quantities.
use crate::ir::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

const INF: i64 = 1 << 40;
const NCOEF: i64 = 4096;
const ROOM: i64 = 1 << 20;
pub type Sym = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct L { c: i64, t: Vec<(Sym, i64)> }
impl L {
    fn k(c: i64) -> L { L { c, t: vec![] } }
    fn s(s: Sym) -> L { L { c: 0, t: vec![(s, 1)] } }
    fn konst(&self) -> Option<i64> { if self.t.is_empty() { Some(self.c) } else { None } }
    fn add(&self, o: &L) -> L { self.addm(o, 1) }
    fn sub(&self, o: &L) -> L { self.addm(o, -1) }
    fn addm(&self, o: &L, m: i64) -> L {
        let (mut i, mut j) = (0, 0);
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        while i < self.t.len() || j < o.t.len() {
            if j == o.t.len() || i < self.t.len() && self.t[i].0 < o.t[j].0 { t.push(self.t[i]); i += 1; }
            else if i == self.t.len() || o.t[j].0 < self.t[i].0 { t.push((o.t[j].0, o.t[j].1 * m)); j += 1; }
            else { let a = self.t[i].1 + o.t[j].1 * m; if a != 0 { t.push((self.t[i].0, a)); } i += 1; j += 1; }
        }
        t.retain(|x| x.1 != 0);
        L { c: self.c.saturating_add(o.c.saturating_mul(m)), t }
    }
    fn mul(&self, m: i64) -> L { if m == 0 { return L::k(0); } L { c: self.c.saturating_mul(m), t: self.t.iter().map(|x| (x.0, x.1 * m)).collect() } }
    fn plus(&self, c: i64) -> L { L { c: self.c.saturating_add(c), t: self.t.clone() } }
    fn of(&self, s: Sym) -> i64 { self.t.iter().find(|x| x.0 == s).map_or(0, |x| x.1) }
}
#[derive(Clone, PartialEq, Eq, Hash)]
enum Def { Base, Div(L, u32), Mod(L, u32) }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Lane { Z, O, B(u32, u8), Old(u8), J }
#[derive(Clone, PartialEq, Debug)]
enum V { Top, I(L), W(Rc<Vec<Lane>>), P(u8, L) }
const COEF: u8 = 0;
const OUT: u8 = 1;
#[derive(Clone, Default)]
struct Facts { b: BTreeMap<Sym, (i64, i64)>, f: Vec<(L, i64, i64)> }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Mode { Start, Run(u8), Sign, Unary(L), Rem(u8), Bin(u8) }
#[derive(Clone)]
struct Dec { d: L, z: L, kp: L, krp: L, list: Vec<(i8, L)>, mode: Mode, o: L, last: Option<Vec<Lane>>, old: (u8, u8), n: u64 }
#[derive(Clone)]
struct St { b: usize, from: usize, i: usize, arrive: bool, regs: Vec<V>, f: Facts, d: Dec, seen: Vec<(usize, u16)>, trail: Option<Rc<Trail>> }
struct Trail { b: usize, up: Option<Rc<Trail>> }
enum E { Split(L), Read, Bad(String), Un(String), Join(usize), Dead }
type R<T> = Result<T, E>;
#[derive(PartialEq, Eq, Hash, Clone, Debug)]
struct Key { b: usize, mode: u8, left: u8, k: i64, kr: i64, signs: Vec<i8>, z0: bool, p: u8, full: bool, live: Vec<u8> }
enum Slot { Lin(u8, Vec<(Vec<(usize, i64)>, L)>), Gen(u8, Sym, i64, i64), Word(Vec<Lane>), Top }
struct H { key: Key, g: Vec<L>, gs: Vec<Option<Sym>>, gb: Vec<(i64, i64)>, dflt: Vec<(i64, i64)>, wid: u32, slots: Vec<(u32, Slot)>, last: Option<Vec<Lane>>, joins: u64, trail: Option<Rc<Trail>> }
#[derive(Clone, Debug)]
pub struct Bad { pub line: u32, pub msg: String }
pub struct An<'a> {
    f: &'a Func,
    three: bool,
    defs: Vec<Def>, intern: HashMap<Def, Sym>, ls: Vec<L>, lid: HashMap<L, u32>,
    s: Sym, nd: Sym,
    acc: HashSet<u32>, cnt: HashSet<u32>, rmw: bool,
    join: HashSet<usize>, hs: Vec<H>, hx: HashMap<Key, usize>,
    pub bad: Vec<Bad>, pub unsup: Vec<String>, pub states: u64, pub steps: u64, pub splits: u64, pub bits: u64, pub rets: u64, pub codes: u64, pub pad: bool,
    width: Vec<u32>, line: u32,
    budget: u64,
}
fn fl(a: i64, b: i64) -> i64 { a.div_euclid(b) }
fn ce(a: i64, b: i64) -> i64 { -((-a).div_euclid(b)) }
fn fits(r: (i64, i64), lo: i64, hi: i64) -> bool { r.0 >= lo && r.1 <= hi }
fn smin(w: u32) -> i64 { if w >= 41 { -INF } else { -(1i64 << (w - 1)) } }
fn smax(w: u32) -> i64 { if w >= 41 { INF } else { (1i64 << (w - 1)) - 1 } }
fn umax(w: u32) -> i64 { if w >= 40 { INF } else { (1i64 << w) - 1 } }

impl<'a> An<'a> {
    pub fn new(f: &'a Func, three: bool) -> An<'a> {
        let mut width = vec![64u32; f.nregs];
        let mut def: Vec<Option<&I>> = vec![None; f.nregs];
        for (k, t) in f.args.iter().enumerate() { if let Ty::Int(n) = t { width[k] = *n; } }
        for b in &f.blocks { for i in &b.ins { if let Some(d) = i.dst {
            def[d as usize] = Some(i);
            width[d as usize] = match &i.k { Ins::Bin(_, n, ..) => *n, Ins::Icmp(..) => 1, Ins::Cast(_, _, _, n) => *n, Ins::Load(Ty::Int(n), _) | Ins::Phi(Ty::Int(n), _) | Ins::Select(_, _, _, Ty::Int(n)) | Ins::Call(_, _, Ty::Int(n)) => *n, _ => 64 };
        } } }
        // which pointers are the output: everything derived from the second argument
        let mut out: HashSet<u32> = [1].into_iter().collect();
        loop { let n = out.len(); for b in &f.blocks { for i in &b.ins { if let Some(d) = i.dst { match &i.k { Ins::Gep(_, Op::Reg(p), ..) if out.contains(p) => { out.insert(d); } Ins::Phi(Ty::Ptr, v) if v.iter().any(|x| matches!(x.0, Op::Reg(p) if out.contains(&p))) => { out.insert(d); } _ => {} } } } } if out.len() == n { break; } }
        let rmw = f.blocks.iter().any(|b| b.ins.iter().any(|i| matches!(&i.k, Ins::Load(_, Op::Reg(p)) if out.contains(p))));
        // the accumulator: what the bytes put out are taken from; and the amounts it is shifted by
        let (mut acc, mut cnt) = (HashSet::new(), HashSet::new());
        let mut w: Vec<(u32, u8)> = vec![];
        for b in &f.blocks { for i in &b.ins { if let Ins::Store(_, Op::Reg(v), Op::Reg(p)) = &i.k { if out.contains(p) { w.push((*v, 0)); } } } }
        let is_shl = |o: &Op| matches!(o, Op::Reg(r) if matches!(def[*r as usize].map(|i| &i.k), Some(Ins::Bin(Bin::Shl, ..))));
        while let Some((r, q)) = w.pop() {
            if !(if q == 0 { acc.insert(r) } else { cnt.insert(r) }) { continue; }
            let i = match def[r as usize] { Some(i) => i, None => continue };
            let mut go = |o: &Op, q: u8| if let Op::Reg(x) = o { w.push((*x, q)); };
            match &i.k {
                Ins::Phi(_, v) => for (o, _) in v { go(o, q); },
                Ins::Cast(_, _, o, _) => go(o, q),
                Ins::Select(_, a, b, _) => { go(a, q); go(b, q); }
                Ins::Bin(Bin::Shl | Bin::LShr | Bin::AShr, _, a, b, _) if q == 0 => { go(a, 0); go(b, 1); }
                Ins::Bin(Bin::Or | Bin::Add | Bin::And, _, a, b, _) if q == 0 => { if is_shl(a) && !rmw { go(a, 0) } else if is_shl(b) && !rmw { go(b, 0) } else { go(a, 0); go(b, 0); } }
                Ins::Bin(Bin::Add | Bin::Sub, _, a, b, _) if q == 1 => { go(a, 1); go(b, 1); }
                Ins::Call(_, a, _) if q == 1 => for o in a { go(&o.0, 1); },
                _ => {}
            }
        }
        let mut join = HashSet::new();
        for (k, l) in f.loops.iter().enumerate() { if !f.loops.iter().enumerate().any(|(j, m)| j != k && m.header != l.header && m.blocks.contains(&l.header)) { join.insert(l.header); } }
        let mut a = An { f, three, defs: vec![], intern: HashMap::new(), ls: vec![], lid: HashMap::new(), s: 0, nd: 0, acc, cnt, rmw, join, hs: vec![], hx: HashMap::new(), bad: vec![], unsup: vec![], states: 0, steps: 0, splits: 0, bits: 0, rets: 0, codes: 0, pad: false, width, line: 0, budget: 60_000_000 };
        a.s = a.fresh();
        a.nd = a.fresh();
        a
    }
    fn fresh(&mut self) -> Sym { self.defs.push(Def::Base); self.defs.len() as Sym - 1 }
    fn symof(&mut self, d: Def) -> Sym { if let Some(&s) = self.intern.get(&d) { return s; } self.defs.push(d.clone()); let s = self.defs.len() as Sym - 1; self.intern.insert(d, s); s }
    fn lix(&mut self, l: &L) -> u32 { if let Some(&i) = self.lid.get(l) { return i; } self.ls.push(l.clone()); let i = self.ls.len() as u32 - 1; self.lid.insert(l.clone(), i); i }
    // ------------------------------------------------------------------ facts
    fn sr(&self, f: &Facts, s: Sym) -> (i64, i64) {
        let b = f.b.get(&s).copied().unwrap_or((-INF, INF));
        let d = match &self.defs[s as usize] { Def::Base => return b, Def::Div(l, n) => { let r = self.rng(f, l); (r.0 >> n, if r.1 >= INF { INF } else { r.1 >> n }) } Def::Mod(_, n) => (0, (1 << n) - 1) };
        (b.0.max(d.0), b.1.min(d.1))
    }
    fn plain(&self, f: &Facts, l: &L) -> (i64, i64) {
        let (mut lo, mut hi) = (l.c, l.c);
        for &(s, a) in &l.t {
            let r = self.sr(f, s);
            let (x, y) = if a > 0 { (r.0, r.1) } else { (r.1, r.0) };
            lo = if x.abs() >= INF || lo <= -INF { -INF } else { (lo + a * x).max(-INF) };
            hi = if y.abs() >= INF || hi >= INF { INF } else { (hi + a * y).min(INF) };
        }
        (lo, hi)
    }
    fn rng(&self, f: &Facts, l: &L) -> (i64, i64) {
        let mut r = self.plain(f, l);
        if l.t.len() < 2 { return r; }
        for (g, lo, hi) in &f.f {
            let (s, a) = g.t[0];
            let m = l.of(s);
            if m == 0 || m % a != 0 { continue; }
            let m = m / a;
            let rest = l.addm(g, -m);
            if rest.t.len() >= l.t.len() { continue; }
            let q = self.plain(f, &rest);
            let (x, y) = if m > 0 { (*lo, *hi) } else { (*hi, *lo) };
            if q.0 > -INF && x.abs() < INF { r.0 = r.0.max(q.0 + m * x); }
            if q.1 < INF && y.abs() < INF { r.1 = r.1.min(q.1 + m * y); }
        }
        r
    }
    /// adds l <= 0; false if that contradicts what is known
    fn assume(&self, f: &mut Facts, l: &L) -> bool {
        if l.t.is_empty() { return l.c <= 0; }
        if self.rng(f, l).0 > 0 { return false; }
        if l.t.len() == 1 {
            let (s, a) = l.t[0];
            if let Def::Div(m, n) = &self.defs[s as usize] {
                let (m, n) = (m.clone(), *n);
                let ok = if a > 0 { let v = fl(-l.c, a); self.assume(f, &m.plus(-((v << n) + (1 << n) - 1))) } else { let v = ce(l.c, -a); self.assume(f, &m.mul(-1).plus(v << n)) };
                return ok;
            }
            let e = f.b.entry(s).or_insert((-INF, INF));
            if a > 0 { e.1 = e.1.min(fl(-l.c, a)); } else { e.0 = e.0.max(ce(l.c, -a)); }
            if e.0 > e.1 { return false; }
            return self.spread(f);
        }
        let neg = l.t[0].1 < 0;
        let g = L { c: 0, t: if neg { l.t.iter().map(|x| (x.0, -x.1)).collect() } else { l.t.clone() } };
        let k = match f.f.iter().position(|x| x.0 == g) { Some(k) => k, None => { f.f.push((g, -INF, INF)); f.f.len() - 1 } };
        if neg { f.f[k].1 = f.f[k].1.max(l.c); } else { f.f[k].2 = f.f[k].2.min(-l.c); }
        if f.f[k].1 > f.f[k].2 { return false; }
        self.spread(f)
    }
    /// bounds of forms to bounds of their unknowns
    fn spread(&self, f: &mut Facts) -> bool {
        for _ in 0..4 {
            let mut ch = false;
            for k in 0..f.f.len() {
                let (g, lo, hi) = f.f[k].clone();
                for &(s, a) in &g.t {
                    if !matches!(self.defs[s as usize], Def::Base) {
                        // through a quotient
                        if let Def::Div(m, n) = &self.defs[s as usize] {
                            let mut rest = g.clone(); rest.t.retain(|x| x.0 != s);
                            let q = self.plain(f, &rest);
                            let (mut x, mut y) = (-INF, INF);
                            if a == 1 { if hi < INF && q.0 > -INF { y = hi - q.0; } if lo > -INF && q.1 < INF { x = lo - q.1; } }
                            if m.t.len() == 1 && matches!(self.defs[m.t[0].0 as usize], Def::Base) {
                                let (t, c) = m.t[0];
                                let e = f.b.get(&t).copied().unwrap_or((-INF, INF));
                                let mut r = e;
                                if c > 0 { if y < INF { r.1 = r.1.min(fl((y << n) + (1 << n) - 1 - m.c, c)); } if x > -INF { r.0 = r.0.max(ce((x << n) - m.c, c)); } }
                                if r != e { if r.0 > r.1 { return false; } f.b.insert(t, r); ch = true; }
                            }
                        }
                        continue;
                    }
                    let mut rest = g.clone(); rest.t.retain(|x| x.0 != s);
                    let q = self.plain(f, &rest);
                    let e = f.b.get(&s).copied().unwrap_or((-INF, INF));
                    let mut r = e;
                    // a*s in [lo - q.1, hi - q.0]
                    if hi < INF && q.0 > -INF { let v = hi - q.0; if a > 0 { r.1 = r.1.min(fl(v, a)); } else { r.0 = r.0.max(ce(-v, -a)); } }
                    if lo > -INF && q.1 < INF { let v = lo - q.1; if a > 0 { r.0 = r.0.max(ce(v, a)); } else { r.1 = r.1.min(fl(-v, -a)); } }
                    if r != e { if r.0 > r.1 { return false; } f.b.insert(s, r); ch = true; }
                }
                let r = self.plain(f, &f.f[k].0);
                if r.0 > f.f[k].2 || r.1 < f.f[k].1 { return false; }
            }
            if !ch { break; }
        }
        true
    }
    fn div(&mut self, f: &Facts, l: &L, n: u32) -> L {
        if n == 0 { return l.clone(); }
        let r = self.rng(f, l);
        if r.0 > -INF && r.1 < INF && r.0 >> n == r.1 >> n { return L::k(r.0 >> n); }
        let m = 1i64 << n;
        if l.t.iter().all(|x| x.1 % m == 0) { return L { c: l.c >> n, t: l.t.iter().map(|x| (x.0, x.1 / m)).collect() }; }
        if l.c == 0 && l.t.len() == 1 && l.t[0].1 == 1 { if let Def::Div(g, k) = self.defs[l.t[0].0 as usize].clone() { return self.div(f, &g, k + n); } }
        L::s(self.symof(Def::Div(l.clone(), n)))
    }
    fn modl(&mut self, f: &Facts, l: &L, n: u32) -> L {
        if n == 0 { return L::k(0); }
        let q = self.div(f, l, n);
        if !(q.t.len() == 1 && q.t[0].1 == 1 && q.c == 0 && matches!(&self.defs[q.t[0].0 as usize], Def::Div(g, k) if g == l && *k == n)) { let q2 = q.mul(1 << n); let r = l.sub(&q2); if fits(self.rng(f, &r), 0, (1 << n) - 1) { return r; } }
        L::s(self.symof(Def::Mod(l.clone(), n)))
    }
    fn norm(&mut self, f: &Facts, l: &L) -> L {
        let mut r = L::k(l.c);
        let mut same = true;
        for &(s, a) in &l.t {
            let b = self.sr(f, s);
            if b.0 == b.1 { r = r.plus(a * b.0); same = false; continue; }
            match self.defs[s as usize].clone() {
                Def::Base => r = r.add(&L { c: 0, t: vec![(s, a)] }),
                Def::Div(g, n) => { let h = self.norm(f, &g); let q = self.div(f, &h, n); if q != L::s(s) { same = false; } r = r.add(&q.mul(a)); }
                Def::Mod(g, n) => { let h = self.norm(f, &g); let q = self.modl(f, &h, n); if q != L::s(s) { same = false; } r = r.add(&q.mul(a)); }
            }
        }
        if same { l.clone() } else { r }
    }
    fn laneof(&mut self, f: &Facts, l: &L, j: u8) -> Lane {
        let mut l = self.norm(f, l);
        let mut j = j;
        loop {
            if let Some(c) = l.konst() { return if j < 63 && c >> j & 1 == 1 || j >= 63 && c < 0 { Lane::O } else { Lane::Z }; }
            let r = self.rng(f, &l);
            if r.0 >= 0 && r.1 < INF && r.1 >> j == 0 { return Lane::Z; }
            if r.0 > -INF && r.1 < INF && r.0 >> j == r.1 >> j { return if r.0 >> j & 1 == 1 { Lane::O } else { Lane::Z }; }
            if l.t.iter().all(|x| x.1 % 2 == 0) {
                if j == 0 { return if l.c & 1 == 1 { Lane::O } else { Lane::Z }; }
                l = L { c: l.c >> 1, t: l.t.iter().map(|x| (x.0, x.1 / 2)).collect() };
                j -= 1;
                continue;
            }
            if l.c == 0 && l.t.len() == 1 && l.t[0].1 == 1 {
                match self.defs[l.t[0].0 as usize].clone() { Def::Div(g, n) => { l = g; j += n as u8; continue; } Def::Mod(g, n) => { if j as u32 >= n { return Lane::Z; } l = g; continue; } _ => {} }
            }
            return Lane::B(self.lix(&l), j);
        }
    }
    fn nlane(&mut self, f: &Facts, x: Lane) -> Lane { if let Lane::B(l, j) = x { let l = self.ls[l as usize].clone(); self.laneof(f, &l, j) } else { x } }
    fn word(&mut self, f: &Facts, l: &L, w: u32) -> Vec<Lane> {
        if l.konst().is_none() { let r = self.rng(f, l); if r.0 < 0 || r.1 >= INF { if r.0 <= -INF || r.1 >= INF { return vec![Lane::J; w as usize]; } } }
        (0..w).map(|j| self.laneof(f, l, j as u8)).collect()
    }
    fn konst(&mut self, f: &Facts, l: &L) -> R<i64> {
        let r = self.rng(f, l);
        if r.0 == r.1 { return Ok(r.0); }
        if r.0 <= -INF || r.1 >= INF || r.1 - r.0 > 1 << 12 { return Err(E::Un("an amount without bounds".into())); }
        Err(E::Split(l.plus(-((r.0 + r.1).div_euclid(2)))))
    }
    /// is l <= 0 ? (splits the state if open)
    fn le0(&mut self, f: &Facts, l: &L) -> R<bool> { let r = self.rng(f, l); if r.1 <= 0 { Ok(true) } else if r.0 > 0 { Ok(false) } else { Err(E::Split(l.clone())) } }
    fn clamp(&mut self, f: &Facts, l: L) -> R<L> { if !self.le0(f, &l.plus(-80))? { return Ok(L::k(80)); } if self.le0(f, &l.plus(1))? { return Ok(L::k(0)); } Ok(l) }
    // ------------------------------------------------------------------ the decoder
    /// the value(s) the code word under way stands for: (value coded, first of a pair, how many are zero)
    fn vals(&mut self, f: &Facts, d: &Dec, run: bool) -> R<(L, L, Vec<bool>)> {
        let ms = |x: &(i8, L)| match x.0 { 0 => L::k(0), 1 => x.1.mul(2), _ => x.1.mul(2).plus(-1) };
        if run { return Ok((d.list[0].1.plus(-1), L::k(0), vec![false])); }
        let zs = if self.le0(f, &d.z)? { 0 } else if self.le0(f, &d.z.plus(-1))? { 1 } else { 2 };
        let at = |i: usize| -> Option<L> { if i < zs { Some(L::k(0)) } else { d.list.get(i - zs).map(ms) } };
        let v1 = match at(0) { Some(v) => v, None => return Err(E::Bad("a bit is put out that belongs to no coefficient read so far".into())) };
        let zero = |i: usize| i < zs || d.list.get(i - zs).map_or(true, |x| x.0 == 0);
        if !self.three { return Ok((v1, L::k(0), vec![zero(0)])); }
        let v2 = match at(1) { Some(v) => v, None => { if self.rng(f, &d.d.plus(1)).0 < NCOEF { return Err(E::Bad("a pair is put out although only its first coefficient has been read".into())); } L::k(0) } };
        Ok((v1.add(&v2), v1, vec![zero(0), zero(1)]))
    }
    fn kdiv(&mut self, f: &Facts, l: &L) -> R<i64> { let q = self.div(f, l, 3); self.konst(f, &q) }
    fn lane(&mut self, f: &Facts, d: &mut Dec, x: Lane) -> R<()> {
        if d.old.0 < d.old.1 { if x == Lane::Old(d.old.0) { d.old.0 += 1; return Ok(()); } return Err(E::Bad(format!("a pending bit is lost or out of order (bit {} of {})", d.old.0 + 1, d.old.1))); }
        let x = self.nlane(f, x);
        let show = match x { Lane::Z => "0", Lane::O => "1", Lane::B(..) => "a data bit", Lane::Old(_) => "a bit already put out", Lane::J => "an undetermined bit" };
        d.n += 1;
        loop {
            match d.mode.clone() {
                Mode::Start => {
                    if d.list.is_empty() && self.rng(f, &d.z).1 <= 0 {
                        if self.rng(f, &d.d).0 >= NCOEF { if x != Lane::Z { self.pad = true; } return Ok(()); }
                        return Err(E::Bad("a bit is put out that belongs to no coefficient read so far".into()));
                    }
                    let k = self.kdiv(f, &d.kp)?;
                    if k == 0 { let (v, _, _) = self.vals(f, d, false)?; let kr = self.kdiv(f, &d.krp)?; d.mode = Mode::Unary(self.div(f, &v, kr as u32)); continue; }
                    match x {
                        Lane::Z => {
                            if self.rng(f, &d.z).0 < 1 << k { return Err(E::Bad(format!("a 0 (run of {} zeros, k = {}) is put out where the zeros read may be fewer", 1 << k, k))); }
                            d.z = d.z.plus(-(1 << k)); d.d = d.d.plus(1 << k);
                            d.kp = self.clamp(f, d.kp.plus(4))?;
                        }
                        Lane::O => { if self.rng(f, &d.z).1 >= 1 << k { return Err(E::Bad(format!("a run is ended (k = {}) with {} or more zeros still to put out", k, 1 << k))); } d.mode = Mode::Run(k as u8); }
                        _ => return Err(E::Bad(format!("{} is put out where a run symbol is due", show))),
                    }
                    return Ok(());
                }
                Mode::Run(n) => {
                    let z = d.z.clone();
                    let want = self.laneof(f, &z, n - 1);
                    if x != want { return Err(E::Bad(format!("bit {} of the run length is {} instead of that of the number of zeros", n - 1, show))); }
                    if n > 1 { d.mode = Mode::Run(n - 1); return Ok(()); }
                    d.d = d.d.add(&d.z); d.z = L::k(0); d.mode = Mode::Sign;
                    return Ok(());
                }
                Mode::Sign => {
                    if d.list.is_empty() { if self.rng(f, &d.d).0 >= NCOEF { if x != Lane::Z { self.pad = true; } return Ok(()); } return Err(E::Bad("a run is ended although the next coefficient has not been read".into())); }
                    if d.list[0].0 == 0 { return Err(E::Bad("a run is ended by a zero coefficient".into())); }
                    if x != (if d.list[0].0 < 0 { Lane::O } else { Lane::Z }) { return Err(E::Bad(format!("the sign of a {} coefficient is {}", if d.list[0].0 < 0 { "negative" } else { "positive" }, show))); }
                    let kr = self.kdiv(f, &d.krp)?;
                    let v = d.list[0].1.plus(-1);
                    d.mode = Mode::Unary(self.div(f, &v, kr as u32));
                    return Ok(());
                }
                Mode::Unary(u) => {
                    let r = self.rng(f, &u);
                    match x {
                        Lane::O => { if r.0 < 1 { return Err(E::Bad("the unary part of a Golomb-Rice code has more 1 bits than the value's quotient".into())); } d.mode = Mode::Unary(u.plus(-1)); return Ok(()); }
                        Lane::Z => {
                            if r.1 > 0 || r.0 < 0 { return Err(E::Bad("the unary part of a Golomb-Rice code ends before the value's quotient is reached".into())); }
                            let kr = self.kdiv(f, &d.krp)?;
                            if kr > 0 { d.mode = Mode::Rem(kr as u8); return Ok(()); }
                            return self.coded(f, d);
                        }
                        _ => return Err(E::Bad(format!("{} is put out in the unary part of a Golomb-Rice code", show))),
                    }
                }
                Mode::Rem(n) => {
                    let kr = self.kdiv(f, &d.krp)?;
                    let run = self.kdiv(f, &d.kp)? > 0;
                    let (v, _, _) = self.vals(f, d, run)?;
                    let m = self.modl(f, &v, kr as u32);
                    let want = self.laneof(f, &m, n - 1);
                    if x != want { return Err(E::Bad(format!("bit {} of the remainder of a Golomb-Rice code (kr = {}) is {} instead of the value's", n - 1, kr, show))); }
                    if n > 1 { d.mode = Mode::Rem(n - 1); return Ok(()); }
                    return self.coded(f, d);
                }
                Mode::Bin(n) => {
                    let (_, v1, _) = self.vals(f, d, false)?;
                    let want = self.laneof(f, &v1, n - 1);
                    if x != want { return Err(E::Bad(format!("bit {} of the first value of a pair is {} instead of the value's", n - 1, show))); }
                    if n > 1 { d.mode = Mode::Bin(n - 1); return Ok(()); }
                    return self.paired(f, d);
                }
            }
        }
    }
    /// a Golomb-Rice code is complete
    fn coded(&mut self, f: &Facts, d: &mut Dec) -> R<()> {
        let run = self.kdiv(f, &d.kp)? > 0;
        let kr = self.kdiv(f, &d.krp)?;
        let (v, _, zero) = self.vals(f, d, run)?;
        let q = self.div(f, &v, kr as u32);
        if self.le0(f, &q)? { d.krp = self.clamp(f, d.krp.plus(-2))?; } else if !self.le0(f, &q.plus(-1))? { d.krp = self.clamp(f, d.krp.add(&q))?; }
        if run { d.list.remove(0); d.d = d.d.plus(1); d.kp = self.clamp(f, d.kp.plus(-6))?; d.mode = Mode::Start; return Ok(()); }
        if self.three {
            let r = self.rng(f, &v);
            let len = |x: i64| 64 - x.leading_zeros();
            if r.0 < 0 || r.1 >= INF { return Err(E::Un("sum of a pair without bounds".into())); }
            if len(r.0) != len(r.1) { return Err(E::Split(v.plus(-((1i64 << (len(r.1) - 1)) - 1)))); }
            if len(r.0) > 0 { d.mode = Mode::Bin(len(r.0) as u8); return Ok(()); }
            return self.paired(f, d);
        }
        self.take(f, d);
        d.kp = if zero[0] { self.clamp(f, d.kp.plus(3))? } else { self.clamp(f, d.kp.plus(-3))? };
        d.mode = Mode::Start;
        Ok(())
    }
    fn take(&mut self, f: &Facts, d: &mut Dec) { if self.rng(f, &d.z).0 >= 1 { d.z = d.z.plus(-1); } else if !d.list.is_empty() { d.list.remove(0); } else { return; } d.d = d.d.plus(1); self.codes += 1; }
    fn paired(&mut self, f: &Facts, d: &mut Dec) -> R<()> {
        let (_, _, zero) = self.vals(f, d, false)?;
        self.take(f, d);
        self.take(f, d);
        if zero[0] && zero[1] { d.kp = self.clamp(f, d.kp.plus(6))?; } else if !zero[0] && !zero[1] { d.kp = self.clamp(f, d.kp.plus(-6))?; }
        d.mode = Mode::Start;
        Ok(())
    }
    fn byte(&mut self, f: &Facts, d: &mut Dec, b: &[Lane]) -> R<()> { for j in (0..8).rev() { self.lane(f, d, b[j])?; } Ok(()) }
    // ------------------------------------------------------------------ loop heads
    fn arrive(&mut self, st: &mut St) -> R<()> {
        let b = st.b;
        let mut live: Vec<u32> = self.f.livein[b].clone();
        for i in &self.f.blocks[b].ins { if let (Ins::Phi(..), Some(d)) = (&i.k, i.dst) { live.push(d); } }
        live.sort(); live.dedup();
        let f = st.f.clone();
        // the bits still on their way
        let ints: Vec<i64> = { let mut v: Vec<i64> = live.iter().filter(|r| self.cnt.contains(r)).filter_map(|&r| if let V::I(l) = &st.regs[r as usize] { l.konst() } else { None }).filter(|&x| (0..=31).contains(&x)).collect(); v.sort(); v.dedup(); v };
        let mut got: Option<(Dec, Option<(u32, u8)>)> = None;
        let mut why = String::new();
        let none = |an: &mut Self, d: &Dec| -> R<Dec> { let mut d2 = d.clone(); if let Some(l) = d2.last.take() { an.byte(&f, &mut d2, &l)?; } Ok(d2) };
        if self.rmw {
            let mut ps: Vec<u8> = vec![];
            for &x in &ints { if (1..8).contains(&x) { ps.push(8 - x as u8); } if x == 8 || x == 0 { ps.push(8); } }
            for &x in &ints { if (1..8).contains(&x) && !ps.contains(&(x as u8)) { ps.push(x as u8); } }
            if st.d.last.is_none() { got = Some((st.d.clone(), None)); }
            else {
                ps.sort(); ps.dedup(); ps.reverse();
                for p in ps {
                    let mut d2 = st.d.clone();
                    let l = d2.last.clone().unwrap();
                    let mut r = Ok(());
                    for j in 0..p as usize { r = self.lane(&f, &mut d2, l[7 - j]); if r.is_err() { break; } }
                    match r {
                        Ok(()) => {
                            if d2.old.0 < d2.old.1 { continue; }
                            if p == 8 { d2.last = None; d2.old = (0, 0); }
                            else { let mut n = l.clone(); for j in 0..8 { n[7 - j] = if j < p as usize { Lane::Old(j as u8) } else if matches!(l[7 - j], Lane::Z | Lane::O) { l[7 - j] } else { Lane::J }; } d2.last = Some(n); d2.old = (0, p); }
                            got = Some((d2, None));
                            break;
                        }
                        Err(E::Bad(m)) => why = m,
                        Err(e) => return Err(e),
                    }
                }
            }
        } else {
            let words: Vec<u32> = live.iter().filter(|r| self.acc.contains(r) && self.width[**r as usize] >= 16).cloned().collect();
            if words.is_empty() { got = Some((none(self, &st.d)?, None)); }
            'w: for &w in &words {
                let ln = match &st.regs[w as usize] { V::W(x) => x.to_vec(), V::I(l) => { let l = l.clone(); self.word(&f, &l, self.width[w as usize]) } _ => continue };
                for &p in ints.iter().rev() {
                    let mut d2 = st.d.clone();
                    let mut r = Ok(());
                    if let Some(l) = d2.last.take() { r = self.byte(&f, &mut d2, &l); }
                    if r.is_ok() { for j in (0..p as usize).rev() { r = self.lane(&f, &mut d2, ln[j]); if r.is_err() { break; } } }
                    match r {
                        Ok(()) => { if d2.old.0 < d2.old.1 { continue; } d2.old = (0, p as u8); got = Some((d2, Some((w, p as u8)))); break 'w; }
                        Err(E::Bad(m)) => why = m,
                        Err(e) => return Err(e),
                    }
                }
            }
        }
        let (d2, at) = match got { Some(g) => g, None => return Err(E::Bad(if why.is_empty() { "pending bits cannot be located".into() } else { why })) };
        let k = self.kdiv(&f, &d2.kp)?;
        let kr = self.kdiv(&f, &d2.krp)?;
        st.d = d2;
        if let Some((w, p)) = at {
            let n = self.width[w as usize] as usize;
            let v: Vec<Lane> = (0..n).map(|j| if j < p as usize { Lane::Old(p - 1 - j as u8) } else { Lane::J }).collect();
            let before = st.regs[w as usize].clone();
            for &r in &live { if st.regs[r as usize] == before && self.acc.contains(&r) { st.regs[r as usize] = V::W(Rc::new(v.clone())); } }
        }
        let z0 = self.rng(&f, &st.d.z).1 <= 0;
        let (mode, left) = match &st.d.mode { Mode::Start => (0, 0), Mode::Run(n) => (1, *n), Mode::Sign => (2, 0), Mode::Unary(_) => (3, 0), Mode::Rem(n) => (4, *n), Mode::Bin(n) => (5, *n) };
        let shape: Vec<u8> = live.iter().map(|&r| match &st.regs[r as usize] { V::Top => 0, V::I(_) => 1, V::W(_) => 2, V::P(b, _) => 3 + b }).collect();
        let key = Key { b, mode, left, k, kr, signs: st.d.list.iter().map(|x| x.0).collect(), z0, p: st.d.old.1, full: st.d.last.is_some(), live: shape };
        // the decoder's quantities
        let mut g: Vec<L> = vec![st.d.d.clone(), st.d.z.clone(), st.d.kp.clone(), st.d.krp.clone(), st.d.o.clone()];
        for x in &st.d.list { g.push(x.1.clone()); }
        let run = k > 0;
        if let Mode::Unary(u) = &st.d.mode { g.push(u.clone()); }
        if mode == 3 { let (v, _, _) = self.vals(&f, &st.d, run)?; let q = self.div(&f, &v, kr as u32); g.push(q); }
        let g: Vec<L> = g.iter().map(|x| self.norm(&f, x)).collect();
        let nl = st.d.list.len();
        let vals: Vec<V> = live.iter().map(|&r| match st.regs[r as usize].clone() { V::I(l) => V::I(self.norm(&f, &l)), V::P(b, l) => V::P(b, self.norm(&f, &l)), v => v }).collect();
        let glob = |l: &L, s: Sym, n: Sym| l.t.iter().all(|x| x.0 == s || x.0 == n);
        let mut change = false;
        let hi = match self.hx.get(&key) {
            None => {
                let mut gs: Vec<Option<Sym>> = vec![];
                let mut gl: Vec<L> = vec![];
                let mut gb = vec![];
                let mut dflt = vec![];
                for j in 0..g.len() {
                    let derived = mode == 3 && j == g.len() - 1;
                    if derived { gs.push(None); gl.push(L::k(0)); gb.push((0, 0)); dflt.push((0, 0)); continue; }
                    let r = self.rng(&f, &g[j]);
                    let bd = match j { 0 => if r.0 >= NCOEF { (NCOEF, NCOEF) } else { (0, NCOEF) }, 1 => if z0 { (0, 0) } else { (0, NCOEF) }, 2 => (8 * k, (8 * k + 7).min(80.max(r.1))), 3 => (8 * kr, (8 * kr + 7).min(80.max(r.1))), 4 => (0, 1 << 30), _ if j < 5 + nl => if st.d.list[j - 5].0 == 0 { (0, 0) } else { (1, 32768 - (st.d.list[j - 5].0 > 0) as i64) }, _ => r };
                    dflt.push(bd);
                    let bd = if let Some(c) = g[j].konst() { (c, c) } else { bd };
                    let s = self.fresh();
                    gs.push(Some(s));
                    gl.push(if bd.0 == bd.1 { L::k(bd.0) } else { L::s(s) });
                    gb.push(bd);
                }
                let ng = g.len();
                let mut slots = vec![];
                for (q, &r) in live.iter().enumerate() {
                    let s = match &vals[q] {
                        V::Top => Slot::Top,
                        V::W(w) => Slot::Word(w.to_vec()),
                        V::I(x) | V::P(_, x) => {
                            let base = if let V::P(b, _) = &vals[q] { *b } else { 255 };
                            let mut c: Vec<(Vec<(usize, i64)>, L)> = vec![];
                            if glob(x, self.s, self.nd) { c.push((vec![], x.clone())); }
                            for a in [1i64, -1, 2, -2] { for j in 0..ng { let rest = x.addm(&g[j], -a); if glob(&rest, self.s, self.nd) { c.push((vec![(j, a)], rest)); } } let rest = x.addm(&g[0], -a).addm(&g[1], -a); if glob(&rest, self.s, self.nd) { c.push((vec![(0, a), (1, a)], rest)); } }
                            if c.is_empty() { let rg = self.rng(&f, x); Slot::Gen(base, self.fresh(), rg.0, rg.1) } else { Slot::Lin(base, c) }
                        }
                    };
                    slots.push((r, s));
                }
                let n = self.hs.len();
                self.hs.push(H { key: key.clone(), g: gl, gs, gb, dflt, wid: 0, slots, last: st.d.last.clone(), joins: 0, trail: st.trail.clone() });
                self.hx.insert(key, n);
                change = true;
                n
            }
            Some(&n) => n,
        };
        if !change {
            let mut h = std::mem::replace(&mut self.hs[hi], H { key: Key { b: 0, mode: 0, left: 0, k: 0, kr: 0, signs: vec![], z0: false, p: 0, full: false, live: vec![] }, g: vec![], gs: vec![], gb: vec![], dflt: vec![], wid: 0, slots: vec![], last: None, joins: 0, trail: None });
            h.joins += 1;
            for j in 0..g.len() {
                if h.gs[j].is_none() { continue; }
                let r = self.rng(&f, &g[j]);
                let e = h.gb[j];
                if r.0 < e.0 || r.1 > e.1 {
                    h.wid += 1;
                    let (mut lo, mut up) = (e.0.min(r.0).min(h.dflt[j].0), e.1.max(r.1).max(h.dflt[j].1));
                    if h.wid > 12 { lo = if r.0 < e.0 { if lo >= 0 { 0 } else { -INF } } else { lo }; up = if r.1 > e.1 { if up <= 1 << 17 { 1 << 17 } else { INF } } else { up }; }
                    h.gb[j] = (lo, up);
                    let s = h.gs[j].unwrap();
                    h.g[j] = if lo == up { L::k(lo) } else { L::s(s) };
                    change = true;
                }
            }
            for (q, (_, s)) in h.slots.iter_mut().enumerate() {
                let nw = match (&mut *s, &vals[q]) {
                    (Slot::Top, _) => continue,
                    (Slot::Word(w), V::W(v)) => { let mut ch = false; for (x, y) in w.iter_mut().zip(v.iter()) { if x != y && *x != Lane::J { *x = Lane::J; ch = true; } } change |= ch; continue; }
                    (Slot::Lin(base, c), V::I(x)) | (Slot::Lin(base, c), V::P(_, x)) => {
                        let first = c[0].clone();
                        let base = *base;
                        c.retain(|(cs, k)| { let mut e = x.sub(k); for &(j, a) in cs { e = e.addm(&g[j], -a); } e.t.is_empty() && e.c == 0 });
                        if c.is_empty() {
                            let rg = self.rng(&f, x);
                            // what the old relation allowed
                            let hr = { let mut e = first.1.clone(); for &(j, a) in &first.0 { e = e.addm(&h.g[j], a); } let mut hf = Facts::default(); for j in 0..h.gs.len() { if let Some(s) = h.gs[j] { hf.b.insert(s, h.gb[j]); } } self.rng(&hf, &e) };
                            Some(Slot::Gen(base, self.fresh(), rg.0.min(hr.0), rg.1.max(hr.1)))
                        } else { if c[0] != first { change = true; } None }
                    }
                    (Slot::Gen(_, _, lo, up), V::I(x)) | (Slot::Gen(_, _, lo, up), V::P(_, x)) => {
                        let r = self.rng(&f, x);
                        if r.0 < *lo || r.1 > *up { h.wid += 1; if h.wid > 12 { if r.0 < *lo { *lo = -INF; } if r.1 > *up { *up = INF; } } else { *lo = (*lo).min(r.0); *up = (*up).max(r.1); } change = true; }
                        None
                    }
                    _ => Some(Slot::Top),
                };
                if let Some(x) = nw { *s = x; change = true; }
            }
            match (&mut h.last, &st.d.last) { (Some(a), Some(c)) => for (x, y) in a.iter_mut().zip(c) { if x != y && *x != Lane::J { *x = Lane::J; change = true; } }, _ => {} }
            self.hs[hi] = h;
        }
        if change { return Err(E::Join(hi)); }
        Err(E::Dead)
    }
    fn state_of(&mut self, hi: usize) -> St {
        let h = &self.hs[hi];
        let mut f = Facts::default();
        for j in 0..h.gs.len() { if let Some(s) = h.gs[j] { f.b.insert(s, h.gb[j]); } }
        f.b.insert(self.s, (ROOM, (1 << 31) - 1));
        f.b.insert(self.nd, (0, NCOEF));
        let key = h.key.clone();
        let nl = key.signs.len();
        let mut g = h.g.clone();
        let list: Vec<(i8, L)> = (0..nl).map(|j| (key.signs[j], g[5 + j].clone())).collect();
        let room = L::s(self.s).sub(&g[4]);
        let total = g[0].add(&g[1]).plus(nl as i64 - NCOEF);
        let mode = match key.mode { 0 => Mode::Start, 1 => Mode::Run(key.left), 2 => Mode::Sign, 3 => Mode::Unary(g[5 + nl].clone()), 4 => Mode::Rem(key.left), _ => Mode::Bin(key.left) };
        let mut d = Dec { d: g[0].clone(), z: g[1].clone(), kp: g[2].clone(), krp: g[3].clone(), list, mode, o: g[4].clone(), last: h.last.clone(), old: (0, key.p), n: 0 };
        self.assume(&mut f, &room.mul(-1).plus(ROOM));
        self.assume(&mut f, &room.plus(-((1 << 31) - 1)));
        self.assume(&mut f, &total);
        if key.mode == 3 { let n = g.len() - 1; if let Ok((v, _, _)) = self.vals(&f, &d, key.k > 0) { g[n] = self.div(&f, &v, key.kr as u32); } self.hs[hi].g[n] = g[n].clone(); }
        let mut regs = vec![V::Top; self.f.nregs];
        let mut gen = vec![];
        for (r, s) in &self.hs[hi].slots {
            regs[*r as usize] = match s {
                Slot::Top => V::Top,
                Slot::Word(w) => V::W(Rc::new(w.clone())),
                Slot::Lin(b, c) => { let (cs, k) = &c[0]; let mut e = k.clone(); for &(j, a) in cs { e = e.addm(&g[j], a); } if *b == 255 { V::I(e) } else { V::P(*b, e) } }
                Slot::Gen(b, s, lo, hi) => { gen.push((*s, (*lo, *hi))); if *b == 255 { V::I(L::s(*s)) } else { V::P(*b, L::s(*s)) } }
            };
        }
        for (s, b) in gen { f.b.insert(s, b); }
        d.n = 0;
        St { b: key.b, from: usize::MAX, i: self.f.blocks[key.b].ins.iter().take_while(|i| matches!(i.k, Ins::Phi(..))).count(), arrive: false, regs, f, d, seen: vec![], trail: self.hs[hi].trail.clone() }
    }
    // ------------------------------------------------------------------ the coder
    fn get(&self, st: &St, o: &Op) -> V { match o { Op::Reg(r) => st.regs[*r as usize].clone(), Op::C(k) => V::I(L::k(*k)), Op::Zero | Op::Null => V::I(L::k(0)), _ => V::Top } }
    fn lanes(&mut self, st: &St, v: &V, w: u32) -> Option<Vec<Lane>> { match v { V::W(x) => Some(x.to_vec()), V::I(l) => Some(self.word(&st.f, l, w)), _ => None } }
    fn bin(&mut self, st: &St, op: Bin, w: u32, a: V, b: V) -> R<V> {
        let f = &st.f;
        let lin = |an: &mut Self, l: L| -> R<V> { let l = an.norm(f, &l); let r = an.rng(f, &l); if let Some(c) = l.konst() { let m = if w >= 63 { c } else { let s = 64 - w; (c << s) >> s }; return Ok(V::I(L::k(if (0..=umax(w)).contains(&c) || fits((c, c), smin(w), smax(w)) { c } else { m }))); } if fits(r, smin(w), umax(w)) && (r.0 >= 0 || r.1 <= smax(w)) { Ok(V::I(l)) } else { Ok(V::Top) } };
        match (op, &a, &b) {
            (Bin::Add, V::P(p, x), V::I(y)) | (Bin::Add, V::I(y), V::P(p, x)) => return Ok(V::P(*p, x.add(y))),
            (Bin::Sub, V::P(p, x), V::P(q, y)) if p == q => return Ok(V::I(self.norm(f, &x.sub(y)))),
            (Bin::Sub, V::P(p, x), V::I(y)) => return Ok(V::P(*p, x.sub(y))),
            _ => {}
        }
        if let (V::I(x), V::I(y)) = (&a, &b) {
            let (x, y) = (self.norm(f, x), self.norm(f, y));
            let (rx, ry) = (self.rng(f, &x), self.rng(f, &y));
            match op {
                Bin::Add => return lin(self, x.add(&y)),
                Bin::Sub => return lin(self, x.sub(&y)),
                Bin::Mul => { if let Some(k) = y.konst() { return lin(self, x.mul(k)); } if let Some(k) = x.konst() { return lin(self, y.mul(k)); } return Ok(V::Top); }
                Bin::SDiv | Bin::UDiv | Bin::SRem | Bin::URem => {
                    if let (Some(a), Some(b)) = (x.konst(), y.konst()) { if b != 0 && (a >= 0 && b > 0) { return Ok(V::I(L::k(if matches!(op, Bin::SDiv | Bin::UDiv) { a / b } else { a % b }))); } }
                    if let Some(k) = y.konst() { if k > 0 && k.count_ones() == 1 { if !self.le0(f, &x.mul(-1))? { return Ok(V::Top); } let n = k.trailing_zeros(); return Ok(V::I(if matches!(op, Bin::SDiv | Bin::UDiv) { self.div(f, &x, n) } else { self.modl(f, &x, n) })); } }
                    return Ok(V::Top);
                }
                Bin::Shl | Bin::LShr | Bin::AShr => {
                    if !fits(ry, 0, w as i64 - 1) { return Err(E::Bad("a shift amount may leave the operand's width".into())); }
                    let n = self.konst(f, &y)? as u32;
                    match op {
                        Bin::Shl => { if let V::I(l) = lin(self, x.mul(1 << n))? { return Ok(V::I(l)); } let ln = self.word(f, &x, w); let mut v = vec![Lane::Z; n as usize]; v.extend(&ln[..(w - n) as usize]); return Ok(V::W(Rc::new(v))); }
                        Bin::AShr => { if rx.0 >= smin(w) && rx.1 <= smax(w) { if rx.0 < 0 && rx.0 >> n != rx.1 >> n { if rx.1 >= 0 { return Err(E::Split(x.plus(1))); } return Ok(V::Top); } return Ok(V::I(self.div(f, &x, n))); } if x.konst().is_some() { return Ok(V::Top); } }
                        _ => { if rx.0 >= 0 && rx.1 <= umax(w) { return Ok(V::I(self.div(f, &x, n))); } if let Some(c) = x.konst() { return Ok(V::I(L::k((c & umax(w)) >> n))); } }
                    }
                }
                Bin::And | Bin::Or | Bin::Xor => {
                    if let (Some(p), Some(q)) = (x.konst(), y.konst()) { return Ok(V::I(L::k(match op { Bin::And => p & q, Bin::Or => p | q, _ => p ^ q }))); }
                    let (x, y) = if x.konst().is_some() { (y, x) } else { (x, y) };
                    if let Some(m) = y.konst() {
                        let rx = self.rng(f, &x);
                        match op {
                            Bin::And => {
                                if m == -1 || m == umax(w) { return Ok(V::I(x)); }
                                if m == 0 { return Ok(V::I(L::k(0))); }
                                if m > 0 && (m + 1).count_ones() == 1 && rx.0 >= 0 { return Ok(V::I(self.modl(f, &x, (m + 1).trailing_zeros()))); }
                            }
                            Bin::Or => { if m == 0 { return Ok(V::I(x)); } if m == -1 { return Ok(V::I(L::k(-1))); } }
                            _ => { if m == 0 { return Ok(V::I(x)); } if m == -1 { return lin(self, x.mul(-1).plus(-1)); } }
                        }
                    }
                }
            }
        }
        if matches!(a, V::Top | V::P(..)) || matches!(b, V::Top | V::P(..)) { return Ok(V::Top); }
        match op {
            Bin::Shl | Bin::LShr | Bin::AShr => {
                let n = match &b { V::I(l) => { let l = l.clone(); let r = self.rng(f, &l); if !fits(r, 0, w as i64 - 1) { return Err(E::Bad("a shift amount may leave the operand's width".into())); } self.konst(f, &l)? as usize } _ => return Ok(V::Top) };
                let x = self.lanes(st, &a, w).unwrap();
                let w = w as usize;
                let v: Vec<Lane> = match op { Bin::Shl => (0..w).map(|j| if j < n { Lane::Z } else { x[j - n] }).collect(), _ => { let top = if op == Bin::LShr { Lane::Z } else { x[w - 1] }; (0..w).map(|j| if j + n < w { x[j + n] } else { top }).collect() } };
                Ok(V::W(Rc::new(v)))
            }
            Bin::And | Bin::Or | Bin::Xor | Bin::Add => {
                let (x, y) = (self.lanes(st, &a, w).unwrap(), self.lanes(st, &b, w).unwrap());
                let mut v = vec![];
                for (p, q) in x.iter().zip(&y) {
                    v.push(match (op, *p, *q) {
                        (Bin::And, Lane::Z, _) | (Bin::And, _, Lane::Z) => Lane::Z,
                        (Bin::And, Lane::O, r) | (Bin::And, r, Lane::O) => r,
                        (Bin::Or, Lane::O, _) | (Bin::Or, _, Lane::O) => Lane::O,
                        (Bin::Or | Bin::Xor, Lane::Z, r) | (Bin::Or | Bin::Xor, r, Lane::Z) => r,
                        (Bin::Xor, Lane::O, Lane::O) => Lane::Z,
                        (Bin::And | Bin::Or, r, s) if r == s => r,
                        (Bin::Add, Lane::Z, r) | (Bin::Add, r, Lane::Z) => r,
                        (Bin::Add, ..) => return Ok(V::Top),
                        _ => Lane::J,
                    });
                }
                Ok(V::W(Rc::new(v)))
            }
            _ => Ok(V::Top),
        }
    }
    fn cmp(&mut self, st: &St, p: Pred, w: u32, a: V, b: V) -> R<bool> {
        let f = &st.f;
        let (x, y) = match (a, b) {
            (V::I(x), V::I(y)) => (x, y),
            (V::P(p, x), V::P(q, y)) if p == q => (x, y),
            (V::P(..), V::I(l)) | (V::I(l), V::P(..)) if l.konst() == Some(0) => return Ok(matches!(p, Pred::Ne | Pred::Ugt | Pred::Uge)),
            (V::W(q), V::I(l)) if matches!(p, Pred::Eq | Pred::Ne) && l.konst() == Some(0) => {
                if q.iter().any(|z| *z == Lane::O) { return Ok(p == Pred::Ne); }
                if q.iter().all(|z| *z == Lane::Z) { return Ok(p == Pred::Eq); }
                return Err(E::Un("a decision on an assembled word".into()));
            }
            _ => return Err(E::Un("a decision on a value that is not followed".into())),
        };
        let (x, y) = (self.norm(f, &x), self.norm(f, &y));
        let (rx, ry) = (self.rng(f, &x), self.rng(f, &y));
        if matches!(p, Pred::Ult | Pred::Ule | Pred::Ugt | Pred::Uge) && (rx.0 < 0 || ry.0 < 0) {
            // a negative number compares as a large one
            let xn = self.le0(f, &x.plus(1))?;
            let yn = self.le0(f, &y.plus(1))?;
            if xn != yn { return Ok(match p { Pred::Ult | Pred::Ule => yn, _ => xn }); }
        } else if w < 40 && !matches!(p, Pred::Ult | Pred::Ule | Pred::Ugt | Pred::Uge) && (rx.1 > smax(w) || ry.1 > smax(w)) && !matches!(p, Pred::Eq | Pred::Ne) { return Err(E::Un("a signed comparison of a large value".into())); }
        let d = x.sub(&y);
        match p {
            Pred::Slt | Pred::Ult => self.le0(f, &d.plus(1)),
            Pred::Sle | Pred::Ule => self.le0(f, &d),
            Pred::Sgt | Pred::Ugt => Ok(!self.le0(f, &d)?),
            Pred::Sge | Pred::Uge => Ok(!self.le0(f, &d.plus(1))?),
            Pred::Eq | Pred::Ne => { let lt = self.le0(f, &d.plus(1))?; let eq = if lt { false } else { self.le0(f, &d)? }; Ok(eq == (p == Pred::Eq)) }
        }
    }
    /// runs a state to its end or to the next loop head where states meet
    fn run_state(&mut self, mut st: St, work: &mut Vec<St>) -> R<()> {
        loop {
            if self.steps > self.budget { return Err(E::Un("too many states".into())); }
            if st.arrive {
                let b = st.b;
                if self.join.contains(&b) {
                    match self.arrive(&mut st) { Err(E::Split(l)) => { self.split(st, l, work); return Ok(()); } Err(E::Join(h)) => { let s = self.state_of(h); work.push(s); return Ok(()); } Err(E::Dead) => return Ok(()), Err(e) => return Err(e), Ok(()) => return Ok(()) }
                }
                st.arrive = false;
                if self.f.header_of.contains_key(&b) {
                    let e = match st.seen.iter_mut().find(|x| x.0 == b) { Some(e) => e, None => { st.seen.push((b, 0)); st.seen.last_mut().unwrap() } };
                    e.1 += 1;
                    if e.1 > 20 { self.join.insert(b); return Err(E::Join(usize::MAX)); }
                }
            }
            let blk = &self.f.blocks[st.b];
            let i = &blk.ins[st.i];
            self.line = i.line;
            self.steps += 1;
            match self.exec(&mut st, i) {
                Ok(false) => { if st.arrive { continue; } }
                Ok(true) => return Ok(()),
                Err(E::Split(l)) => { self.split(st, l, work); return Ok(()); }
                Err(E::Read) => {
                    let pos = st.d.d.add(&st.d.z).plus(st.d.list.len() as i64);
                    for s in [0i8, 1, -1] {
                        let mut t = st.clone();
                        if !self.assume(&mut t.f, &pos.plus(1 - NCOEF)) { continue; }
                        if s == 0 && t.d.list.is_empty() { t.d.z = t.d.z.plus(1); }
                        else if s == 0 { t.d.list.push((0, L::k(0))); }
                        else { let m = self.fresh(); t.f.b.insert(m, (1, 32768 - (s > 0) as i64)); t.d.list.push((s, L::s(m))); }
                        work.push(t);
                        self.states += 1;
                    }
                    return Ok(());
                }
                Err(e) => return Err(e),
            }
        }
    }
    fn split(&mut self, st: St, l: L, work: &mut Vec<St>) {
        self.splits += 1;
        let mut a = st.clone();
        if self.assume(&mut a.f, &l) { work.push(a); self.states += 1; }
        let mut b = st;
        if self.assume(&mut b.f, &l.mul(-1).plus(1)) { work.push(b); self.states += 1; }
    }
    fn goto(&mut self, st: &mut St, to: usize) {
        let from = st.b;
        let blk = &self.f.blocks[to];
        let mut ph = vec![];
        for i in &blk.ins { if let (Ins::Phi(_, v), Some(d)) = (&i.k, i.dst) { ph.push((d, v.iter().find(|x| x.1 == from).map_or(V::Top, |x| self.get(st, &x.0)))); } else { break; } }
        st.i = ph.len();
        for (d, v) in ph { st.regs[d as usize] = v; }
        st.b = to;
        st.from = from;
        st.arrive = true;
        if std::env::var("RLGRDBG").is_ok() { st.trail = Some(Rc::new(Trail { b: to, up: st.trail.clone() })); }
    }
    fn exec(&mut self, st: &mut St, i: &I) -> R<bool> {
        let v = match &i.k {
            Ins::Phi(..) => { st.i += 1; return Ok(false); }
            Ins::Bin(op, w, a, b, _) => { let (x, y) = (self.get(st, a), self.get(st, b)); self.bin(st, *op, *w, x, y)? }
            Ins::Icmp(p, ty, a, b) => { let w = if let Ty::Int(n) = ty { *n } else { 64 }; let (x, y) = (self.get(st, a), self.get(st, b)); V::I(L::k(self.cmp(st, *p, w, x, y)? as i64)) }
            Ins::Cast(k, from, a, to) => {
                let x = self.get(st, a);
                match (k, x) {
                    (CastK::PtrToInt | CastK::IntToPtr | CastK::BitCast, x) => x,
                    (_, V::Top) => V::Top,
                    (_, V::P(b, l)) => V::P(b, l),
                    (CastK::Trunc, V::I(l)) => { let l = self.norm(&st.f, &l); let r = self.rng(&st.f, &l); if let Some(c) = l.konst() { V::I(L::k(if (0..=umax(*to)).contains(&c) { c } else { (c << (64 - to)) >> (64 - to) })) } else if fits(r, smin(*to), smax(*to)) || fits(r, 0, umax(*to)) { V::I(l) } else { let w = self.word(&st.f, &l, *to); V::W(Rc::new(w)) } }
                    (CastK::Trunc, V::W(w)) => V::W(Rc::new(w[..*to as usize].to_vec())),
                    (CastK::ZExt, V::I(l)) => { let r = self.rng(&st.f, &l); if let Some(c) = l.konst() { V::I(L::k(c & umax(*from))) } else if r.0 >= 0 { V::I(l) } else if r.1 >= 0 { return Err(E::Split(l.plus(1))); } else { V::I(l.plus(1 << from)) } }
                    (CastK::SExt, V::I(l)) => { let r = self.rng(&st.f, &l); if let Some(c) = l.konst() { V::I(L::k((c << (64 - from)) >> (64 - from))) } else if r.1 <= smax(*from) { V::I(l) } else if r.0 > smax(*from) { V::I(l.plus(-(1 << from))) } else { return Err(E::Split(l.plus(-smax(*from)))); } }
                    (CastK::ZExt, V::W(w)) => { let mut w = w.to_vec(); w.resize(*to as usize, Lane::Z); V::W(Rc::new(w)) }
                    (CastK::SExt, V::W(w)) => { let mut w = w.to_vec(); let t = *w.last().unwrap(); w.resize(*to as usize, t); V::W(Rc::new(w)) }
                }
            }
            Ins::Gep(ty, p, ix, _) => {
                let sz = match ty { Ty::Int(n) => (*n / 8) as i64, _ => return Err(E::Un("address of a composite".into())) };
                match (self.get(st, p), ix.first().map(|o| self.get(st, o))) { (V::P(b, l), Some(V::I(x))) => V::P(b, self.norm(&st.f, &l.add(&x.mul(sz)))), _ => V::Top }
            }
            Ins::Load(ty, a) => match self.get(st, a) {
                V::P(COEF, l) => {
                    if *ty != Ty::Int(16) { return Err(E::Un("a coefficient is read in another width".into())); }
                    if l.c % 2 != 0 || l.t.iter().any(|x| x.1 % 2 != 0) { return Err(E::Un("a coefficient is read at an odd address".into())); }
                    let ix = L { c: l.c / 2, t: l.t.iter().map(|x| (x.0, x.1 / 2)).collect() };
                    let n = st.d.list.len() as i64;
                    let pos = st.d.d.add(&st.d.z).plus(n);
                    let df = self.norm(&st.f, &ix.sub(&pos));
                    match df.konst() {
                        Some(0) => return Err(E::Read),
                        Some(k) if k < 0 && -k <= n => { let (s, m) = &st.d.list[(n + k) as usize]; V::I(m.mul(*s as i64)) }
                        _ => {
                            let rel = self.norm(&st.f, &ix.sub(&st.d.d));
                            if self.rng(&st.f, &rel).0 >= 0 && self.rng(&st.f, &rel.sub(&st.d.z)).1 < 0 { V::I(L::k(0)) } else { let s = self.fresh(); st.f.b.insert(s, (-32768, 32767)); V::I(L::s(s)) }
                        }
                    }
                }
                V::P(OUT, l) => {
                    let df = self.norm(&st.f, &l.sub(&st.d.o));
                    match (df.konst(), &st.d.last) { (Some(-1), Some(x)) => V::W(Rc::new(x.clone())), (Some(0), _) => V::W(Rc::new(vec![Lane::J; 8])), _ => return Err(E::Un("a byte put out earlier is read back".into())) }
                }
                _ => return Err(E::Un("a load from memory that is not followed".into())),
            },
            Ins::Store(ty, v, a) => {
                match self.get(st, a) {
                    V::P(COEF, _) => { if st.d.d.konst() != Some(0) || st.d.z.konst() != Some(0) || !st.d.list.is_empty() { return Err(E::Un("a coefficient is changed while they are coded".into())); } }
                    V::P(OUT, l) => {
                        if *ty != Ty::Int(8) { return Err(E::Un("output in units other than bytes".into())); }
                        let x = self.get(st, v);
                        let ln = match self.lanes(st, &x, 8) { Some(l) => l, None => vec![Lane::J; 8] };
                        let df = self.norm(&st.f, &l.sub(&st.d.o));
                        match df.konst() {
                            Some(0) => { let mut d = st.d.clone(); if let Some(b) = d.last.take() { self.byte(&st.f, &mut d, &b)?; self.bits += 8; } d.last = Some(ln); d.o = d.o.plus(1); st.d = d; }
                            Some(-1) if st.d.last.is_some() => st.d.last = Some(ln),
                            Some(k) if k < 0 => return Err(E::Bad(format!("a byte already complete is written again ({} before the end)", -k))),
                            Some(k) => return Err(E::Bad(format!("{} byte(s) of the output are skipped", k))),
                            None => return Err(E::Un("a store at a position that is not followed".into())),
                        }
                    }
                    _ => return Err(E::Un("a store to memory that is not followed".into())),
                }
                st.i += 1;
                return Ok(false);
            }
            Ins::Select(c, a, b, _) => match self.get(st, c) { V::I(l) => { if self.konst(&st.f, &l)? != 0 { self.get(st, a) } else { self.get(st, b) } } _ => return Err(E::Un("a selection on a value that is not followed".into())) },
            Ins::Call(q, a, ty) => {
                let n = if let Callee::Direct(n) = q { n.clone() } else { String::new() };
                if n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") { st.i += 1; return Ok(false); }
                let w = if let Ty::Int(k) = ty { *k } else { 32 };
                let x = a.first().map_or(V::Top, |o| self.get(st, &o.0));
                let y = a.get(1).map_or(V::Top, |o| self.get(st, &o.0));
                let f = st.f.clone();
                if n.starts_with("llvm.ctlz") {
                    match x { V::I(l) => { let r = self.rng(&f, &l); if r.0 < 0 || r.1 > umax(w) { return Err(E::Un("leading zeros of a value without bounds".into())); } let len = |x: i64| 64 - x.leading_zeros(); if len(r.0) != len(r.1) { return Err(E::Split(l.plus(-((1i64 << (len(r.1) - 1)) - 1)))); } V::I(L::k((w - len(r.0)) as i64)) } _ => V::Top }
                } else if n.starts_with("llvm.smax") || n.starts_with("llvm.umax") || n.starts_with("llvm.smin") || n.starts_with("llvm.umin") {
                    let u = n.starts_with("llvm.u");
                    let le = self.cmp(st, if u { Pred::Ule } else { Pred::Sle }, w, x.clone(), y.clone())?;
                    if le == n.contains("max") { y } else { x }
                } else if n.starts_with("llvm.abs") { match x { V::I(l) => { if self.le0(&f, &l.plus(1))? { V::I(l.mul(-1)) } else { V::I(l) } } _ => V::Top } }
                else if n == "memset" || n.starts_with("llvm.mem") { return Err(E::Un(format!("{} in the coder", n))); }
                else { V::Top }
            }
            Ins::Br(to) => { self.goto(st, *to); return Ok(false); }
            Ins::CondBr(c, a, b) => match self.get(st, c) { V::I(l) => { let k = self.konst(&st.f, &l)?; self.goto(st, if k & 1 != 0 { *a } else { *b }); return Ok(false); } _ => return Err(E::Un("a branch on a value that is not followed".into())) },
            Ins::Switch(c, _, d, cs) => match self.get(st, c) { V::I(l) => { let k = self.konst(&st.f, &l)?; let to = cs.iter().find(|z| z.0 == k).map_or(*d, |z| z.1); self.goto(st, to); return Ok(false); } _ => return Err(E::Un("a switch on a value that is not followed".into())) },
            Ins::Ret(v, _) => {
                let x = match v { Some(o) => self.get(st, o), None => V::Top };
                let l = match x { V::I(l) => l, _ => return Err(E::Un("the value returned is not followed".into())) };
                let mut d = st.d.clone();
                if let Some(b) = d.last.take() { self.byte(&st.f, &mut d, &b)?; }
                if self.rng(&st.f, &l).1 < 0 { return Err(E::Bad("failure is returned although there is room".into())); }
                let df = self.norm(&st.f, &l.sub(&d.o));
                if df.konst() != Some(0) { return Err(E::Bad("the value returned is not the number of bytes put out".into())); }
                if d.old.0 < d.old.1 { return Err(E::Bad(format!("{} pending bit(s) are never put out", d.old.1 - d.old.0))); }
                if self.rng(&st.f, &d.d).0 < NCOEF { return Err(E::Bad("success is returned although fewer than 4096 coefficients have been put out".into())); }
                if !matches!(d.mode, Mode::Start | Mode::Sign) { return Err(E::Bad("the output ends inside a code word".into())); }
                self.rets += 1;
                return Ok(true);
            }
            Ins::Alloca(..) => return Err(E::Un("memory on the stack".into())),
            Ins::Unreachable => return Ok(true),
        };
        if let Some(d) = i.dst { st.regs[d as usize] = v; }
        st.i += 1;
        Ok(false)
    }
    pub fn run(&mut self) {
        for _ in 0..12 {
            self.hs.clear(); self.hx.clear(); self.bad.clear(); self.unsup.clear();
            let mut f = Facts::default();
            f.b.insert(self.s, (ROOM, (1 << 31) - 1));
            f.b.insert(self.nd, (0, NCOEF));
            let mut regs = vec![V::Top; self.f.nregs];
            regs[0] = V::P(COEF, L::k(0)); regs[1] = V::P(OUT, L::k(0)); regs[2] = V::I(L::s(self.s));
            if self.f.args.len() > 3 { regs[3] = V::I(L::s(self.nd)); }
            let d = Dec { d: L::k(0), z: L::k(0), kp: L::k(8), krp: L::k(8), list: vec![], mode: Mode::Start, o: L::k(0), last: None, old: (0, 0), n: 0 };
            let mut work = vec![St { b: 0, from: usize::MAX, i: 0, arrive: false, regs, f, d, seen: vec![], trail: None }];
            let mut again = false;
            let mut tick = 0u64;
            while let Some(st) = work.pop() {
                tick += 1;
                if tick % 100000 == 0 && std::env::var("RLGRDBG").is_ok() { let mut c: BTreeMap<(usize, u8), (u64, u64, u32)> = BTreeMap::new(); for h in &self.hs { let e = c.entry((h.key.b, h.key.mode)).or_default(); e.0 += 1; e.1 += h.joins; e.2 += h.wid; } eprintln!("steps {} work {} join {:?} heads {:?} syms {}", self.steps, work.len(), self.join.iter().map(|&b| self.f.blocks[b].name.clone()).collect::<Vec<_>>(), c.iter().map(|(k, v)| (self.f.blocks[k.0].name.clone(), k.1, v)).collect::<Vec<_>>(), self.defs.len()); }
                let tr = st.trail.clone();
                match self.run_state(st, &mut work) {
                    Ok(()) => {}
                    Err(E::Join(_)) => { again = true; break; }
                    Err(E::Bad(m)) => { if self.bad.len() < 40 && !self.bad.iter().any(|b| b.line == self.line && b.msg == m) { if std::env::var("RLGRDBG").is_ok() { let mut s = vec![]; let mut t = tr; while let Some(x) = t { s.push(self.f.blocks[x.b].name.clone()); t = x.up.clone(); if s.len() > 30 { break; } } eprintln!("{} {}: {}", self.line, m, s.join(" < ")); } self.bad.push(Bad { line: self.line, msg: m }); } }
                    Err(E::Un(m)) => { let m = format!("line {}: {}", self.line, m); if self.unsup.len() < 20 && !self.unsup.contains(&m) { self.unsup.push(m); } if self.steps > self.budget { break; } }
                    Err(_) => {}
                }
            }
            if !again { return; }
        }
        self.unsup.push("loop heads keep growing".into());
    }
    pub fn heads(&self) -> usize { self.hs.len() }
}
/// the protocol's decoder, on given bytes
pub fn decode(data: &[u8], three: bool) -> Option<Vec<i64>> {
    let mut pos = 0usize;
    let mut out: Vec<i64> = vec![];
    let (mut kp, mut krp) = (8i64, 8i64);
    let bit = |pos: &mut usize| -> Option<i64> { let r = data.get(*pos / 8).map(|b| (b >> (7 - *pos % 8) & 1) as i64); *pos += 1; r };
    let num = |pos: &mut usize, n: i64| -> Option<i64> { let mut v = 0; for _ in 0..n { v = v << 1 | bit(pos)?; } Some(v) };
    let cl = |x: i64| x.clamp(0, 80);
    while out.len() < 4096 {
        let k = kp >> 3;
        let gr = |pos: &mut usize, krp: &mut i64| -> Option<i64> { let kr = *krp >> 3; let mut q = 0; while bit(pos)? == 1 { q += 1; if q > 200000 { return None; } } let r = num(pos, kr)?; if q == 0 { *krp = cl(*krp - 2); } else if q > 1 { *krp = cl(*krp + q); } Some(q << kr | r) };
        let un = |v: i64| if v & 1 == 1 { -((v + 1) >> 1) } else { v >> 1 };
        if k > 0 {
            if bit(&mut pos)? == 0 { for _ in 0..1 << k { out.push(0); } kp = cl(kp + 4); continue; }
            let n = num(&mut pos, k)?;
            for _ in 0..n { out.push(0); }
            if out.len() >= 4096 { break; }
            let s = bit(&mut pos)?;
            let m = gr(&mut pos, &mut krp)? + 1;
            out.push(if s == 1 { -m } else { m });
            kp = cl(kp - 6);
        } else if three {
            let s = gr(&mut pos, &mut krp)?;
            let n = 64 - s.leading_zeros() as i64;
            let a = num(&mut pos, n)?;
            let b = s - a;
            if b < 0 { return None; }
            out.push(un(a)); out.push(un(b));
            if a != 0 && b != 0 { kp = cl(kp - 6); } else if a == 0 && b == 0 { kp = cl(kp + 6); }
        } else {
            let v = gr(&mut pos, &mut krp)?;
            out.push(un(v));
            kp = cl(kp + if v != 0 { -3 } else { 3 });
        }
    }
    out.truncate(4096);
    Some(out)
}
