//! The entropy coders on their own, for every coefficient value and every buffer size: a numeric
//! abstract interpretation (octagons, a few ghost counters, partitioning by how far the write cursor is
//! from the bytes written), and the concrete trace that turns an open obligation into a finding.
use crate::ir::*;
use crate::oct::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

const W: u32 = 1 << 24; // ghost: bytes written without a gap
const RD: u32 = W + 1; // ghost: coefficients read without a gap
const REM: u32 = W + 2; // ghost: bytes of the buffer not yet written
const Q8: u32 = 1 << 25; // ghost of a register: floor(x / 8)
const TMP: u32 = 1 << 26;
const NCOEF: i64 = 4096;
#[derive(Clone, Copy, PartialEq, Debug)]
enum Base { Coef, Out, Other }
#[derive(Clone, Debug)]
pub struct Ob { pub kind: &'static str, pub line: u32, pub msg: String }
pub struct An<'a> {
    f: &'a Func,
    base: Vec<Option<Base>>,
    width: Vec<u32>,
    def: Vec<Option<(usize, usize)>>,
    q8: HashSet<u32>,
    cur: HashSet<u32>,
    par: HashSet<u32>,
    sgn: HashSet<u32>,
    rmw: HashSet<u32>,
    scan: HashSet<u32>,
    th: Vec<i64>,
    ndiff: Option<(i64, i64)>,
    pub unsup: BTreeSet<String>,
    pub obs: BTreeMap<(u32, &'static str, usize), (bool, String)>,
    check: bool,
    pub visits: usize,
    pub disj: usize,
}
type Key = Vec<i8>;
fn fl8(x: i64) -> i64 { if x.abs() >= INF { x } else { x.div_euclid(8) } }
impl<'a> An<'a> {
    pub fn new(f: &'a Func, ndiff: Option<(i64, i64)>) -> An<'a> {
        let n = f.nregs;
        let mut a = An { f, base: vec![None; n], width: vec![0; n], def: vec![None; n], q8: HashSet::new(), cur: HashSet::new(), par: HashSet::new(), sgn: HashSet::new(), rmw: HashSet::new(), scan: HashSet::new(), th: vec![], ndiff, unsup: BTreeSet::new(), obs: BTreeMap::new(), check: false, visits: 0, disj: 0 };
        for (i, t) in f.args.iter().enumerate() { if let Ty::Int(w) = t { a.width[i] = *w; } }
        a.base[0] = Some(Base::Coef);
        a.base[1] = Some(Base::Out);
        let mut th: BTreeSet<i64> = [-1, 0, 1, 7, 8, NCOEF, NCOEF - 1, NCOEF + 1, i32::MAX as i64].into_iter().collect();
        for (bi, b) in f.blocks.iter().enumerate() { for (ii, i) in b.ins.iter().enumerate() {
            if let Some(d) = i.dst {
                a.def[d as usize] = Some((bi, ii));
                a.width[d as usize] = match &i.k { Ins::Bin(_, n, ..) => *n, Ins::Icmp(..) => 1, Ins::Cast(_, _, _, n) => *n, Ins::Load(Ty::Int(n), _) => *n, Ins::Phi(Ty::Int(n), _) => *n, Ins::Select(_, _, _, Ty::Int(n)) => *n, Ins::Call(_, _, Ty::Int(n)) => *n, _ => 0 };
            }
            let ops: Vec<&Op> = match &i.k { Ins::Icmp(_, _, x, y) => vec![x, y], Ins::Select(_, x, y, _) => vec![x, y], Ins::Call(_, v, _) => v.iter().map(|x| &x.0).collect(), _ => vec![] };
            for o in ops { if let Op::C(k) = o { if k.abs() < 1 << 30 { for d in -1..=0 { th.insert(*k + d); th.insert(-*k + d); } } } }
        } }
        for k in [15, 31, 32768, 65536] { th.insert(k); }
        a.th = th.into_iter().collect();
        // pointer bases
        loop {
            let mut ch = false;
            for b in &f.blocks { for i in &b.ins { if let Some(d) = i.dst {
                if a.base[d as usize].is_some() { continue; }
                let g = |o: &Op| if let Op::Reg(r) = o { a.base[*r as usize] } else { None };
                let v = match &i.k { Ins::Gep(_, p, ..) => g(p), Ins::Phi(Ty::Ptr, v) => v.iter().find_map(|x| g(&x.0)), Ins::Select(_, x, y, Ty::Ptr) => g(x).or(g(y)), Ins::Cast(CastK::BitCast | CastK::PtrToInt, _, x, _) => g(x), Ins::Alloca(..) => Some(Base::Other), _ => None };
                if v.is_some() { a.base[d as usize] = v; ch = true; }
            } } }
            if !ch { break; }
        }
        // quantities related through division by eight
        let reg = |o: &Op| if let Op::Reg(r) = o { Some(*r) } else { None };
        for b in &f.blocks { for i in &b.ins { match &i.k {
            Ins::Bin(Bin::SDiv | Bin::UDiv, _, x, Op::C(8), _) | Ins::Bin(Bin::AShr | Bin::LShr, _, x, Op::C(3), _) => { if let Some(r) = reg(x) { a.q8.insert(r); } }
            _ => {}
        } } }
        loop {
            let n = a.q8.len();
            for b in &f.blocks { for i in &b.ins { if let Some(d) = i.dst {
                let ops: Vec<u32> = match &i.k { Ins::Phi(Ty::Int(32), v) => v.iter().filter_map(|x| reg(&x.0)).collect(), Ins::Bin(Bin::Add | Bin::Sub, 32, x, Op::C(k), _) if k % 8 == 0 => reg(x).into_iter().collect(), _ => continue };
                if a.q8.contains(&d) { a.q8.extend(ops); } else if ops.iter().any(|o| a.q8.contains(o)) { a.q8.insert(d); }
            } } }
            if a.q8.len() == n { break; }
        }
        // cursors: quantities that become the address of a store to the buffer
        let mut work: Vec<u32> = vec![];
        for b in &f.blocks { for i in &b.ins { if let Ins::Store(_, _, Op::Reg(p)) = &i.k { if a.base[*p as usize] == Some(Base::Out) { work.push(*p); } } } }
        while let Some(r) = work.pop() {
            if !a.cur.insert(r) { continue; }
            if let Some((bi, ii)) = a.def[r as usize] { match &f.blocks[bi].ins[ii].k {
                Ins::Gep(_, p, ix, _) => { for o in ix.iter().chain([p]) { if let Some(r) = reg(o) { work.push(r); } } }
                Ins::Phi(_, v) => for x in v { if let Some(r) = reg(&x.0) { work.push(r); } },
                Ins::Cast(_, _, x, _) => if let Some(r) = reg(x) { work.push(r); },
                Ins::Bin(Bin::Add, _, x, Op::C(_), _) => if let Some(r) = reg(x) { work.push(r); },
                _ => {}
            } }
        }
        a.cur.remove(&1);
        // coefficient values and their copies; coefficients read only to be stored back changed
        for b in &f.blocks { for i in &b.ins { if let (Some(d), Ins::Load(_, Op::Reg(p))) = (i.dst, &i.k) { if a.base[*p as usize] == Some(Base::Coef) { a.sgn.insert(d); } } } }
        loop {
            let n = a.sgn.len();
            for b in &f.blocks { for i in &b.ins { if let Some(d) = i.dst { if match &i.k { Ins::Phi(_, v) => v.iter().filter_map(|x| reg(&x.0)).any(|r| a.sgn.contains(&r)), Ins::Cast(CastK::SExt, 16, x, _) => reg(x).map_or(false, |r| a.sgn.contains(&r)), _ => false } { a.sgn.insert(d); } } } }
            if a.sgn.len() == n { break; }
        }
        let mut wk: Vec<u32> = vec![];
        for b in &f.blocks { for i in &b.ins { if let Ins::Store(_, Op::Reg(v), Op::Reg(p)) = &i.k { if a.base[*p as usize] == Some(Base::Coef) { wk.push(*v); } } } }
        while let Some(r) = wk.pop() {
            if !a.rmw.insert(r) { continue; }
            if let Some((bi, ii)) = a.def[r as usize] { match &f.blocks[bi].ins[ii].k { Ins::Bin(_, _, x, y, _) => { wk.extend(reg(x)); wk.extend(reg(y)); } Ins::Cast(_, _, x, _) => wk.extend(reg(x)), Ins::Phi(_, v) => wk.extend(v.iter().filter_map(|x| reg(&x.0))), _ => {} } }
        }
        // counters of loops that halve a value until it is gone: one state per count
        for b in &f.blocks {
            let isdef = |o: &Op, g: &dyn Fn(&Ins) -> bool| reg(o).and_then(|r| a.def[r as usize]).map_or(false, |(bi, ii)| g(&f.blocks[bi].ins[ii].k));
            let halves = b.ins.iter().any(|i| matches!((&i.k, i.dst), (Ins::Phi(_, v), Some(d)) if v.iter().any(|x| isdef(&x.0, &|k| matches!(k, Ins::Bin(Bin::LShr | Bin::AShr, _, Op::Reg(q), Op::C(1), _) | Ins::Bin(Bin::SDiv | Bin::UDiv, _, Op::Reg(q), Op::C(2), _) if *q == d)))));
            if !halves { continue; }
            for i in &b.ins { if let (Ins::Phi(_, v), Some(d)) = (&i.k, i.dst) { if v.iter().any(|x| isdef(&x.0, &|k| matches!(k, Ins::Bin(Bin::Add | Bin::Sub, _, Op::Reg(q), Op::C(_), _) if *q == d))) { a.scan.insert(d); } } }
        }
        // adaptation parameters: x in x >> 3 whose result ends up as a shift amount
        let mut amt: HashSet<u32> = HashSet::new();
        for b in &f.blocks { for i in &b.ins { if let Ins::Bin(Bin::Shl | Bin::LShr | Bin::AShr, _, _, Op::Reg(k), _) = &i.k { amt.insert(*k); } } }
        loop {
            let n = amt.len();
            for b in &f.blocks { for i in &b.ins { if let Some(d) = i.dst { if amt.contains(&d) {
                match &i.k { Ins::Phi(_, v) => amt.extend(v.iter().filter_map(|x| reg(&x.0))), Ins::Select(_, x, y, _) => { amt.extend(reg(x)); amt.extend(reg(y)); } Ins::Cast(_, _, x, _) => amt.extend(reg(x)), _ => {} }
            } } } }
            if amt.len() == n { break; }
        }
        for b in &f.blocks { for i in &b.ins { if let (Some(d), Ins::Bin(Bin::AShr | Bin::LShr, 32, Op::Reg(x), Op::C(3), _) | Ins::Bin(Bin::SDiv | Bin::UDiv, 32, Op::Reg(x), Op::C(8), _)) = (i.dst, &i.k) { if amt.contains(&d) { a.par.insert(*x); } } } }
        a
    }
    pub fn params(&self) -> usize { self.par.len() }
    fn ty_rng(&self, w: u32) -> (i64, i64) { match w { 0 => (-INF, INF), 1 => (0, 1), w if w >= 62 => (-INF, INF), w => (-(1i64 << (w - 1)), (1i64 << (w - 1)) - 1) } }
    fn val(&self, s: &Oct, o: &Op) -> (i64, i64) {
        match o { Op::C(k) => (*k, *k), Op::Reg(r) => { let (l, h) = s.rng(*r); let (tl, th) = self.ty_rng(self.width[*r as usize]); (l.max(tl), h.min(th)) } Op::Zero | Op::Null => (0, 0), _ => (-INF, INF) }
    }
    fn ob(&mut self, ix: usize, line: u32, kind: &'static str, ok: bool, msg: impl Fn() -> String) {
        if !self.check { return; }
        let e = self.obs.entry((line, kind, ix)).or_insert((true, String::new()));
        if !ok && e.0 { *e = (false, msg()); }
    }
    fn set(&self, s: &mut Oct, d: u32, l: i64, h: i64) { let (tl, th) = self.ty_rng(self.width[d as usize]); s.set_rng(d, l.max(tl), h.min(th)); }
    /// d := x + c
    fn shift_by(&self, s: &mut Oct, d: u32, x: &Op, c: i64, nsw: bool) {
        match x {
            Op::Reg(r) => {
                let (l, h) = self.val(s, x);
                let (tl, th) = self.ty_rng(self.width[d as usize]);
                let (nl, nh) = (if l <= -INF { l } else { l + c }, if h >= INF { h } else { h + c });
                if nl < tl || nh > th { if !nsw { s.set_rng(d, tl, th); return; } }
                s.set_copy(d, *r, c);
                if nsw { if tl > -INF { s.ge(d, tl); } if th < INF { s.le(d, th); } }
            }
            Op::C(k) => self.set(s, d, k + c, k + c),
            _ => s.add(d),
        }
    }
    fn guard(&self, s: &mut Oct, p: Pred, a: &Op, b: &Op, taken: bool) {
        use Pred::*;
        let p = if taken { p } else { match p { Eq => Ne, Ne => Eq, Slt => Sge, Sle => Sgt, Sgt => Sle, Sge => Slt, Ult => Uge, Ule => Ugt, Ugt => Ule, Uge => Ult } };
        let (av, bv) = (self.val(s, a), self.val(s, b));
        let le = |s: &mut Oct, a: &Op, b: &Op, k: i64| match (a, b) { // a <= b + k
            (Op::Reg(x), Op::Reg(y)) => s.dle(*x, *y, k),
            (Op::Reg(x), Op::C(c)) => s.le(*x, c + k),
            (Op::C(c), Op::Reg(y)) => s.ge(*y, c - k),
            (Op::C(c), Op::C(d)) => if *c > d + k { s.bot = true },
            _ => {}
        };
        match p {
            Slt => le(s, a, b, -1), Sle => le(s, a, b, 0), Sgt => le(s, b, a, -1), Sge => le(s, b, a, 0),
            Eq => { le(s, a, b, 0); le(s, b, a, 0); }
            Ne => {
                if let (Op::Reg(x), true) = (a, bv.0 == bv.1) { if av.0 == bv.0 { s.ge(*x, av.0 + 1); } if !s.bot && av.1 == bv.0 { s.le(*x, av.1 - 1); } }
                else if let (Op::Reg(y), true) = (b, av.0 == av.1) { if bv.0 == av.0 { s.ge(*y, bv.0 + 1); } if !s.bot && bv.1 == av.0 { s.le(*y, bv.1 - 1); } }
            }
            Ult | Ule if bv.0 >= 0 => { if let Op::Reg(x) = a { s.ge(*x, 0); } if !s.bot { le(s, a, b, if p == Ult { -1 } else { 0 }); } }
            Ugt | Uge if av.0 >= 0 => { if let Op::Reg(y) = b { s.ge(*y, 0); } if !s.bot { le(s, b, a, if p == Ugt { -1 } else { 0 }); } }
            Ugt if av.0 >= 0 && bv.0 >= 0 => le(s, b, a, -1),
            Uge | Ugt if bv.0 >= 0 && av.0 >= 0 => le(s, b, a, 0),
            _ => {}
        }
        if s.bot { return; }
        for o in [a, b] { if let Op::Reg(r) = o { if self.q8.contains(r) { let (l, h) = s.rng(*r); if l > -INF { s.ge(Q8 + r, fl8(l)); } if !s.bot && h < INF { s.le(Q8 + r, fl8(h)); } if s.bot { return; } } } }
    }
    /// restrict by the truth of a boolean register
    fn assume(&self, s: &mut Oct, c: &Op, taken: bool, d: u32) {
        match c {
            Op::C(k) => if (*k != 0) != taken { s.bot = true },
            Op::Reg(r) => if let Some((bi, ii)) = self.def[*r as usize] {
                match &self.f.blocks[bi].ins[ii].k {
                    Ins::Icmp(p, _, a, b) => {
                        // comparison of a widened truth value with zero
                        if let (Op::Reg(x), Op::C(0), Pred::Ne | Pred::Eq) = (a, b, *p) { if let Some((b2, i2)) = self.def[*x as usize] { if let Ins::Cast(CastK::ZExt, 1, y, _) = &self.f.blocks[b2].ins[i2].k { if d < 8 { self.assume(s, y, taken == (*p == Pred::Ne), d + 1); return; } } } }
                        self.guard(s, *p, a, b, taken)
                    }
                    Ins::Bin(Bin::Xor, 1, x, Op::C(_), _) if d < 8 => self.assume(s, x, !taken, d + 1),
                    Ins::Bin(Bin::And, 1, x, y, _) if taken && d < 8 => { self.assume(s, x, true, d + 1); if !s.bot { self.assume(s, y, true, d + 1); } }
                    Ins::Bin(Bin::Or, 1, x, y, _) if !taken && d < 8 => { self.assume(s, x, false, d + 1); if !s.bot { self.assume(s, y, false, d + 1); } }
                    Ins::Select(x, y, Op::C(0), Ty::Int(1)) if taken && d < 8 => { self.assume(s, x, true, d + 1); if !s.bot { self.assume(s, y, true, d + 1); } }
                    Ins::Select(x, Op::C(k), y, Ty::Int(1)) if !taken && *k != 0 && d < 8 => { self.assume(s, x, false, d + 1); if !s.bot { self.assume(s, y, false, d + 1); } }
                    _ => {}
                }
            },
            _ => {}
        }
    }
    fn ghost(&self, s: &mut Oct, d: u32) {
        if !self.q8.contains(&d) || s.bot { return; }
        let (l, h) = s.rng(d);
        let mut src: Option<(u32, i64)> = None;
        if let Some((bi, ii)) = self.def[d as usize] { match &self.f.blocks[bi].ins[ii].k {
            Ins::Bin(Bin::Add, 32, Op::Reg(x), Op::C(k), _) if k % 8 == 0 => src = Some((*x, k / 8)),
            Ins::Bin(Bin::Sub, 32, Op::Reg(x), Op::C(k), _) if k % 8 == 0 => src = Some((*x, -k / 8)),
            _ => {}
        } }
        match src { Some((x, k)) if s.has(Q8 + x) && s.diff(d, x) == (8 * k, 8 * k) => s.set_copy(Q8 + d, Q8 + x, k), _ => s.add(Q8 + d) }
        if l > -INF { s.ge(Q8 + d, fl8(l)); }
        if !s.bot && h < INF { s.le(Q8 + d, fl8(h)); }
    }
    fn step(&mut self, ss: Vec<Oct>, i: &I, ix: usize) -> Vec<Oct> {
        let mut out = vec![];
        for s in ss { self.step1(s, i, ix, &mut out); }
        out.retain(|s| !s.bot);
        out
    }
    fn addr(&self, s: &Oct, p: &Op) -> Option<(Base, u32)> { if let Op::Reg(r) = p { if let Some(b) = self.base[*r as usize] { if s.has(*r) { return Some((b, *r)); } } } None }
    fn step1(&mut self, mut s: Oct, i: &I, ix: usize, out: &mut Vec<Oct>) {
        let line = i.line;
        let d = i.dst.unwrap_or(0);
        let wd = if i.dst.is_some() { self.width[d as usize] } else { 0 };
        match &i.k {
            Ins::Phi(..) => { out.push(s); return; }
            Ins::Icmp(..) => { out.push(s); return; }
            Ins::Bin(op, w, x, y, nsw) => {
                if *w == 1 { out.push(s); return; }
                let (xv, yv) = (self.val(&s, x), self.val(&s, y));
                let (tl, th) = self.ty_rng(*w);
                match op {
                    Bin::Add | Bin::Sub => {
                        let neg = *op == Bin::Sub;
                        if let Op::C(k) = y { self.shift_by(&mut s, d, x, if neg { -k } else { *k }, *nsw); }
                        else if yv.0 == yv.1 { self.shift_by(&mut s, d, x, if neg { -yv.0 } else { yv.0 }, *nsw); }
                        else if xv.0 == xv.1 {
                            if !neg { self.shift_by(&mut s, d, y, xv.0, *nsw); } else if let Op::Reg(r) = y {
                                let (l, h) = (if yv.1 >= INF { -INF } else { xv.0 - yv.1 }, if yv.0 <= -INF { INF } else { xv.0 - yv.0 });
                                if (l < tl || h > th) && !nsw { s.set_rng(d, tl, th); } else { s.set_neg(d, *r, xv.0); if tl > -INF { s.ge(d, tl); } if th < INF { s.le(d, th); } }
                            } else { s.set_rng(d, tl, th); }
                        } else if let (Op::Reg(a), Op::Reg(b)) = (x, y) {
                            let (l, h) = if neg { s.diff(*a, *b) } else { s.sum(*a, *b) };
                            if l >= tl && h <= th || *nsw {
                                s.set_rng(d, l.max(tl), h.min(th));
                                let (bl, bh) = if neg { (-yv.1, -yv.0) } else { yv };
                                if bh < INF { s.dle(d, *a, bh); }
                                if bl > -INF { s.dle(*a, d, -bl); }
                                if !neg { if xv.1 < INF { s.dle(d, *b, xv.1); } if xv.0 > -INF { s.dle(*b, d, -xv.0); } }
                            } else { s.set_rng(d, tl, th); }
                        } else { s.set_rng(d, tl, th); }
                    }
                    Bin::Mul => {
                        let big = |v: (i64, i64)| v.0 <= -(1 << 31) - 1 || v.1 >= 1 << 31;
                        if big(xv) || big(yv) { s.set_rng(d, tl, th); } else { let c = [xv.0 * yv.0, xv.0 * yv.1, xv.1 * yv.0, xv.1 * yv.1]; let (l, h) = (*c.iter().min().unwrap(), *c.iter().max().unwrap()); if (l < tl || h > th) && !nsw { s.set_rng(d, tl, th); } else { s.set_rng(d, l.max(tl), h.min(th)); } }
                    }
                    Bin::SDiv | Bin::UDiv => {
                        let k = if yv.0 == yv.1 { yv.0 } else { 0 };
                        if k > 0 && xv.0 >= 0 {
                            s.set_rng(d, xv.0 / k, if xv.1 >= INF { INF } else { xv.1 / k });
                            if let (8, Op::Reg(r)) = (k, x) { if s.has(Q8 + r) { s.dle(d, Q8 + r, 0); s.dle(Q8 + r, d, 0); } }
                        } else if k > 0 && *op == Bin::SDiv {
                            s.set_rng(d, if xv.0 <= -INF { tl } else { xv.0 / k }, if xv.1 >= INF { th } else { xv.1 / k });
                            // truncation towards zero never goes below the floor
                            if let (8, Op::Reg(r)) = (k, x) { if s.has(Q8 + r) { s.dle(Q8 + r, d, 0); } }
                        } else { s.set_rng(d, tl, th); }
                    }
                    Bin::SRem | Bin::URem => { if yv.0 == yv.1 && yv.0 > 0 && xv.0 >= 0 { s.set_rng(d, 0, (yv.0 - 1).min(xv.1)); } else { s.set_rng(d, tl, th); } }
                    Bin::Shl | Bin::LShr | Bin::AShr => {
                        self.ob(ix, line, "shift", yv.0 >= 0 && yv.1 < *w as i64, || format!("the shift amount is not shown to be within 0..{} (bounds {}..{})", w - 1, yv.0, yv.1));
                        let (kl, kh) = (yv.0.clamp(0, *w as i64 - 1), yv.1.clamp(0, *w as i64 - 1));
                        match op {
                            Bin::Shl => {
                                let f = |v: i64, k: i64| -> Option<i64> { if v.abs() >= 1 << 40 { None } else { v.checked_mul(1i64 << k).filter(|z| z.abs() < 1 << 50) } };
                                let c: Vec<Option<i64>> = vec![f(xv.0, kl), f(xv.0, kh), f(xv.1, kl), f(xv.1, kh)];
                                if c.iter().all(|z| z.is_some()) {
                                    let (l, h) = (c.iter().map(|z| z.unwrap()).min().unwrap(), c.iter().map(|z| z.unwrap()).max().unwrap());
                                    if (l < tl || h > th) && !nsw { s.set_rng(d, tl, th); } else { s.set_rng(d, l.max(tl), h.min(th)); }
                                } else { s.set_rng(d, tl, th); }
                            }
                            Bin::AShr if xv == (-32768, 32767) && kl == 15 && kh == 15 || *op == Bin::AShr && kl == kh && xv.0 < 0 && xv.1 >= 0 && xv.0 >> kl == -1 && xv.1 >> kl == 0 => {
                                // sign mask: one case per sign
                                if let Op::Reg(r) = x {
                                    let mut t = s.clone();
                                    t.le(*r, -1);
                                    if !t.bot { t.set_rng(d, -1, -1); out.push(t); }
                                    s.ge(*r, 0);
                                    if !s.bot { s.set_rng(d, 0, 0); out.push(s); }
                                    return;
                                }
                                s.set_rng(d, -1, 0);
                            }
                            _ => {
                                if *op == Bin::LShr && xv.0 < 0 {
                                    if *w < 62 { let m = (1i64 << *w) - 1; s.set_rng(d, if kl == 0 { tl } else { 0 }, if kl == 0 { th } else { m >> kl }); } else { s.add(d); }
                                } else {
                                    let sh = |v: i64, k: i64| if v.abs() >= INF { v } else { v >> k };
                                    let l = if xv.0 >= 0 { sh(xv.0, kh) } else { sh(xv.0, kl) };
                                    let h = if xv.1 >= 0 { sh(xv.1, kl) } else { sh(xv.1, kh) };
                                    if kl == 0 && kh == 0 { if let Op::Reg(r) = x { s.set_copy(d, *r, 0); } else { s.set_rng(d, l, h); } } else { s.set_rng(d, l, h); }
                                    if let (3, 3, Op::Reg(r)) = (kl, kh, x) { if s.has(Q8 + r) { s.dle(d, Q8 + r, 0); s.dle(Q8 + r, d, 0); } }
                                    if xv.0 >= 0 { if let Op::Reg(r) = x { s.dle(d, *r, 0); } }
                                }
                            }
                        }
                        if kl == 3 && kh == 3 { if let Op::Reg(r) = x { if self.par.contains(r) { self.ob(ix, line, "param", xv.0 >= 0 && xv.1 <= 80, || format!("the adaptation parameter is not shown to stay within 0..80 (bounds {}..{})", xv.0, xv.1)); } } }
                    }
                    Bin::And => {
                        let c = |v: (i64, i64)| v.0 >= 0;
                        let h = match (c(xv), c(yv)) { (true, true) => xv.1.min(yv.1), (true, false) => xv.1, (false, true) => yv.1, _ => th };
                        if c(xv) || c(yv) { s.set_rng(d, 0, h); } else { s.set_rng(d, tl, th); }
                        // masking with a full mask of a value below it changes nothing
                        if let (Op::Reg(r), true) = (x, c(xv) && yv.0 == yv.1 && yv.0 >= 0 && (yv.0 + 1) & yv.0 == 0 && xv.1 <= yv.0) { s.set_copy(d, *r, 0); }
                    }
                    Bin::Or | Bin::Xor => {
                        if *op == Bin::Xor && yv.0 == yv.1 && (yv.0 == -1 || yv.0 > 0 && (yv.0 + 1) & yv.0 == 0 && xv.0 >= 0 && xv.1 <= yv.0) {
                            if let Op::Reg(r) = x { s.set_neg(d, *r, yv.0); } else { s.set_rng(d, tl, th); }
                        } else if yv == (0, 0) { self.shift_by(&mut s, d, x, 0, true); }
                        else if xv.0 >= 0 && yv.0 >= 0 && xv.1 < 1 << 40 && yv.1 < 1 << 40 { let m = xv.1.max(yv.1); let mut p = 1; while p <= m { p *= 2; } s.set_rng(d, if *op == Bin::Or { xv.0.max(yv.0) } else { 0 }, p - 1); }
                        else { s.set_rng(d, tl, th); }
                    }
                }
                if let Bin::SDiv | Bin::UDiv = op { if yv == (8, 8) { if let Op::Reg(r) = x { if self.par.contains(r) { self.ob(ix, line, "param", xv.0 >= 0 && xv.1 <= 80, || format!("the adaptation parameter is not shown to stay within 0..80 (bounds {}..{})", xv.0, xv.1)); } } } }
            }
            Ins::Cast(k, from, x, to) => {
                let v = self.val(&s, x);
                match k {
                    CastK::Trunc => {
                        let (tl, th) = self.ty_rng(*to);
                        if *to == 16 && *from == 32 { if self.is_word(i.dst.unwrap()) { self.ob(ix, line, "trunc", v.0 >= -32768 && v.1 <= 65535, || format!("bits to be output are not shown to fit the 16-bit word they are put in (bounds {}..{})", v.0, v.1)); } }
                        if v.0 >= tl && v.1 <= th { self.shift_by(&mut s, d, x, 0, true); } else { s.set_rng(d, tl, th); }
                    }
                    CastK::ZExt => {
                        if *from == 1 { s.set_rng(d, 0, 1); }
                        else if v.0 >= 0 { self.shift_by(&mut s, d, x, 0, true); } else {
                            // value may have been truncated to the narrow type just before
                            let m = if *from < 62 { (1i64 << *from) - 1 } else { INF };
                            let src = if let Op::Reg(r) = x { self.def[*r as usize].and_then(|(b, i)| if let Ins::Cast(CastK::Trunc, _, Op::Reg(y), _) = &self.f.blocks[b].ins[i].k { Some(*y) } else { None }) } else { None };
                            match src { Some(y) if s.has(y) && self.val(&s, &Op::Reg(y)).0 >= 0 && self.val(&s, &Op::Reg(y)).1 <= m => s.set_copy(d, y, 0), _ => s.set_rng(d, 0, m) }
                        }
                    }
                    CastK::SExt => { if *from == 1 { s.set_rng(d, -1, 0); } else { self.shift_by(&mut s, d, x, 0, true); } }
                    _ => { if let Op::Reg(r) = x { if s.has(*r) { s.set_copy(d, *r, 0); } else { s.add(d); } } else { s.add(d); } }
                }
            }
            Ins::Gep(ty, p, idx, _) => {
                let b = self.base[d as usize];
                let unit = match b { Some(Base::Coef) => 2, Some(Base::Out) => 1, _ => 0 };
                let sz = match ty { Ty::Int(w) => (*w / 8) as i64, _ => 0 };
                if unit == 0 || idx.len() != 1 || sz == 0 { if unit != 0 { self.unsup.insert(format!("address computation in line {}", line)); } s.add(d); }
                else if let Op::Reg(q) = p {
                    let iv = self.val(&s, &idx[0]);
                    if iv.0 == iv.1 && (iv.0 * sz) % unit == 0 { s.set_copy(d, *q, iv.0 * sz / unit); }
                    else if sz == unit {
                        let pv = s.rng(*q);
                        match (&idx[0], pv.0 == pv.1) {
                            (Op::Reg(r), true) => s.set_copy(d, *r, pv.0),
                            (Op::Reg(r), false) => { let (l, h) = s.sum(*q, *r); s.set_rng(d, l, h); if iv.1 < INF { s.dle(d, *q, iv.1); } if iv.0 > -INF { s.dle(*q, d, -iv.0); } }
                            _ => s.add(d),
                        }
                    } else { s.add(d); }
                } else { s.add(d); }
            }
            Ins::Load(ty, p) => {
                match self.addr(&s, p) {
                    Some((Base::Coef, r)) => {
                        let (l, h) = s.rng(r);
                        self.ob(ix, line, "oob-read", *ty == Ty::Int(16) && l >= 0 && h < NCOEF, || format!("a read of coefficient {}..{} is not shown to be inside the 4096 coefficients", l, h));
                        let (dl, dh) = s.diff(r, RD);
                        if self.rmw.contains(&d) {} else if (dl, dh) == (0, 0) { s.set_copy(TMP, RD, 1); s.forget(RD); s.rename(|x| if x == TMP { RD } else { x }); }
                        else if dl <= 0 && dh >= 0 { let mut t = s.clone(); t.dle(r, RD, 0); t.dle(RD, r, 0); if !t.bot { t.set_copy(TMP, RD, 1); t.forget(RD); t.rename(|x| if x == TMP { RD } else { x }); s.join(&t); } }
                        if let Ty::Int(w) = ty {
                            let (tl, th) = self.ty_rng(*w);
                            if self.rmw.contains(&d) { s.set_rng(d, tl, th); } else { for (l, h) in [(tl, -1), (0, 0), (1, th)] { let mut z = s.clone(); z.set_rng(d, l, h); self.ghost(&mut z, d); out.push(z); } return; }
                        }
                    }
                    Some((Base::Out, r)) => {
                        let (l, _) = s.rng(r);
                        let ok = l >= 0 && s.diff(r, 2).1 <= -1;
                        self.ob(ix, line, "oob-read", ok, || "a read of the output buffer is not shown to be inside it".to_string());
                        if let Ty::Int(w) = ty { let (tl, th) = self.ty_rng(*w); s.set_rng(d, tl, th); }
                    }
                    _ => { self.unsup.insert(format!("load in line {}", line)); s.add(d); }
                }
            }
            Ins::Store(ty, v, p) => {
                match self.addr(&s, p) {
                    Some((Base::Out, r)) => {
                        let (l, _) = s.rng(r);
                        self.ob(ix, line, "oob-write", *ty == Ty::Int(8) && l >= 0 && (s.diff(r, 2).1 <= -1 || s.diff(r, W).1 <= 0 && s.rng(REM).0 >= 1), || "a write to the output buffer is not shown to be inside the size given".to_string());
                        let (dl, dh) = s.diff(r, W);
                        self.ob(ix, line, "gap", dh <= 0, || "a byte may be written beyond the next free position".to_string());
                        self.lost(&s, v, ix, line);
                        let bump = |s: &mut Oct| { s.set_copy(TMP, W, 1); s.forget(W); s.rename(|x| if x == TMP { W } else { x }); s.set_copy(TMP, REM, -1); s.forget(REM); s.rename(|x| if x == TMP { REM } else { x }); };
                        if dh < 0 {} else if (dl, dh) == (0, 0) { bump(&mut s); } else {
                            let mut t = s.clone();
                            t.dle(r, W, 0); t.dle(W, r, 0);
                            if !t.bot { bump(&mut t); }
                            s.dle(r, W, -1);
                            if !t.bot { out.push(t); }
                        }
                    }
                    Some((Base::Coef, r)) => {
                        let (l, h) = s.rng(r);
                        self.ob(ix, line, "oob-coef", *ty == Ty::Int(16) && l >= 0 && h < NCOEF && self.ndiff.is_some(), || "a write to the coefficients is not shown to be inside them".to_string());
                    }
                    _ => { self.unsup.insert(format!("store in line {}", line)); }
                }
            }
            Ins::Select(c, x, y, ty) => {
                if *ty == Ty::Int(1) { out.push(s); return; }
                let mut t = s.clone();
                self.assume(&mut t, c, true, 0);
                if !t.bot { self.shift_by(&mut t, d, x, 0, true); }
                self.assume(&mut s, c, false, 0);
                if !s.bot { self.shift_by(&mut s, d, y, 0, true); }
                for z in [&mut t, &mut s] { if !z.bot { self.ghost(z, d); } }
                t.join(&s);
                out.push(t);
                return;
            }
            Ins::Call(c, a, _) => {
                let n = if let Callee::Direct(n) = c { n.clone() } else { String::new() };
                if n.starts_with("llvm.ctlz") {
                    let v = self.val(&s, &a[0].0);
                    let lg = |x: i64| 63 - x.leading_zeros() as i64;
                    let w = wd as i64;
                    if v.0 >= 1 && v.1 < 1 << 40 { s.set_rng(d, w - 1 - lg(v.1), w - 1 - lg(v.0)); } else { s.set_rng(d, 0, w); }
                } else if n.starts_with("llvm.smax") || n.starts_with("llvm.smin") || n.starts_with("llvm.umin") || n.starts_with("llvm.umax") {
                    let (x, y) = (&a[0].0, &a[1].0);
                    let (xv, yv) = (self.val(&s, x), self.val(&s, y));
                    if n.starts_with("llvm.u") && (xv.0 < 0 || yv.0 < 0) { let (tl, th) = self.ty_rng(wd); s.set_rng(d, tl, th); }
                    else {
                        let mx = n.contains("max");
                        let mut t = s.clone();
                        self.guard(&mut t, Pred::Sge, x, y, true);
                        if !t.bot { self.shift_by(&mut t, d, if mx { x } else { y }, 0, true); }
                        self.guard(&mut s, Pred::Slt, x, y, true);
                        if !s.bot { self.shift_by(&mut s, d, if mx { y } else { x }, 0, true); }
                        for z in [&mut t, &mut s] { if !z.bot { self.ghost(z, d); } }
                        t.join(&s);
                        out.push(t);
                        return;
                    }
                } else if n.starts_with("llvm.abs") {
                    let mut t = s.clone();
                    let x = &a[0].0;
                    self.guard(&mut t, Pred::Sge, x, &Op::C(0), true);
                    if !t.bot { self.shift_by(&mut t, d, x, 0, true); out.push(t); }
                    self.guard(&mut s, Pred::Slt, x, &Op::C(0), true);
                    if !s.bot { if let Op::Reg(r) = x { s.set_neg(d, *r, 0); } out.push(s); }
                    return;
                } else if n.starts_with("llvm.dbg") || n == "printf" || n == "puts" || n == "putchar" || n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") { if i.dst.is_some() { s.add(d); } }
                else { self.unsup.insert(format!("call of {} in line {}", n, line)); if i.dst.is_some() { s.add(d); } }
            }
            Ins::Alloca(..) => { self.unsup.insert(format!("memory cell in line {}", line)); s.add(d); }
            _ => { out.push(s); return; }
        }
        if i.dst.is_some() { self.ghost(&mut s, d); }
        out.push(s);
    }
    /// is this 16-bit value later widened and output (rather than a coefficient)?
    fn is_word(&self, d: u32) -> bool {
        self.f.blocks.iter().flat_map(|b| &b.ins).any(|i| matches!(&i.k, Ins::Cast(CastK::ZExt, 16, Op::Reg(r), _) if *r == d) || matches!(&i.k, Ins::Phi(_, v) if v.iter().any(|x| x.0 == Op::Reg(d))))
    }
    /// a byte taken from an accumulator must lie entirely inside it
    fn lost(&mut self, s: &Oct, v: &Op, ix: usize, line: u32) {
        if let Op::Reg(r) = v { if let Some((b, i)) = self.def[*r as usize] { if let Ins::Cast(CastK::Trunc, w, Op::Reg(x), 8) = &self.f.blocks[b].ins[i].k {
            if let Some((b, i)) = self.def[*x as usize] { if let Ins::Bin(Bin::LShr | Bin::AShr, _, _, k, _) = &self.f.blocks[b].ins[i].k {
                let kv = self.val(s, k);
                let w = *w as i64;
                self.ob(ix, line, "lost", kv.0 >= 0 && kv.1 <= w - 8, || format!("pending bits may already have been pushed out of the {}-bit accumulator when this byte is written (it is taken at bit {}..{})", w, kv.0, kv.1));
            } }
        } } }
    }
    fn key(&self, b: usize, pred: usize, s: &Oct) -> Key {
        let mut k: Key = vec![];
        if matches!(self.f.blocks[b].ins.last().map(|i| &i.k), Some(Ins::Ret(..))) { k.push((pred % 120) as i8); }
        for &r in &s.v { if self.cur.contains(&r) { let (l, h) = s.diff(W, r); k.push(if l == h && l.abs() <= 2 { l as i8 } else { 9 }); } }
        for &r in &s.v { if self.scan.contains(&r) { let (l, h) = s.rng(r); k.push(if l == h && l.abs() <= 64 { l as i8 } else { 99 }); } }
        for &r in &s.v { if self.sgn.contains(&r) { let (l, h) = s.rng(r); k.push(if l > 0 { 1 } else if h < 0 { -1 } else if (l, h) == (0, 0) { 0 } else { 9 }); } }
        k
    }
    /// state on the edge from block p to block b
    fn edge(&self, p: usize, b: usize, s: &Oct) -> Oct {
        let mut s = s.clone();
        let live: HashSet<u32> = self.f.livein[b].iter().cloned().collect();
        let mut phis = vec![];
        for i in &self.f.blocks[b].ins {
            if let (Ins::Phi(ty, v), Some(d)) = (&i.k, i.dst) {
                phis.push(d);
                if *ty == Ty::Int(1) || *ty == Ty::Other { continue; }
                let o = v.iter().find(|x| x.1 == p).map(|x| x.0.clone()).unwrap_or(Op::Undef);
                match o {
                    Op::Reg(r) if s.has(r) => { s.set_copy(TMP + d, r, 0); if self.q8.contains(&d) { if s.has(Q8 + r) { s.set_copy(TMP + Q8 + d, Q8 + r, 0); } else { let (l, h) = s.rng(r); s.set_rng(TMP + Q8 + d, fl8(l), fl8(h)); } } }
                    Op::C(k) => { s.set_rng(TMP + d, k, k); if self.q8.contains(&d) { s.set_rng(TMP + Q8 + d, fl8(k), fl8(k)); } }
                    _ => { let (l, h) = self.ty_rng(self.width[d as usize]); s.set_rng(TMP + d, l, h); if self.q8.contains(&d) { s.add(TMP + Q8 + d); } }
                }
            } else { break; }
        }
        s.keep(|x| x >= TMP || x == W || x == RD || x == REM || (x < W && x < 3 && x != 3 && (x == 2 || live.contains(&x)) || x < W && live.contains(&x)) && !phis.contains(&x) || x >= Q8 && x < TMP && live.contains(&(x - Q8)) && !phis.contains(&(x - Q8)));
        s.rename(|x| if x >= TMP { x - TMP } else { x });
        s
    }
    fn init(&self) -> Oct {
        let mut s = Oct::top();
        s.set_rng(0, 0, 0);
        s.set_rng(1, 0, 0);
        s.set_rng(2, i32::MIN as i64, i32::MAX as i64);
        if let Some((l, h)) = self.ndiff { s.set_rng(3, l, h); }
        for (i, t) in self.f.args.iter().enumerate().skip(if self.ndiff.is_some() { 4 } else { 3 }) { if let Ty::Int(w) = t { let (l, h) = self.ty_rng(*w); s.set_rng(i as u32, l, h); } }
        s.set_rng(W, 0, 0);
        s.set_rng(RD, 0, 0);
        s.set_copy(REM, 2, 0);
        s
    }
    fn flow(&mut self, b: usize, s: &Oct) -> Vec<(usize, Oct)> {
        let mut cur = vec![s.clone()];
        let f = self.f;
        let n = f.blocks[b].ins.len();
        let mut out = vec![];
        for (k, i) in f.blocks[b].ins.iter().enumerate() {
            if k + 1 == n { break; }
            cur = self.step(cur, i, b * 100000 + k);
            if cur.is_empty() { return out; }
        }
        let i = &f.blocks[b].ins[n - 1];
        for s in cur {
            match &i.k {
                Ins::Br(t) => out.push((*t, self.edge(b, *t, &s))),
                Ins::CondBr(c, t, e) => for (to, v) in [(*t, true), (*e, false)] { let mut z = s.clone(); self.assume(&mut z, c, v, 0); if !z.bot { let z = self.edge(b, to, &z); out.push((to, z)); } },
                Ins::Switch(v, _, dflt, cs) => {
                    let mut z = s.clone();
                    for (k, to) in cs { let mut y = s.clone(); self.guard(&mut y, Pred::Eq, v, &Op::C(*k), true); if !y.bot { let y = self.edge(b, *to, &y); out.push((*to, y)); } if !z.bot { self.guard(&mut z, Pred::Ne, v, &Op::C(*k), true); } }
                    if !z.bot { let z = self.edge(b, *dflt, &z); out.push((*dflt, z)); }
                }
                Ins::Ret(v, _) => {
                    let o = v.clone().unwrap_or(Op::Undef);
                    let (l, h) = self.val(&s, &o);
                    let ix = b * 100000 + n - 1;
                    if h < 0 { self.ob(ix, i.line, "ret", true, String::new); continue; }
                    let ok = match &o { Op::Reg(r) => s.diff(*r, W) == (0, 0), Op::C(k) => s.rng(W) == (*k, *k), _ => false };
                    self.ob(ix, i.line, "ret", ok, || format!("the value returned ({}..{}) is not shown to be the number of bytes written", l, h));
                    let rd = s.rng(RD);
                    // a coder that runs into the end of its buffer may stop early only by failing
                    self.ob(ix, i.line, "consume", rd == (NCOEF, NCOEF), || format!("success is returned although the coefficients read may be {}..{} of 4096", rd.0, rd.1));
                }
                _ => {}
            }
        }
        out
    }
    pub fn analyse(&mut self) {
        let f = self.f;
        let nb = f.blocks.len();
        // reverse postorder
        let mut rpo = vec![usize::MAX; nb];
        let mut post = vec![];
        let mut seen = vec![false; nb];
        let mut st = vec![(0usize, 0usize)];
        seen[0] = true;
        while let Some((b, k)) = st.pop() { if k < f.blocks[b].succ.len() { st.push((b, k + 1)); let t = f.blocks[b].succ[k]; if !seen[t] { seen[t] = true; st.push((t, 0)); } } else { post.push(b); } }
        for (i, &b) in post.iter().rev().enumerate() { rpo[b] = i; }
        let heads: HashSet<usize> = f.loops.iter().map(|l| l.header).collect();
        let mut states: Vec<BTreeMap<Key, Oct>> = vec![BTreeMap::new(); nb];
        let mut cnt: HashMap<(usize, Key), u32> = HashMap::new();
        states[0].insert(vec![], self.init());
        let mut work: BTreeSet<(usize, usize, Key)> = BTreeSet::new();
        work.insert((rpo[0], 0, vec![]));
        while let Some((r, b, k)) = work.iter().next().cloned() {
            work.remove(&(r, b, k.clone()));
            self.visits += 1;
            if self.visits > 60000 { self.unsup.insert("the analysis does not settle".into()); return; }
            let s = states[b][&k].clone();
            for (t, z) in self.flow(b, &s) {
                let mut kk = self.key(t, b, &z);
                if !states[t].contains_key(&kk) && states[t].len() >= 150 { kk = vec![99]; }
                let e = states[t].get_mut(&kk);
                let ch = match e {
                    None => { states[t].insert(kk.clone(), z); true }
                    Some(old) => {
                        if z.leq(old) { false } else {
                            let c = cnt.entry((t, kk.clone())).or_insert(0);
                            *c += 1;
                            let mut j = old.clone();
                            j.join(&z);
                            if heads.contains(&t) && *c > 4 && !self.f.blocks[t].ins.iter().any(|i| i.dst.map_or(false, |d| self.scan.contains(&d))) || *c > 100 { let mut w = old.clone(); w.widen(&j, if *c > 1500 { &[] } else { &self.th }); w.close(); for x in w.v.clone() { if x < W { let (l, h) = self.ty_rng(self.width[x as usize]); if l > -INF { w.ge(x, l); w.le(x, h); } } else if x == W || x == RD { w.ge(x, 0); } } *old = w; } else { *old = j; }
                            if std::env::var("NUMTR").map_or(false, |x| x == t.to_string()) { eprintln!("{} {:?} c={} {}", t, kk, c, old.v.iter().filter(|&&x| x <= RD).map(|&x| format!("{}{}={:?}", if x == W { "W" } else if x == RD { "R" } else { "r" }, x & 0xffffff, old.rng(x))).collect::<Vec<_>>().join(" ")); }
                            true
                        }
                    }
                };
                if ch { work.insert((rpo[t], t, kk)); }
            }
        }
        // descending passes
        for _ in 0..3 {
            let mut next: Vec<BTreeMap<Key, Oct>> = vec![BTreeMap::new(); nb];
            next[0].insert(vec![], self.init());
            for b in 0..nb { for (_, s) in states[b].clone() { for (t, z) in self.flow(b, &s) {
                let mut kk = self.key(t, b, &z);
                if !states[t].contains_key(&kk) { if states[t].contains_key(&vec![99i8]) { kk = vec![99]; } }
                match next[t].get_mut(&kk) { None => { next[t].insert(kk, z); } Some(o) => o.join(&z) }
            } } }
            // keep only what is below the previous solution
            let mut ok = true;
            for b in 0..nb { for s in next[b].values() { if !states[b].values().any(|o| s.leq(o)) { ok = false; } } }
            if !ok { break; }
            states = next;
        }
        self.disj = states.iter().map(|m| m.len()).sum();
        self.check = true;
        for b in 0..nb { for (_, s) in states[b].clone() { self.flow(b, &s); } }
        self.check = false;
        if std::env::var("NUMDBG").is_ok() { for b in 0..nb { for (k, s) in &states[b] { eprintln!("block {} {} key {:?}: {}", b, f.blocks[b].name, k, s.v.iter().filter(|&&x| x < W || x == W || x == RD).map(|&x| format!("{}{}={:?}", if x == W { "W" } else if x == RD { "R" } else { "r" }, x & 0xffffff, s.rng(x))).collect::<Vec<_>>().join(" ")); } } }
    }
}

/// One coefficient array and buffer size followed through the same program with single values instead of
/// bounds: turns an open obligation into a finding with the input that breaks it.
pub struct Trace { pub bad: Option<(&'static str, u32, String)>, pub stores: Vec<(usize, i64)>, pub ret: i64, pub steps: u64, pub out: Vec<u8> }
fn sx(w: u32, v: i64) -> i64 { if w == 0 || w >= 64 { v } else { (v << (64 - w)) >> (64 - w) } }
fn zx(w: u32, v: i64) -> i64 { if w == 0 || w >= 64 { v } else { v & ((1i64 << w) - 1) } }
impl<'a> An<'a> {
    pub fn follow(&self, coef: &[i16], size: i64, nd: i64) -> Trace {
        let f = self.f;
        let mut c: Vec<i64> = coef.iter().map(|&x| x as i64).collect();
        let mut r = vec![0i64; f.nregs];
        let mut mem: Vec<u8> = vec![];
        let (mut w, mut rd) = (0i64, 0i64);
        let mut t = Trace { bad: None, stores: vec![], ret: -1, steps: 0, out: vec![] };
        r[2] = size;
        if f.args.len() > 3 { r[3] = nd; }
        let (mut b, mut from) = (0usize, usize::MAX);
        macro_rules! bad { ($k:expr, $l:expr, $($m:tt)*) => { { t.bad = Some(($k, $l, format!($($m)*))); return t; } } }
        'blocks: loop {
            let blk = &f.blocks[b];
            let mut ph = vec![];
            for i in &blk.ins { if let (Ins::Phi(_, v), Some(d)) = (&i.k, i.dst) { let o = v.iter().find(|x| x.1 == from).map(|x| &x.0); ph.push((d, match o { Some(Op::Reg(q)) => r[*q as usize], Some(Op::C(k)) => *k, _ => 0 })); } else { break; } }
            for (d, v) in ph { r[d as usize] = v; }
            for i in &blk.ins {
                t.steps += 1;
                if t.steps > 40_000_000 { bad!("ret", i.line, "does not return within 40 million steps"); }
                let g = |o: &Op| match o { Op::Reg(q) => r[*q as usize], Op::C(k) => *k, _ => 0 };
                let line = i.line;
                let v = match &i.k {
                    Ins::Phi(..) => continue,
                    Ins::Bin(op, n, x, y, _) => {
                        let (a, e) = (g(x), g(y));
                        match op {
                            Bin::Add => a.wrapping_add(e), Bin::Sub => a.wrapping_sub(e), Bin::Mul => a.wrapping_mul(e),
                            Bin::SDiv => { if e == 0 { bad!("shift", line, "division by zero"); } a / e }
                            Bin::SRem => { if e == 0 { bad!("shift", line, "division by zero"); } a % e }
                            Bin::UDiv => { if e == 0 { bad!("shift", line, "division by zero"); } zx(*n, a) / zx(*n, e) }
                            Bin::URem => { if e == 0 { bad!("shift", line, "division by zero"); } zx(*n, a) % zx(*n, e) }
                            Bin::Shl | Bin::LShr | Bin::AShr => {
                                let k = zx(*n, e);
                                if k < 0 || k >= *n as i64 { bad!("shift", line, "a {}-bit value is shifted by {}", n, sx(*n, e)); }
                                let s3 = *y == Op::C(3) || k == 3;
                                if s3 { if let Op::Reg(q) = x { if self.par.contains(q) && !(0..=80).contains(&a) { bad!("param", line, "the adaptation parameter reaches {}", a); } } }
                                match op { Bin::Shl => a.wrapping_shl(k as u32), Bin::LShr => ((zx(*n, a) as u64) >> k) as i64, _ => a >> k }
                            }
                            Bin::And => a & e, Bin::Or => a | e, Bin::Xor => a ^ e,
                        }
                    }
                    Ins::Icmp(p, ty, x, y) => {
                        let n = if let Ty::Int(n) = ty { *n } else { 64 };
                        let (a, e) = (g(x), g(y));
                        let (ua, ue) = (zx(n, a) as u64, zx(n, e) as u64);
                        (match p { Pred::Eq => ua == ue, Pred::Ne => ua != ue, Pred::Slt => a < e, Pred::Sle => a <= e, Pred::Sgt => a > e, Pred::Sge => a >= e, Pred::Ult => ua < ue, Pred::Ule => ua <= ue, Pred::Ugt => ua > ue, Pred::Uge => ua >= ue }) as i64
                    }
                    Ins::Cast(k, a, x, n) => {
                        let v = g(x);
                        if let (CastK::Trunc, 32, 16) = (k, *a, *n) { if self.is_word(i.dst.unwrap()) && !(-32768..=65535).contains(&v) { bad!("trunc", line, "the {} bits put out together do not fit the 16-bit word they are put in", 64 - v.leading_zeros()); } }
                        match k { CastK::ZExt => zx(*a, v), _ => v }
                    }
                    Ins::Load(ty, Op::Reg(p)) => match self.base[*p as usize] {
                        Some(Base::Coef) => {
                            let a = r[*p as usize];
                            if a < 0 || a >= NCOEF { bad!("oob-read", line, "coefficient {} is read", a); }
                            if a == rd && !i.dst.map_or(false, |d| self.rmw.contains(&d)) { rd += 1; }
                            c[a as usize]
                        }
                        _ => { let a = r[*p as usize]; if a < 0 || a >= size || *ty != Ty::Int(8) { bad!("oob-read", line, "byte {} of a buffer of {} bytes is read", a, size); } mem.get(a as usize).map_or(0x5a, |&x| x as i64) }
                    },
                    Ins::Store(_, v, Op::Reg(p)) => {
                        let a = r[*p as usize];
                        match self.base[*p as usize] {
                            Some(Base::Coef) => { if a < 0 || a >= NCOEF { bad!("oob-coef", line, "coefficient {} is written", a); } c[a as usize] = sx(16, g(v)); }
                            _ => {
                                if a < 0 || a >= size { bad!("oob-write", line, "byte {} of a buffer of {} bytes is written", a, size); }
                                if a > w { bad!("gap", line, "byte {} is written although byte {} has not been", a, w); }
                                if let Op::Reg(q) = v { if let Some((n, k)) = self.taken(*q) { let k = match k { Op::Reg(q) => r[q as usize], Op::C(k) => k, _ => 0 }; if k < 0 || k > n - 8 { bad!("lost", line, "the byte written is taken at bit {} of a {}-bit accumulator, part of it is already lost", k, n); } } }
                                t.stores.push((b, a));
                                if a == w { w += 1; }
                                while mem.len() <= a as usize { mem.push(0x5a); }
                                mem[a as usize] = g(v) as u8;
                            }
                        }
                        continue;
                    }
                    Ins::Gep(ty, p, ix, _) => {
                        let d = i.dst.unwrap();
                        let unit = match self.base[d as usize] { Some(Base::Coef) => 2, _ => 1 };
                        let sz = match ty { Ty::Int(n) => (*n / 8) as i64, _ => 1 };
                        g(p) + ix.first().map_or(0, |o| g(o)) * sz / unit
                    }
                    Ins::Select(q, x, y, _) => if g(q) & 1 != 0 { g(x) } else { g(y) },
                    Ins::Call(q, a, ty) => {
                        let n = if let Callee::Direct(n) = q { n.as_str() } else { "" };
                        let wd = if let Ty::Int(k) = ty { *k } else { 32 };
                        let x = a.first().map_or(0, |o| g(&o.0));
                        let y = a.get(1).map_or(0, |o| g(&o.0));
                        if n.starts_with("llvm.ctlz") { let u = zx(wd, x) as u64; if u == 0 { wd as i64 } else { wd as i64 - (64 - u.leading_zeros() as i64) } }
                        else if n.starts_with("llvm.smax") { x.max(y) } else if n.starts_with("llvm.smin") { x.min(y) }
                        else if n.starts_with("llvm.umax") { if zx(wd, x) as u64 >= zx(wd, y) as u64 { x } else { y } } else if n.starts_with("llvm.umin") { if zx(wd, x) as u64 <= zx(wd, y) as u64 { x } else { y } }
                        else if n.starts_with("llvm.abs") { x.abs() }
                        else { 0 }
                    }
                    Ins::Br(to) => { from = b; b = *to; continue 'blocks; }
                    Ins::CondBr(q, x, y) => { let k = g(q) & 1 != 0; from = b; b = if k { *x } else { *y }; continue 'blocks; }
                    Ins::Switch(q, _, d, cs) => { let k = g(q); from = b; b = cs.iter().find(|z| z.0 == k).map_or(*d, |z| z.1); continue 'blocks; }
                    Ins::Ret(v, _) => {
                        t.out = mem.clone();
                        let k = v.as_ref().map_or(0, |o| g(o));
                        t.ret = k;
                        if k >= 0 {
                            if k != w { bad!("ret", line, "{} is returned although {} bytes were written", k, w); }
                            if rd != NCOEF { bad!("consume", line, "success is returned although only {} of the 4096 coefficients were read", rd); }
                        }
                        return t;
                    }
                    _ => return t,
                };
                if let Some(d) = i.dst { r[d as usize] = if self.base[d as usize].is_some() { v } else { sx(self.width[d as usize], v) }; if self.width[d as usize] == 1 { r[d as usize] = v & 1; } }
            }
            return t;
        }
    }
    /// the accumulator width and bit position a stored byte is taken from
    fn taken(&self, v: u32) -> Option<(i64, Op)> {
        let (b, i) = self.def[v as usize]?;
        if let Ins::Cast(CastK::Trunc, w, Op::Reg(x), 8) = &self.f.blocks[b].ins[i].k { let (b, i) = self.def[*x as usize]?; if let Ins::Bin(Bin::LShr | Bin::AShr, _, _, k, _) = &self.f.blocks[b].ins[i].k { return Some((*w as i64, k.clone())); } }
        None
    }
    /// looks for an input that breaks one of the open obligations
    pub fn witness(&self, open: &HashSet<&'static str>) -> Vec<(&'static str, u32, String)> {
        let mut out: Vec<(&'static str, u32, String)> = vec![];
        let mut seen: HashSet<(&'static str, u32)> = HashSet::new();
        let nds: &[i64] = if self.f.args.len() > 3 { &[0, 64] } else { &[0] };
        let t0 = std::time::Instant::now();
        let mut all: Vec<(Vec<i16>, String)> = patterns();
        if self.f.args.len() > 3 { all.push((vec![5; 4096], "differences".into())); }
        for (k, (c, name)) in all.iter().enumerate() {
            for &nd in if k == all.len() - 1 && nds.len() > 1 { &[1i64, 2, 81, 4095, 4096][..] } else { nds } {
                if t0.elapsed().as_secs() > 60 { return out; }
                let big = 1 << 20;
                let mut sizes = vec![big];
                let mut done = HashSet::new();
                let mut n = 0;
                while n < sizes.len() {
                    let s = sizes[n];
                    n += 1;
                    if !done.insert(s) { continue; }
                    let t = self.follow(c, s, nd);
                    if let Some((k, l, m)) = &t.bad { if open.contains(k) && seen.insert((k, *l)) { out.push((k, *l, format!("{}: coefficients \"{}\", buffer of {} bytes{}", m, name, s, if self.f.args.len() > 3 { format!(", {} differenced", nd) } else { String::new() }))); } }
                    if s == big {
                        sizes.extend([0, 1, 2, 3, 4, 5, -1]);
                        let mut per: HashMap<usize, u32> = HashMap::new();
                        for (b, p) in t.stores.iter().rev() { let e = per.entry(*b).or_insert(0); if *e < 3 { *e += 1; sizes.push(*p); sizes.push((*p - 1).max(0)); sizes.push(p + 1); } }
                        let mut per: HashMap<usize, u32> = HashMap::new();
                        for (b, p) in &t.stores { let e = per.entry(*b).or_insert(0); if *e < 4 { *e += 1; sizes.push(*p); sizes.push(p + 1); } }
                        if t.ret > 0 { sizes.push(t.ret); sizes.push(t.ret - 1); }
                    }
                }
            }
            if out.len() >= 4 { break; }
        }
        out
    }
}
pub fn patterns() -> Vec<(Vec<i16>, String)> {
    let mut v: Vec<(Vec<i16>, String)> = vec![];
    let mut add = |n: &str, f: &mut dyn FnMut(usize) -> i64| v.push(((0..4096).map(|i| f(i).clamp(-32768, 32767) as i16).collect(), n.to_string()));
    for k in [0i64, 1, -1, 2, 32767, -32768, 255] { add(&format!("all {}", k), &mut |_| k); }
    add("1, -1 alternating", &mut |i| if i % 2 == 0 { 1 } else { -1 });
    add("32767, -32768 alternating", &mut |i| if i % 2 == 0 { 32767 } else { -32768 });
    add("0, -32768 alternating", &mut |i| if i % 2 == 0 { 0 } else { -32768 });
    add("-32768 first, then zero", &mut |i| if i == 0 { -32768 } else { 0 });
    add("zero, -32768 last", &mut |i| if i == 4095 { -32768 } else { 0 });
    add("zero, 1 last", &mut |i| if i == 4095 { 1 } else { 0 });
    add("zero, 1 second to last", &mut |i| if i == 4094 { 1 } else { 0 });
    add("ramp", &mut |i| i as i64 * 8 - 16384);
    for p in [3usize, 5, 7, 9, 17, 33, 65, 257, 1025, 2049] { add(&format!("-32768 every {}", p), &mut |i| if i % p == p - 1 { -32768 } else { 0 }); add(&format!("1 every {}", p), &mut |i| if i % p == p - 1 { 1 } else { 0 }); }
    add("half zero, half -32768", &mut |i| if i < 2048 { 0 } else { -32768 });
    add("half -32768, half zero", &mut |i| if i < 2048 { -32768 } else { 0 });
    for m in [1i64, 2, 3, 8, 40, 300, 3000, 32768] { for z in [0u64, 1, 3, 9] {
        let mut x = 88172645463325252u64 ^ (m as u64) << 20 ^ z;
        let mut rnd = move || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x >> 11 };
        add(&format!("noise of {} with {} in {} zero", m, z, z + 1), &mut |_| { let k = (rnd() % (2 * m as u64 + 1)) as i64 - m; if rnd() % (z + 1) != 0 { 0 } else { k } });
    } }
    let mut x = 0x9e3779b97f4a7c15u64;
    let mut rnd = move || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x >> 11 };
    let mut cur = (0i64, 0u64);
    add("bursts", &mut |_| { if cur.1 == 0 { cur = (rnd() as i64 % 16, 1 + rnd() % 40); } cur.1 -= 1; if cur.0 < 4 { 0 } else { let m = 1i64 << cur.0; rnd() as i64 % (2 * m) - m } });
    v
}
