//! Is one function, compiled for two targets, the same function?  A bisimulation of the two control-flow graphs:
//! blocks are paired from the entries on, memory operations, calls and branches are paired in order, and values are
//! paired by structure, phis coinductively.  Only the width of addresses may differ: an index widened to the
//! address width is the index, and a pointer difference may have either width.
use crate::ir::*;
use std::collections::HashMap;

pub struct Same<'a> {
    f: &'a Func,
    g: &'a Func,
    df: HashMap<u32, (usize, usize)>,
    dg: HashMap<u32, (usize, usize)>,
    bm: HashMap<usize, usize>,
    br: HashMap<usize, usize>,
    vm: HashMap<(u32, u32), ()>,
    todo: Vec<(usize, usize)>,
    phis: Vec<((usize, usize), (usize, usize))>,
    pub pairs: u64,
    pub why: Option<(u32, String)>,
}
fn defs(f: &Func) -> HashMap<u32, (usize, usize)> {
    let mut m = HashMap::new();
    for (b, k) in f.blocks.iter().enumerate() { for (i, x) in k.ins.iter().enumerate() { if let Some(d) = x.dst { m.insert(d, (b, i)); } } }
    m
}
fn strip(f: &Func, d: &HashMap<u32, (usize, usize)>, o: &Op) -> Op {
    let mut o = o.clone();
    loop {
        let r = match &o { Op::Reg(r) => *r, _ => return o };
        match d.get(&r).map(|&(b, i)| &f.blocks[b].ins[i].k) {
            Some(Ins::Cast(CastK::SExt | CastK::ZExt, 32, x, 64)) | Some(Ins::Cast(CastK::Trunc, 64, x, 32)) => o = x.clone(),
            _ => return o,
        }
    }
}
impl<'a> Same<'a> {
    pub fn new(f: &'a Func, g: &'a Func) -> Self { Same { f, g, df: defs(f), dg: defs(g), bm: HashMap::new(), br: HashMap::new(), vm: HashMap::new(), todo: vec![], phis: vec![], pairs: 0, why: None } }
    fn no(&mut self, line: u32, m: &str) -> bool { if self.why.is_none() { self.why = Some((line, m.to_string())); } false }
    fn block(&mut self, a: usize, b: usize) -> bool {
        match (self.bm.get(&a), self.br.get(&b)) {
            (Some(&x), Some(&y)) => x == b && y == a,
            (None, None) => { self.bm.insert(a, b); self.br.insert(b, a); self.todo.push((a, b)); true }
            _ => false,
        }
    }
    fn wide(&self, side: bool, o: &Op) -> bool {
        let (f, d) = if side { (self.f, &self.df) } else { (self.g, &self.dg) };
        match o { Op::Reg(r) => matches!(d.get(r).map(|&(b, i)| &f.blocks[b].ins[i].k), Some(Ins::Cast(CastK::PtrToInt, ..))), _ => false }
    }
    fn diff(&self, side: bool, o: &Op) -> bool {
        let (f, d) = if side { (self.f, &self.df) } else { (self.g, &self.dg) };
        match o { Op::Reg(r) => matches!(d.get(r).map(|&(b, i)| &f.blocks[b].ins[i].k), Some(Ins::Bin(Bin::Sub, _, x, y, _)) if self.wide(side, x) && self.wide(side, y)), _ => false }
    }
    fn val(&mut self, x: &Op, y: &Op) -> bool {
        let (x, y) = (strip(self.f, &self.df, x), strip(self.g, &self.dg, y));
        let (p, q) = match (&x, &y) {
            (Op::Reg(p), Op::Reg(q)) => (*p, *q),
            (Op::Null | Op::Zero | Op::C(0), Op::Null | Op::Zero | Op::C(0)) => return true,
            _ => return x == y,
        };
        if self.vm.contains_key(&(p, q)) { return true; }
        self.vm.insert((p, q), ());
        self.pairs += 1;
        let (a, b) = match (self.df.get(&p), self.dg.get(&q)) {
            (Some(&a), Some(&b)) => (a, b),
            (None, None) => return p == q,
            _ => return false,
        };
        let (i, j) = (self.f.blocks[a.0].ins[a.1].clone(), self.g.blocks[b.0].ins[b.1].clone());
        let ok = match (&i.k, &j.k) {
            (Ins::Phi(t, u), Ins::Phi(s, v)) => { if t != s || u.len() != v.len() { false } else { self.phis.push((a, b)); true } }
            // a memory operation or call is paired where it stands
            (Ins::Load(..), Ins::Load(..)) | (Ins::Call(..), Ins::Call(..)) => { self.phis.push((a, b)); true }
            (Ins::Bin(o, n, x, y, _), Ins::Bin(o2, m, x2, y2, _)) => {
                let ptr = *o == Bin::Sub && self.diff(true, &Op::Reg(p)) && self.diff(false, &Op::Reg(q));
                let sized = matches!(o, Bin::SDiv | Bin::AShr) && self.diff(true, x) && self.diff(false, x2);
                o == o2 && (n == m || ptr || sized) && self.val(x, x2) && self.val(y, y2)
            }
            (Ins::Icmp(o, t, x, y), Ins::Icmp(o2, s, x2, y2)) => { o == o2 && (t == s || (self.diff(true, x) && self.diff(false, x2))) && self.val(x, x2) && self.val(y, y2) }
            (Ins::Cast(k, a, x, n), Ins::Cast(k2, a2, x2, n2)) => k == k2 && (*k == CastK::PtrToInt || (a == a2 && n == n2)) && self.val(x, x2),
            (Ins::Gep(t, x, u, _), Ins::Gep(s, x2, v, _)) => t == s && u.len() == v.len() && self.val(x, x2) && u.iter().zip(v).all(|(x, y)| self.val(x, y)),
            (Ins::Select(c, x, y, t), Ins::Select(c2, x2, y2, s)) => t == s && self.val(c, c2) && self.val(x, x2) && self.val(y, y2),
            (Ins::Alloca(t, _), Ins::Alloca(s, _)) => t == s,
            _ => false,
        };
        if !ok { return self.no(i.line, "an operation differs"); }
        true
    }
    fn effects(f: &Func, b: usize) -> Vec<usize> {
        f.blocks[b].ins.iter().enumerate().filter(|(_, i)| match &i.k {
            Ins::Load(..) | Ins::Store(..) => true,
            Ins::Call(Callee::Direct(n), _, _) => !n.starts_with("llvm.dbg") && !n.starts_with("llvm.lifetime"),
            Ins::Call(..) => true,
            _ => false,
        }).map(|x| x.0).collect()
    }
    pub fn run(&mut self) -> bool {
        if self.f.args.len() != self.g.args.len() { return self.no(self.f.line, "the parameters differ"); }
        if !self.block(0, 0) { return false; }
        let mut at: HashMap<(usize, usize), (usize, usize)> = HashMap::new();
        while let Some((a, b)) = self.todo.pop() {
            let (ea, eb) = (Self::effects(self.f, a), Self::effects(self.g, b));
            let last = self.f.blocks[a].ins.last().cloned().unwrap();
            if ea.len() != eb.len() { return self.no(last.line, "the memory operations differ"); }
            for (&x, &y) in ea.iter().zip(&eb) {
                at.insert((a, x), (b, y));
                let (i, j) = (self.f.blocks[a].ins[x].clone(), self.g.blocks[b].ins[y].clone());
                let ok = match (&i.k, &j.k) {
                    (Ins::Load(t, p), Ins::Load(s, q)) => t == s && self.val(p, q),
                    (Ins::Store(t, v, p), Ins::Store(s, w, q)) => t == s && self.val(p, q) && self.val(v, w),
                    (Ins::Call(c, u, t), Ins::Call(d, v, s)) => {
                        let same = match (c, d) { (Callee::Direct(m), Callee::Direct(n)) => m == n, (Callee::Ind(m), Callee::Ind(n)) => self.val(m, n), _ => false };
                        // counting the zeros of zero, which C leaves open, is left open on some targets only
                        let n = match c { Callee::Direct(m) if m.starts_with("llvm.ctlz") || m.starts_with("llvm.cttz") => 1, _ => u.len() };
                        same && t == s && u.len() == v.len() && u.iter().zip(v).take(n).all(|(x, y)| self.val(&x.0, &y.0))
                    }
                    _ => false,
                };
                if !ok { return self.no(i.line, "a memory operation differs"); }
            }
            let l2 = self.g.blocks[b].ins.last().cloned().unwrap();
            let ok = match (&last.k, &l2.k) {
                (Ins::Br(x), Ins::Br(y)) => self.block(*x, *y),
                (Ins::CondBr(c, x, y), Ins::CondBr(d, z, w)) => self.val(c, d) && self.block(*x, *z) && self.block(*y, *w),
                (Ins::Switch(c, n, x, u), Ins::Switch(d, m, y, v)) => n == m && u.len() == v.len() && self.val(c, d) && self.block(*x, *y) && u.iter().zip(v).all(|(p, q)| p.0 == q.0 && self.block(p.1, q.1)),
                (Ins::Ret(None, _), Ins::Ret(None, _)) | (Ins::Unreachable, Ins::Unreachable) => true,
                (Ins::Ret(Some(x), _), Ins::Ret(Some(y), _)) => self.val(x, y),
                _ => false,
            };
            if !ok { return self.no(last.line, "the control flow differs"); }
        }
        // the values assumed equal
        while let Some((a, b)) = self.phis.pop() {
            let (i, j) = (self.f.blocks[a.0].ins[a.1].clone(), self.g.blocks[b.0].ins[b.1].clone());
            match (&i.k, &j.k) {
                (Ins::Phi(_, u), Ins::Phi(_, v)) => {
                    if self.bm.get(&a.0) != Some(&b.0) { return self.no(i.line, "a value from another place is used"); }
                    for (x, p) in u {
                        let q = match self.bm.get(p) { Some(&q) => q, None => continue };
                        let y = match v.iter().find(|y| y.1 == q) { Some(y) => y.0.clone(), None => return self.no(i.line, "the control flow differs") };
                        if !self.val(x, &y) { return self.no(i.line, "a value carried along differs"); }
                    }
                }
                _ => if at.get(&a) != Some(&b) { return self.no(i.line, "a value from another place is used"); },
            }
        }
        true
    }
}
