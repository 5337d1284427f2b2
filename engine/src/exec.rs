//! Abstract interpreter over the IR: joins at immediate post-dominators, decided loops are unrolled,
//! undecided loops are summarised by induction variables and a Houdini-style linear invariant.
use crate::asm;
use crate::ir::*;
use crate::state::*;
use crate::term::*;
use crate::fix::{bor, merge_v};
use std::cell::Cell as StdCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

thread_local! { static NLP: StdCell<u64> = StdCell::new(0); }
pub fn count_lp() { NLP.with(|c| c.set(c.get() + 1)); }
pub fn lp_count() -> u64 { NLP.with(|c| c.get()) }

#[derive(Debug, Clone)]
pub enum E { Unsup(String), Abandon(u32) }
pub type R<X> = Result<X, E>;
pub fn unsup<X>(s: impl Into<String>) -> R<X> { Err(E::Unsup(s.into())) }

#[derive(Clone, Debug)]
pub struct Viol { pub kind: &'static str, pub func: String, pub file: String, pub line: u32, pub msg: String, pub exact: bool }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ctx { Top, Unroll(u32), Fix }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cut { Plain1, Plain3, Diff1, Diff3, Alpha, Comp }
/// entropy-coder contract A1: a plane never takes more than this many bytes
pub const A1: i64 = 16384;
/// the alpha coder never produces more than two bytes per pixel and two more
pub const A2: i64 = 2 * 4096 + 2;
#[derive(Clone, Copy, Debug, Default)]
pub struct Layout { pub ok: bool, pub s_p: i64, pub s_data: i64, pub s_size: i64, pub rb: i64, pub enc: i64, pub dwt1: i64 }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Loc { Reg(u32), Mem(u32, u32), RegOff(u32), MemOff(u32, u32) }

pub struct LoopRec {
    pub uid: u32,
    pub func: u32,
    pub line: u32,
    pub depth: usize,
    pub head: State,
    pub n: Option<T>,
    pub gens: Vec<(Loc, T)>,
    pub entries: Vec<State>,
    pub backs: Vec<State>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats { pub steps: u64, pub forks: u64, pub merges: u64, pub unrolled: u64, pub fixes: u64, pub oblig: u64, pub calls: u64, pub invs: u64 }

pub struct Machine<'a> {
    pub legacy: bool,
    pub cut_comps: bool,
    pub gepc: HashMap<usize, Rc<Vec<(i64, i64)>>, Fx>,
    pub m: &'a Module,
    pub fidx: HashMap<String, u32>,
    pub fnames: Vec<String>,
    pub funcs: Vec<Option<&'a Func>>,
    pub regw: Vec<Vec<u32>>,
    pub gobj: HashMap<String, u32>,
    pub nobj: u32,
    pub viols: Vec<Viol>,
    pub exact: bool,
    pub vset: HashSet<(String, String, u32)>,
    pub mute: u32,
    pub cuts: HashMap<String, Cut>,
    pub loops: HashMap<u32, LoopRec>,
    pub nloop: u32,
    pub ctx: Vec<Ctx>,
    pub stats: Stats,
    pub fixcount: u64,
    pub fork_rec: Vec<Vec<T>>,
    pub log_out: bool,
    pub visited: HashSet<u32>,
    pub asm: Option<Rc<asm::Prog>>,
    pub cpu: (bool, bool),
    pub externs: HashSet<String>,
    pub line: u32,
    pub lazy: HashMap<(u32, T), u32>,
    pub rb_size: i64,
    pub table_obj_pref: Rc<str>,
    pub ncoder: u32,
    pub step_limit: u64,
    pub tok: u32,
    pub noleak: bool,
    pub check_shift: bool,
    pub coder_variant: u32,
    pub alloc_may_fail: bool,
    pub trace: bool,
    pub sink: Vec<(String, State, Vec<V>)>,
    pub watch: HashSet<String>,
    pub loops_tok: HashMap<u32, (usize, usize)>,
    pub lazy_nn: HashMap<u32, T>,
    pub peel: usize,
    pub pix: Option<Pix>,
    pub asm_loc: Option<(String, String, u32)>,
    pub asm_align: i64,
    pub asm_seen: HashSet<u64>,
    pub asm_funcs: HashSet<String>,
    pub cpuid_ok: bool,
    pub layout: Layout,
    pub alloc_nn: HashMap<u32, T>,
}
/// footprint of the pixel buffer: reads must stay in the rectangle of one tile-list entry
#[derive(Clone, Copy, Debug)]
pub struct Pix { pub obj: u32, pub tiles: u32, pub stride: T, pub bpp: i64, pub planar: i64, pub cx: i64, pub cy: i64 }
#[derive(Default)]
pub struct Out { pub stops: Vec<(usize, State)>, pub rets: Vec<(State, V)> }

impl<'a> Machine<'a> {
    pub fn new(m: &'a Module) -> Machine<'a> {
        let mut names: Vec<String> = m.funcs.keys().cloned().collect();
        names.sort();
        let mut d: Vec<String> = m.decls.iter().cloned().collect();
        d.sort();
        names.extend(d);
        let fidx: HashMap<String, u32> = names.iter().enumerate().map(|(i, n)| (n.clone(), i as u32)).collect();
        let funcs: Vec<Option<&Func>> = names.iter().map(|n| m.funcs.get(n)).collect();
        let regw = funcs.iter().map(|f| match f { None => vec![], Some(f) => {
            let mut w = vec![0u32; f.nregs];
            for (i, t) in f.args.iter().enumerate() { if let Ty::Int(n) = t { w[i] = *n; } }
            for b in &f.blocks { for i in &b.ins { if let Some(d) = i.dst { w[d as usize] = match &i.k {
                Ins::Bin(_, n, ..) => *n, Ins::Icmp(..) => 1, Ins::Cast(_, _, _, n) => *n, Ins::Load(Ty::Int(n), _) => *n, Ins::Phi(Ty::Int(n), _) => *n,
                Ins::Select(_, _, _, Ty::Int(n)) => *n, Ins::Call(_, _, Ty::Int(n)) => *n, _ => 0 }; } } }
            w
        } }).collect();
        Machine { legacy: false, cut_comps: false, gepc: HashMap::default(), m, fidx, fnames: names, funcs, regw, gobj: HashMap::new(), nobj: 1, viols: vec![], vset: HashSet::new(), exact: false, mute: 0, cuts: HashMap::new(), loops: HashMap::new(), nloop: 0, ctx: vec![Ctx::Top], stats: Stats::default(), fixcount: 0, fork_rec: vec![], log_out: true, visited: HashSet::new(), asm: None, cpu: (false, false), externs: HashSet::new(), line: 0, lazy: HashMap::new(), rb_size: 0, table_obj_pref: "history".into(), ncoder: 0, step_limit: 400_000_000, tok: 0, noleak: false, check_shift: false, coder_variant: 0, alloc_may_fail: true, trace: false, sink: vec![], watch: HashSet::new(), loops_tok: HashMap::new(), lazy_nn: HashMap::new(), peel: 0, pix: None, asm_loc: None, asm_align: 8, asm_seen: HashSet::new(), asm_funcs: HashSet::new(), cpuid_ok: false, layout: Layout::default(), alloc_nn: HashMap::new() }
    }
    pub fn newobj(&mut self, kind: Kind, name: &str, size: T, def: Def) -> Obj {
        let id = self.nobj;
        self.nobj += 1;
        Obj { id, kind, name: name.into(), size, live: true, def, pages: vec![], tables: Rc::new(vec![]), tabw: Rc::new(vec![]), tab_open: false, freed_at: 0, align: 16 }
    }
    pub fn cur_func(&self, st: &State) -> (String, String) {
        match st.frames.last() { Some(f) => { let n = self.fnames[f.func as usize].clone(); let file = self.funcs[f.func as usize].map(|x| x.file.clone()).unwrap_or_default(); (n, file) } None => (String::new(), String::new()) }
    }
    pub fn viol(&mut self, st: &State, kind: &'static str, msg: String) {
        if self.mute > 0 { return; }
        let (mut func, mut file) = self.cur_func(st);
        let mut line = self.line;
        if let Some((s, f, l)) = &self.asm_loc { func = s.clone(); file = f.clone(); line = *l; }
        if self.vset.insert((kind.to_string(), func.clone(), line)) {
            let mut chain = String::new();
            for f in st.frames.iter().rev().skip(1).take(4) { chain += &format!(" <- {}:{}", self.fnames[f.func as usize], f.line); }
            let exact = self.exact; self.viols.push(Viol { kind, func, file, line, msg: msg + &chain, exact });
        }
    }
    pub fn glob(&mut self, st: &mut State, name: &str) -> V {
        if let Some(&f) = self.fidx.get(name) { return V::F(f); }
        let id = match self.gobj.get(name) {
            Some(&i) => i,
            None => { let i = self.nobj; self.nobj += 1; self.gobj.insert(name.to_string(), i); i }
        };
        if st.obj(id).is_none() {
            let m = self.m;
            let o = match m.globals.get(name) {
                Some(g) => {
                    let mut o = self.newobj(if g.constant { Kind::Const } else { Kind::Global }, name, cst(g.size as i64), if g.constant { Def::Zero } else { Def::Cell(1, false) });
                    self.nobj -= 1;
                    o.id = id;
                    if g.constant {
                        for (off, v) in &g.init {
                            match v {
                                CV::Int(n, c) => o.write(*off as usize, *n as usize, vi(*c), m.big_endian),
                                CV::Null => o.write(*off as usize, m.ptr as usize, NULL, m.big_endian),
                                CV::Ptr(n, po) => {
                                    let v = if let Some(&f) = self.fidx.get(n.as_str()) { V::F(f) } else { match self.glob(st, n) { V::P(i, _, _) => V::P(i, cst(*po), 1), v => v } };
                                    o.write(*off as usize, m.ptr as usize, v, m.big_endian);
                                }
                            }
                        }
                    }
                    o
                }
                None => { let mut o = self.newobj(Kind::Global, name, cst(1 << 20), Def::Cell(1, false)); self.nobj -= 1; o.id = id; o }
            };
            st.put(o);
        }
        V::P(id, 0, 1)
    }
    pub fn opv(&mut self, st: &mut State, o: &Op) -> V {
        match o {
            Op::Reg(r) => st.reg(*r),
            Op::C(c) => vi(*c),
            Op::Null => NULL,
            Op::Undef => V::I(undef()),
            Op::Zero => vi(0),
            Op::Glob(n, off) => match self.glob(st, n) { V::P(i, _, _) => V::P(i, cst(*off), 1), v => v },
        }
    }
    fn int(&self, st: &State, v: V, w: u32) -> R<T> {
        match v {
            V::I(t) => Ok(t),
            V::P(0, o, 0) => Ok(o),
            V::N => Ok(undef()),
            _ => { let _ = (st, w); unsup("pointer used as an integer") }
        }
    }

    // ------------------------------------------------------------ arithmetic
    fn bin(&mut self, st: &mut State, b: Bin, w: u32, x: V, y: V, nsw: bool) -> R<V> {
        let _ = nsw;
        // pointer arithmetic through integers
        match (x, y) {
            (V::P(o, off, nn), V::I(t)) if o != 0 => return match b {
                Bin::Add => Ok(V::P(o, add(off, t), nn)),
                Bin::Sub => Ok(V::P(o, sub(off, t), nn)),
                Bin::And => {
                    let al = st.obj(o).map_or(1, |x| x.align) as i64;
                    match as_const(st.sread(w, t)) {
                        Some(c) if c < 0 && ((-c) as u64).is_power_of_two() && -c <= al => Ok(V::P(o, sub(off, wrap_u((-c).trailing_zeros() as u8, off)), nn)),
                        Some(c) if c >= 0 && ((c + 1) as u64).is_power_of_two() && c + 1 <= al => Ok(V::I(wrap_u((c + 1).trailing_zeros() as u8, off))),
                        _ => Ok(V::I(sym("ptrbits", 0, PINF))),
                    }
                }
                _ => Ok(V::I(sym("ptrbits", 0, PINF))),
            },
            (V::I(t), V::P(o, off, nn)) if o != 0 && b == Bin::Add => return Ok(V::P(o, add(off, t), nn)),
            (V::P(o, a, _), V::P(q, c, _)) => {
                if b == Bin::Sub && o == q { return Ok(V::I(sub(a, c))); }
                if b == Bin::Sub && q == 0 { return Ok(x); }
                return Ok(V::I(sym("ptrdiff", NINF, PINF)));
            }
            _ => {}
        }
        let (a, c) = (self.int(st, x, w)?, self.int(st, y, w)?);
        let r = match b {
            Bin::Add | Bin::Sub | Bin::Mul => {
                let (p, q) = if nsw && w < 64 { (st.sread(w, a), st.sread(w, c)) } else { (a, c) };
                let r = match b { Bin::Add => add(p, q), Bin::Sub => sub(p, q), _ => mul(p, q) };
                if nsw && w < 64 {
                    let (l, h) = rng(r);
                    if l < -(1i64 << (w - 1)) || h > (1i64 << (w - 1)) - 1 { if lin_parts(r).1.len() <= 24 { ar().nsw.insert((r, w as u8)); } }
                }
                r
            }
            Bin::SDiv | Bin::SRem => {
                let (p, q) = (st.sread(w, a), st.sread(w, c));
                self.nonzero(st, q)?;
                if b == Bin::SDiv { self.div(st, p, q) } else { let d = self.div(st, p, q); sub(p, mul(d, q)) }
            }
            Bin::UDiv | Bin::URem => {
                let (p, q) = (st.uread(w, a), st.uread(w, c));
                self.nonzero(st, q)?;
                if b == Bin::UDiv { self.div(st, p, q) } else { let d = self.div(st, p, q); sub(p, mul(d, q)) }
            }
            Bin::Shl | Bin::LShr | Bin::AShr => {
                let k = st.uread(w, c);
                self.shift_ok(st, k, w);
                match b {
                    Bin::Shl => match as_const(k) { Some(k) if k >= 0 && k < 62 => scale(a, 1i64 << k), Some(_) => undef(), None => { let r = rng(k); if r.1 > 62 { sym("shl", NINF, PINF) } else { mul(a, pow2(k)) } } },
                    Bin::LShr => { let u = st.uread(w, a); match as_const(k) { Some(k) if (0..64).contains(&k) => shr(u, k as u8), Some(_) => undef(), None => shrv(u, k) } }
                    _ => { let s = st.sread(w, a); match as_const(k) { Some(k) if (0..64).contains(&k) => shr(s, k as u8), Some(_) => undef(), None => shrv(s, k) } }
                }
            }
            Bin::And | Bin::Or | Bin::Xor => {
                let f = |t: T| -> T { if w == 1 { wrap_u(1, t) } else if w >= 64 || as_const(t).is_some() { t } else { let (l, h) = rng(t); let m = 1i64 << w; if l >= 0 && h < m || l >= -m / 2 && h < m / 2 { t } else { st.sread(w, t) } } };
                let (p, q) = (f(a), f(c));
                match b { Bin::And => and(p, q), Bin::Or => or(p, q), _ => xor(p, q) }
            }
        };
        Ok(V::I(r))
    }
    fn div(&self, st: &State, p: T, q: T) -> T {
        // division of a provably non-negative value behaves like floor
        if let Some(k) = as_const(q) {
            if k > 1 && rng(p).0 < 0 && st.entails(p) && (k as u64).is_power_of_two() { return shr(p, k.trailing_zeros() as u8); }
        }
        tdiv(p, q)
    }
    fn nonzero(&mut self, st: &mut State, q: T) -> R<()> {
        if as_const(q).map_or(false, |c| c != 0) { return Ok(()); }
        self.stats.oblig += 1;
        if st.decide(eq0(q)) != Some(false) { self.viol(st, "div0", "division by a value that may be zero".into()); }
        Ok(())
    }
    fn shift_ok(&mut self, st: &mut State, k: T, w: u32) {
        let (l, h) = rng(k);
        if l >= 0 && h < w as i64 { return; }
        self.stats.oblig += 1;
        if st.entails(k) && st.entails(sub(cst(w as i64 - 1), k)) { return; }
        if self.check_shift { self.viol(st, "shift", format!("shift amount {} may reach the operand width {}", show(k), w)); }
    }
    fn icmp(&mut self, st: &mut State, p: Pred, ty: &Ty, a: V, b: V) -> R<T> {
        match (a, b) {
            (V::P(o, x, n), V::P(q, y, m)) => {
                let eq = if q == 0 && m == 0 { Some(bnot(n)) } else if o == 0 && n == 0 { Some(bnot(m)) } else if o == q { None } else { Some(if n == 1 || m == 1 { 0 } else { sym("ptreq", 0, 1) }) };
                return Ok(match (p, eq) {
                    (Pred::Eq, Some(e)) => e,
                    (Pred::Ne, Some(e)) => bnot(e),
                    (_, Some(_)) => sym("ptrcmp", 0, 1),
                    (Pred::Eq, None) => eq0(sub(x, y)),
                    (Pred::Ne, None) => bnot(eq0(sub(x, y))),
                    (Pred::Ult, _) | (Pred::Slt, _) => ge0(addc(sub(y, x), -1)),
                    (Pred::Ule, _) | (Pred::Sle, _) => ge0(sub(y, x)),
                    (Pred::Ugt, _) | (Pred::Sgt, _) => ge0(addc(sub(x, y), -1)),
                    (Pred::Uge, _) | (Pred::Sge, _) => ge0(sub(x, y)),
                });
            }
            (V::F(x), V::F(y)) => return Ok(match p { Pred::Eq => cst((x == y) as i64), Pred::Ne => cst((x != y) as i64), _ => return unsup("function pointer order") }),
            (V::F(_), V::P(0, _, 0)) | (V::P(0, _, 0), V::F(_)) => return Ok(match p { Pred::Eq => 0, Pred::Ne => 1, _ => return unsup("function pointer order") }),
            (V::P(o, _, n), V::I(t)) | (V::I(t), V::P(o, _, n)) if o != 0 && as_const(t) == Some(0) => return Ok(match p { Pred::Eq => bnot(n), Pred::Ne => n, _ => sym("ptrcmp", 0, 1) }),
            (V::P(o, ..), V::I(_)) | (V::I(_), V::P(o, ..)) if o != 0 => return Ok(sym("ptrcmp", 0, 1)),
            _ => {}
        }
        let w = match ty { Ty::Int(n) => *n, _ => (self.m.ptr * 8) as u32 };
        let (x, y) = (self.int(st, a, w)?, self.int(st, b, w)?);
        if w == 1 { let d = sub(wrap_u(1, x), wrap_u(1, y)); return Ok(match p { Pred::Eq => eq0(d), Pred::Ne => bnot(eq0(d)), _ => return unsup("i1 order") }); }
        let sgn = matches!(p, Pred::Slt | Pred::Sle | Pred::Sgt | Pred::Sge);
        let eqp = matches!(p, Pred::Eq | Pred::Ne);
        let (x, y) = if sgn { (st.sread(w, x), st.sread(w, y)) } else if eqp {
            let (l, h) = rng(x); let (l2, h2) = rng(y);
            if w < 63 && l >= 0 && l2 >= 0 && h < (1i64 << w) && h2 < (1i64 << w) { (x, y) } else { (st.sread(w, x), st.sread(w, y)) }
        } else if w >= 64 {
            let nn = |t: T| rng(t).0 >= 0 || st.entails(t);
            if nn(x) && nn(y) { (x, y) } else { return Ok(sym("ucmp64", 0, 1)); }
        } else { (st.uread(w, x), st.uread(w, y)) };
        Ok(match p {
            Pred::Eq => eq0(sub(x, y)),
            Pred::Ne => bnot(eq0(sub(x, y))),
            Pred::Slt | Pred::Ult => ge0(addc(sub(y, x), -1)),
            Pred::Sle | Pred::Ule => ge0(sub(y, x)),
            Pred::Sgt | Pred::Ugt => ge0(addc(sub(x, y), -1)),
            Pred::Sge | Pred::Uge => ge0(sub(x, y)),
        })
    }

    // ------------------------------------------------------------ memory
    /// checks an access of n bytes; returns false when the path is dead
    pub fn access(&mut self, st: &mut State, p: V, n: T, write: bool, what: &str) -> R<Option<(u32, T)>> {
        let (o, off, nn) = match p {
            V::P(o, f, nn) => (o, f, nn),
            V::I(t) if has_undef(t) => { self.viol(st, "uninit", format!("{} through an uninitialised pointer", what)); st.dead = true; return Ok(None); }
            V::I(t) if as_const(t) == Some(0) => (0, 0, 0),
            V::N => { self.viol(st, "uninit", format!("{} through an uninitialised pointer", what)); st.dead = true; return Ok(None); }
            _ => return unsup(format!("{} through an unknown pointer", what)),
        };
        if nn != 1 || o == 0 {
            self.stats.oblig += 1;
            match if o == 0 { Some(false) } else { st.decide(nn) } {
                Some(true) => {}
                Some(false) => { self.viol(st, "null", format!("{} through a null pointer", what)); st.dead = true; return Ok(None); }
                None => { let nm = st.obj(o).map(|x| x.name.to_string()).unwrap_or_default(); self.viol(st, "null", format!("{} through a pointer that may be null ({})", what, nm)); st.assume(nn, true); }
            }
        }
        let (size, live, kind, name) = match st.obj(o) { Some(x) => (x.size, x.live, x.kind, x.name.clone()), None => { self.viol(st, "uaf", format!("{} of a dead object", what)); st.dead = true; return Ok(None); } };
        if !live { self.viol(st, "uaf", format!("{} of freed object {}", what, name)); st.dead = true; return Ok(None); }
        if let Some(px) = self.pix { if px.obj == o && !write {
            self.stats.oblig += 1;
            if has_undef(off) { self.viol(st, "uninit", format!("{} at an uninitialised offset of {}", what, name)); st.dead = true; return Ok(None); }
            if let Some(m) = pix_check(&px, off, n) { self.viol(st, "oob-read-in", format!("{} of the pixel buffer at {}: {}", what, show(off), m)); }
            return Ok(Some((o, off)));
        } }
        let end = add(off, n);
        let ok = match (as_const(off), as_const(end), as_const(size)) {
            (Some(a), Some(b), Some(s)) => a >= 0 && b <= s,
            _ => {
                self.stats.oblig += 1;
                if has_undef(off) { self.viol(st, "uninit", format!("{} at an uninitialised offset of {}", what, name)); st.dead = true; return Ok(None); }
                let lo = st.entails(off);
                let hi = st.entails(sub(size, end));
                if !lo || !hi {
                    // a zero-length access is fine
                    let z = as_const(n).is_none() && st.entails(neg(n));
                    if !z {
                        if self.trace && self.mute == 0 { eprintln!("OOB {} {} off {} n {} size {} lo {} hi {}\n facts:", name, self.line, show(off), show(n), show(size), lo, hi); for f in st.facts.iter() { eprintln!("   {} >= 0", show(*f)); } }
                        let k = match (kind, write) { (Kind::Output, true) => "oob-write-out", (Kind::Output, false) => "oob-read", (_, true) => "oob-write", (Kind::Input, false) => "oob-read-in", (_, false) => "oob-read" };
                        let fresh = self.mute == 0 && { let (f, _) = self.cur_func(st); !self.vset.contains(&(k.to_string(), f, self.line)) };
                        let w = if !fresh || self.asm_loc.is_some() { None } else if !lo { crate::walk::exact(st, &[addc(neg(off), -1)]) } else { crate::walk::exact(st, &[addc(sub(end, size), -1)]) };
                        self.exact = w.is_some();
                        self.viol(st, k, format!("{} of {} byte(s) at offset {} of {} (size {}) {}", what, show(n), show(off), name, show(size), match w { Some(w) => format!("is out of bounds for {}", w), None => "not shown in bounds".into() }));
                        self.exact = false;
                        st.fact(off); st.fact(sub(size, end));
                    }
                }
                true
            }
        };
        if !ok {
            let k = match (kind, write) { (Kind::Output, true) => "oob-write-out", (_, true) => "oob-write", (Kind::Input, false) => "oob-read-in", (_, false) => "oob-read" };
            self.viol(st, k, format!("{} at offset {} of {} (size {}) is out of bounds", what, show(off), name, show(size)));
            st.dead = true;
            return Ok(None);
        }
        if write {
            match kind {
                Kind::Const => { self.viol(st, "write-const", format!("write to constant data {}", name)); st.dead = true; return Ok(None); }
                Kind::Input => { self.viol(st, "write-input", format!("write to the caller's {} ", name)); return Ok(None); }
                Kind::Global => self.viol(st, "global-write", format!("write to process-wide variable {}", name)),
                _ => {}
            }
        } else if kind == Kind::Global { self.viol(st, "global-read", format!("read of mutable process-wide variable {}", name)); }
        Ok(Some((o, off)))
    }
    pub fn tysz(&self, t: &Ty) -> usize { self.m.size(t) as usize }
    pub fn load(&mut self, st: &mut State, ty: &Ty, p: V) -> R<V> {
        let n = self.tysz(ty);
        let (o, off) = match self.access(st, p, cst(n as i64), false, "read")? { Some(x) => x, None => return Ok(V::I(undef())) };
        let isp = matches!(ty, Ty::Ptr);
        let be = self.m.big_endian;
        let off = if as_const(off).is_none() { st.simp(off) } else { off };
        let ob = st.obj(o).unwrap().clone();
        if ob.kind == Kind::Output {
            // latest store at exactly this offset, if everything after it is disjoint
            let mut p = st.log.clone();
            while let Some(nn) = p {
                match &nn.e {
                    Entry::W { off: wo, n: wn, v, .. } => {
                        let d = as_const(sub(*wo, off));
                        if d == Some(0) && *wn as usize == n { return Ok(*v); }
                        match d { Some(d) if d >= n as i64 || d + *wn as i64 <= 0 => {} _ => break }
                    }
                    Entry::Alloc(..) | Entry::Free(..) => {}
                    _ => break,
                }
                p = nn.prev.clone();
            }
            return Ok(V::I(hav(new_tag(), o, off, n as u8)));
        }
        if let Some(c) = as_const(off) {
            let c0 = c as usize;
            if isp {
                if let Slot::S(m, v) = ob.slot(c0) { if m as usize == n { return Ok(match v { V::I(0) => NULL, V::I(t) if has_undef(t) => V::I(t), v => v }); } }
                if ob.in_table(c) && ob.tab_open && matches!(ob.slot(c0), Slot::Def) {
                    if let Some(&(_, v)) = ob.tabw.iter().rev().find(|x| x.0 == off) { return Ok(v); }
                    if !ob.tabw.is_empty() { /* a symbolic store may alias: forget */ }
                    return Ok(self.table_slot(st, o, off));
                }
                return Ok(match ob.read(c0, n, be) { V::I(0) => NULL, V::I(t) if has_undef(t) => V::I(t), V::I(_) => V::P(0, sym("wildptr", 0, PINF), sym("wild", 0, 1)), v => v });
            }
            return Ok(ob.read(c0, n, be));
        }
        // symbolic offset
        if !isp && ob.pages.is_empty() && ob.kind != Kind::Const { return Ok(V::I(ob.defval(off, n, be))); }
        if isp && !ob.tables.is_empty() {
            let (lo, hi) = (st.min_of(off, 1 << 30), st.max_of(off, 1 << 30));
            if let (Some(lo), Some(hi)) = (lo, hi) {
                if ob.tables.iter().any(|&(a, b)| lo >= a && hi < b) {
                    if let Some(&(_, v)) = ob.tabw.iter().rev().find(|x| x.0 == off) { return Ok(v); }
                    if !ob.tab_open && ob.tabw.is_empty() && ob.def == Def::Zero { return Ok(NULL); }
                    // every slot it can be has been cleared
                    if ob.tabw.is_empty() && (hi - lo) % n as i64 == 0 && (lo..=hi).step_by(n).all(|x| matches!(ob.slot(x as usize), Slot::S(m, v) if m as usize == n && (v == NULL || v == V::I(0)))) { return Ok(NULL); }
                    return Ok(self.table_slot(st, o, off));
                }
            }
        }
        let (lo, hi) = match (st.min_of(off, 1 << 20), st.max_of(off, 1 << 20)) { (Some(a), Some(b)) => (a.max(0), b), _ => (0, as_const(ob.size).unwrap_or(0) - n as i64) };
        let untouched = ob.pages.is_empty() || ob.kind == Kind::Input || { let mut u = true; for x in lo..hi + n as i64 { if !matches!(ob.slot(x as usize), Slot::Def) { u = false; break; } } u };
        if ob.kind == Kind::Const && !isp {
            if lo == hi { return Ok(ob.read(lo as usize, n, be)); }
            let sz = as_const(ob.size).unwrap_or(0);
            if sz <= 1 << 16 {
                // table lookup by element
                let (c, ts) = lin_parts(off);
                let es = n as i64;
                if ts.iter().all(|&(_, k)| k % es == 0) {
                    let base = c.rem_euclid(es);
                    let mut tab = vec![];
                    let mut x = base;
                    while x + es <= sz { match ob.read(x as usize, n, be) { V::I(t) => match as_const(t) { Some(k) => tab.push(k), None => break }, _ => break } x += es; }
                    let ix = mk_lin((c - base) / es, ts.iter().map(|&(t, k)| (t, k / es)).collect());
                    return Ok(V::I(look(tab, ix)));
                }
            }
        }
        if isp { return Ok(V::P(0, sym("wildptr", 0, PINF), sym("wild", 0, 1))); }
        if untouched { return Ok(V::I(ob.defval(off, n, be))); }
        // all slots in range equal?
        let mut r = hav(new_tag(), o, off, n as u8);
        let (mut ml, mut mh, mut okr) = (i64::MAX, i64::MIN, hi - lo <= 1 << 14);
        let mut und = false;
        if okr { let mut x = lo; while x <= hi { match ob.read(x as usize, n, be) { V::I(t) => { let (a, b) = rng(t); if has_undef(t) { und = true; } ml = ml.min(a); mh = mh.max(b); } _ => { okr = false; break; } } x += 1; } }
        if und { r = undef(); } else if okr && mh != PINF && ml != NINF && mh < (1i64 << (8 * n.min(7))) && ml >= 0 { set_rng(r, ml, mh); }
        Ok(V::I(r))
    }
    pub fn table_slot(&mut self, st: &mut State, o: u32, off: T) -> V {
        let id = match self.lazy.get(&(o, off)) { Some(&i) => i, None => { let i = self.nobj; self.nobj += 1; self.lazy.insert((o, off), i); i } };
        let nn = *self.lazy_nn.entry(id).or_insert_with(|| sym("slot_used", 0, 1));
        if st.obj(id).is_none() {
            let nm = format!("{}[{}]", self.table_obj_pref, show(off));
            let mut x = self.newobj(Kind::Heap, &nm, cst(self.rb_size), Def::Cell(2, true));
            self.nobj -= 1;
            x.id = id;
            st.put(x);
        }
        let v = V::P(id, 0, nn);
        // remember which object the slot denotes
        Rc::make_mut(&mut st.obj_mut(o).tabw).push((off, v));
        v
    }
    pub fn store(&mut self, st: &mut State, ty: &Ty, v: V, p: V) -> R<()> {
        let n = self.tysz(ty);
        let (o, off) = match self.access(st, p, cst(n as i64), true, "write")? { Some(x) => x, None => return Ok(()) };
        let off = if as_const(off).is_none() { st.simp(off) } else { off };
        let be = self.m.big_endian;
        let ob = st.obj(o).unwrap();
        if ob.kind == Kind::Output {
            let func = st.frames.last().map_or(0, |f| f.func);
            if self.log_out { st.push(Entry::W { off, n: n as u8, v, line: self.line, func }); }
            if let V::I(t) = v { if has_undef(t) { self.viol(st, "uninit-out", format!("a byte that was never initialised ({}) is written to the output", show(t))); } }
            return Ok(());
        }
        if let Some(c) = as_const(off) { if !ob.tables.is_empty() {
                let at = ob.tabw.iter().position(|e| e.0 == off);
                self.overwrite_table(st, o, c, c + n as i64);
                let tab = matches!(ty, Ty::Ptr) && matches!(v, V::P(..)) && v != NULL && st.obj(o).unwrap().in_table(c);
                if tab { let w = Rc::make_mut(&mut st.obj_mut(o).tabw); let k = at.unwrap_or(w.len()).min(w.len()); w.insert(k, (off, v)); }
            }
            st.obj_mut(o).write(c as usize, n, v, be); return Ok(()); }
        if matches!(ty, Ty::Ptr) && !ob.tables.is_empty() {
            let (lo, hi) = (st.min_of(off, 1 << 30), st.max_of(off, 1 << 30));
            if let (Some(lo), Some(hi)) = (lo, hi) {
                if st.obj(o).unwrap().tables.iter().any(|&(a, b)| lo >= a && hi < b) {
                    let om = st.obj_mut(o);
                    let w = Rc::make_mut(&mut om.tabw);
                    w.retain(|x| x.0 != off);
                    w.push((off, v));
                    return Ok(());
                }
            }
        }
        // weak update
        let (lo, hi) = match (st.min_of(off, 1 << 20), st.max_of(off, 1 << 20)) { (Some(a), Some(b)) => (a.max(0), b), _ => (0, as_const(st.obj(o).unwrap().size).unwrap_or(0) - n as i64) };
        if hi < lo { return Ok(()); }
        let tag = new_tag();
        if let V::I(t) = v { if has_undef(t) { self.viol(st, "uninit", "an uninitialised value is stored in an array".into()); } }
        st.obj_mut(o).havoc(lo as usize, (hi - lo) as usize + n, tag, be);
        Ok(())
    }
    /// the table slots in [lo, hi) are about to be overwritten: what they owned is no longer theirs
    fn overwrite_table(&mut self, st: &mut State, o: u32, lo: i64, hi: i64) {
        let ps = self.m.ptr as i64;
        let ob = st.obj(o).unwrap();
        let mut todo = vec![];
        for &(a, b) in ob.tables.iter() {
            let mut x = a.max(lo - (lo - a).rem_euclid(ps));
            while x < b.min(hi) {
                if ob.tab_open && matches!(ob.slot(x as usize), Slot::Def) && !ob.tabw.iter().any(|e| e.0 == cst(x)) { todo.push(x); }
                x += ps;
            }
        }
        for x in todo { self.table_slot(st, o, cst(x)); }
        let ob = st.obj(o).unwrap();
        if ob.tabw.iter().any(|e| matches!(as_const(e.0), Some(k) if k >= lo && k < hi && ob.in_table(k))) {
            let om = st.obj_mut(o);
            Rc::make_mut(&mut om.tabw).retain(|e| !matches!(as_const(e.0), Some(k) if k >= lo && k < hi));
        }
    }
    fn memset(&mut self, st: &mut State, p: V, val: T, len: T) -> R<()> {
        let len = st.simp(len);
        if as_const(len) == Some(0) { return Ok(()); }
        let (o, off) = match self.access(st, p, len, true, "memset")? { Some(x) => x, None => return Ok(()) };
        let be = self.m.big_endian;
        let ob = st.obj(o).unwrap();
        if ob.kind == Kind::Output { let func = st.frames.last().map_or(0, |f| f.func); if self.log_out { st.push(Entry::Fill { off, len, v: val, line: self.line, func }); } return Ok(()); }
        let val = wrap_u(8, val);
        match (as_const(off), as_const(len)) {
            (Some(a), Some(l)) => {
                let ps = self.m.ptr as i64;
                let zdef = val == 0 && ob.def == Def::Zero;
                let tabs = ob.tables.clone();
                if !tabs.is_empty() { self.overwrite_table(st, o, a, a + l); }
                let om = st.obj_mut(o);
                om.split2(a as usize, l as usize, be);
                let mut x = a;
                while x < a + l {
                    if tabs.iter().any(|&(p, q)| x >= p && x < q) && val == 0 && (x % ps == 0) && x + ps <= a + l { om.write(x as usize, ps as usize, NULL, be); x += ps; continue; }
                    if zdef { om.set_slot(x as usize, Slot::Def); } else { om.set_slot(x as usize, Slot::S(1, V::I(val))); }
                    x += 1;
                }
            }
            _ => {
                let (lo, hi) = (st.min_of(off, 1 << 20).unwrap_or(0).max(0), st.max_of(add(off, len), 1 << 20).or(as_const(st.obj(o).unwrap().size)).unwrap_or(0));
                let tag = new_tag();
                if hi > lo { st.obj_mut(o).havoc(lo as usize, (hi - lo) as usize, tag, be); }
            }
        }
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, d: V, s: V, len: T) -> R<()> {
        let len = st.simp(len);
        if as_const(len) == Some(0) { return Ok(()); }
        let src = self.access(st, s, len, false, "memcpy read")?;
        let dst = self.access(st, d, len, true, "memcpy write")?;
        let ((so, soff), (dofs, doff)) = match (src, dst) { (Some(a), Some(b)) => (a, b), _ => return Ok(()) };
        let be = self.m.big_endian;
        let func = st.frames.last().map_or(0, |f| f.func);
        if st.obj(dofs).unwrap().kind == Kind::Output {
            if self.log_out {
                if let (Some(l), Some(so2)) = (as_const(len), as_const(soff)) {
                    if l <= 64 && !matches!(st.obj(so).unwrap().kind, Kind::Output | Kind::Input) {
                        let ob = st.obj(so).unwrap().clone();
                        for i in 0..l { let v = ob.read((so2 + i) as usize, 1, be); st.push(Entry::W { off: addc(doff, i), n: 1, v, line: self.line, func }); }
                        return Ok(());
                    }
                }
                st.push(Entry::Copy { off: doff, len, src: so, soff, line: self.line, func });
            }
            return Ok(());
        }
        match (as_const(doff), as_const(soff), as_const(len)) {
            (Some(da), Some(sa), Some(l)) => {
                let sob = st.obj(so).unwrap().clone();
                let mut x = 0i64;
                while x < l {
                    let sp = (sa + x) as usize;
                    let (n, v) = match sob.slot(sp) {
                        Slot::S(n, v) if x + n as i64 <= l => (n as i64, v),
                        Slot::Def => match sob.def {
                            Def::Cell(es, _) if (sa + x) % es as i64 == 0 && x + es as i64 <= l => (es as i64, sob.read(sp, es as usize, be)),
                            Def::Tiles if (sa + x) % 4 == 0 && x + 4 <= l => (4, sob.read(sp, 4, be)),
                            _ => (1, sob.read(sp, 1, be)),
                        },
                        Slot::H(_) if (sa + x) % 2 == 0 && x + 2 <= l => (2, sob.read(sp, 2, be)),
                        _ => (1, sob.read(sp, 1, be)),
                    };
                    st.obj_mut(dofs).write((da + x) as usize, n as usize, v, be);
                    x += n;
                }
            }
            (Some(da), None, Some(l)) if l <= 64 => {
                let sob = st.obj(so).unwrap().clone();
                let es = match sob.def { Def::Cell(es, _) => es as i64, Def::Tiles => 4, _ => 1 };
                let mut x = 0;
                while x < l { let n = if x + es <= l { es } else { 1 }; let v = if sob.pages.is_empty() { V::I(sob.defval(addc(soff, x), n as usize, be)) } else { V::I(hav(new_tag(), so, addc(soff, x), n as u8)) }; st.obj_mut(dofs).write((da + x) as usize, n as usize, v, be); x += n; }
            }
            _ => {
                let (lo, hi) = (st.min_of(doff, 1 << 20).unwrap_or(0).max(0), st.max_of(add(doff, len), 1 << 20).or(as_const(st.obj(dofs).unwrap().size)).unwrap_or(0));
                let tag = new_tag();
                if hi > lo { st.obj_mut(dofs).havoc(lo as usize, (hi - lo) as usize, tag, be); }
            }
        }
        Ok(())
    }
    fn free(&mut self, st: &mut State, p: V) -> R<()> {
        match p {
            V::P(0, _, 0) => {}
            V::I(0) => {}
            V::P(o, off, _) if o != 0 => {
                let (kind, live, name) = { let x = st.obj(o).unwrap(); (x.kind, x.live, x.name.clone()) };
                if kind != Kind::Heap { self.viol(st, "bad-free", format!("free of non-heap object {}", name)); }
                else if !live { self.viol(st, "double-free", format!("{} is freed twice", name)); }
                else if as_const(off) != Some(0) { self.viol(st, "bad-free", format!("free of an interior pointer of {}", name)); }
                self.stats.oblig += 1;
                let l = self.line;
                let om = st.obj_mut(o);
                om.live = false;
                om.freed_at = l;
                st.push(Entry::Free(o, l));
            }
            V::I(t) if has_undef(t) => self.viol(st, "uninit", "free of an uninitialised pointer".into()),
            _ => return unsup("free of unknown pointer"),
        }
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, size: T, zero: bool) -> V {
        let nn = if self.alloc_may_fail { sym("alloc_ok", 0, 1) } else { 1 };
        let nm = format!("heap@{}:{}", self.cur_func(st).0, self.line);
        let o = self.newobj(Kind::Heap, &nm, size, if zero { Def::Zero } else { Def::Undef });
        let id = o.id;
        st.put(o);
        st.push(Entry::Alloc(id, self.line));
        self.alloc_nn.insert(id, nn);
        V::P(id, 0, nn)
    }

    // ------------------------------------------------------------ calls
    /// returns the possible (state, return value) pairs
    pub fn call(&mut self, mut st: State, name: &str, args: &[(V, Ty)]) -> R<Vec<(State, V)>> {
        let pb = (self.m.ptr * 8) as u32;
        self.stats.calls += 1;
        let a = |i: usize| -> V { args.get(i).map_or(V::N, |x| x.0) };
        if let Some(&c) = self.cuts.get(name) { return self.cut(st, c, args); }
        if self.cut_comps && name.starts_with("rfx_encode_component_") { return self.cut(st, Cut::Comp, args); }
        if self.watch.contains(name) && self.mute == 0 { let v: Vec<V> = args.iter().map(|x| x.0).collect(); self.sink.push((name.to_string(), st.clone(), v)); }
        if let Some(&fi) = self.fidx.get(name) { if let Some(f) = self.funcs[fi as usize] { return self.inline(st, fi, f, args); } }
        if let Some(p) = self.asm.clone() { if p.has(name) { return asm::call(self, &p, st, name, args); } }
        let base = if name.starts_with("llvm.") { name.split('.').nth(1).unwrap_or("") } else { name };
        let one = |st: State, v: V| -> R<Vec<(State, V)>> { Ok(vec![(st, v)]) };
        match base {
            "memset" => { let (v, l) = (self.int(&st, a(1), 32)?, self.int(&st, a(2), pb)?); self.memset(&mut st, a(0), v, l)?; one(st, a(0)) }
            "memcpy" | "memmove" => { let l = self.int(&st, a(2), pb)?; self.memcpy(&mut st, a(0), a(1), l)?; one(st, a(0)) }
            "calloc" => { let (x, y) = (self.int(&st, a(0), pb)?, self.int(&st, a(1), pb)?); let v = self.alloc(&mut st, mul(x, y), true); one(st, v) }
            "malloc" => { let x = self.int(&st, a(0), pb)?; let v = self.alloc(&mut st, x, false); one(st, v) }
            "free" => { self.free(&mut st, a(0))?; one(st, V::N) }
            "printf" | "puts" | "putchar" | "fprintf" | "fflush" => { self.externs.insert(base.to_string()); one(st, V::I(sym("io", -1, i32::MAX as i64))) }
            "abs" if name.starts_with("llvm.") => { let w = if let Ty::Int(n) = args[0].1 { n } else { 32 }; let t = self.int(&st, a(0), w)?; let s = st.sread(w, t); one(st, V::I(ite(ge0(s), s, neg(s)))) }
            "abs" => { let t = self.int(&st, a(0), 32)?; let s = st.sread(32, t); one(st, V::I(ite(ge0(s), s, neg(s)))) }
            "smax" | "smin" | "umax" | "umin" => {
                let w = if let Ty::Int(n) = args[0].1 { n } else { 32 };
                let (x, y) = (self.int(&st, a(0), w)?, self.int(&st, a(1), w)?);
                let (x, y) = if base.starts_with('s') { (st.sread(w, x), st.sread(w, y)) } else { (st.uread(w, x), st.uread(w, y)) };
                let c = ge0(sub(x, y));
                one(st, V::I(if base.ends_with("max") { ite(c, x, y) } else { ite(c, y, x) }))
            }
            "ctlz" => { let w = if let Ty::Int(n) = args[0].1 { n } else { 32 }; let t = self.int(&st, a(0), w)?; let u = st.uread(w, t); one(st, V::I(clz(w as u8, u))) }
            "bswap" => {
                let w = if let Ty::Int(n) = args[0].1 { n } else { 32 }; let t = self.int(&st, a(0), w)?; let u = st.uread(w, t);
                let n = (w / 8) as usize; let mut r = 0; for i in 0..n { r = add(r, scale(byte_of(u, i), 1i64 << (8 * (n - 1 - i)))); } one(st, V::I(r))
            }
            "fshl" | "fshr" => { let w = if let Ty::Int(n) = args[0].1 { n } else { 32 }; one(st, V::I(sym("fsh", 0, if w >= 63 { PINF } else { (1 << w) - 1 }))) }
            "assume" | "donothing" | "stacksave" | "stackrestore" | "expect" => one(st, a(0)),
            "trap" | "abort" | "__assert_fail" | "exit" => { self.externs.insert(base.to_string()); self.viol(&st, "terminates", format!("{}() ends the process", base)); Ok(vec![]) }
            _ => {
                self.externs.insert(base.to_string());
                self.viol(&st, "extern", format!("call of unmodelled external function {}", name));
                if self.mute > 0 || true { let v = V::I(sym(&format!("ext_{}", base), i32::MIN as i64, i32::MAX as i64)); return one(st, v); }
                unsup(format!("external function {}", name))
            }
        }
    }
    fn inline(&mut self, mut st: State, fi: u32, f: &'a Func, args: &[(V, Ty)]) -> R<Vec<(State, V)>> {
        if st.frames.len() > 40 { return unsup("recursion"); }
        self.visited.insert(fi);
        let mut regs = vec![V::N; f.nregs];
        for (i, (v, _)) in args.iter().enumerate() { if i < f.args.len() { regs[i] = *v; } }
        let caller_line = self.line;
        if let Some(fr) = st.frames.last_mut() { Rc::make_mut(fr).line = caller_line; }
        st.frames.push(Rc::new(Frame { func: fi, regs, line: 0 }));
        let first_obj = self.nobj;
        let _ = first_obj;
        let depth = st.frames.len();
        let out = self.run(f, st, 0, 0, &[], false)?;
        let mut rets = out.rets;
        if !out.stops.is_empty() { return unsup("stop leaked"); }
        // drop this activation's stack objects
        for (s, _) in rets.iter_mut() {
            debug_assert!(s.frames.len() == depth);
            s.frames.pop();
            let fname = format!("stk{}:", depth);
            for id in s.ids() { let x = s.obj(id).unwrap(); if x.kind == Kind::Stack && x.name.starts_with(fname.as_str()) { s.drop_obj(id); } }
        }
        rets = self.merge_rets(rets)?;
        self.line = caller_line;
        Ok(rets)
    }
    fn merge_rets(&mut self, mut rs: Vec<(State, V)>) -> R<Vec<(State, V)>> {
        let mut i = 0;
        while i < rs.len() {
            let mut j = i + 1;
            while j < rs.len() {
                let same = rs[i].0.same_mem(&rs[j].0);
                let eqv = rs[i].1 == rs[j].1;
                let ok = log_same(&rs[i].0.log, &rs[j].0.log) && (same || eqv || matches!(self.ctx.last(), Some(Ctx::Unroll(_))));
                if ok {
                    let (va, vb) = (rs[i].1, rs[j].1);
                    let (pa, _pb) = (rs[i].0.pc, rs[j].0.pc);
                    if let Some(v) = merge_v(pa, va, vb) {
                        if let Some(s) = self.merge2(&rs[i].0, &rs[j].0, None) {
                            rs[i] = (s, v);
                            rs.remove(j);
                            continue;
                        }
                    }
                }
                j += 1;
            }
            i += 1;
        }
        Ok(rs)
    }
    fn cut_alpha(&mut self, mut st: State, args: &[(V, Ty)]) -> R<Vec<(State, V)>> {
        let line = self.line;
        let func = st.frames.last().map_or(0, |f| f.func);
        let be = self.m.big_endian;
        let (h, plane, s) = match (args.get(0).map(|x| x.0), args.get(1).map(|x| x.0), args.get(4).map(|x| x.0)) { (Some(a), Some(b), Some(c)) => (a, b, c), _ => return unsup("alpha coder signature") };
        let (cx, cy) = (self.int(&st, args[2].0, 32)?, self.int(&st, args[3].0, 32)?);
        if as_const(cx) != Some(64) || as_const(cy) != Some(64) { return unsup("alpha plane size"); }
        let (po, poff) = match self.access(&mut st, plane, cst(4096), false, "alpha plane read")? { Some(x) => x, None => return Ok(vec![]) };
        let ob = st.obj(po).unwrap().clone();
        let mut coefs = Vec::with_capacity(4096);
        for k in 0..4096i64 {
            let t = match as_const(poff) { Some(c) => match ob.read((c + k) as usize, 1, be) { V::I(t) => t, _ => return unsup("alpha byte") }, None if ob.pages.is_empty() => ob.defval(addc(poff, k), 1, be), _ => return unsup("alpha plane at a symbolic offset") };
            coefs.push(wrap_u(8, t));
        }
        if let Some(k) = coefs.iter().position(|&t| has_undef(t)) { self.viol(&st, "uninit-coef", format!("alpha byte {} is not initialised", k)); }
        // the stream
        let (so, sf) = match s { V::P(o, f, _) => (o, f), _ => return unsup("alpha stream") };
        let pslot = as_const(addc(sf, self.layout.s_p)).unwrap_or(-1);
        if pslot < 0 { return unsup("alpha stream offset"); }
        let (oo, off) = match st.obj(so).map(|x| x.read(pslot as usize, self.m.ptr as usize, be)) { Some(V::P(o, f, _)) => (o, f), _ => return unsup("alpha stream cursor") };
        if st.obj(oo).map_or(true, |x| x.kind != Kind::Output) { return unsup("alpha output is not the caller's buffer"); }
        let off = st.simp(off);
        let osz = st.obj(oo).unwrap().size;
        self.stats.oblig += 1;
        if !(st.entails(off) && st.entails(sub(osz, addc(off, A2)))) {
            self.viol(&st, "oob-write-out", format!("the alpha plane may need {} bytes at offset {} of the output (size {})", A2, show(off), show(osz)));
            st.fact(off); st.fact(sub(osz, addc(off, A2)));
        }
        self.ncoder += 1;
        let id = self.ncoder;
        let l = sym(&format!("A{}", id), 0, A2);
        // scratch: the coder works in dwt_buffer1
        if let V::P(ho, hf, _) = h { if let Some(c) = as_const(hf) {
            if let Some(V::P(bo, bf, _)) = st.obj(ho).map(|x| x.read((c + self.layout.dwt1) as usize, self.m.ptr as usize, be)) { if let Some(b) = as_const(bf) { let tag = new_tag(); st.obj_mut(bo).havoc(b as usize, 4096, tag, be); } }
        } }
        st.push(Entry::Coder { id, kind: Cut::Alpha as u8, off, cap: cst(A2), len: l, coefs: Rc::new(coefs), line, func, cobj: po, coff: poff, fresh: true });
        st.obj_mut(so).write(pslot as usize, self.m.ptr as usize, V::P(oo, add(off, l), 1), be);
        Ok(vec![(st, V::I(l))])
    }
    /// a colour plane about to be transformed: only its 4096 samples and its quant table are recorded
    fn cut_comp(&mut self, mut st: State, args: &[(V, Ty)]) -> R<Vec<(State, V)>> {
        if args.len() != 6 { return unsup("component coder signature"); }
        let line = self.line;
        let func = st.frames.last().map_or(0, |f| f.func);
        let be = self.m.big_endian;
        let (po, poff) = match self.access(&mut st, args[2].0, cst(4096), false, "plane read")? { Some(x) => x, None => return Ok(vec![]) };
        let ob = st.obj(po).unwrap().clone();
        let mut coefs = Vec::with_capacity(4096);
        for k in 0..4096i64 {
            let t = match as_const(poff) { Some(c) => match ob.read((c + k) as usize, 1, be) { V::I(t) => t, _ => return unsup("plane byte") }, None if ob.pages.is_empty() => ob.defval(addc(poff, k), 1, be), _ => return unsup("plane at a symbolic offset") };
            coefs.push(wrap_u(8, t));
        }
        let (qo, qoff) = match args[1].0 { V::P(o, f, _) => (o, f), _ => return unsup("quant table of a plane") };
        let off = match args[3].0 { V::P(_, f, _) => f, _ => return unsup("output of a plane") };
        self.ncoder += 1;
        let id = self.ncoder;
        let l = sym(&format!("L{}", id), 0, A1);
        st.push(Entry::Coder { id, kind: Cut::Comp as u8, off, cap: cst(A1), len: l, coefs: Rc::new(coefs), line, func, cobj: qo, coff: qoff, fresh: true });
        self.store(&mut st, &Ty::Int(32), V::I(l), args[5].0)?;
        Ok(vec![(st, vi(0))])
    }
    fn cut(&mut self, mut st: State, c: Cut, args: &[(V, Ty)]) -> R<Vec<(State, V)>> {
        if c == Cut::Alpha { return self.cut_alpha(st, args); }
        if c == Cut::Comp { return self.cut_comp(st, args); }
        let (cp, op) = (args[0].0, args[1].0);
        let size = self.int(&st, args[2].0, 32)?;
        let size = st.sread(32, size);
        let diff = matches!(c, Cut::Diff1 | Cut::Diff3);
        let line = self.line;
        let func = st.frames.last().map_or(0, |f| f.func);
        let (co, coff) = match self.access(&mut st, cp, cst(8192), diff, "coefficient access")? { Some(x) => x, None => return Ok(vec![]) };
        let base = match as_const(coff) { Some(c) => c as usize, None => return unsup("coefficients at a symbolic offset") };
        let be = self.m.big_endian;
        if diff {
            let d = self.int(&st, args[3].0, 32)?;
            let d = match as_const(st.sread(32, d)) { Some(d) => d, None => return unsup("symbolic differential length") };
            let ob = st.obj(co).unwrap().clone();
            let mut k = 4095i64;
            let mut w = vec![];
            while k > 4096 - d && k > 0 {
                let (x, y) = match (ob.read(base + 2 * k as usize, 2, be), ob.read(base + 2 * (k as usize - 1), 2, be)) { (V::I(x), V::I(y)) => (x, y), _ => return unsup("coef") };
                w.push((k, wrap_s(16, sub(wrap_s(16, x), wrap_s(16, y)))));
                k -= 1;
            }
            let om = st.obj_mut(co);
            for (k, v) in w { om.write(base + 2 * k as usize, 2, V::I(v), be); }
        }
        let ob = st.obj(co).unwrap().clone();
        let mut coefs = Vec::with_capacity(4096);
        for k in 0..4096 { match ob.read(base + 2 * k, 2, be) { V::I(t) => coefs.push(wrap_s(16, t)), _ => return unsup("coef") } }
        if self.mute == 0 { if let Some(k) = coefs.iter().position(|&t| has_undef(t)) { self.viol(&st, "uninit-coef", format!("coefficient {} handed to the entropy coder is not initialised", k)); } }
        let off = match op { V::P(o, off, _) => { if st.obj(o).map_or(true, |x| x.kind != Kind::Output) { return unsup("coder output is not the caller's buffer"); } st.simp(off) } _ => return unsup("coder output pointer") };
        // the coder may write [off, off+size)
        let osz = if let V::P(o, _, _) = op { st.obj(o).unwrap().size } else { 0 };
        self.stats.oblig += 1;
        if !(st.entails(off) && (st.entails(sub(osz, add(off, size))) || (st.entails(neg(size))))) {
            self.viol(&st, "oob-write-out", format!("the coder is told it may write {} bytes at offset {} of the output (size {})", show(size), show(off), show(osz)));
            st.fact(off); st.fact(sub(osz, add(off, size)));
        }
        self.ncoder += 1;
        let id = self.ncoder;
        let l = sym(&format!("L{}", id), 0, A1);
        let kind = c as u8;
        let cf = Rc::new(coefs);
        let mut out = vec![];
        if diff {
            let mut f = st.clone();
            f.push(Entry::Coder { id, kind, off, cap: size, len: cst(-1), coefs: cf.clone(), line, func, cobj: co, coff, fresh: true });
            // distinct outcome: not a term condition, so give it one
            let c = sym("coder_fail", 0, 1);
            f.assume(c, true);
            st.assume(c, false);
            f.fact(sub(cst(A1 - 1), size));
            f.pc = band(f.pc, c);
            st.pc = band(st.pc, bnot(c));
            if !f.infeasible() { out.push((f, vi(-1))); }
        }
        st.fact(sub(size, l));
        st.push(Entry::Coder { id, kind, off, cap: size, len: l, coefs: cf, line, func, cobj: co, coff, fresh: true });
        out.push((st, V::I(l)));
        Ok(out)
    }

    // ------------------------------------------------------------ merging
    pub fn merge2(&mut self, a: &State, b: &State, live: Option<&[u32]>) -> Option<State> {
        if !log_same(&a.log, &b.log) { return None; }
        let c = a.pc;
        let mut r = a.clone();
        // registers of the top frame
        if let Some(live) = live {
            let (fa, fb) = (a.frames.last().unwrap(), b.frames.last().unwrap());
            if !Rc::ptr_eq(fa, fb) {
                let mut regs = vec![V::N; fa.regs.len()];
                for &x in live { regs[x as usize] = merge_v(c, fa.regs[x as usize], fb.regs[x as usize])?; }
                *r.frames.last_mut().unwrap() = Rc::new(Frame { func: fa.func, regs, line: fa.line });
            }
        }
        if !a.same_mem(b) {
            let n = a.mem.len().max(b.mem.len());
            for ci in 0..n {
                if let (Some(x), Some(y)) = (a.mem.get(ci), b.mem.get(ci)) { if Rc::ptr_eq(x, y) { continue; } }
                for k in 0..32 {
                    let id = (ci * 32 + k) as u32;
                    match (a.obj(id), b.obj(id)) {
                        (None, None) => {}
                        (Some(x), Some(y)) => {
                            if Rc::ptr_eq(x, y) { continue; }
                            let m = self.merge_obj(c, x, y)?;
                            r.put(m);
                        }
                        (Some(x), None) => { if x.kind == Kind::Heap && !self.lazy_id(id) { return None; } if x.kind == Kind::Heap && !x.live { return None; } }
                        (None, Some(y)) => { if y.kind == Kind::Heap && !self.lazy_id(id) { return None; } if y.kind == Kind::Heap && !y.live { return None; } r.put((**y).clone()); }
                    }
                }
            }
        }
        // facts both sides agree on
        if !Rc::ptr_eq(&a.facts, &b.facts) {
            let fb: HashSet<T> = b.facts.iter().cloned().collect();
            let fa: HashSet<T> = a.facts.iter().cloned().collect();
            let mut v: Vec<T> = a.facts.iter().filter(|t| fb.contains(t)).cloned().collect();
            if !matches!(self.ctx.last(), Some(Ctx::Unroll(_))) {
                for &t in a.facts.iter() { if !fb.contains(&t) && b.entails_d(t, 0) { v.push(t); } }
                for &t in b.facts.iter() { if !fa.contains(&t) && a.entails_d(t, 0) { v.push(t); } }
            }
            r.facts = Rc::new(v);
        }
        if !Rc::ptr_eq(&a.diseq, &b.diseq) { let v: Vec<T> = a.diseq.iter().filter(|t| b.diseq.contains(t)).cloned().collect(); r.diseq = Rc::new(v); }
        if !Rc::ptr_eq(&a.known, &b.known) { let v: HashMap<T, bool, Fx> = a.known.iter().filter(|(k, v)| b.known.get(k) == Some(v)).map(|(k, v)| (*k, *v)).collect(); r.known = Rc::new(v); }
        r.pc = bor(a.pc, b.pc);
        self.stats.merges += 1;
        Some(r)
    }
    fn lazy_id(&self, id: u32) -> bool { self.lazy.values().any(|&x| x == id) }
    fn merge_obj(&mut self, c: T, x: &Rc<Obj>, y: &Rc<Obj>) -> Option<Obj> {
        if x.live != y.live || x.tab_open != y.tab_open || x.def != y.def { return None; }
        let mut r = (**x).clone();
        if !Rc::ptr_eq(&x.tabw, &y.tabw) && *x.tabw != *y.tabw {
            // keep entries both agree on
            let mut w = vec![];
            for e in x.tabw.iter() { if let Some(f) = y.tabw.iter().find(|f| f.0 == e.0) { w.push((e.0, merge_v(c, e.1, f.1)?)); } else if self.lazy.contains_key(&(x.id, e.0)) { w.push(*e); } else { return None; } }
            for e in y.tabw.iter() { if !x.tabw.iter().any(|f| f.0 == e.0) { if self.lazy.contains_key(&(x.id, e.0)) { w.push(*e); } else { return None; } } }
            r.tabw = Rc::new(w);
        }
        let be = self.m.big_endian;
        let np = x.pages.len().max(y.pages.len());
        for pi in 0..np {
            let (p, q) = (x.pages.get(pi).cloned().flatten(), y.pages.get(pi).cloned().flatten());
            match (&p, &q) { (None, None) => continue, (Some(a), Some(b)) if Rc::ptr_eq(a, b) => continue, _ => {} }
            let mut k = 0;
            while k < PG {
                let o = pi * PG + k;
                let (s, t) = (x.slot(o), y.slot(o));
                if s == t { k += 1; continue; }
                match (s, t) {
                    (Slot::S(n, v), Slot::S(m, w)) if n == m => { let z = merge_v(c, v, w)?; r.write(o, n as usize, z, be); k += n as usize; }
                    (Slot::S(n, v), _) if matches!(v, V::I(_)) => { if let V::I(_) = v { let w = y.read(o, n as usize, be); let z = merge_v(c, v, w)?; r.write(o, n as usize, z, be); k += n as usize; } }
                    (_, Slot::S(n, w)) if matches!(w, V::I(_)) => { let v = x.read(o, n as usize, be); let z = merge_v(c, v, w)?; r.write(o, n as usize, z, be); k += n as usize; }
                    (Slot::S(n, v), Slot::Def) | (Slot::Def, Slot::S(n, v)) if x.def == Def::Zero && matches!(v, V::P(..)) => {
                        let (a, b) = if matches!(s, Slot::Def) { (NULL, v) } else { (v, NULL) };
                        let z = merge_v(c, a, b)?; r.write(o, n as usize, z, be); k += n as usize;
                    }
                    (Slot::H(_), _) | (_, Slot::H(_)) => { r.havoc(o, 1, new_tag(), be); k += 1; }
                    _ => { let (v, w) = (x.read(o, 1, be), y.read(o, 1, be)); let z = merge_v(c, v, w)?; r.write(o, 1, z, be); k += 1; }
                }
            }
        }
        Some(r)
    }
    pub fn merge_all(&mut self, f: &Func, j: usize, mut v: Vec<State>) -> Vec<State> {
        if v.len() < 2 { return v; }
        let fix = !matches!(self.ctx.last(), Some(Ctx::Unroll(_)));
        let mut i = 0;
        while i < v.len() {
            let mut k = i + 1;
            while k < v.len() {
                let lim = v.len();
                if fix && lim <= 24 && !self.cheap_merge(f, j, &v[i], &v[k]) { k += 1; continue; }
                let live = &f.livein[j];
                let mut lv: Vec<u32> = live.clone();
                for ins in &f.blocks[j].ins { if let Ins::Phi(..) = ins.k { if let Some(d) = ins.dst { if !lv.contains(&d) { lv.push(d); } } } else { break; } }
                if let Some(s) = { let (a, b) = (v[i].clone(), v[k].clone()); self.merge2(&a, &b, Some(&lv)) } { v[i] = s; v.remove(k); } else { k += 1; }
            }
            i += 1;
        }
        v
    }
    /// in a summarised context only merge when values differ by constants (keeps linear reasoning exact)
    fn cheap_merge(&self, f: &Func, j: usize, a: &State, b: &State) -> bool {
        if !log_same(&a.log, &b.log) { return false; }
        let small = !a.same_mem(b);
        if small && !(self.ctx.len() == 1 && one_flag(a, b)) { if self.trace && self.ctx.len() == 1 { eprintln!("nomerge {} line {}", f.name, self.line); } return false; }
        let (fa, fb) = (a.frames.last().unwrap(), b.frames.last().unwrap());
        let mut diffs = 0;
        for &x in &f.livein[j] {
            let (p, q) = (fa.regs[x as usize], fb.regs[x as usize]);
            if p == q { continue; }
            match (p, q) { (V::I(s), V::I(t)) => { diffs += 1; let _ = (s, t); if as_const(s).is_none() || as_const(t).is_none() || diffs > 1 { return false; } } _ => return false }
        }
        diffs == 0
    }

    // ------------------------------------------------------------ control flow
    fn edge(&mut self, f: &Func, st: &mut State, from: usize, to: usize) {
        let mut w: Vec<(u32, V)> = vec![];
        for i in &f.blocks[to].ins {
            if let Ins::Phi(_, v) = &i.k {
                let o = v.iter().find(|x| x.1 == from);
                let val = match o { Some((o, _)) => self.opv(st, o), None => V::N };
                w.push((i.dst.unwrap(), val));
            } else { break; }
        }
        if !w.is_empty() { let fr = Rc::make_mut(st.frames.last_mut().unwrap()); for (r, v) in w { fr.regs[r as usize] = v; } }
    }
    /// run from instruction `i0` of block `b` until one of `stops` is reached (phis done) or a return
    pub fn run(&mut self, f: &'a Func, st: State, b: usize, i0: usize, stops: &[usize], in_loop_iter: bool) -> R<Out> {
        let mut out = Out::default();
        let mut st = st;
        let mut b = b;
        let mut i0 = i0;
        let mut first = in_loop_iter;
        let mut fresh = i0 == 0;
        loop {
            if fresh && !first {
                if stops.contains(&b) { out.stops.push((b, st)); return Ok(out); }
                if let Some(&li) = f.header_of.get(&b) {
                    let lo = self.exec_loop(f, li, st, stops)?;
                    out.rets.extend(lo.rets);
                    // continue from the exits, joining at the first block post-dominating the loop
                    let mut j = f.ipdom[b];
                    while let Some(x) = j { if f.loops[li].blocks.contains(&x) { j = f.ipdom[x]; } else { break; } }
                    let mut at_j = vec![];
                    let mut st2: Vec<usize> = stops.to_vec();
                    if let Some(j) = j { if !st2.contains(&j) { st2.push(j); } }
                    for (eb, s) in lo.stops {
                        let o = if st2.contains(&eb) { Out { stops: vec![(eb, s)], rets: vec![] } } else { self.run(f, s, eb, 0, &st2, false)? };
                        out.rets.extend(o.rets);
                        for (x, s) in o.stops { if Some(x) == j { at_j.push(s); } else { out.stops.push((x, s)); } }
                    }
                    if at_j.is_empty() { return Ok(out); }
                    let j = j.unwrap();
                    let m = self.merge_all(f, j, at_j);
                    if stops.contains(&j) { for s in m { out.stops.push((j, s)); } return Ok(out); }
                    if m.len() == 1 { st = m.into_iter().next().unwrap(); b = j; i0 = 0; fresh = true; continue; }
                    for s in m { let o = self.run(f, s, j, 0, stops, false)?; out.rets.extend(o.rets); out.stops.extend(o.stops); }
                    return Ok(out);
                }
            }
            first = false;
            // straight-line part
            let blk = &f.blocks[b];
            let mut i = i0;
            let n = blk.ins.len();
            let mut next: Option<usize> = None;
            while i < n {
                let ins = &blk.ins[i];
                self.stats.steps += 1;
                if ins.line != 0 { self.line = ins.line; }
                if self.stats.steps > self.step_limit { return unsup("step limit"); }
                match &ins.k {
                    Ins::Phi(..) => {}
                    Ins::Bin(op, w, x, y, nsw) => { let (x, y) = (self.opv(&mut st, x), self.opv(&mut st, y)); let v = self.bin(&mut st, *op, *w, x, y, *nsw)?; st.set(ins.dst.unwrap(), v); }
                    Ins::Icmp(p, t, x, y) => { let (x, y) = (self.opv(&mut st, x), self.opv(&mut st, y)); let v = self.icmp(&mut st, *p, t, x, y)?; st.set(ins.dst.unwrap(), V::I(v)); }
                    Ins::Cast(k, w, x, w2) => {
                        let x = self.opv(&mut st, x);
                        let v = match (k, x) {
                            (CastK::Trunc, V::I(t)) => if *w2 == 1 { V::I(wrap_u(1, t)) } else { V::I(t) },
                            (CastK::ZExt, V::I(t)) => V::I(st.uread(*w, t)),
                            (CastK::SExt, V::I(t)) => V::I(st.sread(*w, t)),
                            (CastK::Trunc, V::P(..)) if (*w2 as u64) < self.m.ptr * 8 => V::I(sym("ptrbits", 0, PINF)),
                            (CastK::IntToPtr, V::I(t)) if as_const(t) == Some(0) => NULL,
                            (_, v) => v,
                        };
                        st.set(ins.dst.unwrap(), v);
                    }
                    Ins::Load(t, p) => { let p = self.opv(&mut st, p); let v = self.load(&mut st, t, p)?; if st.dead { return Ok(out); } st.set(ins.dst.unwrap(), v); }
                    Ins::Store(t, v, p) => { let (v, p) = (self.opv(&mut st, v), self.opv(&mut st, p)); self.store(&mut st, t, v, p)?; if st.dead { return Ok(out); } }
                    Ins::Gep(t, base, ix, ws) => {
                        let bv = self.opv(&mut st, base);
                        let mut off = 0;
                        let key = ins as *const I as usize;
                        let steps = match self.gepc.get(&key) { Some(s) => s.clone(), None => {
                            // per index: a factor, or a constant for a struct member
                            let mut v = vec![];
                            let mut ty = t.clone();
                            for (k, x) in ix.iter().enumerate() {
                                if k == 0 { v.push((self.m.size(&ty) as i64, 0)); continue; }
                                match self.m.resolve(&ty) {
                                    Ty::Arr(_, e) => { v.push((self.m.size(&e) as i64, 0)); ty = *e; }
                                    t2 @ Ty::Struct(..) => { let c = match x { Op::C(c) => *c as i64, Op::Zero => 0, _ => return unsup("struct index") }; let (o, e) = self.m.index(&t2, c).map_err(E::Unsup)?; v.push((0, o)); ty = e; }
                                    _ => return unsup("gep"),
                                }
                            }
                            let r = Rc::new(v);
                            self.gepc.insert(key, r.clone());
                            r
                        } };
                        for (k, x) in ix.iter().enumerate() {
                            let (f, o) = steps[k];
                            if f == 0 { off = addc(off, o); continue; }
                            let xv = self.opv(&mut st, x);
                            let iv = self.int(&st, xv, ws[k])?;
                            let iv = st.sread(ws[k], iv);
                            off = add(off, scale(iv, f));
                        }
                        let v = match bv { V::P(o, b0, nn) => V::P(o, add(b0, off), nn), V::I(t) if as_const(t).is_some() => V::P(0, add(t, off), 0), V::I(t) if has_undef(t) => V::I(t), _ => return unsup("gep base") };
                        st.set(ins.dst.unwrap(), v);
                    }
                    Ins::Select(c, x, y, _) => {
                        let c = self.opv(&mut st, c);
                        let c = self.int(&st, c, 1)?;
                        let (x, y) = (self.opv(&mut st, x), self.opv(&mut st, y));
                        let v = match st.decide(c) { Some(true) => x, Some(false) => y, None => match merge_v(c, x, y) { Some(v) => v, None => return unsup("select of pointers") } };
                        st.set(ins.dst.unwrap(), v);
                    }
                    Ins::Alloca(t, cnt) => {
                        let c = self.opv(&mut st, cnt);
                        let c = match c { V::I(t) => t, _ => return unsup("alloca count") };
                        let nm = format!("stk{}:{}", st.frames.len(), self.fnames[st.frames.last().unwrap().func as usize]);
                        let o = self.newobj(Kind::Stack, &nm, scale(c, self.m.size(t) as i64), Def::Undef);
                        let id = o.id;
                        st.put(o);
                        st.set(ins.dst.unwrap(), V::P(id, 0, 1));
                    }
                    Ins::Call(cal, args, rt) => {
                        let name = match cal {
                            Callee::Direct(n) => n.clone(),
                            Callee::Ind(o) => match self.opv(&mut st, o) {
                                V::F(x) => self.fnames[x as usize].clone(),
                                V::P(0, ..) => { self.viol(&st, "null-call", "call through a null function pointer".into()); return Ok(out); }
                                V::I(t) if as_const(t) == Some(0) => { self.viol(&st, "null-call", "call through a null function pointer".into()); return Ok(out); }
                                _ => return unsup("indirect call target"),
                            },
                        };
                        let av: Vec<(V, Ty)> = args.iter().map(|(o, t)| (self.opv(&mut st, o), t.clone())).collect();
                        let mut rs = self.call(st, &name, &av)?;
                        rs.retain(|x| !x.0.dead);
                        self.line = ins.line;
                        let setr = |s: &mut State, v: V| { if let Some(d) = ins.dst { let v = match (v, rt) { (V::I(0), Ty::Ptr) => NULL, (v, _) => v }; s.set(d, v); } };
                        if rs.is_empty() { return Ok(out); }
                        if rs.len() == 1 { let (s, v) = rs.pop().unwrap(); st = s; setr(&mut st, v); } else {
                            let mut j = f.ipdom[b];
                            // only join inside the same loop nest
                            if let Some(x) = j { if stops.contains(&x) { j = Some(x); } }
                            let mut st2: Vec<usize> = stops.to_vec();
                            if let Some(j) = j { if !st2.contains(&j) { st2.push(j); } }
                            let mut at_j = vec![];
                            for (mut s, v) in rs {
                                setr(&mut s, v);
                                let o = self.run(f, s, b, i + 1, &st2, false)?;
                                out.rets.extend(o.rets);
                                for (x, s) in o.stops { if Some(x) == j { at_j.push(s); } else { out.stops.push((x, s)); } }
                            }
                            if at_j.is_empty() { return Ok(out); }
                            let j = j.unwrap();
                            let m = self.merge_all(f, j, at_j);
                            if stops.contains(&j) { for s in m { out.stops.push((j, s)); } return Ok(out); }
                            if m.len() == 1 { st = m.into_iter().next().unwrap(); next = Some(usize::MAX); b = j; break; }
                            for s in m { let o = self.run(f, s, j, 0, stops, false)?; out.rets.extend(o.rets); out.stops.extend(o.stops); }
                            return Ok(out);
                        }
                    }
                    Ins::Br(t) => { next = Some(*t); }
                    Ins::CondBr(..) | Ins::Switch(..) => {
                        // list of (condition, target)
                        let mut alts: Vec<(T, usize)> = vec![];
                        match &ins.k {
                            Ins::CondBr(c, x, y) => {
                                let c = self.opv(&mut st, c);
                                let c = self.int(&st, c, 1)?;
                                if has_undef(c) { self.viol(&st, "uninit-branch", format!("branch on an uninitialised value ({})", show(c))); }
                                match st.decide(c) { Some(true) => next = Some(*x), Some(false) => next = Some(*y), None => { if x == y { next = Some(*x); } else { alts.push((c, *x)); alts.push((bnot(c), *y)); } } }
                            }
                            Ins::Switch(c, w, d, v) => {
                                let c = self.opv(&mut st, c);
                                let c = self.int(&st, c, *w)?;
                                let s = st.sread(*w, c);
                                if has_undef(c) { self.viol(&st, "uninit-branch", "switch on an uninitialised value".into()); }
                                let mut rest = 1;
                                let mut done = false;
                                for (k, t) in v {
                                    let e = eq0(sub(s, cst(*k)));
                                    match st.decide(e) { Some(true) => { if alts.is_empty() { next = Some(*t); } else { alts.push((rest, *t)); } done = true; break; } Some(false) => {} None => { alts.push((band(rest, e), *t)); rest = band(rest, bnot(e)); } }
                                }
                                if !done { if alts.is_empty() { next = Some(*d); } else { alts.push((rest, *d)); } }
                            }
                            _ => {}
                        }
                        if next.is_none() {
                            self.stats.forks += 1;
                            // leaving an unrolled loop on an undecided condition: give up unrolling
                            if let Some(Ctx::Unroll(t)) = self.ctx.last().cloned() {
                                if let Some((li, depth)) = self.unroll_info(t) {
                                    if depth == st.frames.len() && std::ptr::eq(f, self.funcs[st.frames.last().unwrap().func as usize].unwrap()) {
                                        let l = &f.loops[li];
                                        if l.blocks.contains(&b) && alts.iter().any(|a| !l.blocks.contains(&a.1)) { return Err(E::Abandon(t)); }
                                    }
                                }
                            }
                            for r in self.fork_rec.iter_mut() { for a in &alts { r.push(a.0); } }
                            let outer = st.pc;
                            let j = f.ipdom[b];
                            let mut st2: Vec<usize> = stops.to_vec();
                            if let Some(j) = j { if !st2.contains(&j) { st2.push(j); } }
                            let mut at_j = vec![];
                            let mut rets = vec![];
                            let mut outs = vec![];
                            for (c, t) in alts {
                                let mut s = st.clone();
                                s.assume(c, true);
                                if s.dead { continue; }
                                s.pc = c;
                                self.edge(f, &mut s, b, t);
                                let o = if st2.contains(&t) { Out { stops: vec![(t, s)], rets: vec![] } } else { self.run(f, s, t, 0, &st2, false)? };
                                rets.extend(o.rets);
                                for (x, s) in o.stops { if Some(x) == j { at_j.push(s); } else { outs.push((x, s)); } }
                            }
                            if rets.len() > 1 && at_j.is_empty() { rets = self.merge_rets_top(rets); }
                            for (mut s, v) in rets { s.pc = band(outer, s.pc); out.rets.push((s, v)); }
                            for (x, mut s) in outs { s.pc = band(outer, s.pc); out.stops.push((x, s)); }
                            if at_j.is_empty() { return Ok(out); }
                            let j = j.unwrap();
                            let mut m = self.merge_all(f, j, at_j);
                            for s in m.iter_mut() { s.pc = band(outer, s.pc); }
                            if stops.contains(&j) { for s in m { out.stops.push((j, s)); } return Ok(out); }
                            if m.len() == 1 { st = m.pop().unwrap(); b = j; next = Some(usize::MAX); break; }
                            for s in m { let o = self.run(f, s, j, 0, stops, false)?; out.rets.extend(o.rets); out.stops.extend(o.stops); }
                            return Ok(out);
                        }
                    }
                    Ins::Ret(v, _) => { let v = match v { Some(o) => self.opv(&mut st, o), None => V::N }; out.rets.push((st, v)); return Ok(out); }
                    Ins::Unreachable => return Ok(out),
                }
                i += 1;
            }
            match next {
                Some(usize::MAX) => {}
                Some(t) => { self.edge(f, &mut st, b, t); b = t; }
                None => return unsup("fell off a block"),
            }
            i0 = 0;
            fresh = true;
        }
    }
    fn merge_rets_top(&mut self, rs: Vec<(State, V)>) -> Vec<(State, V)> {
        match self.merge_rets(rs.clone()) { Ok(v) => v, Err(_) => rs }
    }
    fn unroll_info(&self, tok: u32) -> Option<(usize, usize)> { self.loops_tok.get(&tok).cloned() }
}

/// the states differ in a single integer slot holding constants
fn one_flag(a: &State, b: &State) -> bool {
    let mut n = 0;
    for (x, y) in a.mem.iter().zip(&b.mem) {
        if Rc::ptr_eq(x, y) { continue; }
        for (p, q) in x.iter().zip(y.iter()) {
            match (p, q) {
                (None, None) => {}
                (Some(p), Some(q)) => {
                    if Rc::ptr_eq(p, q) { continue; }
                    if p.live != q.live || p.tabw.len() != q.tabw.len() { return false; }
                    for pi in 0..p.pages.len().max(q.pages.len()) {
                        match (p.pages.get(pi).cloned().flatten(), q.pages.get(pi).cloned().flatten()) { (None, None) => continue, (Some(c), Some(d)) if Rc::ptr_eq(&c, &d) => continue, _ => {} }
                        let mut k = 0;
                        while k < PG {
                            let (s, t) = (p.slot(pi * PG + k), q.slot(pi * PG + k));
                            k += 1;
                            if s == t || matches!(s, Slot::C(_)) || matches!(t, Slot::C(_)) { continue; }
                            let c = |s: Slot| match s { Slot::Def => matches!(p.def, Def::Zero | Def::Undef), Slot::S(_, V::I(t)) => as_const(t).is_some(), _ => false };
                            if !c(s) || !c(t) { if std::env::var("ONEF").is_ok() { eprintln!("one_flag {} {:?} {:?}", pi * PG + k - 1, s, t); } return false; }
                            n += 1;
                            if n > 1 { if std::env::var("ONEF").is_ok() { eprintln!("one_flag2 {} {:?} {:?}", pi * PG + k - 1, s, t); } return false; }
                        }
                    }
                }
                (Some(p), None) | (None, Some(p)) if p.kind == Kind::Const => {}
                _ => return false,
            }
        }
    }
    true
}
/// None when [off, off+n) lies in the rectangle of one tile-list entry
pub fn pix_check(px: &Pix, off: T, n: T) -> Option<String> {
    let n = match as_const(n) { Some(n) => n, None => return Some("symbolic length".into()) };
    match pix_locate(px, off) {
        None => Some("not an address inside one tile's rectangle".into()),
        Some((_, r, c)) => {
            if px.planar > 0 { if c >= 0 && c + n <= px.planar * 4096 && r == 0 { None } else { Some(format!("byte {} of a tile of {} bytes", c, px.planar * 4096)) } }
            else if r >= 0 && r < px.cy && c >= 0 && c + n <= px.cx * px.bpp { None }
            else { Some(format!("row {} byte {} of a {}x{} tile", r, c, px.cx, px.cy)) }
        }
    }
}
/// (offset of the tile entry in the list, row, byte in row) of a pixel address
pub fn pix_locate(px: &Pix, off: T) -> Option<(T, i64, i64)> {
    let (c, ts) = lin_parts(off);
    let (mut row, mut xe, mut ye) = (0i64, None, None);
    let (st_atom, st_k) = { let (c0, l) = lin_parts(px.stride); if c0 != 0 || l.len() != 1 { return None; } l[0] };
    for (t, k) in ts {
        if t == st_atom { if k % st_k != 0 { return None; } row = k / st_k; continue; }
        match node(t) {
            Node::Cell(o, e, 4) if *o == px.tiles => { let per = if px.planar > 0 { 64 * 256 } else { 64 * px.bpp }; if k != per || xe.is_some() { return None; } xe = Some(*e); }
            Node::Mul(a, b) => {
                let (tc, sc) = if *b == st_atom { (*a, 1) } else if *a == st_atom { (*b, 1) } else { return None };
                let _ = sc;
                match node(tc) { Node::Cell(o, e, 4) if *o == px.tiles => { if k != 64 * st_k || ye.is_some() { return None; } ye = Some(*e); } _ => return None }
            }
            _ => return None,
        }
    }
    let (xe, ye) = (xe?, ye?);
    if sub(ye, xe) != cst(4) { return None; }
    if px.planar > 0 { if row != 0 { return None; } }
    Some((xe, row, c))
}
