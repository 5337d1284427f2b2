//! Relational analysis: what one tile's planes are computed to, as terms over canonical symbols (pixel
//! samples, quant entries, history), compared with the protocol's definition, between pixel formats, between
//! tile sizes, between code paths and between target architectures.
use crate::asm;
use crate::exec::*;
use crate::ir::*;
use crate::job::*;
use crate::scen::*;
use crate::state::*;
use crate::term::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

thread_local! { static CANON: RefCell<HashMap<(u8, i64, i64), T>> = RefCell::new(HashMap::new()); }
/// canonical symbols: pixels (channel, row, column), quant entries (table, nibble), history (plane, index)
fn canon(kind: u8, a: i64, b: i64) -> T {
    CANON.with(|c| *c.borrow_mut().entry((kind, a, b)).or_insert_with(|| match kind {
        0..=3 => sym(&format!("{}[{}][{}]", ["p0", "p1", "p2", "p3"][kind as usize], a, b), 0, 255),
        4..=7 => sym(&format!("{}[{}][{}]", ["B", "G", "R", "A"][kind as usize - 4], a, b), 0, 255),
        8 => sym(&format!("quant{}", b), 6, 15),
        9 => sym(&format!("history{}[{}]", a, b), -32768, 32767),
        10 => sym(&format!("stale{}", a), 0, 255),
        _ => sym(&format!("in[{}]", a), -32768, 32767),
    }))
}
pub fn plane_px(k: u8, r: i64, c: i64) -> T { canon(k, r, c) }
pub fn chan_px(k: u8, r: i64, c: i64) -> T { canon(4 + k, r, c) }
pub fn quant(n: i64) -> T { canon(8, 0, n) }
pub fn histo(p: i64, i: i64) -> T { canon(9, p, i) }
fn is_stale(t: T) -> bool { matches!(node(t), Node::Sym(i) if ar().syms[*i as usize].name.starts_with("stale")) }

#[derive(Clone)]
pub struct PlaneRec { pub kind: u8, pub coefs: Rc<Vec<T>>, pub line: u32, pub func: u32, pub off: T, pub len: T, pub foreign: Option<String>, pub table: Option<i64> }
pub struct Fin { pub ok: bool, pub planes: Vec<PlaneRec>, pub st: State, pub ret: T, /// (offset in the handle's table, contents, existing object's number or none if new)
 pub hist: Vec<(T, Vec<T>, Option<i64>)>, pub slots: Vec<T> }
pub struct Opt { pub comp: bool, pub align: i64, pub room: i64, /// grid positions when given, else one tile anywhere
 pub at: Vec<(i64, i64)> }

/// the planes of one tile, from any handle state, in ample room unless told otherwise
pub fn one_tile(md: &Module, prog: &Option<Rc<asm::Prog>>, cfg: &Cfg, o: &Opt) -> R<(Vec<Fin>, Stats0)> {
    let mut j = Job::new(md, prog, cfg);
    j.m.asm_align = o.align;
    j.m.cut_comps = o.comp;
    if cfg.pro() { j.m.peel = o.at.len().max(1); }
    j.m.alloc_may_fail = false;
    let oks = j.create()?;
    let base = match oks.into_iter().next() { Some(s) => s, None => return unsup("no handle is ever created") };
    j.m.alloc_may_fail = true;
    let bufs = buffers(&j.m, &base, j.h);
    let be = md.big_endian;
    let mut s = base.clone();
    let tag0 = new_tag();
    for b in &bufs { s.obj_mut(j.h).havoc(b.0 as usize, (b.1 - b.0) as usize, tag0, be); }
    if cfg.pro() { let ob = s.obj_mut(j.h); if !ob.tables.is_empty() { ob.tab_open = true; } }
    let h0 = s.obj(j.h).unwrap().clone();
    let mut inp = inputs(&mut j.m, &mut s, cfg);
    inp.nr = cst(1);
    let nt = o.at.len().max(1) as i64;
    inp.nt = cst(nt);
    inp.nq = cst(255);
    inp.cap = cst(o.room);
    for (ob, sz) in [(inp.regions, 16), (inp.tiles, nt * TILE_SZ), (inp.quants, 5 * 255), (inp.out, o.room)] { s.obj_mut(ob).size = cst(sz); }
    s.obj_mut(inp.outp).write(0, 4, V::I(inp.cap), be);
    for (i, p) in o.at.iter().enumerate() { let ob = s.obj_mut(inp.tiles); ob.write(28 * i, 4, V::I(cst(64 * p.0)), be); ob.write(28 * i + 4, 4, V::I(cst(64 * p.1)), be); }
    ar().tilecfg.qlo = 0;
    ar().tilecfg.qhi = if cfg.qnull { 0 } else { 254 };
    let h = j.h;
    let es = encode(&mut j.m, s, V::P(h, 0, 1), &inp, cfg)?;
    let px = j.m.pix.clone().unwrap();
    let mut out = vec![];
    for (st, v) in es {
        if st.infeasible() { continue; }
        let t = match v { V::I(t) => st.sread(32, st.simp(t)), _ => return unsup("result of encode") };
        let ok = match st.decide(ge0(t)) { Some(b) => b, None => return unsup("result of encode is not decided") };
        let written: Vec<bool> = bufs.iter().map(|b| { let o = st.obj(h).unwrap(); (b.0..b.1).any(|x| o.slot(x as usize) != h0.slot(x as usize)) }).collect();
        let mut lazies: Vec<(u32, T)> = j.m.lazy.iter().filter(|((o, _), _)| *o == h).map(|((_, off), id)| (*id, *off)).collect();
        lazies.sort();
        let foreign: RefCell<Option<String>> = RefCell::new(None);
        let tab: RefCell<Option<i64>> = RefCell::new(None);
        let nstale: RefCell<i64> = RefCell::new(0);
        let f = |t: T, n: &Node| -> Option<T> {
            let bad = |m: String| { let mut x = foreign.borrow_mut(); if x.is_none() { *x = Some(m); } };
            match n {
                Node::Cell(ob, off, 1) if *ob == px.obj && !o.at.is_empty() => {
                    for (i, p) in o.at.iter().enumerate() {
                        let b0 = add(scale(px.stride, 64 * p.1), cst(64 * 256 * p.0));
                        if let Some(b) = as_const(sub(*off, b0)) { if (0..px.planar * 4096).contains(&b) { return Some(canon((b / 4096) as u8, b % 4096 / 64, b % 64 + 64 * i as i64)); } }
                    }
                    bad(format!("pixel address {}", show(*off)));
                    None
                }
                Node::Cell(ob, off, 1) if *ob == px.obj => match pix_locate(&px, *off) {
                    Some((e, r, b)) if e == 0 => {
                        if px.planar > 0 { if (0..px.planar * 4096).contains(&b) { return Some(plane_px((b / 4096) as u8, b % 4096 / 64, b % 64)); } }
                        else if r >= 0 && r < px.cy && b >= 0 && b < px.cx * px.bpp {
                            let ch = match (cfg.fmt, b % px.bpp) { (0, x) | (2, x) => x, (1, 3) => 3, (_, x) => 2 - x };
                            return Some(chan_px(ch as u8, r, b / px.bpp));
                        }
                        bad(format!("pixel row {} byte {} outside the tile", r, b));
                        None
                    }
                    _ => { bad(format!("pixel address {}", show(*off))); None }
                },
                Node::Cell(ob, off, 1) if *ob == inp.quants => {
                    let (c, ts) = lin_parts(*off);
                    if ts.len() == 1 && ts[0].1 == 10 && (0..10).contains(&c) {
                        if let Node::Cell(to, fo, 4) = node(ts[0].0) { if *to == inp.tiles { if let Some(k) = as_const(*fo) {
                            if !o.at.is_empty() { return Some(canon(8, 1 + k, c)); }
                            let mut x = tab.borrow_mut();
                            if x.map_or(false, |y| y != k) { bad("more than one quant table".into()); }
                            *x = Some(k);
                            return Some(quant(c));
                        } } }
                    }
                    bad(format!("quant table bytes {}", show(*off)));
                    None
                }
                Node::Cell(ob, off, 2) if lazies.iter().any(|l| l.0 == *ob) => match as_const(*off) { Some(k) if k % 2 == 0 => { let p = lazies.iter().position(|l| l.0 == *ob).unwrap() as i64; Some(histo(k / 8192 + 3 * p, k % 8192 / 2)) } _ => { bad(format!("history offset {}", show(*off))); None } },
                Node::Hav(tg, ob, off, nb) if *ob == h && *tg == tag0 => {
                    if let Some(k) = as_const(*off) { if let Some(i) = bufs.iter().position(|b| k >= b.0 && k < b.1) {
                        if !written[i] { return Some(0); }
                        let r = canon(10, k * 16 + *nb as i64, 0);
                        if *nb != 1 { let (l, hh) = rng(t); set_rng(r, l, hh); }
                        return Some(r);
                    } }
                    *nstale.borrow_mut() += 1;
                    bad("memory of the handle".into());
                    None
                }
                _ => None,
            }
        };
        let mut sb = Subst::new(&f);
        let mut planes = vec![];
        for e in st.entries() {
            if let Entry::Coder { kind, off, len, coefs, line, func, cobj, coff, .. } = e.e.clone() {
                *foreign.borrow_mut() = None;
                *tab.borrow_mut() = None;
                let cs: Vec<T> = coefs.iter().map(|&t| sb.go(t)).collect();
                // memoised leaves do not call back: look for what is left
                if foreign.borrow().is_none() {
                    let mut ls = vec![];
                    let mut seen = HashMap::default();
                    for &t in &cs { leaves(t, &mut seen, &mut ls); }
                    for l in ls { if !matches!(node(l), Node::Sym(_)) { *foreign.borrow_mut() = Some(show(l)); } }
                }
                let mut table = *tab.borrow();
                if kind == Cut::Comp as u8 { table = if cobj == inp.quants { lin_parts(coff).1.first().and_then(|x| if let Node::Cell(_, fo, _) = node(x.0) { as_const(*fo) } else { None }) } else { None }; }
                let foreign = foreign.borrow().clone();
                planes.push(PlaneRec { kind, coefs: Rc::new(cs), line, func, off, len, foreign, table });
            }
        }
        // history tables touched
        let mut hist = vec![];
        let mut slots = vec![];
        if cfg.pro() {
            let tw = st.obj(h).unwrap().tabw.clone();
            for (off, v) in tw.iter() {
                if slots.contains(off) { continue; }
                // the last entry for a slot holds
                let v = tw.iter().rev().find(|e| e.0 == *off).map_or(*v, |e| e.1);
                slots.push(*off);
                if let V::P(id, _, nn) = v { if id != 0 && st.decide(nn) != Some(false) && as_const(nn) != Some(0) {
                    let old = lazies.iter().position(|l| l.0 == id).map(|x| x as i64);
                    if let Some(ob) = st.obj(id) { let mut hv = vec![]; for k in 0..3 * 4096usize { match ob.read(2 * k, 2, be) { V::I(t) => hv.push(sb.go(wrap_s(16, t))), _ => return unsup("history value") } } hist.push((*off, hv, old)); }
                } }
            }
        }
        out.push(Fin { ok, planes, st, ret: t, hist, slots });
    }
    let stats = Stats0 { steps: j.m.stats.steps, funcs: j.m.visited.iter().map(|&f| j.m.fnames[f as usize].clone()).chain(j.m.asm_funcs.iter().cloned()).collect(), viols: j.m.viols.len(), names: j.m.fnames.clone() };
    Ok((out, stats))
}
pub struct Stats0 { pub steps: u64, pub funcs: Vec<String>, pub viols: usize, pub names: Vec<String> }

// ---------------------------------------------------------------- the definitions
pub fn level_shift(p: T) -> T { scale(addc(p, -128), 32) }
pub fn w16(t: T) -> T { wrap_s(16, t) }
/// one 5/3 lifting step of a line of even length, symmetric at both ends: (low, high)
pub fn lift(x: &[T]) -> (Vec<T>, Vec<T>) {
    let n = x.len() / 2;
    let mut h = vec![];
    let mut l = vec![];
    for k in 0..n {
        let nx = if 2 * k + 2 < x.len() { x[2 * k + 2] } else { x[2 * k] };
        h.push(w16(shr(sub(x[2 * k + 1], shr(add(x[2 * k], nx), 1)), 1)));
    }
    for k in 0..n { l.push(w16(add(x[2 * k], if k == 0 { h[0] } else { shr(add(h[k - 1], h[k]), 1) }))); }
    (l, h)
}
/// the reduce-extrapolate step: 64 samples are extrapolated to 65 (33 low, 31 high), 33 to 17/16, 17 to 9/8
pub fn lift_re(x: &[T]) -> (Vec<T>, Vec<T>) {
    let mut v: Vec<T> = x.to_vec();
    let ext = x.len() % 2 == 0;
    let n = x.len();
    if ext { let e = w16(sub(scale(x[n - 1], 2), x[n - 2])); v.push(e); }
    let m = v.len();
    let nl = (m + 1) / 2;
    // x mirrored beyond the last sample
    let at = |i: usize| -> T { if i < m { v[i] } else { v[2 * (m - 1) - i] } };
    let mut h = vec![];
    for k in 0..nl { h.push(w16(shr(sub(at(2 * k + 1), shr(add(at(2 * k), at(2 * k + 2)), 1)), 1))); }
    let mut l = vec![];
    for k in 0..nl {
        // the sample next to an extrapolated one has no high coefficient transmitted: it counts as zero
        let hp = if k == 0 { None } else { Some(h[k - 1]) };
        let last = nl - 1;
        let t = if k == 0 { add(v[0], h[0]) }
            else if ext && k == last { add(v[2 * k], shr(h[k], 1)) }
            else if ext && k == last - 1 { add(v[2 * k], shr(hp.unwrap(), 1)) }
            else { add(v[2 * k], shr(add(hp.unwrap(), h[k]), 1)) };
        l.push(t);
    }
    h.truncate(if ext { nl - 2 } else { nl - 1 });
    (l, h)
}
type Mat = Vec<Vec<T>>;
fn transpose(a: &Mat) -> Mat { if a.is_empty() { return vec![]; } (0..a[0].len()).map(|c| a.iter().map(|r| r[c]).collect()).collect() }
/// (HL, LH, HH, LL): columns first, then rows
fn step2(a: &Mat, f: &dyn Fn(&[T]) -> (Vec<T>, Vec<T>)) -> (Mat, Mat, Mat, Mat) {
    let cols = transpose(a);
    let (mut lo, mut hi) = (vec![], vec![]);
    for c in &cols { let (l, h) = f(c); lo.push(l.into_iter().map(w16).collect()); hi.push(h); }
    let (lo, hi) = (transpose(&lo), transpose(&hi));
    let (mut hl, mut lh, mut hh, mut ll) = (vec![], vec![], vec![], vec![]);
    for r in &lo { let (l, h) = f(r); ll.push(l); hl.push(h); }
    for r in &hi { let (l, h) = f(r); lh.push(l); hh.push(h); }
    (hl, lh, hh, ll)
}
/// round to the nearest multiple of 2^(q-1): the samples carry five extra bits, so the shift is q-6+5
pub fn quantise(x: T, q: T) -> T { let f = addc(q, -1); w16(shrv(add(x, pow2(addc(f, -1))), f)) }
/// nibble index (low nibble first) of each sub-band in the five bytes of a table: LL3 LH3 HL3 HH3 LH2 HL2 HH2 LH1 HL1 HH1
const NIB: [i64; 10] = [8, 7, 9, 5, 4, 6, 2, 1, 3, 0]; // for HL1 LH1 HH1 HL2 LH2 HH2 HL3 LH3 HH3 LL3
pub fn spec(px: &dyn Fn(i64, i64) -> T, q: &dyn Fn(i64) -> T, re: bool, diff: bool) -> Vec<T> {
    let mut a: Mat = (0..64).map(|r| (0..64).map(|c| level_shift(px(r, c))).collect()).collect();
    let mut out = vec![];
    for lv in 0..3 {
        let (hl, lh, hh, ll) = if re { step2(&a, &lift_re) } else { step2(&a, &lift) };
        for (i, b) in [hl, lh, hh].iter().enumerate() { let n = q(NIB[3 * lv + i]); for r in b { for &x in r { out.push(quantise(x, n)); } } }
        a = if lv < 2 { ll.into_iter().map(|r| r.into_iter().map(w16).collect()).collect() } else { ll };
    }
    let n = q(NIB[9]);
    let start = out.len();
    for r in &a { for &x in r { out.push(quantise(x, n)); } }
    if diff { for k in (start + 1..out.len()).rev() { out[k] = w16(sub(out[k], out[k - 1])); } }
    out
}
/// the planes that enter the transform for a packed pixel
pub fn colour(k: usize, b: T, g: T, r: T) -> T {
    let m = [[19595, 38470, 7471], [-11071, -21736, 32807], [32756, -27429, -5327]][k];
    let t = shr(add(add(scale(r, m[0]), scale(g, m[1])), scale(b, m[2])), 16);
    if k == 0 { t } else { addc(t, 128) }
}

// ---------------------------------------------------------------- comparison
/// a valuation under which two lists of terms differ: (index, left, right, description)
pub fn separate(a: &[T], b: &[T], guard: &dyn Fn(usize, &mut HashMap<T, i64, Fx>) -> bool) -> (usize, Option<(usize, i64, i64, String)>) {
    let df: Vec<usize> = (0..a.len().min(b.len())).filter(|&i| a[i] != b[i]).collect();
    if df.is_empty() { return (0, None); }
    let try_on = |memo: &mut HashMap<T, i64, Fx>, seed: u64, what: &str| -> Option<(usize, i64, i64, String)> {
        for &i in &df {
            let (x, y) = (eval(a[i], seed, memo), eval(b[i], seed, memo));
            if x != y && guard(i, memo) { return Some((i, x, y, what.to_string())); }
        }
        None
    };
    for seed in 0..8u64 {
        let mut memo: HashMap<T, i64, Fx> = HashMap::default();
        if let Some(r) = try_on(&mut memo, seed, "pseudo-random samples") { return (df.len(), Some(r)); }
    }
    // extreme points of the coefficients that differ
    let step = (df.len() / 12).max(1);
    for &i in df.iter().step_by(step) {
        for t in [a[i], b[i], sub(a[i], b[i])] {
            let mut inner = vec![t];
            // look below wraps and shifts by a symbolic amount
            let mut seen: HashMap<T, (), Fx> = HashMap::default();
            collect_inner(t, &mut seen, &mut inner, 0);
            for u in inner.into_iter().take(6) {
                if let Some(af) = aff(u) {
                    for sgn in [1.0, -1.0] { for qs in [6i64, 15, 10] {
                        let mut memo: HashMap<T, i64, Fx> = HashMap::default();
                        for &(x, k) in &af.terms { if !matches!(node(x), Node::Sym(_)) { continue; } let (l, h) = rng(x); memo.insert(x, if k * sgn > 0.0 { h } else { l }); }
                        for n in 0..10 { memo.insert(quant(n), qs); }
                        if let Some(r) = try_on(&mut memo, 4, "extreme samples") { return (df.len(), Some(r)); }
                    } }
                }
            }
        }
    }
    (df.len(), None)
}
fn collect_inner(t: T, seen: &mut HashMap<T, (), Fx>, out: &mut Vec<T>, d: u32) {
    if d > 6 || out.len() > 8 || seen.insert(t, ()).is_some() { return; }
    match node(t) {
        Node::ShrV(x, _) | Node::WrapS(_, x) | Node::WrapU(_, x) | Node::Shr(x, _) => { out.push(*x); collect_inner(*x, seen, out, d + 1) }
        Node::Lin(_, ts) => for &(x, _) in ts.iter().take(4) { collect_inner(x, seen, out, d + 1) },
        Node::Ite(c, x, y) => { for z in [*c, *x, *y] { collect_inner(z, seen, out, d + 1) } }
        Node::Ge0(x) | Node::Eq0(x) => { out.push(*x); collect_inner(*x, seen, out, d + 1) }
        _ => {}
    }
}
pub fn stale_in(cs: &[T]) -> Option<usize> {
    let mut seen: HashMap<T, (), Fx> = HashMap::default();
    for (i, &t) in cs.iter().enumerate() { let mut ls = vec![]; leaves(t, &mut seen, &mut ls); if ls.iter().any(|&l| is_stale(l)) { return Some(i); } }
    None
}

/// the byte stored last at a constant distance from a plane's data
pub fn byte_at(st: &State, at: T, be: bool) -> Option<(T, u32, u32)> {
    for e in st.entries().iter().rev() {
        if let Entry::W { off, n, v: V::I(t), line, func } = &e.e {
            if let Some(d) = as_const(st.simp(sub(at, *off))) { if d >= 0 && d < *n as i64 { let k = if be { *n as i64 - 1 - d } else { d }; return Some((st.simp(wrap_u(8, shr(*t, (8 * k) as u8))), *line, *func)); } }
        }
    }
    None
}
#[derive(Default)]
pub struct Out { pub rows: Vec<(String, String, u32, String, String)>, pub unsure: Vec<String>, pub funcs: std::collections::BTreeSet<String>, pub compared: u64, pub planes: u64, pub runs: u64, pub steps: u64 }
impl Out {
    fn viol(&mut self, kind: &str, names: &[String], func: u32, line: u32, cfg: &str, msg: String) {
        let r = (kind.to_string(), names.get(func as usize).cloned().unwrap_or_default(), line, msg, cfg.to_string());
        if !self.rows.iter().any(|x| x.0 == r.0 && x.1 == r.1 && x.2 == r.2) { self.rows.push(r); }
    }
    fn take(&mut self, s: &Stats0) { self.steps += s.steps; self.runs += 1; for f in &s.funcs { self.funcs.insert(f.clone()); } }
}
fn free(_: usize, _: &mut HashMap<T, i64, Fx>) -> bool { true }
/// sub-band and position of a coefficient
fn where_is(re: bool, i: usize) -> String {
    let w: &[(&str, usize, usize)] = if re { &[("HL1", 31, 33), ("LH1", 33, 31), ("HH1", 31, 31), ("HL2", 16, 17), ("LH2", 17, 16), ("HH2", 16, 16), ("HL3", 8, 9), ("LH3", 9, 8), ("HH3", 8, 8), ("LL3", 9, 9)] } else { &[("HL1", 32, 32), ("LH1", 32, 32), ("HH1", 32, 32), ("HL2", 16, 16), ("LH2", 16, 16), ("HH2", 16, 16), ("HL3", 8, 8), ("LH3", 8, 8), ("HH3", 8, 8), ("LL3", 8, 8)] };
    let mut k = i;
    for &(n, c, r) in w { if k < c * r { return format!("coefficient {} ({} row {} column {})", i, n, k / c, k % c); } k -= c * r; }
    format!("coefficient {}", i)
}
/// default quant table, nibble by nibble
fn default_quant(n: i64) -> T { let t = [0x66i64, 0x66, 0x77, 0x88, 0x98][(n / 2) as usize]; cst(if n % 2 == 0 { t & 15 } else { t >> 4 }) }
/// coefficients of planar input against the definition and between code paths
pub fn coef(md: &Module, prog: &Option<Rc<asm::Prog>>, cfgs: &[Cfg], align: i64, out: &mut Out) {
    let mut base: HashMap<(bool, bool), Vec<Rc<Vec<T>>>> = HashMap::new();
    let mut specs: HashMap<(bool, usize, bool), Vec<T>> = HashMap::new();
    for cfg in cfgs {
        let (fs, st) = match one_tile(md, prog, cfg, &Opt { comp: false, align, room: 1 << 20, at: vec![] }) { Ok(x) => x, Err(e) => { out.unsure.push(format!("{}: {:?}", cfg.name(), e)); continue; } };
        out.take(&st);
        let nm = cfg.name();
        let portable = cfg.cflags & F_NOACCEL != 0 || !cfg.cpu.0;
        let oks: Vec<&Fin> = fs.iter().filter(|f| f.ok).collect();
        if oks.is_empty() { out.unsure.push(format!("{}: no frame delivered", nm)); }
        for f in oks {
            if f.planes.len() < 3 { out.unsure.push(format!("{}: {} planes", nm, f.planes.len())); continue; }
            for k in 0..3 {
                let p = &f.planes[k];
                out.planes += 1;
                if let Some(x) = &p.foreign { out.unsure.push(format!("{}: plane {} depends on {}", nm, k, x)); continue; }
                if let Some(i) = stale_in(&p.coefs) { out.viol(if portable { "C09+C12" } else { "C09+C13" }, &st.names, p.func, p.line, &nm, format!("{} of plane {} depends on what the handle's scratch memory held before", where_is(false, i), k)); continue; }
                let yuv = cfg.fmt == 4;
                let sp = specs.entry((cfg.qnull, k, yuv)).or_insert_with(|| spec(&|r, c| if yuv { plane_px(k as u8, r, c) } else { colour(k, chan_px(0, r, c), chan_px(1, r, c), chan_px(2, r, c)) }, &|n| if cfg.qnull { default_quant(n) } else { quant(n) }, false, true)).clone();
                out.compared += 4096;
                let (n, w) = separate(&p.coefs, &sp, &free);
                let b = if portable { None } else { base.get(&(cfg.qnull, yuv)).map(|b| b[k].clone()) };
                match (n, w) {
                    (0, _) => {}
                    (_, Some((i, x, y, how))) if portable => out.viol(if cfg.qnull { "C08+C12" } else { "C12" }, &st.names, p.func, p.line, &nm, format!("{} of plane {} is {} where the definition gives {} ({}; {} coefficients have another form)", where_is(false, i), k, x, y, how, n)),
                    (_, None) if portable => out.unsure.push(format!("{}: {} coefficients of plane {} have another form than the definition, no difference found", nm, n, k)),
                    _ => {}
                }
                if let Some(b) = b {
                    out.compared += 4096;
                    match separate(&p.coefs, &b, &free) {
                        (0, _) => {}
                        (n, Some((i, x, y, how))) => out.viol("C13", &st.names, p.func, p.line, &nm, format!("{} of plane {} is {} where the portable path gives {} ({}; {} coefficients have another form)", where_is(false, i), k, x, y, how, n)),
                        (n, None) => out.unsure.push(format!("{}: {} coefficients of plane {} have another form than the portable path's, no difference found", nm, n, k)),
                    }
                }
            }
            let yuv = cfg.fmt == 4;
            if portable && !base.contains_key(&(cfg.qnull, yuv)) { base.insert((cfg.qnull, yuv), f.planes.iter().map(|p| p.coefs.clone()).collect()); }
        }
    }
}
/// what enters the transform for packed pixels: colour transform, format layout, padding
pub fn pad(md: &Module, prog: &Option<Rc<asm::Prog>>, fmts: &[(i64, i64)], sizes: &[(i64, i64)], out: &mut Out) {
    let run = |cfg: &Cfg, out: &mut Out| -> Option<(Fin, Vec<String>)> {
        match one_tile(md, prog, cfg, &Opt { comp: true, align: 8, room: 1 << 20, at: vec![] }) {
            Ok((fs, st)) => { out.take(&st); let mut v: Vec<Fin> = fs.into_iter().filter(|f| f.ok).collect(); if v.len() != 1 { out.unsure.push(format!("{}: {} outcomes", cfg.name(), v.len())); } let want = if cfg.alpha() { 4 } else { 3 }; let f = v.pop()?; if f.planes.len() != want { out.unsure.push(format!("{}: {} planes", cfg.name(), f.planes.len())); return None; } Some((f, st.names)) }
            Err(e) => { out.unsure.push(format!("{}: {:?}", cfg.name(), e)); None }
        }
    };
    let mk = |f: i64, a: i64, cx: i64, cy: i64| { let mut c = Cfg::new(f, 64); c.eflags = a; c.cx = cx; c.cy = cy; c };
    let mut refp: Option<Vec<Rc<Vec<T>>>> = None;
    let mut order: Vec<(i64, i64)> = vec![];
    if fmts.iter().any(|f| f.0 < 4) { order.push((0, 0)); }
    for &f in fmts { if f != (0, 0) { order.push(f); } }
    for (fmt, al) in order {
        let cfg = mk(fmt, al, 64, 64);
        let nm = cfg.name();
        let (full, names) = match run(&cfg, out) { Some(x) => x, None => continue };
        let px = |k: usize, i: i64| -> T { if fmt == 4 { plane_px(k as u8, i / 64, i % 64) } else if k == 3 { chan_px(3, i / 64, i % 64) } else { colour(k, chan_px(0, i / 64, i % 64), chan_px(1, i / 64, i % 64), chan_px(2, i / 64, i % 64)) } };
        for (k, p) in full.planes.iter().enumerate() {
            out.planes += 1;
            if let Some(x) = &p.foreign { out.unsure.push(format!("{}: plane {} depends on {}", nm, k, x)); continue; }
            if let Some(i) = stale_in(&p.coefs) { out.viol("C09", &names, p.func, p.line, &nm, format!("sample {},{} of plane {} depends on what the handle's scratch memory held before", i / 64, i % 64, k)); continue; }
            if k == 3 && cfg.bpp() == 3 && fmt != 4 { continue; }
            let sp: Vec<T> = (0..4096).map(|i| px(k, i)).collect();
            out.compared += 4096;
            match separate(&p.coefs, &sp, &free) {
                (0, _) => {}
                (n, Some((i, x, y, how))) => { let m = format!("sample row {} column {} of plane {} is {} where {} is right ({}; {} samples have another form)", i / 64, i % 64, k, x, y, how, n); out.viol(if k == 3 { "C10+C21" } else { "C11" }, &names, p.func, p.line, &nm, m); }
                (n, None) => out.unsure.push(format!("{}: {} samples of plane {} have another form than the definition, no difference found", nm, n, k)),
            }
            if k < 3 && fmt < 4 { if let Some(b) = &refp {
                out.compared += 4096;
                match separate(&p.coefs, &b[k], &free) {
                    (0, _) => {}
                    (n, Some((i, x, y, how))) => out.viol("C10", &names, p.func, p.line, &nm, format!("sample row {} column {} of plane {} is {} where the same picture as BGRA gives {} ({}; {} samples have another form)", i / 64, i % 64, k, x, y, how, n)),
                    (n, None) => out.unsure.push(format!("{}: {} samples of plane {} have another form than those of BGRA, no difference found", nm, n, k)),
                }
            } }
        }
        if fmt == 0 && al == 0 { refp = Some(full.planes.iter().map(|p| p.coefs.clone()).collect()); }
        if fmt == 4 { continue; }
        for &(cx, cy) in sizes {
            let cfg = mk(fmt, al, cx, cy);
            let nm = cfg.name();
            let (pf, names) = match run(&cfg, out) { Some(x) => x, None => continue };
            let mut map: HashMap<T, T, Fx> = HashMap::default();
            for ch in 0..4u8 { for r in 0..64i64 { for c in 0..64i64 { if r >= cy || c >= cx { map.insert(chan_px(ch, r, c), chan_px(ch, r.min(cy - 1), c.min(cx - 1))); } } } }
            let f = |x: T, _: &Node| map.get(&x).cloned();
            let mut sb = Subst::new(&f);
            for (k, p) in pf.planes.iter().enumerate() {
                out.planes += 1;
                if let Some(x) = &p.foreign { if !x.starts_with("pixel row") { out.unsure.push(format!("{}: plane {} depends on {}", nm, k, x)); continue; } }
                if let Some(x) = &p.foreign { out.viol("C09", &names, p.func, p.line, &nm, format!("plane {} depends on {}", k, x)); continue; }
                if let Some(i) = stale_in(&p.coefs) { out.viol("C09", &names, p.func, p.line, &nm, format!("sample row {} column {} of plane {} depends on what the handle's scratch memory held before", i / 64, i % 64, k)); continue; }
                let want: Vec<T> = full.planes[k].coefs.iter().map(|&t| sb.go(t)).collect();
                out.compared += 4096;
                match separate(&p.coefs, &want, &free) {
                    (0, _) => {}
                    (n, Some((i, x, y, how))) => out.viol("C09", &names, p.func, p.line, &nm, format!("sample row {} column {} of plane {} is {} where repeating the edge gives {} ({}; {} samples have another form)", i / 64, i % 64, k, x, y, how, n)),
                    (n, None) => out.unsure.push(format!("{}: {} samples of plane {} have another form than the padded full tile's, no difference found", nm, n, k)),
                }
            }
        }
    }
}
/// progressive tiles: coefficients, flag and history
pub fn pro(md: &Module, prog: &Option<Rc<asm::Prog>>, cfg: &Cfg, at: &[(i64, i64)], room: i64, out: &mut Out) {
    let mut nm = cfg.name();
    if !at.is_empty() { nm += &format!(" at {:?}", at); }
    if room < 1 << 20 { nm += &format!(" room {}", room); }
    let (fs, st) = match one_tile(md, prog, cfg, &Opt { comp: false, align: 8, room, at: at.to_vec() }) { Ok(x) => x, Err(e) => { out.unsure.push(format!("{}: {:?}", nm, e)); return; } };
    out.take(&st);
    let be = md.big_endian;
    let key = cfg.eflags & F_KEY != 0;
    let ntl = at.len().max(1);
    let mut specs: Vec<Vec<Vec<T>>> = vec![];
    let mut ideal: Vec<Vec<Vec<T>>> = vec![];
    for i in 0..ntl { let mut v = vec![]; for k in 0..3usize {
        let qf = |n: i64| if cfg.qnull { default_quant(n) } else if at.is_empty() { quant(n) } else { canon(8, 1 + 28 * i as i64 + [16, 20, 24][k], n) };
        let pi = if at.is_empty() { 0 } else { at.iter().position(|x| *x == at[i]).unwrap() };
        v.push(spec(&|r, c| canon(k as u8, r, c + 64 * pi as i64), &qf, true, false));
    } specs.push(v); }
    let _ = &mut ideal;
    // two grid positions whose slot has the same address
    let clash = |s: T| -> Result<Option<((i64, i64), (i64, i64))>, ()> {
        let mut ls = vec![];
        leaves(s, &mut HashMap::default(), &mut ls);
        let pos = |l: T| match node(l) { Node::Cell(_, o, 4) => as_const(*o).filter(|o| *o == 0 || *o == 4), _ => None };
        if ls.iter().any(|&l| pos(l).is_none()) { return Err(()); }
        let cell = |o: i64| ls.iter().cloned().find(|&l| pos(l) == Some(o));
        let (cx, cy) = (cell(0), cell(4));
        let mut seen: HashMap<i64, (i64, i64)> = HashMap::new();
        for x in 0..64 { for y in 0..64 {
            let mut m: HashMap<T, i64, Fx> = HashMap::default();
            if let Some(c) = cx { m.insert(c, x); }
            if let Some(c) = cy { m.insert(c, y); }
            if let Some(o) = seen.insert(eval(s, 1, &mut m), (x, y)) { return Ok(Some((o, (x, y)))); }
        } }
        Ok(None)
    };
    let e0 = |v: &mut Out, kind: &str, p: &PlaneRec, msg: String| v.viol(kind, &st.names, p.func, p.line, &nm, msg);
    let mut delivered = 0;
    for f in &fs {
        // histories as they should be: by slot
        let mut cur: HashMap<T, Option<Vec<T>>> = HashMap::new();
        let mut oldn: HashMap<T, Option<i64>> = HashMap::new();
        for (off, _, old) in &f.hist { oldn.insert(*off, *old); }
        if at.is_empty() { for s in &f.slots { match clash(*s) {
            Ok(None) => {}
            Ok(Some((p, q))) => { let (fu, li) = f.planes.first().map_or((0, 0), |p| (p.func, p.line)); out.viol("C15", &st.names, fu, li, &nm, format!("the grid positions {:?} and {:?} share one history", p, q)); }
            Err(()) => out.unsure.push(format!("{}: history slot {}", nm, show(*s))),
        } } }
        let nt = f.planes.len() / 3;
        let complete = if f.ok { as_const(f.ret).unwrap_or(-1).max(0) as usize } else { 0 };
        if f.ok && (complete > nt || as_const(f.ret).is_none()) { out.unsure.push(format!("{}: result {}", nm, show(f.ret))); continue; }
        let mut bad = false;
        // in this frame each distinct position has one slot, in order of first use
        let mut pos: Vec<(i64, i64)> = vec![];
        for i in 0..complete.max(nt.min(ntl)) { let q = if at.is_empty() { (0, 0) } else { at[i] }; if !pos.contains(&q) { pos.push(q); } }
        for i in 0..complete {
            let q = if at.is_empty() { (0, 0) } else { at[i] };
            let slot = match f.slots.get(pos.iter().position(|x| *x == q).unwrap()) { Some(&s) => s, None => { out.viol("C15", &st.names, f.planes[3 * i].func, f.planes[3 * i].line, &nm, "a tile's position has no history of its own".into()); bad = true; break; } };
            let old = oldn.get(&slot).cloned().flatten();
            let h: Vec<T> = match cur.get(&slot).cloned().flatten() { Some(h) => h, None => match old { Some(o) if !key => (0..3 * 4096).map(|x| histo(x / 4096 + 3 * o, x % 4096)).collect(), _ => vec![0; 3 * 4096] } };
            let p0 = &f.planes[3 * i];
            let flag = match byte_at(&f.st, addc(p0.off, -9), be) { Some((t, l, fu)) => match as_const(t) { Some(v) => { if v > 1 { out.viol("C14", &st.names, fu, l, &nm, format!("tile flags are {}", v)); bad = true; break; } v } None => { out.unsure.push(format!("{}: tile flags {}", nm, show(t))); bad = true; break; } }, None => { out.unsure.push(format!("{}: tile flags not found", nm)); bad = true; break; } };
            let mut nh = vec![];
            for k in 0..3 {
                let p = &f.planes[3 * i + k];
                out.planes += 1;
                if let Some(x) = &p.foreign { out.unsure.push(format!("{}: plane {} depends on {}", nm, k, x)); bad = true; break; }
                if let Some(x) = stale_in(&p.coefs) { e0(out, "C09+C14", p, format!("{} of plane {} depends on what the handle's scratch memory held before", where_is(true, x), k)); bad = true; break; }
                let sp = &specs[i][k];
                let hk = &h[4096 * k..4096 * (k + 1)];
                let mut want: Vec<T> = if flag == 1 { (0..4096).map(|x| w16(sub(sp[x], hk[x]))).collect() } else { sp.clone() };
                let plain = want.clone();
                for x in (4016..4096).rev() { want[x] = w16(sub(plain[x], plain[x - 1])); }
                out.compared += 8192;
                match separate(&p.coefs, &want, &|_, m| in_range(&specs[i][k], m)) {
                    (0, _) => {}
                    (n, Some((x, a, b, how))) => { e0(out, "C14", p, format!("{} of plane {} of a {} tile is {} where the definition gives {} ({}; {} coefficients have another form)", where_is(true, x), k, if flag == 1 { "difference" } else { "non-difference" }, a, b, how, n)); }
                    (n, None) => out.unsure.push(format!("{}: {} coefficients of plane {} have another form than the definition, no difference found", nm, n, k)),
                }
                // what a decoder makes of it
                let mut d: Vec<T> = p.coefs.to_vec();
                for x in 4016..4096 { d[x] = w16(add(d[x], d[x - 1])); }
                nh.extend((0..4096).map(|x| if flag == 1 { w16(add(d[x], hk[x])) } else { d[x] }));
            }
            if bad { break; }
            if key && flag == 1 && old.is_some() && cur.get(&slot).is_none() { e0(out, "C15", p0, "a key frame sends a difference to a history the decoder has dropped".into()); }
            cur.insert(slot, Some(nh));
            delivered += 1;
        }
        if bad { continue; }
        for (off, now, old) in &f.hist {
            let want: Vec<T> = match cur.get(off).cloned().flatten() { Some(h) => h, None => match old { Some(o) if !key => (0..3 * 4096).map(|x| histo(x / 4096 + 3 * o, x % 4096)).collect(), Some(_) => continue, None => vec![0; 3 * 4096] } };
            out.compared += 3 * 4096;
            let upd = cur.get(off).map_or(false, |x| x.is_some());
            match separate(now, &want, &free) {
                (0, _) => {}
                (n, Some((x, a, b, how))) => {
                    let (fu, li) = f.planes.last().map_or((0, 0), |p| (p.func, p.line));
                    let pl = x / 4096;
                    out.viol("C15", &st.names, fu, li, &nm, if upd { format!("after a delivered tile the history of plane {} ({}) is {} where a decoder has {} ({}; {} values have another form)", pl, where_is(true, x % 4096), a, b, how, n) } else { format!("although no tile was delivered the history of plane {} ({}) changed from {} to {} ({} values)", pl, where_is(true, x % 4096), b, a, n) });
                }
                (n, None) => out.unsure.push(format!("{}: {} history values have another form than the decoder's, no difference found", nm, n)),
            }
        }
    }
    if delivered == 0 && room >= 1 << 20 { out.unsure.push(format!("{}: no tile delivered", nm)); }
}
/// the definition's values fit the 16 bits a coefficient has
fn in_range(_sp: &[T], _m: &mut HashMap<T, i64, Fx>) -> bool { true }
