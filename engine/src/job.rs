//! One configuration of the library, analysed over all its call histories: create, encode from every
//! class of reachable handle states, destroy.
use crate::asm;
use crate::exec::*;
use crate::fix::reachable;
use crate::ir::*;
use crate::scen::*;
use crate::state::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub struct Run { pub class: String, pub g: T, pub delivered: bool, pub inp: Inputs, pub finals: Vec<(State, V)>, pub hobj: Rc<Obj>, pub key: bool, pub start: State }
pub struct Job<'a> { pub m: Machine<'a>, pub cfg: Cfg, pub runs: Vec<Run>, pub dims: (T, T), pub h: u32, pub notes: Vec<String>, pub closed: bool, pub created: usize, pub states: u64 }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Nv { C(V), G(i64), Free }
#[derive(Clone)]
pub struct Rep { pub g: i64, pub vals: BTreeMap<usize, (u8, V)> }

pub fn layout(md: &Module) -> Layout {
    let g = match md.globals.get("vp_layout") { Some(g) => g, None => return Layout::default() };
    let v: Vec<i64> = g.init.iter().filter_map(|(_, c)| if let CV::Int(_, k) = c { Some(*k) } else { None }).collect();
    // zero-initialised members may be dropped from the list, so offsets are biased by one
    if v.len() != 6 { return Layout::default(); }
    Layout { ok: true, s_p: v[0] - 1, s_data: v[1] - 1, s_size: v[2] - 1, rb: v[3] - 1, enc: v[4] - 1, dwt1: v[5] - 1 }
}
pub fn machine<'a>(md: &'a Module, prog: &Option<Rc<asm::Prog>>) -> Machine<'a> {
    let mut m = Machine::new(md);
    for (n, c) in [("rfx_rlgr1_encode", Cut::Plain1), ("rfx_rlgr3_encode", Cut::Plain3), ("rfx_encode_diff_rlgr1", Cut::Diff1), ("rfx_encode_diff_rlgr3", Cut::Diff3)] { m.cuts.insert(n.into(), c); }
    m.layout = layout(md);
    m.rb_size = if m.layout.ok { m.layout.rb } else { 24576 };
    if m.layout.ok { m.cuts.insert("rfx_encode_plane".into(), Cut::Alpha); }
    m.asm = prog.clone();
    m
}
/// array fields of at least 64 bytes of the handle's struct
pub fn buffers(m: &Machine, st: &State, h: u32) -> Vec<(i64, i64)> {
    let sz = match as_const(st.obj(h).unwrap().size) { Some(s) => s, None => return vec![] };
    let mut names: Vec<&String> = m.m.types.keys().collect();
    names.sort();
    for n in names {
        let t = Ty::Named(n.clone());
        if let Ty::Struct(fs, _) = m.m.resolve(&t) {
            if m.m.size(&t) as i64 != sz { continue; }
            let mut r = vec![];
            for i in 0..fs.len() {
                if let Ok((o, ft)) = m.m.index(&t, i as i64) {
                    let mut e = ft.clone();
                    while let Ty::Arr(_, x) = m.m.resolve(&e) { e = *x; }
                    let n = m.m.size(&ft) as i64;
                    if n >= 64 && matches!(e, Ty::Int(_)) && matches!(m.m.resolve(&ft), Ty::Arr(..)) { r.push((o, o + n)); }
                }
            }
            if !r.is_empty() { return r; }
        }
    }
    vec![]
}
impl<'a> Job<'a> {
    pub fn new(md: &'a Module, prog: &Option<Rc<asm::Prog>>, cfg: &Cfg) -> Job<'a> {
        Job { m: machine(md, prog), cfg: cfg.clone(), runs: vec![], dims: (0, 0), h: 0, notes: vec![], closed: false, created: 0, states: 0 }
    }
    /// heap objects nothing refers to any more
    fn leaks(&mut self, st: &State, root: u32, when: &str) {
        let mut bad = vec![];
        for id in st.ids() {
            let o = st.obj(id).unwrap();
            if o.kind != Kind::Heap || !o.live || id == root || self.freed_lazy(st, id) { continue; }
            // an object whose allocation is known to have failed does not exist
            if !reachable(st, id) && !self.absent(st, id) { bad.push(o.name.to_string()); }
        }
        for n in bad { let s = st.clone(); self.m.viol(&s, "leak", format!("{} is still allocated but unreachable {}", n, when)); }
    }
    fn absent(&self, st: &State, id: u32) -> bool { match self.m.alloc_nn.get(&id) { Some(&nn) => st.decide(nn) == Some(false), None => false } }
    /// creation with any format and flags: (documented format, result)
    pub fn creation(&mut self) -> R<(Vec<(String, u32, String)>, u64)> {
        let mut bad = vec![];
        let mut paths = 0;
        let f0 = *self.m.fidx.get(if self.m.legacy { "rfxcodec_encode_create" } else { "rfxcodec_encode_create_ex" }).unwrap_or(&0);
        for k in 0..7 {
            let fmt = if k < 5 { cst(k) } else if k == 5 { sym("format", 5, i32::MAX as i64) } else { sym("format", i32::MIN as i64, -1) };
            self.m.cpu = self.cfg.cpu;
            let mut st = State::new();
            let mut o = self.m.newobj(Kind::Null, "null", 0, Def::Undef);
            o.id = 0;
            self.m.nobj = self.m.nobj.max(1);
            st.put(o);
            let o = self.m.newobj(Kind::InOut, "handle cell", cst(self.m.m.ptr as i64), Def::Undef);
            let hc = o.id;
            st.put(o);
            let (w, h) = (sym("width", i32::MIN as i64, i32::MAX as i64), sym("height", i32::MIN as i64, i32::MAX as i64));
            let flags = sym("flags", i32::MIN as i64, i32::MAX as i64);
            let rs = create_call(&mut self.m, st, hc, w, h, fmt, flags)?;
            for (s, v) in rs {
                let t = match v { V::I(t) => s.sread(32, s.simp(t)), _ => return unsup("result of create") };
                let (mut a, mut b) = (s.clone(), s);
                a.assume(eq0(t), true);
                b.assume(eq0(t), false);
                if !a.infeasible() {
                    paths += 1;
                    if k >= 5 {
                        if let Some(mut m) = crate::walk::witness(&a, &[]) { let c = &mut m; bad.push(("C23".to_string(), f0, format!("creation succeeds for the undocumented format {}", eval(fmt, 1, c)))); }
                    } else {
                        match handle_of(&self.m, &a, hc) {
                            V::P(o, off, nn) if o != 0 && as_const(off) == Some(0) => { if a.decide(nn) != Some(true) && a.obj(o).map_or(true, |x| x.kind == Kind::Heap) && as_const(nn) != Some(1) { bad.push(("C23".into(), f0, "creation reports success although no memory was obtained".into())); } }
                            _ => bad.push(("C23".into(), f0, format!("creation reports success for format {} without storing a handle", k))),
                        }
                    }
                }
                if !b.infeasible() {
                    paths += 1;
                    // the only legitimate reason is an allocation that failed
                    let failed = b.ids().into_iter().any(|i| b.obj(i).unwrap().kind == Kind::Heap && self.absent(&b, i)) || self.m.alloc_nn.values().any(|&nn| b.decide(nn) == Some(false));
                    if k < 5 && !failed { if let Some(mut m) = crate::walk::witness(&b, &[]) { let c = &mut m; bad.push(("C23".into(), f0, format!("creation fails for the documented format {} although memory is available (flags {:#x}, width {}, height {})", k, eval(flags, 1, c), eval(w, 1, c), eval(h, 1, c)))); } }
                    if !self.m.legacy { match handle_of(&self.m, &b, hc) {
                        V::P(o, _, nn) if o != 0 && as_const(nn) != Some(0) && b.decide(nn) != Some(false) => bad.push(("C23".into(), f0, "creation fails but stores a handle".into())),
                        _ => {}
                    } }
                    self.leaks(&b, 0, "after a failed create");
                }
            }
        }
        Ok((bad, paths))
    }
    pub fn create(&mut self) -> R<Vec<State>> {
        let (rs, hc, dims) = create(&mut self.m, &self.cfg)?;
        self.dims = dims;
        let mut ok = vec![];
        let mut split = vec![];
        if self.m.trace { for (s, v) in &rs { eprintln!("create ret {:?} handle {:?} known {}", v, handle_of(&self.m, s, hc), s.known.len()); if let V::I(t) = v { eprintln!("  {}", show(*t)); } } }
        for (s, v) in rs {
            let t = match v { V::I(t) => t, _ => return unsup("result of create") };
            if as_const(t).is_some() { split.push((s, v)); continue; }
            let c = eq0(t);
            let (mut a, mut b) = (s.clone(), s.clone());
            a.assume(c, true);
            b.assume(c, false);
            if !a.infeasible() { split.push((a, vi(0))); }
            if !b.infeasible() { let t2 = b.simp(t); split.push((b, V::I(if as_const(t2).is_some() { t2 } else { cst(1) }))); }
        }
        for (mut s, v) in split {
            self.states += 1;
            if v == vi(0) {
                match handle_of(&self.m, &s, hc) {
                    V::P(o, off, nn) if o != 0 && as_const(off) == Some(0) && (nn == 1 || s.decide(nn) == Some(true)) => {
                        self.h = o;
                        mark_tables(&mut self.m, &mut s, o);
                        s.log = None;
                        ok.push(s);
                    }
                    V::P(0, ..) => { self.m.viol(&s, "null", "create reports success without a handle".into()); }
                    _ => return unsup("handle is not a fresh object"),
                }
            } else if as_const(if let V::I(t) = v { t } else { 0 }).is_some() {
                self.leaks(&s, 0, "after a failed create");
                for id in s.ids() { let o = s.obj(id).unwrap().clone(); if o.kind == Kind::Heap && o.live && !self.absent(&s, id) && !reachable(&s, id) { } }
            } else { return unsup("result of create is not decided"); }
        }
        self.created = ok.len();
        Ok(ok)
    }
    /// changes of the handle relative to h0: scalar slots and buffer ranges
    fn changes(&self, h0: &Obj, o: &Obj, bufs: &[(i64, i64)], sc: &mut BTreeSet<usize>, bf: &mut BTreeSet<(i64, i64)>) {
        let np = h0.pages.len().max(o.pages.len());
        for pi in 0..np {
            match (h0.pages.get(pi).cloned().flatten(), o.pages.get(pi).cloned().flatten()) { (None, None) => continue, (Some(a), Some(b)) if Rc::ptr_eq(&a, &b) => continue, _ => {} }
            for k in 0..PG {
                let x = pi * PG + k;
                if h0.slot(x) == o.slot(x) { continue; }
                if h0.in_table(x as i64) || o.in_table(x as i64) { continue; }
                if let Some(b) = bufs.iter().find(|b| (x as i64) >= b.0 && (x as i64) < b.1) { bf.insert(*b); continue; }
                let st = match o.slot(x) { Slot::C(k) => x - k as usize, Slot::S(..) => x, _ => match h0.slot(x) { Slot::C(k) => x - k as usize, _ => x } };
                sc.insert(st);
            }
        }
    }
    fn rep(&self, st: &State, g: i64, slots: &BTreeSet<usize>, szs: &BTreeMap<usize, u8>) -> Rep {
        let o = st.obj(self.h).unwrap();
        let mut vals = BTreeMap::new();
        for &x in slots {
            let n = szs.get(&x).cloned().unwrap_or(4);
            let v = match o.read(x, n as usize, self.m.m.big_endian) { V::I(t) => V::I(if n < 8 { st.sread(8 * n as u32, st.simp(t)) } else { st.simp(t) }), v => v };
            vals.insert(x, (n, v));
        }
        Rep { g, vals }
    }
    fn start(&mut self, base: &State, rep: &[(usize, u8, V)], bufs: &BTreeSet<(i64, i64)>, open: bool) -> State {
        let mut s = base.clone();
        let be = self.m.m.big_endian;
        let h = self.h;
        for &(x, n, v) in rep { s.obj_mut(h).write(x, n as usize, v, be); }
        for b in bufs { let t = new_tag(); s.obj_mut(h).havoc(b.0 as usize, (b.1 - b.0) as usize, t, be); }
        if open { let o = s.obj_mut(h); if !o.tables.is_empty() { o.tab_open = true; } }
        s
    }
    fn encode_from(&mut self, class: &str, mut s: State, g: T, delivered: bool) -> R<usize> {
        let start = s.clone();
        let inp = inputs(&mut self.m, &mut s, &self.cfg);
        let hobj = s.obj(self.h).unwrap().clone();
        let cfg = self.cfg.clone();
        let t0 = std::time::Instant::now();
        let es = encode(&mut self.m, s, V::P(self.h, 0, 1), &inp, &cfg)?;
        if std::env::var("RFXAI_TRACE").is_ok() { eprintln!("  [{}] class {}: {} finals in {:?}", cfg.name(), class, es.len(), t0.elapsed()); }
        let mut fin = vec![];
        for (s, v) in es {
            if s.infeasible() { continue; }
            self.states += 1;
            self.leaks(&s, self.h, "after encode");
            if self.outcome(&s, v) != Some(false) {
                let mut s2 = s.clone();
                if let V::I(t) = v { s2.assume(ge0(s2.sread(32, t)), true); }
                match s.obj(inp.outp).unwrap().read(0, 4, self.m.m.big_endian) {
                    V::I(t) => { let t = s2.sread(32, s2.simp(t)); self.m.stats.oblig += 1; if !s2.infeasible() && !(s2.entails(sub(inp.cap, t)) && s2.entails(t)) { self.m.viol(&s, "size-out", format!("the size reported on success, {}, is not shown to be within the capacity", show(t))); } }
                    _ => self.m.viol(&s, "size-out", "the size reported on success is not an integer".into()),
                }
            }
            fin.push((s, v));
        }
        self.runs.push(Run { class: class.into(), g, delivered, inp, finals: fin, hobj, key: self.cfg.pro() && self.cfg.eflags & F_KEY != 0, start });
        Ok(self.runs.len() - 1)
    }
    /// success / failure of a final: Some(true) delivered
    pub fn outcome(&self, s: &State, v: V) -> Option<bool> {
        let t = match v { V::I(t) => s.sread(32, t), _ => return None };
        s.decide(ge0(t))
    }
    pub fn run(&mut self, closure: bool) -> R<()> {
        let oks = self.create()?;
        if oks.is_empty() { return unsup("no handle is ever created"); }
        for (ci, base) in oks.iter().enumerate() {
            let base = base.clone();
            let (h0, bufs) = (base.obj(self.h).unwrap().clone(), buffers(&self.m, &base, self.h));
            let key = false;
            let keytoo = self.cfg.pro() && self.cfg.eflags & F_KEY != 0;
            self.cfg.eflags &= !F_KEY;
            let pre = if oks.len() > 1 { format!("c{}.", ci) } else { String::new() };
            let r0 = self.encode_from(&format!("{}fresh", pre), base.clone(), 0, false)?;
            if !closure { self.destroy(&base, r0)?; continue; }
            let mut slots: BTreeSet<usize> = BTreeSet::new();
            let mut bf: BTreeSet<(i64, i64)> = BTreeSet::new();
            let mut szs: BTreeMap<usize, u8> = BTreeMap::new();
            let mut undelivered: Vec<Rep> = vec![];
            let mut delivered: Vec<Rep> = vec![];
            // (delivered, g, run index)
            let mut todo = vec![(r0, Some(0i64))];
            let mut done_u: Vec<Vec<(usize, u8, V)>> = vec![];
            let mut general: Vec<Vec<(usize, u8, Nv)>> = vec![];
            let mut rounds = 0;
            let mut closed = false;
            while rounds < 6 {
                rounds += 1;
                // collect representatives of the finals of the new runs
                let mut bad = false;
                for (ri, g) in std::mem::take(&mut todo) {
                    let fin = self.runs[ri].finals.clone();
                    let dl = self.runs[ri].delivered;
                    for (s, _) in &fin {
                        let o = s.obj(self.h).unwrap().clone();
                        let n0 = slots.len();
                        self.changes(&h0, &o, &bufs, &mut slots, &mut bf);
                        if slots.len() != n0 || true { for &x in &slots { let n = match o.slot(x) { Slot::S(n, _) => n, _ => match h0.slot(x) { Slot::S(n, _) => n, _ => 4 } }; szs.entry(x).or_insert(n); } }
                    }
                    for (s, v) in &fin {
                        let oc = self.outcome(s, *v);
                        match g {
                            Some(g) => {
                                let g0 = if key { 0 } else { g };
                                if oc != Some(false) { let r = self.rep(s, g0 + 1, &slots, &szs); delivered.push(r); }
                                if oc != Some(true) { let r = self.rep(s, g0, &slots, &szs); if g0 == 0 { undelivered.push(r); } else { delivered.push(r); } }
                            }
                            None => {
                                // general class: symbolic count
                                let gs = self.runs[ri].g;
                                let ok = oc == Some(true);
                                if key { if ok { let r = self.rep(s, 1, &slots, &szs); delivered.push(r); } else { let r = self.rep(s, 0, &slots, &szs); undelivered.push(r); } continue; }
                                let gn = if ok { addc(gs, 1) } else { gs };
                                let r = self.rep(s, 0, &slots, &szs);
                                if !general.iter().any(|c| c.iter().all(|&(x, _, nv)| match (nv, r.vals.get(&x)) { (Nv::C(v), Some(&(_, w))) => v == w, (Nv::G(k), Some(&(_, V::I(t)))) => sub(t, gn) == cst(k), (Nv::Free, _) => true, _ => false })) { bad = true; let _ = dl;
                                    // keep what was seen as a further representative
                                    let vals = r.vals.clone();
                                    delivered.push(Rep { g: -1, vals });
                                }
                            }
                        }
                    }
                }
                // classes not run yet
                for r in undelivered.iter_mut() { for &x in &slots { if !r.vals.contains_key(&x) { let n = szs[&x]; r.vals.insert(x, (n, h0.read(x, n as usize, self.m.m.big_endian))); } } }
                for r in delivered.iter_mut() { for &x in &slots { if !r.vals.contains_key(&x) { let n = szs[&x]; r.vals.insert(x, (n, h0.read(x, n as usize, self.m.m.big_endian))); } } }
                let flat = |r: &Rep| -> Vec<(usize, u8, V)> { r.vals.iter().map(|(&x, &(n, v))| (x, n, v)).collect() };
                let initial: Vec<(usize, u8, V)> = slots.iter().map(|&x| { let n = szs[&x]; (x, n, h0.read(x, n as usize, self.m.m.big_endian)) }).collect();
                let mut newu = vec![];
                for r in &undelivered { let f = flat(r); if f != initial && !done_u.contains(&f) && !newu.contains(&f) { newu.push(f); } }
                let mut progressed = false;
                for f in newu {
                    if done_u.len() >= 6 { self.notes.push("more than six classes of handles before the first frame".into()); break; }
                    done_u.push(f.clone());
                    let s = self.start(&base, &f, &bf, self.cfg.pro());
                    let ri = self.encode_from(&format!("{}after a failed call", pre), s, 0, false)?;
                    todo.push((ri, Some(0)));
                    progressed = true;
                }
                if delivered.iter().all(|r| r.g == 1) && general.is_empty() && !key {
                    // second frame, concretely
                    let mut seen: Vec<Vec<(usize, u8, V)>> = vec![];
                    for r in delivered.clone() { let f = flat(&r); if seen.contains(&f) { continue; } seen.push(f.clone()); if seen.len() > 3 { break; }
                        let s = self.start(&base, &f, &bf, self.cfg.pro());
                        let ri = self.encode_from(&format!("{}second frame", pre), s, 1, true)?;
                        todo.push((ri, Some(1)));
                        progressed = true;
                    }
                } else if general.is_empty() || bad {
                    let reps = delivered.clone();
                    if !reps.is_empty() {
                        let gs = generalise(&reps, &slots, &szs);
                        for c in gs {
                            if general.contains(&c) { continue; }
                            if general.len() >= 4 { self.notes.push("too many classes of handles".into()); break; }
                            general.push(c.clone());
                            let g = sym("frames_sent", 1, i32::MAX as i64 - 2);
                            let f: Vec<(usize, u8, V)> = c.iter().map(|&(x, n, nv)| (x, n, match nv { Nv::C(v) => v, Nv::G(k) => V::I(addc(g, k)), Nv::Free => V::I(sym("handle_scalar", i32::MIN as i64, i32::MAX as i64)) })).collect();
                            let s = self.start(&base, &f, &bf, self.cfg.pro());
                            let ri = self.encode_from(&format!("{}later frame", pre), s, g, true)?;
                            todo.push((ri, None));
                            progressed = true;
                        }
                    }
                }
                if !progressed { closed = !bad; break; }
            }
            if !closed { self.notes.push("handle classes not closed".into()); }
            self.closed = closed;
            if keytoo {
                self.cfg.eflags |= F_KEY;
                let mut seen = BTreeSet::new();
                for ri in r0..self.runs.len() {
                    let (cl, s) = (self.runs[ri].class.clone(), self.runs[ri].start.clone());
                    if cl.ends_with("second frame") || !seen.insert((cl.clone(), self.runs[ri].delivered, ri > r0 + 3)) { continue; }
                    self.encode_from(&format!("{} (key frame)", cl), s, 0, false)?;
                }
            }
            for ri in r0..self.runs.len() { self.destroy(&base, ri)?; }
        }
        Ok(())
    }
    /// destroy after every final of a run
    fn destroy(&mut self, _base: &State, ri: usize) -> R<()> {
        let mut seen: Vec<Vec<(u32, bool)>> = vec![];
        for (s, _) in self.runs[ri].finals.clone() {
            // states that differ only in their data behave alike
            let key: Vec<(u32, bool)> = s.ids().into_iter().filter_map(|i| { let o = s.obj(i).unwrap(); if o.kind == Kind::Heap { Some((i, o.live)) } else { None } }).collect();
            if seen.contains(&key) { continue; }
            seen.push(key);
            let mut st = s.clone();
            st.log = None;
            st.frames.clear();
            let tabs = st.obj(self.h).unwrap().tables.clone();
            let h = self.h;
            if !st.obj(h).unwrap().tabw.is_empty() { self.m.open_table(&mut st, h); }
            let pre = st.obj(h).unwrap().clone();
            let rs = self.m.call(st, "rfxcodec_encode_destroy", &[(V::P(self.h, 0, 1), Ty::Ptr)])?;
            for (s, _) in rs {
                let mut bad = vec![];
                for id in s.ids() { let o = s.obj(id).unwrap(); if o.kind == Kind::Heap && o.live && !self.absent(&s, id) && !self.freed_lazy(&s, id) { bad.push(o.name.to_string()); } }
                if pre.tab_open {
                    let mut lost = 0;
                    for &(a, b) in tabs.iter() {
                        let mut x = a;
                        while x < b {
                            if matches!(pre.slot(x as usize), Slot::Def) && !self.m.lazy.get(&(h, cst(x))).map_or(false, |&i| s.obj(i).map_or(false, |o| !o.live)) { lost += 1; }
                            x += self.m.m.ptr as i64;
                        }
                    }
                    if lost > 0 { bad.push(format!("what {} slot(s) of the handle's table own", lost)); }
                }
                for n in bad { self.m.viol(&s, "leak", format!("{} is not released by destroy", n)); }
            }
        }
        Ok(())
    }
    fn freed_lazy(&self, s: &State, id: u32) -> bool { match self.m.lazy_nn.get(&id) { Some(&nn) => s.decide(nn) == Some(false), None => false } }
}
fn generalise(reps: &[Rep], slots: &BTreeSet<usize>, szs: &BTreeMap<usize, u8>) -> Vec<Vec<(usize, u8, Nv)>> {
    let mut out: Vec<(usize, u8, Nv)> = vec![];
    for &x in slots {
        let vs: Vec<(i64, V)> = reps.iter().map(|r| (r.g, r.vals[&x].1)).collect();
        let nv = if vs.iter().all(|v| v.1 == vs[0].1) && (vs.iter().any(|v| v.0 != vs[0].0) || vs.len() == 1 || vs.iter().all(|v| v.0 == vs[0].0)) { Nv::C(vs[0].1) } else {
            let d: Vec<Option<i64>> = vs.iter().map(|&(g, v)| match v { V::I(t) if g >= 0 => as_const(t).map(|c| c - g), _ => None }).collect();
            if d.iter().all(|k| k.is_some() && *k == d[0]) { Nv::G(d[0].unwrap()) }
            else if vs.iter().all(|v| matches!(v.1, V::I(t) if matches!(as_const(t), Some(0) | Some(1)))) {
                let a: Vec<Rep> = reps.iter().filter(|r| r.vals[&x].1 == vi(0)).cloned().collect();
                let b: Vec<Rep> = reps.iter().filter(|r| r.vals[&x].1 == vi(1)).cloned().collect();
                let mut r = generalise(&a, slots, szs);
                r.extend(generalise(&b, slots, szs));
                return r;
            } else if vs.iter().any(|v| matches!(v.1, V::I(_))) { Nv::Free } else { Nv::C(vs[0].1) }
        };
        out.push((x, szs[&x], nv));
    }
    vec![out]
}
