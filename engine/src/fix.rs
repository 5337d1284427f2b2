//! Loops: unrolling of decided loops, fixpoint summaries of the others.
use crate::exec::*;
use crate::ir::*;
use crate::state::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub fn bor(a: T, b: T) -> T { bnot(band(bnot(a), bnot(b))) }
pub fn merge_v(c: T, a: V, b: V) -> Option<V> {
    if a == b { return Some(a); }
    match (a, b) {
        (V::N, _) | (_, V::N) => Some(V::N),
        (V::I(x), V::I(y)) => Some(V::I(ite(c, x, y))),
        (V::P(o, x, n), V::P(p, y, m)) => {
            if o == p && x == y { return Some(V::P(o, x, ite(c, n, m))); }
            if p == 0 && m == 0 { return Some(V::P(o, x, ite(c, n, 0))); }
            if o == 0 && n == 0 { return Some(V::P(p, y, ite(c, 0, m))); }
            None
        }
        (V::P(o, x, n), V::I(t)) if as_const(t) == Some(0) => Some(V::P(o, x, ite(c, n, 0))),
        (V::I(t), V::P(o, x, n)) if as_const(t) == Some(0) => Some(V::P(o, x, ite(c, 0, n))),
        (V::I(t), _) if has_undef(t) => Some(V::I(t)),
        (_, V::I(t)) if has_undef(t) => Some(V::I(t)),
        _ => None,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Gen { Int(T), Off(T), Hav(u32) }

impl<'a> Machine<'a> {
    pub fn exec_loop(&mut self, f: &'a Func, li: usize, st: State, stops: &[usize]) -> R<Out> {
        let l = &f.loops[li];
        let h = l.header;
        let mut exits: Vec<usize> = vec![];
        for &b in &l.blocks { for &s in &f.blocks[b].succ { if !l.blocks.contains(&s) && !exits.contains(&s) { exits.push(s); } } }
        let mut inner: Vec<usize> = vec![h];
        for e in &exits { if !inner.contains(e) { inner.push(*e); } }
        for s in stops { if !inner.contains(s) { inner.push(*s); } }
        self.tok += 1;
        let tok = self.tok;
        self.loops_tok.insert(tok, (li, st.frames.len()));
        self.ctx.push(Ctx::Unroll(tok));
        let nv = (self.viols.len(), self.sink.len());
        let saved_vset = if self.mute == 0 { Some(self.vset.clone()) } else { None };
        let r = self.unroll(f, h, &st, &inner, tok);
        self.ctx.pop();
        self.loops_tok.remove(&tok);
        match r {
            Ok(Some(o)) => { self.stats.unrolled += 1; return Ok(o); }
            Ok(None) => {}
            Err(E::Abandon(t)) if t == tok => {}
            Err(e) => return Err(e),
        }
        // discard what the abandoned attempt reported
        self.viols.truncate(nv.0);
        self.sink.truncate(nv.1);
        if let Some(v) = saved_vset { self.vset = v; }
        if self.peel > 0 { return self.exec_peel(f, h, st, &inner); }
        self.exec_fix(f, h, st, &inner)
    }
    fn unroll(&mut self, f: &'a Func, h: usize, st: &State, inner: &[usize], tok: u32) -> R<Option<Out>> {
        let mut out = Out::default();
        let mut cur = vec![st.clone()];
        let fc0 = self.fixcount;
        for k in 0..200_000u64 {
            let mut back = vec![];
            let mut nexit = 0;
            for s in cur.drain(..) {
                let o = self.run(f, s, h, 0, inner, true)?;
                nexit += o.rets.len();
                out.rets.extend(o.rets);
                for (b, s) in o.stops { if b == h { back.push(s); } else { nexit += 1; out.stops.push((b, s)); } }
            }
            let back = self.even_out(back);
            let back = self.merge_all(f, h, back);
            if back.is_empty() { return Ok(Some(out)); }
            if nexit > 0 || back.len() > 8 { return Ok(None); }
            if self.fixcount != fc0 && k >= 1 { return Ok(None); }
            let _ = tok;
            cur = back;
        }
        Ok(None)
    }

    /// a table slot found empty on one path and released and cleared on another: the empty one is put in the same form
    fn even_out(&mut self, mut v: Vec<State>) -> Vec<State> {
        if v.len() < 2 || v.len() > 8 { return v; }
        let be = self.m.big_endian;
        let ps = self.m.ptr as usize;
        for i in 0..v.len() {
            for k in 0..v.len() {
                if i == k { continue; }
                let dead: Vec<u32> = v[k].ids().into_iter().filter(|&id| !v[k].obj(id).unwrap().live && v[i].obj(id).map_or(false, |x| x.live) && self.lazy_nn.contains_key(&id)).collect();
                if dead.len() != 1 { continue; }
                let id = dead[0];
                let nn = self.lazy_nn[&id];
                if v[i].decide(nn) != Some(false) { continue; }
                let (o, off) = match self.lazy.iter().find(|x| *x.1 == id) { Some((&(o, off), _)) => (o, off), None => continue };
                let c = match as_const(off) { Some(c) => c as usize, None => continue };
                if !matches!(v[k].obj(o).map(|x| x.slot(c)), Some(Slot::S(_, z)) if z == NULL || z == V::I(0)) { continue; }
                let same = { let x = v[i].obj(o).unwrap(); x.tabw.iter().any(|e| e.0 == off && matches!(e.1, V::P(p, _, _) if p == id)) };
                if !same { continue; }
                let l = v[k].obj(id).unwrap().freed_at;
                let z = match v[k].obj(o).unwrap().slot(c) { Slot::S(_, z) => z, _ => NULL };
                let klog = v[k].log.clone();
                let over = matches!(&klog, Some(n) if matches!(n.e, Entry::Free(x, _) if x == id) && log_same(&n.prev, &v[i].log));
                let s = &mut v[i];
                { let om = s.obj_mut(o); Rc::make_mut(&mut om.tabw).retain(|e| e.0 != off); om.write(c, ps, z, be); }
                { let om = s.obj_mut(id); om.live = false; om.freed_at = l; }
                if over { s.log = klog; } else { s.push(Entry::Free(id, l)); }
            }
        }
        v
    }
    fn all_live(&self, f: &Func, h: usize) -> Vec<u32> {
        let mut lv = f.livein[h].clone();
        for ins in &f.blocks[h].ins { if let Ins::Phi(..) = ins.k { if let Some(d) = ins.dst { if !lv.contains(&d) { lv.push(d); } } } else { break; } }
        lv.sort();
        lv
    }
    /// locations whose value in `b` differs from `a`
    fn diff(&mut self, f: &Func, h: usize, a: &State, b: &State, out: &mut BTreeSet<Loc>) -> R<()> {
        let (fa, fb) = (a.frames.last().unwrap(), b.frames.last().unwrap());
        for r in self.all_live(f, h) {
            let (x, y) = (fa.regs[r as usize], fb.regs[r as usize]);
            if x == y { continue; }
            match (x, y) {
                (V::P(o, _, n), V::P(p, _, m)) if o == p && n == m => { out.insert(Loc::RegOff(r)); }
                (V::I(_), V::I(_)) => { out.insert(Loc::Reg(r)); }
                (V::N, _) | (_, V::N) => { out.insert(Loc::Reg(r)); }
                (V::I(t), _) | (_, V::I(t)) if has_undef(t) => { out.insert(Loc::Reg(r)); }
                _ => return unsup(format!("loop at {} changes a pointer's object", f.name)),
            }
        }
        let n = a.mem.len();
        for ci in 0..n {
            let bm = match b.mem.get(ci) { Some(x) => x, None => continue };
            if Rc::ptr_eq(&a.mem[ci], bm) { continue; }
            for k in 0..32 {
                let id = (ci * 32 + k) as u32;
                let (x, y) = match (a.obj(id), b.obj(id)) { (Some(x), Some(y)) => (x.clone(), y.clone()), _ => continue };
                if Rc::ptr_eq(&x, &y) { continue; }
                if x.live != y.live { return unsup("object freed inside a summarised loop"); }
                let np = x.pages.len().max(y.pages.len());
                for pi in 0..np {
                    let (p, q) = (x.pages.get(pi).cloned().flatten(), y.pages.get(pi).cloned().flatten());
                    match (&p, &q) { (None, None) => continue, (Some(a), Some(b)) if Rc::ptr_eq(a, b) => continue, _ => {} }
                    for k in 0..PG {
                        let o = pi * PG + k;
                        let (s, t) = (x.slot(o), y.slot(o));
                        if s == t { continue; }
                        match (s, t) {
                            (Slot::S(_, V::P(p, _, n1)), Slot::S(_, V::P(q, _, n2))) => { if p != q || n1 != n2 { return unsup("loop changes a stored pointer's object"); } out.insert(Loc::MemOff(id, o as u32)); }
                            _ => { out.insert(Loc::Mem(id, o as u32)); }
                        }
                    }
                }
            }
        }
        Ok(())
    }
    pub fn val_at(&self, st: &State, l: Loc, w: u32) -> Option<T> {
        match l {
            Loc::Reg(r) => match st.frames.last().unwrap().regs[r as usize] { V::I(t) => Some(if w > 1 && w < 64 { st.sread(w, t) } else { t }), _ => None },
            Loc::RegOff(r) => match st.frames.last().unwrap().regs[r as usize] { V::P(_, o, _) => Some(o), _ => None },
            Loc::Mem(o, f) => match st.obj(o)?.slot(f as usize) { Slot::S(n, V::I(t)) => Some(if n < 8 { st.sread(8 * n as u32, t) } else { t }), _ => None },
            Loc::MemOff(o, f) => match st.obj(o)?.slot(f as usize) { Slot::S(_, V::P(_, t, _)) => Some(t), _ => None },
        }
    }
    fn set_at(&self, st: &mut State, l: Loc, t: T) {
        match l {
            Loc::Reg(r) => st.set(r, V::I(t)),
            Loc::RegOff(r) => if let V::P(o, _, n) = st.reg(r) { st.set(r, V::P(o, t, n)) },
            Loc::Mem(o, f) => { let be = self.m.big_endian; if let Slot::S(n, V::I(_)) = st.obj(o).unwrap().slot(f as usize) { st.obj_mut(o).write(f as usize, n as usize, V::I(t), be) } }
            Loc::MemOff(o, f) => { let be = self.m.big_endian; if let Slot::S(n, V::P(p, _, nn)) = st.obj(o).unwrap().slot(f as usize) { st.obj_mut(o).write(f as usize, n as usize, V::P(p, t, nn), be) } }
        }
    }
    fn loc_name(&self, f: &Func, st: &State, l: Loc) -> String {
        match l { Loc::Reg(r) => format!("{}.r{}", f.name, r), Loc::RegOff(r) => format!("{}.p{}", f.name, r), Loc::Mem(o, x) | Loc::MemOff(o, x) => format!("{}+{}", st.obj(o).map(|z| z.name.to_string()).unwrap_or_default(), x) }
    }

    /// only the first iterations of the loop: every state reported is reached by an explicit path
    fn exec_peel(&mut self, f: &'a Func, h: usize, st: State, inner: &[usize]) -> R<Out> {
        let mut out = Out::default();
        self.fixcount += 1;
        self.stats.fixes += 1;
        self.ctx.push(Ctx::Fix);
        let mut cur = vec![st];
        for k in 0..=self.peel {
            let mut back = vec![];
            for s in cur.drain(..) {
                let o = self.run(f, s, h, 0, inner, true)?;
                out.rets.extend(o.rets);
                for (b, s) in o.stops { if b == h { if !s.infeasible() { back.push(s); } } else { out.stops.push((b, s)); } }
            }
            if k == self.peel { break; }
            cur = self.merge_all(f, h, back);
            cur.truncate(6);
        }
        self.ctx.pop();
        Ok(out)
    }
    fn exec_fix(&mut self, f: &'a Func, h: usize, st0: State, inner: &[usize]) -> R<Out> {
        self.fixcount += 1;
        self.stats.fixes += 1;
        let hline = f.blocks[h].ins.iter().find(|i| i.line != 0).map_or(0, |i| i.line);
        let mut out = Out::default();
        self.ctx.push(Ctx::Fix);
        let (nv0, ns0) = (self.viols.len(), self.sink.len());
        let vs0 = if self.mute == 0 { Some(self.vset.clone()) } else { None };
        // peel the first iteration
        let o = self.run(f, st0.clone(), h, 0, inner, true)?;
        out.rets.extend(o.rets);
        let mut entries = vec![];
        for (b, s) in o.stops { if b == h { entries.push(s); } else { out.stops.push((b, s)); } }
        entries.retain(|s| !s.infeasible());
        let lv = self.all_live(f, h);
        for s in entries.iter_mut() {
            // dead registers keep nothing alive; tables absorb what the first iteration stored
            let dead: Vec<u32> = (0..s.frames.last().unwrap().regs.len() as u32).filter(|r| !lv.contains(r) && matches!(s.reg(*r), V::P(..))).collect();
            for r in dead { s.set(r, V::N); }
            for id in s.ids() { if s.obj(id).map_or(false, |x| !x.tables.is_empty() && !x.tabw.is_empty()) { self.open_table(s, id); self.drop_absent(s); } }
        }
        let entries = self.merge_all(f, h, entries);
        // a loop that only steps counters and cursors is summarised from its first iteration
        if entries.len() == 1 && self.steps_only(f, h, &st0, &entries[0]) {
            let (nv, ns, nl) = (self.viols.len(), self.sink.len(), self.vset.clone());
            self.viols.truncate(nv0); self.sink.truncate(ns0);
            if let Some(v) = &vs0 { self.vset = v.clone(); }
            if let Some(o) = self.fix_group(f, h, hline, vec![st0.clone()], inner, true)? { self.ctx.pop(); return Ok(o); }
            let _ = (nv, ns);
            self.vset = nl;
            let o = self.run(f, st0.clone(), h, 0, inner, true)?;
            out = Out::default();
            out.rets.extend(o.rets);
            for (b, s) in o.stops { if b != h { out.stops.push((b, s)); } }
        }
        if entries.is_empty() { self.ctx.pop(); return Ok(out); }
        // groups of entries that agree on pointer objects are summarised together
        let mut groups: Vec<Vec<State>> = vec![];
        for e in entries {
            let mut placed = false;
            for g in groups.iter_mut() {
                let mut d = BTreeSet::new();
                if self.trace { let mut d = BTreeSet::new(); let r = self.diff(f, h, &g[0], &e, &mut d); eprintln!("group {:?} {} {} {:?}", r.is_ok(), g[0].ids().len(), e.ids().len(), if let Err(e) = r { format!("{:?}", e) } else { String::new() }); for id in e.ids() { if g[0].obj(id).is_none() { eprintln!("  only in e: {}", e.obj(id).unwrap().name); } } for id in g[0].ids() { if e.obj(id).is_none() { eprintln!("  only in g: {}", g[0].obj(id).unwrap().name); } } }
                if self.diff(f, h, &g[0], &e, &mut d).is_ok() && g[0].ids().len() == e.ids().len() { g.push(e.clone()); placed = true; break; }
            }
            if !placed { groups.push(vec![e]); }
        }
        for g in groups { let o = self.fix_group(f, h, hline, g, inner, false)?.unwrap(); out.rets.extend(o.rets); out.stops.extend(o.stops); }
        self.ctx.pop();
        Ok(out)
    }
    fn fix_group(&mut self, f: &'a Func, h: usize, hline: u32, entries: Vec<State>, inner: &[usize], simple: bool) -> R<Option<Out>> {
        let mut out = Out::default();
        let regw = self.regw[entries[0].frames.last().unwrap().func as usize].clone();
        let width = |l: Loc| -> u32 { match l { Loc::Reg(r) => regw[r as usize], _ => 0 } };
        let mut locs: BTreeSet<Loc> = BTreeSet::new();
        for e in &entries[1..] { self.diff(f, h, &entries[0], e, &mut locs)?; }
        // common facts
        let mut base = entries[0].clone();
        if entries.len() > 1 {
            let mut v: Vec<T> = vec![];
            for &t in entries[0].facts.iter() { if entries[1..].iter().all(|e| e.facts.contains(&t) || e.entails_d(t, 0)) { v.push(t); } }
            base.facts = Rc::new(v);
            let kn: HashMap<T, bool, Fx> = entries[0].known.iter().filter(|(k, v)| entries[1..].iter().all(|e| e.known.get(k) == Some(v))).map(|(k, v)| (*k, *v)).collect();
            base.known = Rc::new(kn);
            base.diseq = Rc::new(vec![]);
            base.log = common_log(&entries);
        }
        base.pc = 1;
        // tables: forget which slots were touched
        for id in base.ids() {
            let x = match base.obj(id) { Some(x) => x.clone(), None => continue };
            if !x.tables.is_empty() && (!x.tabw.is_empty()) { self.open_table(&mut base, id); }
        }
        let mut gens: BTreeMap<Loc, Gen> = BTreeMap::new();
        let mut head = base.clone();
        let mut backs: Vec<State> = vec![];
        let mut forks: Vec<T> = vec![];
        let mut round = 0;
        loop {
            round += 1;
            if round > 12 { return unsup(format!("loop summary of {} does not stabilise", f.name)); }
            // generalise
            let mut per: HashMap<u32, usize> = HashMap::new();
            for l in &locs { if let Loc::Mem(o, _) = l { *per.entry(*o).or_insert(0) += 1; } }
            for &l in &locs.clone() {
                if gens.contains_key(&l) { continue; }
                let w = width(l);
                let nm = self.loc_name(f, &base, l);
                match l {
                    Loc::Mem(o, off) => {
                        let sl = base.obj(o).unwrap().slot(off as usize);
                        let many = per[&o] > 64;
                        match sl {
                            Slot::S(n, V::I(_)) if !many => { let k = 8 * n.min(8) as u32; let t = fresh(&nm, k, entries.iter().chain(backs.iter()).filter_map(|s| self.val_at(s, l, 0)).collect()); gens.insert(l, Gen::Int(t)); }
                            _ => { gens.insert(l, Gen::Hav(new_tag())); }
                        }
                    }
                    Loc::Reg(_) => { let t = fresh(&nm, w, entries.iter().chain(backs.iter()).filter_map(|s| self.val_at(s, l, w)).collect()); gens.insert(l, Gen::Int(t)); }
                    _ => { let t = sym(&nm, NINF, PINF); gens.insert(l, Gen::Off(t)); }
                }
            }
            head = base.clone();
            self.apply(&mut head, &gens);
            let (b, fr) = self.probe(f, h, &head, inner)?;
            backs = b;
            forks = fr;
            if backs.is_empty() { break; }
            let before = locs.len();
            let mut again = false;
            for b in &backs {
                let mut d = BTreeSet::new();
                self.diff(f, h, &head, b, &mut d)?;
                for l in d { if !gens.contains_key(&l) { locs.insert(l); } }
                for id in b.ids() {
                    let y = b.obj(id).unwrap().clone();
                    if y.tables.is_empty() { continue; }
                    if let Some(x) = head.obj(id) { if !x.tab_open && !y.tabw.is_empty() { self.open_table(&mut base, id); again = true; } }
                }
            }
            if locs.len() == before && !again { break; }
        }
        // induction variables: constant change in every back state
        let mut nvar: Option<T> = None;
        let mut nswf: Vec<T> = vec![];
        if !backs.is_empty() {
            let mut chg = vec![];
            for (&l, g) in &gens {
                let t = match g { Gen::Int(t) | Gen::Off(t) => *t, _ => continue };
                let w = width(l);
                let mut d: Option<i64> = None;
                let mut ok = true;
                for b in &backs { match self.val_at(b, l, w).and_then(|v| as_const(b.simp(sub(v, t)))) { Some(k) if d.map_or(true, |x| x == k) => d = Some(k), _ => { ok = false; break; } } }
                let v0s: Vec<Option<T>> = entries.iter().map(|e| self.val_at(e, l, w).map(|v| e.simp(v))).collect();
                let v0 = if entries.len() == 1 { self.val_at(&entries[0], l, w) } else if v0s.iter().all(|v| *v == v0s[0]) { v0s[0] } else { None };
                if let (true, Some(d)) = (ok, d) { if let Some(v0) = v0 { if !has_undef(v0) {
                    let nsw = w > 1 && w < 64 && ar().nsw.contains(&(addc(t, d), w as u8));
                    chg.push((l, v0, d, nsw));
                } } }
            }
            if !chg.is_empty() {
                let n = sym(&format!("n@{}:{}", f.name, hline), 0, 1 << 33);
                nvar = Some(n);
                if simple && chg.len() != gens.len() { return Ok(None); }
                for (l, v0, d, nsw) in chg { let g = gens.get_mut(&l).unwrap(); let t = add(v0, scale(n, d));
                    if nsw {
                        // the source step cannot overflow: the counter stays in its type's range
                        let w = width(l);
                        ar().nsw.insert((t, w as u8));
                        nswf.push(sub(cst((1i64 << (w - 1)) - 1), t));
                        nswf.push(addc(t, 1i64 << (w - 1)));
                    } *g = match g { Gen::Int(_) => Gen::Int(t), _ => Gen::Off(t) }; }
                for &t in &nswf { base.fact(t); }
                head = base.clone();
                self.apply(&mut head, &gens);
                let (b, fr) = self.probe(f, h, &head, inner)?;
                backs = b;
                forks = fr;
            }
        }
        if simple && nvar.is_none() { return Ok(None); }
        // candidate invariants
        if !backs.is_empty() {
            let vars: Vec<(Loc, T, u32)> = gens.iter().filter_map(|(&l, g)| match g { Gen::Int(t) | Gen::Off(t) => Some((l, *t, width(l))), _ => None }).collect();
            let gsyms: HashSet<T> = vars.iter().filter(|v| matches!(node(v.1), Node::Sym(_))).map(|v| v.1).chain(nvar).collect();
            let cands = self.candidates(f, h, &head, &entries, &vars, &gsyms, &forks, nvar, &backs);
            let mut cands = cands;
            // true on entry
            let ent_map: Vec<HashMap<T, T, Fx>> = entries.iter().map(|e| self.valuation(e, &vars, nvar, None)).collect();
            cands.retain(|&c| entries.iter().zip(&ent_map).all(|(e, m)| { let t = subst1(c, m); !has_undef(t) && e.entails_d(t, 1) }));
            let mut it = 0;
            loop {
                it += 1;
                let mut hd = base.clone();
                self.apply(&mut hd, &gens);
                for &c in &cands { hd.fact(c); }
                let (b, _fr) = self.probe(f, h, &hd, inner)?;
                backs = b;
                let maps: Vec<HashMap<T, T, Fx>> = backs.iter().map(|b| self.valuation(b, &vars, nvar, nvar)).collect();
                // inner Houdini on these back states, all at once
                let n0 = cands.len();
                let mut keep: Vec<T> = cands.iter().cloned().filter(|&c| backs.iter().zip(&maps).all(|(b, m)| { let t = subst1(c, m); !has_undef(t) && b.entails_d(t, 1) })).collect();
                let dropped = n0 - keep.len();
                // what rests only on a dropped candidate goes with it, without another pass over the body
                if dropped > 0 {
                    let mut all = cands.clone();
                    loop {
                        let gone: HashSet<T> = all.iter().cloned().filter(|c| !keep.contains(c)).collect();
                        if gone.is_empty() { break; }
                        for b in backs.iter_mut() { let v: Vec<T> = b.facts.iter().cloned().filter(|t| !gone.contains(t)).collect(); b.facts = Rc::new(v); }
                        all = keep.clone();
                        keep.retain(|&c| backs.iter().zip(&maps).all(|(b, m)| b.entails_d(subst1(c, m), 1)));
                        if keep.len() == all.len() { break; }
                    }
                }
                if self.trace && self.mute == 0 { eprintln!("fix {}:{} it {} cands {} -> {} backs {}", f.name, hline, it, n0, keep.len(), backs.len()); }
                cands = keep;
                if dropped == 0 || it > 12 { if dropped > 0 { cands.clear(); } head = hd; if dropped > 0 { head = base.clone(); self.apply(&mut head, &gens); } break; }
            }
            self.stats.invs += cands.len() as u64;
            if self.trace && self.mute == 0 { for c in &cands { eprintln!("   inv {} >= 0", show(*c)); } }
        }
        // final pass
        self.nloop += 1;
        let uid = self.nloop;
        let mut hd = head.clone();
        hd.push(Entry::Head(uid));
        let hd0 = hd.clone();
        let o = self.run(f, hd, h, 0, inner, true)?;
        out.rets.extend(o.rets);
        let mut fb = vec![];
        for (b, s) in o.stops { if b == h { if !s.infeasible() { fb.push(s); } } else { out.stops.push((b, s)); } }
        if self.mute == 0 {
            let func = entries[0].frames.last().unwrap().func;
            let depth = entries[0].frames.len();
            for b in &fb { self.leak_check_back(&hd0, b); }
            let gv = gens.iter().filter_map(|(&l, g)| match g { Gen::Int(t) | Gen::Off(t) => Some((l, *t)), _ => None }).collect();
            self.loops.insert(uid, LoopRec { uid, func, line: hline, depth, head: hd0, n: nvar, gens: gv, entries, backs: fb });
        }
        Ok(Some(out))
    }
    /// every change from a to b is a constant step of a register, cursor or counter
    fn steps_only(&mut self, f: &Func, h: usize, a: &State, b: &State) -> bool {
        let mut d = BTreeSet::new();
        if self.diff(f, h, a, b, &mut d).is_err() || d.is_empty() || d.len() > 24 { return false; }
        let regw = self.regw[a.frames.last().unwrap().func as usize].clone();
        let ids: Vec<u32> = b.ids();
        if ids.len() != a.ids().len() { return false; }
        d.into_iter().all(|l| { let w = if let Loc::Reg(r) = l { regw[r as usize] } else { 0 }; match (self.val_at(a, l, w), self.val_at(b, l, w)) { (Some(x), Some(y)) => as_const(sub(y, x)).is_some() && !has_undef(x), _ => false } })
    }
    pub fn open_table(&mut self, st: &mut State, id: u32) {
        let om = st.obj_mut(id);
        let old = om.tabw.clone();
        om.tabw = Rc::new(vec![]);
        om.tab_open = true;
        // the table now stands for the objects it owns
        for (_, v) in old.iter() { if let V::P(o, _, _) = v { if *o != 0 && st.obj(*o).map_or(false, |x| x.kind == Kind::Heap && x.live) && !reachable(st, *o) { st.drop_obj(*o); } } }
    }
    /// table objects of slots known to be empty do not exist
    pub fn drop_absent(&mut self, st: &mut State) {
        let v: Vec<u32> = self.lazy_nn.iter().filter(|(&i, &nn)| st.obj(i).is_some() && st.decide(nn) == Some(false)).map(|x| *x.0).collect();
        for i in v { if !reachable(st, i) { st.drop_obj(i); } }
    }
    fn leak_check_back(&mut self, head: &State, b: &State) {
        for id in b.ids() {
            let x = b.obj(id).unwrap();
            if x.kind == Kind::Heap && x.live && head.obj(id).is_none() && !self.lazy.values().any(|&z| z == id) {
                if !reachable(b, id) { let nm = x.name.to_string(); let s = b.clone(); self.viol(&s, "leak", format!("{} is lost when the loop continues", nm)); }
            }
        }
    }
    fn probe(&mut self, f: &'a Func, h: usize, head: &State, inner: &[usize]) -> R<(Vec<State>, Vec<T>)> {
        self.mute += 1;
        self.fork_rec.push(vec![]);
        let r = self.run(f, head.clone(), h, 0, inner, true);
        let fr = self.fork_rec.pop().unwrap();
        self.mute -= 1;
        let o = r?;
        let mut backs: Vec<State> = o.stops.into_iter().filter(|(b, _)| *b == h).map(|x| x.1).collect();
        backs.retain(|s| !s.infeasible());
        Ok((backs, fr))
    }
    fn apply(&self, st: &mut State, gens: &BTreeMap<Loc, Gen>) {
        let be = self.m.big_endian;
        for (&l, g) in gens {
            match g {
                Gen::Int(t) | Gen::Off(t) => self.set_at(st, l, *t),
                Gen::Hav(tag) => if let Loc::Mem(o, off) = l {
                    let sl = st.obj(o).unwrap().slot(off as usize);
                    match sl {
                        Slot::S(n, V::I(_)) => { let t = hav(*tag, o, cst(off as i64), n); st.obj_mut(o).write(off as usize, n as usize, V::I(t), be); }
                        Slot::C(_) => {}
                        _ => st.obj_mut(o).havoc(off as usize, 1, *tag, be),
                    }
                },
            }
        }
    }
    fn valuation(&self, s: &State, vars: &[(Loc, T, u32)], nvar: Option<T>, back_n: Option<T>) -> HashMap<T, T, Fx> {
        let mut m: HashMap<T, T, Fx> = HashMap::default();
        for &(l, t, w) in vars {
            if matches!(node(t), Node::Sym(_)) { let v = self.val_at(s, l, w).map(|v| s.simp(v)).unwrap_or_else(undef); m.insert(t, v); }
        }
        if let Some(n) = nvar { m.insert(n, match back_n { Some(k) => addc(k, 1), None => 0 }); }
        m
    }
    fn candidates(&mut self, f: &Func, h: usize, head: &State, entries: &[State], vars: &[(Loc, T, u32)], gs: &HashSet<T>, forks: &[T], nvar: Option<T>, backs: &[State]) -> Vec<T> {
        let mut c: Vec<T> = vec![];
        let syms: Vec<(Loc, T, u32)> = vars.iter().filter(|v| gs.contains(&v.1)).cloned().collect();
        // constants compared against in the loop body (and callees via forks)
        let mut ks: BTreeSet<i64> = [0, 1].into_iter().collect();
        let li = f.header_of[&h];
        for &b in &f.loops[li].blocks { for i in &f.blocks[b].ins { match &i.k { Ins::Icmp(_, _, a, b) => for o in [a, b] { if let Op::C(k) = o { if k.abs() < 1 << 20 { ks.insert(*k); ks.insert(*k - 1); ks.insert(*k + 1); } } }, Ins::Phi(_, v) => for (o, _) in v { if let Op::C(k) = o { if k.abs() < 1 << 20 { ks.insert(*k); } } }, _ => {} } } }
        if self.check_shift {
            // bounds may come from minimum and maximum operations as well
            for &b in &f.loops[li].blocks { for i in &f.blocks[b].ins { let ops: Vec<&Op> = match &i.k { Ins::Call(_, a, _) => a.iter().map(|x| &x.0).collect(), Ins::Select(_, a, b, _) => vec![a, b], _ => vec![] }; for o in ops { if let Op::C(k) = o { if k.abs() < 1 << 20 { for d in -1..=1 { ks.insert(*k + d); } } } } } }
        }
        for &(l, t, w) in &syms {
            let mut kk = ks.clone();
            for e in entries { if let Some(v) = self.val_at(e, l, w) { if let Some(k) = as_const(v) { kk.insert(k); } } }
            for &k in &kk { c.push(addc(t, -k)); c.push(sub(cst(k), t)); }
            if let Some(v) = entries[0].frames.last().and(self.val_at(&entries[0], l, w)) { if as_const(v).is_none() && !has_undef(v) && entries.len() == 1 { c.push(sub(t, v)); c.push(sub(v, t)); } }
            // never below where the first iteration left it
            for e in entries { if let Some(v) = self.val_at(e, l, w) {
                let (k, ts) = lin_parts(v);
                if ts.len() < 2 || has_undef(v) { continue; }
                let rest: Vec<(T, i64)> = ts.iter().cloned().filter(|&(x, q)| !(q > 0 && rng(x).0 >= 0 && matches!(node(x), Node::Sym(i) if { let n = &ar().syms[*i as usize].name; n.starts_with('L') || n.starts_with('A') }))).collect();
                if rest.len() < ts.len() { c.push(sub(t, mk_lin(k, rest))); }
            } }
            // stay inside the object
            let o = match l { Loc::RegOff(r) => match head.frames.last().unwrap().regs[r as usize] { V::P(o, _, _) => Some(o), _ => None }, Loc::MemOff(o, x) => match head.obj(o).map(|y| y.slot(x as usize)) { Some(Slot::S(_, V::P(p, _, _))) => Some(p), _ => None }, _ => None };
            if let Some(o) = o { if let Some(x) = head.obj(o) { c.push(sub(x.size, t)); } }
        }
        // conditions tested in the body, read at the head
        let mut seen = HashSet::new();
        let mut stack: Vec<T> = forks.to_vec();
        let mut atoms = vec![];
        while let Some(x) = stack.pop() {
            if !seen.insert(x) || seen.len() > 400 { continue; }
            match node(x) { Node::Ge0(t) | Node::Eq0(t) => atoms.push(*t), Node::Lin(_, ts) => for p in ts.iter() { stack.push(p.0) }, Node::Ite(a, b, d) => { stack.push(*a); stack.push(*b); stack.push(*d); } _ => {} }
        }
        for t in atoms {
            if lin_parts(t).1.len() > 6 { continue; }
            let (mut sn, mut lv) = (HashMap::default(), vec![]);
            leaves(t, &mut sn, &mut lv);
            if !lv.iter().any(|x| gs.contains(x)) { continue; }
            // every leaf must exist before the iteration: generalised symbols or symbols of the entry facts
            let old = lv.iter().all(|x| gs.contains(x) || self.is_old(*x, entries));
            if !old { continue; }
            for d in [0i64, 1, -1] { c.push(addc(t, d)); c.push(addc(neg(t), d)); }
        }
        // relations between pairs of changing quantities
        let all: Vec<(T, Option<T>)> = syms.iter().map(|&(l, t, w)| (t, self.val_at(&entries[0], l, w))).chain(nvar.map(|n| (n, Some(0)))).collect();
        if all.len() <= 24 && entries.len() == 1 {
            for i in 0..all.len() { for j in i + 1..all.len() {
                let ((x, a), (y, b)) = (all[i], all[j]);
                if let (Some(a), Some(b)) = (a, b) {
                    if has_undef(a) || has_undef(b) { continue; }
                    let d = sub(sub(x, y), sub(a, b));
                    let s = sub(add(x, y), add(a, b));
                    for t in [d, s] { if lin_parts(t).1.len() <= 6 { c.push(t); c.push(neg(t)); } }
                }
            } }
        } else if entries.len() > 1 && all.len() <= 24 {
            let av: Vec<(T, Vec<Option<T>>)> = syms.iter().map(|&(l, t, w)| (t, entries.iter().map(|e| self.val_at(e, l, w)).collect())).collect();
            for i in 0..av.len() { for j in i + 1..av.len() {
                for sg in [1i64, -1] {
                    let vals: Vec<Option<i64>> = (0..entries.len()).map(|k| match (av[i].1[k], av[j].1[k]) { (Some(a), Some(b)) => as_const(entries[k].simp(add(a, scale(b, sg)))), _ => None }).collect();
                    if vals.iter().all(|v| v.is_some()) {
                        let mn = vals.iter().map(|v| v.unwrap()).min().unwrap();
                        let mx = vals.iter().map(|v| v.unwrap()).max().unwrap();
                        let e = add(av[i].0, scale(av[j].0, sg));
                        c.push(addc(e, -mn)); c.push(sub(cst(mx), e));
                    } else {
                        // same symbolic value on all entries
                        let ts: Vec<T> = (0..entries.len()).filter_map(|k| match (av[i].1[k], av[j].1[k]) { (Some(a), Some(b)) => Some(entries[k].simp(add(a, scale(b, sg)))), _ => None }).collect();
                        if ts.len() == entries.len() && ts.iter().all(|&x| x == ts[0]) && !has_undef(ts[0]) && lin_parts(ts[0]).1.len() <= 4 { let e = sub(add(av[i].0, scale(av[j].0, sg)), ts[0]); c.push(e); c.push(neg(e)); }
                    }
                }
            } }
        }
        if self.check_shift { self.hull(entries, backs, vars, gs, nvar, &mut c); }
        let mut s = HashSet::new();
        c.retain(|&t| rng(t).0 < 0 && as_const(t).is_none() && s.insert(t));
        c
    }
    /// affine equalities that hold on entry and are preserved by every path round the loop, and facts
    /// of the entry restated about the generalised quantities
    fn hull(&mut self, entries: &[State], backs: &[State], vars: &[(Loc, T, u32)], gs: &HashSet<T>, nvar: Option<T>, c: &mut Vec<T>) {
        let xs: Vec<(Option<(Loc, u32)>, T)> = vars.iter().filter(|v| gs.contains(&v.1)).map(|&(l, t, w)| (Some((l, w)), t)).chain(nvar.map(|n| (None, n))).collect();
        let n = xs.len();
        if n == 0 || n > 24 { return; }
        let ev: Vec<Vec<Option<T>>> = entries.iter().map(|e| xs.iter().map(|x| match x.0 { Some((l, w)) => self.val_at(e, l, w).map(|v| e.simp(v)).filter(|&v| !has_undef(v)), None => Some(0) }).collect()).collect();
        let bv: Vec<Vec<Option<T>>> = backs.iter().map(|e| xs.iter().map(|x| match x.0 { Some((l, w)) => self.val_at(e, l, w).map(|v| e.simp(v)).filter(|&v| !has_undef(v)), None => Some(addc(x.1, 1)) }).collect()).collect();
        // rows of the homogeneous system in the coefficients of xs
        let mut use_: Vec<bool> = (0..n).map(|i| ev.iter().chain(&bv).all(|r| r[i].is_some())).collect();
        let mut rows: Vec<Vec<i128>> = vec![];
        for (k, b) in bv.iter().enumerate() {
            let _ = k;
            let mut m: BTreeMap<T, Vec<i128>> = BTreeMap::new();
            for i in 0..n { if !use_[i] { continue; } let (k0, ts) = lin_parts(sub(b[i].unwrap(), xs[i].1)); if ts.len() > 12 { use_[i] = false; continue; } if k0 != 0 { m.entry(0).or_insert(vec![0; n])[i] += k0 as i128; } for (x, q) in ts { m.entry(x).or_insert(vec![0; n])[i] += q as i128; } }
            rows.extend(m.into_values());
        }
        for e in ev.iter().skip(1) {
            let mut m: BTreeMap<T, Vec<i128>> = BTreeMap::new();
            for i in 0..n { if !use_[i] { continue; } let (k0, ts) = lin_parts(sub(e[i].unwrap(), ev[0][i].unwrap())); if ts.len() > 12 { use_[i] = false; continue; } if k0 != 0 { m.entry(0).or_insert(vec![0; n])[i] += k0 as i128; } for (x, q) in ts { m.entry(x).or_insert(vec![0; n])[i] += q as i128; } }
            rows.extend(m.into_values());
        }
        for i in 0..n { if !use_[i] { let mut r = vec![0; n]; r[i] = 1; rows.push(r); } }
        let g = |mut a: i128, mut b: i128| { a = a.abs(); b = b.abs(); while b != 0 { let t = a % b; a = b; b = t; } a };
        let mut piv: Vec<usize> = vec![];
        let mut red: Vec<Vec<i128>> = vec![];
        for mut r in rows {
            for (q, &p) in red.iter().zip(&piv) { if r[p] != 0 { let (x, y) = (r[p], q[p]); for k in 0..n { r[k] = r[k] * y - q[k] * x; } let d = r.iter().fold(0, |a, &b| g(a, b)); if d > 1 { for z in r.iter_mut() { *z /= d; } } } }
            if let Some(p) = r.iter().position(|&z| z != 0) {
                for q in red.iter_mut() { if q[p] != 0 { let (x, y) = (q[p], r[p]); for k in 0..n { q[k] = q[k] * y - r[k] * x; } let d = q.iter().fold(0, |a, &b| g(a, b)); if d > 1 { for z in q.iter_mut() { *z /= d; } } } }
                piv.push(p);
                red.push(r);
            }
            if red.iter().flatten().any(|&z| z.abs() > 1 << 40) { return; }
        }
        for fr in 0..n {
            if piv.contains(&fr) { continue; }
            // free coordinate fr = 1
            let mut l: i128 = 1;
            for (q, &p) in red.iter().zip(&piv) { if q[fr] != 0 { let d = q[p].abs() / g(q[p], q[fr]).max(1); l = l / g(l, d).max(1) * d; } }
            let mut sol = vec![0i128; n];
            sol[fr] = l;
            for (q, &p) in red.iter().zip(&piv) { sol[p] = -q[fr] * l / q[p]; }
            if sol.iter().any(|z| z.abs() > 1 << 20) { continue; }
            let (mut e, mut v) = (0, 0);
            for i in 0..n { if sol[i] != 0 { e = add(e, scale(xs[i].1, sol[i] as i64)); v = add(v, scale(ev[0][i].unwrap(), sol[i] as i64)); } }
            if lin_parts(v).1.len() <= 8 { let d = sub(e, v); c.push(d); c.push(neg(d)); }
        }
        // entry facts, with entry values read as the generalised quantity
        if entries.len() == 1 {
            let mut m: HashMap<T, T, Fx> = HashMap::default();
            for i in 0..n { if let (Some(_), Some(v)) = (xs[i].0, ev[0][i]) { let (k, ts) = lin_parts(v); if ts.len() == 1 && ts[0].1 == 1 { m.entry(ts[0].0).or_insert(addc(xs[i].1, -k)); } } }
            if !m.is_empty() { let fs: Vec<T> = entries[0].facts.iter().rev().take(40).cloned().collect(); for t in fs { let u = subst1(t, &m); if u != t { c.push(u); } } }
        }
    }
    fn is_old(&self, leaf: T, entries: &[State]) -> bool {
        // symbols created before the loop entry: conservative test by appearance in entry facts or sizes
        match node(leaf) { Node::Sym(_) => {} Node::Cell(..) => return true, _ => return false }
        let e = &entries[0];
        let (mut sn, mut lv) = (HashMap::default(), vec![]);
        for &f in e.facts.iter() { leaves(f, &mut sn, &mut lv); }
        for id in e.ids() { leaves(e.obj(id).unwrap().size, &mut sn, &mut lv); }
        if lv.contains(&leaf) { return true; }
        for v in e.frames.last().unwrap().regs.iter() { if let V::I(t) = v { if *t == leaf { return true; } } }
        leaf < self.old_limit(e)
    }
    fn old_limit(&self, _e: &State) -> T { 0 }
}
fn common_log(es: &[State]) -> Log {
    let mut l = es[0].log.clone();
    loop {
        let n = l.as_ref().map_or(0, |x| x.n);
        let ok = es[1..].iter().all(|e| { let mut p = e.log.clone(); while p.as_ref().map_or(0, |x| x.n) > n { p = p.unwrap().prev.clone(); } log_same(&p, &l) });
        if ok { return l; }
        l = match l { Some(x) => x.prev.clone(), None => return None };
    }
}
fn fresh(nm: &str, w: u32, vals: Vec<T>) -> T {
    if w == 1 { return sym(nm, 0, 1); }
    if w == 0 || w >= 64 { return sym(nm, NINF, PINF); }
    let (lo, hi) = (-(1i64 << (w - 1)), (1i64 << (w - 1)) - 1);
    let un = !vals.is_empty() && vals.iter().all(|&v| rng(v).0 >= 0) && vals.iter().any(|&v| rng(v).1 > hi && rng(v).1 < (1i64 << w));
    if un { sym(nm, 0, (1i64 << w) - 1) } else { sym(nm, lo, hi) }
}
pub fn reachable(st: &State, id: u32) -> bool {
    let is = |v: &V| matches!(v, V::P(o, _, _) if *o == id);
    for f in &st.frames { if f.regs.iter().any(|v| is(v)) { return true; } }
    for k in st.ids() {
        let o = st.obj(k).unwrap();
        if !o.live { continue; }
        if o.tabw.iter().any(|x| is(&x.1)) { return true; }
        for p in o.pages.iter().flatten() { for s in p.s.iter() { if let Slot::S(_, v) = s { if is(v) { return true; } } } }
    }
    false
}
