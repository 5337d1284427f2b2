//! The alpha plane coder: co-analysis of the coder with an abstract decoder.
//!
//! The difference plane is a vector of unknown bytes. The domain keeps counters and pointers exact, unknown bytes
//! by their index, and the facts "byte i equals byte i+1 / a constant" learnt at branches (intersected where paths
//! meet again). Every byte put out is handed to an abstract decoder of the run-length code, which requires each
//! sample it reconstructs to be provably the one the plane holds at that place.
use crate::ir::*;
use std::collections::{BinaryHeap, HashMap, HashSet};
use std::rc::Rc;

const W: i64 = 64;
const N: i64 = 4096;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum V {
    Top,
    I(i64),
    /// byte i of the scratch plane in field b of the handle; 0 as loaded, 1 sign-extended, 2 zero-extended
    D(u32, u16, u8),
    /// difference (or exclusive or) of two scratch bytes
    X(u32, u16, u16),
    /// sample i of the caller's plane
    S(u16),
    /// pointer: 0 handle, 1 stream, 2 plane, 3 output start (unused), 16+k scratch field k
    P(u32, i64),
    /// output position: distance from the start, distance from the end of what was put out
    O(Option<i64>, Option<i64>),
    /// the same as a number
    L(Option<i64>, Option<i64>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Dec { mode: u8, pos: u16, raw: u8, run: u8, last: i32 }
#[derive(Clone, Debug, Default, PartialEq)]
struct Facts { eq: Vec<u64>, ne: Vec<u64>, k: Vec<(u16, i64, bool)> }
fn bit(v: &[u64], i: usize) -> bool { v.get(i / 64).map_or(false, |w| w >> (i % 64) & 1 == 1) }
fn set(v: &mut Vec<u64>, i: usize) { while v.len() <= i / 64 { v.push(0); } v[i / 64] |= 1 << (i % 64); }
impl Facts {
    fn meet(&self, o: &Facts) -> Facts {
        let a = |x: &Vec<u64>, y: &Vec<u64>| x.iter().zip(y).map(|(p, q)| p & q).collect();
        Facts { eq: a(&self.eq, &o.eq), ne: a(&self.ne, &o.ne), k: self.k.iter().filter(|x| o.k.contains(x)).cloned().collect() }
    }
    /// forget what lies before byte lo
    fn trim(&mut self, lo: usize) {
        for v in [&mut self.eq, &mut self.ne] { for (j, w) in v.iter_mut().enumerate() { if (j + 1) * 64 <= lo { *w = 0; } else if j * 64 < lo { *w &= !0u64 << (lo - j * 64); } } while v.last() == Some(&0) { v.pop(); } }
        self.k.retain(|x| x.0 as usize >= lo);
    }
    fn same(&self, i: usize, j: usize) -> Option<bool> {
        let (a, b) = (i.min(j), i.max(j));
        if (a..b).all(|k| bit(&self.eq, k)) { return Some(true); }
        if b == a + 1 && bit(&self.ne, a) { return Some(false); }
        match (self.val(i), self.val(j)) { (Some(x), Some(y)) => Some(x == y), _ => None }
    }
    fn val(&self, i: usize) -> Option<i64> {
        let f = |j: usize| self.k.iter().find(|x| x.0 as usize == j && x.2).map(|x| x.1);
        if self.k.is_empty() { return None; }
        let mut j = i;
        loop { if let Some(v) = f(j) { return Some(v); } if j > 0 && bit(&self.eq, j - 1) { j -= 1; } else { break; } }
        j = i;
        while bit(&self.eq, j) { j += 1; if let Some(v) = f(j) { return Some(v); } }
        None
    }
    fn is(&self, i: usize, c: i64) -> Option<bool> { if let Some(v) = self.val(i) { return Some(v == c); } if self.k.iter().any(|x| x.0 as usize == i && x.1 == c && !x.2) { return Some(false); } None }
}
#[derive(Clone)]
struct St { b: usize, from: usize, i: usize, regs: Vec<V>, mem: Vec<((u32, i64), V)>, wr: Rc<Vec<u64>>, dec: Dec, pend: Vec<(i64, V)>, over: Rc<Vec<(i64, V)>>, n: Option<i64>, most: i64, f: Facts, hi: i64, path: u32 }
#[derive(PartialEq, Eq, Hash, Clone)]
struct Key { b: usize, regs: Vec<V>, mem: Vec<((u32, i64), V)>, wr: Rc<Vec<u64>>, dec: Dec, pend: Vec<(i64, V)>, over: Rc<Vec<(i64, V)>> }
#[derive(Clone, Debug)]
pub struct Bad { pub line: u32, pub msg: String, pub what: &'static str, pub plane: Option<Vec<u8>> }
pub struct An<'a> {
    m: &'a Module,
    f: &'a Func,
    /// given differences, for following one input
    vals: Option<(Vec<u8>, Vec<u8>)>,
    pub base: Option<u32>,
    pub bad: Vec<Bad>,
    pub unsup: Option<String>,
    pub steps: u64, pub states: u64, pub forks: u64, pub decoded: u64, pub rets: u64, pub rle: u64, pub raw: u64, pub row_max: i64,
    paths: Vec<(u32, u8, u16, i64)>,
    depth: Vec<usize>,
    inner: Vec<Option<usize>>,
    merge_at: HashSet<usize>,
    line: u32,
    budget: u64,
}
type R<T> = Result<T, String>;
fn sx(w: u32, v: i64) -> i64 { if w == 0 || w >= 64 { v } else { (v << (64 - w)) >> (64 - w) } }
fn zx(w: u32, v: i64) -> i64 { if w == 0 || w >= 64 { v } else { v & ((1i64 << w) - 1) } }
impl<'a> An<'a> {
    pub fn new(m: &'a Module, f: &'a Func) -> An<'a> {
        let nb = f.blocks.len();
        let mut depth = vec![0; nb];
        let mut inner: Vec<Option<usize>> = vec![None; nb];
        let mut size = vec![usize::MAX; nb];
        for l in &f.loops { for &b in &l.blocks { depth[b] += 1; if l.blocks.len() < size[b] { size[b] = l.blocks.len(); inner[b] = Some(l.header); } } }
        An { m, f, vals: None, base: None, bad: vec![], unsup: None, steps: 0, states: 0, forks: 0, decoded: 0, rets: 0, rle: 0, raw: 0, row_max: 0, paths: vec![], depth, inner, merge_at: HashSet::new(), line: 0, budget: 3_000_000_000 }
    }
    fn start(&self) -> St {
        let mut regs = vec![V::Top; self.f.nregs];
        regs[0] = V::P(0, 0); regs[1] = V::P(2, 0); regs[2] = V::I(W); regs[3] = V::I(W); regs[4] = V::P(1, 0);
        St { b: 0, from: usize::MAX, i: 0, regs, mem: vec![], wr: Rc::new(vec![0; 64]), dec: Dec { mode: 0, pos: 0, raw: 0, run: 0, last: -1 }, pend: vec![], over: Rc::new(vec![]), n: Some(0), most: 0, f: Facts::default(), hi: -1, path: u32::MAX }
    }
    fn fail(&mut self, st: &St, what: &'static str, msg: String) {
        if self.bad.len() > 40 || self.bad.iter().any(|b| b.line == self.line && b.what == what) { return; }
        let plane = if self.vals.is_some() { None } else { Some(self.model(st)) };
        self.bad.push(Bad { line: self.line, msg, what, plane });
    }
    /// differences that take the path of this state
    fn model(&self, st: &St) -> Vec<u8> {
        let mut eq = vec![false; N as usize];
        let mut ne = vec![false; N as usize];
        let mut k: HashMap<u16, i64> = HashMap::new();
        let mut nk: HashMap<u16, Vec<i64>> = HashMap::new();
        let mut p = st.path;
        while p != u32::MAX { let (q, t, i, c) = self.paths[p as usize]; match t { 0 => eq[i as usize] = true, 1 => ne[i as usize] = true, 2 => { k.insert(i, c); } _ => nk.entry(i).or_default().push(c) } p = q; }
        let mut v = vec![0u8; N as usize];
        let mut i = 0;
        while i < N as usize {
            let mut j = i;
            while j + 1 < N as usize && eq[j] { j += 1; }
            let mut c = None;
            let mut not: HashSet<u8> = HashSet::new();
            for x in i..=j { if let Some(&q) = k.get(&(x as u16)) { c = Some(q as u8); } if let Some(q) = nk.get(&(x as u16)) { not.extend(q.iter().map(|&z| z as u8)); } }
            if i > 0 { not.insert(v[i - 1]); }
            let nextk = k.get(&((j + 1) as u16)).map(|&q| q as u8);
            let c = c.unwrap_or_else(|| (1..=255u8).find(|z| !not.contains(z) && Some(*z) != nextk).unwrap_or(0));
            for x in i..=j { v[x] = c; }
            i = j + 1;
        }
        let _ = ne;
        v
    }
    fn learn(&mut self, st: &mut St, t: u8, i: u16, c: i64) {
        self.paths.push((st.path, t, i, c));
        st.path = self.paths.len() as u32 - 1;
        match t { 0 => set(&mut st.f.eq, i as usize), 1 => set(&mut st.f.ne, i as usize), 2 => st.f.k.push((i, c, true)), _ => st.f.k.push((i, c, false)) }
    }
    fn byte(&self, v: V) -> V { match v { V::I(c) => V::I(c & 255), V::D(b, i, _) => V::D(b, i, 0), v => v } }
    /// is this byte the sample at place i of the plane that was coded?
    fn is_ref(&mut self, st: &St, v: V, i: usize) -> Result<bool, String> {
        if let Some((d, _)) = &self.vals { return match v { V::I(c) => Ok(d[i] as i64 == c & 255), _ => Err("not a single value".into()) }; }
        match v {
            V::I(c) => Ok(st.f.is(i, c & 255) == Some(true)),
            V::D(b, j, _) => { if self.base.is_none() { self.base = Some(b); } if self.base != Some(b) { return Err("two difference planes".into()); } Ok(st.f.same(i, j as usize) == Some(true)) }
            V::Top => Err("an unknown byte is put out".into()),
            _ => Ok(false),
        }
    }
    fn feed(&mut self, st: &mut St, v: V) -> R<()> {
        let v = self.byte(v);
        st.most += 1;
        let d = st.dec;
        match d.mode {
            0 => match v { V::I(0x10) => st.dec.mode = 1, V::I(0) => st.dec.mode = 3, V::I(c) => { self.fail(st, "marker", format!("the plane starts with the marker {:#x}", c)); st.dec.mode = 9; } _ => return Err("marker is not a constant".into()) },
            1 => {
                if d.pos as i64 >= N { self.fail(st, "extra", "bytes follow the last sample of the run-length coded plane".into()); st.dec.mode = 9; return Ok(()); }
                let c = match v { V::I(c) => c, _ => return Err("control byte is not determined by the counters".into()) };
                let (h, l) = ((c >> 4) as u8, (c & 15) as u8);
                let (raw, run) = if l == 1 { (0, h + 16) } else if l == 2 { (0, h + 32) } else { (h, l) };
                if raw as i64 + run as i64 > W - d.pos as i64 % W || raw == 0 && run == 0 { self.fail(st, "segment", format!("control byte {:#04x} (raw {}, run {}) is put out at column {} of row {}", c, raw, run, d.pos as i64 % W, d.pos as i64 / W)); st.dec.mode = 9; return Ok(()); }
                st.dec.raw = raw;
                st.dec.run = run;
                if raw == 0 { self.runs(st)?; } else { st.dec.mode = 2; }
            }
            2 => {
                let p = d.pos as usize;
                self.decoded += 1;
                if !self.is_ref(st, v, p)? { self.fail(st, "raw", format!("the decoder reads {} as the sample at row {} column {}", self.show(v), p / 64, p % 64)); st.dec.mode = 9; return Ok(()); }
                st.dec.last = p as i32;
                st.dec.pos += 1;
                st.dec.raw -= 1;
                if st.dec.raw == 0 { st.dec.mode = 1; self.runs(st)?; }
            }
            3 => {
                let p = d.pos as i64;
                if p < N {
                    self.decoded += 1;
                    let ok = match (v, &self.vals) { (V::S(i), _) => i as i64 == p, (V::I(c), Some((_, s))) => s[p as usize] as i64 == c, (V::Top, _) => return Err("an unknown byte is put out".into()), _ => false };
                    if !ok { self.fail(st, "copy", format!("the decoder reads {} as the sample at row {} column {} of an uncompressed plane", self.show(v), p / 64, p % 64)); st.dec.mode = 9; return Ok(()); }
                } else if p > N { self.fail(st, "extra", "more than one byte follows an uncompressed plane".into()); st.dec.mode = 9; return Ok(()); }
                st.dec.pos += 1;
            }
            _ => {}
        }
        Ok(())
    }
    fn show(&self, v: V) -> String { match v { V::I(c) => format!("the constant {}", c), V::D(_, i, _) => format!("the difference at row {} column {}", i / 64, i % 64), V::S(i) => format!("the sample at row {} column {}", i / 64, i % 64), v => format!("{:?}", v) } }
    /// a run repeats the last sample read on its row, zero at the start of a row
    fn runs(&mut self, st: &mut St) -> R<()> {
        while st.dec.run > 0 {
            let p = st.dec.pos as usize;
            self.decoded += 1;
            let ok = match &self.vals { Some((d, _)) => d[p] == if st.dec.last < 0 { 0 } else { d[st.dec.last as usize] }, None => if st.dec.last < 0 { st.f.is(p, 0) == Some(true) } else { st.f.same(st.dec.last as usize, p) == Some(true) } };
            if !ok { self.fail(st, "run", format!("the decoder repeats {} as the sample at row {} column {}", if st.dec.last < 0 { "zero".into() } else { self.show(V::D(0, st.dec.last as u16, 0)) }, p / 64, p % 64)); st.dec.mode = 9; return Ok(()); }
            st.dec.pos += 1;
            st.dec.run -= 1;
        }
        if st.dec.pos as i64 % W == 0 { st.dec.last = -1; } else if st.dec.last >= 0 { st.dec.last = st.dec.pos as i32 - 1; }
        st.dec.mode = 1;
        Ok(())
    }
    fn put(&mut self, st: &mut St, a: Option<i64>, e: Option<i64>, v: V) -> R<()> {
        let e = match (e, a, st.n) { (Some(e), _, _) => Some(e), (None, Some(a), Some(n)) => Some(a - n), _ => None };
        match (e, a) {
            (Some(e), _) if e >= 0 && st.over.is_empty() => {
                if let Some(x) = st.pend.iter_mut().find(|x| x.0 == e) { x.1 = v; } else { st.pend.push((e, v)); }
                loop {
                    let k = match st.pend.iter().position(|x| x.0 == 0) { Some(k) => k, None => break };
                    let (_, v) = st.pend.remove(k);
                    for x in st.pend.iter_mut() { x.0 -= 1; }
                    for r in st.regs.iter_mut() { if let V::O(_, Some(e)) | V::L(_, Some(e)) = r { *e -= 1; } }
                    for (_, r) in st.mem.iter_mut() { if let V::O(_, Some(e)) | V::L(_, Some(e)) = r { *e -= 1; } }
                    st.n = st.n.map(|n| n + 1);
                    self.feed(st, v)?;
                }
                st.pend.sort_by_key(|x| x.0);
                Ok(())
            }
            (_, Some(a)) if a >= 0 => {
                // output written before is replaced
                let mut o = (*st.over).clone();
                match o.binary_search_by_key(&a, |x| x.0) { Ok(k) => o[k].1 = v, Err(k) => o.insert(k, (a, v)) }
                if o.len() > 9000 { return Err("too much is replaced".into()); }
                st.over = Rc::new(o);
                Ok(())
            }
            _ => Err("a byte is put at an unknown place of the output".into()),
        }
    }
    fn load(&mut self, st: &mut St, p: V, ty: &Ty) -> R<V> {
        let n = self.m.size(ty) as i64;
        match p {
            V::P(b, o) if b >= 16 => {
                if n != 1 { return Err("scratch plane is not read by bytes".into()); }
                if !(0..N).contains(&o) { return Err("scratch plane read outside its bytes".into()); }
                if !bit(&st.wr, o as usize) || self.base.map_or(false, |x| x != b) { return Ok(V::Top); }
                self.base = Some(b);
                if let Some((d, _)) = &self.vals { return Ok(V::I(sx(8, d[o as usize] as i64))); }
                st.hi = st.hi.max(o);
                Ok(V::D(b, o as u16, 0))
            }
            V::P(2, o) => { if n != 1 || !(0..N).contains(&o) { return Ok(V::Top); } Ok(match &self.vals { Some((_, s)) => V::I(sx(8, s[o as usize] as i64)), None => V::S(o as u16) }) }
            V::P(b, o) => {
                if let Some(x) = st.mem.iter().find(|x| x.0 == (b, o)) { return Ok(x.1); }
                let r = self.m.resolve(ty);
                if b == 0 && r == Ty::Ptr { return Ok(V::P(16 + o as u32, 0)); }
                if b == 1 && r == Ty::Ptr { let v = V::O(Some(0), Some(0)); st.mem.push(((b, o), v)); st.mem.sort_by_key(|x| x.0); return Ok(v); }
                Ok(V::Top)
            }
            V::O(..) => Ok(V::Top),
            _ => Err("load through an unknown pointer".into()),
        }
    }
    fn store(&mut self, st: &mut St, p: V, v: V, n: i64) -> R<()> {
        match p {
            V::P(b, o) if b >= 16 => {
                if n != 1 { return Err("scratch plane is not written by bytes".into()); }
                if !(0..N).contains(&o) { return Err("scratch plane written outside its bytes".into()); }
                if self.base.map_or(false, |x| x == b) { return Err("difference plane changed while it is coded".into()); }
                if !bit(&st.wr, o as usize) { let mut w = (*st.wr).clone(); set(&mut w, o as usize); st.wr = Rc::new(w); }
                Ok(())
            }
            V::P(2, _) => Err("the caller's plane is written".into()),
            V::P(b, o) => { if let Some(x) = st.mem.iter_mut().find(|x| x.0 == (b, o)) { x.1 = v; } else { st.mem.push(((b, o), v)); st.mem.sort_by_key(|x| x.0); } Ok(()) }
            V::O(a, e) => if n == 1 { self.put(st, a, e, v) } else { Err("output is not written by bytes".into()) },
            _ => Err("store through an unknown pointer".into()),
        }
    }
    fn copy(&mut self, st: &mut St, d: V, k: i64, src: impl Fn(&mut Self, &mut St, i64) -> R<V>) -> R<()> {
        // positions relative to the end move with every byte put out
        st.mem.push(((99, 0), d));
        let at = st.mem.len() - 1;
        for j in 0..k {
            let v = src(self, st, j)?;
            let p = st.mem[at].1;
            self.store(st, p, v, 1)?;
            st.mem[at].1 = self.off(st.mem[at].1, 1);
        }
        st.mem.remove(at);
        Ok(())
    }
    fn off(&self, p: V, k: i64) -> V { match p { V::P(b, o) => V::P(b, o + k), V::O(a, e) => V::O(a.map(|x| x + k), e.map(|x| x + k)), _ => V::Top } }
    fn ends(&mut self, mut st: St, ret: Option<V>) -> R<()> {
        self.rets += 1;
        let cur = st.mem.iter().find_map(|x| if let ((1, _), V::O(a, e)) = (x.0, x.1) { Some((a, e)) } else { None });
        let (pa, pe) = cur.unwrap_or((Some(0), Some(0)));
        let fill = |a: Option<i64>, e: Option<i64>| -> (Option<i64>, Option<i64>) { match st.n { Some(n) => (a.or(e.map(|x| x + n)), e.or(a.map(|x| x - n))), None => (a, e) } };
        let (pa, pe) = fill(pa, pe);
        let (ra, re) = match ret { Some(V::I(c)) => fill(Some(c), None), Some(V::L(a, e)) => fill(a, e), _ => return Err("the value returned is not known".into()) };
        let ok = (ra.is_some() && ra == pa) || (re.is_some() && re == pe);
        let no = (ra.is_some() && pa.is_some() && ra != pa) || (re.is_some() && pe.is_some() && re != pe);
        if !ok { if no { self.fail(&st, "length", format!("{} bytes are reported although the output position moved by {}", ra.map_or_else(|| format!("L{:+}", re.unwrap_or(0)), |x| x.to_string()), pa.map_or_else(|| format!("L{:+}", pe.unwrap_or(0)), |x| x.to_string()))); return Ok(()); } return Err("the value returned is not related to the output position".into()); }
        if st.dec.mode == 9 { return Ok(()); }
        if !st.over.is_empty() {
            // the first pa bytes as they are now
            let n = match ra { Some(n) => n, None => return Err("replaced output of unknown length".into()) };
            let o = st.over.clone();
            st.dec = Dec { mode: 0, pos: 0, raw: 0, run: 0, last: -1 };
            for k in 0..n {
                let v = match o.binary_search_by_key(&k, |x| x.0) { Ok(j) => o[j].1, Err(_) => { self.fail(&st, "gap", format!("byte {} of the {} reported is left over from the abandoned coding", k, n)); return Ok(()); } };
                self.feed(&mut st, v)?;
                if st.dec.mode == 9 { return Ok(()); }
            }
        } else if re != Some(0) && !st.pend.iter().any(|x| Some(x.0 + 1) == re) {
            self.fail(&st, "length", format!("the length reported is {} bytes beyond what was put out", re.unwrap_or(0)));
            return Ok(());
        } else if re != Some(0) { self.fail(&st, "gap", "a byte inside the length reported is never put out".into()); return Ok(()); }
        match st.dec.mode {
            1 if st.dec.pos as i64 == N => self.rle += 1,
            3 if st.dec.pos as i64 == N + 1 => self.raw += 1,
            1 | 2 => self.fail(&st, "short", format!("the run-length coded plane ends after {} of 4096 samples", st.dec.pos)),
            3 => self.fail(&st, "short", format!("the uncompressed plane has {} of 4097 bytes after its marker", st.dec.pos)),
            _ => self.fail(&st, "short", "nothing is put out".into()),
        }
        Ok(())
    }
    fn key(&self, st: &St) -> Key {
        let blind = |v: &V| match v { V::O(..) => V::O(None, None), V::L(..) => V::L(None, None), v => *v };
        let regs: Vec<V> = st.regs.iter().map(blind).collect();
        Key { b: st.b, regs, mem: st.mem.iter().map(|x| (x.0, blind(&x.1))).collect(), wr: st.wr.clone(), dec: st.dec, pend: st.pend.clone(), over: st.over.clone() }
    }
    /// joins b into a; true if a changed
    fn join(a: &mut St, b: &St) -> bool {
        let mut ch = false;
        let jn = |x: Option<i64>, y: Option<i64>| if x == y { x } else { None };
        let mut one = |x: &mut V, y: &V| {
            let z = match (*x, *y) { (p, q) if p == q => p, (V::O(p, q), V::O(r, s)) => V::O(jn(p, r), jn(q, s)), (V::L(p, q), V::L(r, s)) => V::L(jn(p, r), jn(q, s)), _ => V::Top };
            if z != *x { *x = z; ch = true; }
        };
        for (x, y) in a.regs.iter_mut().zip(&b.regs) { one(x, y); }
        for (x, y) in a.mem.iter_mut().zip(&b.mem) { one(&mut x.1, &y.1); }
        if a.n.is_some() && a.n != b.n { a.n = None; ch = true; }
        if b.most > a.most { a.most = b.most; ch = true; }
        let f = a.f.meet(&b.f);
        if f != a.f { a.f = f; ch = true; }
        a.hi = a.hi.max(b.hi);
        ch
    }
    pub fn run(&mut self) {
        if self.f.args.len() != 5 { self.unsup = Some("alpha coder arguments".into()); return; }
        let mut store: HashMap<usize, St> = HashMap::new();
        let mut keys: HashMap<Rc<Key>, usize> = HashMap::new();
        let mut heap: BinaryHeap<(std::cmp::Reverse<i64>, usize, usize)> = BinaryHeap::new();
        let mut live: Vec<Vec<u32>> = vec![];
        for b in 0..self.f.blocks.len() { let mut v: Vec<u32> = self.f.livein[b].clone(); for i in &self.f.blocks[b].ins { if let (Ins::Phi(..), Some(d)) = (&i.k, i.dst) { v.push(d); } else { break; } } v.sort(); v.dedup(); live.push(v); }
        let mut todo = vec![self.start()];
        let (mut next, mut row) = (0usize, 0i64);
        loop {
            let st = match todo.pop() {
                Some(s) => s,
                None => match heap.pop() {
                    Some((hi, _, k)) => {
                        if hi.0 / W > row + 1 {
                            // rows before the previous one are not met again
                            row = hi.0 / W;
                            let keep: HashSet<usize> = heap.iter().map(|x| x.2).chain([k]).collect();
                            store.retain(|j, s| keep.contains(j) || s.hi / W >= row - 1);
                            keys.retain(|_, j| store.contains_key(j));
                        }
                        let mut s = store[&k].clone();
                        self.row_max = self.row_max.max(s.most);
                        let mut regs = vec![V::Top; self.f.nregs];
                        for (j, &r) in live[s.b].iter().enumerate() { regs[r as usize] = s.regs[j]; }
                        s.regs = regs;
                        s.i = 0;
                        s
                    }
                    None => break,
                },
            };
            let mut out = vec![];
            if let Err(e) = self.advance(st, &mut todo, &mut out) { self.unsup = Some(format!("line {}: {}", self.line, e)); return; }
            for mut s in out {
                s.regs = live[s.b].iter().map(|&r| s.regs[r as usize]).collect();
                let lo = if s.dec.last >= 0 { s.dec.last as usize } else { s.dec.pos as usize };
                if s.dec.mode == 1 || s.dec.mode == 2 { s.f.trim(lo); }
                let k = self.key(&s);
                let d = self.depth[s.b];
                match keys.get(&k) {
                    Some(&j) => { let hi = s.hi; if Self::join(store.get_mut(&j).unwrap(), &s) { heap.push((std::cmp::Reverse(hi), d, j)); } }
                    None => { let j = next; next += 1; heap.push((std::cmp::Reverse(s.hi), d, j)); keys.insert(Rc::new(k), j); store.insert(j, s); self.states += 1; if store.len() > 1_500_000 || self.states > 20_000_000 { self.unsup = Some("too many states".into()); return; } }
                }
            }
            if self.bad.len() >= 8 { return; }
            if self.steps > self.budget { self.unsup = Some("analysis did not finish".into()); return; }
        }
    }
    fn enter(&mut self, st: &mut St, to: usize) {
        let from = st.b;
        let mut ph = vec![];
        for i in &self.f.blocks[to].ins { if let (Ins::Phi(_, v), Some(d)) = (&i.k, i.dst) { let o = v.iter().find(|x| x.1 == from).map(|x| x.0.clone()); ph.push((d, o.map_or(V::Top, |o| self.op(st, &o)))); } else { break; } }
        for (d, v) in ph { st.regs[d as usize] = v; }
        st.from = from;
        st.b = to;
        st.i = 0;
    }
    fn op(&self, st: &St, o: &Op) -> V { match o { Op::Reg(r) => st.regs[*r as usize], Op::C(k) => V::I(*k), Op::Null | Op::Zero => V::I(0), _ => V::Top } }
    /// runs one state until it reaches a place where paths meet, returns, or splits
    fn advance(&mut self, mut st: St, todo: &mut Vec<St>, out: &mut Vec<St>) -> R<()> {
        let f = self.f;
        'blocks: loop {
            let blk = &f.blocks[st.b];
            while st.i < blk.ins.len() {
                let ins = &blk.ins[st.i];
                st.i += 1;
                self.steps += 1;
                if ins.line > 0 { self.line = ins.line; }
                let v = match &ins.k {
                    Ins::Phi(..) => continue,
                    Ins::Bin(op, n, x, y, _) => self.bin(*op, *n, self.op(&st, x), self.op(&st, y)),
                    Ins::Icmp(p, ty, x, y) => {
                        let n = if let Ty::Int(n) = ty { *n } else { 64 };
                        let (a, b) = (self.op(&st, x), self.op(&st, y));
                        match self.cmp(&mut st, *p, n, a, b)? {
                            Cmp::Known(k) => V::I(k as i64),
                            Cmp::Open => V::Top,
                            Cmp::Fact(t, i, c, eq) => {
                                // both outcomes, each with what it says about the plane
                                self.forks += 1;
                                if let Some(h) = self.inner[st.b] { self.merge_at.insert(h); }
                                let mut o = st.clone();
                                self.learn(&mut o, t + 1, i, c);
                                o.regs[ins.dst.unwrap() as usize] = V::I((!eq) as i64);
                                todo.push(o);
                                self.learn(&mut st, t, i, c);
                                V::I(eq as i64)
                            }
                        }
                    }
                    Ins::Cast(k, a, x, n) => {
                        let v = self.op(&st, x);
                        match (k, v) {
                            (CastK::Trunc, V::I(c)) => V::I(if *n == 1 { c & 1 } else { sx(*n, c) }),
                            (CastK::ZExt, V::I(c)) => V::I(zx(*a, c)),
                            (CastK::SExt, V::I(c)) => V::I(if *a == 1 { -(c & 1) } else { c }),
                            (CastK::Trunc, V::D(b, i, _)) if *n == 8 => V::D(b, i, 0),
                            (CastK::Trunc, V::D(..)) if *n > 8 => v,
                            (CastK::SExt, V::D(b, i, 0)) => V::D(b, i, 1),
                            (CastK::ZExt, V::D(b, i, 0)) => V::D(b, i, 2),
                            (CastK::SExt | CastK::ZExt, V::D(_, _, 1)) if *k == CastK::SExt => v,
                            (CastK::SExt | CastK::ZExt, V::D(_, _, 2)) => v,
                            (CastK::Trunc, V::S(i)) if *n == 8 => V::S(i),
                            (CastK::SExt | CastK::ZExt, V::S(i)) => V::S(i),
                            (CastK::SExt | CastK::ZExt | CastK::Trunc, V::L(..)) if *n >= 16 => v,
                            (CastK::PtrToInt | CastK::IntToPtr | CastK::BitCast, v) => v,
                            _ => V::Top,
                        }
                    }
                    Ins::Load(ty, p) => { let p = self.op(&st, p); self.load(&mut st, p, ty)? }
                    Ins::Store(ty, v, p) => { let (v, p) = (self.op(&st, v), self.op(&st, p)); let n = self.m.size(ty) as i64; self.store(&mut st, p, v, n)?; continue; }
                    Ins::Gep(ty, p, ix, _) => {
                        let b = self.op(&st, p);
                        let mut t = ty.clone();
                        let mut o = Some(0i64);
                        let mut rel = None;
                        for (k, i) in ix.iter().enumerate() {
                            let c = match self.op(&st, i) { V::I(c) => c, V::L(a, e) if k == 0 && self.m.size(&t) == 1 => { rel = Some((a, e)); 0 } _ => { o = None; break; } };
                            if k == 0 { o = o.map(|x| x + c * self.m.size(&t) as i64); } else { match self.m.index(&t, c) { Ok((d, e)) => { o = o.map(|x| x + d); t = e; } Err(_) => { o = None; break; } } }
                        }
                        match (o, rel, b) {
                            (Some(o), None, b) => self.off(b, o),
                            (Some(o), Some((a, e)), V::O(Some(s), _)) => V::O(a.map(|x| x + s + o), e.map(|x| x + s + o)),
                            _ => V::Top,
                        }
                    }
                    Ins::Select(q, x, y, _) => match self.op(&st, q) {
                        V::I(c) => self.op(&st, if c & 1 != 0 { x } else { y }),
                        _ => { let (a, b) = (self.op(&st, x), self.op(&st, y)); if a == b { a } else {
                            self.forks += 1;
                            if let Some(h) = self.inner[st.b] { self.merge_at.insert(h); }
                            let mut o = st.clone();
                            o.regs[ins.dst.unwrap() as usize] = b;
                            todo.push(o);
                            a
                        } }
                    },
                    Ins::Call(Callee::Direct(n), a, _) => {
                        let arg = |k: usize| a.get(k).map_or(V::Top, |x| self.op(&st, &x.0));
                        if n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") || n == "memcpy" || n == "memmove" {
                            let (d, s) = (arg(0), arg(1));
                            let k = match arg(2) { V::I(k) => k, _ => return Err("copy of unknown length".into()) };
                            if !(0..=N).contains(&k) { return Err("copy of unreasonable length".into()); }
                            self.copy(&mut st, d, k, |z, st, j| { let s = z.off(s, j); z.load(st, s, &Ty::Int(8)) })?;
                            d
                        } else if n.starts_with("llvm.memset") || n == "memset" {
                            let (d, v) = (arg(0), arg(1));
                            let k = match arg(2) { V::I(k) => k, _ => return Err("fill of unknown length".into()) };
                            if !(0..=N + 2).contains(&k) { return Err("fill of unreasonable length".into()); }
                            self.copy(&mut st, d, k, |_, _, _| Ok(v))?;
                            d
                        } else if n.starts_with("llvm.") {
                            match (arg(0), arg(1)) { (V::I(x), V::I(y)) => if n.starts_with("llvm.smax") { V::I(x.max(y)) } else if n.starts_with("llvm.smin") { V::I(x.min(y)) } else if n.starts_with("llvm.umin") { V::I(if (x as u64) < y as u64 { x } else { y }) } else if n.starts_with("llvm.umax") { V::I(if (x as u64) > y as u64 { x } else { y }) } else { V::Top }, _ => V::Top }
                        } else if ["printf", "puts", "putchar", "fprintf"].contains(&n.as_str()) { V::Top } else { return Err(format!("call of {}", n)); }
                    }
                    Ins::Call(..) => return Err("indirect call".into()),
                    Ins::Alloca(..) => V::P(8 + ins.dst.unwrap() as u32 % 8, 1 << 20),
                    Ins::Br(to) => { self.enter(&mut st, *to); if self.merge_at.contains(to) { out.push(st); return Ok(()); } continue 'blocks; }
                    Ins::CondBr(q, x, y) => {
                        match self.op(&st, q) {
                            V::I(c) => { let to = if c & 1 != 0 { *x } else { *y }; self.enter(&mut st, to); if self.merge_at.contains(&to) { out.push(st); return Ok(()); } continue 'blocks; }
                            _ => {
                                self.forks += 1;
                                if let Some(h) = self.inner[st.b] { self.merge_at.insert(h); }
                                let mut o = st.clone();
                                self.enter(&mut o, *y);
                                if self.merge_at.contains(y) { out.push(o); } else { todo.push(o); }
                                self.enter(&mut st, *x);
                                if self.merge_at.contains(x) { out.push(st); return Ok(()); }
                                continue 'blocks;
                            }
                        }
                    }
                    Ins::Switch(q, _, d, cs) => match self.op(&st, q) {
                        V::I(c) => { let to = cs.iter().find(|z| z.0 == c).map_or(*d, |z| z.1); self.enter(&mut st, to); if self.merge_at.contains(&to) { out.push(st); return Ok(()); } continue 'blocks; }
                        _ => return Err("switch on an unknown value".into()),
                    },
                    Ins::Ret(v, _) => { let r = v.as_ref().map(|o| self.op(&st, o)); return self.ends(st, r); }
                    Ins::Unreachable => return Ok(()),
                };
                if let Some(d) = ins.dst { st.regs[d as usize] = v; }
            }
            return Ok(());
        }
    }
    fn bin(&self, op: Bin, n: u32, a: V, b: V) -> V {
        match (a, b) {
            (V::I(x), V::I(y)) => {
                let k = zx(n, y);
                let r = match op {
                    Bin::Add => x.wrapping_add(y), Bin::Sub => x.wrapping_sub(y), Bin::Mul => x.wrapping_mul(y),
                    Bin::SDiv => if y == 0 { return V::Top } else { x.wrapping_div(y) }, Bin::SRem => if y == 0 { return V::Top } else { x.wrapping_rem(y) },
                    Bin::UDiv => if y == 0 { return V::Top } else { (zx(n, x) as u64 / zx(n, y) as u64) as i64 }, Bin::URem => if y == 0 { return V::Top } else { (zx(n, x) as u64 % zx(n, y) as u64) as i64 },
                    Bin::Shl | Bin::LShr | Bin::AShr if k < 0 || k >= n as i64 => return V::Top,
                    Bin::Shl => x.wrapping_shl(k as u32), Bin::LShr => ((zx(n, x) as u64) >> k) as i64, Bin::AShr => x >> k,
                    Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y,
                };
                V::I(if n == 1 { r & 1 } else { sx(n, r) })
            }
            (V::D(p, i, x), V::D(q, j, y)) if p == q && x == y && matches!(op, Bin::Sub | Bin::Xor) => V::X(p, i, j),
            (V::O(a, e), V::O(c, g)) if op == Bin::Sub => {
                // absolute minus absolute, relative minus relative are numbers; relative minus absolute counts what was put out
                if let (Some(a), Some(c)) = (a, c) { return V::I(a - c); }
                if let (Some(e), Some(g)) = (e, g) { return V::I(e - g); }
                if let (Some(e), Some(c)) = (e, c) { return V::L(None, Some(e - c)); }
                V::Top
            }
            (V::P(p, x), V::P(q, y)) if op == Bin::Sub && p == q => V::I(x - y),
            (V::P(p, x), V::I(y)) if op == Bin::Add => V::P(p, x + y),
            (V::O(a, e), V::I(y)) if op == Bin::Add => V::O(a.map(|x| x + y), e.map(|x| x + y)),
            (V::L(a, e), V::I(y)) if op == Bin::Add => V::L(a.map(|x| x + y), e.map(|x| x + y)),
            (V::I(y), V::L(a, e)) if op == Bin::Add => V::L(a.map(|x| x + y), e.map(|x| x + y)),
            (V::L(a, e), V::I(y)) if op == Bin::Sub => V::L(a.map(|x| x - y), e.map(|x| x - y)),
            _ => V::Top,
        }
    }
    fn cmp(&mut self, st: &mut St, p: Pred, n: u32, a: V, b: V) -> R<Cmp> {
        let dec = |x: i64, y: i64| -> bool { let (ux, uy) = (zx(n, x) as u64, zx(n, y) as u64); match p { Pred::Eq => ux == uy, Pred::Ne => ux != uy, Pred::Slt => x < y, Pred::Sle => x <= y, Pred::Sgt => x > y, Pred::Sge => x >= y, Pred::Ult => ux < uy, Pred::Ule => ux <= uy, Pred::Ugt => ux > uy, Pred::Uge => ux >= uy } };
        let eqp = matches!(p, Pred::Eq | Pred::Ne);
        Ok(match (a, b) {
            (V::I(x), V::I(y)) => Cmp::Known(dec(x, y)),
            (V::P(q, x), V::P(r, y)) if q == r => Cmp::Known(dec(x, y)),
            (V::P(..) | V::O(..), V::I(0)) if eqp => Cmp::Known(p == Pred::Ne),
            (V::O(Some(x), _), V::O(Some(y), _)) => Cmp::Known(dec(x, y)),
            (V::O(_, Some(x)), V::O(_, Some(y))) => Cmp::Known(dec(x, y)),
            (V::D(q, i, x), V::D(r, j, y)) if eqp && q == r && x == y => self.two(st, p, i, j),
            (V::X(_, i, j), V::I(0)) if eqp => self.two(st, p, i, j),
            (V::D(_, i, x), V::I(c)) | (V::I(c), V::D(_, i, x)) if eqp => {
                let ok = match x { 1 => (-128..128).contains(&c), 2 => (0..256).contains(&c), _ => true };
                if !ok { return Ok(Cmp::Known(p == Pred::Ne)); }
                let c = c & 255;
                match st.f.is(i as usize, c) { Some(k) => Cmp::Known(k == (p == Pred::Eq)), None => Cmp::Fact(2, i, c, p == Pred::Eq) }
            }
            (V::L(Some(x), _), V::I(y)) => Cmp::Known(dec(x, y)),
            _ => Cmp::Open,
        })
    }
    fn two(&mut self, st: &mut St, p: Pred, i: u16, j: u16) -> Cmp {
        match st.f.same(i as usize, j as usize) {
            Some(k) => Cmp::Known(k == (p == Pred::Eq)),
            None => { let (a, b) = (i.min(j), i.max(j)); if b == a + 1 { Cmp::Fact(0, a, 0, p == Pred::Eq) } else { Cmp::Open } }
        }
    }
    /// follows one plane through the coder; what the decoder makes of it
    pub fn follow(&mut self, deltas: &[u8]) -> Option<Bad> {
        let mut s = vec![0u8; N as usize];
        for i in 0..N as usize { s[i] = if i < W as usize { deltas[i] } else { let z = deltas[i]; let d = if z & 1 == 0 { z >> 1 } else { !(z >> 1) }; s[i - W as usize].wrapping_add(d) }; }
        let mut a = An::new(self.m, self.f);
        a.vals = Some((deltas.to_vec(), s));
        a.base = None;
        a.budget = 20_000_000;
        a.run();
        if let Some(e) = &a.unsup { self.unsup = Some(format!("following one plane: {}", e)); }
        a.bad.into_iter().next()
    }
}
/// planes to follow when the path's own facts do not settle a mismatch
pub fn planes() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    v.push((0..N).map(|i| 1 + (i % 2) as u8).collect());
    v.push(vec![0; N as usize]);
    v.push(vec![255; N as usize]);
    // rows of runs of every length, separated by every number of single bytes
    for a in [1i64, 2, 3, 13, 14, 15, 16, 29, 30, 31] {
        let mut p = vec![0u8; N as usize];
        for r in 0..W { let mut c = 0; let mut x = (r % 3) as u8; while c < W { for _ in 0..r + 1 { if c < W { p[(r * W + c) as usize] = x; c += 1; } } for _ in 0..a { if c < W { x = x.wrapping_mul(5).wrapping_add(7); p[(r * W + c) as usize] = x; c += 1; } } x = x.wrapping_add(1); } }
        v.push(p);
    }
    let mut z = 0x9e3779b97f4a7c15u64;
    for m in [2u64, 3, 16, 256] { v.push((0..N).map(|_| { z ^= z << 13; z ^= z >> 7; z ^= z << 17; ((z >> 20) % m) as u8 }).collect()); }
    v
}
enum Cmp { Known(bool), Open, Fact(u8, u16, i64, bool) }

/// The difference plane the coder works on, as normal forms over the samples: the first row as it is, every other
/// row the difference to the row above with its sign folded into the lowest bit, in eight bits.
pub fn deltas(md: &Module, name: &str, field: i64, o: &mut crate::coder::Out) -> crate::exec::R<()> {
    use crate::exec::*;
    use crate::state::*;
    use crate::term::*;
    let f = match md.funcs.get(name) { Some(f) => f, None => return unsup("no alpha coder") };
    let line = f.blocks.iter().flat_map(|b| &b.ins).map(|i| i.line).find(|&l| l > 0).unwrap_or(0);
    let cfg = crate::scen::Cfg::new(0, 64);
    let mut j = crate::job::Job::new(md, &None, &cfg);
    j.m.alloc_may_fail = false;
    j.m.log_out = false;
    let mut st = match j.create()?.into_iter().next() { Some(s) => s, None => return unsup("no handle is ever created") };
    let be = md.big_endian;
    j.m.cuts.remove(name);
    let mut m = j.m;
    let p = m.newobj(Kind::InOut, "alpha plane", cst(N), Def::Cell(1, false));
    let plane = p.id;
    st.put(p);
    let b = m.newobj(Kind::Output, "output", cst(65536), Def::Undef);
    let out = b.id;
    st.put(b);
    let l = &m.layout;
    let (lp, ld, ls) = (l.s_p as usize, l.s_data as usize, l.s_size as usize);
    let ps = md.ptr as usize;
    let mut s = m.newobj(Kind::InOut, "stream", cst(64), Def::Undef);
    s.write(lp, ps, V::P(out, 0, 1), be);
    s.write(ld, ps, V::P(out, 0, 1), be);
    s.write(ls, 4, V::I(cst(65536)), be);
    let sid = s.id;
    st.put(s);
    let px: Vec<T> = (0..N).map(|i| cell(plane, cst(i), 1)).collect();
    let want: Vec<T> = (0..N as usize).map(|i| if i < W as usize { px[i] } else {
        let d = wrap_s(8, sub(px[i], px[i - W as usize]));
        let neg = ge0(d);
        wrap_u(8, ite(neg, scale(d, 2), addc(scale(d, -2), -1)))
    }).collect();
    let a = vec![(V::P(j.h, 0, 1), Ty::Ptr), (V::P(plane, 0, 1), Ty::Ptr), (V::I(cst(W)), Ty::Int(32)), (V::I(cst(W)), Ty::Int(32)), (V::P(sid, 0, 1), Ty::Ptr)];
    let h = j.h;
    let fs = m.call(st, name, &a)?;
    let mut seen: HashSet<Vec<T>> = HashSet::new();
    for (st, _) in fs {
        if st.infeasible() { continue; }
        o.finals += 1;
        let (ob, off) = match st.obj(h).unwrap().read(field as usize, ps, be) { V::P(ob, off, _) => (ob, as_const(off).unwrap_or(-1)), _ => return unsup("difference plane") };
        if off < 0 { return unsup("difference plane offset"); }
        let x = st.obj(ob).unwrap().clone();
        let mut got = vec![];
        for i in 0..N { match x.read((off + i) as usize, 1, be) { V::I(t) => got.push(wrap_u(8, t)), _ => return unsup("difference") } }
        if !seen.insert(got.clone()) { continue; }
        o.compared += N as usize;
        // each is a function of two samples: the distinct forms are tabulated over all their values
        let (sa, sb) = (sym("sample", 0, 255), sym("above", 0, 255));
        let mut forms: HashMap<T, Option<(i64, i64, i64)>> = HashMap::new();
        let (mut other, mut bad) = (vec![], None);
        for i in 0..N as usize {
            if got[i] == want[i] { continue; }
            let f = |t: T, _: &Node| -> Option<T> { if t == px[i] { Some(sa) } else if i >= 64 && t == px[i - 64] { Some(sb) } else { None } };
            let mut su = Subst::new(&f);
            let (g, w) = (su.go(got[i]), su.go(want[i]));
            let (mut seen, mut ls) = (HashMap::default(), vec![]);
            leaves(g, &mut seen, &mut ls);
            if ls.iter().any(|&l| l != sa && l != sb) { other.push(i); continue; }
            let d = sub(g, w);
            let r = *forms.entry(d).or_insert_with(|| { for x in 0..256 { for y in 0..256 { let mut memo: HashMap<T, i64, Fx> = HashMap::default(); memo.insert(sa, x); memo.insert(sb, y); if eval(d, 0, &mut memo) != 0 { return Some((x, y, eval(g, 0, &mut memo))); } } } None });
            if let (Some((x, y, v)), None) = (r, &bad) { bad = Some((i, format!("for the sample {} below {} the difference coded at row {} column {} is {}", x, y, i / 64, i % 64, v))); }
        }
        if bad.is_none() && !other.is_empty() {
            let (g, w): (Vec<T>, Vec<T>) = other.iter().map(|&i| (got[i], want[i])).unzip();
            match crate::rel::separate(&g, &w, &|_, _| true).1 {
                Some((k, g, w, v)) => bad = Some((other[k], format!("the difference coded at row {} column {} is {} instead of {} ({})", other[k] / 64, other[k] % 64, g, w, v))),
                None => o.unsure.push(format!("{}: {} of the differences not shown to be as defined", name, other.len())),
            }
        }
        if let Some((_, msg)) = bad { o.rows.push(("C21".into(), name.to_string(), line, msg, "difference plane".into())); }
    }
    Ok(())
}
