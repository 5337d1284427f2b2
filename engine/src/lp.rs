//! Exact rational simplex (general bounds form) used as the entailment test of the linear domain.
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Q { n: i128, d: i128 }
fn g(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.abs(), b.abs()); while b != 0 { let t = a % b; a = b; b = t; } a }
pub struct Ovf;
type R<X> = Result<X, Ovf>;
impl Q {
    pub fn i(n: i128) -> Q { Q { n, d: 1 } }
    fn new(n: i128, d: i128) -> Q { let k = g(n, d); let k = if k == 0 { 1 } else { k }; let (n, d) = (n / k, d / k); if d < 0 { Q { n: -n, d: -d } } else { Q { n, d } } }
    fn add(self, o: Q) -> R<Q> {
        if self.d == 1 && o.d == 1 { return Ok(Q { n: self.n.checked_add(o.n).ok_or(Ovf)?, d: 1 }); }
        let a = self.n.checked_mul(o.d).ok_or(Ovf)?; let b = o.n.checked_mul(self.d).ok_or(Ovf)?;
        Ok(Q::new(a.checked_add(b).ok_or(Ovf)?, self.d.checked_mul(o.d).ok_or(Ovf)?))
    }
    fn neg(self) -> Q { Q { n: -self.n, d: self.d } }
    fn sub(self, o: Q) -> R<Q> { self.add(o.neg()) }
    fn mul(self, o: Q) -> R<Q> {
        if self.n == 0 || o.n == 0 { return Ok(Q::i(0)); }
        let k1 = g(self.n, o.d); let k2 = g(o.n, self.d);
        Ok(Q { n: (self.n / k1).checked_mul(o.n / k2).ok_or(Ovf)?, d: (self.d / k2).checked_mul(o.d / k1).ok_or(Ovf)? })
    }
    fn inv(self) -> Q { if self.n < 0 { Q { n: -self.d, d: -self.n } } else { Q { n: self.d, d: self.n } } }
    fn lt(self, o: Q) -> R<bool> { Ok(self.sub(o)?.n < 0) }
    fn z(self) -> bool { self.n == 0 }
    pub fn floor(self) -> i128 { self.n.div_euclid(self.d) }
    pub fn is_int(self) -> bool { self.d == 1 }
}

/// sum a_j x_j + c >= 0
#[derive(Clone, Debug)]
pub struct Row { pub a: Vec<(u32, i64)>, pub c: i64 }

pub enum Feas { Infeasible, Feasible(Vec<Q>), Unknown }

/// Is the system {rows, lo<=x<=hi} satisfiable over the rationals?
pub fn feasible(nv: usize, bounds: &[(Option<i128>, Option<i128>)], rows: &[Row]) -> Feas {
    match go(nv, bounds, rows) { Ok(f) => f, Err(_) => Feas::Unknown }
}
fn go(nv: usize, bounds: &[(Option<i128>, Option<i128>)], rows: &[Row]) -> R<Feas> {
    // single-variable rows become bounds
    let mut lo: Vec<Option<Q>> = bounds.iter().map(|b| b.0.map(Q::i)).collect();
    let mut hi: Vec<Option<Q>> = bounds.iter().map(|b| b.1.map(Q::i)).collect();
    let mut rs: Vec<&Row> = vec![];
    for r in rows {
        if r.a.is_empty() { if r.c < 0 { return Ok(Feas::Infeasible); } continue; }
        if r.a.len() == 1 {
            let (x, k) = r.a[0];
            let x = x as usize;
            if k > 0 {
                let b = Q::i(-((r.c as i128).div_euclid(k as i128)));
                if lo[x].map_or(Ok(true), |l| l.lt(b))? { lo[x] = Some(b); }
            } else {
                let b = Q::i((r.c as i128).div_euclid(-(k as i128)));
                if hi[x].map_or(Ok(true), |h| b.lt(h))? { hi[x] = Some(b); }
            }
        } else { rs.push(r); }
    }
    for j in 0..nv { if let (Some(l), Some(h)) = (lo[j], hi[j]) { if h.lt(l)? { return Ok(Feas::Infeasible); } } }
    let m = rs.len();
    let n = nv + m;
    lo.resize(n, None);
    hi.resize(n, None);
    // tableau rows: basic[i] = sum row[i][j] * nonbasic j   (dense over all n columns, sparse maps)
    let mut tab: Vec<HashMap<usize, Q>> = vec![];
    let mut basic: Vec<usize> = vec![];
    let mut row_of: Vec<Option<usize>> = vec![None; n];
    for (i, r) in rs.iter().enumerate() {
        let mut h = HashMap::new();
        for &(x, k) in &r.a { h.insert(x as usize, Q::i(k as i128)); }
        tab.push(h);
        basic.push(nv + i);
        row_of[nv + i] = Some(i);
        lo[nv + i] = Some(Q::i(-(r.c as i128)));
    }
    let mut val: Vec<Q> = vec![Q::i(0); n];
    for j in 0..nv { val[j] = match (lo[j], hi[j]) { (Some(l), _) => if l.n > 0 { l } else if let Some(h) = hi[j] { if h.n < 0 { h } else { Q::i(0) } } else { Q::i(0) }, (None, Some(h)) => if h.n < 0 { h } else { Q::i(0) }, _ => Q::i(0) }; }
    for i in 0..m { let mut s = Q::i(0); for (&j, &k) in &tab[i] { s = s.add(k.mul(val[j])?)?; } val[basic[i]] = s; }
    for _it in 0..2000 {
        // smallest violated basic
        let mut bi: Option<(usize, bool)> = None;
        let mut bv = usize::MAX;
        for i in 0..m {
            let v = basic[i];
            if v >= bv { continue; }
            if let Some(l) = lo[v] { if val[v].lt(l)? { bi = Some((i, true)); bv = v; continue; } }
            if let Some(h) = hi[v] { if h.lt(val[v])? { bi = Some((i, false)); bv = v; } }
        }
        let (i, below) = match bi { None => return Ok(Feas::Feasible(val[..nv].to_vec())), Some(x) => x };
        let target = if below { lo[bv].unwrap() } else { hi[bv].unwrap() };
        let mut pick: Option<usize> = None;
        for (&j, &k) in &tab[i] {
            if k.z() { continue; }
            let inc = (k.n > 0) == below; // must the nonbasic grow?
            let ok = if inc { match hi[j] { Some(h) => val[j].lt(h)?, None => true } } else { match lo[j] { Some(l) => l.lt(val[j])?, None => true } };
            if ok && pick.map_or(true, |p| j < p) { pick = Some(j); }
        }
        let j = match pick { None => return Ok(Feas::Infeasible), Some(j) => j };
        // pivot basic[i] <-> j, then set value
        let k = tab[i][&j];
        let theta = target.sub(val[bv])?.mul(k.inv())?;
        val[bv] = target;
        val[j] = val[j].add(theta)?;
        for r in 0..m { if r != i { if let Some(&c) = tab[r].get(&j) { let b = basic[r]; val[b] = val[b].add(c.mul(theta)?)?; } } }
        // row i: b = ... + k j  =>  j = (b - rest)/k
        let old = std::mem::take(&mut tab[i]);
        let ki = k.inv();
        let mut nr = HashMap::new();
        nr.insert(bv, ki);
        for (x, c) in old { if x != j { let q = c.mul(ki)?.neg(); if !q.z() { nr.insert(x, q); } } }
        for r in 0..m {
            if r == i { continue; }
            if let Some(c) = tab[r].remove(&j) {
                for (&x, &q) in &nr {
                    let add = c.mul(q)?;
                    let e = tab[r].entry(x).or_insert(Q::i(0));
                    *e = e.add(add)?;
                    if e.z() { tab[r].remove(&x); }
                }
            }
        }
        tab[i] = nr;
        basic[i] = j;
        row_of[bv] = None;
        row_of[j] = Some(i);
    }
    Ok(Feas::Unknown)
}
