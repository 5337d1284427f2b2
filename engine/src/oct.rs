//! Octagon domain: conjunctions of +-x +-y <= c over integers, kept strongly closed.
pub const INF: i64 = i64::MAX / 4;
#[derive(Clone, Debug)]
pub struct Oct { pub v: Vec<u32>, pub m: Vec<i64>, pub bot: bool }
fn sat(a: i64, b: i64) -> i64 { if a >= INF || b >= INF { INF } else { let s = a + b; if s >= INF { INF } else { s.max(-INF) } } }
impl Oct {
    pub fn top() -> Oct { Oct { v: vec![], m: vec![], bot: false } }
    fn n2(&self) -> usize { self.v.len() * 2 }
    fn at(&self, i: usize, j: usize) -> i64 { self.m[i * self.n2() + j] }
    pub fn has(&self, x: u32) -> bool { self.v.contains(&x) }
    fn ix(&self, x: u32) -> Option<usize> { self.v.iter().position(|&y| y == x) }
    /// fresh unconstrained variable
    pub fn add(&mut self, x: u32) {
        if self.bot { return; }
        self.forget(x);
        let n = self.n2();
        let k = n + 2;
        let mut m = vec![INF; k * k];
        for i in 0..n { for j in 0..n { m[i * k + j] = self.m[i * n + j]; } }
        m[n * k + n] = 0;
        m[(n + 1) * k + n + 1] = 0;
        self.v.push(x);
        self.m = m;
    }
    pub fn forget(&mut self, x: u32) {
        if self.bot { return; }
        if let Some(p) = self.ix(x) {
            let n = self.n2();
            let keep: Vec<usize> = (0..n).filter(|i| i / 2 != p).collect();
            let mut m = Vec::with_capacity(keep.len() * keep.len());
            for &i in &keep { for &j in &keep { m.push(self.m[i * n + j]); } }
            self.v.remove(p);
            self.m = m;
        }
    }
    pub fn keep(&mut self, f: impl Fn(u32) -> bool) {
        if self.bot { return; }
        let n = self.n2();
        let keep: Vec<usize> = (0..n).filter(|i| f(self.v[i / 2])).collect();
        let mut m = Vec::with_capacity(keep.len() * keep.len());
        for &i in &keep { for &j in &keep { m.push(self.m[i * n + j]); } }
        self.v = self.v.iter().cloned().filter(|&x| f(x)).collect();
        self.m = m;
    }
    pub fn rename(&mut self, f: impl Fn(u32) -> u32) { for x in self.v.iter_mut() { *x = f(*x); } }
    /// V_j - V_i <= c
    fn edge(&mut self, i0: usize, j0: usize, c: i64) {
        if self.bot || c >= INF { return; }
        let n = self.n2();
        if self.at(i0, j0) <= c { return; }
        let (bi, bj) = (i0 ^ 1, j0 ^ 1);
        // edges i0->j0 and bj->bi
        let old = self.m.clone();
        let o = |i: usize, j: usize| old[i * n + j];
        for i in 0..n {
            let a = sat(o(i, i0), c);                       // i -> i0 -> j0
            let b = sat(o(i, bj), c);                       // i -> bj -> bi
            let ab = sat(sat(a, o(j0, bj)), c);             // ... -> bj -> bi
            let ba = sat(sat(b, o(bi, i0)), c);             // ... -> i0 -> j0
            let (pa, pb) = (a.min(ba), b.min(ab));
            if pa >= INF && pb >= INF { continue; }
            for j in 0..n {
                let t = sat(pa, o(j0, j)).min(sat(pb, o(bi, j)));
                if t < self.m[i * n + j] { self.m[i * n + j] = t; }
            }
        }
        self.strengthen();
    }
    fn strengthen(&mut self) {
        let n = self.n2();
        for i in 0..n { let d = self.at(i, i ^ 1); if d < INF && d & 1 != 0 { self.m[i * n + (i ^ 1)] = d - 1; } }
        for i in 0..n {
            let a = self.at(i, i ^ 1);
            if a >= INF { continue; }
            for j in 0..n { let b = self.at(j ^ 1, j); if b < INF { let t = (a >> 1) + (b >> 1); if t < self.m[i * n + j] { self.m[i * n + j] = t; } } }
        }
        for i in 0..n { if self.at(i, i) < 0 || sat(self.at(i, i ^ 1), self.at(i ^ 1, i)) < 0 { self.bot = true; return; } self.m[i * n + i] = 0; }
    }
    pub fn close(&mut self) {
        if self.bot { return; }
        let n = self.n2();
        for k in 0..n { for i in 0..n { let a = self.m[i * n + k]; if a >= INF { continue; } for j in 0..n { let t = sat(a, self.m[k * n + j]); if t < self.m[i * n + j] { self.m[i * n + j] = t; } } } }
        self.strengthen();
    }
    pub fn le(&mut self, x: u32, c: i64) { if let Some(k) = self.ix(x) { self.edge(2 * k + 1, 2 * k, c.saturating_mul(2)); } }
    pub fn ge(&mut self, x: u32, c: i64) { if let Some(k) = self.ix(x) { self.edge(2 * k, 2 * k + 1, c.saturating_mul(-2)); } }
    /// x - y <= c
    pub fn dle(&mut self, x: u32, y: u32, c: i64) { if x == y { if c < 0 { self.bot = true; } return; } if let (Some(a), Some(b)) = (self.ix(x), self.ix(y)) { self.edge(2 * b, 2 * a, c); } }
    pub fn sle(&mut self, x: u32, y: u32, c: i64) { if let (Some(a), Some(b)) = (self.ix(x), self.ix(y)) { if a == b { self.le(x, c.div_euclid(2)); return; } self.edge(2 * b + 1, 2 * a, c); } }
    pub fn sge(&mut self, x: u32, y: u32, c: i64) { if let (Some(a), Some(b)) = (self.ix(x), self.ix(y)) { if a == b { self.ge(x, -((-c).div_euclid(2))); return; } self.edge(2 * b, 2 * a + 1, -c); } }
    pub fn rng(&self, x: u32) -> (i64, i64) {
        if let Some(k) = self.ix(x) {
            let (h, l) = (self.at(2 * k + 1, 2 * k), self.at(2 * k, 2 * k + 1));
            (if l >= INF { -INF } else { -(l >> 1) }, if h >= INF { INF } else { h >> 1 })
        } else { (-INF, INF) }
    }
    /// bounds of x - y
    pub fn diff(&self, x: u32, y: u32) -> (i64, i64) {
        if x == y { return (0, 0); }
        match (self.ix(x), self.ix(y)) { (Some(a), Some(b)) => { let (h, l) = (self.at(2 * b, 2 * a), self.at(2 * a, 2 * b)); (if l >= INF { -INF } else { -l }, h) } _ => (-INF, INF) }
    }
    pub fn sum(&self, x: u32, y: u32) -> (i64, i64) {
        match (self.ix(x), self.ix(y)) { (Some(a), Some(b)) => { if a == b { let (l, h) = self.rng(x); return (if l <= -INF { l } else { 2 * l }, if h >= INF { h } else { 2 * h }); } let (h, l) = (self.at(2 * b + 1, 2 * a), self.at(2 * b, 2 * a + 1)); (if l >= INF { -INF } else { -l }, h) } _ => (-INF, INF) }
    }
    pub fn set_rng(&mut self, x: u32, l: i64, h: i64) { self.add(x); if l > -INF { self.ge(x, l); } if h < INF { self.le(x, h); } }
    /// x := y + c (x fresh, x != y)
    pub fn set_copy(&mut self, x: u32, y: u32, c: i64) {
        if !self.has(y) { self.add(x); return; }
        self.add(x);
        self.dle(x, y, c);
        self.dle(y, x, -c);
    }
    /// x := -y + c
    pub fn set_neg(&mut self, x: u32, y: u32, c: i64) {
        if !self.has(y) { self.add(x); return; }
        self.add(x);
        self.sle(x, y, c);
        self.sge(x, y, c);
    }
    fn perm(&self, o: &Oct) -> Option<Vec<usize>> { if self.v.len() != o.v.len() { return None; } let mut p = vec![]; for &x in &self.v { p.push(o.ix(x)?); } Some(p) }
    /// o's matrix in this variable order
    fn aligned(&self, o: &Oct) -> Option<Vec<i64>> {
        let p = self.perm(o)?;
        let n = self.n2();
        let mut m = vec![0; n * n];
        for i in 0..n { for j in 0..n { m[i * n + j] = o.at(2 * p[i / 2] + (i & 1), 2 * p[j / 2] + (j & 1)); } }
        Some(m)
    }
    pub fn common(&mut self, o: &mut Oct) {
        if self.bot || o.bot { return; }
        let a: Vec<u32> = self.v.clone();
        let b: Vec<u32> = o.v.clone();
        if a == b { return; }
        self.keep(|x| b.contains(&x));
        o.keep(|x| a.contains(&x));
    }
    pub fn join(&mut self, o: &Oct) {
        if o.bot { return; }
        if self.bot { *self = o.clone(); return; }
        let mut o = o.clone();
        self.common(&mut o);
        let m = self.aligned(&o).unwrap();
        for (a, b) in self.m.iter_mut().zip(m) { if b > *a { *a = b; } }
    }
    pub fn leq(&self, o: &Oct) -> bool {
        if self.bot { return true; }
        if o.bot { return false; }
        let mut s = self.clone();
        s.keep(|x| o.has(x));
        let m = match s.aligned(o) { Some(m) => m, None => return false };
        s.m.iter().zip(m).all(|(a, b)| *a <= b)
    }
    /// widening with thresholds; self is the older value
    pub fn widen(&mut self, o: &Oct, th: &[i64]) {
        if o.bot { return; }
        if self.bot { *self = o.clone(); return; }
        let mut o = o.clone();
        self.common(&mut o);
        let m = self.aligned(&o).unwrap();
        let n = self.n2();
        for i in 0..n { for j in 0..n {
            let (a, b) = (self.m[i * n + j], m[i * n + j]);
            if b > a {
                let un = j == (i ^ 1);
                self.m[i * n + j] = if b >= INF { INF } else if un { th.iter().map(|&t| 2 * t).find(|&t| t >= b).unwrap_or(INF) } else if th.is_empty() { INF } else { [-4096, -8, -1, 0, 1, 8, 4096].into_iter().find(|&t| t >= b).unwrap_or(INF) };
            }
        } }
    }
}
