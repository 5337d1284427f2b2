//! Abstract interpreter for the hand-written x86 assembly (disassembled image).
use crate::exec::*;
use crate::ir::Ty;
use crate::state::*;
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum O { R(u8, u8, u8), X(u8), I(i64), M { base: Option<(u8, u8)>, idx: Option<(u8, i64)>, disp: i64, sz: u8, rip: bool } }
#[derive(Clone, Debug)]
pub struct Insn { pub op: String, pub a: Vec<O>, pub next: u64, pub file: Rc<str>, pub line: u32, pub sym: Rc<str>, pub rep: bool }
#[derive(Default)]
pub struct Prog { pub syms: HashMap<String, u64>, pub code: HashMap<u64, Insn>, pub base: u64, pub end: u64, pub bytes: Vec<u8>, pub ptr: i64, pub rw: Vec<(u64, u64)>, pub globals: Vec<String> }

// register: (number, size, byte offset)
fn reg(s: &str) -> Option<(u8, u8, u8)> {
    const N: [&str; 8] = ["ax", "cx", "dx", "bx", "sp", "bp", "si", "di"];
    if let Some(i) = ["al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil"].iter().position(|x| *x == s) { return Some((i as u8, 1, 0)); }
    if let Some(i) = ["ah", "ch", "dh", "bh"].iter().position(|x| *x == s) { return Some((i as u8, 1, 1)); }
    if let Some(i) = N.iter().position(|x| *x == s) { return Some((i as u8, 2, 0)); }
    if s.len() == 3 {
        if let Some(i) = N.iter().position(|x| *x == &s[1..]) { if s.starts_with('e') { return Some((i as u8, 4, 0)); } if s.starts_with('r') { return Some((i as u8, 8, 0)); } }
    }
    if let Some(r) = s.strip_prefix('r') {
        let (n, sz) = if let Some(x) = r.strip_suffix('d') { (x, 4) } else if let Some(x) = r.strip_suffix('w') { (x, 2) } else if let Some(x) = r.strip_suffix('b') { (x, 1) } else { (r, 8) };
        if let Ok(k) = n.parse::<u8>() { if (8..16).contains(&k) { return Some((k, sz, 0)); } }
    }
    None
}
fn num(s: &str) -> Option<i64> {
    let (n, s) = if let Some(x) = s.strip_prefix('-') { (true, x) } else { (false, s) };
    let v = if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).ok()? as i64 } else { s.parse::<i64>().ok()? };
    Some(if n { v.wrapping_neg() } else { v })
}
fn operand(s: &str) -> Option<O> {
    let s = s.trim();
    if let Some(x) = s.strip_prefix("xmm") { if let Ok(k) = x.parse::<u8>() { return Some(O::X(k)); } }
    if let Some((a, b, c)) = reg(s) { return Some(O::R(a, b, c)); }
    if let Some(n) = num(s) { return Some(O::I(n)); }
    let l = s.find('[')?;
    let r = s.find(']')?;
    let pre = s[..l].trim();
    if pre.contains("fs:") || pre.contains("gs:") { return None; }
    let sz = if pre.starts_with("XMMWORD") { 16 } else if pre.starts_with("QWORD") { 8 } else if pre.starts_with("DWORD") { 4 } else if pre.starts_with("WORD") { 2 } else if pre.starts_with("BYTE") { 1 } else { 0 };
    let inner = s[l + 1..r].replace('-', "+-");
    let (mut base, mut idx, mut disp, mut rip) = (None, None, 0i64, false);
    for p in inner.split('+').filter(|x| !x.is_empty()) {
        if let Some((rg, sc)) = p.split_once('*') { let (n, _, _) = reg(rg)?; idx = Some((n, num(sc)?)); }
        else if p == "rip" { rip = true; }
        else if let Some((n, z, _)) = reg(p) { if base.is_none() { base = Some((n, z)); } else { idx = Some((n, 1)); } }
        else { disp = disp.wrapping_add(num(p)?); }
    }
    Some(O::M { base, idx, disp, sz, rip })
}
impl Prog {
    pub fn has(&self, n: &str) -> bool { self.syms.contains_key(n) }
    /// output of objdump -h, -s and -d -l -z -w -M intel, concatenated
    pub fn parse(text: &str, ptr: i64) -> Result<Prog, String> {
        let mut p = Prog { ptr, ..Default::default() };
        let mut secs: Vec<(u64, u64, bool)> = vec![];
        let mut mem: Vec<(u64, Vec<u8>)> = vec![];
        let mut cur: Option<(String, u64, u64)> = None;
        let (mut insec, mut dis) = (false, false);
        let (mut file, mut line, mut sym): (Rc<str>, u32, Rc<str>) = ("".into(), 0, "".into());
        let hx = |s: &str| u64::from_str_radix(s, 16).ok();
        for l in text.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            if l.starts_with("Contents of section") { insec = true; dis = false; let n = w[3].trim_end_matches(':'); insec = insec && !n.starts_with(".debug") && !n.starts_with(".note") && !n.starts_with(".symtab") && !n.starts_with(".str"); continue; }
            if l.starts_with("Disassembly of section") { dis = true; insec = false; continue; }
            if !dis && !insec && w.len() >= 7 && w[0].parse::<u32>().is_ok() { if let (Some(sz), Some(vma)) = (hx(w[2]), hx(w[3])) { cur = Some((w[1].to_string(), vma, sz)); } continue; }
            if let Some((_, vma, sz)) = cur.take() { if l.contains("ALLOC") { secs.push((vma, sz, l.contains("READONLY"))); } }
            if insec && l.starts_with(' ') {
                if w.is_empty() { continue; }
                let a = match hx(w[0]) { Some(a) => a, None => continue };
                let mut b = vec![];
                let rest = &l[l.find(w[0]).unwrap() + w[0].len()..];
                let body: &str = rest.get(1..36.min(rest.len())).unwrap_or("");
                for g in body.split_whitespace() { let mut i = 0; while i + 2 <= g.len() { if let Some(x) = hx(&g[i..i + 2]) { b.push(x as u8); } i += 2; } }
                mem.push((a, b));
                continue;
            }
            if dis {
                if l.ends_with(">:") { if let (Some(a), Some(i)) = (w.first().and_then(|x| hx(x)), l.find('<')) { let n = &l[i + 1..l.len() - 2]; p.syms.insert(n.to_string(), a); sym = n.into(); } continue; }
                if l.starts_with('/') { if let Some((f, n)) = l.rsplit_once(':') { let n = n.split_whitespace().next().unwrap_or(""); if let Ok(k) = n.parse() { file = f.into(); line = k; } } continue; }
                let c: Vec<&str> = l.split('\t').collect();
                if c.len() >= 3 {
                    let a = match hx(c[0].trim().trim_end_matches(':')) { Some(a) => a, None => continue };
                    let nb = c[1].split_whitespace().count() as u64;
                    let t = c[2].split('#').next().unwrap().split('<').next().unwrap().trim();
                    let (mut op, mut rest) = match t.split_once(' ') { Some((x, y)) => (x.to_string(), y.trim()), None => (t.to_string(), "") };
                    let rep = op.starts_with("rep");
                    if rep || op == "bnd" || op == "notrack" { if let Some((x, y)) = rest.split_once(' ') { op = x.to_string(); rest = y.trim(); } else { op = rest.to_string(); rest = ""; } }
                    let mut ops = vec![];
                    let mut bad = false;
                    // commas inside brackets do not occur in Intel syntax
                    for s in rest.split(',').filter(|s| !s.trim().is_empty()) {
                        let isj = op == "call" || op.starts_with('j') || op.starts_with("loop");
                        match operand(s) { Some(o) => ops.push(o), None => match (isj, hx(s.trim())) { (true, Some(x)) => ops.push(O::I(x as i64)), _ => bad = true } }
                        if isj { if let (Some(O::I(_)), Some(x)) = (ops.last(), hx(s.trim().trim_start_matches("0x"))) { *ops.last_mut().unwrap() = O::I(x as i64); } }
                    }
                    if bad { op = format!("?{}", t); }
                    p.code.insert(a, Insn { op, a: ops, next: a + nb, file: file.clone(), line, sym: sym.clone(), rep });
                }
            }
        }
        if secs.is_empty() || p.code.is_empty() { return Err("no assembly image".into()); }
        p.base = secs.iter().map(|s| s.0).min().unwrap() & !15;
        p.end = secs.iter().map(|s| s.0 + s.1).max().unwrap();
        p.bytes = vec![0; (p.end - p.base) as usize];
        for (a, b) in mem { if a >= p.base { for (i, x) in b.iter().enumerate() { let k = (a - p.base) as usize + i; if k < p.bytes.len() { p.bytes[k] = *x; } } } }
        for (v, s, ro) in secs { if !ro { p.rw.push((v, v + s)); } }
        Ok(p)
    }
}

#[derive(Clone)]
enum Xm { W([T; 8]), Q(Vec<V>) }
struct Cpu<'p> { p: &'p Prog, r: Vec<V>, x: Vec<Xm>, zf: Option<(T, u32)>, cmp: Option<(T, T, u32)>, stk: u32, img: u32 }

const ISA: &[(&str, &str)] = &[("packusdw", "sse4.1"), ("pmovsxbw", "sse4.1"), ("pmovzxbw", "sse4.1"), ("pmovsxwd", "sse4.1"), ("pmovzxwd", "sse4.1"), ("pmulld", "sse4.1"), ("pblendw", "sse4.1"), ("pblendvb", "sse4.1"), ("pextrd", "sse4.1"), ("pextrb", "sse4.1"), ("pinsrd", "sse4.1"), ("pinsrb", "sse4.1"), ("pminsd", "sse4.1"), ("pmaxsd", "sse4.1"), ("pminuw", "sse4.1"), ("pmaxuw", "sse4.1"), ("ptest", "sse4.1"), ("movntdqa", "sse4.1"), ("pcmpeqq", "sse4.1"), ("pcmpgtq", "sse4.2"), ("popcnt", "popcnt"),
    ("pshufb", "ssse3"), ("palignr", "ssse3"), ("pabsw", "ssse3"), ("pabsd", "ssse3"), ("psignw", "ssse3"), ("phaddw", "ssse3"), ("phsubw", "ssse3"), ("pmulhrsw", "ssse3"), ("pmaddubsw", "ssse3"), ("lddqu", "sse3"), ("movddup", "sse3"), ("haddps", "sse3")];

pub fn call(m: &mut Machine, p: &Prog, mut st: State, name: &str, args: &[(V, Ty)]) -> R<Vec<(State, V)>> {
    let ptr = p.ptr;
    let w = (ptr * 8) as u32;
    let nreg = if ptr == 8 { 16 } else { 8 };
    // image
    let img = match m.gobj.get("\u{1}asm-image") { Some(&i) => i, None => { let i = m.nobj; m.nobj += 1; m.gobj.insert("\u{1}asm-image".into(), i); i } };
    if st.obj(img).is_none() {
        let mut o = m.newobj(Kind::Const, "assembly constants", cst(p.bytes.len() as i64), Def::Zero);
        m.nobj -= 1;
        o.id = img;
        for (i, b) in p.bytes.chunks(2).enumerate() { let v = b[0] as i64 + if b.len() > 1 { (b[1] as i64) << 8 } else { 0 }; if v != 0 { o.write(2 * i, b.len(), vi(if b.len() > 1 { v as i16 as i64 } else { v }), false); } }
        st.put(o);
    }
    let nstk = if ptr == 4 { args.len() as i64 * 4 } else { (args.len() as i64 - 6).max(0) * 8 };
    let entry = 65536 - 128 + m.asm_align;
    let mut so = m.newobj(Kind::Stack, &format!("asm stack of {}", name), cst(entry + ptr + nstk), Def::Undef);
    let stk = so.id;
    let retv = V::I(sym("return_address", 4096, PINF));
    so.write(entry as usize, ptr as usize, retv, false);
    let mut c = Cpu { p, r: vec![V::N; nreg], x: vec![], zf: None, cmp: None, stk, img };
    for i in 0..nreg { c.r[i] = V::I(sym(&format!("entry_reg{}", i), 0, if ptr == 8 { PINF } else { (1 << 32) - 1 })); }
    let entry_regs = c.r.clone();
    for i in 0..nreg { c.x.push(Xm::W({ let mut a = [0; 8]; for (k, l) in a.iter_mut().enumerate() { *l = sym(&format!("entry_xmm{}_{}", i, k), -32768, 32767); } a })); }
    for i in 0..nreg { if ptr == 8 || ![3, 4, 5, 6, 7].contains(&i) { c.r[i] = V::I(undef()); } }
    if ptr == 8 { for i in [3usize, 5, 12, 13, 14, 15] { c.r[i] = entry_regs[i]; } }
    for xm in c.x.iter_mut() { *xm = Xm::W([undef(); 8]); }
    c.r[4] = V::P(stk, cst(entry), 1);
    for (i, (v, t)) in args.iter().enumerate() {
        let v = match (v, t) { (V::I(x), Ty::Int(32)) => V::I(st.uread(32, *x)), (v, _) => *v };
        if ptr == 8 && i < 6 { c.r[[7, 6, 2, 1, 8, 9][i]] = v; } else { let k = if ptr == 8 { i - 6 } else { i }; so.write((entry + ptr + k as i64 * ptr) as usize, ptr as usize, v, false); }
    }
    st.put(so);
    let saved: &[usize] = if ptr == 8 { &[3, 5, 12, 13, 14, 15] } else { &[3, 5, 6, 7] };
    let mut pc = p.syms[name];
    let mut steps = 0u64;
    m.asm_funcs.insert(name.to_string());
    loop {
        let ins = match p.code.get(&pc) { Some(i) => i, None => { m.asm_loc = None; return unsup(format!("assembly control reaches {:#x}", pc)); } };
        m.stats.steps += 1;
        steps += 1;
        m.asm_loc = Some((ins.sym.to_string(), ins.file.to_string(), ins.line));
        if steps > 3_000_000 { m.asm_loc = None; return unsup("assembly step limit"); }
        if m.asm_seen.insert(pc) {
            if let Some((_, need)) = ISA.iter().find(|x| x.0 == ins.op) { let have = match *need { "sse4.1" => m.cpu.1, _ => false }; if !have { m.viol(&st, "isa", format!("{} needs {} which was not detected", ins.op, need)); } }
            else if ins.op.starts_with('v') && ins.op.len() > 3 { m.viol(&st, "isa", format!("{} needs AVX", ins.op)); }
            else if !m.cpu.0 && ins.a.iter().any(|o| matches!(o, O::X(_))) { m.viol(&st, "isa", format!("{} needs SSE2 which was not detected", ins.op)); }
        }
        match c.step(m, &mut st, ins, w)? {
            Next::Seq => pc = ins.next,
            Next::Jmp(a) => pc = a,
            Next::Ret(v) => {
                if v == retv && c.r[4] == V::P(stk, cst(entry + ptr), 1) { break; }
                match v {
                    V::P(o, off, _) if o == img => match as_const(off) { Some(k) => pc = p.base + k as u64, None => { m.asm_loc = None; return unsup("return to a symbolic address"); } },
                    _ => { m.viol(&st, "abi", format!("{} returns through a corrupted return address or with an unbalanced stack", name)); m.asm_loc = None; return Ok(vec![]); }
                }
            }
        }
        if st.dead { m.asm_loc = None; return Ok(vec![]); }
    }
    m.stats.oblig += saved.len() as u64 + 1;
    for &i in saved { if c.r[i] != entry_regs[i] { m.viol(&st, "abi", format!("{} does not restore callee-saved register {}", name, i)); } }
    m.asm_loc = None;
    st.drop_obj(stk);
    let rv = match c.r[0] { V::I(t) => V::I(wrap_s(32, t)), v => v };
    Ok(vec![(st, rv)])
}
enum Next { Seq, Jmp(u64), Ret(V) }

impl<'p> Cpu<'p> {
    fn full(&self) -> u8 { self.p.ptr as u8 }
    fn ea(&self, st: &State, o: &O, next: u64) -> R<V> {
        let w = (self.p.ptr * 8) as u32;
        if let O::M { base, idx, disp, rip, .. } = o {
            if *rip { return Ok(V::P(self.img, cst((next as i64).wrapping_add(*disp) - self.p.base as i64), 1)); }
            let mut d = *disp;
            if w == 32 { d = d as i32 as i64; }
            let mut v = match base { Some((b, _)) => self.r[*b as usize], None => vi(0) };
            if let Some((i, s)) = idx {
                let iv = self.r[*i as usize];
                v = match (v, iv) {
                    (V::P(o, f, n), V::I(t)) => V::P(o, add(f, scale(st.sread(w, t), *s)), n),
                    (V::I(t), V::P(o, f, n)) if *s == 1 => V::P(o, add(f, st.sread(w, t)), n),
                    (V::I(a), V::I(b)) => V::I(add(a, scale(b, *s))),
                    _ => return unsup("address arithmetic"),
                };
            }
            return Ok(match v { V::P(o, f, n) => V::P(o, addc(f, d), n), V::I(t) => V::I(addc(t, d)), v => v });
        }
        unsup("not a memory operand")
    }
    fn mem(&self, m: &mut Machine, st: &State, v: V, write: bool) -> R<V> {
        // absolute addresses inside the image
        if let V::I(t) = v { if let Some(k) = as_const(t) { if k as u64 >= self.p.base && (k as u64) < self.p.end { return Ok(V::P(self.img, cst(k - self.p.base as i64), 1)); } } }
        if let V::P(o, f, _) = v {
            if o == self.stk { if let (Some(k), V::P(_, sp, _)) = (as_const(f), self.r[4]) { if let Some(sp) = as_const(sp) { let rz = if self.p.ptr == 8 { 128 } else { 0 }; if k < sp - rz { m.viol(st, "abi", format!("{} below the stack pointer", if write { "write" } else { "read" })); } } } }
            if o == self.img && write { if let Some(k) = as_const(f) { if self.p.rw.iter().any(|r| k as u64 + self.p.base >= r.0 && (k as u64 + self.p.base) < r.1) { m.viol(st, "global-write", "assembly writes process-wide data".into()); } } }
        }
        Ok(v)
    }
    fn get(&mut self, m: &mut Machine, st: &mut State, o: &O, sz: u8, next: u64) -> R<V> {
        Ok(match o {
            O::I(i) => vi(*i),
            O::R(n, s, b) => {
                let v = self.r[*n as usize];
                if *s == self.full() { return Ok(v); }
                match v { V::I(t) => V::I(wrap_u(8 * *s, shr(st.uread(8 * self.full() as u32, t), 8 * *b))), V::P(..) => V::I(sym("ptrbits", 0, (1i64 << (8 * *s)) - 1)), v => v }
            }
            O::M { .. } => {
                let a = self.ea(st, o, next)?;
                let a = self.mem(m, st, a, false)?;
                let isptr = sz == self.full();
                let v = self.ldn(m, st, a, sz, isptr)?;
                match v { V::I(t) => V::I(if sz < 8 { wrap_u(8 * sz, t) } else { t }), v => v }
            }
            O::X(_) => return unsup("xmm operand"),
        })
    }
    fn ldn(&self, m: &mut Machine, st: &mut State, a: V, sz: u8, isptr: bool) -> R<V> {
        if isptr {
            if let V::P(o, f, _) = a { if let (Some(k), Some(ob)) = (as_const(f), st.obj(o)) { if k >= 0 { if let Slot::S(n, V::P(..) | V::F(_)) = ob.slot(k as usize) { if n == sz { return m.load(st, &Ty::Ptr, a); } } } } }
        }
        m.load(st, &Ty::Int(8 * sz as u32), a)
    }
    fn put(&mut self, m: &mut Machine, st: &mut State, o: &O, sz: u8, v: V, next: u64) -> R<()> {
        match o {
            O::R(n, s, b) => {
                let fb = 8 * self.full();
                let nv = if *s == self.full() { v } else {
                    let t = match v { V::I(t) => t, V::P(..) => sym("ptrbits", 0, (1i64 << (8 * *s)) - 1), _ => undef() };
                    if *s == 4 { V::I(wrap_u(32, t)) } else {
                        let old = match self.r[*n as usize] { V::I(t) => t, _ => return unsup("partial write of a pointer register") };
                        let u = if has_undef(old) { sym("regbits", 0, PINF) } else { old };
                        let lo = wrap_u(8 * (*s + *b), u);
                        let low = if *b > 0 { wrap_u(8 * *b, u) } else { 0 };
                        let _ = fb;
                        V::I(add(add(sub(u, lo), low), scale(wrap_u(8 * *s, t), 1i64 << (8 * *b))))
                    }
                };
                self.r[*n as usize] = nv;
                Ok(())
            }
            O::M { .. } => {
                let a = self.ea(st, o, next)?;
                let a = self.mem(m, st, a, true)?;
                let ty = if matches!(v, V::P(..)) && sz == self.full() { Ty::Ptr } else { Ty::Int(8 * sz as u32) };
                m.store(st, &ty, v, a)
            }
            _ => unsup("store operand"),
        }
    }
    fn ldx(&mut self, m: &mut Machine, st: &mut State, o: &O, n: usize, aligned: bool, next: u64) -> R<Xm> {
        if let O::X(k) = o { return Ok(self.x[*k as usize].clone()); }
        let a = self.ea(st, o, next)?;
        let a = self.mem(m, st, a, false)?;
        if aligned { self.align(m, st, a); }
        if let V::P(ob, f, nn) = a {
            if let (Some(k), Some(x)) = (as_const(f), st.obj(ob)) {
                let ps = self.p.ptr as usize;
                if k >= 0 && (0..n).step_by(ps).any(|i| matches!(x.slot(k as usize + i), Slot::S(_, V::P(..)))) {
                    let mut q = vec![];
                    for i in (0..16).step_by(ps) { if i < n { q.push(self.ldn(m, st, V::P(ob, addc(f, i as i64), nn), ps as u8, true)?); } else { q.push(vi(0)); } }
                    return Ok(Xm::Q(q));
                }
            }
            let mut r = [0; 8];
            for i in 0..n / 2 { match m.load(st, &Ty::Int(16), V::P(ob, addc(f, 2 * i as i64), nn))? { V::I(t) => r[i] = wrap_s(16, t), _ => return unsup("vector load of a pointer") } if st.dead { break; } }
            return Ok(Xm::W(r));
        }
        unsup("vector load address")
    }
    fn align(&self, m: &mut Machine, st: &State, a: V) {
        m.stats.oblig += 1;
        if let V::P(o, f, _) = a {
            let al = st.obj(o).map_or(1, |x| x.align);
            if al < 16 || wrap_u(4, f) != 0 { let nm = st.obj(o).map(|x| x.name.to_string()).unwrap_or_default(); m.viol(st, "align", format!("aligned vector access at offset {} of {} which is not 16-byte aligned", show(f), nm)); }
        }
    }
    fn stx(&mut self, m: &mut Machine, st: &mut State, o: &O, v: Xm, n: usize, aligned: bool, next: u64) -> R<()> {
        if let O::X(k) = o { self.x[*k as usize] = v; return Ok(()); }
        let a = self.ea(st, o, next)?;
        let a = self.mem(m, st, a, true)?;
        if aligned { self.align(m, st, a); }
        if let V::P(ob, f, nn) = a {
            match v {
                Xm::Q(q) => { let ps = self.p.ptr; for (i, v) in q.iter().enumerate() { if i as i64 * ps >= n as i64 { break; } let ty = if matches!(v, V::P(..)) { Ty::Ptr } else { Ty::Int(8 * ps as u32) }; m.store(st, &ty, *v, V::P(ob, addc(f, i as i64 * ps), nn))?; } }
                Xm::W(w) => for i in 0..n / 2 { m.store(st, &Ty::Int(16), V::I(w[i]), V::P(ob, addc(f, 2 * i as i64), nn))?; if st.dead { break; } },
            }
            return Ok(());
        }
        unsup("vector store address")
    }
    fn w(&self, x: Xm) -> R<[T; 8]> { match x { Xm::W(w) => Ok(w), Xm::Q(q) => {
        let mut r = [0; 8];
        let per = (self.p.ptr / 2) as usize;
        for (i, v) in q.iter().enumerate() { match v { V::I(t) => for k in 0..per { r[i * per + k] = wrap_s(16, shr(*t, 16 * k as u8)); }, _ => return unsup("vector arithmetic on pointers") } }
        Ok(r)
    } } }
    fn ops(&self, ins: &Insn) -> u8 {
        for o in &ins.a { if let O::R(_, s, _) = o { return *s; } }
        for o in &ins.a { if let O::M { sz, .. } = o { if *sz > 0 { return *sz; } } }
        self.full()
    }
    fn step(&mut self, m: &mut Machine, st: &mut State, ins: &Insn, w: u32) -> R<Next> {
        let nx = ins.next;
        let a = &ins.a;
        let op = ins.op.as_str();
        let sz = self.ops(ins);
        let bits = 8 * sz as u32;
        let ps = self.p.ptr;
        macro_rules! int { ($v:expr) => { match $v { V::I(t) => t, V::P(0, o, 0) => o, V::N => undef(), _ => return unsup(format!("{} on a pointer", op)) } } }
        match op {
            "nop" | "endbr64" | "endbr32" | "emms" => {}
            "cld" | "sfence" | "lfence" | "mfence" => {}
            "mov" | "movabs" => { let v = self.get(m, st, &a[1], sz, nx)?; let v = match v { V::I(t) if sz < 8 && matches!(a[1], O::I(_)) => V::I(wrap_u(8 * sz, t)), v => v }; if st.dead { return Ok(Next::Seq); } self.put(m, st, &a[0], sz, v, nx)?; }
            "movzx" | "movsx" | "movsxd" => {
                let s1 = match &a[1] { O::R(_, s, _) => *s, O::M { sz, .. } => *sz, _ => return unsup("movzx") };
                let v = self.get(m, st, &a[1], s1, nx)?;
                let t = int!(v);
                let t = if op == "movzx" { wrap_u(8 * s1, t) } else { wrap_s(8 * s1, t) };
                let d = match &a[0] { O::R(_, s, _) => *s, _ => sz };
                self.put(m, st, &a[0], d, V::I(t), nx)?;
            }
            "cdqe" => { if let V::I(t) = self.r[0] { self.r[0] = V::I(wrap_s(32, t)); } }
            "lea" => { let v = self.ea(st, &a[1], nx)?; let v = match v { V::I(t) => V::I(if bits < 64 { wrap_u(bits as u8, t) } else { t }), v => v }; self.put(m, st, &a[0], sz, v, nx)?; }
            "push" => {
                let v = self.get(m, st, &a[0], ps as u8, nx)?;
                if let V::P(o, f, n) = self.r[4] { self.r[4] = V::P(o, addc(f, -ps), n); }
                let sp = self.r[4];
                let ty = if matches!(v, V::P(..)) { Ty::Ptr } else { Ty::Int(w) };
                m.store(st, &ty, v, sp)?;
            }
            "pop" => {
                let sp = self.r[4];
                let v = self.ldn(m, st, sp, ps as u8, true)?;
                if let V::P(o, f, n) = self.r[4] { self.r[4] = V::P(o, addc(f, ps), n); }
                self.put(m, st, &a[0], ps as u8, v, nx)?;
            }
            "call" => {
                let t = match &a[0] { O::I(t) => *t as u64, _ => return unsup("indirect call in assembly") };
                if !self.p.code.contains_key(&t) { return unsup("assembly calls outside the image"); }
                if let V::P(o, f, n) = self.r[4] { self.r[4] = V::P(o, addc(f, -ps), n); }
                let sp = self.r[4];
                m.store(st, &Ty::Ptr, V::P(self.img, cst(nx as i64 - self.p.base as i64), 1), sp)?;
                return Ok(Next::Jmp(t));
            }
            "ret" | "retn" => {
                let sp = self.r[4];
                let v = self.ldn(m, st, sp, ps as u8, true)?;
                if let V::P(o, f, n) = self.r[4] { self.r[4] = V::P(o, addc(f, ps), n); }
                if !a.is_empty() { return unsup("ret imm"); }
                return Ok(Next::Ret(v));
            }
            "jmp" => { if let O::I(t) = &a[0] { return Ok(Next::Jmp(*t as u64)); } return unsup("indirect jump"); }
            "je" | "jz" | "jne" | "jnz" | "js" | "jns" | "jl" | "jge" | "jle" | "jg" | "jb" | "jae" | "jbe" | "ja" => {
                let t = match &a[0] { O::I(t) => *t as u64, _ => return unsup("jcc") };
                let c = match op {
                    "je" | "jz" | "jne" | "jnz" | "js" | "jns" => {
                        let (r, b) = match self.zf { Some(x) => x, None => return unsup("flags") };
                        let s = st.sread(b, r);
                        let c = if op.ends_with('s') { ge0(sub(cst(-1), s)) } else { eq0(s) };
                        if op.contains('n') { bnot(c) } else { c }
                    }
                    _ => {
                        let (x, y, b) = match self.cmp { Some(x) => x, None => return unsup("flags") };
                        let (x, y) = if matches!(op, "jl" | "jge" | "jle" | "jg") { (st.sread(b, x), st.sread(b, y)) } else { (st.uread(b, x), st.uread(b, y)) };
                        match op { "jl" | "jb" => ge0(addc(sub(y, x), -1)), "jge" | "jae" => ge0(sub(x, y)), "jle" | "jbe" => ge0(sub(y, x)), _ => ge0(addc(sub(x, y), -1)) }
                    }
                };
                return match st.decide(c) { Some(true) => Ok(Next::Jmp(t)), Some(false) => Ok(Next::Seq), None => unsup("data-dependent branch in assembly") };
            }
            "loop" => {
                let t = match &a[0] { O::I(t) => *t as u64, _ => return unsup("loop") };
                let v = int!(self.r[1]);
                let r = addc(v, -1);
                self.r[1] = V::I(r);
                return match as_const(st.sread(w, r)) { Some(0) => Ok(Next::Seq), Some(_) => Ok(Next::Jmp(t)), None => unsup("data-dependent loop in assembly") };
            }
            "add" | "sub" | "inc" | "dec" | "and" | "or" | "xor" | "shl" | "sal" | "shr" | "sar" | "imul" | "cmp" | "test" | "neg" | "not" => {
                let x = self.get(m, st, &a[0], sz, nx)?;
                let y = match op { "inc" | "dec" => vi(1), "neg" | "not" => vi(0), "imul" if a.len() == 3 => self.get(m, st, &a[2], sz, nx)?, "imul" if a.len() == 1 => return unsup("imul"), _ => if a.len() > 1 { self.get(m, st, &a[1], sz, nx)? } else { vi(1) } };
                let x = if op == "imul" && a.len() == 3 { self.get(m, st, &a[1], sz, nx)? } else { x };
                if st.dead { return Ok(Next::Seq); }
                let isp = |v: V| matches!(v, V::P(o, _, _) if o != 0);
                let r = if op == "xor" && matches!((&a[0], a.get(1)), (O::R(p, s, b), Some(O::R(q, t, c))) if p == q && s == t && b == c) { vi(0) }
                else if isp(x) || isp(y) {
                    match (op, x, y) {
                        ("add", V::P(o, f, n), V::I(t)) | ("add", V::I(t), V::P(o, f, n)) => V::P(o, add(f, st.sread(w, t)), n),
                        ("inc", V::P(o, f, n), _) => V::P(o, addc(f, 1), n),
                        ("dec", V::P(o, f, n), _) => V::P(o, addc(f, -1), n),
                        ("sub" | "cmp", V::P(o, f, _), V::P(q, g, _)) if o == q => V::I(sub(f, g)),
                        ("sub", V::P(o, f, n), V::I(t)) => V::P(o, sub(f, st.sread(w, t)), n),
                        ("and", V::P(o, f, n), V::I(t)) => {
                            let al = st.obj(o).map_or(1, |x| x.align) as i64;
                            match as_const(st.sread(w, t)) {
                                Some(c) if c < 0 && ((-c) as u64).is_power_of_two() && -c <= al => V::P(o, sub(f, wrap_u((-c).trailing_zeros() as u8, f)), n),
                                Some(c) if c >= 0 && ((c + 1) as u64).is_power_of_two() && c + 1 <= al => V::I(wrap_u((c + 1).trailing_zeros() as u8, f)),
                                _ => return unsup("pointer mask"),
                            }
                        }
                        _ => return unsup(format!("{} on a pointer", op)),
                    }
                } else {
                    let (p, q) = (int!(x), int!(y));
                    let sh = || -> R<u8> { match as_const(q) { Some(k) if (0..64).contains(&k) => Ok((k as u32 & if bits == 64 { 63 } else { 31 }) as u8), _ => unsup("variable shift in assembly") } };
                    let b8 = bits as u8;
                    let t = match op {
                        "add" | "inc" => add(p, q), "sub" | "dec" | "cmp" => sub(p, q), "neg" => neg(p), "not" => sub(cst(-1), p),
                        "and" | "test" => and(st.uread(bits, p), st.uread(bits, q)), "or" => or(st.uread(bits, p), st.uread(bits, q)), "xor" => xor(st.uread(bits, p), st.uread(bits, q)),
                        "shl" | "sal" => scale(p, 1i64 << sh()?), "shr" => shr(st.uread(bits, p), sh()?), "sar" => shr(st.sread(bits, p), sh()?),
                        _ => mul(st.sread(bits, p), st.sread(bits, q)),
                    };
                    V::I(if bits < 64 { wrap_u(b8, t) } else { t })
                };
                match r { V::I(t) => self.zf = Some((t, bits)), _ => self.zf = None }
                self.cmp = match (op, x, y) { ("cmp" | "sub", V::I(p), V::I(q)) => Some((p, q, bits)), ("cmp" | "sub", V::P(o, f, _), V::P(q, g, _)) if o == q => Some((f, g, 64)), ("test" | "and" | "or" | "xor", ..) => match r { V::I(t) => Some((t, 0, bits)), _ => None }, _ => None };
                if op != "cmp" && op != "test" { self.put(m, st, &a[0], sz, r, nx)?; }
            }
            "cpuid" => {
                let leaf = match self.r[0] { V::I(t) => as_const(st.uread(32, t)), _ => None };
                let f = |n: &str| V::I(sym(n, 0, (1 << 32) - 1));
                let part = |n: &str, at: i64, bit: bool| { let lo = sym(&format!("{}_lo", n), 0, (1 << at) - 1); let hi = sym(&format!("{}_hi", n), 0, (1 << (31 - at)) - 1); V::I(add(add(lo, scale(hi, 1 << (at + 1))), cst(if bit { 1 << at } else { 0 }))) };
                self.r[0] = f("cpuid_eax");
                self.r[3] = f("cpuid_ebx");
                if leaf == Some(1) { self.r[1] = part("cpuid_ecx", 19, m.cpu.1); self.r[2] = part("cpuid_edx", 26, m.cpu.0); m.cpuid_ok = true; } else { self.r[1] = f("cpuid_ecx"); self.r[2] = f("cpuid_edx"); }
            }
            // -------------------------------------------------------- vectors
            "movdqa" | "movaps" | "movdqu" | "movups" | "lddqu" => {
                let al = op.ends_with('a') || op == "movaps";
                let v = self.ldx(m, st, &a[1], 16, al && !matches!(a[1], O::X(_)), nx)?;
                if st.dead { return Ok(Next::Seq); }
                self.stx(m, st, &a[0], v, 16, al && !matches!(a[0], O::X(_)), nx)?;
            }
            "movq" | "movd" => {
                let n = if op == "movq" { 8 } else { 4 };
                match (&a[0], &a[1]) {
                    (O::X(d), O::X(s)) => { let mut x = self.w(self.x[*s as usize].clone())?; for l in x.iter_mut().skip(n / 2) { *l = 0; } self.x[*d as usize] = Xm::W(x); }
                    (O::X(d), o @ O::M { .. }) => { let v = self.ldx(m, st, o, n, false, nx)?; self.x[*d as usize] = v; }
                    (o @ O::M { .. }, O::X(s)) => { let v = self.x[*s as usize].clone(); self.stx(m, st, o, v, n, false, nx)?; }
                    (O::X(d), O::R(..)) => { let v = self.get(m, st, &a[1], sz, nx)?; let t = int!(v); let mut x = [0; 8]; for i in 0..n / 2 { x[i] = wrap_s(16, shr(if n == 4 { wrap_u(32, t) } else { t }, 16 * i as u8)); } self.x[*d as usize] = Xm::W(x); }
                    (O::R(..), O::X(s)) => {
                        let x = self.w(self.x[*s as usize].clone())?;
                        let mut t = 0;
                        for i in 0..n / 2 { t = add(t, scale(wrap_u(16, x[i]), 1i64 << (16 * i))); }
                        self.put(m, st, &a[0], sz, V::I(t), nx)?;
                    }
                    _ => return unsup("movd"),
                }
            }
            "pxor" | "xorps" if matches!((&a[0], &a[1]), (O::X(p), O::X(q)) if p == q) => { if let O::X(d) = a[0] { self.x[d as usize] = Xm::W([0; 8]); } }
            _ if matches!(a.first(), Some(O::X(_))) => {
                let d = if let O::X(d) = a[0] { d as usize } else { 0 };
                let x = self.w(self.x[d].clone())?;
                let imm = if let Some(O::I(k)) = a.get(1) { Some(*k) } else { None };
                let y = if imm.is_none() { let v = self.ldx(m, st, &a[1], 16, !matches!(a[1], O::X(_)), nx)?; if st.dead { return Ok(Next::Seq); } self.w(v)? } else { [0; 8] };
                let mut r = [0; 8];
                // shift count from a register: low quadword
                let cnt = |st: &State| -> R<T> { if let Some(k) = imm { return Ok(cst(k)); } if y[1] != 0 || y[2] != 0 || y[3] != 0 { return unsup(format!("vector shift count {} {} {} {}", show(y[0]), show(y[1]), show(y[2]), show(y[3]))); } Ok(st.uread(16, y[0])) };
                let dw = |z: &[T; 8], i: usize| add(wrap_u(16, z[2 * i]), scale(z[2 * i + 1], 65536)); // signed dword
                let bytes = |z: &[T; 8]| -> Vec<T> { (0..16).map(|i| byte_of(z[i / 2], i % 2)).collect() };
                let unb = |b: &[T]| -> [T; 8] { let mut r = [0; 8]; for i in 0..8 { r[i] = wrap_s(16, add(b[2 * i], scale(b[2 * i + 1], 256))); } r };
                match op {
                    "paddw" => for i in 0..8 { r[i] = wrap_s(16, add(x[i], y[i])); },
                    "psubw" => for i in 0..8 { r[i] = wrap_s(16, sub(x[i], y[i])); },
                    "pmullw" => for i in 0..8 { r[i] = wrap_s(16, mul(x[i], y[i])); },
                    "pmulhw" => for i in 0..8 { r[i] = wrap_s(16, shr(mul(x[i], y[i]), 16)); },
                    "paddd" | "psubd" => for i in 0..4 { let (p, q) = (dw(&x, i), dw(&y, i)); let s = wrap_s(32, if op == "paddd" { add(p, q) } else { sub(p, q) }); r[2 * i] = wrap_s(16, s); r[2 * i + 1] = wrap_s(16, shr(s, 16)); },
                    "pand" | "andps" => for i in 0..8 { r[i] = wrap_s(16, and(x[i], y[i])); },
                    "pandn" => for i in 0..8 { r[i] = wrap_s(16, and(sub(cst(-1), x[i]), y[i])); },
                    "por" | "orps" => for i in 0..8 { r[i] = if x[i] == 0 { y[i] } else if y[i] == 0 { x[i] } else { wrap_s(16, or(x[i], y[i])) }; },
                    "pxor" => for i in 0..8 { r[i] = wrap_s(16, xor(x[i], y[i])); },
                    "pminsw" => for i in 0..8 { r[i] = ite(ge0(sub(x[i], y[i])), y[i], x[i]); },
                    "pmaxsw" => for i in 0..8 { r[i] = ite(ge0(sub(x[i], y[i])), x[i], y[i]); },
                    "psraw" => { let k = cnt(st)?; let (l, h) = rng(k); let k = if l >= 0 && h <= 15 { k } else if l > 15 { cst(15) } else { return unsup("psraw count") }; for i in 0..8 { r[i] = shrv(x[i], k); } }
                    "psrlw" => { let k = cnt(st)?; let (l, h) = rng(k); if l > 15 { r = [0; 8]; } else if h <= 15 { for i in 0..8 { r[i] = wrap_s(16, shrv(wrap_u(16, x[i]), k)); } } else { return unsup("psrlw count"); } }
                    "psllw" => { let k = cnt(st)?; match as_const(k) { Some(k) if k > 15 => r = [0; 8], Some(k) => for i in 0..8 { r[i] = wrap_s(16, scale(x[i], 1 << k)); }, None => { if rng(k).1 > 15 { return unsup("psllw count"); } for i in 0..8 { r[i] = wrap_s(16, mul(x[i], pow2(k))); } } } }
                    "pslld" | "psrad" | "psrld" => {
                        let k = match as_const(cnt(st)?) { Some(k) => k, None => return unsup("dword shift count") };
                        for i in 0..4 {
                            if k == 16 {
                                match op { "pslld" => { r[2 * i] = 0; r[2 * i + 1] = x[2 * i]; } "psrad" => { r[2 * i] = x[2 * i + 1]; r[2 * i + 1] = shr(x[2 * i + 1], 15); } _ => { r[2 * i] = x[2 * i + 1]; r[2 * i + 1] = 0; } }
                                continue;
                            }
                            let s = dw(&x, i);
                            let s = match op { "pslld" => if k > 31 { 0 } else { wrap_s(32, scale(s, 1 << k)) }, "psrad" => shr(s, k.min(31) as u8), _ => if k > 31 { 0 } else { wrap_s(32, shr(wrap_u(32, s), k as u8)) } };
                            r[2 * i] = wrap_s(16, s);
                            r[2 * i + 1] = wrap_s(16, shr(s, 16));
                        }
                    }
                    "psrldq" | "pslldq" => {
                        let k = match imm { Some(k) => k, None => return unsup("psrldq") }.clamp(0, 16) as usize;
                        if k % 2 == 0 { let h = k / 2; for i in 0..8 { r[i] = if op == "psrldq" { if i + h < 8 { x[i + h] } else { 0 } } else if i >= h { x[i - h] } else { 0 }; } }
                        else { let b = bytes(&x); let nb: Vec<T> = (0..16).map(|i| if op == "psrldq" { if i + k < 16 { b[i + k] } else { 0 } } else if i >= k { b[i - k] } else { 0 }).collect(); r = unb(&nb); }
                    }
                    "psrlq" | "psllq" => {
                        let k = match as_const(cnt(st)?) { Some(k) if k % 16 == 0 => (k / 16) as usize, _ => return unsup("quadword shift") };
                        for h in 0..2 { for i in 0..4 { r[4 * h + i] = if op == "psrlq" { if i + k < 4 { x[4 * h + i + k] } else { 0 } } else if i >= k { x[4 * h + i - k] } else { 0 }; } }
                    }
                    "punpcklbw" | "punpckhbw" => { let (p, q) = (bytes(&x), bytes(&y)); let o = if op == "punpcklbw" { 0 } else { 8 }; let mut b = vec![]; for i in 0..8 { b.push(p[o + i]); b.push(q[o + i]); } r = unb(&b); }
                    "punpcklwd" | "punpckhwd" => { let o = if op == "punpcklwd" { 0 } else { 4 }; for i in 0..4 { r[2 * i] = x[o + i]; r[2 * i + 1] = y[o + i]; } }
                    "punpckldq" | "punpckhdq" => { let o = if op == "punpckldq" { 0 } else { 4 }; for i in 0..2 { for k in 0..2 { r[4 * i + k] = x[o + 2 * i + k]; r[4 * i + 2 + k] = y[o + 2 * i + k]; } } }
                    "punpcklqdq" | "punpckhqdq" => { let o = if op == "punpcklqdq" { 0 } else { 4 }; for i in 0..4 { r[i] = x[o + i]; r[4 + i] = y[o + i]; } }
                    "pshufd" => { let k = match a.get(2) { Some(O::I(k)) => *k, _ => return unsup("pshufd") }; for i in 0..4 { let s = ((k >> (2 * i)) & 3) as usize; r[2 * i] = y[2 * s]; r[2 * i + 1] = y[2 * s + 1]; } }
                    "pshuflw" | "pshufhw" => { let k = match a.get(2) { Some(O::I(k)) => *k, _ => return unsup("pshuflw") }; let o = if op == "pshuflw" { 0 } else { 4 }; r = y; for i in 0..4 { r[o + i] = y[o + ((k >> (2 * i)) & 3) as usize]; } }
                    "packssdw" => for (o, z) in [(0, &x), (4, &y)] { for i in 0..4 { let (l, h) = (z[2 * i], z[2 * i + 1]); r[o + i] = if h == shr(l, 15) { l } else { let s = dw(z, i); ite(ge0(addc(s, -32767)), cst(32767), ite(ge0(addc(s, 32768)), s, cst(-32768))) }; } },
                    "packusdw" => for (o, z) in [(0, &x), (4, &y)] { for i in 0..4 { let (l, h) = (z[2 * i], z[2 * i + 1]); r[o + i] = if h == 0 { l } else { let s = dw(z, i); ite(ge0(addc(s, -65535)), cst(-1), ite(ge0(s), wrap_s(16, s), 0)) }; } },
                    "packuswb" => { let mut b = vec![]; for z in [&x, &y] { for i in 0..8 { let s = z[i]; b.push(ite(ge0(addc(s, -255)), cst(255), ite(ge0(s), s, 0))); } } r = unb(&b); }
                    _ => return unsup(format!("assembly instruction {}", op)),
                }
                self.x[d] = Xm::W(r);
            }
            _ => return unsup(format!("assembly instruction {}", op)),
        }
        Ok(Next::Seq)
    }
}
