//! Textual LLVM IR (as printed by LLVM 18) -> in-memory program with CFG facts.
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Named(String),
    Other,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Reg(u32),
    C(i64),
    Null,
    Undef,
    Glob(String, i64),
    Zero,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Ind(Op),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, SDiv, UDiv, SRem, URem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Slt, Sle, Sgt, Sge, Ult, Ule, Ugt, Uge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK { Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast }
#[derive(Clone, Debug)]
pub enum Ins {
    Bin(Bin, u32, Op, Op, bool),
    Icmp(Pred, Ty, Op, Op),
    Cast(CastK, u32, Op, u32),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Gep(Ty, Op, Vec<Op>, Vec<u32>),
    Phi(Ty, Vec<(Op, usize)>),
    Select(Op, Op, Op, Ty),
    Call(Callee, Vec<(Op, Ty)>, Ty),
    Alloca(Ty, Op),
    Br(usize),
    CondBr(Op, usize, usize),
    Switch(Op, u32, usize, Vec<(i64, usize)>),
    Ret(Option<Op>, Ty),
    Unreachable,
}
#[derive(Clone, Debug)]
pub struct I {
    pub dst: Option<u32>,
    pub k: Ins,
    pub line: u32,
}
#[derive(Clone, Debug, Default)]
pub struct Block {
    pub name: String,
    pub ins: Vec<I>,
    pub succ: Vec<usize>,
    pub pred: Vec<usize>,
}
#[derive(Clone, Debug)]
pub struct LoopI {
    pub header: usize,
    pub blocks: HashSet<usize>,
}
pub struct Func {
    pub name: String,
    pub file: String,
    pub line: u32,
    pub args: Vec<Ty>,
    pub ret: Ty,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub ipdom: Vec<Option<usize>>,
    pub loops: Vec<LoopI>,
    pub header_of: HashMap<usize, usize>,
    pub livein: Vec<Vec<u32>>,
    pub internal: bool,
}
#[derive(Clone, Debug)]
pub enum CV { Int(u8, i64), Ptr(String, i64), Null }
pub struct Global {
    pub name: String,
    pub constant: bool,
    pub ext: bool,
    pub tls: bool,
    pub ty: Ty,
    pub init: Vec<(u64, CV)>,
    pub size: u64,
}
pub struct Module {
    pub types: HashMap<String, Ty>,
    pub funcs: HashMap<String, Func>,
    pub decls: HashSet<String>,
    pub globals: HashMap<String, Global>,
    pub ptr: u64,
    pub big_endian: bool,
    pub triple: String,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok { W(String), P(char), Reg(String), Glob(String), Str(Vec<u8>), Meta(String), Hash }

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut o = vec![];
    let isw = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let mut j = i + 1;
                let name;
                if j < b.len() && b[j] == b'"' {
                    let k = s[j + 1..].find('"').unwrap() + j + 1;
                    name = s[j + 1..k].to_string();
                    j = k + 1;
                } else {
                    while j < b.len() && isw(b[j]) { j += 1; }
                    name = s[i + 1..j].to_string();
                }
                o.push(if c == b'%' { Tok::Reg(name) } else { Tok::Glob(name) });
                i = j;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && isw(b[j]) { j += 1; }
                o.push(Tok::Meta(s[i + 1..j].to_string()));
                i = j;
            }
            b'#' => { i += 1; while i < b.len() && b[i].is_ascii_digit() { i += 1; } o.push(Tok::Hash); }
            b'"' => {
                let k = s[i + 1..].find('"').unwrap() + i + 1;
                o.push(Tok::Str(unesc(&s[i + 1..k])));
                i = k + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let k = s[i + 2..].find('"').unwrap() + i + 2;
                o.push(Tok::Str(unesc(&s[i + 2..k])));
                i = k + 1;
            }
            _ if isw(c) => {
                let mut j = i;
                while j < b.len() && isw(b[j]) { j += 1; }
                o.push(Tok::W(s[i..j].to_string()));
                i = j;
            }
            _ => { o.push(Tok::P(c as char)); i += 1; }
        }
    }
    o
}
fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else if b[i] == b'\\' { o.push(b'\\'); i += 2; } else { o.push(b[i]); i += 1; }
    }
    o
}
struct P<'a> { t: Vec<Tok>, i: usize, regs: Option<&'a mut HashMap<String, u32>> }
impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> { self.t.get(self.i) }
    fn next(&mut self) -> Result<Tok, String> { self.i += 1; self.t.get(self.i - 1).cloned().ok_or_else(|| "unexpected end".to_string()) }
    fn isw(&self, w: &str) -> bool { matches!(self.peek(), Some(Tok::W(x)) if x == w) }
    fn isp(&self, c: char) -> bool { matches!(self.peek(), Some(Tok::P(x)) if *x == c) }
    fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.i += 1; true } else { false } }
    fn eatp(&mut self, c: char) -> bool { if self.isp(c) { self.i += 1; true } else { false } }
    fn expp(&mut self, c: char) -> Result<(), String> { if self.eatp(c) { Ok(()) } else { Err(format!("expected {} got {:?}", c, self.peek())) } }
    fn word(&mut self) -> Result<String, String> { match self.next()? { Tok::W(w) => Ok(w), t => Err(format!("expected word got {:?}", t)) } }
    fn reg(&mut self, n: &str) -> u32 {
        let m = self.regs.as_mut().unwrap();
        let l = m.len() as u32;
        *m.entry(n.to_string()).or_insert(l)
    }
    fn ty(&mut self) -> Result<Ty, String> {
        let mut t = match self.next()? {
            Tok::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "label" | "metadata" | "float" | "double" | "opaque" | "x86_fp80" => Ty::Other,
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => return Err(format!("type {}", w)),
            },
            Tok::Reg(n) => Ty::Named(n),
            Tok::P('[') => {
                let n: u64 = self.word()?.parse().map_err(|_| "array")?;
                self.word()?;
                let e = self.ty()?;
                self.expp(']')?;
                Ty::Arr(n, Box::new(e))
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !self.isp('}') { v.push(self.ty()?); self.eatp(','); }
                self.expp('}')?;
                Ty::Struct(v, false)
            }
            Tok::P('<') => {
                if self.eatp('{') {
                    let mut v = vec![];
                    while !self.isp('}') { v.push(self.ty()?); self.eatp(','); }
                    self.expp('}')?;
                    self.expp('>')?;
                    Ty::Struct(v, true)
                } else {
                    return Err("vector type".into());
                }
            }
            t => return Err(format!("type {:?}", t)),
        };
        // function type  ret (args)
        if self.isp('(') {
            let mut d = 0;
            loop {
                match self.next()? { Tok::P('(') => d += 1, Tok::P(')') => { d -= 1; if d == 0 { break; } } _ => {} }
            }
            t = Ty::Other;
        }
        Ok(t)
    }
    fn attrs(&mut self) -> Result<(), String> {
        loop {
            match self.peek() {
                Some(Tok::W(w)) => match w.as_str() {
                    "noundef" | "nonnull" | "signext" | "zeroext" | "noalias" | "nocapture" | "readonly" | "writeonly" | "readnone" | "immarg" | "inreg" | "returned" | "nofree" | "local_unnamed_addr" | "unnamed_addr" | "dso_local" | "dso_preemptable" | "hidden" | "internal" | "private" | "external" | "common" | "weak" | "linkonce_odr" | "global" | "inbounds" | "nsw" | "nuw" | "exact" | "fastcc" | "ccc" | "tail" | "musttail" | "notail" | "volatile" | "disjoint" | "nneg" | "writable" | "dead_on_unwind" => self.i += 1,
                    "align" => self.i += 2,
                    "dereferenceable" | "dereferenceable_or_null" | "byval" | "sret" | "range" | "memory" | "captures" | "allocsize" | "addrspace" => {
                        self.i += 1;
                        if self.isp('(') { let mut d = 0; loop { match self.next()? { Tok::P('(') => d += 1, Tok::P(')') => { d -= 1; if d == 0 { break; } } _ => {} } } }
                    }
                    _ => break,
                },
                Some(Tok::Hash) => self.i += 1,
                _ => break,
            }
        }
        Ok(())
    }
    fn op(&mut self, ty: &Ty, m: &Module) -> Result<Op, String> {
        Ok(match self.next()? {
            Tok::Reg(n) => Op::Reg(self.reg(&n)),
            Tok::Glob(n) => Op::Glob(n, 0),
            Tok::W(w) => match w.as_str() {
                "null" => Op::Null,
                "undef" | "poison" => Op::Undef,
                "true" => Op::C(1),
                "false" => Op::C(0),
                "zeroinitializer" => Op::Zero,
                "getelementptr" => {
                    self.attrs()?;
                    self.expp('(')?;
                    let st = self.ty()?;
                    self.expp(',')?;
                    self.ty()?;
                    let base = self.op(&Ty::Ptr, m)?;
                    let mut idx = vec![];
                    while self.eatp(',') { self.attrs()?; let t = self.ty()?; idx.push(self.op(&t, m)?); }
                    self.expp(')')?;
                    let mut off = 0i64;
                    let mut t = st;
                    for (n, ix) in idx.iter().enumerate() {
                        let c = match ix { Op::C(c) => *c, _ => return Err("gep constexpr".into()) };
                        if n == 0 { off += c * m.size(&t) as i64; } else { let (o, t2) = m.index(&t, c)?; off += o; t = t2; }
                    }
                    match base { Op::Glob(n, o) => Op::Glob(n, o + off), _ => return Err("gep constexpr base".into()) }
                }
                "ptrtoint" | "inttoptr" | "bitcast" => {
                    self.expp('(')?;
                    let t = self.ty()?;
                    let o = self.op(&t, m)?;
                    if !self.eatw("to") { return Err("cast expr".into()); }
                    self.ty()?;
                    self.expp(')')?;
                    o
                }
                _ => {
                    let v: i128 = w.parse().map_err(|_| format!("operand {} of {:?}", w, ty))?;
                    Op::C(v as i64)
                }
            },
            t => return Err(format!("operand {:?}", t)),
        })
    }
}

impl Module {
    pub fn resolve(&self, t: &Ty) -> Ty { match t { Ty::Named(n) => self.types.get(n).cloned().unwrap_or(Ty::Other), t => t.clone() } }
    pub fn align(&self, t: &Ty) -> u64 {
        match t {
            Ty::Int(n) => { let b = ((*n as u64 + 7) / 8).next_power_of_two(); if b > self.ptr && self.ptr == 4 { 4 } else { b.min(8) } }
            Ty::Ptr => self.ptr,
            Ty::Arr(_, e) => self.align(e),
            Ty::Struct(v, p) => if *p { 1 } else { v.iter().map(|x| self.align(x)).max().unwrap_or(1) },
            Ty::Named(_) => { let r = self.resolve(t); self.align(&r) }
            _ => 1,
        }
    }
    pub fn size(&self, t: &Ty) -> u64 {
        match t {
            Ty::Int(n) => { let b = (*n as u64 + 7) / 8; if b == 3 { 4 } else { b } }
            Ty::Ptr => self.ptr,
            Ty::Arr(n, e) => n * self.size(e),
            Ty::Struct(v, p) => {
                let mut o = 0;
                for x in v { if !*p { let a = self.align(x); o = (o + a - 1) / a * a; } o += self.size(x); }
                if !*p { let a = self.align(t); o = (o + a - 1) / a * a; }
                o
            }
            Ty::Named(_) => { let r = self.resolve(t); self.size(&r) }
            _ => 0,
        }
    }
    pub fn index(&self, t: &Ty, c: i64) -> Result<(i64, Ty), String> {
        match self.resolve(t) {
            Ty::Arr(_, e) => Ok((c * self.size(&e) as i64, *e)),
            Ty::Struct(v, p) => {
                let mut o = 0;
                for (i, x) in v.iter().enumerate() {
                    if !p { let a = self.align(x); o = (o + a - 1) / a * a; }
                    if i as i64 == c { return Ok((o as i64, x.clone())); }
                    o += self.size(x);
                }
                Err("struct index".into())
            }
            _ => Err("index into scalar".into()),
        }
    }
    fn init(&self, p: &mut P, t: &Ty, off: u64, out: &mut Vec<(u64, CV)>) -> Result<(), String> {
        match self.resolve(t) {
            Ty::Int(n) => match p.op(t, self)? {
                Op::C(c) => out.push((off, CV::Int(((n + 7) / 8) as u8, c))),
                Op::Zero | Op::Undef => out.push((off, CV::Int(((n + 7) / 8) as u8, 0))),
                o => return Err(format!("init {:?}", o)),
            },
            Ty::Ptr => match p.op(t, self)? {
                Op::Null | Op::Zero | Op::Undef => out.push((off, CV::Null)),
                Op::Glob(n, o) => out.push((off, CV::Ptr(n, o))),
                o => return Err(format!("init {:?}", o)),
            },
            Ty::Arr(_, e) => {
                let es = self.size(&e);
                match p.peek() {
                    Some(Tok::Str(_)) => { if let Tok::Str(s) = p.next()? { for (i, c) in s.iter().enumerate() { out.push((off + i as u64, CV::Int(1, *c as i64))); } } }
                    Some(Tok::W(w)) if w == "zeroinitializer" || w == "undef" => { p.i += 1; self.zero(t, off, out); }
                    _ => {
                        p.expp('[')?;
                        let mut i = 0;
                        while !p.isp(']') { let et = p.ty()?; self.init(p, &et, off + i * es, out)?; i += 1; p.eatp(','); }
                        p.expp(']')?;
                    }
                }
            }
            Ty::Struct(v, pk) => {
                if p.eatw("zeroinitializer") || p.eatw("undef") { self.zero(t, off, out); return Ok(()); }
                if pk { p.expp('<')?; }
                p.expp('{')?;
                for i in 0..v.len() { let et = p.ty()?; let (o, _) = self.index(t, i as i64)?; self.init(p, &et, off + o as u64, out)?; p.eatp(','); }
                p.expp('}')?;
                if pk { p.expp('>')?; }
            }
            _ => return Err("init type".into()),
        }
        Ok(())
    }
    fn zero(&self, t: &Ty, off: u64, out: &mut Vec<(u64, CV)>) {
        match self.resolve(t) {
            Ty::Int(n) => out.push((off, CV::Int(((n + 7) / 8) as u8, 0))),
            Ty::Ptr => out.push((off, CV::Null)),
            Ty::Arr(n, e) => { let s = self.size(&e); for i in 0..n { self.zero(&e, off + i * s, out); } }
            Ty::Struct(v, _) => for i in 0..v.len() { let (o, et) = self.index(t, i as i64).unwrap(); self.zero(&et, off + o as u64, out); },
            _ => {}
        }
    }
}

pub fn parse(text: &str) -> Result<Module, String> {
    let mut m = Module { types: HashMap::new(), funcs: HashMap::new(), decls: HashSet::new(), globals: HashMap::new(), ptr: 8, big_endian: false, triple: String::new() };
    // metadata: debug lines and files
    let mut loc: HashMap<String, u32> = HashMap::new();
    let mut sp_file: HashMap<String, (String, u32)> = HashMap::new();
    let mut files: HashMap<String, String> = HashMap::new();
    for l in text.lines() {
        if let Some(x) = l.strip_prefix('!') {
            let (id, rest) = match x.split_once(" = ") { Some(p) => p, None => continue };
            let num = |key: &str| -> u32 { rest.find(key).map(|i| rest[i + key.len()..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0)).unwrap_or(0) };
            let rf = |key: &str| -> String { rest.find(key).map(|i| rest[i + key.len()..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>()).unwrap_or_default() };
            if rest.contains("!DILocation(") { loc.insert(id.to_string(), num("line: ")); }
            else if rest.contains("!DISubprogram(") { sp_file.insert(id.to_string(), (rf("file: !"), num("line: "))); }
            else if rest.contains("!DIFile(") { if let Some(i) = rest.find("filename: \"") { let s = &rest[i + 11..]; files.insert(id.to_string(), s[..s.find('"').unwrap()].to_string()); } }
        } else if l.starts_with("target datalayout") {
            if l.contains("\"E-") { m.big_endian = true; }
            if l.contains("-p:32:32") || l.contains("\"e-m:e-p:32:32") { m.ptr = 4; }
        } else if let Some(x) = l.strip_prefix("target triple = ") { m.triple = x.trim_matches('"').to_string(); }
        else if l.starts_with('%') {
            let mut p = P { t: lex(l), i: 0, regs: None };
            if let Tok::Reg(n) = p.next()? {
                p.expp('=')?;
                p.word()?;
                if p.isw("opaque") { continue; }
                let t = p.ty()?;
                m.types.insert(n, t);
            }
        }
    }
    let lines: Vec<&str> = text.lines().collect();
    // globals
    for l in &lines {
        if l.starts_with('@') {
            let mut p = P { t: lex(l), i: 0, regs: None };
            let name = match p.next()? { Tok::Glob(n) => n, _ => unreachable!() };
            p.expp('=')?;
            let mut constant = false;
            let mut ext = false;
            let mut tls = false;
            loop {
                if p.eatw("external") { ext = true; continue; }
                if p.isw("thread_local") { p.i += 1; tls = true; if p.eatp('(') { p.word()?; p.expp(')')?; } continue; }
                if p.eatw("constant") { constant = true; break; }
                if p.eatw("global") { break; }
                if p.isw("alias") || p.isw("ifunc") { break; }
                p.i += 1;
                if p.i > p.t.len() { return Err(format!("global {}", l)); }
            }
            if p.isw("alias") || p.isw("ifunc") { return Err("alias".into()); }
            let ty = p.ty()?;
            let mut init = vec![];
            if !ext { m.init(&mut p, &ty, 0, &mut init).map_err(|e| format!("{}: {}", l, e))?; }
            let size = m.size(&ty);
            m.globals.insert(name.clone(), Global { name, constant, ext, tls, ty, init, size });
        } else if l.starts_with("declare") {
            let p = lex(l);
            for t in p { if let Tok::Glob(n) = t { m.decls.insert(n); break; } }
        }
    }
    // functions
    let mut i = 0;
    while i < lines.len() {
        if !lines[i].starts_with("define") { i += 1; continue; }
        let hdr = lines[i];
        let mut body = vec![];
        i += 1;
        while i < lines.len() && lines[i] != "}" { body.push(lines[i]); i += 1; }
        let f = parse_func(&m, hdr, &body, &loc, &sp_file, &files).map_err(|e| format!("in {}: {}", hdr, e))?;
        m.funcs.insert(f.name.clone(), f);
    }
    Ok(m)
}

fn parse_func(m: &Module, hdr: &str, body: &[&str], loc: &HashMap<String, u32>, sp: &HashMap<String, (String, u32)>, files: &HashMap<String, String>) -> Result<Func, String> {
    let mut regs: HashMap<String, u32> = HashMap::new();
    let toks = lex(hdr);
    let mut file = String::new();
    let mut fline = 0;
    for w in toks.windows(2) { if let (Tok::Meta(a), Tok::Meta(b)) = (&w[0], &w[1]) { if a == "dbg" { if let Some((f, l)) = sp.get(b) { file = files.get(f).cloned().unwrap_or_default(); fline = *l; } } } }
    let internal = toks.iter().any(|t| matches!(t, Tok::W(w) if w == "internal"));
    let mut p = P { t: toks, i: 1, regs: Some(&mut regs) };
    p.attrs()?;
    let ret = p.ty()?;
    let name = match p.next()? { Tok::Glob(n) => n, t => return Err(format!("fn name {:?}", t)) };
    p.expp('(')?;
    let mut args = vec![];
    let mut unnamed = 0u32;
    while !p.isp(')') {
        if p.isp('.') || p.isw("...") { return Err("vararg definition".into()); }
        let t = p.ty()?;
        p.attrs()?;
        match p.peek().cloned() { Some(Tok::Reg(n)) => { p.i += 1; p.reg(&n); if n.parse::<u32>().is_ok() { unnamed += 1; } } _ => { let n = unnamed.to_string(); unnamed += 1; p.reg(&n); } }
        args.push(t);
        p.eatp(',');
    }
    // join multi-line switch
    let mut ls: Vec<String> = vec![];
    let mut k = 0;
    while k < body.len() {
        let l = body[k];
        if l.trim_start().starts_with("switch") && !l.contains(']') {
            let mut s = l.to_string();
            while !body[k].trim_start().starts_with(']') { k += 1; s.push(' '); s.push_str(body[k].trim()); }
            ls.push(s);
        } else { ls.push(l.to_string()); }
        k += 1;
    }
    // first pass: blocks
    let mut bmap: HashMap<String, usize> = HashMap::new();
    let mut blocks: Vec<Block> = vec![];
    let is_label = |l: &str| -> Option<String> {
        if l.starts_with(' ') || l.is_empty() || l.starts_with(';') { return None; }
        let s = l.split(';').next().unwrap().trim_end();
        s.strip_suffix(':').map(|x| x.trim_matches('"').to_string())
    };
    let first = ls.iter().find(|l| !l.trim().is_empty()).ok_or("empty")?;
    if is_label(first).is_none() { let n = unnamed.to_string(); bmap.insert(n.clone(), 0); blocks.push(Block { name: n, ..Default::default() }); }
    for l in &ls { if let Some(n) = is_label(l) { bmap.insert(n.clone(), blocks.len()); blocks.push(Block { name: n, ..Default::default() }); } }
    let mut cur = 0usize;
    for l in &ls {
        if l.trim().is_empty() || l.trim_start().starts_with(';') { continue; }
        if let Some(n) = is_label(l) { cur = bmap[&n]; continue; }
        let t = l.trim_start();
        if t.contains("@llvm.dbg.") || t.contains("@llvm.lifetime.") || t.starts_with("#dbg") { continue; }
        let toks = lex(l);
        let mut line = 0;
        for w in toks.windows(2) { if let (Tok::Meta(a), Tok::Meta(b)) = (&w[0], &w[1]) { if a == "dbg" { line = *loc.get(b).unwrap_or(&0); } } }
        let mut p = P { t: toks, i: 0, regs: Some(&mut regs) };
        let ins = parse_ins(m, &mut p, &bmap).map_err(|e| format!("{}: {}", l.trim(), e))?;
        if let Some((d, k)) = ins { blocks[cur].ins.push(I { dst: d, k, line }); }
    }
    for b in 0..blocks.len() {
        let s: Vec<usize> = match &blocks[b].ins.last().ok_or("empty block")?.k {
            Ins::Br(x) => vec![*x],
            Ins::CondBr(_, x, y) => if x == y { vec![*x] } else { vec![*x, *y] },
            Ins::Switch(_, _, d, v) => { let mut s = vec![*d]; for x in v { if !s.contains(&x.1) { s.push(x.1); } } s }
            _ => vec![],
        };
        for &x in &s { blocks[x].pred.push(b); }
        blocks[b].succ = s;
    }
    let nregs = regs.len();
    let mut f = Func { name, file, line: fline, args, ret, nregs, blocks, ipdom: vec![], loops: vec![], header_of: HashMap::new(), livein: vec![], internal };
    analyse(&mut f)?;
    Ok(f)
}

fn parse_ins(m: &Module, p: &mut P, bm: &HashMap<String, usize>) -> Result<Option<(Option<u32>, Ins)>, String> {
    let mut dst = None;
    if let (Some(Tok::Reg(n)), Some(Tok::P('='))) = (p.t.get(0).cloned(), p.t.get(1).cloned()) { dst = Some(p.reg(&n)); p.i = 2; }
    p.attrs()?;
    let w = p.word()?;
    let lab = |p: &mut P| -> Result<usize, String> { p.eatw("label"); match p.next()? { Tok::Reg(n) => bm.get(&n).cloned().ok_or(format!("label {}", n)), t => Err(format!("label {:?}", t)) } };
    let bin = match w.as_str() { "add" => Some(Bin::Add), "sub" => Some(Bin::Sub), "mul" => Some(Bin::Mul), "sdiv" => Some(Bin::SDiv), "udiv" => Some(Bin::UDiv), "srem" => Some(Bin::SRem), "urem" => Some(Bin::URem), "shl" => Some(Bin::Shl), "lshr" => Some(Bin::LShr), "ashr" => Some(Bin::AShr), "and" => Some(Bin::And), "or" => Some(Bin::Or), "xor" => Some(Bin::Xor), _ => None };
    let iw = |t: &Ty| -> Result<u32, String> { match t { Ty::Int(n) => Ok(*n), Ty::Ptr => Ok(0), _ => Err("int type".into()) } };
    let k = if let Some(b) = bin {
        let mut nsw = false;
        while p.isw("nsw") || p.isw("nuw") || p.isw("exact") || p.isw("disjoint") { if p.isw("nsw") { nsw = true; } p.i += 1; }
        p.attrs()?;
        let t = p.ty()?;
        let a = p.op(&t, m)?;
        p.expp(',')?;
        let c = p.op(&t, m)?;
        Ins::Bin(b, iw(&t)?, a, c, nsw)
    } else {
        match w.as_str() {
            "icmp" => {
                let pr = match p.word()?.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, x => return Err(x.to_string()) };
                let t = p.ty()?;
                let a = p.op(&t, m)?;
                p.expp(',')?;
                let b = p.op(&t, m)?;
                Ins::Icmp(pr, t, a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "freeze" | "addrspacecast" => {
                p.attrs()?;
                let t = p.ty()?;
                let a = p.op(&t, m)?;
                if w == "freeze" { Ins::Cast(CastK::BitCast, iw(&t)?, a, iw(&t)?) } else {
                    if !p.eatw("to") { return Err("cast".into()); }
                    let t2 = p.ty()?;
                    let k = match w.as_str() { "trunc" => CastK::Trunc, "zext" => CastK::ZExt, "sext" => CastK::SExt, "ptrtoint" => CastK::PtrToInt, "inttoptr" => CastK::IntToPtr, _ => CastK::BitCast };
                    Ins::Cast(k, iw(&t)?, a, iw(&t2)?)
                }
            }
            "load" => { p.attrs()?; let t = p.ty()?; p.expp(',')?; p.ty()?; let a = p.op(&Ty::Ptr, m)?; Ins::Load(t, a) }
            "store" => { p.attrs()?; let t = p.ty()?; let v = p.op(&t, m)?; p.expp(',')?; p.ty()?; let a = p.op(&Ty::Ptr, m)?; Ins::Store(t, v, a) }
            "getelementptr" => {
                p.attrs()?;
                let t = p.ty()?;
                p.expp(',')?;
                p.ty()?;
                let b = p.op(&Ty::Ptr, m)?;
                let mut ix = vec![];
                let mut ws = vec![];
                while p.isp(',') {
                    if let Some(Tok::Meta(_)) = p.t.get(p.i + 1) { break; }
                    p.i += 1;
                    let t = p.ty()?;
                    ws.push(iw(&t)?);
                    ix.push(p.op(&t, m)?);
                }
                Ins::Gep(t, b, ix, ws)
            }
            "phi" => {
                let t = p.ty()?;
                let mut v = vec![];
                loop {
                    p.expp('[')?;
                    let o = p.op(&t, m)?;
                    p.expp(',')?;
                    let b = lab(p)?;
                    p.expp(']')?;
                    v.push((o, b));
                    if p.isp(',') && matches!(p.t.get(p.i + 1), Some(Tok::P('['))) { p.i += 1; } else { break; }
                }
                Ins::Phi(t, v)
            }
            "select" => {
                let t = p.ty()?;
                let c = p.op(&t, m)?;
                p.expp(',')?;
                let t1 = p.ty()?;
                let a = p.op(&t1, m)?;
                p.expp(',')?;
                let t2 = p.ty()?;
                let b = p.op(&t2, m)?;
                Ins::Select(c, a, b, t1)
            }
            "call" => {
                p.attrs()?;
                // ret type, maybe function type
                let save = p.i;
                let mut rt = p.ty()?;
                if rt == Ty::Other { // "i32 (ptr, ...)" : re-read the return type
                    p.i = save;
                    rt = match p.next()? { Tok::W(w) if w == "void" => Ty::Void, Tok::W(w) if w == "ptr" => Ty::Ptr, Tok::W(w) if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| "ret")?), _ => Ty::Other };
                    p.i = save;
                    p.ty()?;
                }
                let callee = match p.next()? { Tok::Glob(n) => Callee::Direct(n), Tok::Reg(n) => Callee::Ind(Op::Reg(p.reg(&n))), Tok::W(w) if w == "asm" => return Err("inline asm".into()), t => return Err(format!("callee {:?}", t)) };
                p.expp('(')?;
                let mut a = vec![];
                while !p.isp(')') {
                    let t = p.ty()?;
                    p.attrs()?;
                    a.push((p.op(&t, m)?, t));
                    p.eatp(',');
                }
                Ins::Call(callee, a, rt)
            }
            "alloca" => { p.attrs()?; let t = p.ty()?; let mut n = Op::C(1); if p.isp(',') && matches!(p.t.get(p.i + 1), Some(Tok::W(w)) if w.starts_with('i')) { p.i += 1; let t = p.ty()?; n = p.op(&t, m)?; } Ins::Alloca(t, n) }
            "br" => {
                if p.isw("label") { Ins::Br(lab(p)?) } else {
                    let t = p.ty()?;
                    let c = p.op(&t, m)?;
                    p.expp(',')?;
                    let a = lab(p)?;
                    p.expp(',')?;
                    let b = lab(p)?;
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = p.ty()?;
                let c = p.op(&t, m)?;
                p.expp(',')?;
                let d = lab(p)?;
                p.expp('[')?;
                let mut v = vec![];
                while !p.isp(']') { let t = p.ty()?; let o = p.op(&t, m)?; p.expp(',')?; let b = lab(p)?; if let Op::C(c) = o { v.push((c, b)); } }
                Ins::Switch(c, iw(&t)?, d, v)
            }
            "ret" => { let t = p.ty()?; if t == Ty::Void { Ins::Ret(None, t) } else { let o = p.op(&t, m)?; Ins::Ret(Some(o), t) } }
            "unreachable" => Ins::Unreachable,
            "fence" => return Ok(None),
            x => return Err(format!("unsupported instruction {}", x)),
        }
    };
    Ok(Some((dst, k)))
}

pub fn uses(k: &Ins, f: &mut dyn FnMut(&Op)) {
    match k {
        Ins::Bin(_, _, a, b, _) | Ins::Icmp(_, _, a, b) | Ins::Store(_, a, b) => { f(a); f(b) }
        Ins::Cast(_, _, a, _) | Ins::Load(_, a) | Ins::Alloca(_, a) => f(a),
        Ins::Gep(_, b, ix, _) => { f(b); for x in ix { f(x) } }
        Ins::Phi(_, v) => for x in v { f(&x.0) },
        Ins::Select(a, b, c, _) => { f(a); f(b); f(c) }
        Ins::Call(c, a, _) => { if let Callee::Ind(o) = c { f(o) } for x in a { f(&x.0) } }
        Ins::CondBr(c, _, _) | Ins::Switch(c, _, _, _) => f(c),
        Ins::Ret(Some(o), _) => f(o),
        _ => {}
    }
}

fn analyse(f: &mut Func) -> Result<(), String> {
    let n = f.blocks.len();
    // dominators (bitset, small)
    let reach = { let mut r = vec![false; n]; let mut w = vec![0]; while let Some(b) = w.pop() { if r[b] { continue; } r[b] = true; w.extend(&f.blocks[b].succ); } r };
    let full: HashSet<usize> = (0..n).filter(|&b| reach[b]).collect();
    let mut dom: Vec<HashSet<usize>> = (0..n).map(|b| if b == 0 { [0].into_iter().collect() } else { full.clone() }).collect();
    let mut ch = true;
    while ch {
        ch = false;
        for b in 1..n {
            if !reach[b] { continue; }
            let mut s: Option<HashSet<usize>> = None;
            for &p in &f.blocks[b].pred { if !reach[p] { continue; } s = Some(match s { None => dom[p].clone(), Some(x) => x.intersection(&dom[p]).cloned().collect() }); }
            let mut s = s.unwrap_or_default();
            s.insert(b);
            if s != dom[b] { dom[b] = s; ch = true; }
        }
    }
    // post-dominators with virtual exit n
    let mut pd: Vec<HashSet<usize>> = (0..=n).map(|b| if b == n { [n].into_iter().collect() } else { let mut s = full.clone(); s.insert(n); s }).collect();
    ch = true;
    while ch {
        ch = false;
        for b in (0..n).rev() {
            if !reach[b] { continue; }
            let succ: Vec<usize> = if f.blocks[b].succ.is_empty() { vec![n] } else { f.blocks[b].succ.clone() };
            let mut s = pd[succ[0]].clone();
            for &x in &succ[1..] { s = s.intersection(&pd[x]).cloned().collect(); }
            s.insert(b);
            if s != pd[b] { pd[b] = s; ch = true; }
        }
    }
    f.ipdom = (0..n).map(|b| {
        if !reach[b] { return None; }
        // the strict post-dominator whose own set is largest
        pd[b].iter().filter(|&&x| x != b && x != n).max_by_key(|&&x| pd[x].len()).cloned()
    }).collect();
    // natural loops
    let mut loops: HashMap<usize, HashSet<usize>> = HashMap::new();
    for b in 0..n {
        if !reach[b] { continue; }
        for &s in &f.blocks[b].succ {
            if dom[b].contains(&s) {
                let l = loops.entry(s).or_insert_with(|| [s].into_iter().collect());
                let mut w = vec![b];
                while let Some(x) = w.pop() { if l.insert(x) { for &p in &f.blocks[x].pred { if reach[p] { w.push(p); } } } }
            }
        }
    }
    // irreducibility test: retreating edges must be back edges
    { let mut st = vec![0u8; n]; let mut stack = vec![(0usize, 0usize)]; st[0] = 1;
      while let Some((b, i)) = stack.pop() {
        if i < f.blocks[b].succ.len() {
            stack.push((b, i + 1));
            let s = f.blocks[b].succ[i];
            if st[s] == 0 { st[s] = 1; stack.push((s, 0)); } else if st[s] == 1 && !dom[b].contains(&s) { return Err("irreducible control flow".into()); }
        } else { st[b] = 2; }
      } }
    let mut hs: Vec<usize> = loops.keys().cloned().collect();
    hs.sort();
    for h in hs { f.header_of.insert(h, f.loops.len()); f.loops.push(LoopI { header: h, blocks: loops.remove(&h).unwrap() }); }
    // liveness (post-phi live-in)
    let mut li: Vec<HashSet<u32>> = vec![HashSet::new(); n];
    ch = true;
    while ch {
        ch = false;
        for b in (0..n).rev() {
            let mut s: HashSet<u32> = HashSet::new();
            for &x in &f.blocks[b].succ {
                s.extend(li[x].iter());
                for i in &f.blocks[x].ins { if let Ins::Phi(_, _) = &i.k { if let Some(d) = i.dst { s.remove(&d); } } else { break; } }
            }
            for &x in &f.blocks[b].succ {
                for i in &f.blocks[x].ins { if let Ins::Phi(_, v) = &i.k { for (o, p) in v { if *p == b { if let Op::Reg(r) = o { s.insert(*r); } } } } else { break; } }
            }
            for i in f.blocks[b].ins.iter().rev() {
                if let Ins::Phi(_, _) = &i.k { if let Some(d) = i.dst { /* phi results are live at entry when used */ let _ = d; } continue; }
                if let Some(d) = i.dst { s.remove(&d); }
                uses(&i.k, &mut |o| { if let Op::Reg(r) = o { s.insert(*r); } });
            }
            if s != li[b] { li[b] = s; ch = true; }
        }
    }
    f.livein = li.into_iter().map(|s| { let mut v: Vec<u32> = s.into_iter().collect(); v.sort(); v }).collect();
    Ok(())
}
