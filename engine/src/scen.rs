//! Call scenarios: create, encode, destroy over symbolic inputs.
use crate::exec::*;
use crate::ir::*;
use crate::state::*;
use crate::term::*;
use std::rc::Rc;

pub const BGRA: i64 = 0;
pub const YUV: i64 = 4;
pub const F_RLGR1: i64 = 1;
pub const F_NOACCEL: i64 = 64;
pub const F_PRO: i64 = 128;
pub const F_KEY: i64 = 256;
pub const F_ALPHA: i64 = 1;

#[derive(Clone, Debug)]
pub struct Cfg { pub fmt: i64, pub cflags: i64, pub cpu: (bool, bool), pub eflags: i64, pub qnull: bool, pub cx: i64, pub cy: i64 }
impl Cfg {
    pub fn new(fmt: i64, cflags: i64) -> Cfg { Cfg { fmt, cflags, cpu: (false, false), eflags: 0, qnull: false, cx: 64, cy: 64 } }
    pub fn pro(&self) -> bool { self.cflags & F_PRO != 0 }
    pub fn planar(&self) -> bool { self.pro() || self.fmt == YUV }
    pub fn alpha(&self) -> bool { self.eflags & F_ALPHA != 0 && !self.pro() }
    pub fn bpp(&self) -> i64 { if self.fmt == 2 || self.fmt == 3 { 3 } else { 4 } }
    pub fn name(&self) -> String {
        let f = ["BGRA", "RGBA", "BGR", "RGB", "YUV"].get(self.fmt as usize).cloned().unwrap_or("?");
        format!("{}{}{}{}{}{}{}{}", f, if self.cflags & F_RLGR1 != 0 { " RLGR1" } else { " RLGR3" }, if self.cflags & F_NOACCEL != 0 { " NOACCEL" } else { "" }, if self.pro() { " PRO" } else { "" },
            match self.cpu { (false, _) => " cpu:none", (true, false) => " cpu:sse2", _ => " cpu:sse4.1" },
            if self.eflags & F_KEY != 0 { " key" } else if self.eflags & F_ALPHA != 0 { " alpha" } else { "" }, if self.qnull { " default-quants" } else { "" },
            if self.cx != 64 || self.cy != 64 { format!(" {}x{}", self.cx, self.cy) } else { String::new() })
    }
}
pub struct Inputs { pub buf: u32, pub regions: u32, pub tiles: u32, pub quants: u32, pub out: u32, pub outp: u32, pub cap: T, pub stride: T, pub nr: T, pub nt: T, pub nq: T, pub w: T, pub h: T }

/// run create; returns the states in which a handle was delivered, and those in which not
pub fn create(m: &mut Machine, cfg: &Cfg) -> R<(Vec<(State, V)>, u32, (T, T))> {
    m.cpu = cfg.cpu;
    let (w, h) = (sym("width", 1, 65535), sym("height", 1, 65535));
    let mut st = State::new();
    let mut o = m.newobj(Kind::Null, "null", 0, Def::Undef);
    o.id = 0;
    m.nobj = m.nobj.max(1);
    st.put(o);
    let o = m.newobj(Kind::InOut, "handle cell", cst(m.m.ptr as i64), Def::Undef);
    let hc = o.id;
    st.put(o);
    let rs = create_call(m, st, hc, w, h, cst(cfg.fmt), cst(cfg.cflags))?;
    Ok((rs, hc, (w, h)))
}
/// either creation entry point; the older one's result is turned into the newer one's form
pub fn create_call(m: &mut Machine, st: State, hc: u32, w: T, h: T, fmt: T, flags: T) -> R<Vec<(State, V)>> {
    let i = |t: T| (V::I(t), Ty::Int(32));
    if !m.legacy {
        let args = vec![i(w), i(h), i(fmt), i(flags), (V::P(hc, 0, 1), Ty::Ptr)];
        return m.call(st, "rfxcodec_encode_create_ex", &args);
    }
    let rs = m.call(st, "rfxcodec_encode_create", &[i(w), i(h), i(fmt), i(flags)])?;
    let mut out = vec![];
    for (s, v) in rs {
        let (p, n, be) = (m.m.ptr as usize, 1, m.m.big_endian);
        let _ = n;
        match v {
            V::P(o, off, nn) => {
                let (mut a, mut b) = (s.clone(), s);
                if as_const(nn) != Some(0) && o != 0 { if as_const(nn).is_none() { a.assume(nn, true); } if !a.infeasible() { a.obj_mut(hc).write(0, p, V::P(o, off, 1), be); out.push((a, vi(0))); } }
                if as_const(nn).is_none() || as_const(nn) == Some(0) { if as_const(nn).is_none() { b.assume(nn, false); } if !b.infeasible() { out.push((b, vi(1))); } }
            }
            V::I(t) if as_const(t) == Some(0) => out.push((s, vi(1))),
            _ => return unsup("result of rfxcodec_encode_create"),
        }
    }
    Ok(out)
}
/// mark tables of owned pointers in the handle: array-of-pointer fields of the struct whose size is the handle's
pub fn mark_tables(m: &mut Machine, st: &mut State, h: u32) {
    let sz = match as_const(st.obj(h).unwrap().size) { Some(s) => s, None => return };
    let mut tabs = vec![];
    let mut names: Vec<&String> = m.m.types.keys().collect();
    names.sort();
    for n in names {
        let t = Ty::Named(n.clone());
        if let Ty::Struct(fs, _) = m.m.resolve(&t) {
            if m.m.size(&t) as i64 != sz { continue; }
            for i in 0..fs.len() {
                let (o, ft) = match m.m.index(&t, i as i64) { Ok(x) => x, _ => continue };
                let mut e = ft.clone();
                let mut cnt = 1;
                while let Ty::Arr(k, x) = m.m.resolve(&e) { cnt *= k; e = *x; }
                if matches!(e, Ty::Ptr) && cnt >= 64 { tabs.push((o, o + (cnt * m.m.ptr) as i64)); }
            }
            if !tabs.is_empty() { break; }
        }
    }
    st.obj_mut(h).tables = Rc::new(tabs);
}
pub fn inputs(m: &mut Machine, st: &mut State, cfg: &Cfg) -> Inputs {
    let cap = sym("capacity", 0, i32::MAX as i64);
    let nr = sym("num_regions", 0, 65535);
    let nt = sym("num_tiles", 0, 65535);
    let nq = if cfg.qnull { sym("num_quants", 0, 255) } else { sym("num_quants", 1, 255) };
    let pro = cfg.pro();
    let tc = &mut ar().tilecfg;
    tc.cx = cfg.cx;
    tc.cy = cfg.cy;
    tc.lo = if pro { -1024 } else { 0 };
    tc.hi = 1023;
    let stride = if cfg.planar() { scale(sym("stride256", 0, 1 << 20), 256) } else { sym("stride", 0, 1 << 28) };
    let add_o = |m: &mut Machine, st: &mut State, k: Kind, n: &str, sz: T, d: Def| -> u32 { let o = m.newobj(k, n, sz, d); let id = o.id; st.put(o); id };
    let big = sym("buf_size", 0, 1 << 40);
    let buf = add_o(m, st, Kind::Input, "pixels", big, Def::Cell(1, false));
    let regions = add_o(m, st, Kind::Input, "regions", scale(nr, 16), Def::Cell(4, true));
    let tiles = add_o(m, st, Kind::Input, "tiles", scale(nt, TILE_SZ), Def::Tiles);
    let quants = add_o(m, st, Kind::Input, "quants", scale(nq, 5), Def::Quants);
    let out = add_o(m, st, Kind::Output, "output", cap, Def::Undef);
    let outp = add_o(m, st, Kind::InOut, "cdata_bytes", cst(4), Def::Undef);
    st.obj_mut(outp).write(0, 4, V::I(cap), m.m.big_endian);
    m.pix = Some(Pix { obj: buf, tiles, stride, bpp: cfg.bpp(), planar: if cfg.planar() { if cfg.alpha() { 4 } else { 3 } } else { 0 }, cx: cfg.cx, cy: cfg.cy });
    Inputs { buf, regions, tiles, quants, out, outp, cap, stride, nr, nt, nq, w: sym("img_w", 1, 65535), h: sym("img_h", 1, 65535) }
}
pub fn encode(m: &mut Machine, st: State, handle: V, inp: &Inputs, cfg: &Cfg) -> R<Vec<(State, V)>> {
    let i = |t: T| (V::I(t), Ty::Int(32));
    let p = |o: u32| (V::P(o, 0, 1), Ty::Ptr);
    let q = if cfg.qnull { (NULL, Ty::Ptr) } else { p(inp.quants) };
    let args = vec![(handle, Ty::Ptr), p(inp.out), p(inp.outp), p(inp.buf), i(inp.w), i(inp.h), i(inp.stride), p(inp.regions), i(inp.nr), p(inp.tiles), i(inp.nt), q, i(inp.nq), i(cst(cfg.eflags))];
    if m.legacy { return m.call(st, "rfxcodec_encode", &args[..13]); }
    m.call(st, "rfxcodec_encode_ex", &args)
}
pub fn handle_of(m: &Machine, st: &State, hc: u32) -> V { st.obj(hc).unwrap().read(0, m.m.ptr as usize, m.m.big_endian) }
