//! The in-place differencing the combined entropy coders promise (it is what the relational analysis and the
//! history's undo step rely on): for every coefficient value, on every path to a return.
use crate::exec::*;
use crate::ir::*;
use crate::state::*;
use crate::term::*;

#[derive(Default)]
pub struct Out { pub rows: Vec<(String, String, u32, String, String)>, pub unsure: Vec<String>, pub finals: usize, pub compared: usize }
pub fn contract(md: &Module, name: &str, d: i64, props: &str, o: &mut Out) -> R<()> {
    let f = match md.funcs.get(name) { Some(f) => f, None => return unsup("no such coder") };
    if f.args.len() != 4 { return unsup("coder arguments"); }
    let line = f.blocks.iter().flat_map(|b| &b.ins).map(|i| i.line).find(|&l| l > 0).unwrap_or(0);
    let mut m = Machine::new(md);
    m.log_out = false;
    ar().fast_data = false;
    let mut st = State::new();
    let mut n = m.newobj(Kind::Null, "null", 0, Def::Undef);
    n.id = 0;
    m.nobj = m.nobj.max(1);
    st.put(n);
    let size = sym("buffer_size", i32::MIN as i64, i32::MAX as i64);
    let c = m.newobj(Kind::InOut, "coefficients", cst(8192), Def::Cell(2, true));
    let coef = c.id;
    st.put(c);
    let b = m.newobj(Kind::Output, "buffer", size, Def::Undef);
    let out = b.id;
    st.put(b);
    let at = |m: &mut Machine, st: &mut State, i: i64| -> R<T> { match m.load(st, &Ty::Int(16), V::P(coef, cst(2 * i), 1))? { V::I(t) => Ok(wrap_s(16, t)), _ => unsup("coefficient") } };
    let mut x = vec![];
    for i in 0..4096 { x.push(at(&mut m, &mut st, i)?); }
    let want: Vec<T> = (0..4096usize).map(|i| if (i as i64) > 4096 - d && i > 0 { wrap_s(16, add(x[i], scale(x[i - 1], -1))) } else { x[i] }).collect();
    let a = vec![(V::P(coef, 0, 1), Ty::Ptr), (V::P(out, 0, 1), Ty::Ptr), (V::I(size), Ty::Int(32)), (V::I(cst(d)), Ty::Int(32))];
    let fs = m.call(st, name, &a)?;
    let mut seen = std::collections::HashSet::new();
    for (mut st, _) in fs {
        o.finals += 1;
        let mut got = vec![];
        for i in 0..4096 { got.push(at(&mut m, &mut st, i)?); }
        if !seen.insert(got.clone()) { continue; }
        let (n, bad) = crate::rel::separate(&got, &want, &|_, _| true);
        let _ = n;
        o.compared += 4096;
        if let Some((i, g, w, v)) = bad { o.rows.push((props.to_string(), name.to_string(), line, format!("called to difference the last {} coefficients, coefficient {} ends up as {} instead of {} ({})", d, i, g, w, v), format!("{} differences", d))); }
        else if got != want { o.unsure.push(format!("{}: coefficients not shown to be differenced as promised", name)); }
    }
    Ok(())
}
