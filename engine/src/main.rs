mod ir; mod term; mod lp; mod state; mod exec; mod fix; mod asm; mod scen; mod job; mod walk; mod rel; mod alpha;
mod rlgr;
mod coder; mod oct; mod num; mod same;
use scen::*; use exec::*; use std::rc::Rc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let th = std::thread::Builder::new().stack_size(4 << 30).spawn(move || real_main(&a)).unwrap();
    let code = th.join().unwrap_or(3);
    std::process::exit(code);
}
fn flag(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned() }
pub fn esc(s: &str) -> String { let mut r = String::new(); for c in s.chars() { match c { '"' => r += "\\\"", '\\' => r += "\\\\", '\n' => r += "\\n", c if (c as u32) < 32 => r += " ", c => r.push(c) } } r }
fn parse_cfg(s: &str) -> Cfg {
    // fmt,cflags,cpu,eflags,qnull,cx,cy
    let v: Vec<i64> = s.split(',').map(|x| x.parse().unwrap()).collect();
    let g = |i: usize, d: i64| v.get(i).cloned().unwrap_or(d);
    let mut c = Cfg::new(g(0, 4), g(1, 64));
    c.cpu = match g(2, 0) { 0 => (false, false), 1 => (true, false), _ => (true, true) };
    c.eflags = g(3, 0);
    c.qnull = g(4, 0) != 0;
    c.cx = g(5, 64);
    c.cy = g(6, 64);
    c
}
fn real_main(a: &[String]) -> i32 {
    let t0 = std::time::Instant::now();
    let text = match std::fs::read_to_string(flag(a, "--ir").expect("--ir")) { Ok(t) => t, Err(e) => { eprintln!("{}", e); return 3; } };
    let md = match ir::parse(&text) { Ok(m) => m, Err(e) => { println!("{{\"t\":\"error\",\"msg\":\"{}\"}}", esc(&format!("{:?}", e))); return 3; } };
    let prog = match flag(a, "--asm") { Some(f) => { let t = std::fs::read_to_string(f).unwrap(); match asm::Prog::parse(&t, md.ptr as i64) { Ok(p) => Some(Rc::new(p)), Err(e) => { println!("{{\"t\":\"error\",\"msg\":\"{}\"}}", esc(&format!("{:?}", e))); return 3; } } } None => None };
    let align = flag(a, "--align").and_then(|x| x.parse().ok());
    match a[1].as_str() {
        "encode" => {
            let cfg = parse_cfg(&flag(a, "--cfg").unwrap());
            let mut j = job::Job::new(&md, &prog, &cfg);
            if let Some(x) = align { j.m.asm_align = x; }
            j.m.legacy = a.iter().any(|x| x == "--legacy");
            if a.iter().any(|x| x == "--no-alpha-cut") { j.m.cuts.remove("rfx_encode_plane"); }
            if let Some(x) = flag(a, "--peel").and_then(|x| x.parse().ok()) { j.m.peel = x; }
            j.m.trace = a.iter().any(|x| x == "--trace");
            let r = j.run(a.iter().any(|x| x == "--closure"));
            if r.is_ok() && a.iter().any(|x| x == "--walk") {
                let general = j.m.peel == 0;
                let w = walk::walk(&j, general);
                for f in &w.finds { println!("{{\"t\":\"viol\",\"kind\":\"{}\",\"file\":\"{}\",\"func\":\"{}\",\"line\":{},\"msg\":\"{}\",\"cfg\":\"{}\",\"general\":{},\"ndep\":{}}}", f.prop, esc(&f.file), esc(&f.func), f.line, esc(&f.msg), esc(&j.cfg.name()), general, f.ndep); }
                for n in w.unsure.iter().chain(&w.sticky) { println!("{{\"t\":\"unsure\",\"msg\":\"{}\"}}", esc(n)); }
                println!("{{\"t\":\"walk\",\"frames\":{},\"tiles\":{},\"fields\":{},\"loops\":{},\"planes\":{}}}", w.frames, w.tiles, w.fields, w.loops, w.planes);
            }
            report(&mut j, r, t0);
            0
        }
        "rel" => {
            let mut o = rel::Out::default();
            let cfgs = |k: &str| -> Vec<Cfg> { flag(a, k).map(|x| x.split(';').map(parse_cfg).collect()).unwrap_or_default() };
            let pairs = |k: &str| -> Vec<(i64, i64)> { flag(a, k).map(|x| x.split(';').filter(|y| !y.is_empty()).map(|y| { let v: Vec<i64> = y.split(',').map(|z| z.parse().unwrap()).collect(); (v[0], v[1]) }).collect()).unwrap_or_default() };
            if a.iter().any(|x| x == "--coef") { rel::coef(&md, &prog, &cfgs("--coef"), align.unwrap_or(8), &mut o); }
            if a.iter().any(|x| x == "--pad") { rel::pad(&md, &prog, &pairs("--pad"), &pairs("--sizes"), &mut o); }
            if a.iter().any(|x| x == "--pro") { for c in cfgs("--pro") { rel::pro(&md, &prog, &c, &pairs("--at"), flag(a, "--room").and_then(|x| x.parse().ok()).unwrap_or(1 << 20), &mut o); } }
            for (k, f, l, m, c) in &o.rows { let file = md.funcs.get(f).map(|x| x.file.clone()).unwrap_or_default(); println!("{{\"t\":\"viol\",\"kind\":\"{}\",\"file\":\"{}\",\"func\":\"{}\",\"line\":{},\"msg\":\"{}\",\"cfg\":\"{}\"}}", k, esc(&file), esc(f), l, esc(m), esc(c)); }
            for n in &o.unsure { println!("{{\"t\":\"unsure\",\"msg\":\"{}\"}}", esc(n)); }
            let fs: Vec<String> = o.funcs.iter().map(|x| format!("\"{}\"", x)).collect();
            println!("{{\"t\":\"rel\",\"compared\":{},\"planes\":{},\"runs\":{},\"steps\":{},\"functions\":[{}],\"secs\":{:.1}}}", o.compared, o.planes, o.runs, o.steps, fs.join(","), t0.elapsed().as_secs_f64());
            0
        }
        "contract" => {
            // what the cut at the entropy coders assumes about them
            let mut o = coder::Out::default();
            for (f, d, p) in [("rfx_encode_diff_rlgr1", 64, "C13"), ("rfx_encode_diff_rlgr3", 64, "C13"), ("rfx_encode_diff_rlgr1", 81, "C14+C15")] {
                if let Err(e) = coder::contract(&md, f, d, p, &mut o) { println!("{{\"t\":\"unsup\",\"msg\":\"{}: {}\",\"line\":0}}", f, esc(&format!("{:?}", e))); }
            }
            for (k, f, l, m, c) in &o.rows { let file = md.funcs.get(f).map(|x| x.file.clone()).unwrap_or_default(); println!("{{\"t\":\"viol\",\"kind\":\"{}\",\"file\":\"{}\",\"func\":\"{}\",\"line\":{},\"msg\":\"{}\",\"cfg\":\"{}\"}}", k, esc(&file), esc(f), l, esc(m), esc(c)); }
            for n in &o.unsure { println!("{{\"t\":\"unsure\",\"msg\":\"{}\"}}", esc(n)); }
            println!("{{\"t\":\"rel\",\"compared\":{},\"planes\":{},\"runs\":3,\"steps\":0,\"functions\":[\"rfx_encode_diff_rlgr1\",\"rfx_encode_diff_rlgr3\"],\"secs\":{:.1}}}", o.compared, o.finals, t0.elapsed().as_secs_f64());
            0
        }
        "alpha" => {
            let name = flag(a, "--fn").unwrap_or("rfx_encode_plane".into());
            let f = match md.funcs.get(&name) { Some(f) => f, None => { println!("{{\"t\":\"unsup\",\"msg\":\"no function {}\"}}", name); return 0; } };
            let mut an = alpha::An::new(&md, f);
            an.run();
            let mut o = coder::Out::default();
            if let Some(b) = an.base { if let Err(e) = alpha::deltas(&md, &name, b as i64 - 16, &mut o) { println!("{{\"t\":\"unsup\",\"msg\":\"{}: differences: {}\"}}", name, esc(&format!("{:?}", e))); } }
            for (k, f, l, m, c) in &o.rows { let file = md.funcs.get(f).map(|x| x.file.clone()).unwrap_or_default(); println!("{{\"t\":\"viol\",\"kind\":\"{}\",\"file\":\"{}\",\"func\":\"{}\",\"line\":{},\"msg\":\"{}\",\"cfg\":\"{}\"}}", k, esc(&file), esc(f), l, esc(m), esc(c)); }
            for n in &o.unsure { println!("{{\"t\":\"unsure\",\"msg\":\"{}\"}}", esc(n)); }
            let bad = an.bad.clone();
            let mut shown = 0;
            let stuck = an.unsup.clone();
            let mut cand: Vec<Vec<u8>> = bad.iter().filter_map(|b| b.plane.clone()).collect();
            // the same rows among incompressible ones
            for k in 0..cand.len() { let mut p = cand[k].clone(); for r in 0..64 { if p[r * 64..r * 64 + 64].iter().all(|&x| x == 0) { for c in 0..64 { p[r * 64 + c] = 1 + (c % 2) as u8; } } } cand.push(p); }
            if !bad.is_empty() || stuck.is_some() { cand.extend(alpha::planes()); }
            let mut told = std::collections::HashSet::new();
            for p in &cand {
                if let Some(c) = an.follow(p) { if told.insert((c.line, c.what)) { shown += 1; println!("{{\"t\":\"viol\",\"kind\":\"C21\",\"file\":\"{}\",\"func\":\"{}\",\"line\":{},\"msg\":\"{}; differences of the row: {}\",\"cfg\":\"\"}}", esc(&f.file), name, c.line, esc(&c.msg), esc(&row_of(p))); } if told.len() > 3 { break; } }
            }
            if shown == 0 { for b in &bad { println!("{{\"t\":\"open\",\"kind\":\"{}\",\"func\":\"{}\",\"line\":{},\"msg\":\"{}\"}}", b.what, name, b.line, esc(&b.msg)); } }
            an.unsup = stuck;
            if let Some(u) = &an.unsup { println!("{{\"t\":\"unsup\",\"msg\":\"{}: {}\"}}", name, esc(u)); }
            println!("{{\"t\":\"alpha\",\"func\":\"{}\",\"states\":{},\"steps\":{},\"forks\":{},\"decoded\":{},\"returns\":{},\"rle\":{},\"raw\":{},\"most\":{},\"bad\":{},\"confirmed\":{},\"differences\":{},\"secs\":{:.1}}}", name, an.states, an.steps, an.forks, an.decoded, an.rets, an.rle, an.raw, an.row_max, bad.len(), shown, o.compared, t0.elapsed().as_secs_f64());
            0
        }
        "rlgr" => {
            for name in flag(a, "--fn").unwrap().split(',') {
                let f = match md.funcs.get(name) { Some(f) => f, None => { println!("{{\"t\":\"unsup\",\"msg\":\"no function {}\"}}", name); continue; } };
                let mut an = rlgr::An::new(f, name.contains('3'));
                an.run();
                for b in &an.bad { println!("{{\"t\":\"open\",\"kind\":\"C17\",\"func\":\"{}\",\"line\":{},\"msg\":\"{}\"}}", name, b.line, esc(&b.msg)); }
                for u in &an.unsup { println!("{{\"t\":\"unsup\",\"msg\":\"{}: {}\"}}", name, esc(u)); }
                println!("{{\"t\":\"rlgr\",\"func\":\"{}\",\"heads\":{},\"states\":{},\"splits\":{},\"steps\":{},\"bits\":{},\"codes\":{},\"returns\":{},\"padding\":{},\"secs\":{:.1}}}", name, an.heads(), an.states, an.splits, an.steps, an.bits, an.codes, an.rets, an.pad, t0.elapsed().as_secs_f64());
            }
            0
        }
        // the same function compiled for another target
        "same" => {
            let t2 = std::fs::read_to_string(flag(a, "--ir2").expect("--ir2")).unwrap();
            let m2 = match ir::parse(&t2) { Ok(m) => m, Err(e) => { println!("{{\"t\":\"error\",\"msg\":\"{}\"}}", esc(&format!("{:?}", e))); return 3; } };
            for name in flag(a, "--fn").unwrap().split(',') {
                let (f, g) = match (md.funcs.get(name), m2.funcs.get(name)) { (Some(f), Some(g)) => (f, g), _ => { println!("{{\"t\":\"unsup\",\"msg\":\"no function {}\"}}", name); continue; } };
                let mut s = same::Same::new(f, g);
                let ok = s.run();
                let (mut shown, mut tried) = (0, 0);
                if !ok {
                    let (a1, a2) = (num::An::new(f, None), num::An::new(g, None));
                    'seek: for nd in if f.args.len() > 3 { vec![0i64, 64, 81] } else { vec![0] } {
                        for (c, what) in num::patterns() {
                            let (x, y) = (a1.follow(&c, 65536, nd), a2.follow(&c, 65536, nd));
                            tried += 1;
                            // a trace that ends in a finding is C16's business unless only one target has it
                            if x.bad.is_some() && y.bad.is_some() { continue; }
                            let d = x.out.iter().zip(&y.out).position(|(p, q)| p != q);
                            let msg = if let Some((_, _, m)) = x.bad.as_ref().or(y.bad.as_ref()) { format!("on one target only, {}", m) }
                                else if x.ret != y.ret { format!("{} bytes on one target, {} on the other", x.ret, y.ret) }
                                else if let Some(d) = d.filter(|&d| (d as i64) < x.ret) { format!("byte {} is {:#04x} on one target, {:#04x} on the other", d, x.out[d], y.out[d]) }
                                else { continue };
                            println!("{{\"t\":\"viol\",\"kind\":\"C20\",\"file\":\"{}\",\"func\":\"{}\",\"line\":{},\"msg\":\"the same coefficients ({}) are coded differently: {}\",\"cfg\":\"\"}}", esc(&f.file), name, s.why.as_ref().map_or(0, |w| w.0), esc(&what), esc(&msg));
                            shown += 1;
                            break 'seek;
                        }
                    }
                    if shown == 0 { let (l, w) = s.why.clone().unwrap_or((0, "the control flow differs".into())); println!("{{\"t\":\"open\",\"kind\":\"C20\",\"func\":\"{}\",\"line\":{},\"msg\":\"not the same on both targets as compiled: {}\"}}", name, l, esc(&w)); }
                }
                println!("{{\"t\":\"same\",\"func\":\"{}\",\"equal\":{},\"pairs\":{},\"blocks\":{},\"tried\":{},\"secs\":{:.1}}}", name, ok, s.pairs, f.blocks.len(), tried, t0.elapsed().as_secs_f64());
            }
            0
        }
        "num" => {
            for name in flag(a, "--fn").unwrap().split(',') {
                let f = match md.funcs.get(name) { Some(f) => f, None => { println!("{{\"t\":\"unsup\",\"msg\":\"no function {}\"}}", name); continue; } };
                let nd = if f.args.len() > 3 { Some((0, 4096)) } else { None };
                let mut an = num::An::new(f, nd);
                an.analyse();
                let open: std::collections::HashSet<&'static str> = an.obs.iter().filter(|x| !x.1 .0).map(|x| x.0 .1).collect();
                for ((line, kind, _), (ok, msg)) in &an.obs { if !ok { println!("{{\"t\":\"open\",\"kind\":\"{}\",\"func\":\"{}\",\"line\":{},\"msg\":\"{}\"}}", kind, name, line, esc(msg)); } }
                let open = if an.unsup.is_empty() { open } else { an.obs.keys().map(|x| x.1).chain(["shift", "param", "lost", "trunc", "oob-read", "oob-write", "oob-coef", "gap", "ret", "consume"]).collect() };
                if !open.is_empty() || a.iter().any(|x| x == "--try") { let open = if open.is_empty() { ["shift", "param", "lost", "trunc", "oob-read", "oob-write", "oob-coef", "gap", "ret", "consume"].into_iter().collect() } else { open }; for (kind, line, msg) in an.witness(&open) { println!("{{\"t\":\"viol\",\"kind\":\"C16\",\"file\":\"{}\",\"func\":\"{}\",\"line\":{},\"msg\":\"{}: {}\",\"cfg\":\"{}\"}}", esc(&f.file), name, line, kind, esc(&msg), name); } }
                for u in &an.unsup { println!("{{\"t\":\"unsup\",\"msg\":\"{}: {}\"}}", name, esc(u)); }
                println!("{{\"t\":\"num\",\"func\":\"{}\",\"obligations\":{},\"shown\":{},\"params\":{},\"visits\":{},\"states\":{},\"secs\":{:.1}}}", name, an.obs.len(), an.obs.values().filter(|x| x.0).count(), an.params(), an.visits, an.disj, t0.elapsed().as_secs_f64());
            }
            0
        }
        "create" => {
            let cfg = parse_cfg(&flag(a, "--cfg").unwrap());
            let mut j = job::Job::new(&md, &prog, &cfg);
            j.m.legacy = a.iter().any(|x| x == "--legacy");
            let r = j.creation();
            let r = match r {
                Ok((bad, paths)) => {
                    for (p, f, msg) in bad { let n = j.m.fnames[f as usize].clone(); let file = md.funcs.get(&n).map(|x| x.file.clone()).unwrap_or_default(); println!("{{\"t\":\"viol\",\"kind\":\"{}\",\"file\":\"{}\",\"func\":\"{}\",\"line\":0,\"msg\":\"{}\",\"cfg\":\"{}\",\"general\":false}}", p, esc(&file), esc(&n), esc(&msg), esc(&j.cfg.name())); }
                    println!("{{\"t\":\"create\",\"paths\":{}}}", paths);
                    Ok(())
                }
                Err(e) => Err(e),
            };
            report(&mut j, r, t0);
            0
        }
        _ => 3,
    }
}
fn report(j: &mut job::Job, r: R<()>, t0: std::time::Instant) {
    for v in &j.m.viols { println!("{{\"t\":\"viol\",\"kind\":\"{}\",\"file\":\"{}\",\"func\":\"{}\",\"line\":{},\"msg\":\"{}\",\"cfg\":\"{}\",\"exact\":{}}}", v.kind, esc(&v.file), esc(&v.func), v.line, esc(&v.msg), esc(&j.cfg.name()), v.exact); }
    if let Err(e) = &r { println!("{{\"t\":\"unsup\",\"msg\":\"{}\",\"line\":{}}}", esc(&format!("{:?}", e)), j.m.line); }
    for n in &j.notes { println!("{{\"t\":\"note\",\"msg\":\"{}\"}}", esc(n)); }
    let fin: usize = j.runs.iter().map(|r| r.finals.len()).sum();
    let cl: Vec<String> = j.runs.iter().map(|r| format!("\"{}\"", esc(&r.class))).collect();
    let mut fs: Vec<String> = j.m.visited.iter().map(|&f| format!("\"{}\"", j.m.fnames[f as usize])).chain(j.m.asm_funcs.iter().map(|x| format!("\"{}\"", x))).collect();
    fs.sort();
    let mut af: Vec<String> = j.m.asm_funcs.iter().map(|x| format!("\"{}\"", x)).collect();
    af.sort();
    let mut ex: Vec<String> = j.m.externs.iter().map(|x| format!("\"{}\"", x)).collect();
    ex.sort();
    let s = &j.m.stats;
    println!("{{\"t\":\"stats\",\"cfg\":\"{}\",\"created\":{},\"classes\":[{}],\"closed\":{},\"finals\":{},\"steps\":{},\"forks\":{},\"merges\":{},\"unrolled\":{},\"loops\":{},\"invariants\":{},\"obligations\":{},\"lp\":{},\"asm_instructions\":{},\"functions\":[{}],\"asm_functions\":[{}],\"externs\":[{}],\"secs\":{:.1}}}",
        esc(&j.cfg.name()), j.created, cl.join(","), j.closed, fin, s.steps, s.forks, s.merges, s.unrolled, s.fixes, s.invs, s.oblig, lp_count(), j.m.asm_seen.len(), fs.join(","), af.join(","), ex.join(","), t0.elapsed().as_secs_f64());
}

fn row_of(p: &[u8]) -> String { let r = (0..64).find(|r| p[r * 64..r * 64 + 64].iter().any(|&x| x != 0)).unwrap_or(0); let s: Vec<String> = p[r * 64..r * 64 + 64].iter().map(|x| x.to_string()).collect(); format!("row {}: {}", r, s.join(" ")) }
