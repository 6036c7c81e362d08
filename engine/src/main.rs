mod exec;
mod expr;
mod ir;
mod solver;
use std::time::{Duration, Instant};

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 1 && a[1] == "selftest" { selftest(); return; }
    if a.len() < 3 { eprintln!("usage: symll FILE.ll HARNESS [--out F] [--secs N] [--steps N] [--trace] [--first] [--dump DIR N] [-- ARG...]"); std::process::exit(2); }
    let (file, h) = (a[1].clone(), a[2].clone());
    let (mut out, mut secs, mut steps, mut trace, mut first, mut dump, mut qt) = (None, 600u64, 200_000_000u64, false, false, None, 60_000u32);
    let mut grace = None;
    let mut extra: Vec<String> = vec![];
    let mut i = 3;
    while i < a.len() {
        match a[i].as_str() {
            "--out" => { out = Some(a[i + 1].clone()); i += 1; }
            "--secs" => { secs = a[i + 1].parse().unwrap(); i += 1; }
            "--steps" => { steps = a[i + 1].parse().unwrap(); i += 1; }
            "--qt" => { qt = a[i + 1].parse().unwrap(); i += 1; }
            "--grace" => { grace = Some(Duration::from_secs(a[i + 1].parse().unwrap())); i += 1; }
            "--trace" => trace = true,
            "--first" => first = true,
            "--dump" => { dump = Some((a[i + 1].clone(), 0u64, a[i + 2].parse().unwrap())); i += 2; }
            "--" => { extra = a[i + 1..].to_vec(); break; }
            x => { eprintln!("unknown option {x}"); std::process::exit(2); }
        }
        i += 1;
    }
    let t0 = Instant::now();
    let m = match ir::Module::load(std::fs::read(&file).unwrap()) { Ok(m) => m, Err(e) => { eprintln!("cannot load: {e}"); std::process::exit(7); } };
    let load = t0.elapsed();
    let mut x = exec::Exec::new(m, qt);
    x.max_steps = steps; x.trace = trace; x.stop_at_violation = first;
    x.sol.dump = dump; x.grace = grace;
    x.deadline = Some(Instant::now() + Duration::from_secs(secs));
    let mut argv: Vec<&str> = vec!["harness", &h, "-"];
    for e in &extra { argv.push(e); }
    if let Err(e) = x.start(&argv) { eprintln!("cannot start: {e:?}"); std::process::exit(7); }
    x.run();
    let mut o = String::from("{\n");
    let kv = |o: &mut String, k: &str, v: String| { o.push_str(&format!("{}: {},\n", js(k), v)); };
    kv(&mut o, "harness", js(&h));
    kv(&mut o, "args", format!("[{}]", extra.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    kv(&mut o, "load_secs", format!("{:.3}", load.as_secs_f64()));
    kv(&mut o, "secs", format!("{:.3}", t0.elapsed().as_secs_f64()));
    for (k, v) in [("paths", x.paths), ("completed", x.done), ("assumed_away", x.assumed), ("failed", x.failed), ("steps", x.steps), ("forks", x.forks), ("max_depth", x.maxdepth as u64), ("queries", x.sol.queries), ("sat", x.sol.sat), ("unsat", x.sol.unsat), ("unknown", x.sol.unknown), ("cache_hits", x.sol.hits), ("left", x.work.len() as u64)] { kv(&mut o, k, v.to_string()); }
    kv(&mut o, "solver_secs", format!("{:.3}", x.sol.secs));
    let m = |m: &std::collections::BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "));
    kv(&mut o, "limits", m(&x.limits));
    kv(&mut o, "crashes", m(&x.bad));
    kv(&mut o, "covers", m(&x.covers));
    kv(&mut o, "checks", format!("{{{}}}", x.checks.iter().map(|(k, v)| format!("{}: {{\"hit\": {}, \"trivial\": {}, \"solver\": {}, \"failed\": {}}}", js(k), v.hit, v.trivial, v.solver, v.failed)).collect::<Vec<_>>().join(", ")));
    kv(&mut o, "cover_models", format!("{{{}}}", x.cover_model.iter().map(|(k, v)| format!("{}: {}", js(k), js(&hex(v)))).collect::<Vec<_>>().join(", ")));
    let vs: Vec<String> = x.viol.iter().map(|v| format!("{{\"id\": {}, \"model\": {}, \"names\": [{}], \"log\": [{}], \"trace\": [{}]}}", js(&v.id), js(&hex(&v.model)), v.names.iter().map(|(n, k)| format!("[{}, {k}]", js(n))).collect::<Vec<_>>().join(", "), v.log.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "), v.trace.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "))).collect();
    kv(&mut o, "violations", format!("[{}]", vs.join(",\n")));
    let mut fs: Vec<&str> = x.fcov.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| x.m.fns[i].name.as_str()).collect(); fs.sort();
    kv(&mut o, "functions", format!("[{}]", fs.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    let mut fk: Vec<_> = x.fork_at.iter().collect(); fk.sort_by(|a, b| b.1.cmp(a.1));
    kv(&mut o, "fork_sites", format!("[{}]", fk.iter().take(15).map(|((f, b, i), n)| format!("[{}, {b}, {i}, {n}]", js(&x.m.fns[*f as usize].name))).collect::<Vec<_>>().join(",")));
    kv(&mut o, "dbg", format!("[{}]", x.dbgcov.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| i.to_string()).collect::<Vec<_>>().join(",")));
    o.push_str("\"end\": true\n}\n");
    match out { Some(f) => std::fs::write(f, o).unwrap(), None => println!("{o}") }
}
fn hex(v: &[u8]) -> String { v.iter().map(|b| format!("{b:02x}")).collect() }

/// The simplifier and the solver encoding against plain evaluation, on random expressions.
fn selftest() {
    use expr::*;
    let mut s: u64 = 0x9e3779b97f4a7c15;
    let mut rnd = move |n: u64| { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s % n };
    let mut sol = solver::Solver::new(10_000);
    let mut bad = 0;
    for _ in 0..4000 {
        let model: Vec<u8> = (0..6).map(|_| rnd(256) as u8).collect();
        // pool of (expression, reference value)
        let mut pool: Vec<(E, u128)> = (0..6).map(|i| (var(i), model[i as usize] as u128)).collect();
        for _ in 0..5 { let w = [1, 8, 16, 32, 64][rnd(5) as usize]; let v = if rnd(2) == 0 { rnd(4) as u128 } else { (rnd(1 << 62) as u128) << rnd(3) }; pool.push((cst(v, w), v & mask(w))); }
        for _ in 0..40 {
            let (a, va) = pool[rnd(pool.len() as u64) as usize];
            let w = width(a);
            let (b, vb) = { let c: Vec<_> = pool.iter().filter(|p| width(p.0) == w).collect(); *c[rnd(c.len() as u64) as usize] };
            let n = match rnd(9) {
                0 | 1 | 2 => { let ops = [B::Add, B::Sub, B::Mul, B::UDiv, B::SDiv, B::URem, B::SRem, B::And, B::Or, B::Xor, B::Shl, B::LShr, B::AShr]; let op = ops[rnd(13) as usize]; match bin_c(op, va, vb, w) { Some(r) => (bin(op, a, b), r), None => continue } }
                3 | 4 => { let ops = [C::Eq, C::Ult, C::Ule, C::Slt, C::Sle]; let op = ops[rnd(5) as usize]; (cmp(op, a, b), cmp_c(op, va, vb, w) as u128) }
                5 => (not(a), !va & mask(w)),
                6 => { let l = rnd(w as u64) as u32; let h = l + rnd((w - l) as u64) as u32; (extract(h, l, a), (va >> l) & mask(h - l + 1)) }
                7 => { let (c, vc) = pool[rnd(pool.len() as u64) as usize]; if w + width(c) > 128 { continue; } (concat(a, c), va << width(c) | vc) }
                _ => { let nw = w + rnd(40) as u32; if nw > 128 { continue; } if rnd(2) == 0 { (zext(a, nw), va) } else { (sext(a, nw), sx(va, w) as u128 & mask(nw)) } }
            };
            let got = eval(n.0, &model, &mut std::collections::HashMap::new());
            if got != n.1 || n.1 > node(n.0).max { bad += 1; eprintln!("mismatch {:?} got {got:x} want {:x} max {:x}", node(n.0).n, n.1, node(n.0).max); }
            pool.push(n);
        }
        // the solver must agree on the last value
        if rnd(40) == 0 {
            let (e, v) = *pool.last().unwrap();
            let mut cs: Vec<E> = (0..6).map(|i| cmp(C::Eq, var(i), cst(model[i as usize] as u128, 8))).collect();
            let q = cmp(C::Eq, e, cst(v, width(e)));
            cs.push(not(q));
            if !matches!(sol.check(&cs), solver::R::Unsat) { bad += 1; eprintln!("solver disagrees"); }
        }
    }
    println!("selftest: {} mismatches, {} solver queries", bad, sol.queries);
    std::process::exit((bad > 0) as i32);
}
