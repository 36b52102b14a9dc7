mod term; mod ir; mod smt; mod cnf; mod exec;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(), c => o.push(c) } } o.push('"'); o }

fn real_main() -> i32 {
    let mut ir = String::new(); let mut entry = String::new(); let mut out = String::new();
    let mut params = vec![]; let mut secs = 600u64; let mut hard = 300; let mut trace = false; let mut max_viol = 3; let mut dump = None; let mut xc = None; let mut satc = "kissat".to_string();
    let mut fix = std::collections::HashMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut nx = || it.next().expect("argument");
        match a.as_str() {
            "--ir" => ir = nx(), "--entry" => entry = nx(), "--out" => out = nx(),
            "--params" => params = nx().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--fix" => fix = nx().split(',').filter(|x| !x.is_empty()).map(|x| { let (k, v) = x.split_once('=').unwrap(); (k.parse().unwrap(), v.parse().unwrap()) }).collect(),
            "--xcheck" => xc = Some(nx()), "--sat" => satc = nx(), "--secs" => secs = nx().parse().unwrap(), "--hard-secs" => hard = nx().parse().unwrap(),
            "--trace" => trace = true, "--max-viol" => max_viol = nx().parse().unwrap(), "--dump" => dump = Some(nx()),
            _ => { eprintln!("unknown argument {}", a); return 2; }
        }
    }
    let t0 = Instant::now();
    let m = match ir::Module::load(&ir) { Ok(m) => m, Err(e) => { eprintln!("{}", e); return 2; } };
    let tl = t0.elapsed();
    let cfg = exec::Cfg { params, fix, hard_secs: hard, trace, max_viol };
    let mut ex = exec::Exec::new(&m, &satc, cfg, t0 + Duration::from_secs(secs));
    ex.smt.dump = dump; ex.smt.trace = trace;
    if let Some(x) = xc { ex.smt.xcheck = Some((x, 10)); }
    let s = match ex.initial(&entry) { Ok(s) => s, Err(e) => { eprintln!("{}", e); return 2; } };
    let r = ex.run(s, exec::Stop::Ret(1));
    let (status, msg) = match &r {
        _ if !ex.viol.is_empty() => ("violation", String::new()),
        Err(exec::Err::Fatal(e)) => ("inconclusive", e.clone()),
        Err(_) => ("inconclusive", "control".into()),
        Ok(_) => ("ok", String::new()),
    };
    let completed = matches!(r, Ok(Some(_)));
    let mut j = String::new();
    write!(j, "{{\"status\":{},\"message\":{},\"completed\":{},", esc(status), esc(&msg), completed).unwrap();
    j.push_str("\"violations\":[");
    for (i, v) in ex.viol.iter().enumerate() {
        if i > 0 { j.push(','); }
        let mm: Vec<String> = v.model.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect();
        write!(j, "{{\"kind\":{},\"code\":{},\"msg\":{},\"at\":{},\"inputs\":[{}]}}", esc(&v.kind), v.code, esc(&v.msg), esc(&v.at), mm.join(",")).unwrap();
    }
    j.push_str("],\"covers\":{");
    let cv: Vec<String> = ex.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    j.push_str(&cv.join(","));
    write!(j, "}},\"logs\":{:?},", ex.logs).unwrap();
    let fns: Vec<String> = ex.funcs_run.iter().map(|(k, v)| format!("[{},{}]", esc(&m.fdefs[*k as usize].0), v)).collect();
    write!(j, "\"functions\":[{}],", fns.join(",")).unwrap();
    let sw: Vec<String> = ex.shared_written.iter().map(|a| format!("{}", esc(&m.globals.iter().find(|g| g.addr == *a).map_or(format!("heap {:#x}", a), |g| g.name.clone())))).collect();
    write!(j, "\"shared_written\":[{}],", sw.join(",")).unwrap();
    let st: Vec<String> = ex.stubs.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    write!(j, "\"stubs\":{{{}}},", st.join(",")).unwrap();
    let inp: Vec<String> = ex.ts.vars.iter().map(|v| format!("[{},{},{}]", v.id, v.lo, v.hi)).collect();
    write!(j, "\"inputs\":[{}],", inp.join(",")).unwrap();
    let q = &ex.smt.st;
    write!(j, "\"solver\":{{\"cmd\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"abs_queries\":{},\"abs_unsat\":{},\"ms\":{},\"max_ms\":{},\"max_vars\":{},\"max_clauses\":{},\"cross_agree\":{},\"cross_unknown\":{},\"cross_disagree\":{}}},", esc(&satc), q.queries, q.sat, q.unsat, q.unknown, q.abs, q.abs_unsat, q.ms, q.max_ms, q.max_vars, q.max_clauses, ex.smt.xagree, ex.smt.xunknown, ex.smt.xdisagree).unwrap();
    let c = &ex.cnt;
    write!(j, "\"counts\":{{\"instructions\":{},\"forks\":{},\"merges\":{},\"paths_ended\":{},\"checks_const\":{},\"checks_solver\":{},\"checks_abs\":{},\"checks_cut\":{},\"swept\":{},\"panics_excluded\":{},\"addr_checks\":{},\"assumes\":{},\"terms\":{},\"roots\":{},\"unified\":{}}},", c.instrs, c.forks, c.merges, c.paths, c.checks_const, c.checks_solver, c.checks_abs, c.checks_cut, c.swept, c.panics_excluded, c.addr_checks, ex.assumes, ex.ts.n.len(), ex.ts.roots.len(), ex.ts.unified).unwrap();
    let inc: Vec<String> = ex.incon.iter().take(10).map(|x| esc(x)).collect();
    write!(j, "\"unknown_branches\":[{}],\"load_ms\":{},\"total_ms\":{}}}", inc.join(","), tl.as_millis(), t0.elapsed().as_millis()).unwrap();
    if trace { for (l, n) in ex.fork_report() { eprintln!("forks {:6} {}", n, l); } }
    if out.is_empty() { println!("{}", j); } else { std::fs::write(&out, j).unwrap(); }
    match status { "ok" => 0, "violation" => 1, _ => 3 }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(8 << 30).spawn(real_main).unwrap();
    let r = h.join().unwrap_or(4);
    std::process::exit(r);
}
