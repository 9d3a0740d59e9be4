mod domain;
mod exec;
mod expr;
mod facts;
mod guess;
mod ir;
mod mem;
mod z3;
use std::collections::{BTreeMap, BTreeSet};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
fn tape(t: &[(u8, u64)]) -> String { format!("[{}]", t.iter().map(|(w, v)| format!("[{},{}]", w, v)).collect::<Vec<_>>().join(",")) }
fn nums(t: &[u64]) -> String { format!("[{}]", t.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")) }
fn strs(t: &[String]) -> String { format!("[{}]", t.iter().map(|v| js(v)).collect::<Vec<_>>().join(",")) }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut o = exec::Opts { threads: 8, seed: 1, max_paths: 50_000_000, timeout: 600.0, max_alloc: 1 << 20, max_steps: 300_000_000, sample: 400, bvs: false, max_viol: 3, smt_every: 0, verbose: false, show: 0, audit: 0.1 };
    // every entry gets at most `first` seconds in the first round; those which did not
    // finish share what is left of `timeout`, unless a violation was found
    let mut first = 1e9f64;
    let mut file = None;
    let mut out = None;
    let mut entries = vec![];
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let mut next = || { i += 1; args[i].clone() };
        match a {
            "--threads" => o.threads = next().parse().unwrap(),
            "--seed" => o.seed = next().parse().unwrap(),
            "--timeout" => o.timeout = next().parse().unwrap(),
            "--first" => first = next().parse().unwrap(),
            "--max-paths" => o.max_paths = next().parse().unwrap(),
            "--max-alloc" => o.max_alloc = next().parse().unwrap(),
            "--max-steps" => o.max_steps = next().parse().unwrap(),
            "--max-viol" => o.max_viol = next().parse().unwrap(),
            "--sample" => o.sample = next().parse().unwrap(),
            "--smt-every" => o.smt_every = next().parse().unwrap(),
            "--bv" => o.bvs = true,
            "--show" => o.show = next().parse().unwrap(),
            "--audit" => o.audit = next().parse().unwrap(),
            "-v" => o.verbose = true,
            "--out" => out = Some(next()),
            _ if file.is_none() => file = Some(a.to_string()),
            _ => entries.push(a.to_string()),
        }
        i += 1;
    }
    let file = file.expect("usage: symx FILE.ll ENTRY.. --out JSON");
    let text = std::fs::read_to_string(&file).expect("read IR");
    let m = match ir::parse(&text) { Ok(m) => m, Err(e) => { eprintln!("symx: cannot read IR: {}", e); std::process::exit(3); } };
    drop(text);
    let mut js_entries: Vec<Option<String>> = entries.iter().map(|_| None).collect();
    let mut bads = vec![0; entries.len()];
    let t0 = std::time::Instant::now();
    let total = o.timeout;
    let mut todo: Vec<(usize, bool)> = (0..entries.len()).map(|i| (i, false)).collect();
    let mut at = 0;
    while at < todo.len() {
        let (ei, second) = todo[at];
        at += 1;
        let e = &entries[ei];
        let violated = bads.iter().any(|b| b & 1 != 0);
        if second && violated { continue; }
        let left = total - t0.elapsed().as_secs_f64();
        o.timeout = if second { left / (todo.len() - at + 1) as f64 } else { first.min(left) };
        if o.timeout < 2.0 { if second { continue; } o.timeout = 2.0; }
        if violated { o.timeout = o.timeout.min(30.0); }
        let x = exec::Exec::new(&m);
        let r = match x.run(e, &o) { Ok(r) => r, Err(er) => { eprintln!("symx: {}", er); std::process::exit(3); } };
        let mut bad = 0;
        if !second && r.viols.is_empty() && r.errors.iter().any(|e| e.starts_with("time limit")) { todo.push((ei, true)); }
        // what was executed
        let mut lines: BTreeMap<(String, String), BTreeSet<u32>> = BTreeMap::new();
        let mut fns = 0;
        for f in &m.funcs {
            let mut any = false;
            for b in &f.blocks { for ins in &b.ins {
                if !x.hit[ins.gid as usize].load(std::sync::atomic::Ordering::Relaxed) { continue; }
                any = true;
                let mut d = ins.dbg;
                let mut n = 0;
                while d != 0 && n < 30 {
                    match ir::locate(&m, d) {
                        Some(l) => { if l.line > 0 { lines.entry((l.file, l.func)).or_default().insert(l.line); } d = l.inlined; }
                        None => break,
                    }
                    n += 1;
                }
            } }
            if any { fns += 1; }
        }
        let cov: Vec<String> = lines.iter().filter(|((f, _), _)| f.contains("/repo/")).map(|((f, n), l)| {
            let f = match f.find("/@/") { Some(i) => &f[..i], None => f };
            format!("{{\"file\":{},\"function\":{},\"lines\":{}}}", js(f), js(n), nums(&l.iter().map(|x| *x as u64).collect::<Vec<_>>()))
        }).collect();
        let viols: Vec<String> = r.viols.iter().map(|v| format!("{{\"kind\":{},\"message\":{},\"at\":{},\"tape\":{},\"observed\":{}}}", js(&v.kind), js(&v.msg), strs(&v.at), tape(&v.tape), nums(&v.obs))).collect();
        let paths: Vec<String> = r.paths.iter().map(|p| format!("{{\"tape\":{},\"observed\":{},\"instructions\":{}}}", tape(&p.tape), nums(&p.obs), p.steps)).collect();
        let covers: Vec<String> = { let b: BTreeMap<_, _> = r.covers.iter().collect(); b.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect() };
        let smt: Vec<String> = r.smt.iter().map(|(t, s)| format!("{{\"sat\":{},\"smt2\":{}}}", s, js(t))).collect();
        let errors: Vec<String> = r.errors.iter().filter(|e| !e.starts_with("stopped at")).cloned().collect();
        if !errors.is_empty() { bad |= 2; }
        if !r.viols.is_empty() { bad |= 1; }
        eprintln!("{}: {} paths, {} cut by assumptions, {} forks, {} instructions, {} branches on symbolic conditions ({} implied, {} propagated), {} queries ({} unsat) {:.2}s solver, {:.2}s wall, {} violations, {} errors",
            e, r.ok, r.assumed_away, r.forks, r.steps, r.branches, r.implied, r.found, r.queries, r.unsat, r.solver_s, r.wall, r.viols.len(), errors.len());
        for er in errors.iter().take(3) { eprintln!("  error: {}", er); }
        js_entries[ei] = Some(format!("{{\"entry\":{},\"paths_completed\":{},\"paths_assumed_away\":{},\"forks\":{},\"instructions\":{},\"symbolic_branches\":{},\"implied_branches\":{},\"implied_confirmed_by_solver\":{},\"paths_with_implied_confirmed\":{},\"models_by_propagation\":{},\"asserts\":{},\"asserts_symbolic\":{},\"queries\":{},\"queries_sat\":{},\"queries_unsat\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"max_forks_on_path\":{},\"max_path_condition\":{},\"symbolic_inputs\":{},\"ir_functions_executed\":{},\"covers\":{{{}}},\"violations\":[{}],\"errors\":{},\"repo_code\":[{}],\"paths\":[{}],\"smt\":[{}]}}",
            js(e), r.ok, r.assumed_away, r.forks, r.steps, r.branches, r.implied, r.audited, r.audited_paths, r.found, r.asserts, r.asserts_symbolic, r.queries, r.sat, r.unsat, r.solver_s, r.wall, r.max_depth, r.maxpc, r.vars, fns, covers.join(","), viols.join(","), strs(&errors), cov.join(","), paths.join(","), smt.join(",")));
        bads[ei] = bad;
    }
    let bad = bads.iter().fold(0, |a, b| a | b);
    let js_entries: Vec<String> = js_entries.into_iter().flatten().collect();
    let doc = format!("{{\"z3\":{},\"ir_functions\":{},\"entries\":[{}]}}\n", js(&z3::version()), m.funcs.len(), js_entries.join(",\n"));
    match out { Some(f) => std::fs::write(f, doc).unwrap(), None => print!("{}", doc) }
    std::process::exit(if bad & 1 != 0 { 1 } else if bad != 0 { 2 } else { 0 });
}
