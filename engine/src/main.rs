//! symex: decides harness assertions over the LLVM bitcode rustc emitted for the code under test.
mod exec; mod expr; mod intercept; mod ir; mod llvm; mod loader; mod mem; mod regex; mod solver;
use std::io::Write;
use std::time::{Duration, Instant};

extern "C" { fn fork() -> i32; fn waitpid(p: i32, st: *mut i32, o: i32) -> i32; fn kill(p: i32, s: i32) -> i32; fn _exit(c: i32) -> !; }

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
fn inputs_json(v: &[(String, Vec<u8>)]) -> String {
    let x: Vec<String> = v.iter().map(|(n, b)| format!("[{},\"{}\"]", js(n), b.iter().map(|b| format!("{b:02x}")).collect::<String>())).collect();
    format!("[{}]", x.join(","))
}

fn run_entry(ld: loader::Loader, entry: &str, budget: f64, focus: &[String], verbose: bool) -> String {
    let t0 = Instant::now();
    let p = ir::Prog::new(ld, intercept::resolve);
    let mut ex = exec::Ex::new(p, t0 + Duration::from_secs_f64(budget));
    if verbose { ex.trace = std::env::var("SYMEX_TRACE").is_ok(); }
    let mut err = vec![];
    match ex.p.fn_by_symbol(entry) {
        None => err.push(format!("entry {entry} not found")),
        Some(f) => match ex.start(f, vec![]) {
            Err(e) => err.push(e),
            Ok(s) => { let left = ex.explore(vec![s]); if !left.is_empty() && !ex.aborting { err.push("states left over".into()); } }
        },
    }
    err.extend(ex.incomplete.iter().cloned());
    let mut o = String::from("{");
    let mut kv = |k: &str, v: String| { if o.len() > 1 { o.push_str(",\n"); } o.push_str(&format!("{}: {}", js(k), v)); };
    kv("entry", js(entry));
    kv("seconds", format!("{:.3}", t0.elapsed().as_secs_f64()));
    let v: Vec<String> = ex.violations.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"stack\":[{}],\"inputs\":{}}}", js(&v.kind), js(&v.msg), v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), inputs_json(&v.inputs))).collect();
    kv("violations", format!("[{}]", v.join(",\n")));
    kv("errors", format!("[{}]", err.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    let mut c: Vec<_> = ex.covers.iter().collect(); c.sort();
    kv("covers", format!("{{{}}}", c.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(",")));
    let mut c: Vec<_> = ex.known_hit.iter().collect(); c.sort();
    kv("known", format!("{{{}}}", c.iter().map(|(k, n)| format!("{}:{{\"count\":{},\"inputs\":{}}}", js(k), n, inputs_json(&ex.known_inputs[*k]))).collect::<Vec<_>>().join(",")));
    let mut c: Vec<_> = ex.notes.iter().collect(); c.sort();
    kv("notes", format!("[{}]", c.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    let st = &ex.st; let so = &ex.sol;
    kv("stats", format!("{{\"instructions\":{},\"paths\":{},\"returns\":{},\"assume_ends\":{},\"panics\":{},\"forks\":{},\"merges\":{},\"merge_fail\":{},\"asserts\":{},\"assert_queries\":{},\"concretisations\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_seconds\":{:.3},\"max_query_seconds\":{:.3},\"expressions\":{},\"modules\":{},\"symbolic_bytes\":{}}}",
        st.instrs, st.paths, st.returns, st.assumes, st.panics, st.forks, st.merges, st.merge_fail, st.asserts, st.assert_queries, st.conc, so.queries, so.sat, so.unsat, so.unknown, so.cache_hits, so.time, so.max_time, ex.p.ar.n.len(), ex.p.ld.loaded, ex.p.ar.vars.len()));
    let mut fns: Vec<(String, u64)> = ex.p.funcs.iter().filter(|f| f.execs > 0 && f.body.is_some() && focus.iter().any(|p| f.dem.contains(p.as_str()))).map(|f| (f.dem.clone(), f.execs)).collect();
    fns.sort(); fns.dedup_by(|a, b| a.0 == b.0);
    let total = ex.p.funcs.iter().filter(|f| f.execs > 0 && f.body.is_some()).count();
    kv("functions_encoded_total", total.to_string());
    kv("functions", format!("{{{}}}", fns.iter().map(|(f, n)| format!("{}:{}", js(f), n)).collect::<Vec<_>>().join(",\n")));
    kv("samples", format!("[{}]", ex.samples.iter().map(|s| inputs_json(s)).collect::<Vec<_>>().join(",")));
    if verbose {
        let mut b: Vec<_> = ex.branch_sites.iter().map(|(k, n)| (*n, *k)).collect(); b.sort(); b.reverse();
        for (n, (f, bl)) in b.iter().take(15) { eprintln!("{n:8} {} bb{}", ex.p.funcs[*f as usize].dem, bl); }
    }
    o.push_str("}\n");
    o
}

fn main() {
    let mut a = std::env::args().skip(1);
    let (mut libs, mut entries, mut out, mut jobs, mut budget, mut focus, mut verbose) = (String::new(), vec![], String::from("."), 8usize, 600.0, vec![], false);
    let mut list = None;
    while let Some(x) = a.next() {
        match x.as_str() {
            "--libs" => libs = a.next().unwrap(), "--entry" => entries.push(a.next().unwrap()), "--out" => out = a.next().unwrap(),
            "--jobs" => jobs = a.next().unwrap().parse().unwrap(), "--budget" => budget = a.next().unwrap().parse().unwrap(),
            "--focus" => focus.push(a.next().unwrap()), "-v" => verbose = true, "--list" => list = a.next(),
            "--find" => list = a.next().map(|s| format!("?{s}")),
            _ => { eprintln!("unknown argument {x}"); std::process::exit(64); }
        }
    }
    let paths: Vec<String> = std::fs::read_to_string(&libs).unwrap().lines().filter(|l| !l.is_empty()).map(|s| s.to_string()).collect();
    let ld = loader::Loader::new(&paths);
    if let Some(p) = list {
        let v = if let Some(q) = p.strip_prefix('?') { ld.find_symbols(|s| format!("{:#}", rustc_demangle::demangle(s)).contains(q)) } else { ld.find_symbols(|s| s.starts_with(&p)) };
        for s in v { println!("{s} {:#}", rustc_demangle::demangle(&s)); }
        return;
    }
    let _ = std::io::stdout().flush();
    let mut ld = Some(ld);
    let mut running: Vec<(i32, String, Instant)> = vec![];
    let mut todo: Vec<String> = entries.clone(); todo.reverse();
    let mut bad = 0;
    let kill_after = Duration::from_secs_f64(budget + 90.0);
    loop {
        while running.len() < jobs {
            let Some(e) = todo.pop() else { break };
            let pid = unsafe { fork() };
            if pid == 0 {
                let l = ld.take().unwrap();
                struct S(loader::Loader); unsafe impl Send for S {}
                let s = S(l);
                let (o2, f2, e2) = (out.clone(), focus.clone(), e.clone());
                let h = std::thread::Builder::new().stack_size(4 << 30).spawn(move || { let s = s; let S(l) = s; let r = run_entry(l, &e2, budget, &f2, verbose); std::fs::write(format!("{o2}/{e2}.json"), r).unwrap(); unsafe { _exit(0) } }).unwrap();
                let _ = h.join();
                unsafe { _exit(71) }
            }
            running.push((pid, e, Instant::now()));
        }
        if running.is_empty() { break; }
        let mut st = 0;
        let p = unsafe { waitpid(-1, &mut st, 1) };
        if p > 0 {
            if let Some(i) = running.iter().position(|r| r.0 == p) { let (_, e, _) = running.remove(i); if st != 0 { eprintln!("entry {e}: engine process ended with status {st:#x}"); bad += 1; } }
        } else {
            for r in &running { if r.2.elapsed() > kill_after { unsafe { kill(r.0, 9); } } }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    std::process::exit(if bad > 0 { 70 } else { 0 });
}
