mod exec;
mod expr;
mod libc;
mod parse;
mod solver;

use exec::*;
use std::collections::{BTreeSet, HashMap};
use std::time::Instant;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn ints(v: &[(u64, u32)]) -> String {
    let s: Vec<String> = v.iter().map(|x| format!("[\"{}\",{}]", x.0, x.1)).collect();
    format!("[{}]", s.join(","))
}
fn notes(v: &[(u64, u64)]) -> String {
    let s: Vec<String> = v.iter().map(|x| format!("[{},\"{}\"]", x.0, x.1)).collect();
    format!("[{}]", s.join(","))
}

fn real() -> i32 {
    // sx OUT.json ENTRY[:PARAM...] SECONDS MAXPATHS QUERY_MS file.ll...
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 7 {
        eprintln!("usage: sx OUT.json ENTRY SECONDS MAXPATHS QUERY_MS FILE.ll...");
        return 2;
    }
    let start = Instant::now();
    let mut prog = parse::Program::default();
    for f in &a[6..] {
        let text = match std::fs::read(f) {
            Ok(t) => t,
            Err(e) => {
                eprintln!("sx: {}: {}", f, e);
                return 3;
            }
        };
        let text: &'static [u8] = Box::leak(text.into_boxed_slice());
        let name = std::path::Path::new(f).file_stem().unwrap().to_string_lossy().into_owned();
        prog.add_module(&name, text);
    }
    let mut spec = a[2].split(':');
    let entry = spec.next().unwrap();
    let params: Vec<u64> = spec.map(|p| p.parse().unwrap()).collect();
    let entry = match prog.ext.get(entry) {
        Some(s) => *s,
        None => {
            eprintln!("sx: no entry {}", a[2]);
            return 3;
        }
    };
    let load_s = start.elapsed().as_secs_f64();
    let mut e = Engine {
        prog,
        pool: Default::default(),
        solver: solver::Solver::new(a[5].parse().unwrap()),
        work: vec![],
        targets: vec![],
        natives: HashMap::new(),
        steps: 0,
        forks: 0,
        asserts: 0,
        asserts_solved: 0,
        paths: vec![],
        npaths: 0,
        infeasible: 0,
        found: vec![],
        covers: BTreeSet::new(),
        expect: 0,
        called: BTreeSet::new(),
        start: Instant::now(),
        time_limit: a[3].parse().unwrap(),
        max_paths: a[4].parse().unwrap(),
        render: a[2].starts_with("c22"),
        fan: 1500,
        globals: HashMap::new(),
        params,
    };
    let r = e.run(entry);
    let missing: Vec<String> =
        (0..e.expect).filter(|k| !e.covers.contains(k)).map(|k| k.to_string()).collect();
    let mut fns: Vec<String> = vec![];
    for s in e.called.iter() {
        let sym = &e.prog.syms[*s as usize];
        let m = &e.prog.mods[sym.module as usize].name;
        if m.starts_with("flatdata") || m.starts_with("diff") || m.starts_with("memmap") || sym.name.contains("8flatdata") {
            fns.push(Engine::demangle(sym.name));
        }
    }
    fns.sort();
    fns.dedup();
    let found: Vec<String> = e
        .found
        .iter()
        .map(|f| {
            let t: Vec<String> = f.trace.iter().map(|x| esc(x)).collect();
            format!(
                "{{\"kind\":{},\"msg\":{},\"inputs\":{},\"notes\":{},\"trace\":[{}]}}",
                esc(&f.kind),
                esc(&f.msg),
                ints(&f.inputs),
                notes(&f.notes),
                t.join(",")
            )
        })
        .collect();
    let paths: Vec<String> = e
        .paths
        .iter()
        .map(|p| format!("{{\"inputs\":{},\"notes\":{}}}", ints(&p.inputs), notes(&p.notes)))
        .collect();
    let out = format!(
        "{{\"entry\":{},\"status\":{},\"detail\":{},\"paths\":{},\"infeasible\":{},\"forks\":{},\"steps\":{},\
\"asserts\":{},\"asserts_solved\":{},\"queries\":{},\"cache_hits\":{},\"unsat\":{},\"solver_s\":{:.3},\
\"load_s\":{:.3},\"wall_s\":{:.3},\"missing_covers\":[{}],\"covers\":{},\"functions\":[{}],\"solver\":{},\
\"violations\":[{}],\"path_models\":[{}]}}\n",
        esc(&a[2]),
        esc(match &r {
            Ok(_) => "complete",
            Err(m) if m.starts_with("time limit of ") || m.starts_with("more than ") => "limit",
            Err(_) => "inconclusive",
        }),
        esc(&r.err().unwrap_or_default()),
        e.npaths,
        e.infeasible,
        e.forks,
        e.steps,
        e.asserts,
        e.asserts_solved,
        e.solver.queries,
        e.solver.cache_hits,
        e.solver.unsat,
        e.solver.time,
        load_s,
        e.start.elapsed().as_secs_f64(),
        missing.join(","),
        e.covers.len(),
        fns.iter().map(|f| esc(f)).collect::<Vec<_>>().join(","),
        esc(&solver::version()),
        found.join(","),
        paths.join(",")
    );
    if let Err(x) = std::fs::write(&a[1], out) {
        eprintln!("sx: {}: {}", a[1], x);
        return 3;
    }
    0
}

fn main() {
    // expression evaluation recurses
    let r = std::thread::Builder::new()
        .stack_size(4 << 30)
        .spawn(real)
        .unwrap()
        .join()
        .unwrap_or(3);
    std::process::exit(r);
}
