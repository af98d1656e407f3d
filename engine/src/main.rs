mod exec;
mod expr;
mod ir;
mod mem;
mod z3;
use exec::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
fn inputs(v: &[(String, u64)]) -> String {
    format!("[{}]", v.iter().map(|(n, x)| format!("[{},{}]", js(n), x)).collect::<Vec<_>>().join(","))
}

fn main() {
    std::panic::set_hook(Box::new(|i| { eprintln!("engine panic: {}", i); std::process::exit(2) }));
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) };
    let ll = get("--ll").expect("--ll FILE");
    let out = get("--out");
    let threads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let num = |k: &str, d: f64| get(k).and_then(|s| s.parse::<f64>().ok()).unwrap_or(d);
    let opts = Opts {
        max_instr: num("--max-instr", 60e6) as u64,
        max_live: num("--max-live", 8e6) as usize,
        time_limit: num("--time", 600.0),
        samples: num("--samples", 8.0) as usize,
        z3_timeout: num("--z3-timeout", 20000.0) as u32,
        dump: get("--dump").map(|d| (d, num("--dump-every", 100.0) as u64)),
        cover: get("--cover").is_some(),
        first: a.iter().any(|x| x == "--first"),
    };
    let cover = get("--cover");
    let mut entries: Vec<(String, Vec<u64>)> = vec![];
    for (i, x) in a.iter().enumerate() {
        if x == "--entry" {
            let s = &a[i + 1];
            let (n, r) = s.split_once(':').unwrap_or((s, ""));
            entries.push((n.to_string(), r.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()));
        }
    }
    let t_load = std::time::Instant::now();
    let text: &'static str = Box::leak(std::fs::read_to_string(&ll).expect("read .ll").into_boxed_str());
    let m: &'static ir::Module = Box::leak(Box::new(ir::load_module(text)));
    let (prog, mg) = program(m);
    let load_s = t_load.elapsed().as_secs_f64();
    let n = entries.len();
    let mut init = vec![];
    for (i, (e, args)) in entries.iter().enumerate() {
        let Some(id) = m.fn_by_name.get(e) else { eprintln!("no entry {}", e); std::process::exit(2) };
        let f = m.func(*id).expect("entry has no body");
        init.push(Box::new(State::initial(i as u32, f, args, mg.clone())));
    }
    init.reverse();
    let sh = Shared {
        prog, opts, queue: Mutex::new((init, 0, false)), cv: Condvar::new(), hungry: AtomicU64::new(0), nworkers: threads,
        cache: (0..64).map(|_| Mutex::new(HashMap::new())).collect(),
        names: Default::default(), reach: Default::default(), reached: Mutex::new(vec![vec![]; n]), violations: Default::default(), vcount: Default::default(),
        samples: Mutex::new(vec![vec![]; n]), stats: Mutex::new(vec![Stats::default(); n]), errors: Default::default(),
        queries: AtomicU64::new(0), nanos: AtomicU64::new(0), hits: AtomicU64::new(0), unknowns: AtomicU64::new(0), stop: AtomicBool::new(false), t0: std::time::Instant::now(),
        cov: Default::default(),
    };
    std::thread::scope(|s| {
        for i in 0..threads {
            let sh = &sh;
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || Worker::new(sh, i).work()).unwrap();
        }
    });
    let wall = sh.t0.elapsed().as_secs_f64();
    let stats = sh.stats.lock().unwrap();
    let mut o = String::from("{\n");
    o.push_str(&format!(" \"wall_s\": {:.3}, \"load_s\": {:.3}, \"queries\": {}, \"cache_hits\": {}, \"solver_s\": {:.3}, \"unknowns\": {}, \"timed_out\": {}, \"z3\": {},\n",
        wall, load_s, sh.queries.load(Ordering::Relaxed), sh.hits.load(Ordering::Relaxed), sh.nanos.load(Ordering::Relaxed) as f64 / 1e9, sh.unknowns.load(Ordering::Relaxed), sh.stop.load(Ordering::Relaxed), js(&z3::version())));
    let reach = sh.reach.lock().unwrap();
    let reached = sh.reached.lock().unwrap();
    o.push_str(" \"entries\": [\n");
    for (i, (e, args)) in entries.iter().enumerate() {
        let s = &stats[i];
        let r: Vec<String> = reach.0.iter().enumerate().filter_map(|(k, n)| reached[i].get(k).filter(|c| **c > 0).map(|c| format!("{}: {}", js(n), c))).collect();
        o.push_str(&format!("  {{\"entry\": {}, \"args\": {:?}, \"paths\": {}, \"forks\": {}, \"instrs\": {}, \"max_instrs\": {}, \"infeasible\": {}, \"checks\": {}, \"lost\": {}, \"unfinished\": {}, \"reached\": {{{}}}}}{}\n",
            js(e), args, s.paths, s.forks, s.instrs, s.max_instrs, s.assumed, s.checks, s.lost, s.pruned, r.join(", "), if i + 1 < n { "," } else { "" }));
    }
    o.push_str(" ],\n \"violations\": [\n");
    let vs = sh.violations.lock().unwrap();
    let name = |i: u32| js(&entries[i as usize].0);
    o.push_str(&vs.iter().map(|v| format!("  {{\"entry\": {}, \"args\": {:?}, \"kind\": {}, \"msg\": {}, \"inputs\": {}, \"stack\": [{}]}}",
        name(v.entry), entries[v.entry as usize].1, js(&v.kind), js(&v.msg), inputs(&v.inputs), v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",\n"));
    o.push_str("\n ],\n \"vcount\": {");
    o.push_str(&sh.vcount.lock().unwrap().iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    o.push_str("},\n \"errors\": {");
    o.push_str(&sh.errors.lock().unwrap().iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    o.push_str("},\n \"samples\": [\n");
    let sm = sh.samples.lock().unwrap();
    o.push_str(&sm.iter().flatten().map(|s| format!("  {{\"entry\": {}, \"args\": {:?}, \"inputs\": {}, \"obs\": {:?}}}", name(s.entry), entries[s.entry as usize].1, inputs(&s.inputs), s.obs)).collect::<Vec<_>>().join(",\n"));
    o.push_str("\n ],\n \"functions\": [");
    let fns: Vec<String> = m.fns.iter().enumerate().filter(|(i, _)| sh.prog.touched[*i].load(Ordering::Relaxed)).map(|(_, f)| js(&f.name)).collect();
    o.push_str(&fns.join(","));
    o.push_str("]\n}\n");
    match out { Some(f) => std::fs::write(f, o).unwrap(), None => print!("{}", o) }
    if let Some(f) = cover {
        let mut s = String::new();
        for (id, v) in sh.cov.lock().unwrap().iter() {
            s.push_str(&format!("{} {}/{}\n", m.fns[*id as usize].name, v.iter().filter(|x| **x).count(), v.len()));
        }
        std::fs::write(f, s).unwrap();
    }
}
