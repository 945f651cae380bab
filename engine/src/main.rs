//! vsym MODULE.ll ENTRY [options]: run ENTRY symbolically and report as JSON.
mod exec;
mod expr;
mod ir;
mod solver;
use exec::*;
use std::collections::BTreeSet;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: f64| -> f64 {
        a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).and_then(|x| x.parse().ok()).unwrap_or(d)
    };
    let opts = Opts {
        max_secs: opt("--secs", 600.0),
        max_steps: opt("--steps", 2e9) as u64,
        shard: opt("--shard", 0.0) as u64,
        shards: opt("--shards", 1.0) as u64,
        shard_depth: opt("--shard-depth", 7.0) as u32,
        max_findings: opt("--findings", 8.0) as usize,
        trace: false,
    };
    let t0 = std::time::Instant::now();
    // deep terms recurse
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let m = match ir::Module::load(&a[1]) {
                Ok(m) => m,
                Err(e) => {
                    println!("{{\"error\": {}}}", esc(&e));
                    return;
                }
            };
            let mut x = Exec::new(m, opts);
            if let Err(e) = x.run(&a[2]) {
                println!("{{\"error\": {}}}", esc(&e));
                return;
            }
            let mut fns = BTreeSet::new();
            for (i, r) in x.ran.iter().enumerate() {
                if *r {
                    fns.insert(x.m.funcs[i].name.clone());
                }
            }
            let fs: Vec<String> = x
                .findings
                .values()
                .map(|f| {
                    format!(
                        "{{\"kind\": {}, \"id\": {}, \"what\": {}, \"inputs\": [{}], \"alts\": [{}], \"stack\": [{}], \"notes\": [{}]}}",
                        esc(&f.kind),
                        f.id,
                        esc(&f.what),
                        f.inputs.iter().map(|(w, v)| format!("[{}, {}]", w, v)).collect::<Vec<_>>().join(", "),
                        f.alts.iter().map(|i| format!("{:?}", i)).collect::<Vec<_>>().join(", "),
                        f.stack.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
                        f.notes.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")
                    )
                })
                .collect();
            println!(
                "{{\"complete\": {}, \"giveup\": {}, \"paths\": {}, \"pruned\": {}, \"forks\": {}, \"steps\": {}, \"longest\": {}, \"queries\": {}, \"cache_hits\": {}, \"unsat\": {}, \"core_hits\": {}, \"models_built\": {}, \"solver_s\": {:.3}, \"wall_s\": {:.3}, \"terms\": {}, \"inputs\": {}, \"symbolic\": {}, \"covers\": {{{}}}, \"checks\": {{{}}}, \"finding_paths\": {}, \"findings\": [{}], \"samples\": [{}], \"functions\": [{}]}}",
                x.giveup.is_none(),
                x.giveup.as_ref().map_or("null".into(), |s| esc(s)),
                x.paths,
                x.killed,
                x.forks,
                x.steps,
                x.longest,
                x.s.queries,
                x.s.hits,
                x.s.unsat,
                x.s.core_hits,
                x.s.built,
                x.s.secs,
                t0.elapsed().as_secs_f64(),
                x.p.n.len(),
                x.max_inputs,
                x.max_vars,
                x.covers.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", "),
                x.checks.iter().map(|(k, v)| format!("\"{}\": [{}, {}]", k, v.0, v.1)).collect::<Vec<_>>().join(", "),
                x.finding_paths,
                fs.join(", "),
                x.samples.iter().map(|s| format!("[{}]", s.iter().map(|(_, v)| v.to_string()).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(", "),
                fns.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")
            );
        })
        .unwrap();
    if h.join().is_err() {
        println!("{{\"error\": \"the engine stopped\"}}");
    }
}
