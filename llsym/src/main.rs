mod close;
mod exec;
mod expr;
mod lin;
mod ll;
mod mem;
mod selftest;
mod solver;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    if let Some(n) = get("--selftest") {
        selftest::run(n.parse().unwrap());
    }
    let ll = args[1].clone();
    let h = get("--harness").expect("--harness");
    let tl: u64 = get("--time").map(|x| x.parse().unwrap()).unwrap_or(600);
    let hard: u64 = get("--hard").map(|x| x.parse().unwrap()).unwrap_or(120);
    let out = get("--out");
    let trace = args.iter().any(|a| a == "--trace");
    let prof = args.iter().any(|a| a == "--prof");
    let params: Vec<u64> = get("--params")
        .map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect())
        .unwrap_or_default();
    let t = std::thread::Builder::new().stack_size(2 << 30).spawn(move || {
        let t0 = Instant::now();
        let text: &'static [u8] = Box::leak(std::fs::read(&ll).expect("read ll").into_boxed_slice());
        let m = ll::Module::index(text);
        let Some(fid) = m.fn_ids.get(&h).copied() else {
            eprintln!("no such harness {}", h);
            std::process::exit(2);
        };
        let mut ex = exec::Exec::new(m);
        ex.trace = trace;
        ex.params = params;
        ex.deadline = t0 + Duration::from_secs(tl);
        ex.solver.hard_s = hard;
        ex.run(fid);
        let s = &ex.solver.stats;
        let mut o = String::from("{\n");
        let _ = writeln!(o, " \"harness\": {},", esc(&h));
        let _ = writeln!(o, " \"params\": {:?},", ex.params);
        let status = if !ex.violations.is_empty() {
            "violation"
        } else if !ex.errors.is_empty() {
            "incomplete"
        } else {
            "ok"
        };
        let _ = writeln!(o, " \"status\": \"{}\",", status);
        let _ = writeln!(
            o,
            " \"paths\": {}, \"killed\": {}, \"forks\": {}, \"steps\": {}, \"allowed_panics\": {},",
            ex.paths, ex.killed, ex.forks, ex.steps, ex.panics_ok
        );
        let _ = writeln!(
            o,
            " \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"portfolio\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3}, \"wall_s\": {:.3},",
            s.queries, s.sat, s.unsat, s.unknown, s.portfolio, s.time, s.max, t0.elapsed().as_secs_f64()
        );
        let _ = writeln!(o, " \"nodes\": {}, \"inputs\": {}, \"cache_hits\": {}, \"byte_queries\": {},", ex.c.nodes.len(), ex.c.vars.len(), ex.cache_hits, ex.byte_queries);
        let _ = write!(o, " \"checks\": {{");
        for (i, (k, v)) in ex.checks.iter().enumerate() {
            let _ = write!(
                o,
                "{}{}: {{\"reached\": {}, \"solver\": {}, \"folded\": {}}}",
                if i > 0 { ", " } else { "" },
                esc(k),
                v.reached,
                v.solver,
                v.trivial
            );
        }
        let _ = writeln!(o, "}},");
        let inp = |v: &Vec<(String, u16, u128)>| -> String {
            v.iter().map(|(n, w, x)| format!("[{},{},\"{:x}\"]", esc(n), w, x)).collect::<Vec<_>>().join(",")
        };
        let _ = write!(o, " \"witnesses\": {{");
        for (i, (k, v)) in ex.witnesses.iter().enumerate() {
            let _ = write!(o, "{}{}: [{}]", if i > 0 { ", " } else { "" }, esc(k), inp(v));
        }
        let _ = writeln!(o, "}},");
        let _ = write!(o, " \"violations\": [");
        for (i, v) in ex.violations.iter().enumerate() {
            let _ = write!(
                o,
                "{}{{\"label\": {}, \"kind\": {}, \"detail\": {}, \"inputs\": [{}]}}",
                if i > 0 { ",\n  " } else { "" },
                esc(&v.label),
                esc(&v.kind),
                esc(&v.detail),
                inp(&v.inputs)
            );
        }
        let _ = writeln!(o, "],");
        let _ = write!(o, " \"errors\": {{");
        for (i, (k, v)) in ex.errors.iter().enumerate() {
            let _ = write!(o, "{}{}: {}", if i > 0 { ", " } else { "" }, esc(k), v);
        }
        let _ = writeln!(o, "}},");
        let _ = write!(o, " \"functions\": [");
        for (i, k) in ex.seen_fns.iter().enumerate() {
            let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, esc(k));
        }
        let _ = writeln!(o, "]\n}}");
        if prof {
            let mut v: Vec<_> = ex.forkprof.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for ((f, b), n) in v.iter().take(25) {
                eprintln!("fork {:8} {} blk {}", n, ex.m.fns[*f as usize].name, ex.funcs[f].blocks[*b as usize].name);
            }
            let mut v: Vec<_> = ex.prof.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (f, n) in v.iter().take(25) {
                eprintln!("call {:8} {}", n, ex.m.fns[**f as usize].name);
            }
        }
        match out {
            Some(p) => std::fs::write(p, o).unwrap(),
            None => println!("{}", o),
        }
    });
    t.unwrap().join().unwrap();
}
