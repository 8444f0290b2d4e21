mod exec;
mod expr;
mod ir;
mod smt;
use std::time::Instant;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let child = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    std::process::exit(child.join().unwrap_or(3));
}

fn real_main() -> i32 {
    let mut args = std::env::args().skip(1);
    let (mut ll, mut entry, mut fargs) = (String::new(), String::new(), vec![]);
    let mut cfg = exec::Cfg { max_time: 600.0, max_paths: u64::MAX, max_steps: 60_000_000, max_viol: 1, part: (0, 1), replay: None, verbose: false, enum_limit: 64 };
    let mut qto = 20000u32;
    let mut show_traces = false;
    while let Some(a) = args.next() {
        let mut v = || args.next().unwrap_or_default();
        match a.as_str() {
            "--ll" => ll = v(),
            "--entry" => entry = v(),
            "--arg" => fargs.push(v().parse::<u64>().unwrap()),
            "--max-time" => cfg.max_time = v().parse().unwrap(),
            "--max-paths" => cfg.max_paths = v().parse().unwrap(),
            "--max-steps" => cfg.max_steps = v().parse().unwrap(),
            "--max-viol" => cfg.max_viol = v().parse().unwrap(),
            "--query-timeout" => qto = v().parse().unwrap(),
            "--part" => {
                let s = v();
                let (a, b) = s.split_once('/').unwrap();
                cfg.part = (a.parse().unwrap(), b.parse().unwrap());
            }
            "--replay" => {
                let t = std::fs::read_to_string(v()).unwrap();
                cfg.replay = Some(t.lines().filter(|l| !l.starts_with('#')).filter_map(|l| l.split_whitespace().last().and_then(|x| x.parse().ok())).collect());
            }
            "--traces" => show_traces = true,
            "-v" => cfg.verbose = true,
            _ => {
                eprintln!("unknown option {a}");
                return 2;
            }
        }
    }
    let t0 = Instant::now();
    let text: &'static str = Box::leak(match std::fs::read_to_string(&ll) {
        Ok(t) => t.into_boxed_str(),
        Err(e) => {
            eprintln!("{ll}: {e}");
            return 2;
        }
    });
    let m = ir::Module::load(text);
    let smt = match smt::Smt::new(qto) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let load = t0.elapsed().as_secs_f64();
    let mut e = exec::Eng::new(m, smt, cfg);
    if let Err(x) = e.run(&entry, &fargs) {
        eprintln!("{x}");
        return 2;
    }
    let mut pr: Vec<_> = e.prof.iter().collect();
    pr.sort_by(|a, b| b.1 .1.total_cmp(&a.1 .1));
    for (k, v) in pr.iter().take(15) {
        eprintln!("{:7} {:8.3} {k}", v.0, v.1);
    }
    let mut o = String::from("{");
    o += &format!("\"entry\":{},\"args\":{:?},\"paths\":{},\"paths_panic_ok\":{},\"paths_infeasible\":{},\"paths_known\":{},\"forks\":{},\"instructions\":{},\"assertions\":{},\"byte_domain_decisions\":{},", js(&entry), fargs, e.paths, e.paths_panic_ok, e.paths_infeasible, e.paths_known, e.forks, e.steps, e.asserts, e.dom_decisions);
    o += &format!("\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"oneshot\":{},\"aux_queries\":{},\"solver_s\":{:.3},\"load_s\":{:.3},\"wall_s\":{:.3},\"solver\":{},", e.smt.queries, e.smt.q_sat, e.smt.q_unsat, e.smt.q_unknown, e.smt.oneshot, e.smt.aux_queries, e.smt.time, load, t0.elapsed().as_secs_f64(), js(&format!("z3 {}", e.smt.version)));
    let mut fnames: Vec<String> = e.used.iter().map(|f| exec::demangle(&e.m.fns[*f as usize].name)).filter(|n| !n.starts_with("core::") && !n.starts_with("alloc::") && !n.starts_with("std::")).collect();
    fnames.sort();
    fnames.dedup();
    o += &format!("\"functions_total\":{},\"functions\":[{}],", e.used.len(), fnames.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    o += &format!("\"incomplete\":{{{}}},", e.incomplete.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    o += &format!("\"witness\":{{{}}},", e.witness.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    o += &format!("\"known\":{{{}}},", e.known_hit.iter().map(|(k, v)| format!("{}:{}", js(k), js(v))).collect::<Vec<_>>().join(","));
    if show_traces {
        o += &format!("\"traces\":{:?},", e.traces);
    }
    o += &format!(
        "\"violations\":[{}]",
        e.viol
            .iter()
            .map(|v| format!("{{\"kind\":{},\"msg\":{},\"bt\":[{}],\"syms\":[{}]}}", js(&v.kind), js(&v.msg), v.bt.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), v.syms.iter().map(|(w, x)| format!("[{w},\"{x}\"]")).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(",")
    );
    o += "}";
    println!("{o}");
    if !e.viol.is_empty() {
        1
    } else {
        0
    }
}
