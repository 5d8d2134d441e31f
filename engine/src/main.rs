mod exec;
mod expr;
mod ll;
mod z3;

use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn pairs(v: &[(String, u128)]) -> String {
    let mut o = String::from("[");
    for (i, (k, x)) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "[{},\"{}\"]", js(k), x);
    }
    o + "]"
}
fn counts<'a, I: Iterator<Item = (&'a String, u64)>>(it: I) -> String {
    let mut o = String::from("{");
    for (i, (k, v)) in it.enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{}:{}", js(k), v);
    }
    o + "}"
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut o = exec::Opts {
        max_steps: 20_000_000,
        max_paths: 5_000_000,
        time_limit: 600.0,
        seed: 1,
        traces: 3,
        params: vec![],
        src_prefix: "/repo/src".into(),
        verbose: false,
        audit: 24,
        max_viol_per_label: 2,
    };
    let mut file = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut zt = 20000;
    let mut i = 1;
    while i < args.len() {
        let nx = || args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--entry" => entry = nx(),
            "--out" => out = nx(),
            "--steps" => o.max_steps = nx().parse().unwrap(),
            "--paths" => o.max_paths = nx().parse().unwrap(),
            "--time" => o.time_limit = nx().parse().unwrap(),
            "--seed" => o.seed = nx().parse().unwrap(),
            "--audit" => o.audit = nx().parse().unwrap(),
            "--traces" => o.traces = nx().parse().unwrap(),
            "--src" => o.src_prefix = nx(),
            "--z3-timeout" => zt = nx().parse().unwrap(),
            "--params" => o.params = nx().split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<i64>().map(|v| v as u64).unwrap_or_else(|_| x.parse().unwrap())).collect(),
            "-v" => {
                o.verbose = true;
                i += 1;
                continue;
            }
            f => {
                file = f.to_string();
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    let t0 = std::time::Instant::now();
    let src = match std::fs::read_to_string(&file) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 3;
        }
    };
    let m = ll::parse(&src);
    drop(src);
    let parse = t0.elapsed().as_secs_f64();
    let nfun = m.funcs.len();
    let mut e = exec::Eng::new(m, o, zt);
    let t1 = std::time::Instant::now();
    e.run(&entry);
    e.audit();
    let wall = t1.elapsed().as_secs_f64();
    let s = &e.st;
    let mut r = String::from("{");
    let _ = write!(r, "\"entry\":{},\"complete\":{},", js(&entry), e.incomplete.is_empty());
    let _ = write!(r, "\"incomplete\":{},", counts(e.incomplete.iter().map(|(k, v)| (k, *v))));
    let _ = write!(r, "\"paths\":{},\"infeasible\":{},\"branches\":{},\"forks\":{},\"steps\":{},", s.paths, s.infeasible, s.branches, s.forks, s.steps);
    let _ = write!(r, "\"q_sat\":{},\"q_unsat\":{},\"q_unknown\":{},\"q_cached\":{},\"q_fallback\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},", s.q_sat, s.q_unsat, s.q_unknown, s.q_cached, s.q_fallback, s.solver.as_secs_f64(), s.max_query.as_secs_f64());
    let _ = write!(r, "\"checks\":{},\"checks_symbolic\":{},\"wall_s\":{:.3},\"parse_s\":{:.3},\"module_functions\":{},\"exprs\":{},\"solver\":{},", s.checks, s.checks_symbolic, wall, parse, nfun, e.ex.nodes.len(), js(&e.z3_version()));
    let _ = write!(r, "\"audited\":{},", e.audited.0);
    let _ = write!(r, "\"reached\":{},", counts(e.reached.iter().map(|(k, v)| (k, *v))));
    let _ = write!(r, "\"checked\":{},", counts(e.checked.iter().map(|(k, v)| (k, *v))));
    let _ = write!(r, "\"violation_counts\":{},", counts(e.vcount.iter().map(|(k, v)| (k, *v))));
    r += "\"violations\":[";
    for (i, v) in e.violations.iter().enumerate() {
        if i > 0 {
            r.push(',');
        }
        let _ = write!(r, "{{\"label\":{},\"at\":{},\"inputs\":{},\"obs\":{}}}", js(&v.label), js(&v.at), pairs(&v.inputs), pairs(&v.obs));
    }
    r += "],\"traces\":[";
    for (i, (a, b)) in e.traces.iter().enumerate() {
        if i > 0 {
            r.push(',');
        }
        let _ = write!(r, "{{\"inputs\":{},\"obs\":{}}}", pairs(a), pairs(b));
    }
    let (fns, lines) = e.coverage();
    let _ = write!(r, "],\"functions\":{},\"lines\":{}}}\n", counts(fns.iter().map(|(k, v)| (k, *v as u64))), lines);
    if out.is_empty() {
        print!("{}", r);
    } else if std::fs::write(&out, r).is_err() {
        return 3;
    }
    0
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let rc = h.join().unwrap_or(3);
    std::process::exit(rc);
}
