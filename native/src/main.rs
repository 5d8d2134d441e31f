//! Replays recorded inputs against the real code.
//! stdin: lines `J <harness> <params,>`; `I <name> <value>`...; `E` ends a job.
//! stdout per job: one line: RESULT and JSON {"failed":[..],"panic":null|"..","panic_label":"..","diverged":null|"..","obs":[[n,"v"],..]}
use ksymh::api::be::{Ctx, Diverged, C};
use std::io::{BufRead, Write};

fn js(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
fn main() {
    let table = ksymh::table();
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut cur: Option<(String, Ctx)> = None;
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut it = line.splitn(3, ' ');
        match it.next() {
            Some("J") => {
                let h = it.next().unwrap().to_string();
                let p = it.next().unwrap_or("").split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<i128>().unwrap() as u64).collect();
                cur = Some((h, Ctx { params: p, ..Default::default() }));
            }
            Some("I") => {
                let (n, v) = line[2..].rsplit_once(' ').unwrap();
                let (n, v) = (n.to_string(), v.parse::<u64>().unwrap());
                cur.as_mut().unwrap().1.inputs.push((n, v));
            }
            Some("E") => {
                let (h, c) = cur.take().unwrap();
                let f = table.iter().find(|x| x.0 == h).map(|x| x.1);
                let out = match f {
                    None => format!("{{\"error\":{}}}", js(&format!("no harness {}", h))),
                    Some(f) => run(f, c),
                };
                let so = std::io::stdout();
                let mut so = so.lock();
                writeln!(so, "\nRESULT {}", out).unwrap();
                so.flush().unwrap();
            }
            _ => {}
        }
    }
}
fn run(f: fn(), c: Ctx) -> String {
    // a fresh thread per job: thread-local state does not leak between jobs
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            C.with(|x| *x.borrow_mut() = c);
            let r = std::panic::catch_unwind(f);
            let (mut p, mut d) = (None, None);
            if let Err(e) = r {
                if let Some(x) = e.downcast_ref::<Diverged>() {
                    d = Some(x.0.clone());
                } else if let Some(x) = e.downcast_ref::<String>() {
                    p = Some(x.clone());
                } else if let Some(x) = e.downcast_ref::<&str>() {
                    p = Some(x.to_string());
                } else {
                    p = Some("panic".into());
                }
            }
            C.with(|c| {
                let c = c.borrow();
                let o = |x: &Option<String>| x.as_ref().map(|s| js(s)).unwrap_or("null".into());
                format!(
                    "{{\"failed\":[{}],\"panic\":{},\"panic_label\":{},\"ctx\":{},\"diverged\":{},\"obs\":[{}]}}",
                    c.failed.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
                    o(&p),
                    js(&c.panic_label),
                    js(&c.ctx),
                    o(&d),
                    c.obs.iter().map(|(n, v)| format!("[{},\"{}\"]", js(n), v)).collect::<Vec<_>>().join(",")
                )
            })
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| "{\"error\":\"thread died\"}".into())
}
