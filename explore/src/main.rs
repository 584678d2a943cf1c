mod auto;
mod catalog;
mod chooser;
mod gen;
mod infer;
mod interp;
mod lists;
mod par;
mod total;

use std::{
    sync::{mpsc, Arc, Mutex},
    time::{Duration, Instant},
};

use auto::{Stats, Verdict};

fn arg(name: &str) -> Option<String> {
    let mut it = std::env::args();
    while let Some(a) = it.next() {
        if a == name {
            return it.next();
        }
    }
    None
}

fn num(name: &str, d: usize) -> usize {
    arg(name).map_or(d, |s| s.parse().expect("number"))
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn tier() -> String {
    std::env::args().nth(2).unwrap_or_else(|| "quick".into())
}

fn profile(s: &str) -> gen::Profile {
    use gen::Profile::*;
    match s {
        "branch" => Branch,
        "loop" => Loop,
        "return" => Return,
        "try" => Try,
        "diverge" => Diverge,
        "nested" => Nested,
        "marker" => Marker,
        "multi" => Multi,
        "mix" => Mix,
        _ => panic!("profile {s}"),
    }
}

struct Shared {
    stats: Stats,
    violations: Vec<(String, String)>,
    nviol: u64,
    unsupported: Vec<(String, String)>,
}

/// one program has kept a worker busy for a minute
fn hang(p: &str) -> ! {
    println!(
        "{{\"profile\":\"?\",\"complete\":false,\"programs\":1,\"grammar_nodes\":0,\"grammar_edges\":0,\"executions\":0,\"transitions\":0,\"unsupported\":0,\"nviolations\":1,\"violations\":[{{\"program\":{},\"why\":\"the macro does not terminate\"}}],\"unsupported_samples\":[],\"samples\":[]}}",
        esc(p)
    );
    std::process::exit(0)
}

/// explore auto <profile> --fuel N --horizon N --secs N
fn auto_main() {
    let p = profile(&std::env::args().nth(2).unwrap());
    let fuel = num("--fuel", 2);
    let horizon = num("--horizon", 10);
    let secs = num("--secs", 600);
    let threads = num("--threads", 8);
    let t0 = Instant::now();
    let sh = Arc::new(Mutex::new(Shared {
        stats: Stats::default(),
        violations: vec![],
        nviol: 0,
        unsupported: vec![],
    }));
    let (tx, rx) = mpsc::sync_channel::<Vec<gen::Program>>(64);
    let rx = Arc::new(Mutex::new(rx));
    let mut hs = vec![];
    let log = arg("--log").is_some();
    let mut curs = vec![];
    for _ in 0..threads {
        let (rx, sh) = (rx.clone(), sh.clone());
        let cur: Arc<Mutex<Option<(Instant, String)>>> = Arc::default();
        curs.push(cur.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || loop {
                    let batch = rx.lock().unwrap().recv();
                    let Ok(batch) = batch else { break };
                    let mut st = Stats::default();
                    let mut viol = vec![];
                    let mut uns = vec![];
                    for p in &batch {
                        if log {
                            eprintln!("PROGRAM {}", p.src);
                        }
                        *cur.lock().unwrap() = Some((Instant::now(), p.src.clone()));
                        match auto::check_program(p, horizon, &mut st) {
                            Verdict::Ok => {}
                            Verdict::Unsupported(m) => uns.push((p.src.clone(), m)),
                            Verdict::Violation(m) => viol.push((p.src.clone(), m)),
                        }
                    }
                    *cur.lock().unwrap() = None;
                    let mut s = sh.lock().unwrap();
                    s.stats.add(&st);
                    s.nviol += viol.len() as u64;
                    s.violations.extend(viol);
                    s.violations.sort_by_key(|v| (v.0.len(), v.0.clone()));
                    s.violations.truncate(20);
                    s.unsupported.extend(uns);
                    s.unsupported.truncate(20);
                })
                .unwrap(),
        );
    }
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        for c in &curs {
            if let Some((t, p)) = &*c.lock().unwrap() {
                if t.elapsed() > Duration::from_secs(60) {
                    hang(p);
                }
            }
        }
    });
    let mut ch = chooser::Chooser::default();
    let mut batch = vec![];
    let mut derivations = 0u64;
    let mut complete = true;
    let mut samples: Vec<String> = vec![];
    loop {
        if let Some(pr) = gen::generate(&mut ch, p, fuel) {
            derivations += 1;
            if samples.len() < 3 && derivations % 1013 == 11 {
                samples.push(pr.src.clone());
            }
            batch.push(pr);
            if batch.len() == 64 {
                tx.send(std::mem::take(&mut batch)).unwrap();
                if t0.elapsed() > Duration::from_secs(secs as u64) {
                    complete = false;
                    break;
                }
            }
        }
        if !ch.advance() {
            break;
        }
    }
    if samples.is_empty() {
        if let Some(p) = batch.first() {
            samples.push(p.src.clone());
        }
    }
    tx.send(batch).unwrap();
    drop(tx);
    for h in hs {
        h.join().unwrap();
    }
    let s = sh.lock().unwrap();
    let list = |v: &[(String, String)]| {
        v.iter()
            .map(|(a, b)| format!("{{\"program\":{},\"why\":{}}}", esc(a), esc(b)))
            .collect::<Vec<_>>()
            .join(",")
    };
    println!(
        "{{\"profile\":{},\"fuel\":{fuel},\"horizon\":{horizon},\"complete\":{complete},\"programs\":{},\"grammar_nodes\":{},\"grammar_edges\":{},\"executions\":{},\"transitions\":{},\"rejected\":{},\"variants\":{},\"horizon_programs\":{},\"unsupported\":{},\"nviolations\":{},\"violations\":[{}],\"unsupported_samples\":[{}],\"samples\":[{}],\"secs\":{:.2}}}",
        esc(&std::env::args().nth(2).unwrap()),
        s.stats.programs,
        ch.nodes,
        ch.edges,
        s.stats.executions,
        s.stats.transitions,
        s.stats.rejected,
        s.stats.variants,
        s.stats.horizon,
        s.stats.unsupported.max(s.unsupported.len() as u64),
        s.nviol,
        list(&s.violations),
        list(&s.unsupported),
        samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64()
    );
}

/// explore emit <profile> --fuel N --horizon N --shards N --out DIR [--max N]
///
/// Writes the accepted programs as Rust modules (annotations in place, for rustc with the real
/// proc macro) and, next to them, every execution of the model (the un-annotated program).
fn emit_main() {
    use std::fmt::Write as _;
    let p = profile(&std::env::args().nth(2).unwrap());
    let (fuel, horizon, per) = (num("--fuel", 1), num("--horizon", 10), num("--per", 700));
    let max = num("--max", usize::MAX);
    let out = std::path::PathBuf::from(arg("--out").unwrap());
    let mut ch = chooser::Chooser::default();
    let mut v: Vec<(String, String, usize)> = vec![];
    // first pass: how many shards (at least 8, so that all cores work)
    let mut total = 0usize;
    let mut count = chooser::Chooser::default();
    loop {
        total += gen::generate(&mut count, p, fuel).is_some() as usize;
        if !count.advance() {
            break;
        }
    }
    let shards = (total.min(max) / per + 1).max(8);
    v.resize(shards, Default::default());
    let (mut n, mut paths) = (0usize, 0usize);
    let mut seen = std::collections::HashSet::new();
    loop {
        if let Some(pr) = gen::generate(&mut ch, p, fuel) {
            if !pr.reject && seen.insert(pr.src.clone()) {
                if let Some(ps) = auto::model_paths(&pr, horizon) {
                    let (src, exp, k) = &mut v[n % shards];
                    writeln!(src, "mod p{k} {{ use super::*; {} pub fn go() {{ main_() }} }}", pr.src.replace('\n', " ")).unwrap();
                    for (path, outcome, trace) in ps {
                        let path: Vec<String> = path.iter().map(|x| x.to_string()).collect();
                        writeln!(exp, "{k}\t{}\t{outcome}\t{}", path.join(","), trace.join(" ")).unwrap();
                        paths += 1;
                    }
                    *k += 1;
                    n += 1;
                }
            }
        }
        if n >= max || !ch.advance() {
            break;
        }
    }
    for (i, (src, exp, k)) in v.iter().enumerate() {
        let mut s = String::from("#![allow(warnings)]\n#![feature(stmt_expr_attributes, proc_macro_hygiene)]\nuse auto_enums::{auto_enum, enum_derive}; use rt::*; use core::fmt::Debug;\n");
        s.push_str(src);
        s.push_str("static TABLE: &[fn()] = &[");
        for j in 0..*k {
            write!(s, "p{j}::go,").unwrap();
        }
        s.push_str("];\nfn main() { rt::main_with(TABLE) }\n");
        std::fs::write(out.join(format!("s{i}.rs")), s).unwrap();
        std::fs::write(out.join(format!("s{i}.exp")), exp).unwrap();
    }
    println!("{{\"programs\":{n},\"paths\":{paths},\"shards\":{shards}}}");
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    match std::env::args().nth(1).as_deref() {
        Some("auto") => auto_main(),
        Some("emit") => emit_main(),
        Some("c21") => lists::c21(&tier(), num("--secs", 600) as u64),
        Some("c09") => total::c09(&tier(), num("--secs", 600) as u64),
        Some("c10") => infer::c10(&tier(), num("--secs", 600) as u64),
        Some("c24") => lists::c24(&tier(), num("--secs", 600) as u64),
        Some("shapes") => lists::shapes(&tier(), num("--secs", 600) as u64),
        Some("transpose") => lists::transpose_rejects(&tier(), num("--secs", 600) as u64),
        Some("classify") => lists::classify(),
        Some("leaks") => lists::leaks(&tier(), num("--secs", 600) as u64),
        Some("catalog") => lists::catalog_json(),
        _ => {
            eprintln!("usage: explore auto <profile> --fuel N --horizon N");
            std::process::exit(2);
        }
    }
}
