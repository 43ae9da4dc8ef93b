#![allow(non_camel_case_types, dead_code)]
mod world;
mod order;
mod ops;
mod risk;
mod reqs;
mod auth;
mod tokens;
mod boxes;
mod codes;
mod views;
mod cfgs;
mod feeds;
mod extra;
mod side;
mod evts;
mod props;

use num_bigint::BigInt;
use scrypto::explore::{explore, replay, Cex, Cfg, Report};
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as usize) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"');
    o
}
fn jmap<'a, K: AsRef<str> + 'a, V: std::fmt::Display + 'a>(m: impl Iterator<Item = (&'a K, &'a V)>) -> String { format!("{{{}}}", m.map(|(k, v)| format!("{}:{}", js(k.as_ref()), v)).collect::<Vec<_>>().join(",")) }
fn jarr<'a, S: AsRef<str> + 'a>(m: impl Iterator<Item = &'a S>) -> String { format!("[{}]", m.map(|x| js(x.as_ref())).collect::<Vec<_>>().join(",")) }
fn jcex(sc: &str, c: &Cex) -> String {
    format!("{{\"scenario\":{},\"label\":{},\"detail\":{},\"assign\":{{{}}},\"choices\":[{}],\"notes\":{}}}", js(sc), js(&c.label), js(&c.detail.chars().take(1500).collect::<String>()),
        c.assign.iter().map(|(k, v)| format!("{}:{}", js(k), js(&v.to_string()))).collect::<Vec<_>>().join(","),
        c.choices.iter().map(|(k, v)| format!("[{},{}]", js(k), v)).collect::<Vec<_>>().join(","), jarr(c.notes.iter()))
}
fn jrep(r: &Report) -> String {
    let cx = |v: &Vec<Cex>| format!("[{}]", v.iter().map(|c| jcex(&r.name, c)).collect::<Vec<_>>().join(","));
    format!("{{\"name\":{},\"paths\":{},\"aborted\":{},\"checks\":{},\"covers\":{},\"violations\":{},\"undecided\":{},\"undecided_cex\":{},\"by_level\":{},\"funcs\":{},\"errors\":{},\"unexplored\":{},\"queries\":{},\"solver_ms\":{},\"ms\":{},\"bounds\":{},\"abort_msgs\":{},\"forks\":{},\"validated\":{},\"mismatches\":{},\"samples\":{},\"branches\":{}}}",
        js(&r.name), r.paths, r.aborted, jmap(r.checks.iter()), jmap(r.covers.iter()), cx(&r.violations), jmap(r.undecided.iter()), cx(&r.undecided_cex), jmap(r.by_level.iter()), jarr(r.funcs.iter()), jarr(r.errors.iter()),
        r.unexplored, r.queries, r.solver_ms, r.ms, jmap(r.bounds.iter().map(|(k, v)| (k, js(v))).collect::<BTreeMap<_, _>>().iter().map(|(k, v)| (*k, v))), jmap(r.abort_msgs.iter()), jmap(r.forks.iter()), r.validated, cx(&r.mismatches), cx(&r.samples), r.branches)
}

fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let prop = a.get(2).cloned().unwrap_or_default();
    world::PROP.set(prop.clone()).ok();
    let known: HashSet<String> = arg(&a, "--known").map(|f| std::fs::read_to_string(f).unwrap_or_default().lines().map(|s| s.to_string()).collect()).unwrap_or_default();
    let secs: f64 = arg(&a, "--time").and_then(|x| x.parse().ok()).unwrap_or(60.0);
    let threads: usize = arg(&a, "--threads").and_then(|x| x.parse().ok()).unwrap_or(8);
    let only = arg(&a, "--only");
    let thorough = a.iter().any(|x| x == "--thorough");
    world::THOROUGH.store(thorough, std::sync::atomic::Ordering::Relaxed);
    match cmd {
        "scenarios" => { for s in props::scenarios(&prop) { println!("{}", s.name); } }
        "list" => { for p in props::PROPS { println!("{}", p); } }
        "run" => {
            let scs: Vec<_> = props::scenarios(&prop).into_iter().filter(|s| only.as_ref().map_or(true, |o| match o.strip_prefix('=') { Some(n) => s.name == n, None => s.name.contains(o.as_str()) })).collect();
            let t0 = Instant::now();
            let total: f64 = scs.iter().map(|s| s.weight).sum();
            let mut left = total;
            let mut out = vec![];
            for s in &scs {
                // the budget that a scenario does not use goes to the next ones
                let remain = secs - t0.elapsed().as_secs_f64();
                let budget = (remain * s.weight / left).max(2.0);
                left -= s.weight;
                let base = Cfg { name: s.name.to_string(), threads, time: Duration::from_secs_f64(budget), max_paths: 10_000_000, branch_ms: 400, check_ms: if thorough { 20_000 } else { 3000 }, profile: None, max_violations: 1, known: known.clone(), validate: if thorough { 40 } else { 6 } };
                let mut r = explore(&base, &*s.f);
                // obligations the solver could not decide in general: decide them for pinned scale factors
                let mut pinned = vec![];
                if !r.undecided.is_empty() && r.violations.is_empty() {
                    for k in 0..3 {
                        let c = Cfg { profile: Some(k), time: Duration::from_secs_f64((budget / 3.0).max(3.0)), ..base.clone() };
                        let p = explore(&c, &*s.f);
                        let bad = !p.violations.is_empty();
                        r.violations.extend(p.violations.iter().cloned());
                        pinned.push(p);
                        if bad { break; }
                    }
                }
                let fresh = r.violations.iter().any(|v| !known.contains(&v.label));
                println!("{:24} paths {} (aborted {}, unexplored {}) checks {} undecided {:?} violations {:?} errors {} levels {:?} queries {} validated {} mismatch {} {} ms", r.name, r.paths, r.aborted, r.unexplored,
                    r.checks.values().sum::<u64>(), r.undecided, r.violations.iter().map(|v| v.label.clone()).collect::<Vec<_>>(), r.errors.len(), r.by_level, r.queries, r.validated, r.mismatches.len(), r.ms);
                let missing: Vec<&str> = s.covers.iter().filter(|c| !r.covers.contains_key(**c)).cloned().collect();
                if a.iter().any(|x| x == "-v") {
                    for (m, n) in &r.abort_msgs { println!("    abort {:5} {}", n, m); }
                    println!("    covers {:?}", r.covers);
                    println!("    labels {:?}", r.checks);
                    for e in &r.errors { println!("    error {}", e); }
                    for c in r.violations.iter().chain(r.undecided_cex.iter().take(3)).chain(r.mismatches.iter()) { println!("    {} {}", c.label, jcex(&r.name, c)); }
                    let mut f: Vec<_> = r.forks.iter().collect(); f.sort_by_key(|x| std::cmp::Reverse(*x.1));
                    for (k, n) in f.iter().take(12) { println!("    fork {:6} {}", n, k); }
                }
                out.push(format!("{{\"report\":{},\"pinned\":[{}],\"missing\":{}}}", jrep(&r), pinned.iter().map(jrep).collect::<Vec<_>>().join(","), jarr(missing.iter())));
                if fresh { break; }
            }
            if let Some(f) = arg(&a, "--out") { std::fs::write(f, format!("[{}]", out.join(",\n"))).unwrap(); }
        }
        "replay" => {
            // one concrete case: lines `scenario NAME`, `assign NAME VALUE`, `choice NAME K`
            let t = std::fs::read_to_string(&a[3]).unwrap();
            let (mut sc, mut c) = (String::new(), Cex::default());
            for l in t.lines() {
                let w: Vec<&str> = l.split('\t').collect();
                match w[0] {
                    "scenario" => sc = w[1].to_string(),
                    "assign" => { c.assign.insert(w[1].to_string(), w[2].parse::<BigInt>().unwrap()); }
                    "choice" => c.choices.push((w[1].to_string(), w[2].parse().unwrap())),
                    _ => {}
                }
            }
            let s = props::scenarios(&prop).into_iter().find(|s| s.name == sc).expect("scenario");
            let cfg = Cfg { name: sc, threads: 1, time: Duration::from_secs(60), max_paths: 1, branch_ms: 0, check_ms: 0, profile: None, max_violations: 1, known, validate: 0 };
            let (fails, err, covers) = replay(&cfg, &*s.f, &c);
            println!("reached {:?} error {:?}", covers, err);
            for f in &fails { println!("FAILED {} {} {:?}", f.label, f.detail, f.notes); }
            std::process::exit(if fails.is_empty() { 0 } else { 1 });
        }
        _ => { eprintln!("usage: harness run|replay|list PROP ..."); std::process::exit(2); }
    }
}
