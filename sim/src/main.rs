//! octsim: deterministic simulation of an Octane server. See /verif/DESIGN.md.
#![allow(static_mut_refs, clippy::all)]
#![allow(invalid_runtime_symbol_definitions)]
mod alloc;
mod app;
mod gen;
mod hooks;
mod kernel;
mod model;
mod oracle;
mod plan;
mod pool;
mod rng;
mod shrink;
mod sys;
mod tlsclient;

use plan::Plan;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn opt<'a>(a: &'a [String], k: &str) -> Option<&'a str> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|s| s.as_str())
}
fn num(a: &[String], k: &str, d: u64) -> u64 {
    opt(a, k).and_then(|s| s.parse().ok()).unwrap_or(d)
}

pub fn seed_of(base: u64, family: &str, i: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in family.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    rng::mix(rng::mix(base, h), i)
}

/// a violation concerns `prop` (empty: any property)
pub fn hits<'a>(r: &'a Value, prop: &str) -> Option<&'a Value> {
    r["viol"].as_array()?.iter().find(|v| prop.is_empty() || v["props"].as_array().map_or(false, |p| p.iter().any(|x| x == prop)))
}

fn add(m: &mut BTreeMap<String, u64>, v: &Value) {
    if let Some(o) = v.as_object() {
        for (k, n) in o {
            *m.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
        }
    }
}

fn cmd_run(a: &[String]) -> i32 {
    let fams: Vec<(String, u32)> = opt(a, "--families")
        .unwrap_or("segment")
        .split(',')
        .map(|s| match s.split_once(':') {
            Some((f, w)) => (f.to_string(), w.parse().unwrap_or(1)),
            None => (s.to_string(), 1),
        })
        .collect();
    let base = num(a, "--seed", 1);
    let max = num(a, "--count", u64::MAX);
    let from = num(a, "--from", 0);
    let secs = num(a, "--time", 30);
    let jobs = num(a, "--jobs", 8) as usize;
    let prop = opt(a, "--prop").unwrap_or("").to_string();
    let all = a.iter().any(|x| x == "--all");
    let work = opt(a, "--work").expect("--work");
    let out = opt(a, "--out");
    let t0 = Instant::now();
    let end = t0 + Duration::from_secs(secs);
    let order: Vec<&str> = fams.iter().flat_map(|(f, w)| (0..*w).map(move |_| f.as_str())).collect();
    let mut idx: BTreeMap<&str, u64> = fams.iter().map(|(f, _)| (f.as_str(), from)).collect();

    let mut runs = 0u64;
    let (mut sim_ns, mut steps, mut switches, mut preempts, mut calls, mut served, mut clients, mut bi, mut bo) =
        (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut hashes: HashSet<String> = HashSet::new();
    let mut nontrivial: HashSet<String> = HashSet::new();
    let mut edges: BTreeSet<u64> = BTreeSet::new();
    let mut n_edges = 0;
    let (mut faults, mut probes, mut classes, mut per, mut other) =
        (BTreeMap::new(), BTreeMap::new(), BTreeMap::new(), BTreeMap::<String, u64>::new(), BTreeMap::<String, u64>::new());
    let mut samples: Vec<Value> = vec![];
    let mut found: Vec<(Plan, Value)> = vec![];
    let mut harness: Vec<String> = vec![];
    let mut bad_example: BTreeMap<String, Value> = BTreeMap::new();

    let mut redo: Vec<(Plan, Value)> = vec![];
    let mut pool = pool::Pool::new(work, jobs);
    let mut n = 0u64;
    loop {
        while pool.free() && n < max && Instant::now() < end && (found.is_empty() || all) {
            let f = order[(n as usize) % order.len()];
            let k = idx.get_mut(f).unwrap();
            let seed = seed_of(base, f, *k);
            *k += 1;
            n += 1;
            pool.start(gen::plan(f, seed), false, n);
        }
        let done = match pool.wait() {
            Some(d) => d,
            None => break,
        };
        runs += 1;
        let r = &done.result;
        *per.entry(done.plan.family.clone()).or_insert(0) += 1;
        if let Some(h) = r["harness"].as_str() {
            harness.push(format!("{} seed {}: {}", done.plan.family, done.plan.seed, h));
            continue;
        }
        let g = |k: &str| r[k].as_u64().unwrap_or(0);
        sim_ns += g("sim_ns");
        steps += g("steps");
        switches += g("switches");
        preempts += g("preempts");
        calls += g("calls");
        served += g("served");
        clients += g("clients");
        bi += g("bytes_in");
        bo += g("bytes_out");
        n_edges = n_edges.max(g("n_edges"));
        add(&mut faults, &r["faults"]);
        add(&mut probes, &r["probes"]);
        add(&mut classes, &r["classes"]);
        if let Some(e) = r["edges"].as_array() {
            edges.extend(e.iter().filter_map(|x| x.as_u64()));
        }
        let h = r["hash"].as_str().unwrap_or("").to_string();
        let nf: u64 = r["faults"].as_object().map_or(0, |o| o.values().filter_map(|x| x.as_u64()).sum());
        if (nf > 0 || g("preempts") > 0) && (g("calls") > 0 || g("served") > 0) {
            nontrivial.insert(h.clone());
        }
        hashes.insert(h);
        if redo.len() < 24 && done.tag % 5 == 0 && g("steps") < 400_000 {
            redo.push((done.plan.clone(), r["hash"].clone()));
        }
        if samples.len() < 4 && done.tag % 7 == 1 {
            samples.push(json!({"family": done.plan.family, "seed": done.plan.seed, "schedule_hash": r["hash"], "clients": r["clients"],
                "threads": done.plan.workers, "faults": r["faults"], "steps": r["steps"], "switches": r["switches"],
                "handler_calls": r["calls"], "simulated_ms": g("sim_ns") / 1_000_000,
                "requests": done.plan.clients.iter().take(3).map(|c| format!("{} {} cuts={} end={:?}", c.req.method, &c.req.target.chars().take(60).collect::<String>(), c.cuts.len(), c.end)).collect::<Vec<_>>()}));
        }
        if let Some(v) = r["viol"].as_array() {
            if hits(r, &prop).is_some() {
                found.push((done.plan.clone(), done.result.clone()));
            }
            for x in v {
                let t = format!("{}/{}", x["tag"].as_str().unwrap_or("?"), x["props"].as_array().map_or(String::new(), |p| p.iter().filter_map(|y| y.as_str()).collect::<Vec<_>>().join("+")));
                *other.entry(t.clone()).or_insert(0) += 1;
                bad_example.entry(t).or_insert_with(|| json!({"family": done.plan.family, "seed": done.plan.seed, "detail": x["detail"], "client": x["client"]}));
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let slowest = pool.slowest.clone();
    let result = |viols: Vec<Value>, unreproduced: i32, again: usize, redo_bad: i32| {
        json!({
        "config": gen::config(), "families": per, "seed": base, "runs": runs, "wall_s": wall, "slowest_ms": slowest.0, "slowest_run": slowest.1, "sim_ns": sim_ns, "steps": steps, "switches": switches,
        "preemptions": preempts, "handler_calls": calls, "exchanges_completed": served, "clients": clients, "bytes_in": bi, "bytes_out": bo,
        "faults": faults, "probes": probes, "classes": classes, "distinct_schedules": hashes.len(), "nontrivial": nontrivial.len(),
        "edges": edges.len(), "edges_total": n_edges, "samples": samples, "violations": viols, "unreproduced": unreproduced,
        "tags": other, "examples": bad_example, "harness": harness,
        "replayed": again, "replayed_differently": redo_bad,
    })
    };
    // some executions again: one plan is one execution
    let mut redo_bad = 0i32;
    let mut again = 0usize;
    let t1 = Instant::now();
    for (p, h) in &redo {
        if t1.elapsed() > Duration::from_secs(20) {
            break;
        }
        again += 1;
        if pool.one(p, false)["hash"] != *h {
            redo_bad += 1;
        }
    }
    // every report must reproduce from its plan; then it is minimised
    let mut viols = vec![];
    let mut unreproduced = 0i32;
    if !all {
        found.sort_by_key(|(p, r)| (r["steps"].as_u64().unwrap_or(u64::MAX) / 50_000, p.clients.len()));
        let mut weak: Option<usize> = None;
        let n = found.len().min(4);
        // the last round takes one that fails again and again, if never in quite the same way
        for k in 0..=n {
            let last = k == n;
            let k = if last { weak.unwrap_or(n) } else { k };
            if k >= found.len() || last && weak.is_none() {
                break;
            }
            let (p, r) = found[k].clone();
            let (r1, r2) = pool.twice(&p);
            let both = hits(&r1, &prop).is_some() && hits(&r2, &prop).is_some();
            if !both || !last && (r1["hash"] != r["hash"] || r1["hash"] != r2["hash"]) {
                unreproduced += 1;
                if both {
                    weak = weak.or(Some(k));
                }
                continue;
            }
            let tag = hits(&r1, &prop).unwrap()["tag"].as_str().unwrap_or("").to_string();
            let report = |s: &Plan, r: &Value| {
                let v = hits(r, &prop).cloned().unwrap_or(Value::Null);
                json!({"property": prop, "config": gen::config(), "violation": v, "family": p.family, "seed": p.seed, "hash": r["hash"],
                "original": {"seed": p.seed, "clients": p.clients.len(), "steps": r1["steps"], "switches": r1["switches"]},
                "minimised": {"clients": s.clients.len(), "steps": r["steps"], "switches": r["switches"], "faults": r["faults"]},
                "plan": s, "trace": r["trace"]})
            };
            if let Some(o) = out {
                // should the rest take too long, this much is known
                std::fs::write(o, serde_json::to_vec(&result(vec![report(&p, &r1)], unreproduced, again, redo_bad)).unwrap()).expect("write result");
            }
            let s = if num(a, "--shrink", 40) > 0 { shrink::shrink(&mut pool, p.clone(), &prop, &tag, num(a, "--shrink", 40)) } else { p.clone() };
            let r = pool.one(&s, true);
            viols.push(report(&s, &r));
            break;
        }
    }
    let none = viols.is_empty();
    let res = result(viols, unreproduced, again, redo_bad);
    pool.cleanup();
    match out {
        Some(o) => std::fs::write(o, serde_json::to_vec(&res).unwrap()).expect("write result"),
        None => println!("{}", serde_json::to_string_pretty(&res).unwrap()),
    }
    if none {
        0
    } else {
        1
    }
}

fn load(f: &str) -> (Plan, Value) {
    let v: Value = serde_json::from_slice(&std::fs::read(f).expect("read")).expect("json");
    let p = if v.get("plan").is_some() { v["plan"].clone() } else { v.clone() };
    (serde_json::from_value(p).expect("plan"), v)
}

fn main() {
    hooks::init();
    hooks::deterministic_crypto();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let cmd = a.first().map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "run" => cmd_run(&a),
        "gen" => {
            println!("{}", serde_json::to_string_pretty(&gen::plan(&a[1], a[2].parse().unwrap())).unwrap());
            0
        }
        // exec family seed | exec file: one execution, verbosely
        "exec" | "replay" => {
            let mut pool = pool::Pool::new(opt(&a, "--work").unwrap_or("/tmp/octsim.one"), 1);
            let (p, v) = if gen::FAMILIES.contains(&a[1].as_str()) { (gen::plan(&a[1], a[2].parse().unwrap()), Value::Null) } else { load(&a[1]) };
            if p.config != gen::config() {
                eprintln!("this replay needs the configuration {}", p.config);
                std::process::exit(2);
            }
            let r = pool.one(&p, true);
            pool.cleanup();
            if a.iter().any(|x| x == "--trace") {
                for l in r["trace"].as_array().unwrap_or(&vec![]) {
                    println!("{}", l.as_str().unwrap_or(""));
                }
            }
            let mut q = r.clone();
            if let Some(o) = q.as_object_mut() {
                o.remove("trace");
                o.remove("edges");
            }
            println!("{}", serde_json::to_string(&q).unwrap());
            let prop = v["property"].as_str().unwrap_or("");
            if cmd == "replay" && v.get("hash").is_some() {
                println!("schedule {}", if v["hash"] == r["hash"] { "identical to the recorded one" } else { "differs from the recorded one (the code has changed)" });
            }
            match hits(&r, prop) {
                Some(x) => {
                    println!("REPRODUCED {} {}", x["tag"], x["detail"]);
                    1
                }
                None => 0,
            }
        }
        // determinism: the same seeds twice, on pools of different sizes
        "selftest" => {
            let n = num(&a, "--count", 200);
            let base = num(&a, "--seed", 1);
            let work = opt(&a, "--work").unwrap_or("/tmp/octsim.self").to_string();
            let mut bad = 0;
            let fams: Vec<&str> = match opt(&a, "--families") {
                Some(f) => f.split(',').collect(),
                None => gen::FAMILIES.iter().copied().filter(|f| cfg!(feature = "f_tls") || !f.starts_with("tls")).collect(),
            };
            for f in fams {
                let mut seen: BTreeMap<u64, (Value, Value)> = BTreeMap::new();
                let mut nbad = 0;
                for jobs in [8usize, 3] {
                    let mut pool = pool::Pool::new(&work, jobs);
                    let mut k = 0;
                    loop {
                        while pool.free() && k < n {
                            pool.start(gen::plan(f, seed_of(base, f, k)), false, k);
                            k += 1;
                        }
                        match pool.wait() {
                            None => break,
                            Some(d) => {
                                let now = (d.result["hash"].clone(), d.result["viol"].clone());
                                match seen.get(&d.tag) {
                                    None => {
                                        seen.insert(d.tag, now);
                                    }
                                    Some(o) => {
                                        if *o != now || now.0.is_null() {
                                            nbad += 1;
                                            if nbad <= 3 {
                                                println!("{} seed {}: {} vs {} {}", f, d.plan.seed, o.0, now.0, d.result["harness"]);
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                    pool.cleanup();
                }
                println!("{} {}: {} of {} runs differ", gen::config(), f, nbad, n);
                bad += nbad;
            }
            (bad > 0) as i32
        }
        _ => {
            eprintln!("octsim run|gen|exec|replay|selftest");
            2
        }
    };
    std::process::exit(code);
}
