mod exec;
mod expr;
mod ir;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Pool {
    items: Vec<Item>,
    idle: usize,
    stop: bool,
}

fn main() {
    // usage: symx MODULE.ll JOBS.txt OUT.json [key=value ...]
    // JOBS: one per line:  name \t entry \t param \t hex(arg)
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[1]).expect("module");
    let jobs_txt = std::fs::read_to_string(&args[2]).expect("jobs");
    let out = &args[3];
    let opt: BTreeMap<&str, &str> = args[4..].iter().filter_map(|a| a.split_once('=')).collect();
    let get = |k: &str, d: u64| opt.get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let threads = get("threads", std::thread::available_parallelism().map_or(8, |n| n.get()) as u64) as usize;
    let max_steps = get("steps", 4_000_000);
    let time = Duration::from_secs(get("time", 600));
    let z3_to = get("z3_timeout", 60_000) as u32;
    let max_viol = get("max_viol", 40) as usize; // distinct signatures
    let per_sig = get("per_sig", 4) as usize;
    let grace = get("grace", 1_000_000); // seconds to go on after the first violation
    let dump_every = get("dump_every", 0);
    let nsamples = get("samples", 24) as usize;
    let mem_gb = get("mem_gb", 20);

    let t0 = Instant::now();
    let m = match ir::parse(&text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("symx: cannot parse module: {e}");
            std::process::exit(3);
        }
    };
    drop(text);
    let nfuncs = m.funcs.iter().filter(|f| f.defined).count();
    let prog = Prog::new(m);
    let jobs: Vec<Job> = jobs_txt
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let f: Vec<&str> = l.split('\t').collect();
            Job { name: f[0].into(), entry: f[1].into(), param: f[2].parse().unwrap(), arg: unhex(f.get(3).copied().unwrap_or("")) }
        })
        .collect();
    let parse_s = t0.elapsed().as_secs_f64();
    let pool = Mutex::new(Pool {
        items: (0..jobs.len()).rev().map(|j| Item { job: j, trace: vec![], model: vec![] }).collect(),
        idle: 0,
        stop: false,
    });
    let cv = Condvar::new();
    let first = std::sync::atomic::AtomicU64::new(u64::MAX);
    let idle_hint = std::sync::atomic::AtomicUsize::new(0);
    use std::sync::atomic::Ordering::Relaxed;
    struct Sum {
        viols: Vec<Violation>,
        nviol: u64,
        sigs: BTreeMap<(usize, String), usize>,
        nerr: u64,
        errors: Vec<String>,
        reach: BTreeMap<usize, BTreeSet<u32>>,
        paths: BTreeMap<usize, u64>,
        discarded: u64,
        steps: u64,
        forks: u64,
        maxp: u64,
        hits: u64,
        maxsym: usize,
        z: z3::Stats,
        funcs: Vec<bool>,
        pending: u64,
        dumps: Vec<(String, bool)>,
        samples: BTreeMap<usize, Vec<(u64, Vec<u8>)>>,
        masks: BTreeMap<(usize, u64), u64>,
        job_steps: BTreeMap<usize, u64>,
    }
    let sum = Mutex::new(Sum {
        viols: vec![],
        nviol: 0,
        sigs: Default::default(),
        nerr: 0,
        errors: vec![],
        reach: Default::default(),
        paths: Default::default(),
        discarded: 0,
        steps: 0,
        forks: 0,
        maxp: 0,
        hits: 0,
        maxsym: 0,
        z: Default::default(),
        funcs: vec![false; prog.m.funcs.len()],
        pending: 0,
        dumps: vec![],
        samples: Default::default(),
        masks: Default::default(),
        job_steps: Default::default(),
    });
    let timed_out = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || {
                    let mut w = Worker::new(&prog, &jobs, max_steps, z3_to, dump_every);
                    let mut n = 0u64;
                    'outer: loop {
                        if w.states.is_empty() {
                            // wait for work
                            let mut g = pool.lock().unwrap();
                            g.idle += 1;
                            idle_hint.store(g.idle, Relaxed);
                            loop {
                                if g.stop {
                                    cv.notify_all();
                                    break 'outer;
                                }
                                if let Some(it) = g.items.pop() {
                                    g.idle -= 1;
                                    idle_hint.store(g.idle, Relaxed);
                                    drop(g);
                                    w.start(it);
                                    break;
                                }
                                if g.idle == threads {
                                    g.stop = true;
                                    cv.notify_all();
                                    break 'outer;
                                }
                                g = cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                            }
                            continue;
                        }
                        w.run_one();
                        n += 1;
                        if !w.viols.is_empty() || !w.errors.is_empty() {
                            let mut g = sum.lock().unwrap();
                            for v in w.viols.drain(..) {
                                g.nviol += 1;
                                first.fetch_min(t0.elapsed().as_secs(), Relaxed);
                                let sig = v.msg.split(" in ").next().unwrap_or("").to_string();
                                let c = g.sigs.entry((v.job, sig)).or_default();
                                *c += 1;
                                if *c <= per_sig {
                                    g.viols.push(v);
                                }
                            }
                            g.nerr += w.errors.len() as u64;
                            for e in w.errors.drain(..) {
                                if g.errors.len() < 20 {
                                    g.errors.push(e);
                                }
                            }
                            if g.sigs.len() >= max_viol {
                                timed_out.store(true, Relaxed);
                                pool.lock().unwrap().stop = true;
                            }
                        }
                        if n % 64 == 0 {
                            if t0.elapsed() > time || t0.elapsed().as_secs() > first.load(Relaxed).saturating_add(grace) || (n % 4096 == 0 && rss_gb() > mem_gb) {
                                timed_out.store(true, Relaxed);
                                pool.lock().unwrap().stop = true;
                            }
                            if pool.lock().unwrap().stop {
                                break;
                            }
                        }
                        if idle_hint.load(Relaxed) > 0 && w.states.len() > 1 {
                            let mut g = pool.lock().unwrap();
                            if g.idle > g.items.len() {
                                // give away the shallowest half, one each for the idle
                                let k = (g.idle - g.items.len()).min(w.states.len() - 1);
                                for st in w.states.drain(..k) {
                                    g.items.push(Item { job: st.job, trace: st.trace, model: st.model });
                                }
                                cv.notify_all();
                            }
                        }
                    }
                    let mut g = sum.lock().unwrap();
                    g.pending += w.states.len() as u64;
                    for (k, v) in &w.reach {
                        g.reach.entry(*k).or_default().extend(v);
                    }
                    for (k, v) in &w.paths {
                        *g.paths.entry(*k).or_default() += v;
                    }
                    for (k, v) in &w.job_steps {
                        *g.job_steps.entry(*k).or_default() += v;
                    }
                    g.discarded += w.discarded;
                    g.steps += w.steps;
                    g.forks += w.forks;
                    g.maxp = g.maxp.max(w.max_path_steps);
                    g.maxsym = g.maxsym.max(w.max_sym);
                    g.hits += w.cache_hits;
                    g.z.queries += w.z.stats.queries;
                    g.z.sat += w.z.stats.sat;
                    g.z.unsat += w.z.stats.unsat;
                    g.z.unknown += w.z.stats.unknown;
                    g.z.nanos += w.z.stats.nanos;
                    for (i, h) in w.funcs_hit.iter().enumerate() {
                        if *h {
                            g.funcs[i] = true;
                        }
                    }
                    g.dumps.append(&mut w.z.dump);
                    for (k, v) in std::mem::take(&mut w.samples) {
                        g.samples.entry(k).or_default().extend(v);
                    }
                    for (k, v) in &w.masks {
                        *g.masks.entry(*k).or_default() += v;
                    }
                })
                .unwrap();
        }
    });
    let s = sum.into_inner().unwrap();
    let left = s.pending + pool.into_inner().unwrap().items.len() as u64;
    let complete = left == 0 && s.nerr == 0 && s.z.unknown == 0 && !timed_out.load(Relaxed);
    let mut o = String::from("{\n");
    let kv = |o: &mut String, k: &str, v: String| o.push_str(&format!(" {}: {},\n", jstr(k), v));
    kv(&mut o, "complete", complete.to_string());
    kv(&mut o, "pending", left.to_string());
    kv(&mut o, "wall_s", format!("{:.2}", t0.elapsed().as_secs_f64()));
    kv(&mut o, "parse_s", format!("{parse_s:.2}"));
    kv(&mut o, "instructions", s.steps.to_string());
    kv(&mut o, "forks", s.forks.to_string());
    kv(&mut o, "discarded", s.discarded.to_string());
    kv(&mut o, "max_path_instructions", s.maxp.to_string());
    kv(&mut o, "max_symbolic_bytes", s.maxsym.to_string());
    kv(&mut o, "cache_hits", s.hits.to_string());
    kv(&mut o, "solver", jstr(&format!("Z3 {}", z3::version())));
    kv(&mut o, "queries", s.z.queries.to_string());
    kv(&mut o, "sat", s.z.sat.to_string());
    kv(&mut o, "unsat", s.z.unsat.to_string());
    kv(&mut o, "unknown", s.z.unknown.to_string());
    kv(&mut o, "solver_s", format!("{:.3}", s.z.nanos as f64 / 1e9));
    kv(&mut o, "functions_defined", nfuncs.to_string());
    let fl: Vec<String> = prog
        .m
        .funcs
        .iter()
        .zip(&s.funcs)
        .filter(|(_, h)| **h)
        .map(|(f, _)| jstr(&f.name))
        .collect();
    kv(&mut o, "functions", format!("[{}]", fl.join(",")));
    let jl: Vec<String> = jobs
        .iter()
        .enumerate()
        .map(|(i, j)| {
            let r: Vec<String> = s.reach.get(&i).map_or(vec![], |r| r.iter().map(|x| x.to_string()).collect());
            format!(
                "  {{\"name\":{},\"entry\":{},\"param\":{},\"arg\":{},\"paths\":{},\"instructions\":{},\"reach\":[{}]}}",
                jstr(&j.name),
                jstr(&j.entry),
                j.param,
                jstr(&hex(&j.arg)),
                s.paths.get(&i).copied().unwrap_or(0),
                s.job_steps.get(&i).copied().unwrap_or(0),
                r.join(",")
            )
        })
        .collect();
    kv(&mut o, "jobs", format!("[\n{}\n ]", jl.join(",\n")));
    let vl: Vec<String> = s
        .viols
        .iter()
        .map(|v| format!("  {{\"job\":{},\"kind\":{},\"msg\":{},\"input\":{}}}", v.job, jstr(&v.kind), jstr(&v.msg), jstr(&hex(&v.input))))
        .collect();
    kv(&mut o, "violation_paths", s.nviol.to_string());
    kv(&mut o, "error_paths", s.nerr.to_string());
    kv(&mut o, "violations", format!("[\n{}\n ]", vl.join(",\n")));
    let mut sl: Vec<String> = vec![];
    for (j, v) in &s.samples {
        // a few per outcome, spread over what the workers kept
        let mut by: BTreeMap<u64, Vec<&Vec<u8>>> = BTreeMap::new();
        for (m, i) in v {
            by.entry(*m).or_default().push(i);
        }
        let each = (nsamples / by.len().max(1)).max(1);
        for (m, v) in by {
            let step = (v.len() / each).max(1);
            for i in v.iter().step_by(step).take(each) {
                sl.push(format!("  {{\"job\":{j},\"reach\":{m},\"input\":{}}}", jstr(&hex(i))));
            }
        }
    }
    kv(&mut o, "samples", format!("[\n{}\n ]", sl.join(",\n")));
    let ml: Vec<String> = s.masks.iter().map(|((j, m), n)| format!("[{j},{m},{n}]")).collect();
    kv(&mut o, "outcomes", format!("[{}]", ml.join(",")));
    let dl: Vec<String> = s.dumps.iter().map(|(d, r)| format!("  {{\"smt2\":{},\"sat\":{}}}", jstr(d), r)).collect();
    kv(&mut o, "dumps", format!("[\n{}\n ]", dl.join(",\n")));
    let el: Vec<String> = s.errors.iter().map(|e| jstr(e)).collect();
    o.push_str(&format!(" \"errors\": [{}]\n}}\n", el.join(",\n  ")));
    std::fs::write(out, o).expect("write output");
}

fn rss_gb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map_or(0, |p| p * 4096 >> 30)
}
