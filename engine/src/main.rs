//! pgsym: symbolic execution of harness functions over LLVM IR.
//!
//! pgsym --out FILE [--threads N] [--secs S] [--timeout-ms T] [--steps N]
//!       [--keep N] [--mod NAME=PATH]... ENTRY...
//! Entries whose name starts with `hf_` run the real `alloc::fmt::format`;
//! the others use an opaque string for messages that are only carried around.

mod exec;
mod ir;
mod solver;
mod term;

use exec::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Job {
    entry: usize,
    prefix: Vec<D>,
}

struct Queue {
    jobs: VecDeque<Job>,
    active: usize,
    idle: usize,
}

#[derive(Default, Clone)]
struct EntryRes {
    stats: RunStats,
    done: u64,
    panics: u64,
    ubs: u64,
    afalse: u64,
    violations: Vec<Violation>,
    vkeys: BTreeMap<String, usize>,
    paths: Vec<PathRec>,
    seen: u64,
    covers: BTreeMap<String, u64>,
    asserts: BTreeMap<String, u64>,
    secs: f64,
    sstats: solver::Stats,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jarr<T>(v: &[T], f: impl Fn(&T) -> String) -> String {
    format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(","))
}
fn jmap<V>(m: &BTreeMap<String, V>, f: impl Fn(&V) -> String) -> String {
    format!(
        "{{{}}}",
        m.iter().map(|(k, v)| format!("{}:{}", jstr(k), f(v))).collect::<Vec<_>>().join(",")
    )
}

fn add_stats(a: &mut RunStats, b: &RunStats) {
    a.paths += b.paths;
    a.forks += b.forks;
    a.insts += b.insts;
    a.asserts += b.asserts;
    a.asserts_by_range += b.asserts_by_range;
    a.infeasible += b.infeasible;
    a.unknown_branches += b.unknown_branches;
    a.undecided_asserts += b.undecided_asserts;
    a.budget += b.budget;
    a.dropped += b.dropped;
    a.swept += b.swept;
    a.sweep_tried += b.sweep_tried;
    a.searched += b.searched;
    a.joined += b.joined;
    a.merged += b.merged;
    a.light += b.light;
    a.light_fail += b.light_fail;
    a.cached += b.cached;
    a.max_steps = a.max_steps.max(b.max_steps);
    for (k, v) in &b.unsupported {
        *a.unsupported.entry(k.clone()).or_insert(0) += v;
    }
}
fn sub_solver(a: &solver::Stats, b: &solver::Stats) -> solver::Stats {
    solver::Stats {
        queries: a.queries - b.queries,
        sat: a.sat - b.sat,
        unsat: a.unsat - b.unsat,
        unknown: a.unknown - b.unknown,
        fallback: a.fallback - b.fallback,
        secs: a.secs - b.secs,
        max_secs: a.max_secs,
    }
}
fn add_solver(a: &mut solver::Stats, b: &solver::Stats) {
    a.queries += b.queries;
    a.sat += b.sat;
    a.unsat += b.unsat;
    a.unknown += b.unknown;
    a.fallback += b.fallback;
    a.secs += b.secs;
    a.max_secs = a.max_secs.max(b.max_secs);
}

struct Opts {
    join: Vec<String>,
    out: String,
    threads: usize,
    secs: f64,
    timeout_ms: u64,
    first_ms: u64,
    steps: u64,
    keep: usize,
    mods: Vec<(String, String)>,
    entries: Vec<String>,
}

fn parse_args() -> Opts {
    let mut o = Opts {
        join: ["timestamp2time", "julian2date", "date2julian", "date2time", "time2t", "timestamp_modulo", "days_of_month"].iter().map(|s| s.to_string()).collect(),
        out: String::new(),
        threads: 8,
        secs: 600.0,
        timeout_ms: 10000,
        first_ms: 400,
        steps: 3_000_000,
        keep: 12,
        mods: vec![],
        entries: vec![],
    };
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("missing value");
        match a.as_str() {
            "--out" => o.out = v(),
            "--threads" => o.threads = v().parse().unwrap(),
            "--secs" => o.secs = v().parse().unwrap(),
            "--timeout-ms" => o.timeout_ms = v().parse().unwrap(),
            "--first-ms" => o.first_ms = v().parse().unwrap(),
            "--steps" => o.steps = v().parse().unwrap(),
            "--keep" => o.keep = v().parse().unwrap(),
            "--join" => o.join = v().split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(),
            "--mod" => {
                let s = v();
                let (n, p) = s.split_once('=').expect("--mod NAME=PATH");
                o.mods.push((n.into(), p.into()));
            }
            _ => o.entries.push(a),
        }
    }
    o
}

/// Hands the oldest pending states to idle workers.
fn donate(
    q: &Mutex<Queue>,
    cv: &Condvar,
    idle: &std::sync::atomic::AtomicUsize,
    entry: usize,
    stack: &mut Vec<State>,
) {
    if stack.is_empty() || idle.load(std::sync::atomic::Ordering::Relaxed) == 0 {
        return;
    }
    let mut g = q.lock().unwrap();
    let n = g.idle.saturating_sub(g.jobs.len()).min((stack.len() + 1) / 2);
    for s in stack.drain(0..n) {
        g.jobs.push_back(Job { entry, prefix: s.decisions });
        cv.notify_one();
    }
}

fn main() {
    let o = parse_args();
    let t0 = Instant::now();
    let prog = match ir::Program::load(&o.mods) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("pgsym: {}", e);
            std::process::exit(2);
        }
    };
    let entries: Vec<_> = o
        .entries
        .iter()
        .map(|n| {
            prog.find_export(n).unwrap_or_else(|| {
                eprintln!("pgsym: no harness {}", n);
                std::process::exit(2)
            })
        })
        .collect();
    let load = t0.elapsed().as_secs_f64();
    let deadline = Instant::now() + Duration::from_secs_f64(o.secs);
    let q = Mutex::new(Queue {
        jobs: (0..entries.len()).map(|i| Job { entry: i, prefix: vec![] }).collect(),
        active: 0,
        idle: 0,
    });
    let cv = Condvar::new();
    let idle_hint = std::sync::atomic::AtomicUsize::new(0);
    let results: Mutex<Vec<EntryRes>> = Mutex::new(vec![EntryRes::default(); entries.len()]);
    let funcs: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
    let debug = std::env::var("PGSYM_DEBUG").is_ok();
    std::thread::scope(|sc| {
        for _ in 0..o.threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || {
                    let mk = || {
                        Exec::new(
                            &prog,
                            Config {
                                max_steps: o.steps,
                                real_format: false,
                                keep_paths: o.keep,
                                deadline: Some(deadline),
                                conc_limit: 100_000,
                                max_violations: 400,
                                first_ms: o.first_ms,
                                hot: std::env::var("PGSYM_HOT").is_ok(),
                                merge: o.join.clone(),
                            },
                            o.timeout_ms,
                        )
                    };
                    let mut ex = mk();
                    loop {
                        let job = {
                            let mut g = q.lock().unwrap();
                            loop {
                                if let Some(j) = g.jobs.pop_front() {
                                    g.active += 1;
                                    break Some(j);
                                }
                                if g.active == 0 {
                                    cv.notify_all();
                                    break None;
                                }
                                g.idle += 1;
                                idle_hint.store(g.idle, std::sync::atomic::Ordering::Relaxed);
                                g = cv.wait(g).unwrap();
                                g.idle -= 1;
                                idle_hint.store(g.idle, std::sync::atomic::Ordering::Relaxed);
                            }
                        };
                        let Some(job) = job else { break };
                        if ex.a.nodes.len() > 3_000_000 {
                            funcs.lock().unwrap().extend(ex.funcs.iter().cloned());
                            ex = mk();
                        }
                        let name = &o.entries[job.entry];
                        let rf = name.starts_with("hf_");
                        if ex.cfg.real_format != rf {
                            ex.cfg.real_format = rf;
                            ex.native_cache.clear();
                        }
                        ex.stats = RunStats::default();
                        ex.violations.clear();
                        ex.seen_viol.clear();
                        ex.assert_ids.clear();
                        ex.stack.clear();
                        let s0 = ex.solver.stats.clone();
                        let l0 = ex.light.stats.clone();
                        let tj = Instant::now();
                        let mut res = EntryRes::default();
                        match fresh_state(&prog, entries[job.entry], job.prefix) {
                            Ok(s) => ex.stack.push(s),
                            Err(e) => {
                                *res.stats.unsupported.entry(e).or_insert(0) += 1;
                            }
                        }
                        ex.funcs.insert(name.clone());
                        let entry = job.entry;
                        let (q1, cv1, ih) = (&q, &cv, &idle_hint);
                        ex.donate = Some(Box::new(move |s: &mut Vec<State>| donate(q1, cv1, ih, entry, s)));
                        while let Some(mut st) = ex.stack.pop() {
                            if Instant::now() > deadline {
                                ex.stats.dropped += 1 + ex.stack.len() as u64;
                                ex.stack.clear();
                                break;
                            }
                            donate(&q, &cv, &idle_hint, job.entry, &mut ex.stack);
                            let stop = ex.run(&mut st);
                            ex.stats.max_steps = ex.stats.max_steps.max(st.steps);
                            finish(&mut ex, &mut st, stop, &mut res, o.keep, debug, name);
                            while let Some((mut st, stop)) = ex.pending.pop() {
                                finish(&mut ex, &mut st, stop, &mut res, o.keep, debug, name);
                            }
                        }
                        add_stats(&mut res.stats, &ex.stats);
                        res.sstats = sub_solver(&ex.solver.stats, &s0);
                        add_solver(&mut res.sstats, &sub_solver(&ex.light.stats, &l0));
                        res.secs = tj.elapsed().as_secs_f64();
                        res.asserts = std::mem::take(&mut ex.assert_ids);
                        res.violations = std::mem::take(&mut ex.violations);
                        {
                            let mut all = results.lock().unwrap();
                            merge(&mut all[job.entry], res, o.keep);
                        }
                        let mut g = q.lock().unwrap();
                        g.active -= 1;
                        if g.active == 0 && g.jobs.is_empty() {
                            cv.notify_all();
                        }
                    }
                    funcs.lock().unwrap().extend(ex.funcs.iter().cloned());
                })
                .unwrap();
        }
    });
    let res = results.into_inner().unwrap();
    let mut out = String::from("{\n");
    out.push_str(&format!("\"load_s\":{:.3},\"wall_s\":{:.3},\n", load, t0.elapsed().as_secs_f64()));
    let fs: Vec<String> = funcs.into_inner().unwrap().into_iter().collect();
    out.push_str(&format!("\"functions\":{},\n", jarr(&fs, |s| jstr(s))));
    out.push_str("\"entries\":[\n");
    for (i, r) in res.iter().enumerate() {
        if i > 0 {
            out.push_str(",\n");
        }
        let s = &r.stats;
        let q = &r.sstats;
        out.push_str(&format!(
            "{{\"name\":{},\"paths\":{},\"done\":{},\"panics\":{},\"ub\":{},\"assert_false\":{},\"insts\":{},\"forks\":{},\"infeasible\":{},\"asserts\":{},\"asserts_by_range\":{},\"unknown_branches\":{},\"undecided_asserts\":{},\"budget\":{},\"dropped\":{},\"swept\":{},\"sweep_tried\":{},\"searched\":{},\"joined\":{},\"merged\":{},\"light\":{},\"light_fail\":{},\"cached\":{},\"max_steps\":{},\"cpu_s\":{:.3},\"queries\":{},\"q_sat\":{},\"q_unsat\":{},\"q_unknown\":{},\"q_fallback\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\n \"unsupported\":{},\n \"assert_ids\":{},\n \"covers\":{},\n \"violations\":{},\n \"samples\":{}}}",
            jstr(&o.entries[i]), s.paths, r.done, r.panics, r.ubs, r.afalse, s.insts, s.forks, s.infeasible, s.asserts,
            s.asserts_by_range, s.unknown_branches, s.undecided_asserts, s.budget, s.dropped, s.swept, s.sweep_tried, s.searched, s.joined, s.merged, s.light, s.light_fail, s.cached, s.max_steps, r.secs,
            q.queries, q.sat, q.unsat, q.unknown, q.fallback, q.secs, q.max_secs,
            jmap(&s.unsupported, |v| v.to_string()),
            jmap(&r.asserts, |v| v.to_string()),
            jmap(&r.covers, |v| v.to_string()),
            jarr(&r.violations, |v| format!(
                "{{\"kind\":{},\"msg\":{},\"certain\":{},\"inputs\":{},\"stack\":{}}}",
                jstr(&v.kind), jstr(&v.msg), v.certain, jarr(&v.inputs, |x| x.to_string()), jarr(&v.stack, |x| jstr(x)))),
            jarr(&r.paths, |p| format!(
                "{{\"inputs\":{},\"fp\":{},\"obs\":{}}}",
                jarr(&p.inputs, |x| x.to_string()), p.fp,
                jarr(&p.obs, |(k, v)| format!("[{},{}]", jstr(k), jstr(v)))))
        ));
    }
    out.push_str("\n]}\n");
    if o.out.is_empty() {
        print!("{}", out);
    } else {
        std::fs::write(&o.out, out).expect("write output");
    }
}

fn finish(ex: &mut Exec, st: &mut State, stop: Stop, res: &mut EntryRes, keep: usize, debug: bool, name: &str) {
    if debug {
        if !matches!(stop, Stop::Done | Stop::Infeasible) {
            eprintln!(
                "[{}] {:?} after {} steps; stack: {}",
                name,
                stop,
                st.steps,
                st.frames.iter().rev().take(6).map(|f| short_name(&f.func.name)).collect::<Vec<_>>().join(" < ")
            );
        }
    }
    match stop {
        Stop::Done => {
            ex.stats.paths += 1;
            if ex.settle_model(st) == Some(false) {
                ex.stats.paths -= 1;
                ex.stats.infeasible += 1;
                return;
            }
            res.done += 1;
            for (k, _) in &st.obs {
                if let Some(c) = k.strip_prefix("cover:") {
                    *res.covers.entry(c.to_string()).or_insert(0) += 1;
                }
            }
            res.seen += 1;
            // deterministic spread: keep first `keep`, then every 2^k-th
            let take = res.paths.len() < keep || (res.seen & (res.seen - 1)) == 0;
            if take {
                if let Some(p) = ex.path_record(st) {
                    if res.paths.len() >= keep * 2 {
                        let i = (res.seen as usize * 7919) % res.paths.len();
                        res.paths[i] = p;
                    } else {
                        res.paths.push(p);
                    }
                }
            }
        }
        Stop::Infeasible => ex.stats.infeasible += 1,
        Stop::AssertFalse => {
            ex.stats.paths += 1;
            res.afalse += 1;
        }
        Stop::Panic(m) => {
            if ex.settle_model(st) == Some(false) {
                ex.stats.infeasible += 1;
                return;
            }
            ex.stats.paths += 1;
            res.panics += 1;
            ex.report_stop(st, "panic", &m);
        }
        Stop::Ub(m) => {
            if ex.settle_model(st) == Some(false) {
                ex.stats.infeasible += 1;
                return;
            }
            ex.stats.paths += 1;
            res.ubs += 1;
            ex.report_stop(st, "ub", &m);
        }
        Stop::Unsupported(m) => {
            if ex.settle_model(st) == Some(false) {
                ex.stats.infeasible += 1;
                return;
            }
            let top = st.frames.last().map(|f| short_name(&f.func.name)).unwrap_or_default();
            *ex.stats.unsupported.entry(format!("{} in {}", m, top)).or_insert(0) += 1;
        }
        Stop::Moved => {}
        Stop::NoFork => {
            *ex.stats.unsupported.entry("fork in a region".into()).or_insert(0) += 1;
        }
        Stop::NeedFormat => {
            *ex.stats.unsupported.entry("message text needed: use hf_".into()).or_insert(0) += 1;
        }
        Stop::Budget => {
            ex.stats.budget += 1;
            ex.report_stop(st, "budget", "step limit");
        }
        Stop::Deadline => ex.stats.dropped += 1,
    }
}

fn merge(a: &mut EntryRes, b: EntryRes, keep: usize) {
    add_stats(&mut a.stats, &b.stats);
    add_solver(&mut a.sstats, &b.sstats);
    a.done += b.done;
    a.panics += b.panics;
    a.ubs += b.ubs;
    a.afalse += b.afalse;
    a.secs += b.secs;
    a.seen += b.seen;
    for (k, v) in b.covers {
        *a.covers.entry(k).or_insert(0) += v;
    }
    for (k, v) in b.asserts {
        *a.asserts.entry(k).or_insert(0) += v;
    }
    for v in b.violations {
        let n = a.vkeys.entry(format!("{}|{}", v.kind, v.msg)).or_insert(0);
        *n += 1;
        if *n <= 8 && a.violations.len() < 400 {
            a.violations.push(v);
        }
    }
    for p in b.paths {
        if a.paths.len() < keep * 3 {
            a.paths.push(p);
        }
    }
}
