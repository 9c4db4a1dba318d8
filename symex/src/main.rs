mod expr;
mod ll;
mod vm;
mod z3;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};
use vm::*;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[u64]) -> String {
    // as strings: 64-bit values survive any JSON reader
    format!("[{}]", v.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","))
}

struct Opt {
    params: Vec<u64>,
    jobs: usize,
    time: u64,
    maxv: usize,
    maxi: u64,
    samples: usize,
    seed: u64,
    qms: u32,
    maxp: u64,
}

/// one symbolic execution of `entry`, as a JSON object
fn run_task(prog: &ll::Program, entry: &str, eid: u32, o: &Opt) -> Option<String> {
    let t0 = Instant::now();
    let jobs = o.jobs;
    let sh = Shared {
        queue: Mutex::new(vec![vec![]]),
        cond: Condvar::new(),
        idle: AtomicUsize::new(0),
        workers: jobs,
        stop: AtomicBool::new(false),
        incomplete: Mutex::new(vec![]),
        violations: Mutex::new(vec![]),
        max_viol: o.maxv,
        deadline: Instant::now() + Duration::from_secs(o.time),
        params: o.params.clone(),
        max_instr: o.maxi,
        samples_per_worker: o.samples,
        seed: o.seed,
        query_ms: o.qms,
        max_paths: o.maxp,
        total_paths: AtomicU64::new(0),
    };
    let mut all = Stats { covers: vec![0; 64], ..Default::default() };
    let mut used = vec![false; prog.fns.len()];
    let mut smp: Vec<Sample> = vec![];
    let mut panicked = false;
    std::thread::scope(|s| {
        let mut hs = vec![];
        for i in 0..jobs {
            let (p, sh) = (prog, &sh);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(s, move || {
                        let mut w = Worker::new(p, sh, eid, i as u64);
                        w.run();
                        (w.st, w.fn_used, w.samples)
                    })
                    .unwrap(),
            );
        }
        for h in hs {
            match h.join() {
                Ok((st, u, sm)) => {
                    all.paths += st.paths;
                    all.infeasible += st.infeasible;
                    all.forks += st.forks;
                    all.decisions += st.decisions;
                    all.instrs += st.instrs;
                    all.queries += st.queries;
                    all.sat += st.sat;
                    all.unsat += st.unsat;
                    all.solver_ns += st.solver_ns;
                    all.max_query_ns = all.max_query_ns.max(st.max_query_ns);
                    all.checks_concrete += st.checks_concrete;
                    all.checks_solver += st.checks_solver;
                    all.max_vars = all.max_vars.max(st.max_vars);
                    all.max_path_instrs = all.max_path_instrs.max(st.max_path_instrs);
                    for (a, b) in all.covers.iter_mut().zip(st.covers) {
                        *a += b
                    }
                    for (a, b) in used.iter_mut().zip(u) {
                        *a |= b
                    }
                    smp.extend(sm);
                }
                Err(_) => panicked = true,
            }
        }
    });
    if panicked {
        eprintln!("symex: a worker failed");
        return None;
    }
    let inc = sh.incomplete.into_inner().unwrap();
    let viol = sh.violations.into_inner().unwrap();
    let mut j = String::from("{");
    j += &format!("\"entry\":{},\"params\":{},\"complete\":{},\"incomplete\":[{}],", esc(entry), arr(&sh.params), inc.is_empty(), inc.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
    j += &format!(
        "\"paths\":{},\"infeasible\":{},\"forks\":{},\"decisions\":{},\"instrs\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"max_query_s\":{:.4},\"checks_concrete\":{},\"checks_solver\":{},\"max_vars\":{},\"max_path_instrs\":{},\"wall_s\":{:.2},\"solver\":{},",
        all.paths, all.infeasible, all.forks, all.decisions, all.instrs, all.queries, all.sat, all.unsat,
        all.solver_ns as f64 / 1e9, all.max_query_ns as f64 / 1e9, all.checks_concrete, all.checks_solver, all.max_vars, all.max_path_instrs,
        t0.elapsed().as_secs_f64(), esc(&z3::version())
    );
    j += &format!("\"covers\":[{}],", all.covers.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    j += &format!(
        "\"violations\":[{}],",
        viol.iter()
            .map(|v| format!("{{\"msg\":{},\"inputs\":{},\"stack\":[{}]}}", esc(&v.msg), arr(&v.inputs), v.stack.iter().take(12).map(|s| esc(s)).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(",")
    );
    j += &format!("\"samples\":[{}],", smp.iter().map(|s| format!("{{\"inputs\":{},\"obs\":{}}}", arr(&s.inputs), arr(&s.obs))).collect::<Vec<_>>().join(","));
    let names: Vec<String> = prog.fns.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, f)| esc(&f.name)).collect();
    j += &format!("\"functions\":[{}]}}", names.join(","));
    Some(j)
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut batch = String::new();
    let (mut ll, mut entry, mut params, mut jobs, mut time, mut out) = (String::new(), String::new(), vec![], 8usize, 600u64, String::new());
    let (mut maxv, mut maxi, mut samples, mut seed, mut qms, mut maxp) = (8usize, 400_000_000u64, 4usize, 1u64, 60_000u32, u64::MAX);
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--ll" => ll = v(),
            "--entry" => entry = v(),
            "--param" => params.push(v().parse().unwrap()),
            // one comma-separated parameter list per line; every task on one thread
            "--batch" => batch = v(),
            "--jobs" => jobs = v().parse().unwrap(),
            "--time" => time = v().parse().unwrap(),
            "--out" => out = v(),
            "--max-viol" => maxv = v().parse().unwrap(),
            "--max-instr" => maxi = v().parse().unwrap(),
            "--max-paths" => maxp = v().parse().unwrap(),
            "--samples" => samples = v().parse().unwrap(),
            "--seed" => seed = v().parse().unwrap(),
            "--query-ms" => qms = v().parse().unwrap(),
            x => {
                eprintln!("unknown option {}", x);
                std::process::exit(3)
            }
        }
    }
    let text = std::fs::read_to_string(&ll).expect("read ll");
    let prog = ll::Program::load(&text);
    drop(text);
    let Some(&eid) = prog.fmap.get(&entry) else {
        eprintln!("no entry function {}", entry);
        std::process::exit(3)
    };
    let mut o = Opt { params, jobs, time, maxv, maxi, samples, seed, qms, maxp };
    if batch.is_empty() {
        let Some(j) = run_task(&prog, &entry, eid, &o) else { std::process::exit(3) };
        if out.is_empty() {
            println!("{}", j);
        } else {
            std::fs::write(&out, j).unwrap();
        }
        return;
    }
    let tasks: Vec<Vec<u64>> = std::fs::read_to_string(&batch)
        .expect("batch")
        .lines()
        .map(|l| l.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect())
        .collect();
    o.jobs = 1;
    let next = AtomicUsize::new(0);
    let stdout = Mutex::new(());
    std::thread::scope(|s| {
        for _ in 0..jobs {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= tasks.len() {
                    return;
                }
                let t = Opt { params: tasks[i].clone(), ..o };
                let j = run_task(&prog, &entry, eid, &t);
                let _g = stdout.lock().unwrap();
                println!("{} {}", i, j.unwrap_or_else(|| "null".into()));
            });
        }
    });
}
