mod big;
mod bv;
mod exec;
mod ir;
mod poly;
mod solve;
mod term;
use exec::*;
use solve::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use term::*;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let code = match h.join() {
        Ok(c) => c,
        Err(_) => 3,
    };
    std::process::exit(code);
}

struct Finding {
    what: String,
    model: Vec<u128>,
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut i = 1;
    while i < a.len() {
        if let Some(k) = a[i].strip_prefix("--") {
            let v = a.get(i + 1).cloned().unwrap_or_default();
            opt.insert(k.to_string(), v);
            i += 2;
        } else {
            i += 1;
        }
    }
    let num = |k: &str, d: u64| opt.get(k).and_then(|x| x.parse::<u64>().ok()).unwrap_or(d);
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(num("timeout", 300));
    let entry = opt.get("entry").expect("--entry");
    let text = std::fs::read_to_string(opt.get("ll").expect("--ll")).expect("read ll");
    let m = match ir::parse(&text) {
        Ok(m) => m,
        Err(e) => {
            println!("{{\"entry\":{},\"status\":\"error\",\"message\":{}}}", js(entry), js(&format!("parse: {}", e)));
            return 2;
        }
    };
    drop(text);
    let concrete = opt.get("concrete").map(|s| {
        s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<u128>().expect("concrete value")).collect::<Vec<u128>>()
    });
    let is_conc = concrete.is_some();
    let verbose = num("verbose", 0) > 0;
    let cfg = Cfg {
        concrete,
        table: None,
        max_steps: num("max-steps", 40_000_000),
        max_paths: num("max-paths", 200_000),
        quick_ms: num("quick-ms", 4000),
        verbose,
        word_bits: num("word-bits", 64) as u32,
    };
    let mut ex = Exec::new(&m, cfg, Solver::new(deadline));
    ex.deadline = deadline;
    let mut err: Option<String> = None;
    match ex.entry(entry) {
        Ok(st) => match ex.explore(st, None, 0) {
            Ok(_) => {}
            Err(Stop::Engine(e)) => err = Some(e),
            Err(Stop::Ub(e)) => err = Some(format!("ub {}", e)),
        },
        Err(e) => err = Some(e),
    }
    let t_exec = t0.elapsed().as_secs_f64();
    if is_conc {
        // concrete run: obligations are constants
        let mut bad = vec![];
        for o in &ex.obligs {
            if ex.tm.as_c(o.goal) != Some(1) {
                bad.push(o.what.clone());
            }
        }
        let obs: Vec<String> = ex.observed.iter().map(|x| x.to_string()).collect();
        println!(
            "{{\"entry\":{},\"status\":{},\"message\":{},\"bad\":[{}],\"observed\":[{}],\"steps\":{},\"panics\":{},\"assume\":{}}}",
            js(entry),
            js(if err.is_some() { "error" } else if bad.is_empty() { "holds" } else { "violation" }),
            js(err.as_deref().unwrap_or("")),
            bad.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
            obs.join(","),
            ex.steps,
            ex.panics_ok,
            ex.assume_failed
        );
        return 0;
    }
    // ---- discharge
    let mut seen: HashMap<(Vec<T>, T), usize> = HashMap::new();
    let mut jobs: Vec<(Vec<T>, String)> = vec![];
    let mut simplified = 0u64;
    let obligs = std::mem::take(&mut ex.obligs);
    let total_ob = obligs.len();
    for o in obligs {
        if ex.tm.as_c(o.goal) == Some(1) {
            simplified += 1;
            continue;
        }
        let mut pc: Vec<T> = o.pc.iter().copied().filter(|&c| ex.tm.as_c(c) != Some(1)).collect();
        pc.sort();
        pc.dedup();
        let key = (pc.clone(), o.goal);
        if seen.contains_key(&key) {
            continue;
        }
        seen.insert(key, jobs.len());
        if pc.binary_search(&o.goal).is_ok() {
            simplified += 1;
            continue;
        }
        let ng = ex.tm.not(o.goal);
        pc.push(ng);
        jobs.push((pc, o.what));
    }
    let njobs = jobs.len();
    let nth = num("jobs", 1).max(1) as usize;
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<Finding>> = Mutex::new(vec![]);
    let undec: Mutex<Vec<String>> = Mutex::new(vec![]);
    let stats: Mutex<Stats> = Mutex::new(ex.solver.be.stats.clone());
    let decided = AtomicUsize::new(0);
    let ob_ms = num("oblig-ms", 60_000);
    // cheap concrete candidates for every obligation (each still has to satisfy the whole obligation exactly)
    let cands: Vec<Vec<u128>> = (0..24).map(|k| ex.solver.guess(&ex.tm, k)).collect();
    {
        let tm = &ex.tm;
        let cx = &ex.solver.cx;
        let models: Vec<&Vec<u128>> = ex.models.iter().rev().take(40).map(|m| &m.0).chain(cands.iter()).collect();
        std::thread::scope(|s| {
            for th in 0..nth {
                let (jobs, next, stop, found, undec, stats, decided, models) = (&jobs, &next, &stop, &found, &undec, &stats, &decided, &models);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let mut be = Backend::new();
                        loop {
                            let k = next.fetch_add(1, Ordering::SeqCst);
                            if k >= jobs.len() || stop.load(Ordering::SeqCst) {
                                break;
                            }
                            let (conj, what) = &jobs[k];
                            let hit = models.iter().find(|m| {
                                let mut mm: Vec<u128> = m.to_vec();
                                while mm.len() < tm.syms.len() {
                                    mm.push(tm.syms[mm.len()].1);
                                }
                                eval_all(tm, &mm, conj)
                            });
                            let tq = Instant::now();
                            let o = match hit {
                                Some(m) => Outcome::Sat(m.to_vec()),
                                None => decide(&mut be, cx, tm, conj, ob_ms, deadline),
                            };
                            let o = match o {
                                Outcome::Unknown(w) => {
                                    let hd = (Instant::now() + Duration::from_secs(20)).min(deadline + Duration::from_secs(5));
                                    match hunt(&mut be, tm, conj, 40, k as u64 + th as u64 * 77, hd) {
                                        Some(m) => Outcome::Sat(m),
                                        None => Outcome::Unknown(w),
                                    }
                                }
                                o => o,
                            };
                            if verbose {
                                eprintln!("[{}/{}] {:.2}s {} -> {}", k, jobs.len(), tq.elapsed().as_secs_f64(), what, match &o { Outcome::Unsat => "unsat".into(), Outcome::Sat(_) => "SAT".to_string(), Outcome::Unknown(w) => format!("unknown {}", w) });
                            }
                            match o {
                                Outcome::Unsat => {
                                    decided.fetch_add(1, Ordering::SeqCst);
                                }
                                Outcome::Sat(m) => {
                                    let mut f = found.lock().unwrap();
                                    if f.iter().filter(|x| x.what == *what).count() < 2 {
                                        f.push(Finding { what: what.clone(), model: m });
                                    }
                                    if f.len() >= 4 {
                                        stop.store(true, Ordering::SeqCst);
                                    }
                                }
                                Outcome::Unknown(w) => {
                                    undec.lock().unwrap().push(format!("{} ({})", what, w));
                                }
                            }
                        }
                        stats.lock().unwrap().merge(&be.stats);
                    })
                    .unwrap();
            }
        });
    }
    // ---- concrete re-executions, compared by the driver with the natively compiled code
    let mut traces: Vec<String> = vec![];
    let table = std::sync::Arc::new(ex.sym_table.clone());
    {
        let want = num("selftest", 0) as usize;
        let mut vecs: Vec<Vec<u128>> = vec![];
        let nm = ex.models.len();
        for k in 0..want {
            if nm > 0 && k * 2 < want {
                let i = (nm - 1) * (k + 1) / (want / 2).max(1);
                vecs.push(ex.models[i.min(nm - 1)].0.clone());
            } else {
                vecs.push(ex.solver.guess(&ex.tm, ((num("seed", 1) as usize % 1000) * 8 + k) as u32));
            }
        }
        for mut v in vecs {
            v.truncate(ex.sym_nodes.len());
            while v.len() < ex.sym_nodes.len() {
                v.push(0);
            }
            for (x, &t) in v.iter_mut().zip(&ex.sym_nodes) {
                let w = ex.tm.width(t);
                if w < 128 {
                    *x &= (1u128 << w) - 1;
                }
            }
            let cfg = Cfg { concrete: Some(v.clone()), table: Some(table.clone()), max_steps: 40_000_000, max_paths: 10, quick_ms: 1000, verbose: false, word_bits: 64 };
            let mut cx = Exec::new(&m, cfg, Solver::new(deadline));
            cx.deadline = deadline + Duration::from_secs(20);
            let mut e = String::new();
            match cx.entry(entry) {
                Ok(st) => match cx.explore(st, None, 0) {
                    Ok(_) => {}
                    Err(Stop::Engine(x)) => e = x,
                    Err(Stop::Ub(x)) => e = format!("ub {}", x),
                },
                Err(x) => e = x,
            }
            let bad: Vec<String> = cx.obligs.iter().filter(|o| cx.tm.as_c(o.goal) != Some(1)).map(|o| js(&o.what)).collect();
            let q = |v: &[u128]| v.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(",");
            traces.push(format!(
                "{{\"values\":[{}],\"observed\":[{}],\"bad\":[{}],\"panics\":{},\"assume\":{},\"error\":{}}}",
                q(&cx.drawn),
                q(&cx.observed),
                bad.join(","),
                cx.panics_ok,
                cx.assume_failed,
                js(&e)
            ));
        }
    }
    let found = found.into_inner().unwrap();
    let undec = undec.into_inner().unwrap();
    let st = stats.into_inner().unwrap();
    let status = if !found.is_empty() {
        "violation"
    } else if err.is_some() {
        "error"
    } else if !undec.is_empty() {
        "undecided"
    } else {
        "holds"
    };
    let mut funcs: Vec<String> = ex.funcs_seen.iter().map(|&f| m.funcs[f].name.clone()).collect();
    funcs.sort();
    funcs.dedup();
    let fs: Vec<String> = found
        .iter()
        .map(|f| {
            // the values in the order in which the harness draws them
            let mut v = f.model.clone();
            while v.len() < ex.sym_nodes.len() {
                v.push(0);
            }
            let cfg = Cfg { concrete: Some(v), table: Some(table.clone()), max_steps: 40_000_000, max_paths: 10, quick_ms: 1000, verbose: false, word_bits: 64 };
            let mut cx = Exec::new(&m, cfg, Solver::new(deadline));
            cx.deadline = deadline + Duration::from_secs(20);
            if let Ok(st) = cx.entry(entry) {
                let _ = cx.explore(st, None, 0);
            }
            let v = cx.drawn;
            format!("{{\"what\":{},\"values\":[{}]}}", js(&f.what), v.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","))
        })
        .collect();
    let mut by: Vec<String> = st.by.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    by.sort();
    let mut checks: Vec<String> = ex.checks.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    checks.sort();
    let mut reach: Vec<String> = ex.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    reach.sort();
    println!(
        "{{\"entry\":{},\"status\":{},\"message\":{},\"findings\":[{}],\"undecided\":[{}],\"obligations\":{},\"simplified\":{},\"discharged\":{},\"jobs\":{},\"paths\":{},\"steps\":{},\"forks\":{},\"division_lemmas\":{},\"merges\":{},\"expected_panics\":{},\"symbols\":{},\"symbol_bits\":{},\"terms\":{},\"queries\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"solver_s\":{:.3},\"by\":{{{}}},\"checks\":{{{}}},\"reach\":{{{}}},\"exec_s\":{:.3},\"total_s\":{:.3},\"traces\":[{}],\"functions\":[{}]}}",
        js(entry),
        js(status),
        js(err.as_deref().unwrap_or("")),
        fs.join(","),
        undec.iter().take(5).map(|x| js(x)).collect::<Vec<_>>().join(","),
        total_ob,
        simplified,
        decided.load(Ordering::SeqCst),
        njobs,
        ex.paths,
        ex.steps,
        ex.forks,
        ex.sums.values().filter(|v| v.is_some()).count(),
        ex.merges,
        ex.panics_ok,
        ex.sym_nodes.len(),
        ex.sym_nodes.iter().map(|&t| ex.tm.width(t) as u64).sum::<u64>(),
        ex.tm.n.len(),
        st.queries,
        st.unsat,
        st.sat,
        st.unknown,
        st.secs,
        by.join(","),
        checks.join(","),
        reach.join(","),
        t_exec,
        t0.elapsed().as_secs_f64(),
        traces.join(","),
        funcs.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")
    );
    match status {
        "holds" => 0,
        "violation" => 1,
        _ => 2,
    }
}
