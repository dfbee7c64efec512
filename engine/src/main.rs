mod exec;
mod expr;
mod ext;
mod ir;
mod mem;
mod solver;
use exec::*;
use std::collections::BTreeMap;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<T, F: Fn(&T) -> String>(v: &[T], f: F) -> String {
    format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("selftest") {
        let n = args.get(2).and_then(|x| x.parse().ok()).unwrap_or(20000);
        std::process::exit(selftest(n));
    }
    let mut opt: BTreeMap<String, String> = BTreeMap::new();
    let mut i = 1;
    while i + 1 < args.len() {
        opt.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone());
        i += 2;
    }
    let num = |k: &str, d: f64| opt.get(k).and_then(|x| x.parse::<f64>().ok()).unwrap_or(d);
    let ll = opt.get("ll").expect("--ll");
    let entry = opt.get("entry").expect("--entry");
    let child = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn({
            let opt = opt.clone();
            let ll = ll.clone();
            let entry = entry.clone();
            let o = Opts {
                max_paths: num("max-paths", 1e6) as u64,
                max_steps: num("max-steps", 2e7) as u64,
                timeout_s: num("timeout", 600.0),
                max_conc: 0,
                samples: num("samples", 6.0) as usize,
                trace: num("trace", 0.0) as u32,
                max_viol: num("max-viol", 4.0) as usize,
                shard: opt.get("shard").and_then(|s| {
                    let (a, b) = s.split_once('/')?;
                    Some((a.parse().ok()?, b.parse().ok()?))
                }),
                // first line: input values, second line: preemptions
                replay: opt.get("replay").map(|p| {
                    let t = std::fs::read_to_string(p).unwrap_or_default();
                    let nums = |l: Option<&str>| -> Vec<u64> {
                        l.unwrap_or("").split_whitespace().filter_map(|x| x.parse().ok()).collect()
                    };
                    let mut l = t.lines();
                    (nums(l.next()), nums(l.next()))
                }),
                verbose: opt.contains_key("verbose"),
            };
            let soft = num("soft-ms", 250.0) as u64;
            let hard = num("hard-s", 120.0) as u64;
            let xc = num("xcheck", 0.0) > 0.0;
            move || run(&ll, &entry, o, soft, hard, xc, &opt)
        })
        .unwrap();
    let code = child.join().unwrap_or(3);
    std::process::exit(code);
}

fn run(ll: &str, entry: &str, o: Opts, soft: u64, hard: u64, xc: bool, opt: &BTreeMap<String, String>) -> i32 {
    let t0 = std::time::Instant::now();
    let m = match ir::Module::load(ll) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("load: {}", e);
            return 3;
        }
    };
    let load_s = t0.elapsed().as_secs_f64();
    let mut s = match solver::Solver::new(soft, hard) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("solver: {}", e);
            return 3;
        }
    };
    s.dump = opt.get("dump").cloned();
    if xc {
        s.xcheck = Some((0, 0, 0));
    }
    let mut e = Engine::new(m, o, s);
    if let Err(x) = e.start(entry) {
        eprintln!("start: {}", x);
        return 3;
    }
    e.run();
    let status = if !e.viols.is_empty() {
        "violation"
    } else if !e.errors.is_empty() {
        "error"
    } else if !e.inconclusive.is_empty() {
        "inconclusive"
    } else if e.limit_hit.is_some() {
        "limit"
    } else {
        "ok"
    };
    // coverage: functions and lines of the repository
    let mut fns: BTreeMap<String, std::collections::BTreeSet<u32>> = BTreeMap::new();
    for (k, w) in e.seen_dbg.iter().enumerate() {
        for b in 0..64 {
            if w >> b & 1 == 1 {
                for (n, f, l) in e.m.locs((k * 64 + b) as u32) {
                    if f.contains("/repo/src/") {
                        fns.entry(format!("{} ({})", demangle(&n), f)).or_default().insert(l);
                    }
                }
            }
        }
    }
    let ndj = |v: &Vec<(u32, u128)>| jl(v, |(w, x)| format!("[{},{}]", w, js(&x.to_string())));
    let mut j = String::from("{");
    j.push_str(&format!("\"entry\":{},\"status\":{},", js(entry), js(status)));
    j.push_str(&format!(
        "\"paths\":{},\"infeasible\":{},\"forks\":{},\"steps\":{},\"max_path_steps\":{},\"asserts\":{},\"assert_queries\":{},\"havocs\":{},\"threads\":{},\"switches\":{},\"pending\":{},",
        e.paths, e.infeasible, e.forks, e.steps, e.max_path_steps, e.asserts, e.assert_q, e.havocs, e.max_threads.max(1), e.switches, e.work.len()
    ));
    j.push_str(&format!(
        "\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"fallbacks\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"load_s\":{:.3},\"wall_s\":{:.3},\"nodes\":{},\"functions_total\":{},",
        e.solver.queries, e.solver.cache_hits, e.solver.n_sat, e.solver.n_unsat, e.solver.fallbacks, e.solver.solver_s, e.solver.max_query_s, load_s, t0.elapsed().as_secs_f64(), e.ctx.nodes.len(), e.seen_fn.len()
    ));
    if let Some((a, b, c)) = e.solver.xcheck {
        j.push_str(&format!("\"xcheck\":[{},{},{}],", a, b, c));
    }
    j.push_str(&format!("\"limit\":{},", js(e.limit_hit.as_deref().unwrap_or(""))));
    j.push_str(&format!("\"errors\":{},", jl(&e.errors, |s| js(s))));
    e.inconclusive.truncate(20);
    j.push_str(&format!("\"inconclusive\":{},", jl(&e.inconclusive, |s| js(s))));
    j.push_str(&format!(
        "\"covers\":{{{}}},",
        e.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")
    ));
    j.push_str(&format!(
        "\"samples\":{},",
        jl(&e.samples, |s| format!(
            "{{\"nd\":{},\"obs\":{},\"sched\":{}}}",
            ndj(&s.nd),
            jl(&s.obs, |x| js(&x.to_string())),
            jl(&s.sched, |x| x.to_string())
        ))
    ));
    j.push_str(&format!(
        "\"violations\":{},",
        jl(&e.viols, |v| format!(
            "{{\"kind\":{},\"msg\":{},\"nd\":{},\"obs\":{},\"sched\":{},\"trace\":{}}}",
            js(&v.kind),
            js(&v.msg),
            ndj(&v.nd),
            jl(&v.obs, |x| js(&x.to_string())),
            jl(&v.sched, |x| x.to_string()),
            jl(&v.trace, |s| js(s))
        ))
    ));
    let fl: Vec<(String, usize, String)> = fns
        .iter()
        .map(|(k, v)| {
            (
                k.clone(),
                v.len(),
                v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "),
            )
        })
        .collect();
    j.push_str(&format!(
        "\"functions\":{}}}",
        jl(&fl, |(k, _, ls)| format!("[{},{}]", js(k), js(ls)))
    ));
    match opt.get("json") {
        Some(p) => {
            let _ = std::fs::write(p, &j);
        }
        None => println!("{}", j),
    }
    eprintln!(
        "{}: {} paths={} infeasible={} forks={} steps={} queries={} hits={} fallbacks={} solver={:.2}s wall={:.2}s asserts={}/{} viol={} err={:?} inc={} limit={:?} covers={:?}",
        entry, status, e.paths, e.infeasible, e.forks, e.steps, e.solver.queries, e.solver.cache_hits, e.solver.fallbacks,
        e.solver.solver_s, t0.elapsed().as_secs_f64(), e.assert_q, e.asserts, e.viols.len(), e.errors, e.inconclusive.len(), e.limit_hit, e.covers
    );
    for v in &e.viols {
        eprintln!("  VIOL {} {} nd={:?} obs={:?}", v.kind, v.msg, v.nd, v.obs);
        for t in v.trace.iter().take(12) {
            eprintln!("     {}", t);
        }
    }
    for s in e.inconclusive.iter().take(3) {
        eprintln!("  INCONCLUSIVE {}", s);
    }
    match status {
        "ok" => 0,
        "violation" => 1,
        _ => 2,
    }
}

/// differential test of the simplifier: random expressions over variables, built with variables and
/// evaluated under a model, must equal the same expression built from constants.
fn selftest(n: u64) -> i32 {
    use expr::*;
    let mut seed = 0x9E3779B97F4A7C15u64;
    let mut rnd = move || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        seed
    };
    let mut bad = 0;
    for round in 0..n {
        let mut c = Ctx::new();
        let mut m = Model::default();
        // pool of (symbolic, concrete) pairs by width
        let mut pool: Vec<(E, u128)> = Vec::new();
        for w in [1u32, 8, 16, 32, 64, 64, 8] {
            let v = c.var(format!("x{}", w), w);
            let r = match rnd() % 4 {
                0 => rnd() as u128 & mask(w),
                1 => 0,
                2 => mask(w),
                _ => (rnd() % 5) as u128 & mask(w),
            };
            m.vals.push(r);
            pool.push((v, r));
            let k = if rnd() % 2 == 0 { (rnd() % 70) as u128 } else { rnd() as u128 };
            let k = k & mask(w);
            let kc = c.konst(k, w);
            pool.push((kc, k));
        }
        for _ in 0..40 {
            let (a, va) = pool[(rnd() % pool.len() as u64) as usize];
            let w = c.w(a);
            let cand: Vec<(E, u128)> = pool.iter().copied().filter(|x| c.w(x.0) == w).collect();
            let (b, vb) = cand[(rnd() % cand.len() as u64) as usize];
            let ops = [
                Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::And, Op::Or, Op::Xor,
                Op::Shl, Op::LShr, Op::AShr, Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle,
            ];
            let k = rnd() % 26;
            let (e, ce) = if k < 18 {
                let op = ops[k as usize];
                if w == 1 && matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                    continue;
                }
                let e = c.bin(op, a, b);
                let (ka, kb) = (c.konst(va, w), c.konst(vb, w));
                (e, c.bin(op, ka, kb))
            } else if k < 20 {
                let hi = (rnd() % w as u64) as u32;
                let lo = (rnd() % (hi as u64 + 1)) as u32;
                let e = c.extract(a, hi, lo);
                let ka = c.konst(va, w);
                (e, c.extract(ka, hi, lo))
            } else if k < 21 && w < 64 {
                let nw = w + 1 + (rnd() % (64 - w) as u64) as u32;
                let ka = c.konst(va, w);
                (c.zext(a, nw), c.zext(ka, nw))
            } else if k < 22 && w < 64 {
                let nw = w + 1 + (rnd() % (64 - w) as u64) as u32;
                let ka = c.konst(va, w);
                (c.sext(a, nw), c.sext(ka, nw))
            } else if k < 24 {
                let (d, vd) = pool[(rnd() % pool.len() as u64) as usize];
                if c.w(d) + w > 128 {
                    continue;
                }
                let ka = c.konst(va, w);
                let kd = c.konst(vd, c.w(d));
                (c.concat(a, d), c.concat(ka, kd))
            } else {
                let bs: Vec<(E, u128)> = pool.iter().copied().filter(|x| c.w(x.0) == 1).collect();
                let (q, vq) = bs[(rnd() % bs.len() as u64) as usize];
                let kq = c.konst(vq, 1);
                let (ka, kb) = (c.konst(va, w), c.konst(vb, w));
                (c.ite(q, a, b), c.ite(kq, ka, kb))
            };
            let want = c.cv(ce).expect("constant folding");
            let mut memo = std::collections::HashMap::new();
            let got = c.eval(e, &m, &mut memo);
            if got != want || c.w(e) != c.w(ce) {
                eprintln!("round {}: mismatch op {} w {} got {:x} want {:x} node {:?}", round, k, w, got, want, c.n(e));
                bad += 1;
                if bad > 10 {
                    return 1;
                }
            }
            pool.push((e, want));
        }
    }
    println!("selftest: {} rounds, {} mismatches", n, bad);
    (bad > 0) as i32
}
