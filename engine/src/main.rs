//! tsx: exhaustive symbolic execution of a harness over LLVM IR, deciding with Z3.
//!
//! tsx MODULE.ll ENTRY [--steps N] [--paths N] [--time S] [--viol N]
mod exec;
mod expr;
mod fp;
mod ir;
mod solver;
use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: f64| -> f64 {
        a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).and_then(|v| v.parse().ok()).unwrap_or(d)
    };
    expr::init();
    let m = match ir::Module::load(&a[1]) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("tsx: {}", e);
            std::process::exit(3);
        }
    };
    let lim = exec::Limits {
        max_steps: opt("--steps", 3e6) as u64,
        max_paths: opt("--paths", 5e6) as u64,
        max_time: opt("--time", 600.0),
        max_viol: opt("--viol", 8.0) as usize,
    };
    let t0 = std::time::Instant::now();
    let mut e = match exec::Eng::new(m, lim) {
        Ok(e) => e,
        Err(x) => {
            eprintln!("tsx: {}", x);
            std::process::exit(3);
        }
    };
    e.trace = a.iter().any(|x| x == "--trace");
    e.nsamples = opt("--samples", 0.0) as usize;
    e.rng = (opt("--seed", 1.0) as u64).wrapping_mul(0x9E3779B97F4A7C15) | 1;
    e.run(&a[2]);
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"harness\":{},\"complete\":{},\"paths\":{},\"panic_paths\":{},\"forks\":{},\"steps\":{},\"checks\":{},\"queries\":{},\"cached\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"undef\":{},\"z3\":{}",
        js(&a[2]),
        !e.incomplete && e.errors.is_empty(),
        e.paths,
        e.panic_paths,
        e.forks,
        e.steps,
        e.checks,
        e.solver.queries,
        e.solver.cached,
        e.solver.sat,
        e.solver.unsat,
        e.solver.unknown,
        e.solver.time,
        e.solver.max_query,
        t0.elapsed().as_secs_f64(),
        e.undef_count,
        js(&solver::z3_version()),
    );
    o.push_str(",\"covers\":{");
    o.push_str(&e.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"errors\":[");
    o.push_str(&e.errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    o.push_str("],\"stubs\":[");
    o.push_str(&e.stubs.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    o.push_str("],\"functions\":[");
    o.push_str(&e.used.keys().map(|x| js(x)).collect::<Vec<_>>().join(","));
    o.push_str("],\"source\":[");
    o.push_str(&e.source_functions().iter().map(|(n, f)| format!("[{},{}]", js(n), js(f))).collect::<Vec<_>>().join(","));
    o.push_str("],\"lines\":[");
    if std::env::var_os("TSX_LINES").is_some() {
        let l: std::collections::BTreeSet<(String, u32)> = e.source_lines().into_iter().map(|(_, f, l)| (f, l)).collect();
        o.push_str(&l.iter().filter(|(f, _)| !f.starts_with("/rustc/")).map(|(f, l)| format!("[{},{}]", js(f), l)).collect::<Vec<_>>().join(","));
    }
    let inp = |v: &Vec<(u16, u128)>| v.iter().map(|(w, x)| format!("[{},\"{}\"]", w, x)).collect::<Vec<_>>().join(",");
    o.push_str("],\"samples\":[");
    o.push_str(
        &e.samples
            .iter()
            .map(|v| {
                format!(
                    "{{\"inputs\":[{}],\"covers\":[{}],\"checks\":{},\"panicked\":{}}}",
                    inp(&v.inputs),
                    v.covers.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
                    v.checks,
                    v.panicked
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("],\"violations\":[");
    o.push_str(
        &e.viols
            .iter()
            .map(|v| {
                format!(
                    "{{\"kind\":{},\"msg\":{},\"stack\":[{}],\"inputs\":[{}]}}",
                    js(&v.kind),
                    js(&v.msg),
                    v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
                    v.inputs.iter().map(|(w, x)| format!("[{},\"{}\"]", w, x)).collect::<Vec<_>>().join(",")
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("]}");
    if let Some(p) = &e.prof {
        let mut v: Vec<_> = p.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(25) {
            eprintln!("{:7} {}", n, k);
        }
    }
    println!("{}", o);
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let _ = h.join();
}
