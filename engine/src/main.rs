mod exec;
mod expr;
mod ir;
mod mem;
mod range;
mod z3;

use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    // deep recursion in term construction: run on a big stack
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let code = match h.join() {
        Ok(c) => c,
        Err(_) => 3,
    };
    std::process::exit(code);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut ll = String::new();
    let mut out: Option<String> = None;
    let mut o = exec::Opts {
        entry: String::new(),
        params: vec![],
        max_steps: 30_000_000,
        time: 600.0,
        samples: 40,
        stop_first: false,
        trace: false,
        concrete: None,
    };
    let mut timeout = 90_000u32;
    let mut dump: Option<(String, u64)> = None;
    let mut i = 0;
    while i < args.len() {
        let v = || args[i + 1].clone();
        match args[i].as_str() {
            "--ll" => ll = v(),
            "--entry" => o.entry = v(),
            "--params" => o.params = v().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--max-steps" => o.max_steps = v().parse().unwrap(),
            "--time" => o.time = v().parse().unwrap(),
            "--samples" => o.samples = v().parse().unwrap(),
            "--solver-timeout" => timeout = v().parse().unwrap(),
            "--out" => out = Some(v()),
            "--dump" => dump = Some((v(), 200)),
            "--concrete" => {
                let h = v();
                o.concrete = Some((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect());
            }
            "--stop-first" => {
                o.stop_first = true;
                i += 1;
                continue;
            }
            "--trace" => {
                o.trace = true;
                i += 1;
                continue;
            }
            x => panic!("option {}", x),
        }
        i += 2;
    }
    let t0 = std::time::Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&ll)));
    let load = t0.elapsed().as_secs_f64();
    let mut ex = exec::Exec::new(m, o, timeout);
    if let Some((d, n)) = dump {
        ex.z3.dump = Some(d.into());
        ex.z3.dump_max = n;
    }
    ex.run();
    let mut s = String::from("{");
    let _ = write!(s, "\"entry\":{},\"params\":{:?},\"paths\":{},\"pruned\":{},\"forks\":{},\"steps\":{},\"asserts\":{},\"symbolic_bytes\":{},", js(&ex.o.entry), ex.o.params, ex.done, ex.pruned, ex.forks, ex.steps, ex.asserts, ex.maxsym);
    let _ = write!(
        s,
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"fp_small_domain\":{},\"by_range\":{},\"solver_s\":{:.4},\"max_query_s\":{:.4},\"terms\":{},\"load_s\":{:.3},\"wall_s\":{:.3},",
        ex.z3.queries, ex.z3.sat, ex.z3.unsat, ex.z3.unknown, ex.cache_hits, ex.small_fp, ex.by_range, ex.z3.time, ex.z3.max_time, ex.cx.n.len(), load, t0.elapsed().as_secs_f64()
    );
    let _ = write!(s, "\"incomplete\":[{}],", ex.incomplete.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    let _ = write!(
        s,
        "\"violations\":[{}],",
        ex.viols.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"model\":\"{}\"}}", js(&v.kind), js(&v.msg), hex(&v.model))).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        s,
        "\"samples\":[{}],",
        ex.samples
            .iter()
            .map(|v| format!("{{\"model\":\"{}\",\"obs\":[{}]}}", hex(&v.model), v.obs.iter().map(|(t, k)| format!("[{},{}]", t, k)).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = write!(s, "\"reach\":{{{}}},", ex.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let mut fs: Vec<(&str, u64)> = ex.funcs_seen.iter().map(|(k, v)| (m.funcs[*k as usize].0, *v)).collect();
    fs.sort_by_key(|x| std::cmp::Reverse(x.1));
    let _ = write!(s, "\"nfunctions\":{},\"functions\":[{}]", fs.len(), fs.iter().map(|(n, k)| format!("[{},{}]", js(&exec::demangle(n)), k)).collect::<Vec<_>>().join(","));
    if ex.o.trace {
        let mut f: Vec<_> = ex.fork_sites.iter().collect();
        f.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (n, k) in f.iter().take(30) {
            eprintln!("{:8} {}", k, n);
        }
    }
    s.push_str("}\n");
    match out {
        Some(p) => std::fs::write(p, s).unwrap(),
        None => print!("{}", s),
    }
    if !ex.incomplete.is_empty() {
        2
    } else if !ex.viols.is_empty() {
        1
    } else {
        0
    }
}
