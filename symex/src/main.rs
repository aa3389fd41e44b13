mod decode;
mod exec;
mod expr;
mod ir;
mod z3;

use std::io::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            '\r' => o += "\\r",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn notes(n: &[(u32, Vec<u8>)]) -> String {
    let v: Vec<String> = n.iter().map(|(k, b)| format!("[{},\"{}\"]", k, b.iter().map(|x| format!("{:02x}", x)).collect::<String>())).collect();
    format!("[{}]", v.join(","))
}

fn main() {
    let child = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let code = child.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut file = None;
    let mut entry = None;
    let mut out = None;
    let mut opts = exec::Opts { time: 600.0, max_icount: 20_000_000, max_viol: 1, params: vec![], samples: 24, trace: false, mem_limit_states: 0 };
    let mut dump_every = 0;
    let mut profile = false;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--time" => {
                i += 1;
                opts.time = args[i].parse().unwrap();
            }
            "--max-icount" => {
                i += 1;
                opts.max_icount = args[i].parse().unwrap();
            }
            "--max-viol" => {
                i += 1;
                opts.max_viol = args[i].parse().unwrap();
            }
            "--samples" => {
                i += 1;
                opts.samples = args[i].parse().unwrap();
            }
            "--param" => {
                i += 1;
                opts.params = args[i].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            }
            "--out" => {
                i += 1;
                out = Some(args[i].clone());
            }
            "--dump-every" => {
                i += 1;
                dump_every = args[i].parse().unwrap();
            }
            "--trace" => opts.trace = true,
            "--profile" => profile = true,
            x => {
                if file.is_none() {
                    file = Some(x.to_string());
                } else {
                    entry = Some(x.to_string());
                }
            }
        }
        i += 1;
    }
    let (file, entry) = match (file, entry) {
        (Some(f), Some(e)) => (f, e),
        _ => {
            eprintln!("usage: symex FILE.ll ENTRY [--time S] [--param a,b] [--out F]");
            return 2;
        }
    };
    let t0 = std::time::Instant::now();
    let src = std::fs::read(&file).expect("read");
    let m = match ir::parse(&src) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("parse error: {}", e);
            return 2;
        }
    };
    let mut ar = expr::Arena::new();
    let prog = match decode::Dec::program(&m, &mut ar) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("decode error: {}", e);
            return 2;
        }
    };
    drop(m);
    let tp = t0.elapsed().as_secs_f64();
    let prog: &'static decode::Program = Box::leak(Box::new(prog));
    let mut en = exec::Engine::new(prog, ar, opts);
    if dump_every > 0 {
        en.z3.dump_every = dump_every;
        en.z3.dump_max = 200;
    }
    let t1 = std::time::Instant::now();
    if let Err(e) = en.run(&entry) {
        eprintln!("error: {}", e);
        return 2;
    }
    let te = t1.elapsed().as_secs_f64();
    let status = if !en.viol.is_empty() {
        "violation"
    } else if !en.errors.is_empty() {
        "error"
    } else if en.timed_out {
        "timeout"
    } else {
        "ok"
    };
    let covered: Vec<String> = en.covered.iter().enumerate().filter(|(_, c)| **c).map(|(i, _)| prog.funcs[i].short.clone()).collect();
    let mut lum: Vec<String> = covered.iter().filter(|s| s.contains("lumberjack") || s.contains("conllx")).cloned().collect();
    lum.sort();
    lum.dedup();
    let s = &en.st;
    let mut o = String::from("{\n");
    o += &format!("\"entry\":{},\n\"params\":{:?},\n\"status\":{},\n", js(&entry), en.opts.params, js(status));
    o += &format!("\"paths\":{},\"assumed_out\":{},\"instructions\":{},\"forks\":{},\"max_depth\":{},\"pending\":{},\n", s.paths, s.assumed, s.instrs, s.forks, s.max_depth, en.stack.len());
    o += &format!("\"checks\":{},\"checks_by_solver\":{},\"checks_by_path\":{},\n", s.checks, s.checks_solver, s.checks_path);
    o += &format!(
        "\"queries_sat\":{},\"queries_unsat\":{},\"queries_unknown\":{},\"dom_sat\":{},\"dom_unsat\":{},\"cache_hits\":{},\"crosschecked\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\n",
        en.z3.n_sat, en.z3.n_unsat, en.z3.n_unknown, s.dom_sat, s.dom_unsat, s.cache_hits, s.cross, en.z3.time, en.z3.max_time
    );
    o += &format!("\"max_path_instructions\":{},\"concretizations\":{},\"exprs\":{},\"parse_s\":{:.2},\"exec_s\":{:.2},\"solver\":{},\n", s.max_icount, s.concretizations, en.ar.n.len(), tp, te, js(&z3::version()));
    let mut rk: Vec<_> = en.reach.iter().collect();
    rk.sort();
    o += &format!("\"reach\":{{{}}},\n", rk.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    o += &format!(
        "\"check_ids\":{{{}}},\n",
        en.check_ids.iter().map(|(k, v)| format!("{}:[{},{},{}]", js(k), v.0, v.1, v.2)).collect::<Vec<_>>().join(",")
    );
    o += &format!("\"functions\":[{}],\n\"functions_total\":{},\n", lum.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), covered.len());
    o += &format!("\"errors\":[{}],\n", en.errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    o += &format!(
        "\"violations\":[{}],\n",
        en.viol
            .iter()
            .map(|v| format!(
                "{{\"kind\":{},\"msg\":{},\"trace\":[{}],\"inputs\":{:?},\"notes\":{}}}",
                js(&v.kind),
                js(&v.msg),
                v.trace.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
                v.inputs,
                notes(&v.notes)
            ))
            .collect::<Vec<_>>()
            .join(",\n")
    );
    o += &format!(
        "\"samples\":[{}],\n",
        en.samples.iter().map(|v| format!("{{\"inputs\":{:?},\"checks\":{},\"notes\":{}}}", v.inputs, v.checks, notes(&v.notes))).collect::<Vec<_>>().join(",\n")
    );
    o += &format!("\"dumped\":[{}]\n}}\n", en.z3.dump.iter().map(|(q, s)| format!("[{},{}]", js(q), s)).collect::<Vec<_>>().join(",\n"));
    match out {
        Some(f) => std::fs::write(f, &o).expect("write report"),
        None => {
            std::io::stdout().write_all(o.as_bytes()).unwrap();
        }
    }
    if profile {
        let mut fs: Vec<_> = en.fork_sites.iter().map(|(k, v)| (*v, *k)).collect();
        fs.sort();
        for (n, (f, pc)) in fs.iter().rev().take(25) {
            eprintln!("{:8} forks at {}@{}", n, prog.funcs[*f as usize].short, pc);
        }
    }
    match status {
        "ok" => 0,
        "violation" => 1,
        _ => 2,
    }
}
