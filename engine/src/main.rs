mod builtins;
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
use exec::*;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn main() {
    let th = std::thread::Builder::new().stack_size(1 << 30).spawn(real).unwrap();
    let r = th.join();
    std::process::exit(match r {
        Ok(c) => c,
        Err(_) => 3,
    });
}
fn real() -> i32 {
    let mut args = std::env::args().skip(1);
    let mut opts = Opts { max_time: 300.0, max_steps: 200_000_000, max_paths: 10_000_000, trace: false, only_label: None, stop_first: false, verbose: false, replay: None, bfs: false, max_viol: 12 };
    let mut files: Vec<String> = vec![];
    let mut entry = String::new();
    let mut out = None;
    let mut timeout = 20_000;
    let mut stubs = vec![];
    let mut prof = false;
    let mut dump = false;
    while let Some(a) = args.next() {
        let mut nx = || args.next().unwrap();
        match a.as_str() {
            "--list" => {
                let p = nx();
                files.extend(std::fs::read_to_string(p).unwrap().lines().map(|s| s.to_string()));
            }
            "--entry" => entry = nx(),
            "--time" => opts.max_time = nx().parse().unwrap(),
            "--steps" => opts.max_steps = nx().parse().unwrap(),
            "--paths" => opts.max_paths = nx().parse().unwrap(),
            "--viol" => opts.max_viol = nx().parse().unwrap(),
            "--trace" => opts.trace = true,
            "--verbose" => opts.verbose = true,
            "--prof" => {
                prof = true;
                opts.verbose = true
            }
            "--dump" => dump = true,
            "--first" => opts.stop_first = true,
            "--bfs" => opts.bfs = true,
            "--out" => out = Some(nx()),
            "--solver-timeout" => timeout = nx().parse().unwrap(),
            "--stub" => {
                let s = nx();
                let (x, y) = s.split_once('=').unwrap();
                stubs.push((x.to_string(), y.to_string()));
            }
            "--replay" => {
                let s = std::fs::read_to_string(nx()).unwrap();
                opts.replay = Some(s.lines().map(|l| unhex(l.rsplit(' ').next().unwrap_or(""))).collect());
            }
            _ => {
                eprintln!("unknown option {}", a);
                return 3;
            }
        }
    }
    let t0 = std::time::Instant::now();
    let ir = ir::Ir::load(&files);
    let tl = t0.elapsed().as_secs_f64();
    let verbose = opts.verbose;
    let mut e = Engine::new(ir, opts, timeout);
    e.stubs = stubs;
    if dump {
        let nm: &'static str = Box::leak(entry.clone().into_boxed_str());
        if let Some(d) = e.ir.find_func(0, nm.as_bytes()) {
            let f = e.func(d, nm.as_bytes());
            for (i, x) in f.insts.iter().enumerate() {
                println!("{} {}", i, format!("{:?}", x).chars().take(300).collect::<String>());
            }
            for (i, x) in f.edges.iter().enumerate() {
                println!("e{} {:?}", i, x);
            }
        }
        return 0;
    }
    let complete = e.run(&entry);
    let el = e.t0.elapsed().as_secs_f64();
    if prof {
        let mut v: Vec<(u64, u32)> = e.prof.iter().map(|(k, v)| (*v, *k)).collect();
        v.sort();
        let names: std::collections::HashMap<u32, String> = e.ir.parsed.iter().map(|(k, f)| (f.id, demangle(k.1))).collect();
        for (n, f) in v.iter().rev().take(40) {
            eprintln!("{:>10} calls {}", n, names.get(f).map(|s| s.as_str()).unwrap_or("?"));
        }
        let mut v: Vec<_> = e.fork_sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (s, n) in v.iter().take(25) {
            eprintln!("{:>8} forks at {}", n, s);
        }
    }
    let ss = &e.smt.st;
    let mut names: Vec<String> = vec![];
    let mut ninst = 0usize;
    for (k, f) in e.ir.parsed.iter() {
        if e.seen.contains(&f.id) {
            let d = demangle(k.1);
            ninst += f.insts.len();
            if d.starts_with("ferrite::") || d.contains("::ferrite::") || d.contains("ferrite::") {
                names.push(d);
            }
        }
    }
    names.sort();
    names.dedup();
    let mut j = String::from("{");
    j.push_str(&format!("\"entry\":{},\"complete\":{},\"load_s\":{:.2},\"time_s\":{:.2},", js(&entry), complete, tl, el));
    j.push_str(&format!(
        "\"paths\":{},\"infeasible\":{},\"limits\":{},\"errors\":{},\"steps\":{},\"forks\":{},\"sym_branches\":{},\"concretized\":{},\"checks_concrete\":{},\"checks_proved\":{},\"max_depth\":{},\"max_input_bytes\":{},\"table_reads\":{},",
        e.st.paths, e.st.killed_infeasible, e.st.limits, e.st.errors, e.st.steps, e.st.forks, e.st.sym_branches, e.st.concretized, e.st.checks_concrete, e.st.checks_proved, e.st.max_depth, e.st.max_inputs, e.st.table_reads
    ));
    j.push_str(&format!("\"solver\":{},", ss.json()));
    j.push_str(&format!("\"functions\":{},\"instructions\":{},\"repo_functions\":[{}],", e.seen.len(), ninst, names.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    j.push_str(&format!("\"labels\":{{{}}},", e.labels.iter().map(|(k, v)| format!("{}:[{},{},{}]", js(k), v.0, v.1, v.2)).collect::<Vec<_>>().join(",")));
    j.push_str(&format!("\"covers\":{{{}}},", e.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
    j.push_str(&format!("\"stubbed\":[{}],", e.stub_used.keys().map(|k| js(k)).collect::<Vec<_>>().join(",")));
    j.push_str(&format!("\"limit_msgs\":[{}],", e.limits.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    j.push_str(&format!("\"error_msgs\":[{}],", e.errors.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    j.push_str(&format!(
        "\"samples\":[{}],",
        e.samples.iter().map(|(i, sc)| format!("{{\"inputs\":[{}],\"sched\":{}}}", i.iter().map(|(n, b)| format!("[{},\"{}\"]", js(n), hex(b))).collect::<Vec<_>>().join(","), sc.len())).collect::<Vec<_>>().join(",")
    ));
    j.push_str(&format!(
        "\"violations\":[{}]",
        e.viol
            .iter()
            .map(|v| format!(
                "{{\"label\":{},\"msg\":{},\"inputs\":[{}],\"sched\":[{}],\"stack\":[{}],\"notes\":[{}]}}",
                js(&v.label),
                js(&v.msg),
                v.inputs.iter().map(|(n, b)| format!("[{},\"{}\"]", js(n), hex(b))).collect::<Vec<_>>().join(","),
                v.sched.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
                v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
                v.notes.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    ));
    j.push('}');
    if verbose {
        eprintln!("paths {} steps {} forks {} time {:.2} load {:.2} solver {}", e.st.paths, e.st.steps, e.st.forks, el, tl, ss.json());
    }
    match out {
        Some(p) => std::fs::write(p, j).unwrap(),
        None => println!("{}", j),
    }
    if !e.viol.is_empty() {
        1
    } else if complete {
        0
    } else {
        2
    }
}
