mod blast;
mod dec;
mod exec;
mod order;
mod sat;
mod ir;
mod term;
mod z3;
use std::collections::{BTreeMap, BTreeSet};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn inputs(v: &[(u32, u128)]) -> String {
    let x: Vec<String> = v.iter().map(|(w, v)| format!("[{},{}]", w, v)).collect();
    format!("[{}]", x.join(","))
}

fn main() {
    // deep recursion on terms: run on a big stack
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}
fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut ll = String::new();
    let mut entry = String::new();
    let mut cfg = exec::Cfg { params: vec![], shard: (0, 1), max_steps: 20_000_000, samples: 0, deadline: 1e9, max_viol: 8, trace: false, stop_ids: false };
    let mut out = String::new();
    let mut timeout = 20_000u32;
    let mut seed = 0u32;
    let mut every = 50u64;
    let mut parse_all = false;
    let mut i = 0;
    while i < args.len() {
        let key = args[i].clone();
        let mut val = || {
            i += 1;
            args[i].clone()
        };
        match key.as_str() {
            "--ll" => ll = val(),
            "--entry" => entry = val(),
            "--out" => out = val(),
            "--params" => cfg.params = val().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--shard" => {
                let v = val();
                let (a, b) = v.split_once('/').unwrap();
                cfg.shard = (a.parse().unwrap(), b.parse().unwrap());
            }
            "--max-steps" => cfg.max_steps = val().parse().unwrap(),
            "--samples" => cfg.samples = val().parse().unwrap(),
            "--deadline" => cfg.deadline = val().parse().unwrap(),
            "--max-viol" => cfg.max_viol = val().parse().unwrap(),
            "--solver-timeout" => timeout = val().parse().unwrap(),
            "--seed" => seed = val().parse().unwrap(),
            "--z3-every" => every = val().parse().unwrap(),
            "--trace" => cfg.trace = true,
            "--parse-all" => parse_all = true,
            x => {
                eprintln!("unknown argument {}", x);
                return 3;
            }
        }
        i += 1;
    }
    let text: &'static str = Box::leak(std::fs::read_to_string(&ll).expect("ll file").into_boxed_str());
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(text)));
    if parse_all {
        let n = m.funcs.borrow().len();
        let mut k = 0;
        let mut ins = 0;
        let mut uns: BTreeMap<String, u32> = BTreeMap::new();
        for f in 0..n {
            if let Some(f) = m.parsed(f as u32) {
                k += 1;
                ins += f.code.len();
                for i in &f.code {
                    if let ir::I::Unsupported(t) = &i.i {
                        *uns.entry(t.clone()).or_insert(0) += 1;
                    }
                }
            }
        }
        for g in 0..m.globals.len() {
            m.gaddr(g as u32);
            m.ginit(g as u32);
        }
        println!("parsed {} functions, {} instructions, {} globals, unsupported {:?}", k, ins, m.globals.len(), uns);
        return 0;
    }
    let mut e = exec::Eng::new(m, cfg, timeout, seed, every);
    let t0 = std::time::Instant::now();
    let mut err = e.run(&entry).err();
    if err.is_none() {
        err = e.sv.disagree.take();
    }
    let wall = t0.elapsed().as_secs_f64();
    // coverage by debug locations
    let mut funcs: BTreeSet<String> = BTreeSet::new();
    let mut lines: BTreeSet<(String, u32)> = BTreeSet::new();
    let mut other: BTreeSet<String> = BTreeSet::new();
    for (n, s) in e.dbg_seen.iter().enumerate() {
        if *s != 0 {
            for (f, file, line) in m.dbg_chain(n as u32) {
                if let Some(p) = file.strip_prefix("/repo/") {
                    funcs.insert(f.clone());
                    lines.insert((p.to_string(), line));
                } else if let Some(p) = file.split("/registry/src/").nth(1) {
                    let c = p.split('/').nth(1).unwrap_or("").to_string();
                    other.insert(c);
                }
            }
        }
    }
    let mut o = String::from("{");
    o.push_str(&format!("\"entry\":{},\"wall\":{:.3},\"steps\":{},\"paths\":{},\"forks\":{},\"killed\":{},", js(&entry), wall, e.steps, e.paths, e.forks, e.killed));
    o.push_str(&format!(
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.4},\"branches\":{},\"fast_facts\":{},\"fast_order\":{},\"asserts\":{},\"asserts_solver\":{},\"terms\":{},\"ir_functions\":{},",
        e.sv.queries, e.sv.sat, e.sv.unsat, e.sv.unknown, e.sv.time, e.sv.max_time, e.branches, e.fast_facts, e.fast_order, e.asserts, e.asserts_solver, e.tm.nodes.len(), e.fn_seen.len()
    ));
    o.push_str(&format!("\"timed_out\":{},\"error\":{},\"z3_checked\":{},\"z3_s\":{:.3},\"conflicts\":{},\"z3\":{},", e.timed_out, match (&err, &e.unsup) {
        (Some(x), _) => js(x),
        (None, Some(x)) => js(x),
        _ => "null".into(),
    }, e.sv.z3_checked, e.sv.z3_time, e.sv.b.conflicts, js(&z3::version())));
    let v: Vec<String> = e
        .viols
        .iter()
        .map(|v| format!("{{\"kind\":{},\"msg\":{},\"inputs\":{},\"stack\":[{}]}}", js(&v.kind), js(&v.msg), inputs(&v.inputs), v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")))
        .collect();
    o.push_str(&format!("\"violations\":[{}],", v.join(",")));
    let s: Vec<String> = e
        .samples
        .iter()
        .map(|s| format!("{{\"inputs\":{},\"outs\":[{}]}}", inputs(&s.inputs), s.outs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
        .collect();
    o.push_str(&format!("\"samples\":[{}],", s.join(",")));
    let c: Vec<String> = e.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    o.push_str(&format!("\"covers\":{{{}}},", c.join(",")));
    let c: Vec<String> = e.assert_ids.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    o.push_str(&format!("\"assert_ids\":{{{}}},", c.join(",")));
    o.push_str(&format!("\"functions\":[{}],", funcs.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    let mut byfile: BTreeMap<String, Vec<u32>> = BTreeMap::new();
    for (f, l) in lines {
        byfile.entry(f).or_default().push(l);
    }
    o.push_str(&format!("\"lines\":{{{}}},", byfile.iter().map(|(f, l)| format!("{}:[{}]", js(f), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"crates\":[{}]}}\n", other.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    if out.is_empty() {
        print!("{}", o);
    } else {
        std::fs::write(&out, o).unwrap();
    }
    0
}
