//! symex: symbolic execution of compiler IR.
//!
//!   symex --ir FILE            reads jobs from stdin, one per line: JSON-free text
//!        run <id> <entry> <paths> <secs> <steps> <samples> <arg>...
//!        cov <path prefix>
//!   and answers each with one line of JSON on stdout.
mod exec;
mod ir;
mod term;
mod z3;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, Write};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    let t = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    t.join().unwrap();
}

fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let mut irf = String::new();
    let mut opts = exec::Opts::default();
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--ir" => {
                i += 1;
                irf = a[i].clone();
            }
            "--all-violations" => {
                i += 1;
                opts.continue_after_violation = a[i].parse().unwrap();
            }
            "--version" => {
                println!("{}", z3::version());
                return;
            }
            x => {
                eprintln!("unknown argument {}", x);
                std::process::exit(2);
            }
        }
        i += 1;
    }
    let m = match ir::Module::load(&irf) {
        Ok(m) => m,
        Err(e) => {
            println!("{{\"status\":\"unsupported\",\"msg\":{}}}", js(&e));
            std::process::exit(2);
        }
    };
    let mut e = exec::Eng::new(m, opts);
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() {
            continue;
        }
        match w[0] {
            "run" => {
                let id = w[1];
                let lim = exec::Limits { paths: w[3].parse().unwrap(), secs: w[4].parse().unwrap(), steps: w[5].parse().unwrap(), samples: w[6].parse().unwrap() };
                let args: Vec<u64> = w[7..].iter().map(|x| x.parse::<u64>().unwrap()).collect();
                let o = e.explore(w[2], &args, None, &lim);
                let s = &o.stats;
                let mut covers = String::new();
                for (k, v) in &s.covers {
                    covers.push_str(&format!("{}\"{}\":{}", if covers.is_empty() { "" } else { "," }, k, v));
                }
                let samples: Vec<String> = o
                    .samples
                    .iter()
                    .map(|x| format!("{{\"bytes\":\"{}\",\"hash\":\"{:016x}\",\"covers\":{:?}}}", hex(&x.bytes), x.hash, x.covers))
                    .collect();
                let viol: Vec<String> = o
                    .violations
                    .iter()
                    .map(|v| format!("{{\"kind\":{},\"id\":{},\"bytes\":\"{}\",\"stack\":[{}]}}", js(&v.kind), v.id, hex(&v.bytes), v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")))
                    .collect();
                let mut l = out.lock();
                writeln!(
                    l,
                    "{{\"job\":{},\"status\":{},\"msg\":{},\"paths\":{},\"killed\":{},\"forks\":{},\"branches\":{},\"steps\":{},\"asserts\":{},\"asserts_solver\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"query_cache_hits\":{},\"solver_s\":{:.4},\"solver_max_s\":{:.4},\"wall_s\":{:.3},\"nsym\":{},\"max_frames\":{},\"max_peak\":{},\"max_work\":{},\"max_words\":{},\"covers\":{{{}}},\"samples\":[{}],\"violations\":[{}]}}",
                    js(id), js(&o.status), js(&o.msg), s.paths, s.killed, s.forks, s.branches, s.steps, s.asserts, s.asserts_solver, o.queries, o.sat, o.unsat, s.qhits, o.ztime, o.zmax, o.wall, s.nsym, s.max_frames, s.max_peak, s.max_work, s.max_asserted_words, covers, samples.join(","), viol.join(",")
                )
                .unwrap();
                l.flush().unwrap();
            }
            "cov" => {
                let pre = w[1];
                let mut lines: BTreeMap<String, BTreeMap<u32, bool>> = BTreeMap::new();
                let mut funcs: BTreeSet<String> = BTreeSet::new();
                let mut cache: std::collections::HashMap<u32, Vec<(String, String, u32)>> = Default::default();
                for (f, vis) in e.cov.values() {
                    for (bi, b) in f.blocks.iter().enumerate() {
                        for (_, d) in &b.insts {
                            if *d == 0 {
                                continue;
                            }
                            let fr = cache.entry(*d).or_insert_with(|| e.m.loc_frames(*d));
                            for (name, file, line) in fr.iter() {
                                if file.starts_with(pre) {
                                    let x = lines.entry(file.clone()).or_default().entry(*line).or_default();
                                    *x |= vis[bi];
                                    if vis[bi] {
                                        funcs.insert(name.clone());
                                    }
                                }
                            }
                        }
                    }
                }
                let mut parts = vec![];
                for (f, ls) in &lines {
                    let hit: Vec<String> = ls.iter().filter(|x| *x.1).map(|x| x.0.to_string()).collect();
                    let miss: Vec<String> = ls.iter().filter(|x| !*x.1).map(|x| x.0.to_string()).collect();
                    parts.push(format!("{}:{{\"hit\":[{}],\"miss\":[{}]}}", js(f), hit.join(","), miss.join(",")));
                }
                let mut l = out.lock();
                writeln!(l, "{{\"cov\":{{{}}},\"funcs\":[{}],\"ir_functions\":{}}}", parts.join(","), funcs.iter().map(|f| js(f)).collect::<Vec<_>>().join(","), e.cov.len()).unwrap();
                l.flush().unwrap();
            }
            x => {
                eprintln!("unknown command {}", x);
                std::process::exit(2);
            }
        }
    }
}
