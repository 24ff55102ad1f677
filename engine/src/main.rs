//! symir: bounded symbolic execution of LLVM IR with an SMT solver.
mod exec;
mod expr;
mod ir;
mod libc;
mod mem;
mod solver;

use exec::*;
use ir::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::Instant;

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn show_bytes(b: &[u8]) -> String {
    let mut s = String::from("b\"");
    for c in b {
        if *c >= 32 && *c < 127 && *c != b'"' && *c != b'\\' {
            s.push(*c as char);
        } else {
            s.push_str(&format!("\\x{:02x}", c));
        }
    }
    s.push('"');
    s
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Readable form of a v0-mangled name (paths only).
pub fn demangle(n: &str) -> String {
    let b = n.as_bytes();
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let mut parts = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let l: usize = n[st..i].parse().unwrap_or(0);
            let mut j = i;
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if l > 0 && j + l <= b.len() {
                parts.push(n[j..j + l].to_string());
                i = j + l;
                continue;
            }
        }
        if b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
            // crate disambiguator
            while i < b.len() && b[i] != b'_' {
                i += 1;
            }
        }
        i += 1;
    }
    parts.join("::")
}

fn main() {
    let h = std::thread::Builder::new()
        .stack_size(8 << 30)
        .spawn(real_main)
        .unwrap();
    match h.join() {
        Ok(code) => std::process::exit(code),
        Err(_) => std::process::exit(70),
    }
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut params: Vec<(String, u64)> = vec![];
    let mut verbose = false;
    let mut limit = 0f64;
    let mut traces = false;
    let mut force = false;
    let mut dump = None;
    let mut src_prefix: Vec<String> = vec![];
    let mut max_viol = 6;
    let mut qtimeout = 120u32;
    let mut i = 1;
    while i < args.len() {
        let next = |i: &mut usize| {
            *i += 1;
            args[*i].clone()
        };
        match args[i].as_str() {
            "--ir" => ll = next(&mut i),
            "--entry" => entry = next(&mut i),
            "--out" => out = next(&mut i),
            "--param" => {
                let p = next(&mut i);
                let (k, v) = p.split_once('=').unwrap();
                params.push((k.to_string(), v.parse().unwrap()));
            }
            "--verbose" => verbose = true,
            "--time" => limit = next(&mut i).parse().unwrap(),
            "--traces" => traces = true,
            "--force-z3" => force = true,
            "--dump" => dump = Some(next(&mut i)),
            "--src" => src_prefix.push(next(&mut i)),
            "--max-violations" => max_viol = next(&mut i).parse().unwrap(),
            "--query-timeout" => qtimeout = next(&mut i).parse().unwrap(),
            x => {
                eprintln!("unknown argument {}", x);
                return 64;
            }
        }
        i += 1;
    }
    if !out.is_empty() {
        let _ = std::fs::remove_file(&out);
        unsafe {
            exec::FATAL_HOOK = Some(out.clone());
        }
    }
    let t0 = Instant::now();
    let m = Rc::new(Module::load(&ll));
    let t_load = t0.elapsed().as_secs_f64();
    let mut x = Exec::new(m.clone());
    x.verbose = verbose;
    x.keep_traces = traces;
    x.solver.force_z3 = force;
    x.solver.set_timeout(qtimeout * 1000);
    x.max_viol = max_viol;
    if let Some(d) = dump {
        std::fs::create_dir_all(&d).unwrap();
        x.solver.dump = Some(d);
    }
    if limit > 0.0 {
        x.deadline = Some((Instant::now(), limit));
    }
    for (k, v) in &params {
        x.params.insert(k.clone(), *v);
    }
    let fid = match m.syms.get(&entry) {
        Some(Sym::Fn(i)) => *i,
        _ => fatal(&format!("no function {}", entry)),
    };
    let mut st = x.initial();
    x.push_call(&mut st, fid, vec![], false);
    let left = x.run(st, Stop { depth: 0, block: NONE });
    for s in left {
        x.end_path(&s, "returned");
    }
    let wall = t0.elapsed().as_secs_f64();

    // covered source lines and functions
    let mut fns: BTreeSet<String> = BTreeSet::new();
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut seen = std::collections::HashSet::new();
    for f in m.parsed() {
        for b in &f.blocks {
            if !b.hit.get() {
                continue;
            }
            for ins in &b.insts {
                if ins.dbg != 0 && seen.insert(ins.dbg) {
                    for (file, line, sp) in m.loc(ins.dbg) {
                        if src_prefix.iter().any(|p| file.contains(p.as_str())) {
                            fns.insert(demangle(&sp));
                            lines.entry(file.clone()).or_default().insert(line);
                        }
                    }
                }
            }
        }
    }
    let s = &x.solver.stats;
    let mut j = String::from("{\n");
    j.push_str(&format!("\"entry\": {},\n", json_str(&entry)));
    j.push_str(&format!(
        "\"params\": {{{}}},\n",
        params
            .iter()
            .map(|(k, v)| format!("{}: {}", json_str(k), v))
            .collect::<Vec<_>>()
            .join(", ")
    ));
    j.push_str(&format!(
        "\"paths\": {}, \"forks\": {}, \"merges\": {}, \"insts\": {}, \"wall\": {:.3}, \"load\": {:.3},\n",
        x.paths, x.forks, x.merges, x.insts, wall, t_load
    ));
    j.push_str(&format!(
        "\"ended\": {{{}}},\n",
        x.ended
            .iter()
            .map(|(k, v)| format!("{}: {}", json_str(k), v))
            .collect::<Vec<_>>()
            .join(", ")
    ));
    j.push_str(&format!(
        "\"solver\": {{\"name\": {}, \"queries\": {}, \"z3\": {}, \"sat\": {}, \"unsat\": {}, \"domain\": {}, \"model_hits\": {}, \"cache_hits\": {}, \"time\": {:.3}, \"max\": {:.3}, \"asserts\": {}, \"asserts_folded\": {}, \"asserts_z3\": {}}},\n",
        json_str(&solver::Solver::version()), s.queries, s.z3, s.z3_sat, s.z3_unsat, s.dom, s.model_hit, s.cache, s.z3_time, s.z3_max, s.assert_total, s.assert_folded, s.assert_z3
    ));
    j.push_str(&format!(
        "\"asserts\": {{{}}},\n",
        x.assert_msgs
            .iter()
            .map(|(k, v)| format!("{}: [{}, {}, {}]", json_str(k), v.0, v.1, v.2))
            .collect::<Vec<_>>()
            .join(", ")
    ));
    j.push_str(&format!(
        "\"reached\": {{{}}},\n",
        x.reached
            .iter()
            .map(|(k, v)| format!("{}: {}", json_str(k), v))
            .collect::<Vec<_>>()
            .join(", ")
    ));
    let list = |v: Vec<String>| v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ");
    j.push_str(&format!("\"functions\": [{}],\n", list(fns.into_iter().collect())));
    j.push_str(&format!(
        "\"lines\": {{{}}},\n",
        lines
            .iter()
            .map(|(f, l)| format!("{}: {}", json_str(f), l.len()))
            .collect::<Vec<_>>()
            .join(", ")
    ));
    j.push_str(&format!("\"externals\": [{}],\n", list(x.ext_used.iter().cloned().collect())));
    j.push_str(&format!("\"samples\": [{}],\n", list(x.samples.clone())));
    let inp = |v: &Vec<(String, u8, Vec<u8>)>| {
        v.iter()
            .map(|(n, k, b)| {
                format!(
                    "[{}, \"{}\", \"{}\"]",
                    json_str(n),
                    *k as char,
                    hex(b)
                )
            })
            .collect::<Vec<_>>()
            .join(", ")
    };
    if traces {
        j.push_str("\"traces\": [");
        for (k, (t, p)) in x.traces.iter().zip(x.path_inputs.iter()).enumerate() {
            if k > 0 {
                j.push_str(",\n");
            }
            j.push_str(&format!(
                "{{\"trace\": [{}], \"inputs\": [{}]}}",
                t.iter().map(|b| format!("\"{}\"", hex(b))).collect::<Vec<_>>().join(", "),
                inp(p)
            ));
        }
        j.push_str("],\n");
    }
    j.push_str("\"violations\": [");
    for (k, v) in x.violations.iter().enumerate() {
        if k > 0 {
            j.push_str(",\n");
        }
        j.push_str(&format!(
            "{{\"kind\": {}, \"msg\": {}, \"stack\": [{}], \"inputs\": [{}]}}",
            json_str(&v.kind),
            json_str(&v.msg),
            list(v.stack.iter().take(30).cloned().collect()),
            inp(&v.inputs)
        ));
    }
    j.push_str("]\n}\n");
    if !out.is_empty() {
        std::fs::write(&out, &j).unwrap();
    } else {
        println!("{}", j);
    }
    if verbose {
        let mut sites: Vec<_> = x.fork_sites.iter().collect();
        sites.sort_by(|a, b| b.1.cmp(a.1));
        for ((f, b), n) in sites.iter().take(15) {
            eprintln!("forks {:6} {} block {}", n, demangle(&m.fns[*f as usize].name), b);
        }
        eprintln!(
            "paths {} forks {} merges {} insts {} violations {} wall {:.2} (load {:.2}) z3 {} queries {:.2}s max {:.2}",
            x.paths, x.forks, x.merges, x.insts, x.violations.len(), wall, t_load, s.z3, s.z3_time, s.z3_max
        );
    }
    0
}
