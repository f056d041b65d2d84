//! symir: symbolic executor for the LLVM IR rustc emits for the harness crate (and /repo's crate in it).
mod exec;
mod ll;
mod term;
mod z3;

use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let _ = write!(o, "\\u{:04x}", (c as u32).min(0xffff));
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(m: &std::collections::BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    format!("{{{}}}", v.join(","))
}
fn nums(v: &[u64]) -> String {
    // 64-bit values are written as strings: JSON readers lose precision otherwise
    let v: Vec<String> = v.iter().map(|x| format!("\"{}\"", x)).collect();
    format!("[{}]", v.join(","))
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let has = |n: &str| args.iter().any(|a| a == n);
    let file = opt("--ll").expect("--ll FILE");
    let harness = opt("--harness").expect("--harness NAME");
    let shard = opt("--shard")
        .map(|s| {
            let (a, b) = s.split_once('/').unwrap();
            (a.parse().unwrap(), b.parse().unwrap())
        })
        .unwrap_or((0, 1));
    let t0 = std::time::Instant::now();
    let m = ll::Module::load(&file);
    let z = z3::Z3::new(opt("--solver-ms").and_then(|s| s.parse().ok()).unwrap_or(20000));
    let cfg = exec::Cfg {
        max_steps: opt("--max-steps").and_then(|s| s.parse().ok()).unwrap_or(40_000_000),
        time: opt("--time").and_then(|s| s.parse().ok()).unwrap_or(60.0),
        max_viol: opt("--max-viol").and_then(|s| s.parse().ok()).unwrap_or(8),
        samples: opt("--samples").and_then(|s| s.parse().ok()).unwrap_or(8),
        shard,
        panic_ok: has("--panic-ok"),
        trace: has("--trace"),
        tier: opt("--tier").and_then(|s| s.parse().ok()).unwrap_or(0),
        audit: (opt("--audit").and_then(|s| s.parse().ok()).unwrap_or(40), 4.0),
        max_states: opt("--max-states").and_then(|s| s.parse().ok()).unwrap_or(200_000),
    };
    let mut e = exec::Exec::new(m, z, cfg);
    let load = t0.elapsed().as_secs_f64();
    e.run(&harness);
    let s = &e.st;
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"harness\":{},\"shard\":\"{}/{}\",\"load_s\":{:.2},\"total_s\":{:.2},\"paths\":{},\"silent\":{},\"infeasible\":{},\"forks\":{},\"insts\":{},\"checks\":{},\"checks_folded\":{},\"checks_solver\":{},\"branch_solver\":{},\"branch_dom\":{},\"concretized\":{},\"panics_allowed\":{},\"max_vars\":{},\"timed_out\":{},",
        js(&harness), shard.0, shard.1, load, t0.elapsed().as_secs_f64(), s.paths, s.silent, s.infeasible, s.forks, s.insts, s.checks, s.checks_folded, s.checks_solver, s.branch_solver, s.branch_dom, s.concretized, s.panics_allowed, s.max_vars, e.timed_out
    );
    let _ = write!(
        o,
        "\"z3\":{{\"version\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"time_s\":{:.3}}},",
        js(&e.z3.version), e.z3.queries, e.z3.n_sat, e.z3.n_unsat, e.z3.n_unknown, e.z3.time
    );
    let _ = write!(
        o,
        "\"limits\":{},\"unsupported\":{},\"reach\":{},\"checkids\":{},",
        jmap(&s.limits), jmap(&s.unsupported), jmap(&s.reach), jmap(&s.checkids)
    );
    let bad: Vec<String> = s.audit_bad.iter().map(|x| js(x)).collect();
    let _ = write!(o, "\"audit\":{{\"queries\":{},\"unsat\":{},\"unknown\":{},\"bad\":[{}],\"path_sat\":{}}},", s.audits, s.audits_unsat, s.audits_unknown, bad.join(","), s.path_sat);
    let f: Vec<String> = e.used_functions().iter().map(|(n, k)| format!("[{},{}]", js(n), k)).collect();
    let _ = write!(o, "\"functions\":[{}],", f.join(","));
    let v: Vec<String> = e
        .viols
        .iter()
        .map(|v| {
            let st: Vec<String> = v.stack.iter().map(|x| js(x)).collect();
            format!("{{\"kind\":{},\"msg\":{},\"loc\":{},\"inputs\":{},\"stack\":[{}]}}", js(&v.kind), js(&v.msg), js(&v.loc), nums(&v.inputs), st.join(","))
        })
        .collect();
    let _ = write!(o, "\"violations\":[{}],", v.join(","));
    let v: Vec<String> = e.samples.iter().map(|v| format!("{{\"inputs\":{},\"obs\":{}}}", nums(&v.inputs), nums(&v.obs))).collect();
    let _ = write!(o, "\"samples\":[{}]}}\n", v.join(","));
    match opt("--out") {
        Some(p) => std::fs::write(p, o).expect("write --out"),
        None => print!("{}", o),
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let ok = h.join().is_ok();
    // skip destructors of large arenas
    std::process::exit(if ok { 0 } else { 2 });
}
