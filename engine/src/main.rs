mod exec;
mod expr;
mod ir;
mod parse;
mod solver;
mod z3;

use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn inputs_js(v: &[(u32, u128)]) -> String {
    format!("[{}]", v.iter().map(|(w, x)| format!("[{},{}]", w, x)).collect::<Vec<_>>().join(","))
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut file = None;
    let mut entry = None;
    let mut time = 600u64;
    let mut qms = 60000u32;
    let mut params = Vec::new();
    let mut max_steps = 5_000_000u64;
    let mut no_merge = false;
    let mut dump: Option<String> = None;
    let mut dump_max = 200u64;
    let mut maxv = 8usize;
    let mut concrete: Option<Vec<u128>> = None;
    let mut i = 1;
    while i < args.len() {
        let nx = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--time" => { time = nx.parse().unwrap(); i += 1 }
            "--query-ms" => { qms = nx.parse().unwrap(); i += 1 }
            "--steps" => { max_steps = nx.parse().unwrap(); i += 1 }
            "--param" => { params = nx.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(); i += 1 }
            "--dump-smt" => { dump = Some(nx); i += 1 }
            "--dump-max" => { dump_max = nx.parse().unwrap(); i += 1 }
            "--max-violations" => { maxv = nx.parse().unwrap(); i += 1 }
            "--concrete" => { concrete = Some(nx.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()); i += 1 }
            "--no-merge" => no_merge = true,
            s => {
                if file.is_none() { file = Some(s.to_string()) } else { entry = Some(s.to_string()) }
            }
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = match std::fs::read_to_string(file.as_deref().unwrap_or("")) {
        Ok(t) => t,
        Err(e) => {
            println!("{{\"status\":\"error\",\"errors\":[{}]}}", js(&e.to_string()));
            return 2;
        }
    };
    let m = match parse::parse_module(&text) {
        Ok(m) => m,
        Err(e) => {
            println!("{{\"status\":\"error\",\"errors\":[{}]}}", js(&format!("parse: {}", e)));
            return 2;
        }
    };
    let tparse = t0.elapsed().as_secs_f64();
    let mut x = exec::Exec::new(&m, qms);
    x.params = params;
    x.max_steps = max_steps;
    x.no_merge = no_merge;
    x.max_violations = maxv;
    x.concrete = concrete;
    x.deadline = Instant::now() + Duration::from_secs(time);
    if let Some(d) = dump {
        x.s.dump = std::fs::File::create(d).ok();
        x.s.dump_max = dump_max;
    }
    let entry = entry.unwrap_or_default();
    x.run(&entry);
    let status = if !x.violations.is_empty() {
        "violation"
    } else if !x.errors.is_empty() || x.s.unknown > 0 {
        "error"
    } else {
        "ok"
    };
    let viol: Vec<String> = x
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"msg\":{},\"stack\":[{}],\"inputs\":{},\"notes\":[{}]}}",
                js(&v.kind),
                js(&v.msg),
                v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
                inputs_js(&v.inputs),
                v.notes.iter().map(|(n, v)| format!("[{},{}]", js(n), v)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    let funcs: Vec<String> = x.funcs_run.iter().map(|f| js(&m.funcs[*f].name)).collect();
    let covers: Vec<String> = x.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let asserts: Vec<String> = x.asserts.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect();
    println!(
        "{{\"harness\":{},\"status\":\"{}\",\"violations\":[{}],\"errors\":[{}],\"paths\":{},\"assumed_away\":{},\"insts\":{},\"forks\":{},\"merged_regions\":{},\"functions\":[{}],\"blocks\":{},\"covers\":{{{}}},\"asserts\":{{{}}},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"vars\":{},\"terms\":{},\"parse_s\":{:.3},\"wall_s\":{:.3},\"max_pc\":{},\"samples\":[{}]}}",
        js(&entry),
        status,
        viol.join(","),
        x.errors.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        x.paths,
        x.infeasible,
        x.insts,
        x.forks,
        x.merges,
        funcs.join(","),
        x.blocks_run.len(),
        covers.join(","),
        asserts.join(","),
        x.s.queries,
        x.s.sat,
        x.s.unsat,
        x.s.unknown,
        x.s.cache_hits,
        x.s.time,
        x.s.max_time,
        x.vars_made,
        x.x.nodes.len(),
        tparse,
        t0.elapsed().as_secs_f64(),
        x.max_pc,
        x.samples.iter().map(|s| inputs_js(s)).collect::<Vec<_>>().join(",")
    );
    match status {
        "ok" => 0,
        "violation" => 1,
        _ => 2,
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(2);
    std::process::exit(code);
}
