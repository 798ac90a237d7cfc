mod exec;
mod expr;
mod float;
mod ir;
mod lia;
mod mem;
mod solver;

use exec::*;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn ins(v: &[(String, Vec<u8>)]) -> String {
    let p: Vec<String> = v.iter().map(|(l, b)| format!("[{},\"{}\"]", esc(l), hex(b))).collect();
    format!("[{}]", p.join(","))
}

fn main() {
    // deep recursion in expression walks
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let code = t.join().unwrap_or(4);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let mut a = std::env::args().skip(1);
    let ll = a.next().expect("usage: symex FILE.ll HARNESS [options]");
    let h = a.next().expect("harness");
    let mut params = Vec::new();
    let mut split = (0usize, 1usize);
    let mut lim = Limits { max_steps: 20_000_000, max_paths: u64::MAX, max_secs: 600.0, max_bugs: 1 };
    let mut timeout = 60_000u32;
    let mut concrete = None;
    let mut dump = None;
    let mut log = false;
    while let Some(o) = a.next() {
        let mut v = || a.next().expect("option value");
        match o.as_str() {
            "--params" => params = v().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--split" => {
                let s = v();
                let (x, y) = s.split_once('/').unwrap();
                split = (x.parse().unwrap(), y.parse().unwrap());
            }
            "--steps" => lim.max_steps = v().parse().unwrap(),
            "--paths" => lim.max_paths = v().parse().unwrap(),
            "--secs" => lim.max_secs = v().parse().unwrap(),
            "--bugs" => lim.max_bugs = v().parse().unwrap(),
            "--timeout" => timeout = v().parse().unwrap(),
            "--concrete" => {
                let s = v();
                concrete = Some((0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>());
            }
            "--dump" => dump = Some(v()),
            "--log" => log = true,
            x => panic!("unknown option {}", x),
        }
    }
    expr::init();
    let m = ir::Module::load(&ll);
    let mut e = Engine::new(m, timeout, lim);
    e.params = params;
    e.concrete = concrete;
    e.solver.dump = dump;
    e.log = log;
    let st = e.entry_state(&h);
    let load = e.start.elapsed().as_secs_f64();
    e.explore(st, split);
    let s = e.solver.st.clone();
    let mut fns: Vec<(String, u64, u32)> = Vec::new();
    for (i, n) in e.entered.iter().enumerate() {
        if *n > 0 {
            let d = &e.m.funcs[i];
            let nm = if d.demangled.is_empty() { d.name.clone() } else { d.demangled.clone() };
            fns.push((nm, *n, d.insts.get()));
        }
    }
    fns.sort();
    let bugs: Vec<String> = e
        .bugs
        .iter()
        .map(|b| {
            let tr: Vec<String> = b.trace.iter().map(|s| esc(s)).collect();
            format!("{{\"kind\":{},\"msg\":{},\"trace\":[{}],\"inputs\":{}}}", esc(&b.kind), esc(&b.msg), tr.join(","), ins(&b.inputs))
        })
        .collect();
    let stuck: Vec<String> = e.stuck.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let covers: Vec<String> = e.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    let fnj: Vec<String> = fns.iter().map(|(n, c, i)| format!("[{},{},{}]", esc(n), c, i)).collect();
    let sam: Vec<String> = e
        .samples
        .iter()
        .map(|(i, c, l)| {
            let c: Vec<String> = c.iter().map(|x| x.to_string()).collect();
            let l: Vec<String> = l.iter().map(|x| x.to_string()).collect();
            format!("{{\"inputs\":{},\"covers\":[{}],\"logs\":[{}]}}", ins(i), c.join(","), l.join(","))
        })
        .collect();
    println!(
        "{{\"harness\":{},\"paths\":{},\"pruned\":{},\"forks\":{},\"switches\":{},\"steps\":{},\"asserts\":{},\"asserts_solver\":{},\"branch_queries\":{},\"queries\":{},\"cache_hits\":{},\"z3\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"slow\":{},\"solver_time\":{:.3},\"max_query\":{:.3},\"time\":{:.3},\"load\":{:.3},\"complete\":{},\"max_pc\":{},\"nodes\":{},\"bugs\":[{}],\"stuck\":{{{}}},\"covers\":{{{}}},\"functions\":[{}],\"samples\":[{}],\"z3_version\":{}}}",
        esc(&h),
        e.paths,
        e.pruned,
        e.forks,
        e.switches,
        e.steps,
        e.asserts,
        e.asserts_solver,
        e.branch_queries,
        s.asked,
        s.cache_hits,
        s.z3,
        s.sat,
        s.unsat,
        s.unknown,
        s.slow,
        s.time,
        s.max_time,
        e.start.elapsed().as_secs_f64(),
        load,
        !e.out_of_time && e.stuck.is_empty(),
        e.max_pc,
        expr::ctx().nodes.len(),
        bugs.join(","),
        stuck.join(","),
        covers.join(","),
        fnj.join(","),
        sam.join(","),
        esc(&solver::version()),
    );
    if !e.bugs.is_empty() {
        1
    } else if e.out_of_time || !e.stuck.is_empty() {
        2
    } else {
        0
    }
}
