mod exec;
mod ir;
mod term;
mod z3;
use std::time::{Duration, Instant};

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }
fn list<X>(v: &[X], f: impl Fn(&X) -> String) -> String { format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(",")) }
fn inputs(v: &[(u16, u128)]) -> String { list(v, |x| format!("[{},{}]", x.0, js(&x.1.to_string()))) }
fn nums(v: &[u128]) -> String { list(v, |x| js(&x.to_string())) }

fn main() {
    let th = std::thread::Builder::new().stack_size(2 << 30).spawn(move || {
        let a: Vec<String> = std::env::args().collect();
        let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
        let num = |k: &str, d: u64| get(k).map_or(d, |v| v.parse().unwrap());
        let ir = get("--ir").expect("--ir");
        let entry = get("--entry").expect("--entry");
        let secs = num("--time", 60);
        let t0 = Instant::now();
        let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&ir)));
        let load = t0.elapsed().as_secs_f64();
        let params = get("--params").map_or(vec![], |s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
        let cfg = exec::Cfg { max_steps: num("--steps", 5_000_000), deadline: Instant::now() + Duration::from_secs(secs), max_paths: num("--paths", 10_000_000), samples: num("--samples", 5) as usize, params, max_viol: num("--max-viol", 6) as usize, switch_bound: num("--switches", 4) as u32, verbose: a.iter().any(|x| x == "-v"), seed: num("--seed", 1), quiet_fmt: num("--quiet-fmt", 0) != 0 };
        let mut z = z3::Z3::new(num("--t-inc", 3000) as u32, num("--t-full", 60000) as u32);
        z.dump = get("--dump");
        z.t_lia = num("--t-lia", 4000) as u32;
        let mut e = exec::Eng::new(m, cfg, z);
        e.start(&entry);
        e.run();
        let viol = |v: &exec::Violation| format!("{{\"kind\":{},\"label\":{},\"region\":{},\"loc\":{},\"stack\":{},\"inputs\":{},\"obs\":{},\"sched\":{}}}", js(&v.kind), js(&v.label), js(&v.region), js(&v.loc), list(&v.stack, |s| js(s)), inputs(&v.inputs), nums(&v.obs), list(&v.sched, |x| format!("[{},{}]", x.0, x.1)));
        let map = |m: &std::collections::BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        let called: Vec<String> = e.called.iter().map(|i| m.fns[*i].name.clone()).collect();
        let stubs: Vec<String> = e.stubs.iter().cloned().collect();
        let out = format!("{{\"entry\":{},\"z3\":{},\"wall\":{:.3},\"load\":{:.3},\"paths\":{},\"killed\":{},\"forks\":{},\"instrs\":{},\"terms\":{},\"asserts\":{},\"assert_unsat\":{},\"asserts_by\":{},\"panics\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"fallback\":{},\"lia\":{},\"solver_s\":{:.3},\"slowest\":{:.3},\"truncated\":{},\"covers\":{},\"stubs\":{},\"viol_count\":{},\"violations\":{},\"suspects\":{},\"samples\":{},\"functions\":{}}}\n",
            js(&entry), js(&z3::Z3::version()), t0.elapsed().as_secs_f64(), load, e.paths, e.killed, e.forks, e.instrs, e.ar.nodes.len(), e.asserts, e.assert_unsat, map(&e.asserts_by), e.panics, e.z.queries, e.z.sat, e.z.unsat, e.z.unknown, e.z.cache_hits, e.z.fallback, e.z.lia_queries, e.z.time, e.z.slowest, map(&e.truncated), map(&e.covers), list(&stubs, |s| js(s)), map(&e.viol_count), list(&e.viol, |v| viol(v)), list(&e.suspects, |v| viol(v)), list(&e.samples, |s| format!("{{\"inputs\":{},\"obs\":{}}}", inputs(&s.0), nums(&s.1))), list(&called, |s| js(s)));
        match get("--out") { Some(p) => std::fs::write(p, out).unwrap(), None => print!("{out}") }
        let _ = std::io::Write::flush(&mut std::io::stdout());
        std::process::exit(0);
    }).unwrap();
    if th.join().is_err() { std::process::exit(3); }
}
