mod exec;
mod expr;
mod ir;
mod z3;
use exec::*;
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn kill(p: i32, s: i32) -> i32; fn signal(s: i32, h: usize) -> usize;
    fn setpgid(a: i32, b: i32) -> i32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}

fn main() {
    let t = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let code = t.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) };
    let flag = |k: &str| a.iter().any(|x| x == k);
    let ll = opt("--ll").expect("--ll");
    let entry = opt("--entry").expect("--entry");
    let out = opt("--out").expect("--out");
    let workers: i64 = opt("--workers").map(|x| x.parse().unwrap()).unwrap_or(8);
    let secs: f64 = opt("--seconds").map(|x| x.parse().unwrap()).unwrap_or(600.0);
    let rlimit: u32 = opt("--rlimit").map(|x| x.parse().unwrap()).unwrap_or(400_000_000);
    let max_steps: u64 = opt("--max-steps").map(|x| x.parse().unwrap()).unwrap_or(30_000_000);
    let max_depth: usize = opt("--max-depth").map(|x| x.parse().unwrap()).unwrap_or(3000);
    let concrete = opt("--concrete").map(|x| x.split(',').filter(|s| !s.is_empty()).map(|s| s.rsplit(':').next().unwrap().parse::<u128>().unwrap()).collect());
    let t0 = Instant::now();
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const Shared)
    };
    unsafe { setpgid(0, 0); prctl(36, 1, 0, 0, 0); }
    sh.active.store(1, Relaxed);
    // watchdog: a query that outlives the budget must not hang the check
    let (wout, wentry) = (out.clone(), entry.clone());
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs_f64(secs + 20.0));
        unsafe { signal(15, 1); kill(0, 15); }
        let _ = std::fs::write(&wout, format!("{{\"entry\":{},\"status\":\"timeout\",\"paths\":0,\"assume_pruned\":0,\"forks\":0,\"instructions\":0,\"queries\":0,\"sat\":0,\"unsat\":0,\"cached\":0,\"solver_s\":0.0,\"checks\":0,\"checks_valid\":0,\"max_symbols\":0,\"wall_s\":{:.1},\"violations\":[],\"samples\":[],\"errors\":[{{\"msg\":\"a solver query outlived the time budget\",\"count\":1}}],\"reach\":{{}},\"assumptions\":[],\"functions\":[]}}", js(&wentry), secs));
        eprintln!("{}: timeout (watchdog)", wentry);
        std::process::exit(2);
    });
    let src = std::fs::read(&ll).expect("read ll");
    let m = ir::Module::load(src);
    let tload = t0.elapsed().as_secs_f64();
    let opts = Opts { workers, deadline: Instant::now() + Duration::from_secs_f64(secs), max_steps, out: out.clone(), stop_first: !flag("--all"), max_depth, dump: opt("--dump"), trace: flag("--trace"), concrete, slow: flag("--hot") };
    let mut en = Engine::new(m, sh, opts, rlimit);
    let st = en.init_state(&entry);
    let mypid = std::process::id();
    en.explore(st);
    en.finish();
    sh.active.fetch_sub(1, Relaxed);
    let mut crashed = 0;
    loop {
        let mut s = 0;
        let p = unsafe { waitpid(-1, &mut s, 0) };
        if p <= 0 { break; }
        if s != 0 { crashed += 1; sh.stop.store(4, Relaxed); }
    }
    // merge
    let dir = std::path::Path::new(&out).parent().unwrap().to_path_buf();
    let base = std::path::Path::new(&out).file_name().unwrap().to_string_lossy().into_owned();
    let (mut v, mut e, mut r, mut f, mut asm) = (vec![], std::collections::BTreeMap::<String, u64>::new(), std::collections::BTreeMap::<String, u64>::new(), std::collections::BTreeSet::<String>::new(), std::collections::BTreeSet::<String>::new());
    let mut samples: Vec<(String, String)> = vec![];
    let mut hot = std::collections::BTreeMap::<String, (u64, u64)>::new();
    for ent in std::fs::read_dir(&dir).unwrap() {
        let ent = ent.unwrap();
        let nm = ent.file_name().to_string_lossy().into_owned();
        if nm.starts_with(&format!("{}.", base)) && nm[base.len() + 1..].bytes().all(|c| c.is_ascii_digit()) {
            let txt = std::fs::read_to_string(ent.path()).unwrap();
            for l in txt.lines() {
                let p: Vec<&str> = l.split('\t').collect();
                match p[0] {
                    "V" => v.push((p[1].to_string(), p[2].to_string(), p[3].to_string())),
                    "E" => *e.entry(p[2].to_string()).or_default() += p[1].parse::<u64>().unwrap(),
                    "R" => *r.entry(p[2].to_string()).or_default() += p[1].parse::<u64>().unwrap(),
                    "S" => samples.push((p[1].to_string(), p[2].to_string())),
                    "F" => { f.insert(p[1].to_string()); }
                    "A" => { asm.insert(p[1].to_string()); }
                    "Q" => { let x = hot.entry(format!("{} {}", p[3], p[4])).or_default(); x.0 += p[1].parse::<u64>().unwrap(); x.1 += p[2].parse::<u64>().unwrap(); }
                    _ => {}
                }
            }
            let _ = std::fs::remove_file(ent.path());
        }
    }
    let _ = mypid;
    let stop = sh.stop.load(Relaxed);
    let status = if !v.is_empty() { "violation" } else if !e.is_empty() || crashed > 0 { "error" } else if stop == 3 { "timeout" } else if stop != 0 { "error" } else { "ok" };
    let g = |x: &std::sync::atomic::AtomicU64| x.load(Relaxed);
    let mut o = String::new();
    o.push_str(&format!("{{\"entry\":{},\"status\":\"{}\",\"stop\":{},\"crashed\":{},\"wall_s\":{:.3},\"load_s\":{:.3},\"paths\":{},\"assume_pruned\":{},\"forks\":{},\"instructions\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"checks\":{},\"checks_valid\":{},\"processes\":{},\"max_symbols\":{},\"max_depth\":{},\"z3\":{},",
        js(&entry), status, stop, crashed, t0.elapsed().as_secs_f64(), tload, g(&sh.paths), g(&sh.infeasible), g(&sh.forks), g(&sh.instrs), g(&sh.queries), g(&sh.qsat), g(&sh.qunsat), g(&sh.qunknown), g(&sh.cached), g(&sh.solver_us) as f64 / 1e6, g(&sh.maxq_us) as f64 / 1e6, g(&sh.checks), g(&sh.checks_valid), g(&sh.procs) + 1, g(&sh.maxsym), g(&sh.maxdepth), js(&z3::Z3::version())));
    o.push_str("\"violations\":[");
    o.push_str(&v.iter().map(|(k, l, i)| format!("{{\"kind\":{},\"label\":{},\"inputs\":{}}}", js(k), js(l), js(i))).collect::<Vec<_>>().join(","));
    // spread the witnesses over the whole run
    samples.sort(); samples.dedup();
    let k = samples.len(); let keep = 64.min(k);
    let picked: Vec<_> = (0..keep).map(|i| samples[i * k / keep].clone()).collect();
    o.push_str("],\"samples\":[");
    o.push_str(&picked.iter().map(|(i, t)| format!("{{\"inputs\":{},\"trace\":{}}}", js(i), js(t))).collect::<Vec<_>>().join(","));
    o.push_str("],\"errors\":[");
    o.push_str(&e.iter().map(|(k, n)| format!("{{\"msg\":{},\"count\":{}}}", js(k), n)).collect::<Vec<_>>().join(","));
    o.push_str("],\"reach\":{");
    o.push_str(&r.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(","));
    o.push_str("},\"assumptions\":[");
    o.push_str(&asm.iter().map(|k| js(k)).collect::<Vec<_>>().join(","));
    o.push_str("],\"functions\":[");
    o.push_str(&f.iter().map(|k| js(k)).collect::<Vec<_>>().join(","));
    o.push_str("]}\n");
    std::fs::write(&out, o).unwrap();
    let mut hv: Vec<_> = hot.into_iter().collect();
    hv.sort_by_key(|x| std::cmp::Reverse(x.1 .1));
    for (k, (n, us)) in hv.iter().take(25) { eprintln!("HOT {:>8} {:>9.1}ms {}", n, *us as f64 / 1e3, k); }
    eprintln!("{}: {} paths={} forks={} instrs={} queries={} (cached {}) solver={:.1}s maxq={:.2}s wall={:.1}s viol={} err={}", entry, status, g(&sh.paths), g(&sh.forks), g(&sh.instrs), g(&sh.queries), g(&sh.cached), g(&sh.solver_us) as f64 / 1e6, g(&sh.maxq_us) as f64 / 1e6, t0.elapsed().as_secs_f64(), v.len(), e.len());
    match status { "ok" => 0, "violation" => 1, _ => 2 }
}
