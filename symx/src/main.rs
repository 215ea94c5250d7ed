//! symx: bounded symbolic execution of LLVM IR with an SMT solver (Z3) deciding every branch
//! and every assertion.
//! usage: symx <file.ll> <entry> <out.json> [key=value]...
mod exec;
mod expr;
mod ir;
mod solver;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicI32, AtomicU32, AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn getppid() -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
#[repr(C)]
struct Shared {
    active: AtomicI32,
    viol: AtomicU32,
    seq: AtomicU32,
    failed: AtomicU32,
    paths: AtomicU64,
    stop: AtomicU32,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn inputs_json(v: &[(String, u128)]) -> String {
    let p: Vec<String> = v.iter().map(|(k, x)| format!("[\"{}\",\"{}\"]", esc(k), x)).collect();
    format!("[{}]", p.join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: symx file.ll entry out.json [procs=8] [deadline=SEC] [maxviol=N] [samples=N] [v=1]");
        std::process::exit(3);
    }
    let opt = |k: &str, d: u64| -> u64 {
        args[4..].iter().find_map(|a| a.strip_prefix(&format!("{}=", k)).map(|x| x.parse().unwrap())).unwrap_or(d)
    };
    let t0 = Instant::now();
    let procs = opt("procs", 8) as i32;
    let deadline = opt("deadline", 600);
    let maxviol = opt("maxviol", 40) as u32;
    let module = ir::Module::load(&args[1]);
    let mut mc = Machine::new(module);
    mc.verbose = opt("v", 0) == 1;
    mc.sample_every = opt("sample_every", 37);
    mc.max_steps = opt("max_steps", 400_000_000);
    mc.deadline = Some(t0 + Duration::from_secs(deadline));
    let dump = opt("dump", 0) as usize;
    let tmp = format!("{}.parts", args[3]);
    let _ = std::fs::remove_dir_all(&tmp);
    std::fs::create_dir_all(&tmp).unwrap();
    let dumpdir = format!("{}.smt", args[3]);
    if dump > 0 {
        mc.s.dump_over = opt("dump_over", 0);
        let _ = std::fs::create_dir_all(&dumpdir);
        mc.s.dump = Some((dumpdir.clone(), dump));
    }
    let Some(st) = mc.initial(&args[2]) else {
        eprintln!("symx: entry {} not found", args[2]);
        std::process::exit(3);
    };
    mc.work.push(st);
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const Shared)
    };
    sh.active.store(1, Ordering::SeqCst);
    let root = std::process::id();
    let mut children: Vec<i32> = vec![];
    let mut me = 0u32;

    let mut iter = 0u64;
    loop {
        // give work away
        iter += 1;
        while mc.work.len() >= 2 && sh.active.load(Ordering::Relaxed) < procs && sh.stop.load(Ordering::Relaxed) == 0 {
            if sh.active.fetch_add(1, Ordering::SeqCst) >= procs {
                sh.active.fetch_sub(1, Ordering::SeqCst);
                break;
            }
            let seq = sh.seq.fetch_add(1, Ordering::SeqCst) + 1;
            let half = mc.work.len() / 2;
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe {
                    prctl(1, 9, 0, 0, 0); // die with parent
                    if getppid() == 1 {
                        _exit(9)
                    }
                }
                me = seq;
                children.clear();
                mc.work.truncate(half.max(1)); // the oldest half
                mc.rep = Report::default();
                mc.s.st = Default::default();
                if dump > 0 {
                    mc.s.dump = Some((dumpdir.clone(), if mc.s.dump_over > 0 { dump } else { 1 }));
                }
                break;
            } else if pid < 0 {
                sh.active.fetch_sub(1, Ordering::SeqCst);
                break;
            } else {
                children.push(pid);
                mc.work.drain(..half.max(1));
                if mc.work.is_empty() {
                    break;
                }
            }
        }
        // reap
        if iter % 64 == 0 {
            reap(&mut children, false, sh);
        }
        let Some(mut st) = mc.work.pop() else { break };
        if mc.deadline.map_or(false, |d| Instant::now() > d) || sh.stop.load(Ordering::Relaxed) != 0 {
            let why = if sh.stop.load(Ordering::Relaxed) != 0 { "stopped after enough violations" } else { "deadline" };
            *mc.rep.incomplete.entry(why.into()).or_default() += 1 + mc.work.len() as u64;
            mc.work.clear();
            break;
        }
        let before = mc.rep.violations.len();
        let stop = mc.run(&mut st);
        mc.finish(&st, stop);
        let nv = mc.rep.violations.len() - before;
        if nv > 0 && sh.viol.fetch_add(nv as u32, Ordering::SeqCst) + nv as u32 >= maxviol {
            sh.stop.store(1, Ordering::SeqCst);
        }
        let n = sh.paths.fetch_add(1, Ordering::Relaxed);
        if mc.verbose && n % 1000 == 0 {
            eprintln!("[{:.1}s] {} paths, active {}, work {}", t0.elapsed().as_secs_f64(), n, sh.active.load(Ordering::Relaxed), mc.work.len());
        }
    }
    write_part(&mc, &format!("{}/p{}", tmp, me));
    sh.active.fetch_sub(1, Ordering::SeqCst);
    reap(&mut children, true, sh);
    if std::process::id() != root {
        unsafe { _exit(0) };
    }
    if sh.failed.load(Ordering::SeqCst) > 0 {
        eprintln!("symx: a worker died");
    }
    merge(&args[3], &tmp, sh.seq.load(Ordering::SeqCst), t0, &args);
    let _ = std::fs::remove_dir_all(&tmp);
}

fn reap(children: &mut Vec<i32>, block: bool, sh: &Shared) {
    children.retain(|p| {
        let mut s = 0i32;
        let r = unsafe { waitpid(*p, &mut s, if block { 0 } else { 1 }) };
        if r == *p {
            if s != 0 {
                sh.failed.fetch_add(1, Ordering::SeqCst);
            }
            false
        } else {
            r == 0
        }
    });
}

fn write_part(mc: &Machine, path: &str) {
    let mut o = String::new();
    let r = &mc.rep;
    let s = &mc.s.st;
    let mut kv = |k: &str, v: u64| o.push_str(&format!("N\t{}\t{}\n", k, v));
    kv("paths", r.paths);
    kv("killed", r.killed);
    kv("steps", r.steps);
    kv("forks", r.forks);
    kv("asserts", r.asserts);
    kv("queries", s.queries);
    kv("sat", s.sat);
    kv("unsat", s.unsat);
    kv("unknown", s.unknown);
    kv("cache_hits", s.cache_hits);
    kv("hard", s.hard);
    kv("solver_us", s.time_us);
    kv("maxdepth", r.maxdepth as u64);
    kv("max_query_us", s.max_us);
    kv("exprs", expr::CTX.with(|c| c.borrow().nodes.len()) as u64);
    for (k, v) in &r.reach {
        o.push_str(&format!("R\t{}\t{}\n", k, v));
    }
    for (k, v) in &r.incomplete {
        o.push_str(&format!("X\t{}\t{}\n", k.replace(['\t', '\n'], " "), v));
    }
    for (k, v) in &r.vcount {
        o.push_str(&format!("C\t{}\t{}\n", k.replace(['\t', '\n'], " "), v));
    }
    for v in &r.violations {
        let tr: Vec<String> = v.trace.iter().map(|t| format!("\"{}\"", esc(t))).collect();
        o.push_str(&format!(
            "V\t{{\"kind\":\"{}\",\"msg\":\"{}\",\"trace\":[{}],\"inputs\":{}}}\n",
            esc(&v.kind),
            esc(&v.msg),
            tr.join(","),
            inputs_json(&v.inputs)
        ));
    }
    for v in r.samples.iter().take(40) {
        let ob: Vec<String> = v
            .obs
            .iter()
            .map(|(t, b)| format!("[\"{}\",\"{}\"]", esc(t), b.iter().map(|x| format!("{:02x}", x)).collect::<String>()))
            .collect();
        o.push_str(&format!("S\t{{\"inputs\":{},\"obs\":[{}]}}\n", inputs_json(&v.inputs), ob.join(",")));
    }
    for f in &mc.executed {
        o.push_str(&format!("F\t{}\n", demangle(&mc.m.funcs[*f as usize].name)));
    }
    // source lines
    let mut seen = BTreeSet::new();
    for f in &mc.m.funcs {
        if let Some(b) = &f.body {
            for (i, d) in b.dbg.iter().enumerate() {
                if *d != 0 && b.blocks[b.blk_of[i] as usize].cov.get() {
                    seen.insert(*d);
                }
            }
        }
    }
    let mut lines = BTreeSet::new();
    for d in seen {
        let mut cur = d;
        for _ in 0..64 {
            let Some((line, file, func, inl)) = loc(mc, cur) else { break };
            lines.insert((file, line, func));
            match inl {
                Some(i) => cur = i,
                None => break,
            }
        }
    }
    for (f, l, n) in lines {
        o.push_str(&format!("L\t{}\t{}\t{}\n", f, l, n));
    }
    std::fs::write(path, o).unwrap();
}

fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    let p = s.find(&format!("{}: ", k))?;
    // must be preceded by '(' or ' '
    let r = &s[p + k.len() + 2..];
    if r.starts_with('"') {
        let e = r[1..].find('"')?;
        return Some(&r[1..1 + e]);
    }
    let e = r.find([',', ')']).unwrap_or(r.len());
    Some(&r[..e])
}
fn md(mc: &Machine, id: u32) -> Option<&'static str> {
    let (a, e) = *mc.m.dbg_lines.get(&id)?;
    std::str::from_utf8(&mc.m.src[a..e]).ok()
}
fn mref(s: Option<&str>) -> Option<u32> {
    s?.trim().strip_prefix('!')?.parse().ok()
}
fn loc(mc: &Machine, id: u32) -> Option<(u32, String, String, Option<u32>)> {
    let s = md(mc, id)?;
    if !s.contains("!DILocation(") {
        return None;
    }
    let line: u32 = field(s, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
    let inl = mref(field(s, "inlinedAt"));
    let mut sc = mref(field(s, "scope"))?;
    for _ in 0..64 {
        let t = md(mc, sc)?;
        if t.contains("!DISubprogram(") {
            let name = field(t, "linkageName").or(field(t, "name")).unwrap_or("?");
            let fid = mref(field(t, "file"))?;
            let ft = md(mc, fid)?;
            let f = field(ft, "filename").unwrap_or("?");
            let d = field(ft, "directory").unwrap_or("");
            let file = if f.starts_with('/') { f.to_string() } else { format!("{}/{}", d, f) };
            return Some((line, file, demangle(name), inl));
        }
        sc = mref(field(t, "scope"))?;
    }
    None
}

fn merge(out: &str, tmp: &str, nparts: u32, t0: Instant, args: &[String]) {
    let mut n: BTreeMap<String, u64> = BTreeMap::new();
    let mut reach: BTreeMap<String, u64> = BTreeMap::new();
    let mut inc: BTreeMap<String, u64> = BTreeMap::new();
    let mut vc: BTreeMap<String, u64> = BTreeMap::new();
    let (mut viol, mut samp) = (vec![], vec![]);
    let mut funcs = BTreeSet::new();
    let mut lines: BTreeMap<String, (BTreeSet<u32>, BTreeSet<String>)> = BTreeMap::new();
    for i in 0..=nparts {
        let Ok(t) = std::fs::read_to_string(format!("{}/p{}", tmp, i)) else {
            *inc.entry("worker lost".into()).or_default() += 1;
            continue;
        };
        for l in t.lines() {
            let mut p = l.splitn(2, '\t');
            let (k, r) = (p.next().unwrap(), p.next().unwrap_or(""));
            let kv = || {
                let (a, b) = r.rsplit_once('\t').unwrap();
                (a.to_string(), b.parse::<u64>().unwrap())
            };
            match k {
                "N" => {
                    let (a, b) = kv();
                    let e = n.entry(a.clone()).or_default();
                    if a.starts_with("max") || a == "exprs" {
                        *e = (*e).max(b)
                    } else {
                        *e += b
                    }
                }
                "R" => {
                    let (a, b) = kv();
                    *reach.entry(a).or_default() += b
                }
                "X" => {
                    let (a, b) = kv();
                    *inc.entry(a).or_default() += b
                }
                "C" => {
                    let (a, b) = kv();
                    *vc.entry(a).or_default() += b
                }
                "V" => viol.push(r.to_string()),
                "S" => samp.push(r.to_string()),
                "F" => {
                    funcs.insert(r.to_string());
                }
                "L" => {
                    let q: Vec<&str> = r.splitn(3, '\t').collect();
                    let e = lines.entry(q[0].to_string()).or_default();
                    e.0.insert(q[1].parse().unwrap_or(0));
                    e.1.insert(q[2].to_string());
                }
                _ => {}
            }
        }
    }
    // thin out samples evenly
    if samp.len() > 200 {
        let k = samp.len() / 200 + 1;
        samp = samp.into_iter().enumerate().filter(|(i, _)| i % k == 0).map(|x| x.1).collect();
    }
    let obj = |m: &BTreeMap<String, u64>| {
        let p: Vec<String> = m.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
        format!("{{{}}}", p.join(","))
    };
    let fl: Vec<String> = funcs.iter().map(|f| format!("\"{}\"", esc(f))).collect();
    let ll: Vec<String> = lines
        .iter()
        .map(|(f, (l, fs))| {
            let ls: Vec<String> = l.iter().map(|x| x.to_string()).collect();
            let ff: Vec<String> = fs.iter().map(|x| format!("\"{}\"", esc(x))).collect();
            format!("\"{}\":{{\"lines\":[{}],\"functions\":[{}]}}", esc(f), ls.join(","), ff.join(","))
        })
        .collect();
    let j = format!(
        "{{\"entry\":\"{}\",\"wall_s\":{:.3},\"procs_used\":{},\"stats\":{},\"reach\":{},\"incomplete\":{},\"violation_counts\":{},\"violations\":[{}],\"samples\":[{}],\"functions\":[{}],\"source\":{{{}}}}}\n",
        esc(&args[2]),
        t0.elapsed().as_secs_f64(),
        nparts + 1,
        obj(&n),
        obj(&reach),
        obj(&inc),
        obj(&vc),
        viol.join(","),
        samp.join(","),
        fl.join(","),
        ll.join(",")
    );
    std::fs::write(out, j).unwrap();
}
