//! Command line: check / replay / worker / exec / determinism.
use crate::props::{self, Spec};
use crate::real::{Class, Viol};
use crate::rng::{mix, Rng};
use crate::run::Outcome;
use crate::sx::{self, Sx};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub fn flag(args: &[String], k: &str) -> Option<String> { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()) }
fn fnv(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3) } h }
fn spec(id: &str) -> Spec { match props::specs().into_iter().find(|s| s.id == id) { Some(s) => s, None => { eprintln!("unknown property {}", id); std::process::exit(2) } } }
pub fn run_seed(seed: u64, prop: &str, i: u64) -> u64 { mix(mix(seed, fnv(prop)), i) }
/// The scenario of run number `i`: a pure function of (seed, property, i).
pub fn scenario(sp: &Spec, seed: u64, i: u64) -> (Sx, &'static str) {
    let mut r = Rng::new(run_seed(seed, sp.id, i));
    let w: Vec<usize> = sp.lanes.iter().map(|l| l.weight).collect();
    let l = &sp.lanes[r.weighted(&w)];
    ((l.make)(&mut r), l.name)
}
fn owned<'a>(sp: &Spec, o: &'a Outcome) -> Option<&'a Viol> { o.viols.iter().find(|v| sp.owned.contains(&v.class)) }
fn hash_sx(s: &Sx) -> u64 { fnv(&s.to_string()) }

pub fn main(args: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    for k in ["ADAPTON_NO_PURITY", "ADAPTON_CHECK_DCG", "ADAPTON_WRITE_DCG", "ADAPTON_STRUCTURAL"] { std::env::remove_var(k) }
    match args.get(0).map(|s| s.as_str()) {
        Some("check") => check(args),
        Some("worker") => worker(args),
        Some("exec") => exec_file(args),
        Some("replay") => replay(args),
        Some("show") => { let sp = spec(&flag(args, "--prop").unwrap()); let seed = flag(args, "--seed").map(|s| s.parse().unwrap()).unwrap_or(1); let i = flag(args, "--run").unwrap().parse().unwrap(); print!("{}", sx::pretty(&scenario(&sp, seed, i).0)); 0 }
        Some("min") => min_cmd(args),
        Some("survey") => survey(args),
        Some("digest") => digest(args),
        _ => { eprintln!("usage: sim check --prop ID [--tier quick|thorough] [--seed N] | replay FILE | survey --prop ID --runs N | digest --prop ID --runs N --start A"); 2 }
    }
}
// ---- worker ----
fn worker(args: &[String]) -> i32 {
    let id = flag(args, "--prop").unwrap(); let sp = spec(&id);
    let n = |k: &str| -> u64 { flag(args, k).unwrap().parse().unwrap() };
    let (seed, w, stride, runs, secs, start) = (n("--seed"), n("--w"), n("--stride"), n("--runs"), n("--secs"), n("--start"));
    let dir = PathBuf::from(flag(args, "--dir").unwrap());
    let cwd = dir.join(format!("cwd{}", w)); fs::create_dir_all(&cwd).unwrap(); std::env::set_current_dir(&cwd).unwrap();
    let prog = fs::OpenOptions::new().create(true).write(true).truncate(true).open(dir.join(format!("at{}", w))).unwrap();
    let stop = dir.join("stop");
    let t0 = Instant::now();
    let mut sum: BTreeMap<String, u64> = BTreeMap::new();
    let mut states: HashSet<u64> = HashSet::new(); let mut scns: HashSet<u64> = HashSet::new();
    let mut foreign: BTreeMap<Class, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut i = start + w; let mut done = 0u64; let mut capped = 0; let mut viol: Option<(u64, Viol, Sx)> = None;
    while i < runs {
        if done % 8 == 0 {
            if t0.elapsed() > Duration::from_secs(secs) { capped = 1; break }
            if let Ok(s) = fs::read_to_string(&stop) { if let Ok(m) = s.trim().parse::<u64>() { if i > m { break } } }
        }
        prog.write_all_at(format!("{:>20}", i).as_bytes(), 0).unwrap();
        let (s, lane) = scenario(&sp, seed, i);
        let o = match props::exec(&id, &s) { Ok(o) => o, Err(e) => { eprintln!("HARNESS-ERROR run {}: {}", i, e); return 3 } };
        // the printed form is what a replay file holds: it must mean the same
        done += 1;
        *sum.entry(format!("lane_{}", lane)).or_default() += 1;
        for (k, v) in o.stats.fields().into_iter().chain(o.extra.iter().map(|x| (x.0, x.1))) { *sum.entry(k.to_string()).or_default() += v }
        if states.len() < 3_000_000 { states.extend(o.states.iter()) }
        if props::is_nontrivial(&id, &o) { scns.insert(hash_sx(&s)); if samples.len() < 2 && s.size() < 400 { samples.push(s.to_string()) } }
        if let Some(v) = owned(&sp, &o) { viol = Some((i, v.clone(), s)); break }
        for v in &o.viols { *foreign.entry(v.class).or_default() += 1; }
        i += stride;
    }
    let mut f = fs::File::create(dir.join(format!("res{}", w))).unwrap();
    writeln!(f, "runs {}\ncapped {}\nms {}", done, capped, t0.elapsed().as_millis()).unwrap();
    for (k, v) in &sum { writeln!(f, "stat {} {}", k, v).unwrap() }
    for (k, v) in &foreign { writeln!(f, "foreign {:?} {}", k, v).unwrap() }
    for s in &samples { writeln!(f, "sample {}", s).unwrap() }
    if let Some((i, v, s)) = &viol {
        writeln!(f, "viol {} {:?} {}", i, v.class, v.msg.replace('\n', " ")).unwrap();
        fs::write(dir.join(format!("viol{}", w)), s.to_string()).unwrap();
        let cur = fs::read_to_string(&stop).ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(u64::MAX);
        if *i < cur { let tmp = dir.join(format!("stop.{}", w)); fs::write(&tmp, i.to_string()).unwrap(); fs::rename(&tmp, &stop).unwrap() }
    }
    let dump = |name: &str, h: &HashSet<u64>| { let mut b = Vec::with_capacity(h.len() * 8); for x in h { b.extend_from_slice(&x.to_le_bytes()) } fs::write(dir.join(format!("{}{}", name, w)), b).unwrap() };
    dump("states", &states); dump("scns", &scns);
    writeln!(f, "end").unwrap();
    0
}
struct Scratch(PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = fs::remove_dir_all(&self.0); } }
fn scratch() -> Scratch { let d = std::env::temp_dir().join(format!("adapton-sim-{}-{}", std::process::id(), Instant::now().elapsed().as_nanos())); fs::create_dir_all(&d).unwrap(); Scratch(d) }
/// Run one scenario in a process of its own. Ok(None): no owned violation.
fn exec_sub(prop: &str, s: &Sx, dir: &Path, secs: u64) -> Result<Option<(Class2, String)>, String> {
    let f = dir.join("exec.sx"); let out = dir.join("exec.out"); let _ = fs::remove_file(&out);
    fs::write(&f, s.to_string()).unwrap();
    let cwd = dir.join("execcwd"); fs::create_dir_all(&cwd).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap()).args(["exec", "--prop", prop, "--file"]).arg(&f).arg("--out").arg(&out).current_dir(&cwd).stdout(Stdio::null()).stderr(Stdio::null()).stdin(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let t0 = Instant::now();
    let st = loop { match c.try_wait().map_err(|e| e.to_string())? { Some(s) => break Some(s), None => { if t0.elapsed() > Duration::from_secs(secs) { let _ = c.kill(); let _ = c.wait(); break None } std::thread::sleep(Duration::from_millis(2)) } } };
    match st {
        None => Ok(Some((Class2::Hang, format!("no progress within {} s", secs)))),
        Some(s) if s.code() == Some(0) => Ok(None),
        Some(s) if s.code() == Some(10) => { let t = fs::read_to_string(&out).unwrap_or_default(); let (c, m) = t.split_once(' ').unwrap_or(("", "")); Ok(Some((Class2::Named(c.to_string()), m.trim().to_string()))) }
        Some(s) if s.code() == Some(2) || s.code() == Some(3) => Err(format!("exec: {:?}", s)),
        Some(s) => { use std::os::unix::process::ExitStatusExt; Ok(Some((Class2::Hang, format!("the process died ({})", match s.signal() { Some(6) => "abort: stack overflow or panic while panicking".to_string(), Some(11) => "stack overflow".to_string(), x => format!("signal {:?}, code {:?}", x, s.code()) })))) }
    }
}
#[derive(Clone, PartialEq, Debug)]
enum Class2 { Hang, Named(String) }
impl Class2 { fn name(&self) -> String { match self { Class2::Hang => "Hang".into(), Class2::Named(s) => s.clone() } } }
fn exec_file(args: &[String]) -> i32 {
    let id = flag(args, "--prop").unwrap(); let sp = spec(&id);
    let s = match sx::parse(&fs::read_to_string(flag(args, "--file").unwrap()).unwrap()) { Ok(s) => s, Err(e) => { eprintln!("{}", e); return 2 } };
    match props::exec(&id, &s) {
        Err(e) => { eprintln!("{}", e); 2 }
        Ok(o) => match owned(&sp, &o) { None => 0, Some(v) => { if let Some(f) = flag(args, "--out") { fs::write(f, format!("{:?} {}", v.class, v.msg)).unwrap() } 10 } },
    }
}
fn replay(args: &[String]) -> i32 {
    let f = match args.get(1) { Some(f) => f, None => return 2 };
    let s = match fs::read_to_string(f).map_err(|e| e.to_string()).and_then(|t| sx::parse(&t)) { Ok(s) => s, Err(e) => { eprintln!("{}", e); return 2 } };
    let get = |k: &str| -> Option<Sx> { s.list().ok()?.iter().find(|x| x.head().map(|h| h == k).unwrap_or(false)).and_then(|x| x.at(1).ok().cloned()) };
    let (prop, scn) = match (get("property"), get("scenario")) { (Some(p), Some(s)) => (p.to_string(), s), _ => { eprintln!("not a replay file"); return 2 } };
    let d = scratch();
    match exec_sub(&prop, &scn, &d.0, 60) {
        Err(e) => { eprintln!("{}", e); 2 }
        Ok(None) => { println!("no violation of {} on this tree", prop); 0 }
        Ok(Some((c, m))) => {
            println!("{} {}", c.name(), m);
            let want = get("violation").map(|x| x.to_string());
            if want.as_deref() != Some(&c.name()) { println!("note: recorded as {:?}", want) }
            println!("VIOLATION property={} replay={}", prop, f); 1
        }
    }
}
fn survey(args: &[String]) -> i32 {
    let id = flag(args, "--prop").unwrap(); let sp = spec(&id);
    let n: u64 = flag(args, "--runs").unwrap().parse().unwrap(); let start: u64 = flag(args, "--start").map(|x| x.parse().unwrap()).unwrap_or(0);
    let seed = flag(args, "--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let show: usize = flag(args, "--show").map(|x| x.parse().unwrap()).unwrap_or(3);
    let all = args.iter().any(|a| a == "--all");
    let mut cnt: BTreeMap<Class, (u64, Vec<(u64, String)>)> = BTreeMap::new();
    let dir = scratch(); std::env::set_current_dir(&dir.0).unwrap();
    let at = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    { let at = at.clone(); std::thread::spawn(move || { let mut was = u64::MAX; loop { std::thread::sleep(Duration::from_secs(4)); let i = at.load(std::sync::atomic::Ordering::Relaxed); if i == was { println!("stuck in run {}", i); std::process::exit(1) } was = i } }); }
    let mut sum: BTreeMap<String, u64> = BTreeMap::new(); let t0 = Instant::now();
    for i in start..start + n {
        let (s, _) = scenario(&sp, seed, i);
        at.store(i, std::sync::atomic::Ordering::Relaxed);
        let o = props::exec(&id, &s).unwrap();
        for (k, v) in o.stats.fields().into_iter().chain(o.extra.iter().map(|x| (x.0, x.1))) { *sum.entry(k.to_string()).or_default() += v }
        let mut seen = HashSet::new();
        for v in &o.viols { if (all || sp.owned.contains(&v.class)) && seen.insert(v.class) { let e = cnt.entry(v.class).or_default(); e.0 += 1; if e.1.len() < show { e.1.push((i, v.msg.clone())) } } }
    }
    println!("{} runs in {:?}", n, t0.elapsed());
    for (c, (n, ex)) in &cnt { println!("{:?}: {} runs", c, n); for (i, m) in ex { println!("   run {}: {}", i, m) } }
    println!("{:?}", sum);
    0
}
/// One line per run: digest of everything observed; used to prove determinism.
fn digest(args: &[String]) -> i32 {
    let id = flag(args, "--prop").unwrap(); let sp = spec(&id);
    let n: u64 = flag(args, "--runs").unwrap().parse().unwrap(); let start: u64 = flag(args, "--start").map(|x| x.parse().unwrap()).unwrap_or(0);
    let seed = flag(args, "--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let dir = scratch(); std::env::set_current_dir(&dir.0).unwrap();
    for i in start..start + n {
        let (s, _) = scenario(&sp, seed, i);
        let o = props::exec(&id, &s).unwrap();
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for v in &o.viols { v.msg.hash(&mut h) }
        o.digest.hash(&mut h); o.states.hash(&mut h); format!("{:?}", o.stats).hash(&mut h); format!("{:?}", o.extra).hash(&mut h);
        println!("{} {:x} {:x}", i, hash_sx(&s), h.finish());
    }
    0
}
// ---- check ----
fn verif_dir() -> PathBuf { std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif")) }
fn jstr(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o.push('"'); o }
fn check(args: &[String]) -> i32 {
    let id = flag(args, "--prop").unwrap(); let sp = spec(&id);
    let tier = flag(args, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: u64 = flag(args, "--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let runs = flag(args, "--runs").map(|x| x.parse().unwrap()).unwrap_or(if tier == "quick" { sp.quick } else { sp.thorough });
    let secs: u64 = flag(args, "--secs").map(|x| x.parse().unwrap()).unwrap_or(if tier == "quick" { 240 } else { 5400 });
    let nw: u64 = flag(args, "--workers").map(|x| x.parse().unwrap()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 8));
    println!("property {} tier {} seed {} runs {} workers {}", id, tier, seed, runs, nw);
    let t0 = Instant::now();
    let d = scratch(); let dir = d.0.clone();
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<(Child, u64, Instant, String)> = (0..nw).map(|w| {
        let log = fs::File::create(dir.join(format!("log{}", w))).unwrap();
        let c = Command::new(&exe).args(["worker", "--prop", &id, "--seed", &seed.to_string(), "--w", &w.to_string(), "--stride", &nw.to_string(), "--runs", &runs.to_string(), "--secs", &secs.to_string(), "--start", "0", "--dir"]).arg(&dir)
            .stdin(Stdio::null()).stdout(Stdio::null()).stderr(log).spawn().expect("spawn worker");
        (c, w, Instant::now(), String::new())
    }).collect();
    let mut crashed: Vec<(u64, String)> = vec![];
    let mut bad_exit = None;
    while !kids.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut k = 0;
        while k < kids.len() {
            let w = kids[k].1;
            let at = fs::read_to_string(dir.join(format!("at{}", w))).unwrap_or_default().trim().to_string();
            if at != kids[k].3 { kids[k].3 = at.clone(); kids[k].2 = Instant::now() }
            let mut gone = None;
            match kids[k].0.try_wait().unwrap() {
                Some(s) if s.code() == Some(0) => { kids.remove(k); continue }
                Some(s) if s.code() == Some(3) || s.code() == Some(2) => { bad_exit = Some(w); kids.remove(k); continue }
                Some(s) => gone = Some(format!("worker died: {:?}", s)),
                None => if kids[k].2.elapsed() > Duration::from_secs(90) { let _ = kids[k].0.kill(); let _ = kids[k].0.wait(); gone = Some("no progress for 90 s".into()) },
            }
            if let Some(m) = gone {
                kids.remove(k);
                match at.parse::<u64>() {
                    Ok(i) => { crashed.push((i, m)); let stop = dir.join("stop"); let cur = fs::read_to_string(&stop).ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(u64::MAX); if i < cur { fs::write(&stop, i.to_string()).unwrap() } }
                    Err(_) => bad_exit = Some(w),
                }
                continue;
            }
            k += 1;
        }
    }
    if let Some(w) = bad_exit { eprintln!("HARNESS-ERROR worker {}: {}", w, fs::read_to_string(dir.join(format!("log{}", w))).unwrap_or_default()); return 2 }
    // collect
    let mut total = 0u64; let mut capped = false; let mut sum: BTreeMap<String, u64> = BTreeMap::new(); let mut foreign: BTreeMap<String, u64> = BTreeMap::new(); let mut samples: Vec<String> = vec![];
    let mut viols: Vec<(u64, String, String, u64)> = vec![];
    let (mut states, mut scns): (HashSet<u64>, HashSet<u64>) = Default::default();
    for w in 0..nw {
        let t = fs::read_to_string(dir.join(format!("res{}", w))).unwrap_or_default();
        for l in t.lines() {
            let p: Vec<&str> = l.splitn(2, ' ').collect(); if p.len() < 2 { continue }
            match p[0] {
                "runs" => total += p[1].parse::<u64>().unwrap(), "capped" => capped |= p[1] == "1",
                "stat" => { let (k, v) = p[1].rsplit_once(' ').unwrap(); *sum.entry(k.into()).or_default() += v.parse::<u64>().unwrap() }
                "foreign" => { let (k, v) = p[1].rsplit_once(' ').unwrap(); *foreign.entry(k.into()).or_default() += v.parse::<u64>().unwrap() }
                "sample" => if samples.len() < 3 { samples.push(p[1].into()) },
                "viol" => { let q: Vec<&str> = p[1].splitn(3, ' ').collect(); viols.push((q[0].parse().unwrap(), q[1].into(), q[2].into(), w)) }
                _ => {}
            }
        }
        let load = |name: &str, h: &mut HashSet<u64>| if let Ok(b) = fs::read(dir.join(format!("{}{}", name, w))) { for c in b.chunks_exact(8) { h.insert(u64::from_le_bytes(c.try_into().unwrap())); } };
        load("states", &mut states); load("scns", &mut scns);
    }
    for (i, m) in crashed { viols.push((i, "Hang".into(), m, u64::MAX)) }
    viols.sort();
    let explore_s = t0.elapsed().as_secs_f64();
    let vd = verif_dir();
    let known = known_findings(&vd, &id, &dir);
    let mut verdict = 0;
    let mut min_note = String::from("null");
    if let Some((i, class, msg, w)) = viols.first() {
        let (scn, _) = if *w == u64::MAX { scenario(&sp, seed, *i) } else { (sx::parse(&fs::read_to_string(dir.join(format!("viol{}", w))).unwrap()).unwrap(), "") };
        println!("run {} (seed {}): {} {}", i, seed, class, msg);
        // A violation may depend on state that earlier runs left behind in the
        // worker's process (something shared between threads); find a run that
        // shows it in a process of its own.
        let (mut i, mut scn, mut class, mut msg) = (*i, scn, class.clone(), msg.clone());
        if class != "Hang" && !matches!(exec_sub(&id, &scn, &dir, 30), Ok(Some((ref c, _))) if c.name() == class) {
            println!("not reproduced in a fresh process; looking for a run that is");
            let t = Instant::now(); let mut j = 0;
            while j < runs && t.elapsed() < Duration::from_secs(90) {
                let (s, _) = scenario(&sp, seed, j);
                if let Ok(Some((c, m))) = exec_sub(&id, &s, &dir, 30) { println!("run {}: {} {}", j, c.name(), m); i = j; scn = s; class = c.name(); msg = m; break }
                j += 1;
            }
        }
        let (i, class, msg) = (&i, &class, &msg);
        // minimisation happens in another process, which a bad candidate may take down
        fs::write(dir.join("min.in"), scn.to_string()).unwrap();
        let cwd = dir.join("mincwd"); fs::create_dir_all(&cwd).unwrap();
        let budget = if tier == "quick" { 90 } else { 300 };
        if let Ok(mut c) = Command::new(&exe).args(["min", "--prop", &id, "--class", class, "--secs", &budget.to_string(), "--dir"]).arg(&dir).current_dir(&cwd).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
            let t = Instant::now();
            while let Ok(None) = c.try_wait() { if t.elapsed() > Duration::from_secs(budget + 40) { let _ = c.kill(); let _ = c.wait(); break } std::thread::sleep(Duration::from_millis(10)) }
        }
        let small = fs::read_to_string(dir.join("min.out")).ok().and_then(|t| sx::parse(&t).ok()).unwrap_or_else(|| scn.clone());
        let tries = fs::read_to_string(dir.join("min.tries")).unwrap_or_default();
        let fin = exec_sub(&id, &small, &dir, 30);
        let (small, m2) = match fin { Ok(Some((c, m))) if c.name() == *class => (small, m), _ => (scn.clone(), msg.clone()) };
        let rdir = std::env::var("VERIF_REPLAY_DIR").map(PathBuf::from).unwrap_or_else(|_| vd.join("evidence").join("replays")); fs::create_dir_all(&rdir).unwrap();
        let path = rdir.join(format!("{}-{}-{}.sx", id, seed, i));
        fs::write(&path, format!("; {}\n; minimised from {} to {} tokens in {} attempts\n(replay (property {}) (violation {}) (seed {}) (run {})\n (scenario\n{}))\n", m2.replace('\n', " "), scn.size(), small.size(), tries, id, class, seed, i, sx::pretty(&small))).unwrap();
        println!("minimised from {} to {} tokens: {}", scn.size(), small.size(), m2);
        println!("VIOLATION property={} replay={}", id, path.display());
        min_note = format!("{{\"run\": {}, \"class\": {}, \"tokens\": {}, \"from_tokens\": {}, \"replay\": {}}}", i, jstr(class), small.size(), scn.size(), jstr(&path.display().to_string()));
        verdict = 1;
    }
    if let Some(n) = known.1 { verdict = n }
    let map = |m: &BTreeMap<String, u64>, f: &dyn Fn(&str) -> bool| -> String { format!("{{{}}}", m.iter().filter(|(k, _)| f(k)).map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", ")) };
    let faults = ["panic_injected", "panic_organic", "block_aborted", "clash_attempted", "engine_swaps", "thunk_reallocated", "kind_changed", "thread_switches", "pointer_redirected"];
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"seeds\": {},\n  \"runs_per_hour\": {},\n  \"simulated_time\": {},\n  \"logical_steps\": {},\n  \"distinct_states\": {},\n  \"distinct_states_measure\": {},\n  \"faults_fired\": {},\n  \"counters\": {},\n  \"violations_of_other_properties_seen\": {},\n  \"stopped_by_time_cap\": {},\n  \"known_findings_rechecked\": {},\n  \"violation\": {},\n  \"real_components\": {},\n  \"stubs\": {},\n  \"workers\": {}\n }},\n \"wall_s\": {:.1}\n}}\n",
        jstr(&id), jstr(tier), seed, total, scns.len(), jstr(sp.nontrivial), samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   "), total,
        (total as f64 / explore_s.max(0.001) * 3600.0) as u64, jstr("the library has no clock or timer; time is counted in logical steps (editor operations and body statements)"), sum.get("ops").unwrap_or(&0) + sum.get("body_steps").unwrap_or(&0),
        states.len(), jstr("hash of the sequence of demanded values and executed bodies so far and, where the graph is reflected, of its shape and dirty marks"),
        map(&sum, &|k| faults.contains(&k)), map(&sum, &|k| !faults.contains(&k)), map(&foreign, &|_| true), capped, known.0, min_note,
        jstr("all of adapton from /repo's working tree: engine (DCG and naive), macros, reflect, parse_val, catalog::collections"), jstr("thunk bodies and list element functions are the simulated program; nothing of the library is stubbed"), nw, wall);
    let evd = vd.join("evidence"); fs::create_dir_all(&evd).unwrap();
    fs::write(evd.join(format!("{}.json", id)), ev).unwrap();
    println!("{} runs, {} distinct non-trivial, {} distinct states, {:.0} s", total, scns.len(), states.len(), wall);
    for w in 0..nw { let log = fs::read_to_string(dir.join(format!("log{}", w))).unwrap_or_default(); if log.contains("HARNESS-ERROR") { eprintln!("{}", log); return 2 } }
    if verdict == 0 && total == 0 { eprintln!("HARNESS-ERROR nothing ran"); return 2 }
    verdict
}
fn min_cmd(args: &[String]) -> i32 {
    let id = flag(args, "--prop").unwrap(); let sp = spec(&id); let cl = flag(args, "--class").unwrap();
    let dir = PathBuf::from(flag(args, "--dir").unwrap()); let secs: u64 = flag(args, "--secs").unwrap().parse().unwrap();
    let scn = sx::parse(&fs::read_to_string(dir.join("min.in")).unwrap()).unwrap();
    let out = dir.join("min.out"); let tmp = dir.join("min.tmp");
    let mut n = 0u64;
    crate::minimize::minimize(&scn, Duration::from_secs(secs), if cl == "Hang" { 1500 } else { 60_000 }, &mut |c| {
        n += 1;
        let ok = if c.head().map(|h| h == "threads").unwrap_or(false) { matches!(exec_sub(&id, c, &dir, 20), Ok(Some((ref k, _))) if k.name() == cl) }
                 else if cl == "Hang" { matches!(exec_sub(&id, c, &dir, 10), Ok(Some((Class2::Hang, _)))) }
                 else { matches!(props::exec(&id, c), Ok(o) if owned(&sp, &o).map(|v| format!("{:?}", v.class) == cl).unwrap_or(false)) };
        if ok { fs::write(&tmp, c.to_string()).unwrap(); fs::rename(&tmp, &out).unwrap(); fs::write(dir.join("min.tries"), n.to_string()).unwrap() }
        ok
    });
    0
}
/// Re-run the listed findings of this property. Returns their JSON and, if a
/// listed finding cannot be re-run at all, an error code.
fn known_findings(vd: &Path, id: &str, dir: &Path) -> (String, Option<i32>) {
    let t = fs::read_to_string(vd.join("known-findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in t.lines() {
        // finding: property=C10 replay=findings/x.sx <what fails>
        let l = l.trim();
        if !l.starts_with("finding:") { continue }
        let w: Vec<&str> = l.splitn(4, ' ').collect();
        if w.len() < 4 || w[1] != format!("property={}", id) { continue }
        let f = w[2].trim_start_matches("replay=");
        let s = match fs::read_to_string(vd.join(f)).map_err(|e| e.to_string()).and_then(|t| sx::parse(&t)) { Ok(s) => s, Err(e) => { eprintln!("known finding {}: {}", f, e); return ("[]".into(), Some(2)) } };
        let scn = s.list().unwrap().iter().find(|x| x.head().map(|h| h == "scenario").unwrap_or(false)).unwrap().at(1).unwrap().clone();
        let still = matches!(exec_sub(id, &scn, dir, 60), Ok(Some(_)));
        if still { println!("KNOWN-FINDING: property={} {}", id, w[3]) }
        out.push(format!("{{\"finding\": {}, \"still_fails\": {}}}", jstr(w[3]), still));
    }
    (format!("[{}]", out.join(", ")), None)
}
