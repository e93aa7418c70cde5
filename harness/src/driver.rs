//! The driver every check shares: a parent that splits deterministic cases over worker
//! processes, watches them (crash, abort, no progress), merges what the monitors observed
//! into the evidence file and turns the first unlisted violation into a replay file.
use crate::json::esc;
use crate::rng::{fnv, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub type CaseResult = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct CheckDef {
    pub id: &'static str,
    pub level: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx) -> CaseResult,
    /// Address-space limit of a worker in MiB (0: none).
    pub mem_mb: u64,
}

/// One case: its random source, its scratch directory and what its monitors observed.
pub struct Ctx {
    pub rng: Rng,
    pub tier: Tier,
    pub case: u64,
    pub seed: u64,
    pub scratch: PathBuf,
    ev: BTreeMap<&'static str, u64>,
    desc: String,
    trace: Vec<String>,
    nontrivial: Option<u64>,
    sample_wanted: bool,
}

impl Ctx {
    /// Count an observed event.
    #[inline]
    pub fn ev(&mut self, key: &'static str) {
        *self.ev.entry(key).or_insert(0) += 1;
    }
    #[inline]
    pub fn evn(&mut self, key: &'static str, n: usize) {
        *self.ev.entry(key).or_insert(0) += n as u64;
    }
    /// Describe the case (kept for samples and replays).
    pub fn describe(&mut self, s: String) {
        self.desc = s;
    }
    pub fn describe_add(&mut self, s: &str) {
        if self.desc.len() < 4000 {
            self.desc.push_str(s);
        }
    }
    /// A step of the case's history, recorded for the replay file.
    pub fn step(&mut self, s: String) {
        self.trace.push(s);
    }
    pub fn trace_len(&self) -> usize {
        self.trace.len()
    }
    /// Declare the case non-trivial; `key` identifies it for counting distinct cases.
    pub fn nontrivial(&mut self, key: u64) {
        self.nontrivial = Some(mix(key ^ self.nontrivial.unwrap_or(0)));
    }
    /// A fresh path in the case's scratch directory.
    pub fn path(&self, name: &str) -> String {
        self.scratch.join(name).to_str().unwrap().to_string()
    }
    pub fn clean_scratch(&self) {
        if let Ok(rd) = fs::read_dir(&self.scratch) {
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() && !e.file_type().map(|t| t.is_symlink()).unwrap_or(false) {
                    let _ = fs::remove_dir_all(&p);
                } else {
                    let _ = fs::remove_file(&p);
                }
            }
        }
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}", loc, msg)));
    }));
}

pub fn last_panic() -> String {
    PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| "panic".to_string())
}

/// Run a library call that is allowed to panic; Err carries the panic message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(last_panic()),
    }
}

fn case_seed(seed: u64, id: &str, case: u64) -> u64 {
    mix(mix(seed ^ fnv(id.as_bytes())) ^ case.wrapping_mul(0x9E37_79B9_7F4A_7C15))
}

fn verif_root() -> PathBuf {
    std::env::var("VERIF_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

struct Known {
    property: String,
    matches: String,
}

/// Lines `known: property=<id> match="<text>" <what fails>`; `fixed:` lines suppress nothing.
fn load_known() -> Vec<Known> {
    let mut v = Vec::new();
    if let Ok(s) = fs::read_to_string(verif_root().join("known-findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                let mut it = r.splitn(2, ' ');
                let p = it.next().unwrap_or("").to_string();
                let rest = it.next().unwrap_or("");
                if let Some(a) = rest.find("match=\"") {
                    let t = &rest[a + 7..];
                    if let Some(b) = t.find('"') {
                        v.push(Known { property: p, matches: t[..b].to_string() });
                    }
                }
            }
        }
    }
    v
}

fn run_one(def: &CheckDef, ctx: &mut Ctx) -> CaseResult {
    let r = catch_unwind(AssertUnwindSafe(|| (def.run)(ctx)));
    match r {
        Ok(r) => r,
        Err(_) => Err(last_panic()),
    }
}

fn new_ctx(def: &CheckDef, seed: u64, tier: Tier, case: u64, scratch: PathBuf) -> Ctx {
    Ctx {
        rng: Rng::new(case_seed(seed, def.id, case)),
        tier,
        case,
        seed,
        scratch,
        ev: BTreeMap::new(),
        desc: String::new(),
        trace: Vec::new(),
        nontrivial: None,
        sample_wanted: false,
    }
}

fn worker(def: &CheckDef, w: u64, n: u64, seed: u64, tier: Tier, total: u64, dir: &Path, budget: f64) -> ! {
    install_panic_hook();
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        // not the parent's terminal group: nothing to do; die with the parent
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        if def.mem_mb > 0 {
            let lim = libc::rlimit { rlim_cur: def.mem_mb << 20, rlim_max: def.mem_mb << 20 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
        }
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
    let known = load_known();
    let prog = fs::OpenOptions::new()
        .write(true)
        .create(true)
        .truncate(true)
        .open(dir.join(format!("w{}.prog", w)))
        .unwrap();
    let scratch = dir.join(format!("w{}.d", w));
    fs::create_dir_all(&scratch).unwrap();
    let t0 = Instant::now();
    let mut ev: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hashes: Vec<u8> = Vec::new();
    let mut done = 0u64;
    let mut samples = Vec::new();
    let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
    let mut out = String::new();
    let mut i = w;
    let mut viol = None;
    let mut slowest = (0.0f64, 0u64);
    while i < total {
        if t0.elapsed().as_secs_f64() > budget {
            out.push_str("TIMEUP\t1\n");
            break;
        }
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&i.to_le_bytes());
        b[8] = 1;
        prog.write_all_at(&b, 0).unwrap();
        let mut ctx = new_ctx(def, seed, tier, i, scratch.clone());
        ctx.sample_wanted = samples.len() < 2;
        let c0 = own_cpu();
        let r = run_one(def, &mut ctx);
        done += 1;
        let spent = own_cpu() - c0;
        if spent > slowest.0 {
            slowest = (spent, i);
        }
        for (k, v) in &ctx.ev {
            *ev.entry(k).or_insert(0) += v;
        }
        if let Some(h) = ctx.nontrivial {
            hashes.extend_from_slice(&h.to_le_bytes());
            if ctx.sample_wanted && (w < 2 || samples.is_empty()) {
                let mut d = ctx.desc.clone();
                if !ctx.trace.is_empty() {
                    let t: Vec<_> = ctx.trace.iter().take(12).cloned().collect();
                    d.push_str(&format!(" | steps({}): {}", ctx.trace.len(), t.join("; ")));
                }
                let cut: String = d.chars().take(700).collect();
                samples.push(format!("case {}: {}", i, cut));
            }
        }
        if let Err(msg) = r {
            if let Some(k) = known
                .iter()
                .find(|k| k.property == def.id && msg.contains(&k.matches))
            {
                *knowns.entry(k.matches.clone()).or_insert(0) += 1;
            } else {
                viol = Some((i, msg, ctx.desc.clone(), ctx.trace.clone()));
                break;
            }
        }
        i += n;
    }
    out.push_str(&format!("DONE\t{}\n", done));
    out.push_str(&format!("SLOW\t{:.3}\t{}\n", slowest.0, slowest.1));
    for (k, v) in ev {
        out.push_str(&format!("EV\t{}\t{}\n", k, v));
    }
    for s in samples {
        out.push_str(&format!("SAMPLE\t{}\n", esc(&s)));
    }
    for (k, v) in knowns {
        out.push_str(&format!("KNOWN\t{}\t{}\n", esc(&k), v));
    }
    fs::write(dir.join(format!("w{}.hash", w)), &hashes).unwrap();
    let code = if let Some((c, msg, desc, trace)) = viol {
        let mut f = format!("property {}\ncase {}\nseed {}\ntier {:?}\n\nwhat failed: {}\n\ncase: {}\n", def.id, c, seed, tier, msg, desc);
        for (k, t) in trace.iter().enumerate() {
            f.push_str(&format!("step {}: {}\n", k, t));
        }
        fs::write(dir.join(format!("w{}.viol", w)), f).unwrap();
        10
    } else {
        0
    };
    fs::write(dir.join(format!("w{}.out", w)), out).unwrap();
    let _ = fs::remove_dir_all(&scratch);
    std::process::exit(code)
}

/// CPU seconds this process has used so far.
fn own_cpu() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
    }
}

fn cpu_seconds(pid: u32) -> f64 {
    if let Ok(s) = fs::read_to_string(format!("/proc/{}/stat", pid)) {
        if let Some(p) = s.rfind(')') {
            let f: Vec<&str> = s[p + 1..].split_whitespace().collect();
            if f.len() > 13 {
                let u: f64 = f[11].parse().unwrap_or(0.0);
                let k: f64 = f[12].parse().unwrap_or(0.0);
                return (u + k) / 100.0;
            }
        }
    }
    0.0
}

struct W {
    child: Child,
    case: u64,
    cpu0: f64,
    wall0: Instant,
    done: bool,
}

fn read_prog(dir: &Path, w: usize) -> Option<u64> {
    let mut b = [0u8; 16];
    let f = fs::File::open(dir.join(format!("w{}.prog", w))).ok()?;
    f.read_exact_at(&mut b, 0).ok()?;
    if b[8] == 0 {
        return None;
    }
    let mut a = [0u8; 8];
    a.copy_from_slice(&b[..8]);
    Some(u64::from_le_bytes(a))
}

pub fn main(def: CheckDef) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut total = if tier == Tier::Quick { def.quick } else { def.thorough };
    if let Ok(m) = std::env::var("VERIF_CASES") {
        total = m.parse().unwrap();
    }
    let budget: f64 = std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(
        if tier == Tier::Quick { 200.0 } else { 1500.0 },
    );
    if args.len() >= 5 && args[1] == "--worker" {
        worker(&def, args[2].parse().unwrap(), args[3].parse().unwrap(), seed, tier, total, Path::new(&args[4]), budget);
    }
    if args.len() >= 3 && args[1] == "--replay" {
        replay(&def, &args[2], tier, seed);
    }
    parent(&def, seed, tier, total)
}

fn replay(def: &CheckDef, what: &str, tier: Tier, seed: u64) -> ! {
    let (mut case, mut seed, mut tier) = (what.parse::<u64>().unwrap_or(0), seed, tier);
    if let Ok(s) = fs::read_to_string(what) {
        for l in s.lines() {
            if let Some(x) = l.strip_prefix("case ") {
                case = x.trim().parse().unwrap_or(case);
            } else if let Some(x) = l.strip_prefix("seed ") {
                seed = x.trim().parse().unwrap_or(seed);
            } else if l.starts_with("tier ") {
                tier = if l.contains("Thorough") { Tier::Thorough } else { Tier::Quick };
            } else if l.is_empty() {
                break;
            }
        }
    }
    install_panic_hook();
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
    let dir = std::env::temp_dir().join(format!("verif-{}-r{}", def.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let mut ctx = new_ctx(def, seed, tier, case, dir.clone());
    let r = run_one(def, &mut ctx);
    println!("case {} of {} (seed {}, {:?}): {}", case, def.id, seed, tier, ctx.desc);
    for (i, t) in ctx.trace.iter().enumerate() {
        println!("  step {}: {}", i, t);
    }
    println!("observed: {:?}", ctx.ev);
    let _ = fs::remove_dir_all(&dir);
    match r {
        Ok(()) => {
            println!("held");
            std::process::exit(0)
        }
        Err(m) => {
            println!("FAILED: {}", m);
            std::process::exit(1)
        }
    }
}

fn parent(def: &CheckDef, seed: u64, tier: Tier, total: u64) -> ! {
    let t0 = Instant::now();
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8).min(total.max(1) as usize);
    let dir = std::env::temp_dir().join(format!("verif-{}-{}", def.id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut ws: Vec<W> = (0..n)
        .map(|w| {
            let err = fs::File::create(dir.join(format!("w{}.err", w))).unwrap();
            let mut cmd = Command::new(&exe);
            cmd.arg("--worker").arg(w.to_string()).arg(n.to_string()).arg(&dir);
            cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(err);
            W { child: cmd.spawn().unwrap(), case: u64::MAX, cpu0: 0.0, wall0: Instant::now(), done: false }
        })
        .collect();
    let cpu_limit: f64 = 200.0;
    let wall_limit: f64 = 400.0;
    // (case, message, details)
    let mut violation: Option<(u64, String, String)> = None;
    let mut broken: Option<String> = None;
    'poll: loop {
        let mut alive = 0;
        for w in 0..n {
            if ws[w].done {
                continue;
            }
            match ws[w].child.try_wait() {
                Ok(Some(st)) => {
                    ws[w].done = true;
                    let errs = tail(&dir.join(format!("w{}.err", w)));
                    if st.code() == Some(0) {
                    } else if st.code() == Some(10) {
                        let d = fs::read_to_string(dir.join(format!("w{}.viol", w))).unwrap_or_default();
                        let case = field(&d, "case ").parse().unwrap_or(0);
                        violation = Some((case, field(&d, "what failed: "), d));
                        break 'poll;
                    } else {
                        let case = read_prog(&dir, w);
                        let sig = st.signal();
                        let crash = matches!(sig, Some(libc::SIGSEGV) | Some(libc::SIGBUS) | Some(libc::SIGABRT) | Some(libc::SIGILL) | Some(libc::SIGFPE) | Some(libc::SIGTRAP))
                            || errs.contains("Sanitizer");
                        if let (true, Some(c)) = (crash, case) {
                            let m = format!("the process died in this case ({:?}): {}", st, errs);
                            let d = format!("property {}\ncase {}\nseed {}\ntier {:?}\n\nwhat failed: {}\n", def.id, c, seed, tier, m);
                            violation = Some((c, m, d));
                        } else {
                            broken = Some(format!("worker {} ended with {:?} in case {:?}: {}", w, st, case, errs));
                        }
                        break 'poll;
                    }
                }
                Ok(None) => {
                    alive += 1;
                    let cur = read_prog(&dir, w).unwrap_or(u64::MAX);
                    let cpu = cpu_seconds(ws[w].child.id());
                    if cur != ws[w].case {
                        ws[w].case = cur;
                        ws[w].cpu0 = cpu;
                        ws[w].wall0 = Instant::now();
                    } else if cur != u64::MAX && cpu - ws[w].cpu0 > cpu_limit {
                        let m = format!("no progress: case {} used more than {} s of CPU", cur, cpu_limit);
                        let d = format!("property {}\ncase {}\nseed {}\ntier {:?}\n\nwhat failed: {}\n", def.id, cur, seed, tier, m);
                        violation = Some((cur, m, d));
                        break 'poll;
                    } else if cur != u64::MAX && cpu - ws[w].cpu0 < 5.0 && ws[w].wall0.elapsed().as_secs_f64() > wall_limit {
                        // it waits for something without computing: a deadlock of the code under test
                        let m = format!("no progress: case {} has been waiting for {} s", cur, wall_limit);
                        let d = format!("property {}\ncase {}\nseed {}\ntier {:?}\n\nwhat failed: {}\n", def.id, cur, seed, tier, m);
                        violation = Some((cur, m, d));
                        break 'poll;
                    }
                }
                Err(e) => {
                    broken = Some(format!("wait: {}", e));
                    break 'poll;
                }
            }
        }
        if alive == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for w in ws.iter_mut() {
        if !w.done {
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
    }
    // merge what was observed
    let mut evals = 0u64;
    let mut ev: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut timeup = false;
    let mut slowest = (0.0f64, 0u64);
    for w in 0..n {
        let s = fs::read_to_string(dir.join(format!("w{}.out", w))).unwrap_or_default();
        for l in s.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "DONE" => evals += f[1].parse::<u64>().unwrap_or(0),
                "EV" => *ev.entry(f[1].to_string()).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
                "SAMPLE" => samples.push(f[1].to_string()),
                "KNOWN" => *knowns.entry(f[1].to_string()).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
                "TIMEUP" => timeup = true,
                "SLOW" => {
                    let t: f64 = f[1].parse().unwrap_or(0.0);
                    if t > slowest.0 {
                        slowest = (t, f[2].parse().unwrap_or(0));
                    }
                }
                _ => {}
            }
        }
        if let Ok(mut f) = fs::File::open(dir.join(format!("w{}.hash", w))) {
            let mut b = Vec::new();
            let _ = f.read_to_end(&mut b);
            for c in b.chunks_exact(8) {
                let mut a = [0u8; 8];
                a.copy_from_slice(c);
                distinct.insert(u64::from_le_bytes(a));
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);
    samples.truncate(6);
    if samples.is_empty() {
        samples.push(esc("no case completed"));
    }
    let evj: Vec<String> = ev.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    let asm: Vec<String> = def.assumptions.iter().map(|a| esc(a)).collect();
    let json = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"observed_events\": {{{}}},\n  \"stopped_by_time_budget\": {},\n  \"slowest_case\": {{\"case\": {}, \"cpu_s\": {:.3}}},\n  \"workers\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        esc(def.id),
        esc(if tier == Tier::Quick { "quick" } else { "thorough" }),
        seed,
        esc(def.level),
        evals,
        distinct.len(),
        esc(def.rule),
        samples.join(", "),
        evj.join(", "),
        timeup,
        slowest.1,
        slowest.0,
        n,
        asm.join(", "),
        t0.elapsed().as_secs_f64(),
        if violation.is_some() { 1 } else { 0 }
    );
    let evdir = verif_root().join("evidence");
    let _ = fs::create_dir_all(&evdir);
    // a check may run several drivers; each part writes its own file and `check.sh` merges them
    let part = std::env::var("VERIF_PART").unwrap_or_default();
    let name = if part.is_empty() { format!("{}.json", def.id) } else { format!("{}.{}.part", def.id, part) };
    fs::write(evdir.join(name), json).unwrap();
    for (k, v) in &knowns {
        println!("KNOWN-FINDING: property={} {} ({} cases)", def.id, k, v);
    }
    if let Some((case, msg, det)) = violation {
        let rd = verif_root().join("replays");
        let _ = fs::create_dir_all(&rd);
        let p = rd.join(format!("{}-{}-{}{}.txt", def.id, seed, case, if tier == Tier::Quick { "" } else { "-t" }));
        let mut f = fs::File::create(&p).unwrap();
        let _ = f.write_all(det.as_bytes());
        let cut: String = msg.chars().take(1200).collect();
        println!("{} case {}: {}", def.id, case, cut);
        println!("VIOLATION property={} replay={}", def.id, p.display());
        std::process::exit(1);
    }
    if let Some(b) = broken {
        println!("{}: inconclusive: {}", def.id, b);
        std::process::exit(3);
    }
    println!(
        "{}: held on {} cases ({} distinct non-trivial), {:.1} s{}",
        def.id,
        evals,
        distinct.len(),
        t0.elapsed().as_secs_f64(),
        if timeup { ", stopped by the time budget" } else { "" }
    );
    std::process::exit(0)
}

fn field(s: &str, p: &str) -> String {
    s.lines().find_map(|l| l.strip_prefix(p)).unwrap_or("").trim().to_string()
}

fn tail(p: &Path) -> String {
    let s = fs::read(p).unwrap_or_default();
    let s = String::from_utf8_lossy(&s).to_string();
    let v: Vec<&str> = s.lines().collect();
    // sanitizer reports put what matters first
    v[..v.len().min(25)].join("\n")
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); }
    }};
}
