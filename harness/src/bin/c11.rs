//! C11: a save that reports success has stored everything.
use harness::history::*;
use harness::impls::*;
use harness::observe::*;
use harness::*;
use rust_graph::generic::GraphLabelTrait;
use rust_graph::graph_impl::static_graph::EdgeVecTrait;
use rust_graph::graph_impl::{EdgeVec, EdgeVecMmap, StaticGraphMmap, TypedGraphMap, TypedStaticGraph};
use rust_graph::io::csv::CSVWriter;
use rust_graph::io::mmap::dump;
use rust_graph::io::serde::{Serialize, Serializer};
use rust_graph::io::write_to_csv;
use rust_graph::map::{SetMap, VecMap};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fs;
use std::io::{self, Write};
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};
use std::rc::Rc;

#[path = "../faultio.rs"]
mod faultio;
use faultio::Plan;

fn limit_file_size(k: u64) {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut l);
        l.rlim_cur = k.min(l.rlim_max);
        assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &l), 0);
    }
}

type Op<'a> = Box<dyn Fn(&Path) -> Result<(), String> + 'a>;

/// The regular files below `d` with their contents.
fn files(d: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut m = BTreeMap::new();
    for e in fs::read_dir(d).unwrap().flatten() {
        let p = e.path();
        if e.file_type().unwrap().is_file() {
            m.insert(p.clone(), fs::read(&p).unwrap());
        }
    }
    m
}

fn fresh(d: &Path) {
    if d.exists() {
        for e in fs::read_dir(d).unwrap().flatten() {
            let p = e.path();
            if e.file_type().unwrap().is_dir() {
                fs::remove_dir_all(&p).unwrap();
            } else {
                fs::remove_file(&p).unwrap();
            }
        }
    } else {
        fs::create_dir_all(d).unwrap();
    }
}

fn canon(b: &[u8]) -> Vec<u8> {
    // contents are compared without regard to the order in which items were written
    let mut v = b.to_vec();
    v.sort_unstable();
    v
}

/// Runs `op` under every storage fault and checks what a reported success means.
fn faults(ctx: &mut Ctx, what: &str, op: &Op) -> CaseResult {
    let d = ctx.scratch.join("out");
    let run = |d: &Path| -> Result<Result<(), String>, String> { guarded(|| op(d)) };
    fresh(&d);
    match run(&d) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(format!("{}: failed without any fault: {}", what, e)),
        Err(e) => return Err(format!("{}: {}", what, e)),
    }
    let reference = files(&d);
    let rc: BTreeMap<PathBuf, Vec<u8>> = reference.iter().map(|(p, b)| (p.clone(), canon(b))).collect();
    let names: Vec<PathBuf> = reference.keys().cloned().collect();
    ensure!(!names.is_empty(), "{}: success, but no file was written", what);
    // `done` was reported for the faulty run: whatever is a regular file must be complete
    let complete = |d: &Path, only: Option<&PathBuf>, fault: &str| -> CaseResult {
        let got = files(d);
        for (p, want) in &rc {
            if only.map_or(false, |o| o != p) {
                continue;
            }
            match got.get(p) {
                None => return Err(format!("{}: reported success although {:?} is missing ({})", what, p.file_name().unwrap(), fault)),
                Some(b) if canon(b) != *want => {
                    return Err(format!("{}: reported success although {:?} holds {} bytes instead of {} ({})", what, p.file_name().unwrap(), b.len(), want.len(), fault))
                }
                _ => {}
            }
        }
        Ok(())
    };
    let judge = |ctx: &mut Ctx, r: Result<Result<(), String>, String>, only: Option<&PathBuf>, must_fail: bool, fault: &str| -> CaseResult {
        match r {
            Err(e) => Err(format!("{}: panicked on a storage failure ({}): {}", what, fault, e)),
            Ok(Err(_)) => {
                ctx.ev("failures reported");
                Ok(())
            }
            Ok(Ok(())) => {
                ctx.ev("successes checked");
                ensure!(!must_fail, "{}: reported success although nothing can have been stored ({})", what, fault);
                complete(&ctx.scratch.join("out"), only, fault)
            }
        }
    };
    let cap = if ctx.tier == Tier::Quick { 300 } else { 3000 };
    // every byte of every file
    for f in &names {
        let len = reference[f].len();
        let mut ks: Vec<usize> = if len <= cap {
            (0..=len).collect()
        } else {
            let mut v: Vec<usize> = (0..40).chain(len - 40..=len).collect();
            for b in [4096usize, 8192, 10_000, 16_384, 20_000] {
                v.extend((b - 1..b + 2).filter(|x| *x < len));
            }
            for b in [32_768usize, 65_536, 131_072] {
                v.extend((b - 1..b + 2).filter(|x| *x < len));
            }
            if len > 60_000 {
                let at = ctx.rng.below(8);
                v.retain(|x| *x > 50 || *x % 8 == at);
            }
            for _ in 0..if len > 60_000 { 30 } else { cap / 4 } {
                v.push(ctx.rng.below(len));
            }
            v
        };
        ks.sort();
        ks.dedup();
        for k in ks {
            fresh(&d);
            for o in &names {
                if o != f {
                    symlink("/dev/null", o).unwrap();
                }
            }
            limit_file_size(k as u64);
            let r = run(&d);
            limit_file_size(u64::MAX);
            ctx.ev("write limits enforced");
            judge(ctx, r, Some(f), false, &format!("{:?} limited to {} of {} bytes", f.file_name().unwrap(), k, len))?;
        }
        // a full device in place of the file
        if len > 0 {
            for others_null in [true, false] {
                fresh(&d);
                symlink("/dev/full", f).unwrap();
                if others_null {
                    for o in names.iter().filter(|o| *o != f) {
                        symlink("/dev/null", o).unwrap();
                    }
                }
                let r = run(&d);
                ctx.ev("full devices");
                let replaced = fs::symlink_metadata(f).map(|m| m.file_type().is_file()).unwrap_or(false);
                judge(ctx, r, Some(f), !replaced, &format!("{:?} on a full device", f.file_name().unwrap()))?;
            }
        }
        // a directory in its place
        fresh(&d);
        fs::create_dir(f).unwrap();
        fs::write(f.join("x"), b"x").unwrap();
        let r = run(&d);
        ctx.ev("unwritable targets");
        judge(ctx, r, Some(f), true, &format!("{:?} is a directory", f.file_name().unwrap()))?;
    }
    // the same limit on all files at once, as on a device filling up
    let most = reference.values().map(|b| b.len()).max().unwrap();
    for _ in 0..12 {
        let k = ctx.rng.below(most + 1);
        fresh(&d);
        limit_file_size(k as u64);
        let r = run(&d);
        limit_file_size(u64::MAX);
        ctx.ev("write limits enforced");
        judge(ctx, r, None, false, &format!("all files limited to {} bytes", k))?;
    }
    // single write and open calls that fail, are interrupted or take part of what is offered
    fresh(&d);
    let (r, calls, _) = faultio::with(Plan { writes: true, opens: true, ..faultio::NONE }, || run(&d));
    judge(ctx, r, None, false, "no fault")?;
    ctx.evn("write and open calls watched", calls as usize);
    let most_calls = if ctx.tier == Tier::Quick { 40 } else { 200 };
    for k in 0..calls {
        if calls > most_calls && !ctx.rng.chance(most_calls as usize, calls as usize) {
            continue;
        }
        for once in [true, false] {
            let plan = Plan {
                writes: true,
                opens: true,
                fail: k,
                once,
                errno: *ctx.rng.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EACCES, libc::EAGAIN]),
                ..faultio::NONE
            };
            fresh(&d);
            let (r, _, failed) = faultio::with(plan, || run(&d));
            ctx.ev(if failed > 0 { "single calls failed" } else { "calls that were not made this time" });
            judge(ctx, r, None, false, &format!("write or open call {} of {} failing{}", k, calls, if once { " once" } else { " and all later ones" }))?;
        }
    }
    for _ in 0..4 {
        let plan = Plan {
            writes: true,
            short: *ctx.rng.pick(&[1usize, 7, 4095, 9_999, usize::MAX]).max(&if most > 5000 { 100 } else { 1 }),
            interrupt: ctx.rng.below(3) as u64,
            fail: if ctx.rng.chance(1, 2) { ctx.rng.below(calls as usize * 4 + 1) as u64 } else { u64::MAX },
            once: ctx.rng.chance(1, 2),
            ..faultio::NONE
        };
        fresh(&d);
        let (r, _, failed) = faultio::with(plan, || run(&d));
        ctx.ev("runs with short and interrupted writes");
        judge(ctx, r, None, false, &format!("writes of at most {} bytes, every {}th interrupted, {} failing", plan.short, plan.interrupt + 1, failed))?;
    }
    // no directory
    fs::remove_dir_all(&d).unwrap();
    let r = run(&d);
    ctx.ev("missing directories");
    judge(ctx, r, None, true, "missing directory")?;
    // and after all that it works again, also over the remains of an interrupted attempt
    fresh(&d);
    limit_file_size(ctx.rng.below(most + 1) as u64);
    let _ = run(&d);
    limit_file_size(u64::MAX);
    match run(&d) {
        Ok(Ok(())) => complete(&d, None, "retry after an interrupted attempt")?,
        Ok(Err(e)) => return Err(format!("{}: retry after an interrupted attempt failed: {}", what, e)),
        Err(e) => return Err(format!("{}: retry after an interrupted attempt: {}", what, e)),
    }
    ctx.evn("files under fault", names.len());
    Ok(())
}

/// The files a mapping of prefix `d` may look at.
const MAPPED: &[&str] = &[
    "d.offsets", "d.edges", "d.labels", "d_OUT.offsets", "d_OUT.edges", "d_OUT.labels", "d_IN.offsets", "d_IN.edges", "d_IN.labels", "d_aux.bin",
];

/// Saving over what an earlier, different dump of the same name has left, where some of it cannot be
/// removed: a reported success must leave a dump that maps to what was saved.
fn leftovers(ctx: &mut Ctx, what: &str, op: &Op, reload: &dyn Fn(&mut Ctx, &Path) -> CaseResult) -> CaseResult {
    let d = ctx.scratch.join("out");
    fresh(&d);
    op(&d).map_err(|e| format!("{}: failed without any fault: {}", what, e))?;
    let written = files(&d);
    let unwritten: Vec<PathBuf> = MAPPED.iter().map(|n| d.join(n)).filter(|p| !written.contains_key(p)).collect();
    for (i, p) in unwritten.iter().enumerate() {
        for stuck in [true, false] {
            fresh(&d);
            if stuck {
                // an old entry of this name that cannot be removed
                fs::create_dir(p).unwrap();
                fs::write(p.join("x"), b"x").unwrap();
            } else {
                fs::write(p, vec![7u8; 8 * (i + 1)]).unwrap();
            }
            ctx.ev("leftovers placed");
            let name = p.file_name().unwrap().to_str().unwrap().to_string();
            let fault = if stuck { format!("an old {} that cannot be removed", name) } else { format!("an old {}", name) };
            match guarded(|| op(&d)) {
                Err(e) => return Err(format!("{}: panicked over {}: {}", what, fault, e)),
                Ok(Err(e)) => {
                    ensure!(stuck, "{}: failed over {}: {}", what, fault, e);
                    ctx.ev("failures reported");
                }
                Ok(Ok(())) => {
                    ctx.ev("successes checked");
                    for (f, b) in &written {
                        let got = fs::read(f).map_err(|e| format!("{}: reported success although {:?} cannot be read ({}): {}", what, f, fault, e))?;
                        ensure!(canon(&got) == canon(b), "{}: reported success although {:?} is incomplete ({})", what, f, fault);
                    }
                    match guarded(|| reload(ctx, &d)) {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => return Err(format!("{}: reported success over {}, but the dump maps to something else: {}", what, fault, e)),
                        Err(e) => return Err(format!("{}: reported success over {}, but the dump cannot be mapped: {}", what, fault, e)),
                    }
                }
            }
        }
    }
    fresh(&d);
    Ok(())
}

/// A writer with faults: short writes, interruptions, a byte limit, an inner buffer.
struct Faulty {
    stored: Rc<RefCell<Vec<u8>>>,
    buf: Vec<u8>,
    limit: usize,
    /// what happens at the limit: an error, or 0 bytes accepted
    zero: bool,
    short: usize,
    interrupts: usize,
    buffered: bool,
    flush_fails: bool,
    flushed: Rc<Cell<bool>>,
}
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.interrupts > 0 {
            self.interrupts -= 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let have = self.stored.borrow().len() + self.buf.len();
        let n = b.len().min(self.short).min(self.limit - have.min(self.limit));
        if n == 0 && !b.is_empty() {
            return if self.zero { Ok(0) } else { Err(io::Error::from_raw_os_error(libc::ENOSPC)) };
        }
        if self.buffered {
            self.buf.extend_from_slice(&b[..n]);
        } else {
            self.stored.borrow_mut().extend_from_slice(&b[..n]);
        }
        self.flushed.set(false);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.flush_fails {
            return Err(io::Error::from_raw_os_error(libc::EIO));
        }
        self.stored.borrow_mut().extend_from_slice(&self.buf);
        self.buf.clear();
        self.flushed.set(true);
        Ok(())
    }
}

fn writers<T: Copy + std::fmt::Debug>(ctx: &mut Ctx, data: &[T]) -> CaseResult {
    let size = std::mem::size_of_val(data);
    let want: Vec<u8> = unsafe { std::slice::from_raw_parts(data.as_ptr() as *const u8, size) }.to_vec();
    for _ in 0..30 {
        let stored = Rc::new(RefCell::new(Vec::new()));
        let limit = if ctx.rng.chance(1, 3) || size == 0 { usize::MAX / 2 } else { ctx.rng.below(size + 1) };
        let w = Faulty {
            stored: stored.clone(),
            buf: Vec::new(),
            limit,
            zero: ctx.rng.chance(1, 3),
            short: *ctx.rng.pick(&[1usize, 3, 7, 100, 9_999, 10_000, usize::MAX / 2]),
            interrupts: ctx.rng.below(3),
            buffered: ctx.rng.chance(1, 2),
            flush_fails: ctx.rng.chance(1, 6),
            flushed: Rc::new(Cell::new(false)),
        };
        let desc = format!("limit {}, short writes {}, {} interruptions, buffered {}, flush fails {}", w.limit, w.short, w.interrupts, w.buffered, w.flush_fails);
        let must_fail = limit < size || (w.flush_fails && size > 0);
        let may_fail = must_fail || w.flush_fails;
        let r = guarded(|| unsafe { dump(data, w) });
        ctx.ev("faulty writers driven");
        match r {
            Err(e) => return Err(format!("dump of {} bytes panicked ({}): {}", size, desc, e)),
            Ok(Ok(())) => {
                ensure!(!must_fail, "dump of {} bytes reported success ({})", size, desc);
                ensure!(*stored.borrow() == want, "dump of {} bytes stored {} bytes or other ones ({})", size, stored.borrow().len(), desc);
                ctx.ev("successes checked");
            }
            Ok(Err(e)) => {
                ensure!(may_fail, "dump of {} bytes failed without a fault ({}): {}", size, desc, e);
                ctx.ev("failures reported");
            }
        }
    }
    Ok(())
}

fn case<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    let u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize().min(60_000), L::max_usize(), true);
    let big = ctx.case % 20 == 19;
    let m: Model<NL, EL> = if big {
        ctx.ev("graphs larger than one buffer");
        let n = if ctx.case % 200 == 199 { 20_000 } else { *ctx.rng.pick(&[1300usize, 2600, 3000]) };
        big_model(&mut ctx.rng, Ty::DIRECTED, n.min(Id::max_usize()), &u)
    } else {
        let k = *ctx.rng.pick(&[0usize, 1, 2, 4, 9, 20]);
        let ids: Vec<usize> = (0..k).collect();
        let e = ctx.rng.below(2 * k + 1);
        random_model(&mut ctx.rng, Ty::DIRECTED, &ids, e, &u)
    };
    let g: TypedGraphMap<Id, NL, EL, Ty, L> = m.to_graphmap(&mut ctx.rng);
    let st: TypedStaticGraph<Id, NL, EL, Ty, L> = static_of(&mut ctx.rng, &m);
    let ev: EdgeVec<Id, L> = st.get_edge_vec().clone();
    let err = |e: &dyn std::fmt::Display| e.to_string();
    let kind = ctx.rng.below(8);
    let brief: String = m.brief().chars().take(200).collect();
    let f = |d: &Path, n: &str| d.join(n).to_str().unwrap().to_string();
    let (what, op): (&str, Op) = match kind {
        0 => ("GraphMap::export", Box::new(|d: &Path| g.export(f(d, "x.bin")).map_err(|e| err(&e)))),
        1 => ("StaticGraph export", Box::new(|d: &Path| Serializer::export(&st, f(d, "x.bin")).map_err(|e| err(&e)))),
        2 => {
            let t: SetMap<NL> = g.get_node_label_map().clone();
            let v: VecMap<NL> = VecMap::from(&t);
            if ctx.rng.chance(1, 2) {
                ("SetMap::export", Box::new(move |d: &Path| t.export(f(d, "x.bin")).map_err(|e| err(&e))))
            } else {
                ("VecMap::export", Box::new(move |d: &Path| v.export(f(d, "x.bin")).map_err(|e| err(&e))))
            }
        }
        3 | 4 => ("StaticGraph::dump_mmap", Box::new(|d: &Path| st.dump_mmap(&f(d, "d")).map_err(|e| err(&e)))),
        5 => ("EdgeVec::dump_mmap", Box::new(|d: &Path| ev.dump_mmap(&f(d, "d")).map_err(|e| err(&e)))),
        _ => {
            let which = ctx.rng.below(3);
            let mm: StaticGraphMmap<Id, NL, EL, L> = mmap_of::<Id, NL, EL, Ty, L>(ctx, &m);
            let bg: Box<DynGraph<'static, Id, NL, EL, L>> = match which {
                0 => Ty::gm_box(g.clone()),
                1 => Ty::st_box(st.clone()),
                _ => Box::new(mm),
            };
            if kind == 6 {
                ("write_to_csv", Box::new(move |d: &Path| write_to_csv(&*bg, f(d, "n.csv"), f(d, "e.csv")).map_err(|e| err(&e))))
            } else {
                ("CSVWriter::write", Box::new(move |d: &Path| CSVWriter::with_separator(&*bg, f(d, "n.csv"), f(d, "e.csv"), "tab").write().map_err(|e| err(&e))))
            }
        }
    };
    ctx.describe(format!("{} of {}", what, brief));
    ctx.ev(what_key(what));
    faults(ctx, what, &op)?;
    if kind == 3 || kind == 4 {
        leftovers(ctx, what, &op, &|ctx: &mut Ctx, d: &Path| {
            let mm: StaticGraphMmap<Id, NL, EL, L> = StaticGraphMmap::new(&f(d, "d"));
            check_graph(ctx, &mm, &m, ALL, m.nodes.keys().last().cloned(), "mapped")
                .map_err(|e| e.chars().take(2000).collect::<String>())
        })?;
    } else if kind == 5 {
        leftovers(ctx, what, &op, &|_: &mut Ctx, d: &Path| {
            let mm: EdgeVecMmap<Id, L> = EdgeVecMmap::new(&f(d, "d"));
            ensure!(mm.get_offsets() == ev.get_offsets(), "offsets");
            ensure!(mm.get_edges() == ev.get_edges(), "edges");
            ensure!(mm.get_labels() == ev.get_labels(), "labels");
            Ok(())
        })?;
    }
    drop(op);
    match ctx.case % 5 {
        0 => {
            let n = *ctx.rng.pick(&[0usize, 1, 100, 1249, 1250, 1251, 2500, 2501, 5000, 20_000]);
            let v: Vec<u64> = (0..n as u64).map(|x| x.wrapping_mul(0x0101_0307_0b0d_1113)).collect();
            writers(ctx, &v)?;
        }
        1 => {
            let n = *ctx.rng.pick(&[0usize, 1, 100, 2499, 2500, 2501, 5000, 5001, 30_000]);
            let v: Vec<u32> = (0..n as u32).map(|x| x.wrapping_mul(2_654_435_761)).collect();
            writers(ctx, &v)?;
        }
        2 => {
            let n = *ctx.rng.pick(&[0usize, 1, 9_999, 10_000, 10_001, 20_000, 20_001, 33_333, 70_000, 200_000]);
            let v: Vec<u8> = (0..n).map(|x| (x * 7 + x / 251) as u8).collect();
            writers(ctx, &v)?;
        }
        _ => {}
    }
    ctx.clean_scratch();
    let k = m.fingerprint() ^ rng::fnv(what.as_bytes());
    ctx.nontrivial(k);
    Ok(())
}

fn what_key(w: &str) -> &'static str {
    match w {
        "GraphMap::export" => "operation GraphMap::export",
        "StaticGraph export" => "operation StaticGraph export",
        "SetMap::export" => "operation SetMap::export",
        "VecMap::export" => "operation VecMap::export",
        "StaticGraph::dump_mmap" => "operation StaticGraph::dump_mmap",
        "EdgeVec::dump_mmap" => "operation EdgeVec::dump_mmap",
        "write_to_csv" => "operation write_to_csv",
        _ => "operation CSVWriter::write",
    }
}

fn run(ctx: &mut Ctx) -> CaseResult {
    ctx.clean_scratch();
    let sel = ctx.rng.below(10);
    dispatch!(sel, case(ctx))
}

fn main() {
    driver::main(CheckDef {
        id: "C11",
        level: "fault_enumeration",
        rule: "each case takes one saving operation (export of graphs and tables, memory-map dump, CSV writing from every implementation) on a random graph, notes the complete files of a fault-free run, then repeats it with each file limited to every byte offset (large files: at the ends, at buffer borders and at random offsets), on a full device, with a directory in its place, in a missing directory, with all files limited at once, and (through stand-ins for the C library's write and open) with each single write or open call failing, once or from there on, and with writes cut short or interrupted; a reported success must have left every file complete, a failure must be an error value, and a retry must work. Dumps are also made over an old entry of every name they do not write themselves but a mapping would look at, removable or not: a reported success must map to what was saved. dump() is also driven with writers that fail, accept short or zero writes, are interrupted, buffer until flushed, or fail to flush. Non-trivial: every case; distinct: by operation and content.",
        assumptions: &["storage failures are refused or short writes and failed opens, as the operating system reports them"],
        quick: 1400,
        thorough: 20000,
        run,
        mem_mb: 4096,
    })
}
