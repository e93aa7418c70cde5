//! C10: binary export and import are lossless and never accept a cut-off file.
use harness::history::*;
use harness::impls::*;
use harness::observe::*;
use harness::*;
use rust_graph::generic::{EdgeTrait, GraphLabelTrait, GraphTrait, MapTrait, MutMapTrait, NodeTrait};
use rust_graph::graph_impl::{EdgeVec, TypedGraphMap, TypedStaticGraph};
use rust_graph::io::serde::{Deserialize, Deserializer, Serialize, Serializer};
use rust_graph::map::{SetMap, VecMap};
use std::collections::BTreeMap;
use std::fs;

#[path = "../faultio.rs"]
mod faultio;
use faultio::Plan;

/// Writes the object down in one of the two ways offered.
fn save<T: Serialize>(ctx: &mut Ctx, x: &T, p: &str) -> CaseResult {
    ctx.ev("exports");
    if ctx.rng.chance(1, 5) {
        // something else is already there, longer or shorter
        let n = *ctx.rng.pick(&[0usize, 1, 100_000]);
        fs::write(p, vec![0xA5u8; n]).unwrap();
    }
    if ctx.rng.chance(1, 2) { x.export(p) } else { Serializer::export(x, p) }.map_err(|e| format!("export failed: {}", e))
}
fn load<T: Deserialize>(ctx: &mut Ctx, p: &str) -> Result<T, String> {
    ctx.ev("imports");
    if ctx.rng.chance(1, 2) { T::import(p) } else { Deserializer::import(p) }.map_err(|e| format!("import failed: {}", e))
}

/// Every (or many a) proper prefix of the file must be refused.
fn cuts<T: Deserialize>(ctx: &mut Ctx, p: &str, what: &str) -> CaseResult {
    let b = fs::read(p).unwrap();
    let q = ctx.path("cut.bin");
    let limit = if ctx.tier == Tier::Quick { 500 } else { 3000 };
    let mut ks: Vec<usize> = if b.len() <= limit {
        (0..b.len()).collect()
    } else {
        let w = if b.len() > 300_000 { 12 } else { 64 };
        let mut v: Vec<usize> = (0..w).chain(b.len() - w..b.len()).collect();
        // borders of the buffers in between
        for x in [4096usize, 8192, 16384, 65536] {
            v.extend((x.saturating_sub(1)..x + 2).filter(|x| *x < b.len()));
        }
        for _ in 0..if b.len() > 300_000 { limit / 50 } else { limit / 4 } {
            v.push(ctx.rng.below(b.len()));
        }
        v
    };
    ks.sort();
    ks.dedup();
    // shrink one file from the longest cut to the shortest
    fs::write(&q, &b).unwrap();
    let f = fs::OpenOptions::new().write(true).open(&q).unwrap();
    for k in ks.into_iter().rev() {
        f.set_len(k as u64).unwrap();
        match guarded(|| T::import(&q).is_ok()) {
            Err(e) => return Err(format!("{}: importing the first {} of {} bytes: {}", what, k, b.len(), e)),
            Ok(true) => return Err(format!("{}: the first {} of {} bytes were accepted", what, k, b.len())),
            Ok(false) => ctx.ev("cut-off files refused"),
        }
    }
    Ok(())
}

/// Reads that move part of what is asked for must not matter; reads that fail must be reported.
fn bad_reads<T: Deserialize + PartialEq>(ctx: &mut Ctx, p: &str, want: &T, what: &str) -> CaseResult {
    let len = fs::metadata(p).unwrap().len() as usize;
    let base = Plan { reads: true, opens: true, ..faultio::NONE };
    let least = 1 + len / 400;
    for short in [usize::MAX, (*ctx.rng.pick(&[1usize, 2, 7, 100, 4096])).max(least)] {
        let plan = Plan { short, ..base };
        let (r, calls, _) = faultio::with(plan, || guarded(|| T::import(p).ok()));
        ctx.evn("read and open calls watched", calls as usize);
        ctx.ev("imports through short reads");
        let x = r.map_err(|e| format!("{}: importing through reads of at most {} bytes: {}", what, short, e))?;
        ensure!(x.as_ref() == Some(want), "{}: importing through reads of at most {} bytes {}", what, short, if x.is_some() { "gives something else" } else { "fails" });
        let n = if calls < 20 { calls } else { 20 };
        for i in 0..n {
            let k = if calls < 20 { i } else { ctx.rng.below(calls as usize) as u64 };
            let once = ctx.rng.chance(1, 2);
            let plan = Plan {
                fail: k,
                once,
                errno: *ctx.rng.pick(&[libc::EIO, libc::EACCES, libc::EISDIR, libc::ENOMEM]),
                interrupt: if ctx.rng.chance(1, 4) { 2 } else { 0 },
                ..plan
            };
            let (r, _, failed) = faultio::with(plan, || guarded(|| T::import(p).ok()));
            ctx.ev(if failed > 0 { "imports with a failing call" } else { "calls that were not made this time" });
            match r.map_err(|e| format!("{}: importing with call {} of {} failing: {}", what, k, calls, e))? {
                None => ctx.ev("failing imports refused"),
                Some(x) => ensure!(x == *want, "{}: importing with call {} of {} failing gave something else", what, k, calls),
            }
        }
    }
    Ok(())
}

fn missing<T: Deserialize>(ctx: &mut Ctx) -> CaseResult {
    let p = ctx.path("not there");
    match guarded(|| T::import(&p).is_ok()) {
        Err(e) => Err(format!("importing a missing file: {}", e)),
        Ok(true) => Err("importing a missing file succeeded".into()),
        Ok(false) => Ok(()),
    }
}

fn same_tables<Id: HId, NL: HLabel, EL: HLabel, L: HId>(a: &DynGraph<'_, Id, NL, EL, L>, b: &DynGraph<'_, Id, NL, EL, L>, m: &Model<NL, EL>) -> CaseResult {
    let (x, y): (Vec<&NL>, Vec<&NL>) = (a.get_node_label_map().items().collect(), b.get_node_label_map().items().collect());
    ensure_eq!(y, x, "imported node label table");
    let (x, y): (Vec<&EL>, Vec<&EL>) = (a.get_edge_label_map().items().collect(), b.get_edge_label_map().items().collect());
    ensure_eq!(y, x, "imported edge label table");
    let x: BTreeMap<Id, Option<L>> = a.nodes().map(|n| (n.get_id(), n.get_label_id())).collect();
    let y: BTreeMap<Id, Option<L>> = b.nodes().map(|n| (n.get_id(), n.get_label_id())).collect();
    ensure_eq!(y, x, "imported node label ids");
    let key = |s: Id, t: Id| m.key(s.id(), t.id());
    let x: BTreeMap<(usize, usize), Option<L>> = a.edges().map(|e| (key(e.get_start(), e.get_target()), e.get_label_id())).collect();
    let y: BTreeMap<(usize, usize), Option<L>> = b.edges().map(|e| (key(e.get_start(), e.get_target()), e.get_label_id())).collect();
    ensure_eq!(y, x, "imported edge label ids");
    Ok(())
}

fn case<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    let cut = |e: String| e.chars().take(3000).collect::<String>();
    let u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize(), L::max_usize(), false);
    let steps = *ctx.rng.pick(&[0usize, 2, 5, 12, 30, 80]);
    ctx.describe(format!("{}/{}/{}/{} ids {:?}; ", Id::NAME, NL::NAME, EL::NAME, L::NAME, u.ids));
    let big = ctx.case % 499 < 10 && ctx.case >= 499;
    let do_cuts = ctx.case % 4 == 0 || big;
    let p = ctx.path("x.bin");

    // ---- a mutable graph with a history
    let (mut g, mut m): (TypedGraphMap<Id, NL, EL, Ty, L>, Model<NL, EL>) = if big {
        let n = (if ctx.case % 499 == 7 && ctx.case < 2000 || ctx.tier == Tier::Thorough && ctx.rng.chance(1, 8) { 70_000 } else { *ctx.rng.pick(&[300usize, 3000]) }).min(Id::max_usize().saturating_add(1));
        let m = big_model(&mut ctx.rng, Ty::DIRECTED, n, &u);
        ctx.ev("large graphs");
        (m.to_graphmap(&mut ctx.rng), m)
    } else {
        random_graph(ctx, &u, steps)?
    };
    save(ctx, &g, &p)?;
    let mut h: TypedGraphMap<Id, NL, EL, Ty, L> = load(ctx, &p)?;
    check_graph(ctx, Ty::gm(&h), &m, ALL, m.max_seen, "imported graph").map_err(cut)?;
    ensure!(h == g && g == h, "the imported graph is not equal to the exported one: {}", m.brief());
    same_tables(Ty::gm(&g), Ty::gm(&h), &m)?;
    ensure_eq!(h.max_seen_id(), g.max_seen_id(), "max_seen_id() of the imported graph");
    if do_cuts {
        cuts::<TypedGraphMap<Id, NL, EL, Ty, L>>(ctx, &p, "GraphMap")?;
        bad_reads(ctx, &p, &g, "GraphMap")?;
    }
    if !big {
        // it stays fully usable: more mutations, in lockstep
        let w = Watch { returns: true, labels: true };
        for _ in 0..ctx.rng.below(15) {
            step(ctx, &mut h, &mut m, &u, MIX_ALL, w).map_err(|e| format!("on the imported graph: {}", e))?;
        }
        check_graph(ctx, Ty::gm(&h), &m, ALL, m.max_seen, "imported graph after more mutations").map_err(cut)?;
        // and once more around
        save(ctx, &h, &p)?;
        g = load(ctx, &p)?;
        ensure!(g == h, "the twice imported graph is not equal: {}", m.brief());
        check_graph(ctx, Ty::gm(&g), &m, ALL, m.max_seen, "twice imported graph").map_err(cut)?;
    }

    // ---- its label tables on their own
    let t: SetMap<NL> = g.get_node_label_map().clone();
    save(ctx, &t, &p)?;
    let t2: SetMap<NL> = load(ctx, &p)?;
    ensure!(t2 == t, "imported SetMap");
    ensure!(t2.items().eq(t.items()), "items of the imported SetMap");
    for (i, x) in t.items().enumerate() {
        ensure_eq!(t2.find_index(x), Some(i), "find_index({:?}) in the imported SetMap", x);
    }
    if do_cuts {
        cuts::<SetMap<NL>>(ctx, &p, "SetMap")?;
        bad_reads(ctx, &p, &t, "SetMap")?;
    }
    let v: VecMap<NL> = VecMap::from(&t);
    save(ctx, &v, &p)?;
    let mut v2: VecMap<NL> = load(ctx, &p)?;
    ensure!(v2 == v, "imported VecMap");
    if do_cuts {
        cuts::<VecMap<NL>>(ctx, &p, "VecMap")?;
        bad_reads(ctx, &p, &v, "VecMap")?;
    }
    let mut t2 = t2;
    for k in 0..NL::MAX.min(20) {
        let x = NL::make(k);
        let want = t.find_index(&x).unwrap_or(t2.len().min(usize::MAX));
        if t.contains(&x) {
            ensure_eq!(t2.add_item(x.clone()), want, "add_item({:?}) on the imported SetMap", x);
            ensure_eq!(v2.add_item(x.clone()), want, "add_item({:?}) on the imported VecMap", x);
        } else {
            let n = t2.len();
            ensure_eq!(t2.add_item(x.clone()), n, "add_item({:?}) on the imported SetMap", x);
            ensure_eq!(v2.add_item(x.clone()), n, "add_item({:?}) on the imported VecMap", x);
        }
    }

    // ---- a static graph
    let dm = densify(&m);
    if dm.nodes.len() <= Id::max_usize() {
        let s: TypedStaticGraph<Id, NL, EL, Ty, L> = static_of(&mut ctx.rng, &dm);
        let top = dm.nodes.keys().last().cloned();
        save(ctx, &s, &p)?;
        let r: TypedStaticGraph<Id, NL, EL, Ty, L> = load(ctx, &p)?;
        check_graph(ctx, Ty::st(&r), &dm, ALL, top, "imported static graph").map_err(cut)?;
        ensure!(r == s && s == r, "the imported static graph is not equal to the exported one: {}", dm.brief());
        ensure!(r.get_edge_vec() == s.get_edge_vec(), "imported edge vector differs");
        ensure!(r.get_in_edge_vec() == s.get_in_edge_vec(), "imported in-edge vector differs");
        ensure!(r.get_labels() == s.get_labels(), "imported node label ids differ");
        same_tables(Ty::st(&s), Ty::st(&r), &dm)?;
        if do_cuts {
            cuts::<TypedStaticGraph<Id, NL, EL, Ty, L>>(ctx, &p, "StaticGraph")?;
            bad_reads(ctx, &p, &s, "StaticGraph")?;
        }
        // it can be dumped and stripped like the original
        let mut r2 = r.clone();
        r2.remove_labels();
        let st = strip(&dm, true, true);
        check_graph(ctx, Ty::st(&r2), &st, COUNT | MEMBER | LABEL, top, "imported static graph without labels").map_err(cut)?;
        let ev: &EdgeVec<Id, L> = s.get_edge_vec();
        Serializer::export(ev, &p).map_err(|e| format!("export failed: {}", e))?;
        let ev2: EdgeVec<Id, L> = Deserializer::import(&p).map_err(|e| format!("import failed: {}", e))?;
        ensure!(&ev2 == ev, "imported EdgeVec differs");
    }
    missing::<TypedGraphMap<Id, NL, EL, Ty, L>>(ctx)?;
    missing::<TypedStaticGraph<Id, NL, EL, Ty, L>>(ctx)?;
    missing::<SetMap<NL>>(ctx)?;
    ctx.clean_scratch();
    if !m.edges.is_empty() {
        let k = m.fingerprint();
        ctx.nontrivial(k);
    }
    Ok(())
}

fn run(ctx: &mut Ctx) -> CaseResult {
    ctx.clean_scratch();
    let mut sel = ctx.rng.below(10);
    if ctx.case % 499 == 7 {
        // the largest graphs need wide ids
        sel = *ctx.rng.pick(&[0, 1, 6, 7, 8, 9]);
    }
    dispatch!(sel, case(ctx))
}

fn main() {
    driver::main(CheckDef {
        id: "C10",
        level: "exploration",
        rule: "each case exports and imports a hash-map graph with a random history (0..80 steps; now and then 300 to 70000 nodes), its label tables (both kinds), and a static graph with the same content; compares every query, equality, label ids and tables; continues mutating the imported graph in lockstep with the model; and in every fourth case cuts each file at every byte (large files: at the ends, at buffer borders and at random bytes) and requires the importer to report an error, and (through stand-ins for the C library's read and open) imports through short reads, which must not matter, and with single calls failing, which must be reported. Non-trivial: the graph has an edge; distinct: by content.",
        assumptions: &["files are cut off, not corrupted (lengths inside a file are trusted by the serialisation library)"],
        quick: 12000,
        thorough: 150000,
        run,
        mem_mb: 4096,
    })
}
