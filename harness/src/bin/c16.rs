//! C16: connected components.
use harness::history::*;
use harness::impls::*;
use harness::traverse::shaped;
use harness::*;
use rust_graph::algorithm::ConnComp;
use rust_graph::generic::{Edge, EdgeTrait};
use rust_graph::graph_impl::TypedGraphMap;
use std::collections::{BTreeMap, BTreeSet};

/// The partition the detector must represent: node -> component number.
#[derive(Clone, Default)]
struct Parts {
    of: BTreeMap<usize, usize>,
    next: usize,
}
impl Parts {
    fn node(&mut self, x: usize) {
        if !self.of.contains_key(&x) {
            self.of.insert(x, self.next);
            self.next += 1;
        }
    }
    fn join(&mut self, a: usize, b: usize) {
        self.node(a);
        self.node(b);
        let (p, q) = (self.of[&a], self.of[&b]);
        if p != q {
            for v in self.of.values_mut() {
                if *v == p {
                    *v = q;
                }
            }
        }
    }
    fn graph<NL: HLabel, EL: HLabel>(&mut self, m: &Model<NL, EL>) {
        for n in m.nodes.keys() {
            self.node(*n);
        }
        for &(a, b) in m.edges.keys() {
            self.join(a, b);
        }
    }
    fn groups(&self) -> BTreeMap<usize, BTreeSet<usize>> {
        let mut g: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
        for (n, c) in &self.of {
            g.entry(*c).or_default().insert(*n);
        }
        g
    }
}

/// Every answer of the detector against the partition.
fn observe<Id: HId>(ctx: &mut Ctx, cc: &ConnComp<Id>, p: &Parts, probes: &[usize], what: &str) -> CaseResult {
    let groups = p.groups();
    ensure_eq!(cc.get_count(), groups.len(), "{}: number of components", what);
    ctx.ev("partitions compared");
    ctx.evn("components observed", groups.len());
    let mut order: Vec<usize> = p.of.keys().copied().collect();
    ctx.rng.shuffle(&mut order);
    let big = order.len() > 60;
    // queries in a random order: they rearrange the detector inside
    if ctx.rng.chance(1, 2) {
        pairs(ctx, cc, p, &order, big, what)?;
    }
    let mut reps: BTreeMap<usize, usize> = BTreeMap::new();
    for x in &order {
        let id = Id::new(*x);
        let par = cc.get_parent(id).ok_or_else(|| format!("{}: get_parent({}) of a known node is None", what, x))?;
        ensure!(p.of.get(&par.id()) == p.of.get(x), "{}: get_parent({}) = {:?} is of another component", what, x, par);
        let r = cc.get_root(id).ok_or_else(|| format!("{}: get_root({}) of a known node is None", what, x))?;
        ensure!(p.of.get(&r.id()) == p.of.get(x), "{}: get_root({}) = {:?} is of another component", what, x, r);
        let k = *reps.entry(p.of[x]).or_insert(r.id());
        ensure_eq!(r.id(), k, "{}: the representative of {} differs from that of another member", what, x);
        ensure!(cc.get_root(r) == Some(r), "{}: the representative {:?} is not its own representative", what, r);
        ctx.ev("representatives observed");
        if big && !ctx.rng.chance(20, order.len()) {
            continue;
        }
        let got = cc.get_connected_nodes(id).ok_or_else(|| format!("{}: get_connected_nodes({}) of a known node is None", what, x))?;
        let set: BTreeSet<usize> = got.iter().map(|i| i.id()).collect();
        ensure_eq!(got.len(), set.len(), "{}: get_connected_nodes({}) lists a node twice: {:?}", what, x, got);
        ensure_eq!(&set, &groups[&p.of[x]], "{}: get_connected_nodes({})", what, x);
        ctx.ev("member listings observed");
    }
    ensure_eq!(reps.values().collect::<BTreeSet<_>>().len(), groups.len(), "{}: distinct representatives", what);
    pairs(ctx, cc, p, &order, big, what)?;
    // absent nodes
    for a in probes.iter().filter(|a| !p.of.contains_key(a)) {
        let id = Id::new(*a);
        ensure!(cc.get_root(id).is_none() && cc.get_parent(id).is_none() && cc.get_connected_nodes(id).is_none(), "{}: an answer about the unknown node {}", what, a);
        ensure!(!cc.is_connected(id, id), "{}: the unknown node {} is connected to itself", what, a);
        if let Some(x) = order.first() {
            ensure!(!cc.is_connected(id, Id::new(*x)) && !cc.is_connected(Id::new(*x), id), "{}: the unknown node {} is connected to {}", what, a, x);
        }
        ctx.ev("unknown nodes asked");
    }
    let known: BTreeSet<usize> = cc.parent().keys().map(|i| i.id()).collect();
    ensure_eq!(known, p.of.keys().copied().collect::<BTreeSet<_>>(), "{}: nodes in the parent map", what);
    ensure_eq!(cc.get_count(), groups.len(), "{}: number of components after the queries", what);
    Ok(())
}

fn pairs<Id: HId>(ctx: &mut Ctx, cc: &ConnComp<Id>, p: &Parts, order: &[usize], big: bool, what: &str) -> CaseResult {
    let mut ask = |ctx: &mut Ctx, a: usize, b: usize| {
        ctx.ev("membership tests");
        ensure_eq!(cc.is_connected(Id::new(a), Id::new(b)), p.of[&a] == p.of[&b], "{}: is_connected({}, {})", what, a, b);
        Ok(())
    };
    if order.len() <= 12 {
        for a in order {
            for b in order {
                ask(ctx, *a, *b)?;
            }
        }
    } else {
        for _ in 0..if big { 300 } else { 100 } {
            let (a, b) = (*ctx.rng.pick(order), *ctx.rng.pick(order));
            ask(ctx, a, b)?;
        }
    }
    Ok(())
}

/// A detector's life: graphs and edges fed in any order, resets, copies.
fn life<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    let u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize(), L::max_usize(), false);
    ctx.describe(format!("detector history, {} ids {:?}", Id::NAME, u.ids));
    let mut p = Parts::default();
    let mut cc: ConnComp<Id> = match ctx.rng.below(3) {
        0 => ConnComp::empty(),
        1 => ConnComp::with_capacity(*ctx.rng.pick(&[0usize, 1, 7, 1000])),
        _ => {
            let steps = ctx.rng.below(20);
            let (g, m): (TypedGraphMap<Id, NL, EL, Ty, L>, Model<NL, EL>) = random_graph(ctx, &u, steps)?;
            ctx.step(format!("ConnComp::new({})", m.brief()));
            p.graph(&m);
            ConnComp::new(Ty::gm(&g))
        }
    };
    let mut copies: Vec<(ConnComp<Id>, Parts)> = Vec::new();
    let mut key = 0;
    let every = ctx.rng.range(1, 6);
    for s in 0..*ctx.rng.pick(&[4usize, 12, 30, 60]) {
        match ctx.rng.below(20) {
            0..=11 => {
                let (a, b) = (u.id(&mut ctx.rng), u.id(&mut ctx.rng));
                ctx.step(format!("process_new_edge({}, {})", a, b));
                key = rng::mix(key ^ (a as u64) << 20 ^ b as u64);
                let l = if ctx.rng.chance(1, 2) { Some(L::new(0)) } else { None };
                let e: Edge<Id, L> = Edge::new(Id::new(a), Id::new(b), l);
                cc.process_new_edge(&e as &dyn EdgeTrait<Id, L>);
                p.join(a, b);
                ctx.ev("edges fed");
            }
            12..=14 => {
                // another graph
                let m: Model<NL, EL> = shaped(&mut ctx.rng, Ty::DIRECTED, &u.ids, &u);
                let m = if ctx.rng.chance(1, 2) { let mut m = m; let k = ctx.rng.below(u.ids.len()); for i in &u.ids[..k] { m.remove_node(*i); } m } else { m };
                ctx.step(format!("run_detection({})", m.brief()));
                key = rng::mix(key ^ m.fingerprint());
                let g = m.to_graphmap::<Id, Ty, L>(&mut ctx.rng);
                cc.run_detection(Ty::gm(&g));
                p.graph(&m);
                ctx.ev("graphs fed");
            }
            15 => {
                if ctx.rng.chance(1, 4) {
                    ctx.step("reset".into());
                    cc.reset();
                    p = Parts::default();
                    ctx.ev("resets");
                }
            }
            16 => {
                copies.push((cc.clone(), p.clone()));
                ctx.ev("copies of detectors");
            }
            _ => {
                // a single query in between
                let (a, b) = (u.id(&mut ctx.rng), u.id(&mut ctx.rng));
                let want = p.of.contains_key(&a) && p.of.get(&a) == p.of.get(&b);
                ensure_eq!(cc.is_connected(Id::new(a), Id::new(b)), want, "is_connected({}, {})", a, b);
                ctx.ev("membership tests");
            }
        }
        if s % every == 0 {
            observe(ctx, &cc, &p, &u.ids, "during the detector's history")?;
        }
    }
    observe(ctx, &cc, &p, &u.ids, "after the detector's history")?;
    for (c, p) in &copies {
        observe(ctx, c, p, &u.ids, "a copy of the detector")?;
    }
    if p.of.len() >= 2 {
        ctx.nontrivial(key);
    }
    Ok(())
}

fn case<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    let cut = |e: String| e.chars().take(3000).collect::<String>();
    let big = ctx.case % 1009 < 10 && ctx.case >= 1009;
    if !big && ctx.rng.chance(1, 2) {
        return life::<Id, NL, EL, Ty, L>(ctx);
    }
    let u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize(), L::max_usize(), false);
    ctx.describe(format!("{}/{} ", Id::NAME, if Ty::DIRECTED { "directed" } else { "undirected" }));
    let (g, m): (TypedGraphMap<Id, NL, EL, Ty, L>, Model<NL, EL>) = if big {
        let n = (*ctx.rng.pick(&[256usize, 256, 3000, 3000, 30_000, 30_000, 200_000])).min(Id::max_usize().saturating_add(1));
        let mut m = Model::new(Ty::DIRECTED);
        match ctx.rng.below(3) {
            0 => m = big_model(&mut ctx.rng, Ty::DIRECTED, n, &u),
            // one long path in random order of ids, or many small components
            k => {
                let mut o: Vec<usize> = (0..n).collect();
                ctx.rng.shuffle(&mut o);
                for i in &o {
                    m.add_node(*i, None);
                }
                for (i, w) in o.windows(2).enumerate() {
                    if k == 1 || i % 3 != 2 {
                        m.add_edge(w[0], w[1], None);
                    }
                }
            }
        }
        ctx.ev("large graphs");
        (m.to_graphmap(&mut ctx.rng), m)
    } else if ctx.rng.chance(1, 2) {
        let steps = *ctx.rng.pick(&[3usize, 10, 30, 60]);
        random_graph(ctx, &u, steps)?
    } else {
        let m = shaped(&mut ctx.rng, Ty::DIRECTED, &u.ids, &u);
        (m.to_graphmap(&mut ctx.rng), m)
    };
    ctx.describe_add(&if big { format!("large, {} nodes", m.nodes.len()) } else { m.brief() });
    let parts = |m: &Model<NL, EL>| Parts { of: m.components(), next: usize::MAX };
    let mut probes = u.ids.clone();
    probes.extend([0, 1, Id::max_usize(), Id::max_usize() - 1]);
    let cc = ConnComp::new(Ty::gm(&g));
    observe(ctx, &cc, &parts(&m), &probes, "GraphMap").map_err(cut)?;
    if !big && ctx.rng.chance(1, 3) {
        // detecting again changes nothing
        let mut cc = cc;
        cc.run_detection(Ty::gm(&g));
        observe(ctx, &cc, &parts(&m), &probes, "GraphMap detected twice").map_err(cut)?;
    }
    let d = densify(&m);
    let p = parts(&d);
    for (name, g) in impls::<Id, NL, EL, Ty, L>(ctx, &d) {
        let cc = ConnComp::new(g.as_ref());
        observe(ctx, &cc, &p, &probes, name).map_err(cut)?;
    }
    if m.edges.len() >= 2 {
        let k = m.fingerprint();
        ctx.nontrivial(k);
    }
    Ok(())
}

/// One detector fed with very many edges in an order that makes its trees as deep as they get.
fn deep(ctx: &mut Ctx) -> CaseResult {
    let n = *ctx.rng.pick(&[70_000usize, 200_000, 400_000]);
    let order = ctx.case / 401 % 6;
    let names = ["a path, forwards", "a path, backwards", "a path forwards, edges turned round", "a path backwards, edges turned round", "a path in random order", "pairs, then pairs of pairs, and so on"];
    ctx.describe(format!("deep: {} of {} nodes", names[order as usize], n));
    let mut es: Vec<(usize, usize)> = (1..n).map(|i| (i - 1, i)).collect();
    match order {
        1 => es.reverse(),
        2 => es.iter_mut().for_each(|e| *e = (e.1, e.0)),
        3 => {
            es.reverse();
            es.iter_mut().for_each(|e| *e = (e.1, e.0));
        }
        4 => ctx.rng.shuffle(&mut es),
        5 => {
            es.clear();
            let mut w = 1;
            while w < n {
                es.extend((0..n).step_by(2 * w).filter(|i| i + w < n).map(|i| (i, i + w)));
                w *= 2;
            }
        }
        _ => {}
    }
    let mut cc: ConnComp<u32> = ConnComp::empty();
    let hole = if order == 5 { None } else { Some(ctx.rng.below(n - 1)) };
    for (a, b) in &es {
        if hole == Some((*a).min(*b)) {
            // one edge is missing
            continue;
        }
        let e: Edge<u32, u32> = Edge::new(*a as u32, *b as u32, None);
        cc.process_new_edge(&e as &dyn EdgeTrait<u32, u32>);
    }
    ctx.evn("edges fed", es.len());
    let side = |x: usize| hole.map_or(false, |h| x > h);
    // a hole at either end leaves a node that was never fed
    let lost = |x: usize| hole.map_or(false, |h| (h == 0 && x == 0) || (h == n - 2 && x == n - 1));
    let missing = (0..n).filter(|x| lost(*x)).count();
    let known: Vec<usize> = vec![0, 1, n / 2, n - 2, n - 1].into_iter().filter(|x| !lost(*x)).collect();
    let parts = known.iter().map(|x| side(*x)).collect::<BTreeSet<_>>().len();
    ensure_eq!(cc.get_count(), if hole.is_some() && missing == 0 { 2 } else { parts }, "number of components");
    let mut probe = known.clone();
    for _ in 0..200 {
        let x = ctx.rng.below(n);
        if !lost(x) {
            probe.push(x);
        }
    }
    let mut root: BTreeMap<bool, u32> = BTreeMap::new();
    for x in &probe {
        let r = cc.get_root(*x as u32).ok_or_else(|| format!("get_root({}) of a known node is None", x))?;
        let k = *root.entry(side(*x)).or_insert(r);
        ensure_eq!(r, k, "the representative of {} differs from that of another member", x);
        let y = *ctx.rng.pick(&probe);
        ensure_eq!(cc.is_connected(*x as u32, y as u32), side(*x) == side(y), "is_connected({}, {})", x, y);
        ctx.ev("membership tests");
    }
    let x = *ctx.rng.pick(&probe);
    let got = cc.get_connected_nodes(x as u32).ok_or_else(|| format!("get_connected_nodes({}) of a known node is None", x))?;
    let want = (0..n).filter(|y| !lost(*y) && side(*y) == side(x)).count();
    ensure_eq!(got.len(), want, "number of nodes in get_connected_nodes({})", x);
    ensure_eq!(got.iter().collect::<BTreeSet<_>>().len(), want, "distinct nodes in get_connected_nodes({})", x);
    ctx.ev("deep structures");
    ctx.nontrivial(rng::mix(order ^ (n as u64) << 8));
    Ok(())
}

fn run(ctx: &mut Ctx) -> CaseResult {
    if ctx.case % 401 == 400 {
        return deep(ctx);
    }
    let sel = ctx.case;
    dispatch!(sel, case(ctx))
}

fn main() {
    driver::main(CheckDef {
        id: "C16",
        level: "exploration",
        rule: "half of the cases feed one detector a random sequence of edges and graphs with queries, copies and resets in between (4..60 steps) and compare it with a relabelling partition kept next to it; the other half detect components of shaped or historied graphs on all four implementations and compare with reachability computed by search over the abstract graph. Every observation compares the count, every parent and representative, the member listings, membership for all pairs (sampled above 12 nodes) in random query order, and the answers about unknown nodes. Every 1009 cases ten graphs of up to 200000 nodes (long path in random id order, hub, many small components). Every 401st case feeds one detector 70000 to 400000 edges in an order that makes its trees deep (path forwards, backwards, turned round, shuffled, or a tournament) with one edge missing. Non-trivial: at least two nodes/edges; distinct by content or history.",
        assumptions: &["which member represents a component is unspecified; it must be the same for all members"],
        quick: 12000,
        thorough: 400000,
        run,
        mem_mb: 4096,
    })
}
