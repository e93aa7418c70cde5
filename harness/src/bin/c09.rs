//! C09: a memory-mapped dump behaves identically to the graph that was dumped.
use harness::history::*;
use harness::impls::*;
use harness::observe::*;
use harness::*;
use rust_graph::generic::{DiGraphTrait, EdgeTrait, GeneralGraph, GraphLabelTrait, GraphTrait, MapTrait, NodeTrait};
use rust_graph::graph_impl::static_graph::EdgeVecTrait;
use rust_graph::graph_impl::{EdgeVec, EdgeVecMmap, StaticGraphMmap, TypedStaticGraph};
use std::collections::BTreeMap;

type SG<Id, NL, EL, Ty, L> = TypedStaticGraph<Id, NL, EL, Ty, L>;

/// The mapped graph against the graph that was dumped and the abstract graph.
fn same<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(
    ctx: &mut Ctx,
    g: &SG<Id, NL, EL, Ty, L>,
    m: &Model<NL, EL>,
    p: &str,
    what: &str,
) -> CaseResult {
    let mm: StaticGraphMmap<Id, NL, EL, L> = StaticGraphMmap::new(p);
    ctx.ev("dumps mapped");
    let top = m.nodes.keys().last().cloned();
    check_graph(ctx, &mm, m, ALL, top, what).map_err(|e| e.chars().take(3000).collect::<String>())?;
    let d = Ty::st(g);
    let (a, b): (Vec<&NL>, Vec<&NL>) = (d.get_node_label_map().items().collect(), mm.get_node_label_map().items().collect());
    ensure_eq!(b, a, "{}: node label table of the mapped graph", what);
    let (a, b): (Vec<&EL>, Vec<&EL>) = (d.get_edge_label_map().items().collect(), mm.get_edge_label_map().items().collect());
    ensure_eq!(b, a, "{}: edge label table of the mapped graph", what);
    // label ids, item by item
    let a: Vec<(Id, Option<L>)> = d.nodes().map(|n| (n.get_id(), n.get_label_id())).collect();
    let b: Vec<(Id, Option<L>)> = mm.nodes().map(|n| (n.get_id(), n.get_label_id())).collect();
    ensure!(a == b, "{}: nodes() of the mapped graph differ from the dumped graph's", what);
    let key = |s: Id, t: Id| m.key(s.id(), t.id());
    let a: BTreeMap<(usize, usize), Option<L>> = d.edges().map(|e| (key(e.get_start(), e.get_target()), e.get_label_id())).collect();
    let b: BTreeMap<(usize, usize), Option<L>> = mm.edges().map(|e| (key(e.get_start(), e.get_target()), e.get_label_id())).collect();
    ensure!(a == b, "{}: edges() of the mapped graph differ from the dumped graph's", what);
    let inn = m.in_adj();
    for (i, &n) in m.nodes.keys().enumerate() {
        if m.nodes.len() > 500 && i % 41 != 0 {
            continue;
        }
        let x = Id::new(n);
        ensure!(mm.inner_neighbors(x) == &d.neighbors(x)[..], "{}: inner_neighbors({})", what, n);
        let w: Vec<usize> = if Ty::DIRECTED { inn[&n].iter().cloned().collect() } else { Vec::new() };
        let got: Vec<usize> = mm.inner_in_neighbors(x).iter().map(|i| i.id()).collect();
        ensure_eq!(got, w, "{}: inner_in_neighbors({})", what, n);
    }
    Ok(())
}

/// A static graph whose counts and slots disagree (id gaps, or counts given by the user):
/// the mapped graph must answer like the dumped one, whatever that answers.
fn odd<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    let mut u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize().min(400), L::max_usize(), false);
    u.ids.truncate(12);
    let ids = u.ids.clone();
    let e = ctx.rng.below(ids.len() * 3 + 1);
    let m: Model<NL, EL> = random_model(&mut ctx.rng, Ty::DIRECTED, &ids, e, &u);
    let (x, y) = (ctx.rng.chance(1, 2), ctx.rng.chance(1, 2));
    let m = strip(&m, x, y);
    let slots = m.nodes.keys().last().map_or(0, |x| x + 1);
    let (g, what): (SG<Id, NL, EL, Ty, L>, String) = if ctx.rng.chance(1, 2) || slots == 0 {
        ctx.ev("graphs with id gaps dumped");
        (m.to_graphmap::<Id, Ty, L>(&mut ctx.rng).into_static(), format!("gapped {}", m.brief()))
    } else {
        // the counts are the user's
        let g = m.to_graphmap::<Id, Ty, L>(&mut ctx.rng).into_static();
        let nn = ctx.rng.range(0, slots + 1);
        let ne = *ctx.rng.pick(&[0usize, 1, 7, m.edges.len(), usize::MAX, 1 << 33]);
        ctx.ev("graphs with counts of the user's dumped");
        let (ev, iv) = (g.get_edge_vec().clone(), g.get_in_edge_vec().clone());
        let (nt, et) = (g.get_node_label_map().clone(), g.get_edge_label_map().clone());
        let w = format!("counts {} and {} on {}", nn, ne, m.brief());
        let r = match (g.get_labels().clone(), ctx.rng.below(2)) {
            (Some(l), 0) => TypedStaticGraph::with_labels(ev, iv, l, nt, et, Some(nn), Some(ne)),
            (None, 0) => {
                let mut r = TypedStaticGraph::new(ev, iv, Some(nn), Some(ne));
                *r.get_edge_label_map_mut() = et;
                r
            }
            (l, _) => TypedStaticGraph::from_raw(nn, ne, ev, iv, l, nt, et),
        };
        (r, w)
    };
    ctx.step(format!("dump {}", what));
    let p = ctx.path("odd");
    g.dump_mmap(&p).map_err(|e| format!("dump_mmap: {}", e))?;
    let mm: StaticGraphMmap<Id, NL, EL, L> = StaticGraphMmap::new(&p);
    let d = Ty::st(&g);
    ensure_eq!(mm.node_count(), d.node_count(), "{}: node_count() of the mapped graph", what);
    ensure_eq!(mm.edge_count(), d.edge_count(), "{}: edge_count() of the mapped graph", what);
    ensure_eq!(mm.is_directed(), d.is_directed(), "{}: is_directed() of the mapped graph", what);
    ensure_eq!(mm.max_seen_id(), d.max_seen_id(), "{}: max_seen_id() of the mapped graph", what);
    let (a, b): (Vec<Id>, Vec<Id>) = (d.node_indices().collect(), mm.node_indices().collect());
    ensure_eq!(b, a, "{}: node_indices() of the mapped graph", what);
    let (a, b): (Vec<(Id, Option<L>)>, Vec<_>) = (d.nodes().map(|n| (n.get_id(), n.get_label_id())).collect(), mm.nodes().map(|n| (n.get_id(), n.get_label_id())).collect());
    ensure_eq!(b, a, "{}: nodes() of the mapped graph", what);
    let key = |s: Id, t: Id| m.key(s.id(), t.id());
    let mut a: Vec<_> = d.edges().map(|e| (key(e.get_start(), e.get_target()), e.get_label_id())).collect();
    let mut b: Vec<_> = mm.edges().map(|e| (key(e.get_start(), e.get_target()), e.get_label_id())).collect();
    a.sort();
    b.sort();
    ensure_eq!(b, a, "{}: edges() of the mapped graph", what);
    let (a, b): (Vec<&NL>, Vec<&NL>) = (d.get_node_label_map().items().collect(), mm.get_node_label_map().items().collect());
    ensure_eq!(b, a, "{}: node label table of the mapped graph", what);
    let (a, b): (Vec<&EL>, Vec<&EL>) = (d.get_edge_label_map().items().collect(), mm.get_edge_label_map().items().collect());
    ensure_eq!(b, a, "{}: edge label table of the mapped graph", what);
    for i in 0..slots + 2 {
        if i > Id::max_usize() {
            break;
        }
        let x = Id::new(i);
        ensure_eq!(mm.has_node(x), d.has_node(x), "{}: has_node({}) of the mapped graph", what, i);
        if i >= slots {
            continue;
        }
        ensure_eq!(mm.neighbors(x).into_owned(), d.neighbors(x).into_owned(), "{}: neighbors({}) of the mapped graph", what, i);
        ensure_eq!(mm.degree(x), d.degree(x), "{}: degree({}) of the mapped graph", what, i);
        if let (Some(a), Some(b)) = (d.as_digraph(), mm.as_digraph()) {
            ensure_eq!(b.in_neighbors(x).into_owned(), a.in_neighbors(x).into_owned(), "{}: in_neighbors({}) of the mapped graph", what, i);
            ensure_eq!(b.in_degree(x), a.in_degree(x), "{}: in_degree({}) of the mapped graph", what, i);
        }
        if d.has_node(x) {
            ensure_eq!(mm.get_node(x).get_label_id(), d.get_node(x).get_label_id(), "{}: label id of node {} of the mapped graph", what, i);
            ensure_eq!(mm.get_node_label(x), d.get_node_label(x), "{}: get_node_label({}) of the mapped graph", what, i);
        }
        for &t in d.neighbors(x).iter() {
            ensure_eq!(mm.has_edge(x, t), d.has_edge(x, t), "{}: has_edge({}, {:?}) of the mapped graph", what, i, t);
            ensure_eq!(mm.get_edge_label(x, t), d.get_edge_label(x, t), "{}: get_edge_label({}, {:?}) of the mapped graph", what, i, t);
        }
        ctx.ev("slots of odd graphs compared");
    }
    Ok(())
}

/// Dense models; sizes now and then at the borders of the write chunks.
fn model<NL: HLabel, EL: HLabel>(ctx: &mut Ctx, directed: bool, idmax: usize, lmax: usize, big: bool) -> Model<NL, EL> {
    let u = universe::<NL, EL>(&mut ctx.rng, idmax, lmax, true);
    let m = if big {
        ctx.ev("graphs larger than one write chunk");
        let n = *ctx.rng.pick(&[1249usize, 1250, 1251, 2499, 2500, 2501, 4999, 5000, 5001, 9999, 10_000, 10_001, 30_000]);
        big_model(&mut ctx.rng, directed, n.min(idmax.saturating_add(1)), &u)
    } else {
        let k = *ctx.rng.pick(&[0usize, 0, 1, 2, 3, 5, 9, 20, 40]);
        let ids: Vec<usize> = (0..k).collect();
        let e = if ctx.rng.chance(1, 6) { 0 } else { ctx.rng.below(k * 3 + 1) };
        random_model(&mut ctx.rng, directed, &ids, e, &u)
    };
    let (x, y) = (ctx.rng.chance(1, 3), ctx.rng.chance(1, 3));
    strip(&m, x, y)
}

fn case<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    let big = ctx.case % 211 < 10 && ctx.case >= 211;
    // a name and others that differ from it in their end
    let base = *ctx.rng.pick(&["g", "g", "a b", "sub/g", "G.x", "7", "part-"]);
    let mut names = vec![base.to_string()];
    for _ in 0..ctx.rng.range(1, 3) {
        names.push(format!("{}{}", base, ctx.rng.pick(&["1", "2", "10", ".v1", ".v2", "_", "-1", ".", "_1", "g", ".bin", "0", " ", "_out", ".labels1"])));
    }
    std::fs::create_dir_all(ctx.path("sub")).unwrap();
    ctx.describe(format!("{}/{}/{}/{} {}", Id::NAME, NL::NAME, EL::NAME, L::NAME, if Ty::DIRECTED { "directed" } else { "undirected" }));
    // what each name holds now
    let mut live: BTreeMap<String, (SG<Id, NL, EL, Ty, L>, Model<NL, EL>)> = BTreeMap::new();
    let rounds = if big { 2 } else { ctx.rng.range(1, 5) };
    let mut key = 0u64;
    for round in 0..rounds {
        let name = if round > 0 && ctx.rng.chance(1, 2) && !live.is_empty() {
            live.keys().nth(ctx.rng.below(live.len())).unwrap().clone()
        } else {
            ctx.rng.pick(&names).clone()
        };
        let name = &name[..];
        let m: Model<NL, EL> = model(ctx, Ty::DIRECTED, Id::max_usize(), L::max_usize(), big && round == 0);
        let g: SG<Id, NL, EL, Ty, L> = static_of(&mut ctx.rng, &m);
        let p = ctx.path(name);
        let brief: String = m.brief().chars().take(160).collect();
        ctx.step(format!("dump {} to {:?}", brief, name));
        // another kind of graph may have been stored there before
        if ctx.rng.chance(1, 4) {
            ctx.step(format!("  after a dump of the other direction to {:?}", name));
            ctx.ev("dumps over a graph of the other direction");
            let o: Model<NL, EL> = model(ctx, !Ty::DIRECTED, Id::max_usize(), L::max_usize(), false);
            if Ty::DIRECTED {
                let g: TypedStaticGraph<Id, NL, EL, rust_graph::generic::Undirected, L> = static_of(&mut ctx.rng, &o);
                g.dump_mmap(&p).map_err(|e| format!("dump_mmap: {}", e))?;
            } else {
                let g: TypedStaticGraph<Id, NL, EL, rust_graph::generic::Directed, L> = static_of(&mut ctx.rng, &o);
                g.dump_mmap(&p).map_err(|e| format!("dump_mmap: {}", e))?;
            }
        }
        if live.contains_key(name) {
            ctx.ev("dumps over an earlier dump");
        }
        g.dump_mmap(&p).map_err(|e| format!("dump_mmap: {}", e))?;
        same(ctx, &g, &m, &p, &format!("dump {} at {:?}", round, name))?;
        key ^= m.fingerprint();
        live.insert(name.to_string(), (g, m));
        if !big {
            for (o, (g, m)) in &live {
                if o != name {
                    ctx.ev("neighbouring dumps mapped again");
                    same(ctx, g, m, &ctx.path(o), &format!("dump at {:?} after one at {:?}", o, name))?;
                }
            }
        }
    }
    // an edge vector on its own
    if !big || ctx.rng.chance(1, 4) {
        let m: Model<NL, EL> = model(ctx, Ty::DIRECTED, Id::max_usize(), L::max_usize(), false);
        let with = m.edges.values().any(|l| l.is_some()) || ctx.rng.chance(1, 2);
        let a = arrays::<Id, NL, EL, L>(&mut ctx.rng, &m, false, with);
        let p = ctx.path("ev");
        if ctx.rng.chance(1, 2) {
            let o: EdgeVec<Id, L> = EdgeVec::with_labels(vec![0, 1, 2], vec![Id::new(1), Id::new(0)], vec![L::new(0), L::new(1)]);
            o.dump_mmap(&p).map_err(|e| format!("EdgeVec::dump_mmap: {}", e))?;
            let v: EdgeVecMmap<Id, L> = EdgeVecMmap::new(&p);
            ensure_eq!(v.get_labels().len(), 2, "labels of a mapped edge vector");
        }
        let v: EdgeVec<Id, L> = EdgeVec::from_raw(a.offsets.clone(), a.edges.clone(), a.elabels.clone());
        v.dump_mmap(&p).map_err(|e| format!("EdgeVec::dump_mmap: {}", e))?;
        let w: EdgeVecMmap<Id, L> = EdgeVecMmap::new(&p);
        ensure!(w.get_offsets() == v.get_offsets(), "offsets of a mapped edge vector: {:?} of {:?}", w.get_offsets().iter().take(9).collect::<Vec<_>>(), v);
        ensure!(w.get_edges() == v.get_edges(), "edges of a mapped edge vector");
        ensure!(w.get_labels() == v.get_labels(), "labels of a mapped edge vector: {:?} instead of {:?}", w.get_labels(), v.get_labels());
        ensure_eq!(w.num_nodes(), m.nodes.len(), "num_nodes() of a mapped edge vector");
        ensure_eq!(w.num_edges(), v.num_edges(), "num_edges() of a mapped edge vector");
        for &x in m.nodes.keys() {
            let x = Id::new(x);
            ensure!(w.neighbors(x) == v.neighbors(x), "neighbors({:?}) of a mapped edge vector", x);
            ensure_eq!(w.degree(x), v.degree(x), "degree({:?}) of a mapped edge vector", x);
            for &y in m.nodes.keys() {
                let y = Id::new(y);
                ensure_eq!(w.find_edge_index(x, y), v.find_edge_index(x, y), "find_edge_index({:?}, {:?}) of a mapped edge vector", x, y);
                ensure_eq!(w.find_edge_label_id(x, y), v.find_edge_label_id(x, y), "find_edge_label_id({:?}, {:?}) of a mapped edge vector", x, y);
                ensure_eq!(w.has_edge(x, y), v.has_edge(x, y), "has_edge({:?}, {:?}) of a mapped edge vector", x, y);
            }
        }
        ctx.ev("edge vectors mapped");
    }
    if !big && ctx.rng.chance(1, 3) {
        odd::<Id, NL, EL, Ty, L>(ctx)?;
    }
    ctx.clean_scratch();
    if live.values().any(|x| !x.1.edges.is_empty()) {
        ctx.nontrivial(key);
    }
    Ok(())
}

fn run(ctx: &mut Ctx) -> CaseResult {
    ctx.clean_scratch();
    let sel = ctx.case;
    dispatch!(sel, case(ctx))
}

fn main() {
    driver::main(CheckDef {
        id: "C09",
        level: "exploration",
        rule: "each case dumps one to five random static graphs (0..40 nodes, every 211 cases ten of up to 30000 nodes around the 10000-byte write chunk; with or without nodes, edges and labels of each kind) to the same or to neighbouring prefixes of one directory, also over dumps of the other direction, maps every live prefix after every dump and compares all queries with the abstract graph, and label ids and tables with the dumped graph; then dumps and maps a bare edge vector, and in a third of the cases a static graph with id gaps or with counts given by the user, which is compared query by query with the graph dumped. Non-trivial: some graph has an edge; distinct: by the contents dumped.",
        assumptions: &["a prefix is not dumped to while it is mapped", "prefixes do not collide through the suffixes the format adds (_OUT, _IN, _aux)"],
        quick: 24000,
        thorough: 200000,
        run,
        mem_mb: 8192,
    })
}
