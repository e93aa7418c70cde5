//! C25: questions about what is not there.
use harness::history::*;
use harness::impls::*;
use harness::observe::*;
use harness::traverse::shaped;
use harness::*;
use rust_graph::algorithm::{ConnComp, ConnSubgraph};
use rust_graph::generic::{Edge, EdgeTrait, GraphLabelTrait, GraphTrait, MapTrait, MutMapTrait, MutGraphLabelTrait, MutGraphTrait, NodeMapTrait, NodeTrait, NodeType};
use rust_graph::graph_impl::static_graph::EdgeVecTrait;
use rust_graph::graph_impl::{EdgeVec, EdgeVecMmap, StaticGraphMmap, TypedGraphMap, TypedStaticGraph};
use rust_graph::map::{SetMap, VecMap};
use std::collections::BTreeSet;

fn cut(e: String) -> String {
    e.chars().take(3000).collect()
}

/// Ids to ask about: present, missing between, beyond, extreme.
fn all_ids<Id: HId, NL: HLabel, EL: HLabel>(ctx: &mut Ctx, m: &Model<NL, EL>) -> Vec<usize> {
    let mut v = probes::<Id, NL, EL>(ctx, m);
    ctx.rng.shuffle(&mut v);
    v.truncate(9);
    let mut p: Vec<usize> = m.nodes.keys().copied().collect();
    ctx.rng.shuffle(&mut p);
    v.extend(p.into_iter().take(6));
    v.push(Id::max_usize());
    v.push(0);
    v.sort_unstable();
    v.dedup();
    v
}

/// Pairs with no edge must be denied in every form, with any ids in either position.
fn denied<Id: HId, NL: HLabel, EL: HLabel, L: HId>(ctx: &mut Ctx, g: &DynGraph<'_, Id, NL, EL, L>, m: &Model<NL, EL>, what: &str) -> CaseResult {
    let ids = all_ids::<Id, NL, EL>(ctx, m);
    for &a in &ids {
        let x = Id::new(a);
        if !m.nodes.contains_key(&a) {
            ensure_eq!(g.get_node_label(x), None, "{}: get_node_label({})", what, a);
            ensure_eq!(g.get_node(x).get_label_id(), None, "{}: label id of node {}", what, a);
        }
        if let NodeType::NodeMap(n) = g.get_node(x) {
            for &b in &ids {
                let y = Id::new(b);
                if !m.has_edge(a, b) {
                    ensure!(!n.has_neighbor(y), "{}: node {} view: has_neighbor({})", what, a, b);
                    ensure_eq!(n.get_neighbor(y), None, "{}: node {} view: get_neighbor({})", what, a, b);
                }
                if m.directed && !m.has_edge(b, a) {
                    ensure!(!n.has_in_neighbor(y), "{}: node {} view: has_in_neighbor({})", what, a, b);
                }
                ctx.ev("absent neighbours asked of node views");
            }
        }
        for &b in &ids {
            if m.has_edge(a, b) {
                continue;
            }
            let y = Id::new(b);
            ensure!(!g.has_edge(x, y), "{}: has_edge({}, {})", what, a, b);
            let e = g.get_edge(x, y);
            ensure!(e.is_none() && !e.is_some(), "{}: get_edge({}, {}) is Some", what, a, b);
            ensure_eq!(e.get_label_id(), None, "{}: label id of edge {}-{}", what, a, b);
            ensure_eq!(g.get_edge_label(x, y), None, "{}: get_edge_label({}, {})", what, a, b);
            ctx.ev("absent edges asked for");
        }
    }
    Ok(())
}

fn mutable<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx, g: &TypedGraphMap<Id, NL, EL, Ty, L>, m: &Model<NL, EL>, u: &Universe) -> CaseResult {
    let mut h = g.clone();
    let (nl, el) = (h.get_node_label_map().len(), h.get_edge_label_map().len());
    let ids = all_ids::<Id, NL, EL>(ctx, m);
    for k in 0..40 {
        let (a, b) = (*ctx.rng.pick(&ids), *ctx.rng.pick(&ids));
        let (x, y) = (Id::new(a), Id::new(b));
        match ctx.rng.below(7) {
            0 if !m.nodes.contains_key(&a) => {
                ctx.step(format!("remove_node({})", a));
                ensure!(h.remove_node(x).is_none(), "remove_node({}) of an absent node gave one", a);
            }
            1 if !m.nodes.contains_key(&a) => {
                ctx.step(format!("get_node_mut({})", a));
                let n = h.get_node_mut(x);
                ensure!(n.is_none() && !n.is_some(), "get_node_mut({}) of an absent node gave one", a);
            }
            2 if !m.nodes.contains_key(&a) => {
                let l = if ctx.rng.chance(1, 2) { Some(NL::make(ctx.rng.below(NL::MAX.min(40)))) } else { None };
                ctx.step(format!("update_node_label({}, {:?})", a, l));
                ensure!(!h.update_node_label(x, l), "update_node_label({}) of an absent node says it did", a);
            }
            3 if !m.has_edge(a, b) => {
                ctx.step(format!("remove_edge({}, {})", a, b));
                ensure!(h.remove_edge(x, y).is_none(), "remove_edge({}, {}) of an absent edge gave one", a, b);
            }
            4 if !m.has_edge(a, b) => {
                ctx.step(format!("get_edge_mut({}, {})", a, b));
                let e = h.get_edge_mut(x, y);
                ensure!(e.is_none() && !e.is_some(), "get_edge_mut({}, {}) of an absent edge gave one", a, b);
            }
            5 if !m.has_edge(a, b) => {
                let l = if ctx.rng.chance(1, 2) { Some(EL::make(ctx.rng.below(EL::MAX.min(40)))) } else { None };
                ctx.step(format!("update_edge_label({}, {}, {:?})", a, b, l));
                ensure!(!h.update_edge_label(x, y, l), "update_edge_label({}, {}) of an absent edge says it did", a, b);
            }
            _ => continue,
        }
        ctx.ev("absent items mutated or removed");
        if k % 8 == 0 {
            ensure!(h == *g, "an operation on something absent changed the graph");
        }
    }
    ensure!(h == *g, "operations on something absent changed the graph");
    ensure_eq!((h.get_node_label_map().len(), h.get_edge_label_map().len()), (nl, el), "sizes of the label tables after operations on something absent");
    check_graph(ctx, Ty::gm(&h), m, ALL, m.max_seen, "after operations on something absent").map_err(cut)?;
    let _ = u;
    Ok(())
}

fn detector<Id: HId, NL: HLabel, EL: HLabel, L: HId>(ctx: &mut Ctx, g: &DynGraph<'_, Id, NL, EL, L>, m: &Model<NL, EL>) -> CaseResult {
    let mut cc = match ctx.rng.below(3) {
        0 => ConnComp::new(g),
        1 => {
            let mut c = ConnComp::with_capacity(ctx.rng.below(20));
            c.run_detection(g);
            c
        }
        _ => {
            let mut c = ConnComp::empty();
            c.run_detection(g);
            c
        }
    };
    let mut known: BTreeSet<usize> = m.nodes.keys().copied().collect();
    for round in 0..3 {
        let ids = all_ids::<Id, NL, EL>(ctx, m);
        for &a in &ids {
            if known.contains(&a) {
                continue;
            }
            let x = Id::new(a);
            ensure_eq!(cc.get_parent(x), None, "get_parent({}) of a node never seen", a);
            ensure_eq!(cc.get_root(x), None, "get_root({}) of a node never seen", a);
            ensure_eq!(cc.get_connected_nodes(x), None, "get_connected_nodes({}) of a node never seen", a);
            for &b in &ids {
                let y = Id::new(b);
                ensure!(!cc.is_connected(x, y) && !cc.is_connected(y, x), "is_connected({}, {}) with a node never seen", a, b);
            }
            ctx.ev("absent nodes asked of component detectors");
        }
        match round {
            0 => {
                let (a, b) = (*ctx.rng.pick(&ids), *ctx.rng.pick(&ids));
                let e: Edge<Id, L> = Edge::new(Id::new(a), Id::new(b), None);
                cc.process_new_edge(&e as &dyn EdgeTrait<Id, L>);
                known.insert(a);
                known.insert(b);
            }
            _ => {
                cc.reset();
                known.clear();
                ensure_eq!(cc.get_count(), 0, "components after a reset");
            }
        }
    }
    let cs = ConnSubgraph::new(g);
    for a in all_ids::<Id, NL, EL>(ctx, m) {
        if !m.nodes.contains_key(&a) {
            ensure_eq!(cs.root_to_subgraph(Id::new(a)), None, "root_to_subgraph({}) of an absent node", a);
        }
    }
    Ok(())
}

fn case<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    ctx.clean_scratch();
    let u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize(), L::max_usize(), ctx.case % 3 == 0);
    ctx.describe(format!("{}/{} {} ", Id::NAME, L::NAME, if Ty::DIRECTED { "directed" } else { "undirected" }));
    let (g, m): (TypedGraphMap<Id, NL, EL, Ty, L>, Model<NL, EL>) = if ctx.rng.chance(1, 2) {
        let steps = *ctx.rng.pick(&[0usize, 3, 10, 30, 60]);
        random_graph(ctx, &u, steps)?
    } else {
        let m = shaped(&mut ctx.rng, Ty::DIRECTED, &u.ids, &u);
        (m.to_graphmap(&mut ctx.rng), m)
    };
    ctx.describe_add(&m.brief());
    let asp = ABSENT | MAXID | if m.nodes.is_empty() { ALL } else { 0 };
    check_graph(ctx, Ty::gm(&g), &m, asp, m.max_seen, "GraphMap").map_err(cut)?;
    denied(ctx, Ty::gm(&g), &m, "GraphMap").map_err(cut)?;
    mutable(ctx, &g, &m, &u)?;
    detector(ctx, Ty::gm(&g), &m)?;

    // every implementation, all nodes numbered 0..n-1
    let d = densify(&m);
    let last = d.nodes.len().checked_sub(1);
    for (name, x) in impls::<Id, NL, EL, Ty, L>(ctx, &d) {
        let asp = ABSENT | MAXID | if d.nodes.is_empty() { ALL } else { 0 };
        check_graph(ctx, x.as_ref(), &d, asp, last, name).map_err(cut)?;
        denied(ctx, x.as_ref(), &d, name).map_err(cut)?;
        if ctx.rng.chance(1, 4) {
            detector(ctx, x.as_ref(), &d)?;
        }
    }
    // positions in adjacency arrays
    let st = static_of::<Id, NL, EL, Ty, L>(&mut ctx.rng, &d);
    let p = ctx.path("e");
    st.get_edge_vec().dump_mmap(&p).map_err(|e| format!("dump_mmap: {}", e))?;
    let mapped: EdgeVecMmap<Id, L> = EdgeVecMmap::new(&p);
    let ids = all_ids::<Id, NL, EL>(ctx, &d);
    for &a in &ids {
        let x = Id::new(a);
        for (name, ev) in [("EdgeVec", st.get_edge_vec() as &dyn EdgeVecTrait<Id, L>), ("EdgeVecMmap", &mapped)] {
            if !d.nodes.contains_key(&a) {
                ensure!(!ev.has_node(x), "{}: has_node({})", name, a);
                ensure!(guarded(|| ev.degree(x)).is_err(), "{}: degree({}) was answered", name, a);
                ensure!(guarded(|| ev.neighbors(x).len()).is_err(), "{}: neighbors({}) was answered", name, a);
                ctx.ev("refused requests observed");
            }
            for &b in &ids {
                if d.nodes.contains_key(&a) && d.out_adj()[&a].contains(&b) {
                    continue;
                }
                let y = Id::new(b);
                ensure!(!ev.has_edge(x, y), "{}: has_edge({}, {})", name, a, b);
                ensure_eq!(ev.find_edge_index(x, y), None, "{}: find_edge_index({}, {})", name, a, b);
                ensure_eq!(ev.find_edge_label_id(x, y), None, "{}: find_edge_label_id({}, {})", name, a, b);
                ctx.ev("absent edges asked for");
            }
        }
        for &b in &ids {
            if !d.has_edge(a, b) {
                ensure_eq!(st.find_edge_index(x, Id::new(b)), None, "find_edge_index({}, {})", a, b);
            }
        }
    }
    drop(mapped);
    // a static graph made of gapped ids: no edge and no label where there was none
    if !m.dense() && m.nodes.keys().last().map_or(false, |x| *x < 100_000) {
        let gapped = g.into_static();
        denied(ctx, Ty::st(&gapped), &m, "StaticGraph of gapped ids").map_err(cut)?;
        ctx.ev("gapped static graphs");
    }
    if !m.nodes.is_empty() {
        let k = m.fingerprint();
        ctx.nontrivial(k);
    }
    ctx.clean_scratch();
    Ok(())
}

/// Every way to have a graph without anything.
fn nothing<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    ctx.clean_scratch();
    let m: Model<NL, EL> = Model::new(Ty::DIRECTED);
    ctx.describe(format!("empty graphs, {}/{}", Id::NAME, L::NAME));
    let k = ctx.rng.below(30);
    let maps: Vec<(&str, TypedGraphMap<Id, NL, EL, Ty, L>)> = vec![
        ("new", TypedGraphMap::new()),
        ("default", Default::default()),
        ("with_capacity", TypedGraphMap::with_capacity(k, k / 2, k / 3)),
        ("with_label_map", TypedGraphMap::with_label_map(SetMap::new(), SetMap::new())),
        ("from_edges", TypedGraphMap::from_edges(Vec::<(Id, Id)>::new())),
    ];
    for (name, g) in &maps {
        check_graph(ctx, Ty::gm(g), &m, ALL, None, name).map_err(cut)?;
        denied(ctx, Ty::gm(g), &m, name).map_err(cut)?;
        detector(ctx, Ty::gm(g), &m)?;
    }
    let ev = |k: usize| -> EdgeVec<Id, L> {
        match k {
            0 => EdgeVec::default(),
            1 => EdgeVec::new(vec![0], vec![]),
            2 => EdgeVec::with_labels(vec![0], vec![], vec![]),
            3 => {
                let mut e = EdgeVec::new(vec![0, 1, 2], vec![Id::new(1), Id::new(0)]);
                e.clear();
                e
            }
            _ => EdgeVec::from_raw(vec![0], vec![], Some(vec![])),
        }
    };
    for k in 0..5 {
        let e = ev(k);
        ensure_eq!((e.num_nodes(), e.num_edges()), (0, 0), "counts of an empty EdgeVec ({})", k);
        let i = |b: bool| if b { Some(ev(k)) } else { None };
        let graphs: Vec<TypedStaticGraph<Id, NL, EL, Ty, L>> = vec![
            TypedStaticGraph::new(ev(k), i(Ty::DIRECTED), None, None),
            TypedStaticGraph::new(ev(k), i(Ty::DIRECTED), Some(0), Some(0)),
            TypedStaticGraph::with_labels(ev(k), i(Ty::DIRECTED), vec![], SetMap::new(), SetMap::new(), None, None),
            TypedStaticGraph::from_raw(0, 0, ev(k), i(Ty::DIRECTED), None, SetMap::new(), SetMap::new()),
        ];
        for (j, g) in graphs.iter().enumerate() {
            let what = format!("empty static graph {} {}", k, j);
            check_graph(ctx, Ty::st(g), &m, ALL, None, &what).map_err(cut)?;
            denied(ctx, Ty::st(g), &m, &what).map_err(cut)?;
            detector(ctx, Ty::st(g), &m)?;
            let p = ctx.path(&format!("n{}{}", k, j));
            g.dump_mmap(&p).map_err(|e| format!("{}: dump_mmap: {}", what, e))?;
            if ctx.rng.chance(1, 3) {
                let _ = std::fs::remove_file(format!("{}_aux.bin", p));
            }
            let r: StaticGraphMmap<Id, NL, EL, L> = StaticGraphMmap::new(&p);
            check_graph(ctx, &r, &m, ALL, None, &format!("{} mapped", what)).map_err(cut)?;
            denied(ctx, &r, &m, &what).map_err(cut)?;
            detector(ctx, &r, &m)?;
        }
    }
    for (name, mut t) in [("SetMap::new", SetMap::<NL>::new()), ("SetMap::with_capacity", SetMap::with_capacity(k)), ("SetMap::default", SetMap::default()), ("SetMap of nothing", Vec::new().into())] {
        ensure!(t.is_empty() && t.len() == 0 && t.items().next().is_none(), "{} is not empty", name);
        for i in [0, 1, k, usize::MAX, usize::MAX / 2, L::max_usize()] {
            ensure_eq!(t.get_item(i), None, "{}: get_item({})", name, i);
        }
        ensure!(!t.contains(&NL::make(0)) && t.find_index(&NL::make(0)).is_none() && t.pop_item().is_none(), "{} finds something", name);
        ctx.ev("empty label tables");
    }
    for (name, mut t) in [("VecMap::new", VecMap::<NL>::new()), ("VecMap::with_capacity", VecMap::with_capacity(k)), ("VecMap::default", VecMap::default()), ("VecMap of nothing", Vec::new().into())] {
        ensure!(t.is_empty() && t.len() == 0 && t.items().next().is_none(), "{} is not empty", name);
        for i in [0, 1, k, usize::MAX, usize::MAX / 2, L::max_usize()] {
            ensure_eq!(t.get_item(i), None, "{}: get_item({})", name, i);
        }
        ensure!(!t.contains(&NL::make(0)) && t.find_index(&NL::make(0)).is_none() && t.pop_item().is_none(), "{} finds something", name);
        ctx.ev("empty label tables");
    }
    let c: ConnComp<Id> = ConnComp::empty();
    ensure_eq!(c.get_count(), 0, "components of nothing");
    ctx.ev("rounds of empty graphs");
    ctx.nontrivial(k as u64);
    ctx.clean_scratch();
    Ok(())
}

fn run(ctx: &mut Ctx) -> CaseResult {
    let sel = ctx.case;
    if ctx.case / 10 % 40 == 0 {
        dispatch!(sel, nothing(ctx))
    } else {
        dispatch!(sel, case(ctx))
    }
}

fn main() {
    driver::main(CheckDef {
        id: "C25",
        level: "exploration",
        rule: "each case takes a graph with a history (incl. removed nodes) or a shape, with contiguous, gapped, scattered and top-of-range ids, and asks for absent nodes, absent edges between present, absent and extreme ids in both positions, their labels, views and array positions, on the hash-map graph, static graphs from conversion and arrays, the mapped graph, EdgeVec and EdgeVecMmap, and on a static graph of gapped ids; degrees and neighbours of absent nodes must be refused; absent items are mutated, relabelled and removed on a copy, which must stay equal with the same label tables and maximum; component detectors are asked about nodes they never saw, also after a reset. One case in 40 asks everything of every kind of empty graph, label table and detector. Non-trivial: the graph has a node, or empty-graph round; distinct by content.",
        assumptions: &["a static graph made of gapped ids is judged for edges and labels only"],
        quick: 24000,
        thorough: 300000,
        run,
        mem_mb: 4096,
    })
}
