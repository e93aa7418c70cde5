//! C06: converting to a static graph preserves the whole graph.
use harness::history::*;
use harness::impls::big_model;
use harness::observe::*;
use harness::*;
use rust_graph::generic::{DiGraphTrait, EdgeTrait, GraphLabelTrait, GraphTrait, MapTrait, MutGraphTrait, NodeTrait};
use rust_graph::graph_impl::{TypedGraphMap, TypedStaticGraph};
use std::collections::BTreeSet;

fn tables<X: HLabel>(a: &[X], g: &rust_graph::map::SetMap<X>, what: &str) -> CaseResult {
    let b: Vec<X> = g.items().cloned().collect();
    ensure!(a == &b[..], "{} label table changed from {:?} to {:?}", what, a, b);
    Ok(())
}

/// Label ids survive too: they index the preserved tables.
fn ids<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(
    g: &TypedGraphMap<Id, NL, EL, Ty, L>,
) -> (Vec<(Id, Option<L>)>, Vec<(Id, Id, Option<L>)>) {
    let mut a: Vec<_> = g.nodes().map(|n| (n.get_id(), n.get_label_id())).collect();
    a.sort();
    let mut b: Vec<_> = g.edges().map(|e| (e.get_start(), e.get_target(), e.get_label_id())).collect();
    b.sort();
    (a, b)
}

fn case<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    let gapped = ctx.rng.chance(1, 3);
    let lim = Id::max_usize().min(*ctx.rng.pick(&[255usize, 3000, 70_000]));
    let u = universe::<NL, EL>(&mut ctx.rng, lim, L::max_usize(), !gapped);
    let steps = *ctx.rng.pick(&[0usize, 3, 10, 25, 60, 120]);
    ctx.describe(format!("{}/{}/{}/{} {}, ids {:?}; ", Id::NAME, NL::NAME, EL::NAME, L::NAME, if gapped { "gapped" } else { "dense" }, u.ids));
    let (mut g, mut m): (TypedGraphMap<Id, NL, EL, Ty, L>, Model<NL, EL>);
    if ctx.case % 1013 < 10 && ctx.case >= 1013 {
        let n = (*ctx.rng.pick(&[256usize, 5000, 65_536, 66_000])).min(Id::max_usize().saturating_add(1));
        m = big_model(&mut ctx.rng, Ty::DIRECTED, n, &u);
        g = m.to_graphmap(&mut ctx.rng);
        ctx.ev("large graphs converted");
    } else {
        let r = random_graph(ctx, &u, steps)?;
        g = r.0;
        m = r.1;
        if !gapped {
            // fill the gaps the history left
            let top = m.nodes.keys().last().cloned();
            if let Some(t) = top {
                for i in 0..t {
                    if !m.nodes.contains_key(&i) {
                        let l: Option<NL> = u.nl(&mut ctx.rng);
                        g.add_node(Id::new(i), l.clone());
                        m.add_node(i, l);
                    }
                }
            }
        }
    }
    let nt: Vec<NL> = g.get_node_label_map().items().cloned().collect();
    let et: Vec<EL> = g.get_edge_label_map().items().cloned().collect();
    let lids = ids(&g);
    let before = (g.node_count(), g.edge_count());
    let s: TypedStaticGraph<Id, NL, EL, Ty, L> = g.into_static();
    let d = Ty::st(&s);
    tables(&nt, d.get_node_label_map(), "node")?;
    tables(&et, d.get_edge_label_map(), "edge")?;
    ensure_eq!(d.edge_count(), before.1, "edge_count() after conversion");
    if m.dense() {
        ensure_eq!(d.node_count(), before.0, "node_count() after conversion");
        check_graph(ctx, d, &m, ALL, m.nodes.keys().last().cloned(), "static graph")
            .map_err(|e| e.chars().take(3000).collect::<String>())?;
        for (n, l) in &lids.0 {
            ensure_eq!(d.get_node(*n).get_label_id(), *l, "label id of node {:?}", n);
        }
        ctx.ev("dense graphs converted");
        if m.nodes.is_empty() {
            ctx.ev("empty graphs converted");
        }
    } else {
        // ids with gaps: edges, their labels and all adjacency survive
        let out = m.out_adj();
        let inn = m.in_adj();
        let got: BTreeSet<(usize, usize)> = d.edge_indices().take(2 * m.edges.len() + 9).map(|(a, b)| m.key(a.id(), b.id())).collect();
        ensure!(got.iter().eq(m.edges.keys()), "edge_indices() of the converted graph: {:?} instead of {:?}", got, m.edges.keys());
        ensure_eq!(d.edge_indices().count(), m.edges.len(), "number of enumerated edges");
        for (&(a, b), l) in &m.edges {
            for (x, y) in if Ty::DIRECTED { vec![(a, b)] } else { vec![(a, b), (b, a)] } {
                let (x, y) = (Id::new(x), Id::new(y));
                ensure!(d.has_edge(x, y), "has_edge({:?}, {:?}) is false after conversion of {}", x, y, m.brief());
                ensure!(d.get_edge(x, y).is_some(), "get_edge({:?}, {:?}) is None after conversion", x, y);
                ensure_eq!(d.get_edge_label(x, y), l.as_ref(), "get_edge_label({:?}, {:?}) after conversion", x, y);
            }
        }
        for (&n, adj) in &out {
            let i = Id::new(n);
            let want: Vec<Id> = adj.iter().map(|x| Id::new(*x)).collect();
            ensure_eq!(d.neighbors(i).to_vec(), want, "neighbors({}) after conversion", n);
            ensure_eq!(d.neighbors_iter(i).collect::<Vec<_>>(), want, "neighbors_iter({}) after conversion", n);
            ensure_eq!(d.degree(i), want.len(), "degree({}) after conversion", n);
            if let Some(dd) = d.as_digraph() {
                let want: Vec<Id> = inn[&n].iter().map(|x| Id::new(*x)).collect();
                ensure_eq!(dd.in_neighbors(i).to_vec(), want, "in_neighbors({}) after conversion", n);
                ensure_eq!(dd.in_neighbors_iter(i).collect::<Vec<_>>(), want, "in_neighbors_iter({}) after conversion", n);
                ensure_eq!(dd.in_degree(i), want.len(), "in_degree({}) after conversion", n);
            }
            for &o in out.keys().take(30) {
                ensure_eq!(d.has_edge(i, Id::new(o)), m.has_edge(n, o), "has_edge({}, {}) after conversion", n, o);
            }
        }
        for e in d.edges() {
            let k = m.key(e.get_start().id(), e.get_target().id());
            let l = e.get_label_id().map(|l| d.get_edge_label_map().get_item(l.id()));
            ensure_eq!(l, m.edges.get(&k).and_then(|l| l.as_ref().map(Some)), "label of edge {:?} enumerated after conversion", k);
        }
        ctx.ev("gapped graphs converted");
    }
    for (a, b, l) in &lids.1 {
        ensure_eq!(d.get_edge(*a, *b).get_label_id(), *l, "label id of edge ({:?}, {:?})", a, b);
    }
    ctx.describe_add(&format!("{} nodes, {} edges", m.nodes.len(), m.edges.len()));
    ctx.evn("nodes converted", m.nodes.len());
    ctx.evn("edges converted", m.edges.len());
    if !m.edges.is_empty() {
        let k = m.fingerprint();
        ctx.nontrivial(k);
    }
    Ok(())
}

#[allow(unused)]
fn uses<Id: HId, L: HId>(_: &dyn DiGraphTrait<Id, L>) {}

fn run(ctx: &mut Ctx) -> CaseResult {
    let sel = ctx.case;
    dispatch!(sel, case(ctx))
}

fn main() {
    driver::main(CheckDef {
        id: "C06",
        level: "exploration",
        rule: "each case grows a hash-map graph through a random history of 0..120 steps (with removals, self-loops, registered but unused labels, preset label tables), notes its label tables and label ids, converts it into a static graph and compares every query with the abstract graph (ids 0..n-1), or all edges, labels and adjacency (ids with gaps); every 1013 cases ten graphs of up to 65536 nodes. Non-trivial: the graph has an edge; distinct: by content.",
        assumptions: &["ids are below 70000 so that the dense arrays fit in memory", "at most 12 labels, below the label-id type's no-label sentinel"],
        quick: 48000,
        thorough: 600000,
        run,
        mem_mb: 4096,
    })
}
