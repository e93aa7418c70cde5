//! The same abstract graph in every implementation the library offers.
use crate::driver::Ctx;
use crate::model::*;
use crate::rng::Rng;
use rust_graph::graph_impl::{EdgeVec, StaticGraphMmap, TypedStaticGraph};
use rust_graph::map::SetMap;
use std::collections::BTreeMap;

/// Adjacency arrays written down from an abstract graph, independently of the library.
#[derive(Clone, Debug)]
pub struct Arrays<Id: HId, NL: HLabel, EL: HLabel, L: HId> {
    pub offsets: Vec<usize>,
    pub edges: Vec<Id>,
    pub elabels: Option<Vec<L>>,
    pub in_offsets: Vec<usize>,
    pub in_edges: Vec<Id>,
    pub nlabels: Option<Vec<L>>,
    pub ntab: Vec<NL>,
    pub etab: Vec<EL>,
    pub num_edges: usize,
}

fn table<X: HLabel>(rng: &mut Rng, used: Vec<X>, cap: usize) -> Vec<X> {
    let mut t = used;
    for _ in 0..rng.below(3) {
        let x = X::make(rng.below(12).min(X::MAX - 1));
        if !t.contains(&x) && t.len() < cap {
            t.push(x);
        }
    }
    if rng.chance(1, 40) {
        let k = cap.saturating_sub(t.len() + 16).min(300);
        for x in fillers(k) {
            if !t.contains(&x) {
                t.push(x);
            }
        }
    }
    rng.shuffle(&mut t);
    t
}

/// `m` must have the node ids 0..n-1.
pub fn arrays<Id: HId, NL: HLabel, EL: HLabel, L: HId>(
    rng: &mut Rng,
    m: &Model<NL, EL>,
    with_nl: bool,
    with_el: bool,
) -> Arrays<Id, NL, EL, L> {
    assert!(m.dense());
    let out = m.out_adj();
    let inn = m.in_adj();
    let cap = L::max_usize();
    let ntab = table(rng, m.node_label_counts().into_keys().collect(), cap);
    let etab = table(rng, m.edge_label_counts().into_keys().collect(), cap);
    let npos: BTreeMap<&NL, usize> = ntab.iter().enumerate().map(|(i, l)| (l, i)).collect();
    let epos: BTreeMap<&EL, usize> = etab.iter().enumerate().map(|(i, l)| (l, i)).collect();
    let mut offsets = vec![0];
    let mut edges = Vec::new();
    let mut elabels = Vec::new();
    for (n, adj) in &out {
        for t in adj {
            edges.push(Id::new(*t));
            elabels.push(match m.edge(*n, *t).unwrap() {
                Some(l) => L::new(epos[l]),
                None => L::max_value(),
            });
        }
        offsets.push(edges.len());
    }
    let mut in_offsets = vec![0];
    let mut in_edges = Vec::new();
    for adj in inn.values() {
        in_edges.extend(adj.iter().map(|t| Id::new(*t)));
        in_offsets.push(in_edges.len());
    }
    let nl: Vec<L> = m
        .nodes
        .values()
        .map(|l| match l {
            Some(l) => L::new(npos[l]),
            None => L::max_value(),
        })
        .collect();
    Arrays {
        offsets,
        edges,
        elabels: if with_el { Some(elabels) } else { None },
        in_offsets,
        in_edges,
        nlabels: if with_nl { Some(nl) } else { None },
        ntab: if with_nl { ntab } else { Vec::new() },
        etab: if with_el { etab } else { Vec::new() },
        num_edges: m.edges.len(),
    }
}

/// A static graph from arrays through one of the public constructors.
pub fn from_arrays<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(
    rng: &mut Rng,
    a: &Arrays<Id, NL, EL, L>,
) -> TypedStaticGraph<Id, NL, EL, Ty, L> {
    let ev = match (&a.elabels, rng.below(2)) {
        (Some(l), 0) => EdgeVec::with_labels(a.offsets.clone(), a.edges.clone(), l.clone()),
        (None, 0) => EdgeVec::new(a.offsets.clone(), a.edges.clone()),
        (l, _) => EdgeVec::from_raw(a.offsets.clone(), a.edges.clone(), l.clone()),
    };
    let iev = if Ty::DIRECTED {
        Some(EdgeVec::new(a.in_offsets.clone(), a.in_edges.clone()))
    } else {
        None
    };
    let n = a.offsets.len() - 1;
    let nn = if rng.chance(1, 2) { Some(n) } else { None };
    let ne = if rng.chance(1, 2) { Some(a.num_edges) } else { None };
    let nt: SetMap<NL> = a.ntab.iter().cloned().collect();
    let et: SetMap<EL> = a.etab.iter().cloned().collect();
    match (&a.nlabels, rng.below(2)) {
        (Some(l), 0) => TypedStaticGraph::with_labels(ev, iev, l.clone(), nt, et, nn, ne),
        (None, 0) => {
            let mut g = TypedStaticGraph::new(ev, iev, nn, ne);
            *g.get_edge_label_map_mut() = et;
            g
        }
        (l, _) => TypedStaticGraph::from_raw(n, a.num_edges, ev, iev, l.clone(), nt, et),
    }
}

/// The model with its ids renamed to 0..n-1, in ascending order.
pub fn densify<NL: HLabel, EL: HLabel>(m: &Model<NL, EL>) -> Model<NL, EL> {
    let pos: BTreeMap<usize, usize> = m.nodes.keys().enumerate().map(|(i, k)| (*k, i)).collect();
    let mut d = Model::new(m.directed);
    for (n, l) in &m.nodes {
        d.add_node(pos[n], l.clone());
    }
    for (&(a, b), l) in &m.edges {
        d.add_edge(pos[&a], pos[&b], l.clone());
    }
    d
}

pub fn strip<NL: HLabel, EL: HLabel>(m: &Model<NL, EL>, nl: bool, el: bool) -> Model<NL, EL> {
    let mut d = m.clone();
    if nl {
        d.nodes.values_mut().for_each(|l| *l = None);
    }
    if el {
        d.edges.values_mut().for_each(|l| *l = None);
    }
    d
}

/// One static graph with the content of the dense model `m`, built in one of two ways.
pub fn static_of<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(
    rng: &mut Rng,
    m: &Model<NL, EL>,
) -> TypedStaticGraph<Id, NL, EL, Ty, L> {
    if rng.chance(1, 2) {
        m.to_graphmap::<Id, Ty, L>(rng).into_static()
    } else {
        let nl = m.nodes.values().any(|l| l.is_some()) || rng.chance(1, 2);
        let el = m.edges.values().any(|l| l.is_some()) || rng.chance(1, 2);
        let a = arrays::<Id, NL, EL, L>(rng, m, nl, el);
        from_arrays::<Id, NL, EL, Ty, L>(rng, &a)
    }
}

pub fn mmap_of<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(
    ctx: &mut Ctx,
    m: &Model<NL, EL>,
) -> StaticGraphMmap<Id, NL, EL, L> {
    let g = static_of::<Id, NL, EL, Ty, L>(&mut ctx.rng, m);
    let p = ctx.path("map");
    g.dump_mmap(&p).expect("dump_mmap failed");
    let r = StaticGraphMmap::new(&p);
    ctx.clean_scratch();
    r
}

/// All implementations holding the dense model `m`.
pub fn impls<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(
    ctx: &mut Ctx,
    m: &Model<NL, EL>,
) -> Vec<(&'static str, Box<DynGraph<'static, Id, NL, EL, L>>)> {
    let gm = m.to_graphmap::<Id, Ty, L>(&mut ctx.rng);
    let st = m.to_graphmap::<Id, Ty, L>(&mut ctx.rng).into_static();
    let nl = m.nodes.values().any(|l| l.is_some());
    let el = m.edges.values().any(|l| l.is_some());
    let a = arrays::<Id, NL, EL, L>(&mut ctx.rng, m, nl, el);
    let ar = from_arrays::<Id, NL, EL, Ty, L>(&mut ctx.rng, &a);
    let mm = mmap_of::<Id, NL, EL, Ty, L>(ctx, m);
    vec![
        ("GraphMap", Ty::gm_box(gm)),
        ("StaticGraph from GraphMap", Ty::st_box(st)),
        ("StaticGraph from arrays", Ty::st_box(ar)),
        ("StaticGraphMmap", Box::new(mm)),
    ]
}

/// A large graph: a hub with many neighbours, a long path, some extra edges.
/// Two hubs (one of them perhaps joined to every node), paths, random edges; perhaps about as many labels as nodes.
pub fn big_model<NL: HLabel, EL: HLabel>(rng: &mut Rng, directed: bool, n: usize, u: &crate::history::Universe) -> Model<NL, EL> {
    let mut u = u.clone();
    if rng.chance(1, 4) {
        u.nlabels = u.caps.0.min(n);
        u.elabels = u.caps.1.min(n);
        u.plabel = (7, 8);
    }
    let mut m = Model::new(directed);
    for i in 0..n {
        let l = u.nl(rng);
        m.add_node(i, l);
    }
    let (hub, second) = (rng.below(n), rng.below(n));
    let full = rng.chance(1, 3);
    let out = rng.chance(1, 2);
    let share = rng.below(4);
    for i in 0..n {
        let l = u.el(rng);
        match rng.below(4) {
            0 | 1 => m.add_edge(hub, i, l),
            2 if i + 1 < n => m.add_edge(i, i + 1, l),
            _ => {
                let a = rng.below(n);
                m.add_edge(i, a, l)
            }
        };
        if full {
            let l = u.el(rng);
            if out { m.add_edge(hub, i, l) } else { m.add_edge(i, hub, l) };
        }
        if rng.chance(share, 4) {
            let l = u.el(rng);
            if rng.chance(1, 2) { m.add_edge(second, i, l) } else { m.add_edge(i, second, l) };
        }
    }
    m
}
