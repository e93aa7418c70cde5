//! The observer: compares everything a general graph answers with the abstract graph.
use crate::driver::{guarded, CaseResult, Ctx};
use crate::model::*;
use crate::{ensure, ensure_eq};
use rust_graph::generic::{EdgeTrait, EdgeType, MapTrait, NodeMapTrait, NodeTrait, NodeType};
use std::collections::{BTreeMap, BTreeSet};

pub const MEMBER: u32 = 1; // membership tests, lookups and enumerations
pub const COUNT: u32 = 2; // counts equal what enumeration yields
pub const ADJ: u32 = 4; // neighbour lists, degrees, duality, symmetry
pub const LABEL: u32 = 8; // labels, label tables, histograms
pub const ABSENT: u32 = 16; // negative answers, refused requests
pub const MAXID: u32 = 32;
pub const ALL: u32 = 63;

/// Ids to probe besides the ones in the graph.
pub fn probes<Id: HId, NL: HLabel, EL: HLabel>(ctx: &mut Ctx, m: &Model<NL, EL>) -> Vec<usize> {
    let max = Id::max_usize();
    let mut p: BTreeSet<usize> = BTreeSet::new();
    for x in [0usize, 1, 2, max, max - 1, max / 2] {
        p.insert(x);
    }
    for &n in m.nodes.keys().take(40).chain(m.nodes.keys().rev().take(5)) {
        p.insert(n.saturating_sub(1));
        p.insert(n.saturating_add(1).min(max));
    }
    for _ in 0..4 {
        p.insert((ctx.rng.next() as usize) & max);
    }
    p.into_iter().filter(|x| !m.nodes.contains_key(x)).collect()
}

fn to_vec<T>(it: impl Iterator<Item = T>, expect: usize) -> Vec<T> {
    it.take(expect * 2 + 16).collect()
}

pub fn check_graph<Id: HId, NL: HLabel, EL: HLabel, L: HId>(
    ctx: &mut Ctx,
    g: &DynGraph<'_, Id, NL, EL, L>,
    m: &Model<NL, EL>,
    aspects: u32,
    max_seen: Option<usize>,
    what: &str,
) -> CaseResult {
    check_inner(ctx, g, m, aspects, max_seen)
        .map_err(|e| format!("[{}] {}\n  expected content: {}", what, e, m.brief()))
}

fn check_inner<Id: HId, NL: HLabel, EL: HLabel, L: HId>(
    ctx: &mut Ctx,
    g: &DynGraph<'_, Id, NL, EL, L>,
    m: &Model<NL, EL>,
    aspects: u32,
    max_seen: Option<usize>,
) -> CaseResult {
    let n = m.nodes.len();
    let e = m.edges.len();
    ctx.ev("graphs observed");
    ctx.evn("nodes observed", n);
    ctx.evn("edges observed", e);
    ensure_eq!(g.is_directed(), m.directed, "is_directed");
    ensure_eq!(g.as_digraph().is_some(), m.directed, "as_digraph().is_some()");
    let norm = |s: usize, t: usize| m.key(s, t);
    // the casts hand out the same graph
    let g = match ctx.case % 4 {
        0 => g.as_general_graph(),
        _ => g,
    };
    ensure_eq!(
        (g.as_graph().node_count(), g.as_graph().edge_count(), g.as_graph().is_directed(), g.as_graph().max_seen_id()),
        (g.node_count(), g.edge_count(), g.is_directed(), g.max_seen_id()),
        "as_graph() against the graph itself"
    );
    ensure_eq!(
        (g.as_labeled_graph().num_of_node_labels(), g.as_labeled_graph().num_of_edge_labels()),
        (g.num_of_node_labels(), g.num_of_edge_labels()),
        "as_labeled_graph() against the graph itself"
    );
    if let Some(d) = g.as_digraph() {
        ensure_eq!((d.node_count(), d.edge_count()), (g.node_count(), g.edge_count()), "as_digraph() against the graph itself");
    }

    // ---- enumerations
    let ni: Vec<usize> = to_vec(g.node_indices(), n).iter().map(|i| i.id()).collect();
    let ei: Vec<(usize, usize)> =
        to_vec(g.edge_indices(), e).iter().map(|x| norm(x.0.id(), x.1.id())).collect();
    let nset: BTreeSet<usize> = ni.iter().cloned().collect();
    let eset: BTreeSet<(usize, usize)> = ei.iter().cloned().collect();
    if aspects & (MEMBER | COUNT) != 0 {
        ensure!(nset.len() == ni.len(), "node_indices yields a node twice: {:?}", ni);
    }
    if aspects & (MEMBER | ADJ | COUNT) != 0 {
        ensure!(eset.len() == ei.len(), "edge_indices yields an edge twice: {:?}", ei);
    }
    if aspects & COUNT != 0 {
        ensure_eq!(g.node_count(), nset.len(), "node_count() against the enumerated nodes");
        ensure_eq!(g.edge_count(), eset.len(), "edge_count() against the enumerated edges");
        ensure_eq!(g.node_indices().count(), ni.len(), "node_indices().count()");
        ensure_eq!(g.edge_indices().count(), ei.len(), "edge_indices().count()");
        ensure_eq!(to_vec(g.nodes(), n).len(), ni.len(), "number of nodes() items");
        ensure_eq!(to_vec(g.edges(), e).len(), ei.len(), "number of edges() items");
        ensure_eq!(g.nodes().count(), ni.len(), "nodes().count()");
        ensure_eq!(g.edges().count(), ei.len(), "edges().count()");
        for (lo, hi, len, w) in [
            { let h = g.node_indices().size_hint(); (h.0, h.1, ni.len(), "node_indices") },
            { let h = g.edge_indices().size_hint(); (h.0, h.1, ei.len(), "edge_indices") },
            { let h = g.nodes().size_hint(); (h.0, h.1, ni.len(), "nodes") },
            { let h = g.edges().size_hint(); (h.0, h.1, ei.len(), "edges") },
        ] {
            ensure!(lo <= len && hi.map_or(true, |h| h >= len), "{}().size_hint() = ({}, {:?}) but {} items", w, lo, hi, len);
        }
        // the degrees' sum is another count of the same edges
        let loops = eset.iter().filter(|x| x.0 == x.1).count();
        let degs: usize = ni.iter().map(|i| g.degree(Id::new(*i))).sum();
        let want = if m.directed { eset.len() } else { 2 * eset.len() - loops };
        ensure_eq!(degs, want, "sum of degrees");
    }
    if aspects & MEMBER != 0 {
        let want: BTreeSet<usize> = m.nodes.keys().cloned().collect();
        ensure_eq!(nset, want, "node_indices()");
        let wante: BTreeSet<(usize, usize)> = m.edges.keys().cloned().collect();
        ensure_eq!(eset, wante, "edge_indices()");
    }
    if aspects & (MEMBER | LABEL) != 0 {
        let nmap = g.get_node_label_map();
        let emap = g.get_edge_label_map();
        let mut seen = BTreeMap::new();
        for nd in to_vec(g.nodes(), n) {
            ensure!(nd.is_some() && !nd.is_none(), "nodes() yields None");
            let id = nd.get_id().id();
            let lab = match nd.get_label_id() {
                Some(l) => match nmap.get_item(l.id()) {
                    Some(x) => Some(x.clone()),
                    None => return Err(format!("nodes(): node {} carries label id {:?} without an entry in the label table", id, l)),
                },
                None => None,
            };
            ensure!(seen.insert(id, lab).is_none(), "nodes() yields node {} twice", id);
        }
        if aspects & LABEL != 0 {
            ensure_eq!(seen, m.nodes, "nodes() with labels");
        } else {
            ensure!(seen.keys().eq(m.nodes.keys()), "nodes() yields {:?}", seen.keys());
        }
        let mut seen = BTreeMap::new();
        for ed in to_vec(g.edges(), e) {
            ensure!(ed.is_some() && !ed.is_none(), "edges() yields None");
            let k = norm(ed.get_start().id(), ed.get_target().id());
            let lab = match ed.get_label_id() {
                Some(l) => match emap.get_item(l.id()) {
                    Some(x) => Some(x.clone()),
                    None => return Err(format!("edges(): edge {:?} carries label id {:?} without an entry in the label table", k, l)),
                },
                None => None,
            };
            ensure!(seen.insert(k, lab).is_none(), "edges() yields edge {:?} twice", k);
        }
        if aspects & LABEL != 0 {
            ensure_eq!(seen, m.edges, "edges() with labels");
        } else {
            ensure!(seen.keys().eq(m.edges.keys()), "edges() yields {:?}", seen.keys());
        }
    }

    // ---- per node
    for (&id, lab) in m.nodes.iter() {
        let i = Id::new(id);
        if aspects & MEMBER != 0 {
            ensure!(g.has_node(i), "has_node({}) is false", id);
            let nd = g.get_node(i);
            ensure!(nd.is_some(), "get_node({}) is None", id);
            ensure_eq!(nd.get_id().id(), id, "get_node({}).get_id()", id);
            let un = match nd {
                NodeType::NodeMap(_) => {
                    let x = nd.unwrap_nodemap();
                    ensure!(x.is_some() && !x.is_none(), "get_node({}) unwrapped is None", id);
                    (x.get_id(), x.get_label_id())
                }
                _ => {
                    let x = nd.unwrap_staticnode();
                    ensure!(x.is_some() && !x.is_none(), "get_node({}) unwrapped is None", id);
                    (x.get_id(), x.get_label_id())
                }
            };
            ensure_eq!(un, (i, g.get_node(i).get_label_id()), "get_node({}) unwrapped", id);
        }
        if aspects & LABEL != 0 {
            ensure_eq!(g.get_node_label(i), lab.as_ref(), "get_node_label({})", id);
            let byid = g.get_node(i).get_label_id().map(|l| g.get_node_label_map().get_item(l.id()));
            ensure_eq!(byid, lab.as_ref().map(Some), "label of get_node({}) through the label table", id);
        }
    }
    if aspects & ADJ != 0 {
        let out = m.out_adj();
        let inn = m.in_adj();
        for (&id, adj) in out.iter() {
            let i = Id::new(id);
            let want: Vec<usize> = adj.iter().cloned().collect();
            let got: Vec<usize> = g.neighbors(i).iter().map(|x| x.id()).collect();
            ensure_eq!(got, want, "neighbors({})", id);
            let got: Vec<usize> = to_vec(g.neighbors_iter(i), want.len()).iter().map(|x| x.id()).collect();
            ensure_eq!(got, want, "neighbors_iter({})", id);
            ensure_eq!(g.degree(i), want.len(), "degree({})", id);
            if want.len() < 64 {
                ensure_eq!(g.neighbors_iter(i).count(), want.len(), "neighbors_iter({}).count()", id);
            }
            let win: Vec<usize> = inn[&id].iter().cloned().collect();
            if let Some(d) = g.as_digraph() {
                let got: Vec<usize> = d.in_neighbors(i).iter().map(|x| x.id()).collect();
                ensure_eq!(got, win, "in_neighbors({})", id);
                let got: Vec<usize> = to_vec(d.in_neighbors_iter(i), win.len()).iter().map(|x| x.id()).collect();
                ensure_eq!(got, win, "in_neighbors_iter({})", id);
                ensure_eq!(d.in_degree(i), win.len(), "in_degree({})", id);
            }
            if let NodeType::NodeMap(nm) = g.get_node(i) {
                ensure_eq!(nm.degree(), want.len(), "node {} view: degree", id);
                let got: Vec<usize> = nm.neighbors().iter().map(|x| x.id()).collect();
                ensure_eq!(got, want, "node {} view: neighbors", id);
                let got: Vec<usize> = to_vec(nm.neighbors_iter(), want.len()).iter().map(|x| x.id()).collect();
                ensure_eq!(got, want, "node {} view: neighbors_iter", id);
                let ge: Vec<usize> = want.iter().cloned().filter(|x| *x >= id).collect();
                let got: Vec<usize> = to_vec(nm.non_less_neighbors_iter(), ge.len()).iter().map(|x| x.id()).collect();
                ensure_eq!(got, ge, "node {} view: non_less_neighbors_iter", id);
                let full: Vec<(usize, usize)> = to_vec(nm.neighbors_iter_full(), want.len()).iter().map(|x| (x.get_start().id(), x.get_target().id())).collect();
                let wf: Vec<(usize, usize)> = want.iter().map(|x| (id, *x)).collect();
                ensure_eq!(full, wf, "node {} view: neighbors_iter_full", id);
                let full: Vec<(usize, usize)> = to_vec(nm.non_less_neighbors_iter_full(), ge.len()).iter().map(|x| (x.get_start().id(), x.get_target().id())).collect();
                let wf: Vec<(usize, usize)> = ge.iter().map(|x| (id, *x)).collect();
                ensure_eq!(full, wf, "node {} view: non_less_neighbors_iter_full", id);
                if m.directed {
                    ensure_eq!(nm.in_degree(), win.len(), "node {} view: in_degree", id);
                    let got: Vec<usize> = nm.in_neighbors().iter().map(|x| x.id()).collect();
                    ensure_eq!(got, win, "node {} view: in_neighbors", id);
                    let got: Vec<usize> = to_vec(nm.in_neighbors_iter(), win.len()).iter().map(|x| x.id()).collect();
                    ensure_eq!(got, win, "node {} view: in_neighbors_iter", id);
                    for p in win.iter().take(8) {
                        ensure!(nm.has_in_neighbor(Id::new(*p)), "node {} view: has_in_neighbor({})", id, p);
                    }
                }
                for p in want.iter().take(8) {
                    ensure!(nm.has_neighbor(Id::new(*p)), "node {} view: has_neighbor({})", id, p);
                }
            }
            ctx.ev("adjacency lists compared");
        }
    }

    // ---- per pair
    let absent = probes::<Id, NL, EL>(ctx, m);
    let mut pairs: BTreeSet<(usize, usize)> = BTreeSet::new();
    let ids: Vec<usize> = m.nodes.keys().cloned().collect();
    if ids.len() <= 14 {
        for &a in &ids {
            for &b in &ids {
                pairs.insert((a, b));
            }
        }
    } else {
        for _ in 0..(60 + ids.len()) {
            pairs.insert((*ctx.rng.pick(&ids), *ctx.rng.pick(&ids)));
        }
        for &a in &ids {
            pairs.insert((a, a));
        }
        for &(a, b) in m.edges.keys() {
            pairs.insert((a, b));
            pairs.insert((b, a));
        }
    }
    for &(a, b) in pairs.iter() {
        let (x, y) = (Id::new(a), Id::new(b));
        let want = m.edge(a, b);
        if want.is_none() && aspects & (MEMBER | ADJ | ABSENT) != 0 {
            ensure!(!g.has_edge(x, y), "has_edge({}, {}) is true", a, b);
            ensure!(g.get_edge(x, y).is_none() && !g.get_edge(x, y).is_some(), "get_edge({}, {}) is Some", a, b);
            ensure!(g.get_edge(x, y) == EdgeType::None, "get_edge({}, {}) != EdgeType::None", a, b);
        }
        if want.is_none() && aspects & (LABEL | ABSENT) != 0 {
            ensure_eq!(g.get_edge_label(x, y), None, "get_edge_label({}, {})", a, b);
        }
        if let Some(lab) = want {
            if aspects & (MEMBER | ADJ) != 0 {
                ensure!(g.has_edge(x, y), "has_edge({}, {}) is false", a, b);
                let ed = g.get_edge(x, y);
                ensure!(ed.is_some(), "get_edge({}, {}) is None", a, b);
                ensure_eq!((ed.get_start().id(), ed.get_target().id()), (a, b), "end points of get_edge({}, {})", a, b);
                let lid = ed.get_label_id();
                let un = ed.unwrap();
                ensure!(un.is_some() && !un.is_none(), "get_edge({}, {}).unwrap() is None", a, b);
                ensure_eq!(un.get_label_id(), lid, "label id of get_edge({}, {}).unwrap()", a, b);
                ensure_eq!((un.get_start().id(), un.get_target().id()), (a, b), "end points of get_edge({}, {}).unwrap()", a, b);
            }
            if aspects & (LABEL | ADJ) != 0 {
                ensure_eq!(g.get_edge_label(x, y), lab.as_ref(), "get_edge_label({}, {})", a, b);
                let byid = g.get_edge(x, y).get_label_id().map(|l| g.get_edge_label_map().get_item(l.id()));
                ensure_eq!(byid, lab.as_ref().map(Some), "label of get_edge({}, {}) through the label table", a, b);
            }
            if aspects & LABEL != 0 {
                if let NodeType::NodeMap(nm) = g.get_node(x) {
                    let byid = nm.get_neighbor(y).map(|o| o.map(|l| g.get_edge_label_map().get_item(l.id())));
                    ensure_eq!(byid, Some(lab.as_ref().map(Some)), "node {} view: label of neighbour {}", a, b);
                }
            }
        }
        ctx.ev("pairs compared");
    }
    if aspects & LABEL != 0 {
        for nd in g.nodes().take(n + 16) {
            if let NodeType::NodeMap(nm) = nd {
                for ed in nm.neighbors_iter_full() {
                    let l = ed.get_label_id().map(|l| g.get_edge_label_map().get_item(l.id()));
                    let w = m.edge(ed.get_start().id(), ed.get_target().id());
                    ensure_eq!(l, w.and_then(|w| w.as_ref().map(Some)), "node view: label of edge {:?}", ed);
                }
                for ed in nm.non_less_neighbors_iter_full() {
                    let l = ed.get_label_id().map(|l| g.get_edge_label_map().get_item(l.id()));
                    let w = m.edge(ed.get_start().id(), ed.get_target().id());
                    ensure_eq!(l, w.and_then(|w| w.as_ref().map(Some)), "node view: label of edge {:?}", ed);
                }
            }
        }
        // histograms
        let want = m.node_label_counts();
        let got: BTreeMap<NL, usize> = g.get_node_label_counter().most_common().into_iter().filter(|x| x.1 > 0).map(|(l, c)| (l.clone(), c)).collect();
        ensure_eq!(got, want, "get_node_label_counter()");
        let want_e = m.edge_label_counts();
        let got: BTreeMap<EL, usize> = g.get_edge_label_counter().most_common().into_iter().filter(|x| x.1 > 0).map(|(l, c)| (l.clone(), c)).collect();
        ensure_eq!(got, want_e, "get_edge_label_counter()");
        let mut got: BTreeMap<Option<&NL>, usize> = BTreeMap::new();
        for (l, c) in g.get_node_label_id_counter().most_common() {
            if c > 0 {
                *got.entry(g.get_node_label_map().get_item(l.id())).or_insert(0) += c;
            }
        }
        let w: BTreeMap<Option<&NL>, usize> = want.iter().map(|(l, c)| (Some(l), *c)).collect();
        ensure_eq!(got, w, "get_node_label_id_counter()");
        let mut got: BTreeMap<Option<&EL>, usize> = BTreeMap::new();
        for (l, c) in g.get_edge_label_id_counter().most_common() {
            if c > 0 {
                *got.entry(g.get_edge_label_map().get_item(l.id())).or_insert(0) += c;
            }
        }
        let w: BTreeMap<Option<&EL>, usize> = want_e.iter().map(|(l, c)| (Some(l), *c)).collect();
        ensure_eq!(got, w, "get_edge_label_id_counter()");
        // tables
        let t: Vec<&NL> = g.node_labels().take(1 << 20).collect();
        ensure_eq!(g.num_of_node_labels(), t.len(), "num_of_node_labels()");
        ensure_eq!(g.has_node_labels(), !t.is_empty(), "has_node_labels()");
        ensure_eq!(g.get_node_label_map().len(), t.len(), "node label table len()");
        let d: BTreeSet<&NL> = t.iter().cloned().collect();
        ensure!(d.len() == t.len(), "node_labels() has duplicates");
        for l in want.keys() {
            ensure!(d.contains(l), "node label {:?} is carried but not listed by node_labels()", l);
        }
        let t: Vec<&EL> = g.edge_labels().take(1 << 20).collect();
        ensure_eq!(g.num_of_edge_labels(), t.len(), "num_of_edge_labels()");
        ensure_eq!(g.has_edge_labels(), !t.is_empty(), "has_edge_labels()");
        let d: BTreeSet<&EL> = t.iter().cloned().collect();
        ensure!(d.len() == t.len(), "edge_labels() has duplicates");
        for l in want_e.keys() {
            ensure!(d.contains(l), "edge label {:?} is carried but not listed by edge_labels()", l);
        }
    }

    if aspects & ABSENT != 0 {
        for (k, &a) in absent.iter().enumerate() {
            let x = Id::new(a);
            ensure!(!g.has_node(x), "has_node({}) is true", a);
            ensure!(g.get_node(x).is_none(), "get_node({}) is Some", a);
            ensure_eq!(g.get_node(x).get_label_id(), None, "label id of absent node {}", a);
            ensure_eq!(g.get_node_label(x), None, "get_node_label({})", a);
            for &b in ids.iter().take(6).chain(ids.iter().rev().take(3)).chain(absent.iter().take(5)).chain(absent.iter().rev().take(3)) {
                let y = Id::new(b);
                for (p, q) in [(x, y), (y, x)] {
                    ensure!(!g.has_edge(p, q), "has_edge({:?}, {:?}) is true", p, q);
                    ensure!(g.get_edge(p, q).is_none(), "get_edge({:?}, {:?}) is Some", p, q);
                    ensure_eq!(g.get_edge_label(p, q), None, "get_edge_label({:?}, {:?})", p, q);
                    ctx.ev("absent pairs probed");
                }
            }
            if k % 3 == (ctx.case % 3) as usize {
                ensure!(guarded(|| g.degree(x)).is_err(), "degree({}) of an absent node was answered", a);
                ensure!(guarded(|| g.neighbors(x).len()).is_err(), "neighbors({}) of an absent node was answered", a);
                ensure!(guarded(|| g.neighbors_iter(x).count()).is_err(), "neighbors_iter({}) of an absent node was answered", a);
                if let Some(d) = g.as_digraph() {
                    ensure!(guarded(|| d.in_degree(x)).is_err(), "in_degree({}) of an absent node was answered", a);
                    ensure!(guarded(|| d.in_neighbors(x).len()).is_err(), "in_neighbors({}) of an absent node was answered", a);
                    ensure!(guarded(|| d.in_neighbors_iter(x).count()).is_err(), "in_neighbors_iter({}) of an absent node was answered", a);
                }
                ctx.ev("refused requests observed");
            }
        }
    }
    if aspects & MAXID != 0 {
        ensure_eq!(g.max_seen_id().map(|x| x.id()), max_seen, "max_seen_id()");
        ensure_eq!(g.max_possible_id().id(), Id::max_usize(), "max_possible_id()");
        ensure_eq!(g.max_possible_label_id().id(), L::max_usize(), "max_possible_label_id()");
    }
    Ok(())
}
