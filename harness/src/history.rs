//! Random mutation histories, replayed on a real graph and on the abstract graph in lockstep.
use crate::driver::{CaseResult, Ctx};
use crate::model::*;
use crate::observe::check_graph;
use crate::rng::Rng;
use crate::{ensure, ensure_eq};
use rust_graph::generic::{
    EdgeTrait, MapTrait, MutEdgeTrait, MutGraphLabelTrait, MutGraphTrait, MutNodeTrait, NodeTrait,
    GraphLabelTrait, NodeMapTrait, OwnedEdgeType, OwnedNodeType,
};
use rust_graph::graph_impl::TypedGraphMap;
use std::collections::BTreeSet;

/// The ids and labels a case draws from.
#[derive(Clone, Debug)]
pub struct Universe {
    /// how many node and edge labels there could be
    pub caps: (usize, usize),
    pub ids: Vec<usize>,
    pub nlabels: usize,
    pub elabels: usize,
    pub plabel: (usize, usize),
    /// how many labels a preset table lists that nothing carries, so that label ids get wide
    pub fill: usize,
}

/// `limit`: largest usable id; `llimit`: how many labels the label-id type can hold.
pub fn universe<NL: HLabel, EL: HLabel>(rng: &mut Rng, limit: usize, llimit: usize, dense: bool) -> Universe {
    let k = *rng.pick(&[1usize, 2, 2, 3, 3, 4, 5, 6, 8, 8, 12, 12, 20, 40]);
    let mut ids: Vec<usize> = match if dense { 0 } else { rng.below(6) } {
        0 | 1 => (0..k).collect(),
        2 => {
            let step = rng.range(2, 5);
            let off = rng.below(10);
            (0..k).map(|i| off + i * step).collect()
        }
        3 => {
            // hugs the top of the id range
            (0..k).map(|i| limit - i).collect()
        }
        4 => {
            // ids that agree in their low or high parts, so that anything packed or cut down meets
            let unit = *rng.pick(&[10usize, 16, 100, 256, 256, 1000, 1 << 15, 1 << 16, 1 << 16, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 32, 1 << 48]);
            let mut s = BTreeSet::new();
            for _ in 0..(k.max(4) + 2) {
                s.insert(rng.below(4).saturating_mul(unit).saturating_add(rng.below(5)));
            }
            s.into_iter().collect()
        }
        _ => {
            let mut s = BTreeSet::new();
            while s.len() < k {
                s.insert(if rng.chance(1, 4) { rng.below(30) } else { (rng.next() as usize) % limit.saturating_add(1).max(1) });
            }
            s.into_iter().collect()
        }
    };
    ids.retain(|i| *i <= limit);
    if ids.is_empty() {
        ids.push(limit);
    }
    let ln = llimit.min(NL::MAX);
    let le = llimit.min(EL::MAX);
    let wide = rng.chance(1, 30);
    let most = if wide { 400 } else { 12 };
    let (nlabels, elabels) = (rng.range(1, most).min(ln), rng.range(1, most).min(le));
    Universe {
        ids,
        caps: (ln, le),
        nlabels,
        elabels,
        fill: if rng.chance(1, 12) { rng.range(200, 300) } else { 0 }.min(llimit.saturating_sub(nlabels.max(elabels) + 16)),
        plabel: *rng.pick(&[(0, 1), (1, 3), (2, 3), (1, 1)]),
    }
}

impl Universe {
    pub fn id(&self, rng: &mut Rng) -> usize {
        *rng.pick(&self.ids)
    }
    pub fn nl<NL: HLabel>(&self, rng: &mut Rng) -> Option<NL> {
        if self.nlabels > 0 && rng.chance(self.plabel.0, self.plabel.1) {
            Some(NL::make(rng.below(self.nlabels)))
        } else {
            None
        }
    }
    pub fn el<EL: HLabel>(&self, rng: &mut Rng) -> Option<EL> {
        if self.elabels > 0 && rng.chance(self.plabel.0, self.plabel.1) {
            Some(EL::make(rng.below(self.elabels)))
        } else {
            None
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct OpMix {
    pub add: usize,
    pub remove: usize,
    pub relabel: usize,
    pub views: usize,
    pub misc: usize,
}

pub const MIX_ALL: OpMix = OpMix { add: 10, remove: 5, relabel: 3, views: 2, misc: 1 };

/// Which observations a history makes while it runs.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Watch {
    /// compare return values
    pub returns: bool,
    /// compare returned / viewed labels
    pub labels: bool,
}

pub type GM<Id, NL, EL, Ty, L> = TypedGraphMap<Id, NL, EL, Ty, L>;

fn table_label_id<L: HId, X: Clone>(
    rng: &mut Rng,
    map: &impl MapTrait<X>,
) -> Option<(Option<L>, Option<X>)> {
    if map.is_empty() || rng.chance(1, 4) {
        return Some((None, None));
    }
    let k = rng.below(map.len());
    if k > L::max_usize() {
        return None;
    }
    Some((Some(L::new(k)), map.get_item(k).cloned()))
}

/// One random operation on both graphs.
pub fn step<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(
    ctx: &mut Ctx,
    g: &mut GM<Id, NL, EL, Ty, L>,
    m: &mut Model<NL, EL>,
    u: &Universe,
    mix: OpMix,
    w: Watch,
) -> CaseResult {
    let total = mix.add + mix.remove + mix.relabel + mix.views + mix.misc;
    let mut r = ctx.rng.below(total);
    // ids of existing items are preferred for removals and relabellings
    let some_node = |rng: &mut Rng, m: &Model<NL, EL>| -> usize {
        if !m.nodes.is_empty() && rng.chance(3, 4) {
            *m.nodes.keys().nth(rng.below(m.nodes.len())).unwrap()
        } else {
            u.id(rng)
        }
    };
    let some_edge = |rng: &mut Rng, m: &Model<NL, EL>| -> (usize, usize) {
        if !m.edges.is_empty() && rng.chance(3, 4) {
            let &(a, b) = m.edges.keys().nth(rng.below(m.edges.len())).unwrap();
            if rng.chance(1, 2) || m.directed && rng.chance(2, 3) {
                (a, b)
            } else {
                (b, a)
            }
        } else {
            (u.id(rng), u.id(rng))
        }
    };
    if r < mix.add {
        if ctx.rng.chance(1, 3) {
            let id = u.id(&mut ctx.rng);
            let l: Option<NL> = u.nl(&mut ctx.rng);
            ctx.step(format!("add_node({}, {:?})", id, l));
            ctx.ev("add_node");
            let want = m.add_node(id, l.clone());
            let got = g.add_node(Id::new(id), l);
            ensure!(!w.returns || got == want, "add_node({}) returned {}, expected {}", id, got, want);
        } else {
            let s = u.id(&mut ctx.rng);
            let t = if ctx.rng.chance(1, 8) { s } else { u.id(&mut ctx.rng) };
            let l: Option<EL> = u.el(&mut ctx.rng);
            ctx.step(format!("add_edge({}, {}, {:?})", s, t, l));
            ctx.ev(if s == t { "add_edge self-loop" } else { "add_edge" });
            let want = m.add_edge(s, t, l.clone());
            let got = g.add_edge(Id::new(s), Id::new(t), l);
            ensure!(!w.returns || got == want, "add_edge({}, {}) returned {}, expected {}", s, t, got, want);
        }
        return Ok(());
    }
    r -= mix.add;
    if r < mix.remove {
        if ctx.rng.chance(1, 3) {
            let id = some_node(&mut ctx.rng, m);
            ctx.step(format!("remove_node({})", id));
            ctx.ev(if m.has_edge(id, id) { "remove_node with self-loop" } else if m.nodes.contains_key(&id) { "remove_node" } else { "remove_node absent" });
            let inn: BTreeSet<usize> = m.edges.keys().filter(|k| m.directed && k.1 == id).map(|k| k.0).collect();
            let labs: Vec<(usize, Option<EL>)> = m.edges.iter().filter(|(k, _)| k.0 == id || (!m.directed && k.1 == id)).map(|(k, l)| (if k.0 == id { k.1 } else { k.0 }, l.clone())).collect();
            let adj: Vec<usize> = m.edges.keys().filter(|k| k.0 == id || (!m.directed && k.1 == id)).map(|k| if k.0 == id { k.1 } else { k.0 }).collect();
            let want = m.remove_node(id);
            let got = g.remove_node(Id::new(id));
            if w.returns {
                ensure_eq!(got.is_some(), want.is_some(), "remove_node({}).is_some()", id);
                if let Some(lab) = want {
                    ensure_eq!(got.get_id().id(), id, "id of the removed node");
                    if w.labels {
                        let l = got.get_label_id().map(|l| g.get_node_label_map().get_item(l.id()));
                        ensure_eq!(l, lab.as_ref().map(Some), "label of the removed node {}", id);
                    }
                    if let OwnedNodeType::NodeMap(nm) = got {
                        let a: BTreeSet<usize> = nm.neighbors_iter().map(|x| x.id()).collect();
                        let b: BTreeSet<usize> = adj.into_iter().collect();
                        ensure_eq!(a, b, "neighbours of the removed node {}", id);
                        if m.directed {
                            let a: BTreeSet<usize> = nm.in_neighbors_iter().map(|x| x.id()).collect();
                            ensure_eq!(a, inn, "incoming neighbours of the removed node {}", id);
                        }
                        if w.labels {
                            for (t, l) in labs {
                                let got = nm.get_neighbor(Id::new(t)).map(|o| o.map(|l| g.get_edge_label_map().get_item(l.id())));
                                ensure_eq!(got, Some(l.as_ref().map(Some)), "label of the removed node {}'s edge to {}", id, t);
                            }
                        }
                    }
                }
            }
        } else {
            let (s, t) = some_edge(&mut ctx.rng, m);
            ctx.step(format!("remove_edge({}, {})", s, t));
            ctx.ev(if m.has_edge(s, t) { "remove_edge" } else { "remove_edge absent" });
            let want = m.remove_edge(s, t);
            let got = g.remove_edge(Id::new(s), Id::new(t));
            if w.returns {
                ensure_eq!(got.is_some(), want.is_some(), "remove_edge({}, {}).is_some()", s, t);
                if let (Some(lab), OwnedEdgeType::Edge(x)) = (&want, &got) {
                    ensure!(x.is_some() && !x.is_none(), "the edge taken out by remove_edge({}, {}) is None", s, t);
                    ensure_eq!((x.get_start().id(), x.get_target().id()), (s, t), "end points of the removed edge, unwrapped");
                    if w.labels {
                        let l = x.get_label_id().map(|l| g.get_edge_label_map().get_item(l.id()));
                        ensure_eq!(l, lab.as_ref().map(Some), "label of the removed edge ({}, {}), unwrapped", s, t);
                    }
                }
                if let Some(lab) = want {
                    ensure_eq!((got.get_start().id(), got.get_target().id()), (s, t), "end points of the removed edge");
                    if w.labels {
                        let l = got.get_label_id().map(|l| g.get_edge_label_map().get_item(l.id()));
                        ensure_eq!(l, lab.as_ref().map(Some), "label of the removed edge ({}, {})", s, t);
                    }
                }
            }
        }
        return Ok(());
    }
    r -= mix.remove;
    if r < mix.relabel {
        if ctx.rng.chance(1, 2) {
            let id = some_node(&mut ctx.rng, m);
            let l: Option<NL> = u.nl(&mut ctx.rng);
            ctx.step(format!("update_node_label({}, {:?})", id, l));
            ctx.ev("update_node_label");
            let want = m.nodes.contains_key(&id);
            if want {
                m.nodes.insert(id, l.clone());
            }
            let got = g.update_node_label(Id::new(id), l);
            ensure!(!w.returns || got == want, "update_node_label({}) returned {}, expected {}", id, got, want);
        } else {
            let (s, t) = some_edge(&mut ctx.rng, m);
            let l: Option<EL> = u.el(&mut ctx.rng);
            ctx.step(format!("update_edge_label({}, {}, {:?})", s, t, l));
            ctx.ev("update_edge_label");
            let want = m.has_edge(s, t);
            if want {
                let k = m.key(s, t);
                m.edges.insert(k, l.clone());
            }
            let got = g.update_edge_label(Id::new(s), Id::new(t), l);
            ensure!(!w.returns || got == want, "update_edge_label({}, {}) returned {}, expected {}", s, t, got, want);
        }
        return Ok(());
    }
    r -= mix.relabel;
    if r < mix.views {
        match ctx.rng.below(4) {
            0 => {
                let id = some_node(&mut ctx.rng, m);
                let nl = table_label_id::<L, NL>(&mut ctx.rng, g.get_node_label_map());
                ctx.step(format!("get_node_mut({}) set {:?}", id, nl));
                ctx.ev("get_node_mut");
                let known = m.nodes.get(&id).cloned();
                let tbl = g.get_node_label_map().clone();
                let mut v = g.get_node_mut(Id::new(id));
                ensure!(!w.returns || v.is_some() == known.is_some(), "get_node_mut({}).is_some() = {}", id, v.is_some());
                if let (Some(old), true) = (known, v.is_some()) {
                    ensure_eq!(v.get_id().id(), id, "get_node_mut({}).get_id()", id);
                    if w.labels {
                        ensure_eq!(v.get_label_id().map(|l| tbl.get_item(l.id())), old.as_ref().map(Some), "label of get_node_mut({})", id);
                    }
                    if let Some((lid, lab)) = nl {
                        if id % 2 == 0 {
                            v.set_label_id(lid);
                        } else {
                            let before = v.get_label_id();
                            let x = v.unwrap_nodemap_ref();
                            ensure!(!w.returns || (x.is_some() && !x.is_none()), "get_node_mut({}) unwrapped is None", id);
                            ensure_eq!((x.get_id().id(), x.get_label_id()), (id, before), "get_node_mut({}) unwrapped", id);
                            x.set_label_id(lid);
                            ensure!(!w.labels || x.get_label_id() == lid, "get_node_mut({}) unwrapped: label id just set", id);
                        }
                        m.nodes.insert(id, lab);
                    }
                }
            }
            1 => {
                let (s, t) = some_edge(&mut ctx.rng, m);
                let el = table_label_id::<L, EL>(&mut ctx.rng, g.get_edge_label_map());
                ctx.step(format!("get_edge_mut({}, {}) set {:?}", s, t, el));
                ctx.ev("get_edge_mut");
                let known = m.edge(s, t).cloned();
                let tbl = g.get_edge_label_map().clone();
                let mut v = g.get_edge_mut(Id::new(s), Id::new(t));
                ensure!(!w.returns || v.is_some() == known.is_some(), "get_edge_mut({}, {}).is_some() = {}", s, t, v.is_some());
                if let (Some(old), true) = (known, v.is_some()) {
                    ensure_eq!((v.get_start().id(), v.get_target().id()), (s, t), "end points of get_edge_mut");
                    if w.labels {
                        ensure_eq!(v.get_label_id().map(|l| tbl.get_item(l.id())), old.as_ref().map(Some), "label of get_edge_mut({}, {})", s, t);
                    }
                    if let Some((lid, lab)) = el {
                        if (s ^ t) % 2 == 0 {
                            v.set_label_id(lid);
                        } else {
                            let before = v.get_label_id();
                            let mut x = v.unwrap_edge_ref();
                            ensure!(!w.returns || (x.is_some() && !x.is_none()), "get_edge_mut({}, {}) unwrapped is None", s, t);
                            ensure_eq!((x.get_start().id(), x.get_target().id(), x.get_label_id()), (s, t, before), "get_edge_mut({}, {}) unwrapped", s, t);
                            x.set_label_id(lid);
                            ensure!(!w.labels || x.get_label_id() == lid, "get_edge_mut({}, {}) unwrapped: label id just set", s, t);
                        }
                        let k = m.key(s, t);
                        m.edges.insert(k, lab);
                    }
                }
            }
            2 => {
                let tbl = g.get_node_label_map().clone();
                let mut seen = BTreeSet::new();
                ctx.step("nodes_mut() relabelling every other node".into());
                ctx.ev("nodes_mut");
                let n = m.nodes.len();
                let stop = if ctx.rng.chance(1, 5) { ctx.rng.below(n + 1) } else { 2 * n + 16 };
                for mut v in g.nodes_mut().take(stop) {
                    let id = v.get_id().id();
                    ensure!(seen.insert(id), "nodes_mut() yields node {} twice", id);
                    ensure!(m.nodes.contains_key(&id), "nodes_mut() yields unknown node {}", id);
                    if w.labels {
                        ensure_eq!(v.get_label_id().map(|l| tbl.get_item(l.id())), m.nodes[&id].as_ref().map(Some), "label of nodes_mut() node {}", id);
                    }
                    if ctx.rng.chance(1, 2) {
                        if let Some((lid, lab)) = table_label_id::<L, NL>(&mut ctx.rng, &tbl) {
                            v.set_label_id(lid);
                            m.nodes.insert(id, lab);
                        }
                    }
                }
                ensure_eq!(seen.len(), stop.min(m.nodes.len()), "number of nodes_mut() items");
            }
            _ => {
                let tbl = g.get_edge_label_map().clone();
                let mut seen = BTreeSet::new();
                ctx.step("edges_mut() relabelling every other edge".into());
                ctx.ev("edges_mut");
                let n = m.edges.len();
                let stop = if ctx.rng.chance(1, 5) { ctx.rng.below(n + 1) } else { 2 * n + 16 };
                for mut v in g.edges_mut().take(stop) {
                    let k = m.key(v.get_start().id(), v.get_target().id());
                    ensure!(seen.insert(k), "edges_mut() yields edge {:?} twice", k);
                    ensure!(m.edges.contains_key(&k), "edges_mut() yields unknown edge {:?}", k);
                    if w.labels {
                        ensure_eq!(v.get_label_id().map(|l| tbl.get_item(l.id())), m.edges[&k].as_ref().map(Some), "label of edges_mut() edge {:?}", k);
                    }
                    if ctx.rng.chance(1, 2) {
                        if let Some((lid, lab)) = table_label_id::<L, EL>(&mut ctx.rng, &tbl) {
                            v.set_label_id(lid);
                            m.edges.insert(k, lab);
                        }
                    }
                }
                ensure_eq!(seen.len(), stop.min(m.edges.len()), "number of edges_mut() items");
            }
        }
        return Ok(());
    }
    match ctx.rng.below(4) {
        0 => {
            ctx.step("clone".into());
            ctx.ev("clone");
            let c = g.clone();
            if ctx.rng.chance(1, 2) {
                // whatever happens to the original must not show in the copy
                for _ in 0..4 {
                    let (a, b) = (u.id(&mut ctx.rng), u.id(&mut ctx.rng));
                    match ctx.rng.below(4) {
                        0 => { g.remove_node(Id::new(a)); }
                        1 => { g.add_edge(Id::new(a), Id::new(b), u.el(&mut ctx.rng)); }
                        2 => { g.remove_edge(Id::new(a), Id::new(b)); }
                        _ => { g.add_node(Id::new(a), u.nl(&mut ctx.rng)); }
                    }
                }
                ctx.ev("clones whose original changed afterwards");
            }
            *g = c;
        }
        1 => {
            ctx.step("shrink_to_fit".into());
            ctx.ev("shrink_to_fit");
            g.shrink_to_fit();
        }
        2 => {
            ctx.step("refine_edge_count".into());
            ctx.ev("refine_edge_count");
            g.refine_edge_count();
        }
        _ => {
            // registering labels without using them must change nothing else
            let l: Option<NL> = u.nl(&mut ctx.rng);
            let el: Option<EL> = u.el(&mut ctx.rng);
            ctx.step(format!("add_node_label({:?}), add_edge_label({:?})", l, el));
            ctx.ev("register label");
            let a = g.add_node_label(l.clone());
            let b = g.add_edge_label(el.clone());
            if w.labels {
                ensure_eq!(a.map(|x| g.get_node_label_map().get_item(x.id())), l.as_ref().map(Some), "add_node_label");
                ensure_eq!(b.map(|x| g.get_edge_label_map().get_item(x.id())), el.as_ref().map(Some), "add_edge_label");
            }
        }
    }
    Ok(())
}

/// An empty graph in one of the ways the library offers, with its abstract counterpart.
pub fn start<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(
    ctx: &mut Ctx,
    u: &Universe,
) -> (GM<Id, NL, EL, Ty, L>, Model<NL, EL>) {
    let mut m = Model::new(Ty::DIRECTED);
    let pick = if u.fill > 0 { 2 } else { ctx.rng.below(6) };
    let g = match pick {
        0 => {
            ctx.step("with_capacity".into());
            GM::with_capacity(ctx.rng.below(50), ctx.rng.below(5), ctx.rng.below(5))
        }
        1 => {
            ctx.step("default".into());
            Default::default()
        }
        2 => {
            let mut a: Vec<NL> = (0..ctx.rng.below(u.nlabels + 1)).map(NL::make).collect();
            let mut b: Vec<EL> = (0..ctx.rng.below(u.elabels + 1)).map(EL::make).collect();
            ctx.step(format!("with_label_map({:?}, {:?}), {} more labels", a, b, u.fill));
            if u.fill > 0 {
                ctx.ev("label tables with hundreds of unused labels");
                if ctx.rng.chance(1, 3) {
                    a.extend(fillers(u.fill));
                    b.extend(fillers(u.fill));
                    ctx.rng.shuffle(&mut a);
                    ctx.rng.shuffle(&mut b);
                } else {
                    // those in use come right where ids need another byte
                    let k = u.fill.min(ctx.rng.range(246, 256));
                    a.splice(0..0, fillers(k));
                    b.splice(0..0, fillers(k));
                }
            }
            GM::with_label_map(a.into(), b.into())
        }
        3 => {
            let k = ctx.rng.below(8);
            let es: Vec<(usize, usize)> = (0..k).map(|_| (u.id(&mut ctx.rng), u.id(&mut ctx.rng))).collect();
            ctx.step(format!("from_edges({:?})", es));
            for &(a, b) in &es {
                m.add_edge(a, b, None);
            }
            GM::from_edges(es.into_iter().map(|(a, b)| (Id::new(a), Id::new(b))))
        }
        _ => {
            ctx.step("new".into());
            GM::new()
        }
    };
    (g, m)
}

/// A graph after a random history (no observation in between), and its abstract counterpart.
pub fn random_graph<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(
    ctx: &mut Ctx,
    u: &Universe,
    steps: usize,
) -> Result<(GM<Id, NL, EL, Ty, L>, Model<NL, EL>), String> {
    let (mut g, mut m) = start::<Id, NL, EL, Ty, L>(ctx, u);
    let w = Watch { returns: false, labels: false };
    for _ in 0..steps {
        step(ctx, &mut g, &mut m, u, MIX_ALL, w)?;
    }
    Ok((g, m))
}

/// A large graph that grows, loses a hub, shrinks, loses edges and grows again, observed after each stage.
pub fn large_history<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx, aspects: u32) -> CaseResult {
    use rust_graph::generic::GraphTrait;
    let cut = |e: String| e.chars().take(3000).collect::<String>();
    let u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize(), L::max_usize(), true);
    let n = (*ctx.rng.pick(&[200usize, 1500, 1500, 9000, 80_000])).min(Id::max_usize().saturating_add(1));
    let mut m: Model<NL, EL> = crate::impls::big_model(&mut ctx.rng, Ty::DIRECTED, n, &u);
    let mut g = if ctx.rng.chance(1, 4) {
        // as a list of edges gives it
        let mut es: Vec<(usize, usize)> = m.edges.keys().copied().collect();
        ctx.rng.shuffle(&mut es);
        let mut f: Model<NL, EL> = Model::new(Ty::DIRECTED);
        for &(a, b) in &es {
            f.add_edge(a, b, None);
        }
        f.max_seen = f.nodes.keys().max().copied();
        m = f;
        TypedGraphMap::<Id, NL, EL, Ty, L>::from_edges(es.into_iter().map(|(a, b)| (Id::new(a), Id::new(b))))
    } else {
        m.to_graphmap::<Id, Ty, L>(&mut ctx.rng)
    };
    check_graph(ctx, Ty::gm(&g), &m, aspects, m.max_seen, "a large graph before its history").map_err(cut)?;
    ctx.describe(format!("a history on {} nodes and {} edges, {}/{}", n, m.edges.len(), Id::NAME, if Ty::DIRECTED { "directed" } else { "undirected" }));
    let mut stages: Vec<usize> = vec![0, 1, 2, 3, 3, 4, 5, 6];
    ctx.rng.shuffle(&mut stages);
    stages.truncate(ctx.rng.range(3, 6));
    for s in stages {
        let ids: Vec<usize> = m.nodes.keys().copied().collect();
        let mut gone: BTreeSet<usize> = BTreeSet::new();
        match s {
            0 if !ids.is_empty() => {
                // the node with the most edges
                let mut deg: std::collections::BTreeMap<usize, usize> = Default::default();
                for &(a, b) in m.edges.keys() {
                    *deg.entry(a).or_insert(0) += 1;
                    *deg.entry(b).or_insert(0) += 1;
                }
                let hub = deg.iter().max_by_key(|x| x.1).map_or(ids[0], |x| *x.0);
                ctx.step(format!("remove_node({}), which has {:?} edges", hub, deg.get(&hub)));
                gone.insert(hub);
                ctx.ev("hubs removed from large graphs");
            }
            1 => {
                let k = *ctx.rng.pick(&[1usize, 8, 15]);
                ctx.step(format!("removing about {}/16 of the nodes", k));
                gone.extend(ids.iter().copied().filter(|_| ctx.rng.chance(k, 16)));
            }
            2 => {
                let k = *ctx.rng.pick(&[1usize, 8, 15, 16]);
                ctx.step(format!("removing about {}/16 of the edges", k));
                let mut es: Vec<(usize, usize)> = m.edges.keys().copied().filter(|_| ctx.rng.chance(k, 16)).collect();
                ctx.rng.shuffle(&mut es);
                for &(a, b) in &es {
                    let (x, y) = if Ty::DIRECTED || ctx.rng.chance(1, 2) { (a, b) } else { (b, a) };
                    ensure!(g.remove_edge(Id::new(x), Id::new(y)).is_some(), "remove_edge({}, {}) found nothing", x, y);
                    m.edges.remove(&(a, b));
                }
            }
            3 => {
                let k = ctx.rng.range(1, 2000);
                ctx.step(format!("adding or relabelling {} edges", k));
                for _ in 0..k {
                    let (a, b) = (ctx.rng.below(n), ctx.rng.below(n));
                    let l = u.el(&mut ctx.rng);
                    ensure_eq!(g.add_edge(Id::new(a), Id::new(b), l.clone()), m.add_edge(a, b, l), "add_edge({}, {})", a, b);
                }
            }
            5 => {
                ctx.step("nodes_mut() over all nodes".into());
                let tbl = g.get_node_label_map().clone();
                let mut seen = 0;
                for mut v in g.nodes_mut().take(2 * m.nodes.len() + 16) {
                    seen += 1;
                    ensure!(m.nodes.contains_key(&v.get_id().id()), "nodes_mut() yields unknown node {}", v.get_id().id());
                    if let Some((lid, lab)) = table_label_id::<L, NL>(&mut ctx.rng, &tbl) {
                        v.set_label_id(lid);
                        m.nodes.insert(v.get_id().id(), lab);
                    }
                }
                ensure_eq!(seen, m.nodes.len(), "number of nodes_mut() items");
            }
            6 => {
                ctx.step("edges_mut() over all edges".into());
                let tbl = g.get_edge_label_map().clone();
                let mut seen = 0;
                for mut v in g.edges_mut().take(2 * m.edges.len() + 16) {
                    seen += 1;
                    let k = m.key(v.get_start().id(), v.get_target().id());
                    ensure!(m.edges.contains_key(&k), "edges_mut() yields unknown edge {:?}", k);
                    if let Some((lid, lab)) = table_label_id::<L, EL>(&mut ctx.rng, &tbl) {
                        v.set_label_id(lid);
                        m.edges.insert(k, lab);
                    }
                }
                ensure_eq!(seen, m.edges.len(), "number of edges_mut() items");
            }
            _ => {
                let k = ctx.rng.range(1, 2000);
                ctx.step(format!("adding or relabelling {} nodes", k));
                for _ in 0..k {
                    let a = ctx.rng.below(n);
                    let l = u.nl(&mut ctx.rng);
                    ensure_eq!(g.add_node(Id::new(a), l.clone()), m.add_node(a, l), "add_node({})", a);
                }
            }
        }
        if !gone.is_empty() {
            let mut order: Vec<usize> = gone.iter().copied().collect();
            ctx.rng.shuffle(&mut order);
            for i in order {
                ensure!(g.remove_node(Id::new(i)).is_some(), "remove_node({}) found nothing", i);
                ensure!(!g.has_node(Id::new(i)), "has_node({}) after its removal", i);
            }
            m.nodes.retain(|i, _| !gone.contains(i));
            m.edges.retain(|k, _| !gone.contains(&k.0) && !gone.contains(&k.1));
        }
        if ctx.rng.chance(1, 4) {
            g.shrink_to_fit();
        }
        check_graph(ctx, Ty::gm(&g), &m, aspects, m.max_seen, "a large graph during its history").map_err(cut)?;
        ctx.ev("large graphs observed during a history");
    }
    let k = m.fingerprint();
    ctx.nontrivial(k);
    Ok(())
}

/// A random abstract graph on the given ids.
pub fn random_model<NL: HLabel, EL: HLabel>(
    rng: &mut Rng,
    directed: bool,
    ids: &[usize],
    edges: usize,
    u: &Universe,
) -> Model<NL, EL> {
    let mut m = Model::new(directed);
    for &i in ids {
        let l = u.nl(rng);
        m.add_node(i, l);
    }
    if !ids.is_empty() {
        for _ in 0..edges {
            let s = *rng.pick(ids);
            let t = if rng.chance(1, 12) { s } else { *rng.pick(ids) };
            let l = u.el(rng);
            m.add_edge(s, t, l);
        }
    }
    m
}
