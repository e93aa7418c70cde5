//! C27: the nodes and edges a graph hands out are values.
use harness::history::*;
use harness::impls::*;
use harness::*;
use rust_graph::generic::{
    EdgeTrait, EdgeType, GraphTrait, MapTrait, MutEdgeTrait, MutEdgeType, MutGraphTrait, MutNodeTrait, MutNodeType, NodeTrait, NodeType,
    OwnedEdgeType, OwnedNodeType, NodeMapTrait,
};
use rust_graph::graph_impl::graph_map::{MutEdge, MutNodeMapTrait, NodeMap};
use rust_graph::graph_impl::static_graph::StaticNode;
use rust_graph::graph_impl::{Edge, TypedGraphMap};
use rust_graph::io::serde::{Deserializer, Serializer};
use rust_graph::prelude::GraphLabelTrait;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

fn h<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

/// What an edge record says: end points and label id.
type EKey = Option<(usize, usize, Option<usize>)>;
/// What a node record says: id, label id and (hash-map records only) its adjacency.
type NKey = Option<(usize, Option<usize>, BTreeMap<usize, Option<usize>>, BTreeSet<usize>)>;

/// Every ordered pair of records compares as what they say does.
fn pairs<A: Debug, B: Debug, K: PartialEq + Debug>(ctx: &mut Ctx, a: &[(A, K)], b: &[(B, K)], what: &str) -> CaseResult
where
    A: PartialEq<B>,
{
    for (x, k) in a {
        for (y, q) in b {
            let want = k == q;
            ensure!((x == y) == want, "{}: {:?} == {:?} is {} but they say {:?} and {:?}", what, x, y, x == y, k, q);
            ensure!((x != y) == !want, "{}: {:?} != {:?} is {} but they say {:?} and {:?}", what, x, y, x != y, k, q);
            ctx.ev(if want { "equal records compared" } else { "different records compared" });
        }
    }
    Ok(())
}

fn says_edge<Id: HId, L: HId, E: EdgeTrait<Id, L>>(e: &E, k: &EKey, what: &str) -> CaseResult {
    ensure!(e.is_none() == k.is_none() && e.is_some() == k.is_some(), "{}: is_none() = {} and is_some() = {} for {:?}", what, e.is_none(), e.is_some(), k);
    if let Some((s, t, l)) = k {
        let got = (e.get_start().id(), e.get_target().id(), e.get_label_id().map(|l| l.id()));
        ensure!(got == (*s, *t, *l), "{}: says {:?}, expected {:?}", what, got, k);
    }
    Ok(())
}

fn says_node<Id: HId, L: HId, E: NodeTrait<Id, L>>(e: &E, k: &NKey, what: &str) -> CaseResult {
    ensure!(e.is_none() == k.is_none() && e.is_some() == k.is_some(), "{}: is_none() = {} and is_some() = {} for {:?}", what, e.is_none(), e.is_some(), k);
    if let Some((i, l, _, _)) = k {
        let got = (e.get_id().id(), e.get_label_id().map(|l| l.id()));
        ensure!(got == (*i, *l), "{}: says {:?}, expected {:?}", what, got, k);
    }
    Ok(())
}

type G<Id, NL, EL, Ty, L> = TypedGraphMap<Id, NL, EL, Ty, L>;

fn ekey<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(g: &G<Id, NL, EL, Ty, L>, m: &Model<NL, EL>, s: usize, t: usize) -> EKey {
    m.edge(s, t).map(|l| (s, t, l.as_ref().map(|l| g.get_edge_label_map().find_index(l).unwrap())))
}

fn nkey<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(g: &G<Id, NL, EL, Ty, L>, m: &Model<NL, EL>, adj: &(BTreeMap<usize, BTreeSet<usize>>, BTreeMap<usize, BTreeSet<usize>>), i: usize) -> NKey {
    let l = m.nodes.get(&i)?;
    let out = adj.0.get(&i).cloned().unwrap_or_default().into_iter().map(|j| (j, ekey(g, m, i, j).unwrap().2)).collect();
    let inn = if m.directed { adj.1.get(&i).cloned().unwrap_or_default() } else { BTreeSet::new() };
    Some((i, l.as_ref().map(|l| g.get_node_label_map().find_index(l).unwrap()), out, inn))
}

fn views<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    let u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize(), L::max_usize(), false);
    let steps = ctx.rng.range(3, 40);
    let (mut g, m) = random_graph::<Id, NL, EL, Ty, L>(ctx, &u, steps)?;
    // the same graph a few steps later: most records agree, some do not
    let (mut g2, mut m2) = (g.clone(), m.clone());
    for _ in 0..ctx.rng.below(6) {
        step(ctx, &mut g2, &mut m2, &u, MIX_ALL, Watch { returns: false, labels: false })?;
    }
    ctx.describe(format!("{} and {}", m.brief(), m2.brief()));
    // ids to ask for
    let mut ids: Vec<usize> = u.ids.clone();
    ctx.rng.shuffle(&mut ids);
    ids.truncate(6);
    let mut ends: Vec<(usize, usize)> = Vec::new();
    for k in m.edges.keys().chain(m2.edges.keys()) {
        ends.push(*k);
        ends.push((k.1, k.0));
    }
    ctx.rng.shuffle(&mut ends);
    ends.truncate(10);
    for _ in 0..4 {
        ends.push((u.id(&mut ctx.rng), u.id(&mut ctx.rng)));
    }
    // ---- edges looked up
    let mut es: Vec<(EdgeType<Id, L>, EKey)> = Vec::new();
    for (gr, mo) in [(&g, &m), (&g2, &m2)] {
        for &(s, t) in &ends {
            let k = ekey(gr, mo, s, t);
            let e = gr.get_edge(Id::new(s), Id::new(t));
            says_edge(&e, &k, "get_edge")?;
            es.push((e, k));
        }
    }
    pairs(ctx, &es, &es, "edges looked up")?;
    let copies: Vec<(EdgeType<Id, L>, EKey)> = es.iter().map(|(e, k)| (e.clone(), *k)).collect();
    pairs(ctx, &es, &copies, "copied edges")?;
    let bare: Vec<(Edge<Id, L>, EKey)> = es.iter().filter(|(_, k)| k.is_some()).map(|(e, k)| (e.clone().unwrap(), *k)).collect();
    let made: Vec<(Edge<Id, L>, EKey)> = bare.iter().map(|(_, k)| { let (s, t, l) = k.unwrap(); (Edge::new(Id::new(s), Id::new(t), l.map(L::new)), *k) }).collect();
    pairs(ctx, &bare, &made, "edges made by hand")?;
    let made: Vec<(Edge<Id, L>, EKey)> = bare.iter().map(|(_, k)| { let (s, t, l) = k.unwrap(); (Edge::new_static(Id::new(s), Id::new(t), l.map_or(L::max_value(), L::new)), *k) }).collect();
    for (e, k) in &made {
        says_edge(e, k, "Edge::new_static")?;
    }
    pairs(ctx, &made, &bare, "edges made by hand (static)")?;
    // ---- edges enumerated
    let mut ee: Vec<(EdgeType<Id, L>, EKey)> = Vec::new();
    for (gr, mo) in [(&g, &m), (&g2, &m2)] {
        for e in gr.edges().take(12) {
            let k = ekey(gr, mo, e.get_start().id(), e.get_target().id());
            ensure!(k.is_some(), "edges() yields {:?}, which is no edge", e);
            says_edge(&e, &k, "edges()")?;
            ee.push((e, k));
        }
    }
    pairs(ctx, &ee, &es, "edges enumerated and looked up")?;
    // ---- nodes looked up
    let adj = (m.out_adj(), m.in_adj());
    let adj2 = (m2.out_adj(), m2.in_adj());
    {
        let mut ns: Vec<(NodeType<Id, L>, NKey)> = Vec::new();
        for (gr, mo, ad) in [(&g, &m, &adj), (&g2, &m2, &adj2)] {
            for &i in &ids {
                let k = nkey(gr, mo, ad, i);
                let n = gr.get_node(Id::new(i));
                says_node(&n, &k, "get_node")?;
                ns.push((n, k));
            }
        }
        pairs(ctx, &ns, &ns, "nodes looked up")?;
        let copies: Vec<(NodeType<Id, L>, NKey)> = ns.iter().map(|(n, k)| (n.clone(), k.clone())).collect();
        pairs(ctx, &copies, &ns, "copied nodes")?;
        let recs: Vec<(NodeMap<Id, L>, NKey)> = ns.into_iter().filter(|(_, k)| k.is_some()).map(|(n, k)| (n.unwrap_nodemap().clone(), k)).collect();
        pairs(ctx, &recs, &recs, "copied node records")?;
        for (x, k) in &recs {
            for (y, q) in &recs {
                if k == q {
                    ensure!(h(x) == h(y), "equal node records hash differently: {:?}", x);
                    ctx.ev("hashes compared");
                }
            }
        }
    }
    // ---- mutable views
    {
        let ka: Vec<EKey> = ends.iter().map(|&(s, t)| ekey(&g, &m, s, t)).collect();
        let kb: Vec<EKey> = ends.iter().map(|&(s, t)| ekey(&g2, &m2, s, t)).collect();
        for (i, &(s, t)) in ends.iter().enumerate() {
            let a = [(g.get_edge_mut(Id::new(s), Id::new(t)), ka[i])];
            says_edge(&a[0].0, &ka[i], "get_edge_mut")?;
            for (j, &(s2, t2)) in ends.iter().enumerate() {
                let b = [(g2.get_edge_mut(Id::new(s2), Id::new(t2)), kb[j])];
                pairs(ctx, &a, &b, "mutable edges looked up")?;
            }
        }
        for (i, &(s, t)) in ends.iter().enumerate().filter(|(i, _)| ka[*i].is_some()) {
            let a = g.get_edge_mut(Id::new(s), Id::new(t)).unwrap_edge_ref();
            for (j, &(s2, t2)) in ends.iter().enumerate().filter(|(j, _)| kb[*j].is_some()) {
                let b = g2.get_edge_mut(Id::new(s2), Id::new(t2)).unwrap_edge_ref();
                ensure!((a == b) == (ka[i] == kb[j]), "unwrapped mutable edges {:?} and {:?} compare as {}", ka[i], kb[j], a == b);
            }
        }
        let (ga, gb) = (g.clone(), g2.clone());
        let va: Vec<(MutEdgeType<Id, L>, EKey)> = g.edges_mut().take(10).map(|e| { let k = ekey(&ga, &m, e.get_start().id(), e.get_target().id()); (e, k) }).collect();
        let vb: Vec<(MutEdgeType<Id, L>, EKey)> = g2.edges_mut().take(10).map(|e| { let k = ekey(&gb, &m2, e.get_start().id(), e.get_target().id()); (e, k) }).collect();
        for (e, k) in va.iter().chain(vb.iter()) {
            says_edge(e, k, "edges_mut()")?;
        }
        pairs(ctx, &va, &vb, "mutable edges enumerated")?;
        pairs(ctx, &va, &va, "mutable edges enumerated")?;
        drop((va, vb));
        let va: Vec<(MutNodeType<Id, L>, NKey)> = g.nodes_mut().take(8).map(|n| { let k = nkey(&ga, &m, &adj, n.get_id().id()); (n, k) }).collect();
        let mut vb: Vec<(MutNodeType<Id, L>, NKey)> = g2.nodes_mut().take(8).map(|n| { let k = nkey(&gb, &m2, &adj2, n.get_id().id()); (n, k) }).collect();
        vb.push((MutNodeType::None, None));
        for (n, k) in va.iter().chain(vb.iter()) {
            says_node(n, k, "nodes_mut()")?;
        }
        pairs(ctx, &va, &vb, "mutable nodes enumerated")?;
    }
    // ---- what removal hands out
    {
        let mut ra: Vec<(OwnedEdgeType<Id, L>, EKey)> = Vec::new();
        for (gr, mo) in [(&g, &m), (&g2, &m2)] {
            for &(s, t) in &ends {
                let k = ekey(gr, mo, s, t);
                let e = gr.clone().remove_edge(Id::new(s), Id::new(t));
                says_edge(&e, &k, "remove_edge")?;
                ra.push((e, k));
            }
        }
        pairs(ctx, &ra, &ra, "removed edges")?;
        let mut rn: Vec<(OwnedNodeType<Id, L>, NKey)> = Vec::new();
        for (gr, mo, ad) in [(&g, &m, &adj), (&g2, &m2, &adj2)] {
            for &i in &ids {
                let k = nkey(gr, mo, ad, i);
                let n = gr.clone().remove_node(Id::new(i));
                // how much of its adjacency a removed node still lists is open
                let k = k.map(|(i, l, _, _)| (i, l, BTreeMap::new(), BTreeSet::new()));
                says_node(&n, &k, "remove_node")?;
                rn.push((n, k));
            }
        }
        for (a, k) in &rn {
            for (b, q) in &rn {
                let say = |k: &NKey| k.as_ref().map(|k| (k.0, k.1));
                ensure!(say(k) == say(q) || a != b, "removed nodes: {:?} == {:?}", a, b);
                ensure!(k.is_some() || q.is_some() || a == b, "removed nodes: {:?} != {:?}", a, b);
                ctx.ev("removed nodes compared");
            }
        }
    }
    // ---- static records
    {
        let d = densify(&m);
        let mut d2 = d.clone();
        if !d2.nodes.is_empty() {
            for _ in 0..ctx.rng.below(3) {
                let i = ctx.rng.below(d2.nodes.len());
                let l = u.nl(&mut ctx.rng);
                d2.nodes.insert(i, l);
            }
        }
        let (a, b) = (static_of::<Id, NL, EL, Ty, L>(&mut ctx.rng, &d), static_of::<Id, NL, EL, Ty, L>(&mut ctx.rng, &d2));
        let mut ns: Vec<(NodeType<Id, L>, NKey)> = Vec::new();
        let mut es: Vec<(EdgeType<Id, L>, EKey)> = Vec::new();
        let top = d.nodes.len().min(Id::max_usize());
        for (gr, mo) in [(&a, &d), (&b, &d2)] {
            for _ in 0..6 {
                let i = ctx.rng.below(top + 1);
                let k: NKey = mo.nodes.get(&i).map(|l| (i, l.as_ref().map(|l| gr.get_node_label_map().find_index(l).unwrap()), BTreeMap::new(), BTreeSet::new()));
                let n = gr.get_node(Id::new(i));
                says_node(&n, &k, "static get_node")?;
                ns.push((n, k));
            }
            let mut ends: Vec<(usize, usize)> = mo.edges.keys().cloned().collect();
            ctx.rng.shuffle(&mut ends);
            ends.truncate(6);
            ends.push((ctx.rng.below(top + 1), ctx.rng.below(top + 1)));
            for (s, t) in ends {
                let k: EKey = mo.edge(s, t).map(|l| (s, t, l.as_ref().map(|l| gr.get_edge_label_map().find_index(l).unwrap())));
                let e = gr.get_edge(Id::new(s), Id::new(t));
                says_edge(&e, &k, "static get_edge")?;
                es.push((e, k));
            }
        }
        pairs(ctx, &ns, &ns, "static nodes")?;
        pairs(ctx, &es, &es, "static edges")?;
        let bare: Vec<(StaticNode<Id, L>, NKey)> = ns.iter().filter(|(_, k)| k.is_some()).map(|(n, k)| (n.clone().unwrap_staticnode(), k.clone())).collect();
        let made: Vec<(StaticNode<Id, L>, NKey)> = bare
            .iter()
            .map(|(_, k)| {
                let (i, l, _, _) = k.clone().unwrap();
                (if i % 2 == 0 { StaticNode::new(Id::new(i), l.map(L::new)) } else { StaticNode::new_static(Id::new(i), l.map_or(L::max_value(), L::new)) }, k.clone())
            })
            .collect();
        for (n, k) in &made {
            says_node(n, k, "a static node made by hand")?;
        }
        pairs(ctx, &bare, &made, "static nodes made by hand")?;
    }
    if m.edges.len() > 1 {
        let k = m.fingerprint();
        ctx.nontrivial(k);
    }
    Ok(())
}

/// What a node record must hold.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Rec {
    id: usize,
    label: Option<usize>,
    out: BTreeMap<usize, Option<usize>>,
    inn: BTreeSet<usize>,
}

fn check_record<Id: HId, L: HId>(ctx: &mut Ctx, n: &NodeMap<Id, L>, r: &Rec, ids: &[usize]) -> CaseResult {
    let cv = |v: Vec<Id>| -> Vec<usize> { v.into_iter().map(|x| x.id()).collect() };
    let out: Vec<usize> = r.out.keys().cloned().collect();
    let inn: Vec<usize> = r.inn.iter().cloned().collect();
    let above: Vec<usize> = r.out.range(r.id..).map(|(k, _)| *k).collect();
    ensure_eq!((n.get_id().id(), n.get_label_id().map(|l| l.id())), (r.id, r.label), "a record's id and label");
    ensure!(n.is_some() && !n.is_none(), "a record says it is none");
    ensure_eq!(cv(n.neighbors()), out.clone(), "neighbors()");
    ensure_eq!(cv(n.neighbors_iter().collect()), out.clone(), "neighbors_iter()");
    ensure_eq!(cv(n.in_neighbors()), inn.clone(), "in_neighbors()");
    ensure_eq!(cv(n.in_neighbors_iter().collect()), inn, "in_neighbors_iter()");
    ensure_eq!(cv(n.non_less_neighbors_iter().collect()), above, "non_less_neighbors_iter()");
    ensure_eq!((n.degree(), n.in_degree()), (r.out.len(), r.inn.len()), "degree and in-degree");
    let full = |it: Vec<Edge<Id, L>>| -> Vec<EKey> { it.into_iter().map(|e| Some((e.get_start().id(), e.get_target().id(), e.get_label_id().map(|l| l.id())))).collect() };
    let want: Vec<EKey> = r.out.iter().map(|(k, l)| Some((r.id, *k, *l))).collect();
    ensure_eq!(full(n.neighbors_iter_full().collect()), want, "neighbors_iter_full()");
    let want: Vec<EKey> = r.out.range(r.id..).map(|(k, l)| Some((r.id, *k, *l))).collect();
    ensure_eq!(full(n.non_less_neighbors_iter_full().collect()), want, "non_less_neighbors_iter_full()");
    for &i in ids {
        let x = Id::new(i);
        ensure_eq!((n.has_neighbor(x), n.has_in_neighbor(x)), (r.out.contains_key(&i), r.inn.contains(&i)), "has_neighbor and has_in_neighbor of {}", i);
        ensure_eq!(n.get_neighbor(x).map(|l| l.map(|l| l.id())), r.out.get(&i).cloned(), "get_neighbor({})", i);
    }
    ctx.ev("stand-alone records observed");
    Ok(())
}

fn records<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    let u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize(), L::max_usize(), false);
    let labels = ctx.rng.range(1, 5).min(L::max_usize());
    let lab = |ctx: &mut Ctx| if ctx.rng.chance(1, 3) { None } else { Some(ctx.rng.below(labels)) };
    let (i, l) = (u.id(&mut ctx.rng), lab(ctx));
    let mut n: NodeMap<Id, L> = NodeMap::new(Id::new(i), l.map(L::new));
    let mut r = Rec { id: i, label: l, out: BTreeMap::new(), inn: BTreeSet::new() };
    ctx.describe(format!("a stand-alone record {:?} among {:?}", r, u.ids));
    check_record(ctx, &n, &r, &u.ids)?;
    let mut past: Vec<(NodeMap<Id, L>, Rec)> = Vec::new();
    let mut relabelled = 0;
    for _ in 0..ctx.rng.range(5, 60) {
        let j = u.id(&mut ctx.rng);
        let x = Id::new(j);
        let l = lab(ctx);
        let op = ctx.rng.below(12);
        ctx.step(format!("operation {} with {} and {:?}", op, j, l));
        match op {
            0..=3 => {
                let new = r.out.insert(j, l).is_none();
                ensure_eq!(n.add_edge(x, l.map(L::new)), new, "add_edge({}, {:?})", j, l);
            }
            4 | 5 => {
                let new = r.inn.insert(j);
                ensure_eq!(n.add_in_edge(x), new, "add_in_edge({})", j);
            }
            6 => {
                let had = r.inn.remove(&j);
                ensure_eq!(n.remove_in_edge(x), had, "remove_in_edge({})", j);
            }
            7 => {
                let k = r.out.remove(&j).map(|l| (r.id, j, l));
                says_edge(&n.remove_edge(x), &k, "remove_edge of a record")?;
            }
            8 => {
                let k = r.out.get(&j).map(|l| (r.id, j, *l));
                let mut e = n.get_neighbor_mut(x);
                says_edge(&e, &k, "get_neighbor_mut")?;
                if k.is_some() {
                    e.set_label_id(l.map(L::new));
                    says_edge(&e, &Some((r.id, j, l)), "get_neighbor_mut after labelling")?;
                    r.out.insert(j, l);
                    relabelled += 1;
                }
            }
            9 => {
                let above = ctx.rng.chance(1, 2);
                let from = if above { r.id } else { 0 };
                let it = if above { n.non_less_neighbors_iter_mut() } else { n.neighbors_iter_mut() };
                let mut seen = Vec::new();
                for mut e in it {
                    let k = e.get_target().id();
                    ensure_eq!((e.get_start().id(), e.get_label_id().map(|l| Some(l.id()))), (r.id, r.out.get(&k).cloned().unwrap_or(None).map(Some)), "a mutable neighbour to {}", k);
                    seen.push(k);
                    if ctx.rng.chance(1, 3) {
                        e.set_label_id(l.map(L::new));
                        r.out.insert(k, l);
                        relabelled += 1;
                    }
                }
                let want: Vec<usize> = r.out.range(from..).map(|(k, _)| *k).collect();
                ensure_eq!(seen, want, "mutable neighbours (from {})", from);
            }
            10 => {
                n.set_label_id(l.map(L::new));
                r.label = l;
            }
            _ => {
                if past.len() < 12 {
                    past.push((n.clone(), r.clone()));
                }
                if ctx.rng.chance(1, 4) {
                    let p = ctx.path("node.bin");
                    Serializer::export(&n, &p).map_err(|e| format!("export of a record: {}", e))?;
                    n = Deserializer::import(&p).map_err(|e| format!("import of a record: {}", e))?;
                    ctx.ev("records exported and imported");
                }
            }
        }
        check_record(ctx, &n, &r, &u.ids)?;
    }
    ctx.evn("labels changed through a record", relabelled);
    past.push((n, r));
    // one built again from scratch, in the opposite order
    let (n, r) = ctx.rng.pick(&past).clone();
    let mut again = NodeMap::<Id, L>::new(n.get_id(), None);
    for j in r.inn.iter().rev() {
        again.add_in_edge(Id::new(*j));
    }
    for (j, l) in r.out.iter().rev() {
        again.add_edge(Id::new(*j), l.map(L::new));
    }
    again.set_label_id(r.label.map(L::new));
    past.push((again, r));
    pairs(ctx, &past, &past, "records")?;
    for (x, a) in &past {
        for (y, b) in &past {
            if a == b {
                ensure!(h(x) == h(y), "equal records hash differently: {:?}", x);
                ctx.ev("hashes compared");
            }
        }
    }
    let k = past.len() as u64 ^ h(&past[0].0);
    ctx.nontrivial(k);
    Ok(())
}

/// Records made by hand, with ids and label ids that no label table of a test would reach.
fn made<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    let odd = |rng: &mut Rng, top: usize| -> usize {
        match rng.below(4) {
            0 => rng.below(3),
            1 => top - rng.below(3),
            2 => (1usize << rng.below(63)).min(top),
            _ => rng.range(0, top.min(usize::max_value() - 1)),
        }
    };
    // the largest label id stands for "no label" in static records
    let ids: Vec<usize> = (0..3).map(|_| odd(&mut ctx.rng, Id::max_usize())).collect();
    let ls: Vec<Option<usize>> = (0..3).map(|_| if ctx.rng.chance(1, 4) { None } else { Some(odd(&mut ctx.rng, L::max_usize() - 1)) }).collect();
    ctx.describe(format!("records made by hand on ids {:?} and label ids {:?} ({}/{})", ids, ls, Id::NAME, L::NAME));
    let mut slots: Vec<(usize, usize, Option<usize>, Option<L>, Option<L>)> = Vec::new();
    for _ in 0..7 {
        let (a, b, l) = (*ctx.rng.pick(&ids), *ctx.rng.pick(&ids), *ctx.rng.pick(&ls));
        slots.push((a, b, l, l.map(L::new), l.map(L::new)));
    }
    let mut es: Vec<(Edge<Id, L>, EKey)> = Vec::new();
    let mut sn: Vec<(StaticNode<Id, L>, NKey)> = Vec::new();
    let mut nm: Vec<(NodeMap<Id, L>, NKey)> = Vec::new();
    for (a, b, l, _, _) in &slots {
        let ek = Some((*a, *b, *l));
        let nk = Some((*a, *l, BTreeMap::new(), BTreeSet::new()));
        for stat in [false, true] {
            let (e, n) = if stat {
                let x = l.map_or(L::max_value(), L::new);
                (Edge::new_static(Id::new(*a), Id::new(*b), x), StaticNode::new_static(Id::new(*a), x))
            } else {
                (Edge::new(Id::new(*a), Id::new(*b), l.map(L::new)), StaticNode::new(Id::new(*a), l.map(L::new)))
            };
            says_edge(&e, &ek, "an edge made by hand")?;
            says_node(&n, &nk, "a static node made by hand")?;
            es.push((e, ek));
            sn.push((n, nk.clone()));
        }
        let n = NodeMap::<Id, L>::new(Id::new(*a), l.map(L::new));
        says_node(&n, &nk, "a node made by hand")?;
        nm.push((n, nk));
    }
    pairs(ctx, &es, &es, "edges made by hand")?;
    pairs(ctx, &sn, &sn, "static nodes made by hand")?;
    pairs(ctx, &nm, &nm, "nodes made by hand")?;
    for (x, a) in &nm {
        for (y, b) in &nm {
            ensure!(a != b || h(x) == h(y), "equal nodes hash differently: {:?}", x);
        }
    }
    let wrapped: Vec<(NodeType<Id, L>, NKey)> = nm.iter().map(|(n, k)| (NodeType::NodeMap(n), k.clone())).chain(std::iter::once((NodeType::None, None))).collect();
    for (n, k) in &wrapped {
        says_node(n, k, "a wrapped node made by hand")?;
    }
    pairs(ctx, &wrapped, &wrapped, "wrapped nodes")?;
    let mut ma: Vec<(MutEdge<Id, L>, EKey)> = Vec::new();
    let mut mb: Vec<(MutEdge<Id, L>, EKey)> = Vec::new();
    for (a, b, l, x, y) in slots.iter_mut() {
        ma.push((MutEdge::new(Id::new(*a), Id::new(*b), x), Some((*a, *b, *l))));
        mb.push((MutEdge::new(Id::new(*a), Id::new(*b), y), Some((*a, *b, *l))));
    }
    for (e, k) in ma.iter().chain(mb.iter()) {
        says_edge(e, k, "a mutable edge made by hand")?;
    }
    pairs(ctx, &ma, &mb, "mutable edges made by hand")?;
    // a label set through the record is read back from it
    for (e, k) in ma.iter_mut() {
        let l = *ctx.rng.pick(&ls);
        e.set_label_id(l.map(L::new));
        *k = k.map(|(a, b, _)| (a, b, l));
        says_edge(e, k, "a relabelled mutable edge")?;
    }
    pairs(ctx, &ma, &mb, "relabelled mutable edges")?;
    drop((ma, mb));
    ctx.ev("records made by hand");
    let k = h(&format!("{:?}", slots));
    ctx.nontrivial(k);
    Ok(())
}

fn run(ctx: &mut Ctx) -> CaseResult {
    let sel = ctx.case / 3;
    if ctx.case % 13 == 12 {
        dispatch!(sel, made(ctx))
    } else if ctx.case % 3 == 2 {
        dispatch!(sel, records(ctx))
    } else {
        dispatch!(sel, views(ctx))
    }
}

fn main() {
    driver::main(CheckDef {
        id: "C27",
        level: "exploration",
        rule: "two cases in three take a graph after a random history and the same graph a few steps later, collect what both hand out (edges and nodes looked up, enumerated, as mutable views, as removed items, from static graphs, copied, made by hand) and compare ==, != of every pair with whether both say the same; every accessor is compared with the abstract graph and equal node records must hash equally. One in three runs a random history on a stand-alone node record against an abstract one, observing everything after each step, then compares its past states with each other, with a rebuilt one and across export and import. One in 13 makes records by hand, up to the largest ids and label ids. Non-trivial: more than one edge; distinct by content.",
        assumptions: &["how much adjacency a removed node still lists is open"],
        quick: 100000,
        thorough: 1500000,
        run,
        mem_mb: 4096,
    })
}
