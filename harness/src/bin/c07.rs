//! C07: reordering ids yields the same graph under the reported renaming.
use harness::history::*;
use harness::impls::big_model;
use harness::observe::*;
use harness::*;
use rust_graph::generic::{DiGraphTrait, EdgeTrait, GraphLabelTrait, GraphTrait, MapTrait, MutGraphTrait, NodeTrait};
use rust_graph::graph_impl::TypedGraphMap;
use rust_graph::map::{SetMap, VecMap};
use std::collections::{BTreeMap, BTreeSet};

type G<Id, NL, EL, Ty, L> = TypedGraphMap<Id, NL, EL, Ty, L>;

/// The abstract graph with its ids renamed by `f`.
fn rename<NL: HLabel, EL: HLabel>(m: &Model<NL, EL>, f: &dyn Fn(usize) -> usize) -> Model<NL, EL> {
    let mut r = Model::new(m.directed);
    for (n, l) in &m.nodes {
        r.add_node(f(*n), l.clone());
    }
    for (&(a, b), l) in &m.edges {
        r.add_edge(f(a), f(b), l.clone());
    }
    r
}

fn items<X: Clone>(t: &SetMap<X>) -> Vec<X>
where
    X: std::hash::Hash + Eq,
{
    t.items().cloned().collect()
}

struct Before<Id, NL, EL, L> {
    ntab: Vec<NL>,
    etab: Vec<EL>,
    nids: BTreeMap<Id, Option<L>>,
    eids: BTreeMap<(Id, Id), Option<L>>,
}

fn note<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(g: &G<Id, NL, EL, Ty, L>) -> Before<Id, NL, EL, L> {
    let mut eids = BTreeMap::new();
    for e in g.edges() {
        eids.insert((e.get_start(), e.get_target()), e.get_label_id());
        if !Ty::DIRECTED {
            eids.insert((e.get_target(), e.get_start()), e.get_label_id());
        }
    }
    Before {
        ntab: items(g.get_node_label_map()),
        etab: items(g.get_edge_label_map()),
        nids: g.nodes().map(|n| (n.get_id(), n.get_label_id())).collect(),
        eids,
    }
}

/// Ascending frequency of label ids; unused labels may be dropped or come first.
fn by_frequency<X: HLabel>(tab: &[X], counts: &BTreeMap<X, usize>, what: &str) -> CaseResult {
    let f: Vec<usize> = tab.iter().map(|l| counts.get(l).cloned().unwrap_or(0)).collect();
    ensure!(f.windows(2).all(|w| w[0] <= w[1]), "{} label ids are not ordered by frequency: {:?} carried {:?} times", what, tab, f);
    for l in counts.keys() {
        ensure!(tab.contains(l), "{} label {:?} is carried but left the table", what, l);
    }
    Ok(())
}

fn case<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    let u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize().min(1 << 40), L::max_usize(), false);
    let steps = *ctx.rng.pick(&[0usize, 3, 10, 25, 60, 120]);
    ctx.describe(format!("{}/{}/{}/{} ids {:?}; ", Id::NAME, NL::NAME, EL::NAME, L::NAME, u.ids));
    let (mut g, mut m): (G<Id, NL, EL, Ty, L>, Model<NL, EL>);
    if ctx.case % 1009 < 10 && ctx.case >= 1009 {
        let n = (*ctx.rng.pick(&[256usize, 300, 2000, 20_000])).min(Id::max_usize().saturating_add(1));
        let mut u = u.clone();
        // hundreds of labels in use
        if ctx.rng.chance(1, 2) {
            u.nlabels = NL::MAX.min(L::max_usize()).min(400);
            u.elabels = EL::MAX.min(L::max_usize()).min(400);
            u.plabel = (7, 8);
        }
        m = big_model(&mut ctx.rng, Ty::DIRECTED, n, &u);
        g = m.to_graphmap(&mut ctx.rng);
        ctx.ev("large graphs reordered");
    } else if ctx.case % 3001 < 10 && ctx.case >= 3001 && Id::max_usize() > 70_000 {
        // a hub with more neighbours than 16 bits count, and labels carried as often
        let n = *ctx.rng.pick(&[65_536usize, 65_537, 65_600, 70_000]);
        m = Model::new(Ty::DIRECTED);
        for i in 0..n {
            let l = if i % 3 == 0 && i < 900 { None } else { Some(NL::make((i % 60_000 == 1) as usize % NL::MAX)) };
            m.add_node(i, l);
        }
        let hub = ctx.rng.below(n);
        for i in 0..n {
            let l = Some(EL::make((i % 60_000 == 1) as usize % EL::MAX));
            let out = ctx.rng.chance(1, 2) || i == hub;
            if out { m.add_edge(hub, i, l) } else { m.add_edge(i, hub, l) };
        }
        for i in 0..5 {
            m.add_edge(i, (i + 1) % 5, Some(EL::make(0)));
        }
        g = m.to_graphmap(&mut ctx.rng);
        ctx.ev("hubs with more than 65535 neighbours reordered");
    } else {
        let r = random_graph(ctx, &u, steps)?;
        g = r.0;
        m = r.1;
    }
    let rounds = if m.nodes.len() > 200 { 1 } else { ctx.rng.range(1, 3) };
    for round in 0..rounds {
        if round > 0 && ctx.rng.chance(1, 2) {
            // mutate in between: the reordered graph is a graph like any other
            for _ in 0..ctx.rng.below(10) {
                step(ctx, &mut g, &mut m, &u, MIX_ALL, Watch { returns: true, labels: true })
                    .map_err(|e| format!("after reordering: {}", e))?;
            }
        }
        let b = note(&g);
        let old_max = g.max_seen_id();
        let with = ctx.rng.chance(1, 3);
        let (rn, rl, re);
        let fwd: BTreeMap<usize, usize>;
        let h: G<Id, NL, EL, Ty, L>;
        if with {
            // explicit complete maps in a random order
            let mut ids: Vec<Id> = m.nodes.keys().map(|i| Id::new(*i)).collect();
            ctx.rng.shuffle(&mut ids);
            // entries for ids that are not in the graph must not disturb
            let nm: Option<SetMap<Id>> = if ctx.rng.chance(2, 3) { Some(ids.iter().cloned().collect()) } else { None };
            let mut li: Vec<L> = (0..b.ntab.len()).map(L::new).collect();
            ctx.rng.shuffle(&mut li);
            let mut ei: Vec<L> = (0..b.etab.len()).map(L::new).collect();
            ctx.rng.shuffle(&mut ei);
            let lm: Option<SetMap<L>> = if ctx.rng.chance(1, 2) { Some(li.iter().cloned().collect()) } else { None };
            let em: Option<SetMap<L>> = if ctx.rng.chance(1, 2) { Some(ei.iter().cloned().collect()) } else { None };
            ctx.step(format!("reorder_id_with({:?}, {:?}, {:?})", nm, lm, em));
            rn = nm.is_some();
            rl = lm.is_some();
            re = em.is_some();
            h = if ctx.rng.chance(1, 2) {
                g.reorder_id_with(&nm, &lm, &em)
            } else {
                let v = |x: &Option<SetMap<L>>| x.as_ref().map(|s| VecMap::from(s));
                g.reorder_id_with(&nm.as_ref().map(|s| VecMap::from(s)), &v(&lm), &v(&em))
            };
            fwd = if rn {
                ids.iter().enumerate().map(|(k, i)| (i.id(), k)).collect()
            } else {
                m.nodes.keys().map(|k| (*k, *k)).collect()
            };
            if rl {
                let want: Vec<NL> = li.iter().map(|i| b.ntab[i.id()].clone()).collect();
                ensure_eq!(items(h.get_node_label_map()), want, "node label table reordered by {:?}", li);
            }
            if re {
                let want: Vec<EL> = ei.iter().map(|i| b.etab[i.id()].clone()).collect();
                ensure_eq!(items(h.get_edge_label_map()), want, "edge label table reordered by {:?}", ei);
            }
        } else {
            rn = ctx.rng.chance(2, 3);
            rl = ctx.rng.chance(1, 2);
            re = ctx.rng.chance(1, 2);
            ctx.step(format!("reorder_id({}, {}, {})", rn, rl, re));
            let mut res = g.reorder_id(rn, rl, re);
            ensure_eq!(res.get_node_id_map().is_some(), rn, "is there a node id map");
            if let Some(map) = res.get_node_id_map() {
                ensure_eq!(map.len(), m.nodes.len(), "size of the node id map");
                let old: BTreeSet<usize> = map.items().map(|i| i.id()).collect();
                ensure!(old.iter().eq(m.nodes.keys()), "the node id map lists {:?}", old);
            }
            let mut f = BTreeMap::new();
            for &n in m.nodes.keys() {
                let x = res.find_new_node_id(Id::new(n));
                ensure_eq!(res.get_original_node_id(x).id(), n, "original id of the new id {:?} of node {}", x, n);
                if rn {
                    ensure!(x.id() < m.nodes.len(), "new id {:?} of node {} is not below {}", x, n, m.nodes.len());
                } else {
                    ensure_eq!(x.id(), n, "new id of node {} although ids were not reordered", n);
                }
                f.insert(n, x.id());
            }
            if rn {
                for k in 0..m.nodes.len() {
                    let o = res.get_original_node_id(Id::new(k));
                    ensure_eq!(res.find_new_node_id(o).id(), k, "new id of the original id {:?} of {}", o, k);
                }
                let mut by_new: Vec<(usize, usize)> = f.iter().map(|(o, n)| (*n, *o)).collect();
                by_new.sort();
                ensure!(by_new.iter().enumerate().all(|(i, x)| i == x.0), "new ids are not 0..n-1: {:?}", by_new);
                let (o, i) = (m.out_adj(), m.in_adj());
                let deg: Vec<usize> = by_new.iter().map(|(_, x)| o[x].len() + if m.directed { i[x].len() } else { 0 }).collect();
                ensure!(deg.windows(2).all(|w| w[0] <= w[1]), "total degrees by new id decrease: {:?} of {}", deg, m.brief());
            }
            fwd = f;
            h = match res.take_graph() {
                Some(x) => x,
                None => return Err("the result holds no graph".into()),
            };
            ensure!(res.take_graph().is_none(), "the graph can be taken twice");
        }
        ctx.ev(match (rn, rl, re) {
            (false, false, false) => "reordered nothing",
            (true, false, false) => "reordered nodes",
            (false, true, false) => "reordered node labels",
            (false, false, true) => "reordered edge labels",
            (true, true, false) => "reordered nodes and node labels",
            (true, false, true) => "reordered nodes and edge labels",
            (false, true, true) => "reordered node and edge labels",
            (true, true, true) => "reordered everything",
        });
        let mut r = rename(&m, &|x| fwd[&x]);
        let top = r.nodes.keys().last().cloned();
        let got_max = h.max_seen_id().map(|x| x.id());
        if rn {
            ensure_eq!(got_max, top, "max_seen_id() after reordering {} nodes", m.nodes.len());
        } else {
            // ids are unchanged: the largest id ever added or still present
            ensure!(got_max == top || got_max == old_max.map(|x| x.id()), "max_seen_id() = {:?} after reordering labels only, largest id {:?}", got_max, top);
        }
        r.max_seen = got_max;
        check_graph(ctx, Ty::gm(&h), &r, ALL, got_max, "reordered graph")
            .map_err(|e| e.chars().take(3000).collect::<String>())?;
        if !with {
            if rl {
                by_frequency(&items(h.get_node_label_map()), &m.node_label_counts(), "node")?;
            }
            if re {
                by_frequency(&items(h.get_edge_label_map()), &m.edge_label_counts(), "edge")?;
            }
        }
        if !rl {
            ensure_eq!(items(h.get_node_label_map()), b.ntab, "node label table although not reordered");
            let back: BTreeMap<usize, usize> = fwd.iter().map(|(a, b)| (*b, *a)).collect();
            for n in h.nodes() {
                let old = back.get(&n.get_id().id()).copied();
                ensure_eq!(Some(n.get_label_id()), old.and_then(|o| b.nids.get(&Id::new(o)).cloned()), "label id of node {:?} although labels were not reordered", n.get_id());
            }
        }
        if !re {
            ensure_eq!(items(h.get_edge_label_map()), b.etab, "edge label table although not reordered");
            let back: BTreeMap<usize, usize> = fwd.iter().map(|(a, b)| (*b, *a)).collect();
            for e in h.edges() {
                let k = (Id::new(back[&e.get_start().id()]), Id::new(back[&e.get_target().id()]));
                ensure_eq!(Some(e.get_label_id()), b.eids.get(&k).cloned(), "label id of edge {:?} although labels were not reordered", e);
            }
        }
        if let (true, Some(t)) = (rn, top) {
            // the largest id must drive what follows: converting gives the same graph again
            if m.nodes.len() < 3000 {
                let s = h.clone().into_static();
                check_graph(ctx, Ty::st(&s), &r, MEMBER | COUNT | ADJ | LABEL | MAXID, Some(t), "reordered graph, converted")
                    .map_err(|e| e.chars().take(3000).collect::<String>())?;
                ctx.ev("reordered graphs converted");
            }
        }
        g = h;
        m = r;
    }
    ctx.describe_add(&format!("{} nodes, {} edges", m.nodes.len(), m.edges.len()));
    if !m.edges.is_empty() {
        let k = m.fingerprint();
        ctx.nontrivial(k);
    }
    Ok(())
}

#[allow(unused)]
fn uses<Id: HId, L: HId>(_: &dyn DiGraphTrait<Id, L>) {}

fn run(ctx: &mut Ctx) -> CaseResult {
    let sel = ctx.case;
    dispatch!(sel, case(ctx))
}

fn main() {
    driver::main(CheckDef {
        id: "C07",
        level: "exploration",
        rule: "each case grows a graph through a random history of 0..120 steps (gapped ids up to the top of the id range, removals, self-loops, unused labels), then reorders it one to three times (all eight switch combinations, or explicit random complete maps), with further mutations in between, and compares the result with the abstract graph renamed by the reported mapping: every query, both directions of the mapping, degree order, label frequency order, what was not asked to be reordered, largest id, and the static conversion. Every 1009 cases ten graphs of up to 20000 nodes, half of them with hundreds of labels in use; every 3001 cases graphs with a hub of more than 65535 neighbours. Non-trivial: the graph has an edge; distinct: by content.",
        assumptions: &["explicit maps list every node and every label (reorder_id_with requires it)"],
        quick: 20000,
        thorough: 400000,
        run,
        mem_mb: 4096,
    })
}
