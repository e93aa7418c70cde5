//! C24: many threads read one graph. Built with ThreadSanitizer.
use harness::history::*;
use harness::impls::*;
use harness::traverse::{shaped, verify_order, Adj};
use harness::*;
use rust_graph::algorithm::{graph_minus, graph_union, Bfs, ConnComp, ConnSubgraph, Dfs};
use rust_graph::generic::{EdgeTrait, MapTrait, NodeTrait, NodeType};
use rust_graph::graph_impl::static_graph::EdgeVecTrait;
use rust_graph::graph_impl::{EdgeVec, EdgeVecMmap, StaticGraphMmap, TypedGraphMap, TypedStaticGraph};
use rust_graph::io::csv::write_to_csv;
use rust_graph::io::mmap::TypedMemoryMap;
use rust_graph::io::serde::{Deserializer, Serializer};
use rust_graph::map::{SetMap, VecMap};
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Barrier;

// ---- which types the library lets threads share
struct Probe<T>(PhantomData<T>);
trait Unshared {
    fn shared(&self) -> bool {
        false
    }
}
impl<T> Unshared for &Probe<T> {}
impl<T: Sync> Probe<T> {
    fn shared(&self) -> bool {
        true
    }
}
macro_rules! shareable {
    ($ctx:expr, $($t:ty),* $(,)?) => {$(
        ensure!((&Probe::<$t>(PhantomData)).shared(), "threads cannot share a {} any more: it is not Sync", stringify!($t));
        $ctx.ev("shareable types");
    )*};
}

enum Any<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId> {
    Gm(TypedGraphMap<Id, NL, EL, Ty, L>),
    St(TypedStaticGraph<Id, NL, EL, Ty, L>),
    Mm(StaticGraphMmap<Id, NL, EL, L>),
}
impl<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId> Any<Id, NL, EL, Ty, L> {
    fn dy(&self) -> &DynGraph<'_, Id, NL, EL, L> {
        match self {
            Any::Gm(g) => Ty::gm(g),
            Any::St(g) => Ty::st(g),
            Any::Mm(g) => g,
        }
    }
}

/// Everything the threads share, handed to them whatever the library says about `Sync`.
struct Shared<'a, Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId> {
    graphs: &'a [(Any<Id, NL, EL, Ty, L>, Adj)],
    questions: &'a [(usize, Q)],
    expected: &'a [u64],
    ticket: AtomicUsize,
    answering: AtomicUsize,
    barrier: Barrier,
    sched: Vec<AtomicU64>,
}
unsafe impl<'a, Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId> Sync for Shared<'a, Id, NL, EL, Ty, L> {}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Q {
    HasNode(usize),
    Node(usize),
    NodeLabel(usize),
    Degree(usize),
    Neighbours(usize),
    NeighboursIter(usize),
    InDegree(usize),
    InNeighbours(usize),
    NodeView(usize),
    HasEdge(usize, usize),
    Edge(usize, usize),
    EdgeLabel(usize, usize),
    Position(usize, usize),
    Counts,
    NodeIndices,
    EdgeIndices,
    Nodes,
    Edges,
    Tables,
    Histograms,
    Bfs(Option<usize>),
    Dfs(Option<usize>),
    Components,
    Subgraphs,
    Same,
    HashOf,
    Copy,
    Union,
    Minus,
    Csv,
    Store,
    Interleaved,
    OneByOne,
}

fn ids_of<Id: HId>(it: impl Iterator<Item = Id>) -> Vec<usize> {
    let mut v: Vec<usize> = it.take(1 << 20).map(|x| x.id()).collect();
    v.sort_unstable();
    v
}

fn content<Id: HId, NL: HLabel, EL: HLabel, L: HId>(g: &DynGraph<'_, Id, NL, EL, L>) -> String {
    let mut n: Vec<(usize, Option<NL>)> = g.node_indices().take(1 << 20).map(|i| (i.id(), g.get_node_label(i).cloned())).collect();
    n.sort();
    let norm = |a: usize, b: usize| if g.is_directed() || a <= b { (a, b) } else { (b, a) };
    let mut e: Vec<((usize, usize), Option<EL>)> = g.edge_indices().take(1 << 20).map(|(a, b)| (norm(a.id(), b.id()), g.get_edge_label(a, b).cloned())).collect();
    e.sort();
    format!("{} {:?} {:?}", g.is_directed(), n, e)
}

/// Readings of two graphs that are open at the same time: taken step by step in turns, or one after the other.
fn open_readings<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(a: &Any<Id, NL, EL, Ty, L>, other: &Any<Id, NL, EL, Ty, L>, turns: bool) -> Vec<Vec<String>> {
    let mut open: Vec<(bool, Box<dyn Iterator<Item = String> + '_>)> = Vec::new();
    for g in [a.dy(), other.dy(), a.dy()] {
        let norm = move |x: usize, y: usize| if g.is_directed() || x <= y { (x, y) } else { (y, x) };
        open.push((true, Box::new(g.edge_indices().map(move |(x, y)| format!("{:?}", norm(x.id(), y.id()))))));
        open.push((true, Box::new(g.node_indices().map(|x| x.id().to_string()))));
        open.push((true, Box::new(g.edges().map(move |e| format!("{:?} {:?}", norm(e.get_start().id(), e.get_target().id()), e.get_label_id().map(|l| l.id()))))));
        open.push((true, Box::new(g.nodes().map(|n| format!("{} {:?}", n.get_id().id(), n.get_label_id().map(|l| l.id()))))));
        open.push((false, Box::new(g.node_labels().map(|l| format!("{:?}", l)))));
        open.push((false, Box::new(g.edge_labels().map(|l| format!("{:?}", l)))));
        let mut ids: Vec<Id> = g.node_indices().take(1 << 20).collect();
        ids.sort();
        for x in ids.into_iter().take(3) {
            open.push((false, Box::new(g.neighbors_iter(x).map(|y| y.id().to_string()))));
            if let Some(d) = g.as_digraph() {
                open.push((false, Box::new(d.in_neighbors_iter(x).map(|y| y.id().to_string()))));
            }
        }
    }
    let mut got: Vec<Vec<String>> = open.iter().map(|_| Vec::new()).collect();
    if turns {
        let mut live = true;
        while live {
            live = false;
            for (i, (_, it)) in open.iter_mut().enumerate() {
                if got[i].len() < 1 << 16 {
                    if let Some(x) = it.next() {
                        got[i].push(x);
                        live = true;
                    }
                }
            }
        }
    } else {
        for (i, (_, it)) in open.iter_mut().enumerate() {
            got[i].extend(it.take(1 << 16));
        }
    }
    for (i, (sort, _)) in open.iter().enumerate() {
        if *sort {
            got[i].sort();
        }
    }
    got
}

/// One question, answered in a form that does not depend on unspecified orders.
fn ask<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(a: &Any<Id, NL, EL, Ty, L>, adj: &Adj, other: &Any<Id, NL, EL, Ty, L>, q: Q, path: &str) -> String {
    let g = a.dy();
    let id = Id::new;
    let lab = |l: Option<L>| l.map(|l| g.get_node_label_map().get_item(l.id()).cloned());
    let elab = |l: Option<L>| l.map(|l| g.get_edge_label_map().get_item(l.id()).cloned());
    match q {
        Q::HasNode(i) => g.has_node(id(i)).to_string(),
        Q::Node(i) => {
            let n = g.get_node(id(i));
            if n.is_none() {
                "none".into()
            } else {
                format!("{} {:?}", n.get_id().id(), lab(n.get_label_id()))
            }
        }
        Q::NodeLabel(i) => format!("{:?}", g.get_node_label(id(i))),
        Q::Degree(i) => g.degree(id(i)).to_string(),
        Q::Neighbours(i) => format!("{:?}", g.neighbors(id(i))),
        Q::NeighboursIter(i) => format!("{:?}", g.neighbors_iter(id(i)).take(1 << 20).collect::<Vec<_>>()),
        Q::InDegree(i) => format!("{:?}", g.as_digraph().map(|d| d.in_degree(id(i)))),
        Q::InNeighbours(i) => format!("{:?}", g.as_digraph().map(|d| (d.in_neighbors(id(i)).into_owned(), d.in_neighbors_iter(id(i)).take(1 << 20).collect::<Vec<_>>()))),
        Q::NodeView(i) => match g.get_node(id(i)) {
            NodeType::NodeMap(n) => {
                use rust_graph::generic::NodeMapTrait;
                format!(
                    "{} {:?} {:?} {:?} {} {:?}",
                    n.degree(),
                    n.neighbors(),
                    n.neighbors_iter_full().map(|e| (e.get_target().id(), elab(e.get_label_id()))).collect::<Vec<_>>(),
                    n.non_less_neighbors_iter().collect::<Vec<_>>(),
                    n.in_degree(),
                    n.in_neighbors()
                )
            }
            n => format!("{:?}", n.is_some()),
        },
        Q::HasEdge(i, j) => g.has_edge(id(i), id(j)).to_string(),
        Q::Edge(i, j) => {
            let e = g.get_edge(id(i), id(j));
            if e.is_none() {
                "none".into()
            } else {
                format!("{} {} {:?}", e.get_start().id(), e.get_target().id(), elab(e.get_label_id()))
            }
        }
        Q::EdgeLabel(i, j) => format!("{:?}", g.get_edge_label(id(i), id(j))),
        Q::Position(i, j) => match a {
            Any::St(s) => format!("{:?} {:?}", s.find_edge_index(id(i), id(j)), s.get_edge_vec().find_edge_label_id(id(i), id(j))),
            Any::Mm(s) => format!("{:?}", s.inner_neighbors(id(i))),
            _ => String::new(),
        },
        Q::Counts => format!("{} {} {:?} {} {:?}", g.node_count(), g.edge_count(), g.max_seen_id().map(|x| x.id()), g.is_directed(), g.max_possible_id()),
        Q::NodeIndices => format!("{:?}", ids_of(g.node_indices())),
        Q::EdgeIndices => {
            let mut v: Vec<(usize, usize)> = g.edge_indices().take(1 << 20).map(|(a, b)| (a.id(), b.id())).collect();
            v.sort_unstable();
            format!("{:?}", v)
        }
        Q::Nodes => {
            let mut v: Vec<(usize, Option<Option<NL>>)> = g.nodes().take(1 << 20).map(|n| (n.get_id().id(), lab(n.get_label_id()))).collect();
            v.sort();
            format!("{:?}", v)
        }
        Q::Edges => {
            let mut v: Vec<(usize, usize, Option<Option<EL>>)> = g.edges().take(1 << 20).map(|e| (e.get_start().id(), e.get_target().id(), elab(e.get_label_id()))).collect();
            v.sort();
            format!("{:?}", v)
        }
        Q::Tables => {
            let (n, e) = (g.get_node_label_map(), g.get_edge_label_map());
            let nl: Vec<&NL> = g.node_labels().take(1 << 20).collect();
            let el: Vec<&EL> = g.edge_labels().take(1 << 20).collect();
            let np: Vec<Option<usize>> = nl.iter().map(|l| n.find_index(l)).collect();
            let ep: Vec<Option<usize>> = el.iter().map(|l| e.find_index(l)).collect();
            format!("{:?} {:?} {:?} {:?} {} {} {} {}", nl, el, np, ep, g.num_of_node_labels(), g.num_of_edge_labels(), g.has_node_labels(), g.has_edge_labels())
        }
        Q::Histograms => {
            let a: BTreeMap<NL, usize> = g.get_node_label_counter().most_common().into_iter().filter(|x| x.1 > 0).map(|(l, c)| (l.clone(), c)).collect();
            let b: BTreeMap<EL, usize> = g.get_edge_label_counter().most_common().into_iter().filter(|x| x.1 > 0).map(|(l, c)| (l.clone(), c)).collect();
            let c: BTreeMap<usize, usize> = g.get_node_label_id_counter().most_common().into_iter().filter(|x| x.1 > 0).map(|(l, c)| (l.id(), c)).collect();
            let d: BTreeMap<usize, usize> = g.get_edge_label_id_counter().most_common().into_iter().filter(|x| x.1 > 0).map(|(l, c)| (l.id(), c)).collect();
            format!("{:?} {:?} {:?} {:?}", a, b, c, d)
        }
        Q::Bfs(s) => {
            let s1 = s.map(id);
            let v: Vec<usize> = match a {
                Any::Gm(g) => Ty::bfs_gm(g, s1).take(1 << 20).map(|x| x.id()).collect(),
                Any::St(g) => Ty::bfs_st(g, s1).take(1 << 20).map(|x| x.id()).collect(),
                Any::Mm(g) => Bfs::new(g, s1).take(1 << 20).map(|x| x.id()).collect(),
            };
            format!("{:?}", verify_order(adj, &v, s, true).map(|_| ()))
        }
        Q::Dfs(s) => {
            let s1 = model::DfsStart::New(s.map(id));
            let v: Vec<usize> = match a {
                Any::Gm(g) => Ty::dfs_gm(g, s1).take(1 << 20).map(|x| x.id()).collect(),
                Any::St(g) => Ty::dfs_st(g, s1).take(1 << 20).map(|x| x.id()).collect(),
                Any::Mm(g) => Dfs::new(g, s.map(id)).take(1 << 20).map(|x| x.id()).collect(),
            };
            format!("{:?}", verify_order(adj, &v, s, false).map(|_| ()))
        }
        Q::Components => {
            let c = ConnComp::new(g);
            let mut parts: Vec<Vec<usize>> = adj.keys().map(|i| c.get_connected_nodes(id(*i)).map(|v| ids_of(v.into_iter())).unwrap_or_default()).collect();
            parts.sort();
            parts.dedup();
            format!("{} {:?}", c.get_count(), parts)
        }
        Q::Subgraphs => {
            let mut v: Vec<String> = ConnSubgraph::new(g).into_result().iter().map(|p| content(p.as_ref())).collect();
            v.sort();
            format!("{:?}", v)
        }
        Q::Same => {
            let e = match (a, other) {
                (Any::Gm(a), Any::Gm(b)) => format!("{} {}", a == a, a == b),
                (Any::St(a), Any::St(b)) => format!("{} {}", a == a, a == b),
                _ => String::new(),
            };
            format!("{} {} {}", e, rust_graph::generic::graph::equal(g, g), rust_graph::generic::graph::equal(g, other.dy()))
        }
        Q::HashOf => {
            let mut h = DefaultHasher::new();
            match a {
                Any::Gm(g) => g.hash(&mut h),
                Any::St(g) => g.hash(&mut h),
                Any::Mm(_) => {}
            }
            h.finish().to_string()
        }
        Q::Copy => match a {
            Any::Gm(g) => content(Ty::gm(&g.clone())),
            Any::St(g) => content(Ty::st(&g.clone())),
            Any::Mm(_) => String::new(),
        },
        Q::Union => content(graph_union::<Id, NL, EL, L>(g, other.dy()).as_ref()),
        Q::Minus => content(graph_minus::<Id, NL, EL, L>(g, other.dy()).as_ref()),
        Q::Csv => {
            let (n, e) = (format!("{}.n", path), format!("{}.e", path));
            let r = write_to_csv(g, &n, &e).is_ok();
            let mut b = std::fs::read(&n).unwrap_or_default();
            b.sort_unstable();
            let mut c = std::fs::read(&e).unwrap_or_default();
            c.sort_unstable();
            format!("{} {} {}", r, rng::fnv(&b), rng::fnv(&c))
        }
        Q::Interleaved => format!("{:?}", open_readings(a, other, true)),
        Q::OneByOne => format!("{:?}", open_readings(a, other, false)),
        Q::Store => match a {
            Any::Gm(g) => {
                let p = format!("{}.bin", path);
                Serializer::export(g, &p).unwrap();
                let r: TypedGraphMap<Id, NL, EL, Ty, L> = Deserializer::import(&p).unwrap();
                content(Ty::gm(&r))
            }
            Any::St(g) => {
                let p = format!("{}.map", path);
                g.dump_mmap(&p).unwrap();
                let r: StaticGraphMmap<Id, NL, EL, L> = StaticGraphMmap::new(&p);
                content(&r)
            }
            Any::Mm(_) => String::new(),
        },
    }
}

fn answer<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(graphs: &[(Any<Id, NL, EL, Ty, L>, Adj)], w: usize, q: Q, path: &str) -> String {
    let (a, adj) = &graphs[w];
    let other = &graphs[(w + 1) % graphs.len()].0;
    guarded(|| ask(a, adj, other, q, path)).unwrap_or_else(|_| "refused".into())
}

fn build<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx, imp: usize, m: &Model<NL, EL>) -> (Any<Id, NL, EL, Ty, L>, Adj) {
    let a = match imp {
        0 => Any::Gm(m.to_graphmap(&mut ctx.rng)),
        1 => Any::St(static_of(&mut ctx.rng, m)),
        _ => {
            let g = static_of::<Id, NL, EL, Ty, L>(&mut ctx.rng, m);
            let p = ctx.path("shared");
            g.dump_mmap(&p).expect("dump_mmap failed");
            let r = StaticGraphMmap::new(&p);
            ctx.clean_scratch();
            Any::Mm(r)
        }
    };
    (a, m.out_adj())
}

fn case<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    ctx.clean_scratch();
    let imp = (ctx.case / 10 % 3) as usize;
    let lim = Id::max_usize().min(6_000);
    let mut models = Vec::new();
    for _ in 0..2 {
        let u = universe::<NL, EL>(&mut ctx.rng, lim, L::max_usize(), imp > 0);
        let m: Model<NL, EL> = if ctx.rng.chance(1, 12) {
            big_model(&mut ctx.rng, Ty::DIRECTED, 70.min(lim + 1), &u)
        } else if ctx.rng.chance(1, 20) {
            Model::new(Ty::DIRECTED)
        } else {
            shaped(&mut ctx.rng, Ty::DIRECTED, &u.ids, &u)
        };
        models.push(if imp > 0 { densify(&m) } else { m });
    }
    let name = ["GraphMap", "StaticGraph", "StaticGraphMmap"][imp];
    ctx.describe(format!("{} {}/{}: {} | {}", name, Id::NAME, L::NAME, models[0].brief(), models[1].brief()));
    // the same graphs twice: one set answers alone, the other is first read by many threads at once
    let r0 = ctx.rng.clone();
    let alone: Vec<_> = models.iter().map(|m| build::<Id, NL, EL, Ty, L>(ctx, imp, m)).collect();
    ctx.rng = r0;
    let many: Vec<_> = models.iter().map(|m| build::<Id, NL, EL, Ty, L>(ctx, imp, m)).collect();

    let mut qs: Vec<(usize, Q)> = Vec::new();
    for (w, m) in models.iter().enumerate() {
        let mut ids: Vec<usize> = m.nodes.keys().copied().collect();
        ctx.rng.shuffle(&mut ids);
        ids.truncate(6);
        ids.push(Id::max_usize());
        ids.push(ctx.rng.below(lim + 1));
        for &i in &ids {
            qs.extend([Q::HasNode(i), Q::Node(i), Q::NodeLabel(i), Q::Degree(i), Q::Neighbours(i), Q::NeighboursIter(i), Q::InDegree(i), Q::InNeighbours(i), Q::NodeView(i)].iter().map(|q| (w, *q)));
            for &j in ids.iter().take(4) {
                qs.extend([Q::HasEdge(i, j), Q::Edge(i, j), Q::EdgeLabel(i, j), Q::Position(i, j)].iter().map(|q| (w, *q)));
            }
        }
        let mut es: Vec<(usize, usize)> = m.edges.keys().copied().collect();
        ctx.rng.shuffle(&mut es);
        for &(i, j) in es.iter().take(6) {
            qs.extend([Q::HasEdge(j, i), Q::Edge(i, j), Q::EdgeLabel(i, j), Q::EdgeLabel(j, i), Q::Position(i, j)].iter().map(|q| (w, *q)));
        }
        qs.extend([Q::Counts, Q::NodeIndices, Q::EdgeIndices, Q::Nodes, Q::Edges, Q::Tables, Q::Histograms, Q::Components, Q::Subgraphs, Q::Same, Q::HashOf, Q::Copy, Q::Union, Q::Minus, Q::Csv, Q::Store, Q::OneByOne, Q::Interleaved].iter().map(|q| (w, *q)));
        if !m.nodes.is_empty() {
            qs.extend([Q::Bfs(None), Q::Dfs(None), Q::Bfs(Some(*m.nodes.keys().next().unwrap())), Q::Dfs(Some(*m.nodes.keys().last().unwrap())), Q::Bfs(Some(lim)), Q::Dfs(Some(lim))].iter().map(|q| (w, *q)));
        }
    }
    let path = ctx.path("alone");
    let first: Vec<String> = qs.iter().map(|&(w, q)| answer(&alone, w, q, &path)).collect();
    for (k, &(w, q)) in qs.iter().enumerate() {
        let again = answer(&alone, w, q, &path);
        ensure!(again == first[k], "{}: {:?} asked again of an untouched graph is {}, it was {}", name, q, again, first[k]);
        if let Q::Bfs(_) | Q::Dfs(_) = q {
            ensure!(!first[k].starts_with("Err"), "{}: {:?}: {}", name, q, first[k]);
        }
    }
    for (k, &(_, q)) in qs.iter().enumerate() {
        if q == Q::Interleaved {
            ensure!(first[k] == first[k - 1], "{}: readings taken in turns give {}, one after the other {}", name, first[k], first[k - 1]);
            ctx.ev("interleaved readings compared");
        }
    }
    let expected: Vec<u64> = first.iter().map(|s| rng::fnv(s.as_bytes())).collect();

    let threads = ctx.rng.range(2, 9);
    let rounds = ctx.rng.range(1, 4);
    let focus = ctx.rng.chance(1, 3);
    let hot: Vec<usize> = (0..8).map(|_| ctx.rng.below(qs.len())).collect();
    let sh = Shared {
        graphs: &many,
        questions: &qs,
        expected: &expected,
        ticket: AtomicUsize::new(0),
        answering: AtomicUsize::new(0),
        barrier: Barrier::new(threads),
        sched: (0..4096).map(|_| AtomicU64::new(0)).collect(),
    };
    let seeds: Vec<u64> = (0..threads).map(|_| ctx.rng.next()).collect();
    let scratch = ctx.path("t");
    let hot = &hot;
    let results: Vec<(usize, [usize; 10], Option<(usize, String)>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (sh, seed, path) = (&sh, seeds[t], format!("{}{}", scratch, t));
                s.spawn(move || {
                    let sh: &Shared<Id, NL, EL, Ty, L> = sh;
                    let mut rng = Rng::new(seed);
                    let mut order: Vec<usize> = (0..sh.questions.len()).collect();
                    let mut asked = 0;
                    let mut together = [0usize; 10];
                    sh.barrier.wait();
                    for r in 0..rounds {
                        if focus && r == 0 {
                            // everybody asks the same few things first
                            order = hot.iter().cycle().take(40).copied().collect();
                        } else {
                            order = (0..sh.questions.len()).collect();
                        }
                        rng.shuffle(&mut order);
                        for &k in &order {
                            let (w, q) = sh.questions[k];
                            if rng.chance(1, 16) {
                                std::thread::yield_now();
                            }
                            let tk = sh.ticket.fetch_add(1, Relaxed);
                            if tk < sh.sched.len() {
                                sh.sched[tk].store(t as u64 + 1, Relaxed);
                            }
                            let others = sh.answering.fetch_add(1, Relaxed);
                            let a = answer(sh.graphs, w, q, &path);
                            sh.answering.fetch_sub(1, Relaxed);
                            together[others.min(9)] += 1;
                            asked += 1;
                            if rng::fnv(a.as_bytes()) != sh.expected[k] {
                                return (asked, together, Some((k, a)));
                            }
                        }
                    }
                    let _ = order.pop();
                    (asked, together, None)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("a reading thread died")).collect()
    });
    for (t, (asked, together, bad)) in results.iter().enumerate() {
        ctx.evn("answers given to threads", *asked);
        ctx.evn("answers given while another thread was being answered", together[1..].iter().sum());
        ctx.evn("answers given while 3 or more others were being answered", together[3..].iter().sum());
        if let Some((k, a)) = bad {
            return Err(format!("{}: thread {} of {} was told {} = {}, alone it is {}", name, t, threads, format!("{:?}", qs[*k]), a, first[*k]));
        }
    }
    for (k, &(w, q)) in qs.iter().enumerate() {
        let again = answer(&many, w, q, &path);
        ensure!(again == first[k], "{}: after {} threads had read, {:?} is {}, alone it is {}", name, threads, q, again, first[k]);
    }
    ctx.evn("threads", threads);
    let refused = first.iter().filter(|a| *a == "refused").count();
    ctx.evn("refused questions", refused);
    let n = sh.ticket.load(Relaxed).min(sh.sched.len());
    let order: Vec<u8> = sh.sched[..n].iter().map(|x| x.load(Relaxed) as u8).collect();
    let switches = order.windows(2).filter(|w| w[0] != w[1]).count();
    ctx.evn("switches between threads in the recorded schedules", switches);
    if switches > threads {
        ctx.nontrivial(rng::fnv(&order) ^ models[0].fingerprint());
    }
    ctx.clean_scratch();
    Ok(())
}

fn run(ctx: &mut Ctx) -> CaseResult {
    if ctx.case < 8 {
        use rust_graph::prelude::{Directed, Undirected};
        shareable!(
            ctx,
            TypedGraphMap<u32, String, String, Directed, u32>,
            TypedGraphMap<u32, String, String, Undirected, u32>,
            TypedGraphMap<usize, u8, u32, Undirected, u8>,
            TypedStaticGraph<u32, String, String, Directed, u32>,
            TypedStaticGraph<u32, String, String, Undirected, u32>,
            TypedStaticGraph<u8, u8, u32, Undirected, u8>,
            StaticGraphMmap<u32, String, String, u32>,
            StaticGraphMmap<u8, u8, u8, u8>,
            EdgeVec<u32, u32>,
            EdgeVecMmap<u32, u32>,
            TypedMemoryMap<u32>,
            SetMap<String>,
            VecMap<String>,
        );
    }
    let sel = ctx.case;
    dispatch!(sel, case(ctx))
}

fn main() {
    driver::main(CheckDef {
        id: "C24",
        level: "exploration",
        rule: "the harness, the library and the standard library are compiled with ThreadSanitizer. Each case builds two graphs (hash-map, static or memory-mapped; labelled; empty to 70 nodes) twice; one pair answers a list of up to 300 questions (membership, lookups, labels, adjacency, enumerations, tables, histograms, traversals, components, subgraphs, equality, hash, copies, union, difference, CSV writing, storing, enumerations of two graphs open at once and advanced in turns) alone and twice; the other, never read before, is read by 2 to 8 threads at once, starting together, each asking everything in its own order for up to 3 rounds; every answer must be the one given alone, also afterwards; a reported race ends the process and is a violation. The types must be shareable between threads. Non-trivial: the recorded schedule switches threads more often than there are threads; distinct by schedule and content.",
        assumptions: &["answers compared where the order is specified, sorted where it is not"],
        quick: 1200,
        thorough: 20000,
        run,
        mem_mb: 0,
    })
}
