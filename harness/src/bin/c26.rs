//! C26: the integer widths do not show.
use harness::history::*;
use harness::impls::*;
use harness::model::DfsStart;
use harness::observe::*;
use harness::traverse::{shaped, verify_order};
use harness::*;
use rust_graph::algorithm::{graph_minus, graph_union, Bfs, ConnComp, ConnSubgraph, Dfs};
use rust_graph::generic::{Directed, EdgeTrait, GraphLabelTrait, GraphTrait, IdType, MapTrait, MutGraphTrait, NodeTrait, Undirected};
use rust_graph::graph_impl::static_graph::EdgeVecTrait;
use rust_graph::graph_impl::{StaticGraphMmap, TypedGraphMap};
use rust_graph::io::csv::{write_to_csv, CSVReader};
use rust_graph::io::serde::{Deserializer, Serializer};
use std::collections::{BTreeMap, BTreeSet};

fn cut(e: String) -> String {
    e.chars().take(3000).collect()
}

type Digest = Vec<(&'static str, String)>;

/// Everything observable, ids brought back by `back`.
fn observe<Id: HId, NL: HLabel, EL: HLabel, L: HId>(g: &DynGraph<'_, Id, NL, EL, L>, back: &dyn Fn(usize) -> usize, d: &mut Digest) {
    let b = |i: Id| back(i.id());
    let norm = |x: usize, y: usize| if g.is_directed() || x <= y { (x, y) } else { (y, x) };
    d.push(("counts", format!("{} {} {:?} {}", g.node_count(), g.edge_count(), g.max_seen_id().map(b), g.is_directed())));
    let nt = g.get_node_label_map();
    let et = g.get_edge_label_map();
    d.push(("label tables", format!("{:?} {:?}", nt.items().collect::<Vec<_>>(), et.items().collect::<Vec<_>>())));
    let mut n: Vec<_> = g.nodes().take(1 << 20).map(|x| (b(x.get_id()), x.get_label_id().map(|l| l.id()), g.get_node_label(x.get_id()).cloned())).collect();
    n.sort();
    d.push(("nodes", format!("{:?}", n)));
    let mut e: Vec<_> = g
        .edges()
        .take(1 << 20)
        .map(|x| {
            let (s, t) = (x.get_start(), x.get_target());
            (norm(b(s), b(t)), x.get_label_id().map(|l| l.id()), g.get_edge_label(s, t).cloned(), g.get_edge(s, t).get_label_id().map(|l| l.id()))
        })
        .collect();
    e.sort();
    d.push(("edges", format!("{:?}", e)));
    let mut i: Vec<Id> = g.node_indices().take(1 << 20).collect();
    i.sort();
    d.push(("node ids", format!("{:?}", i.iter().map(|x| b(*x)).collect::<Vec<_>>())));
    let mut k: Vec<_> = g.edge_indices().take(1 << 20).map(|(x, y)| norm(b(x), b(y))).collect();
    k.sort_unstable();
    d.push(("edge ids", format!("{:?}", k)));
    let adj: Vec<_> = i
        .iter()
        .map(|x| {
            let inn = g.as_digraph().map(|d| (d.in_degree(*x), d.in_neighbors(*x).iter().map(|y| b(*y)).collect::<Vec<_>>()));
            (g.degree(*x), g.neighbors(*x).iter().map(|y| b(*y)).collect::<Vec<_>>(), g.neighbors_iter(*x).map(b).collect::<Vec<_>>(), inn)
        })
        .collect();
    d.push(("adjacency", format!("{:?}", adj)));
    let m: Vec<(bool, bool)> = if i.len() <= 50 {
        i.iter().flat_map(|x| i.iter().map(move |y| (x, y))).map(|(x, y)| (g.has_edge(*x, *y), g.get_edge(*x, *y).is_some())).collect()
    } else {
        Vec::new()
    };
    d.push(("edge tests", format!("{:?}", m)));
    let h: (BTreeMap<NL, usize>, BTreeMap<EL, usize>, BTreeMap<usize, usize>, BTreeMap<usize, usize>) = (
        g.get_node_label_counter().most_common().into_iter().map(|(l, c)| (l.clone(), c)).collect(),
        g.get_edge_label_counter().most_common().into_iter().map(|(l, c)| (l.clone(), c)).collect(),
        g.get_node_label_id_counter().most_common().into_iter().map(|(l, c)| (l.id(), c)).collect(),
        g.get_edge_label_id_counter().most_common().into_iter().map(|(l, c)| (l.id(), c)).collect(),
    );
    d.push(("histograms", format!("{:?}", h)));
    let cc = ConnComp::new(g);
    let mut parts: Vec<Vec<usize>> = Vec::new();
    let mut seen = BTreeSet::new();
    if i.len() > 1000 {
        let mut by: BTreeMap<Option<Id>, Vec<usize>> = BTreeMap::new();
        for x in &i {
            by.entry(cc.get_root(*x)).or_default().push(b(*x));
        }
        parts = by.into_values().collect();
    }
    for x in i.iter().take(if i.len() > 1000 { 0 } else { i.len() }) {
        if seen.contains(x) {
            continue;
        }
        let c = cc.get_connected_nodes(*x).unwrap_or_default();
        seen.extend(c.iter().cloned());
        let mut p: Vec<usize> = c.into_iter().map(b).collect();
        p.sort_unstable();
        parts.push(p);
    }
    parts.sort();
    d.push(("components", format!("{} {:?}", cc.get_count(), parts)));
    if i.len() <= 300 {
        let mut s: Vec<(Vec<usize>, usize)> = ConnSubgraph::new(g)
            .into_result()
            .iter()
            .map(|p| {
                let mut v: Vec<usize> = p.node_indices().map(b).collect();
                v.sort_unstable();
                (v, p.edge_count())
            })
            .collect();
        s.sort();
        d.push(("subgraphs", format!("{:?}", s)));
        let u = graph_union::<Id, NL, EL, L>(g, g);
        d.push(("union with itself", format!("{} {}", u.node_count(), u.edge_count())));
        let u = graph_minus::<Id, NL, EL, L>(g, g);
        d.push(("difference from itself", format!("{} {}", u.node_count(), u.edge_count())));
    }
}

/// The graph, its conversions and what becomes of it, at one width.
fn everything<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(
    ctx: &mut Ctx,
    g: TypedGraphMap<Id, NL, EL, Ty, L>,
    m: &Model<NL, EL>,
    back: &dyn Fn(usize) -> usize,
    here: &dyn Fn(usize) -> usize,
) -> Result<Digest, String> {
    let mut d: Digest = Vec::new();
    observe(Ty::gm(&g), back, &mut d);
    let small = m.nodes.keys().last().map_or(true, |x| here(*x) <= 100_000);
    let adj: traverse::Adj = m.out_adj().into_iter().map(|(k, v)| (here(k), v.into_iter().map(here).collect())).collect();
    let first = m.nodes.keys().next().map(|x| here(*x));
    if small && first.is_some() {
        for s in [None, first] {
            let v: Vec<usize> = Ty::bfs_gm(&g, s.map(Id::new)).take(1 << 20).map(|x| x.id()).collect();
            d.push(("breadth-first search", format!("{:?}", verify_order(&adj, &v, s, true).map(|_| ()))));
            let v: Vec<usize> = Ty::dfs_gm(&g, DfsStart::New(s.map(Id::new))).take(1 << 20).map(|x| x.id()).collect();
            d.push(("depth-first search", format!("{:?}", verify_order(&adj, &v, s, false).map(|_| ()))));
        }
    }
    // stored and read back
    let p = ctx.path("w.bin");
    Serializer::export(&g, &p).map_err(|e| format!("export: {}", e))?;
    let r: TypedGraphMap<Id, NL, EL, Ty, L> = Deserializer::import(&p).map_err(|e| format!("import: {}", e))?;
    d.push(("import equals", format!("{}", r == g)));
    let (pn, pe) = (ctx.path("w.n"), ctx.path("w.e"));
    write_to_csv(Ty::gm(&g), &pn, &pe).map_err(|e| format!("write_to_csv: {}", e))?;
    let mut r: TypedGraphMap<Id, NL, EL, Ty, L> = TypedGraphMap::new();
    CSVReader::new(Some(&pn), &pe).read(&mut r).map_err(|e| format!("CSVReader::read: {}", e))?;
    let mut x = Vec::new();
    observe(Ty::gm(&r), back, &mut x);
    d.extend(x.into_iter().filter(|(k, _)| ["counts", "adjacency", "components", "edge tests", "node ids"].contains(k)).map(|(k, v)| (k, format!("from CSV: {}", v))));
    // static forms
    if small && m.dense() {
        let copy = g.clone();
        let st = copy.into_static();
        observe(Ty::st(&st), back, &mut d);
        let top = m.nodes.keys().last().map(|x| here(*x));
        check_graph(ctx, Ty::st(&st), m, LABEL | ADJ, top, "static form").map_err(cut)?;
        let ev = st.get_edge_vec();
        d.push(("arrays", format!("{:?} {:?}", ev.get_offsets(), ev.get_edges().iter().map(|x| x.id()).collect::<Vec<_>>())));
        let pm = ctx.path("w.map");
        st.dump_mmap(&pm).map_err(|e| format!("dump_mmap: {}", e))?;
        let mm: StaticGraphMmap<Id, NL, EL, L> = StaticGraphMmap::new(&pm);
        observe(&mm, back, &mut d);
        check_graph(ctx, &mm, m, LABEL | ADJ, top, "mapped form").map_err(cut)?;
        if first.is_some() {
            for s in [None, first] {
                let v: Vec<usize> = Ty::bfs_st(&st, s.map(Id::new)).take(1 << 20).map(|x| x.id()).collect();
                d.push(("static breadth-first search", format!("{:?}", verify_order(&adj, &v, s, true).map(|_| ()))));
                let v: Vec<usize> = Dfs::new(&mm, s.map(Id::new)).take(1 << 20).map(|x| x.id()).collect();
                d.push(("mapped depth-first search", format!("{:?}", verify_order(&adj, &v, s, false).map(|_| ()))));
                let v: Vec<usize> = Bfs::new(&mm, s.map(Id::new)).take(1 << 20).map(|x| x.id()).collect();
                d.push(("mapped breadth-first search", format!("{:?}", verify_order(&adj, &v, s, true).map(|_| ()))));
            }
        }
        d.push(("static equality", format!("{} {}", st == st.clone(), rust_graph::generic::graph::equal(Ty::st(&st), &mm as &DynGraph<'_, Id, NL, EL, L>))));
        ctx.clean_scratch();
    }
    // reordered; ties may fall either way
    let mut res = g.reorder_id(true, true, true);
    let map: BTreeMap<usize, usize> = m.nodes.keys().map(|k| here(*k)).map(|o| (res.find_new_node_id(Id::new(o)).id(), o)).collect();
    let h = res.take_graph().ok_or("no graph after reordering")?;
    let mut x = Vec::new();
    observe(Ty::gm(&h), &|i| back(*map.get(&i).unwrap_or(&usize::MAX)), &mut x);
    let total = |i: Id| h.degree(i) + Ty::gm(&h).as_digraph().map_or(0, |d| d.in_degree(i));
    let degs: Vec<usize> = (0..h.node_count()).map(|i| total(Id::new(i))).collect();
    d.push(("degrees by new id", format!("{:?}", degs)));
    let mut c: Vec<(usize, usize)> = Ty::gm(&h).get_node_label_id_counter().most_common().into_iter().map(|(l, c)| (l.id(), c)).collect();
    c.sort_unstable();
    d.push(("node label usage by new label id", format!("{:?}", c)));
    let mut c: Vec<(usize, usize)> = Ty::gm(&h).get_edge_label_id_counter().most_common().into_iter().map(|(l, c)| (l.id(), c)).collect();
    c.sort_unstable();
    d.push(("edge label usage by new label id", format!("{:?}", c)));
    for (k, v) in x {
        if ["node ids", "edge ids", "components"].contains(&k) {
            // enumerated in the order of new ids, so only the set is comparable
            let mut w: Vec<&str> = v.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).collect();
            w.sort_unstable();
            d.push((k, format!("reordered: {:?}", w)));
        }
    }
    Ok(d)
}

fn differ(a: &Digest, b: &Digest, wa: &str, wb: &str) -> CaseResult {
    ensure_eq!(a.iter().map(|x| x.0).collect::<Vec<_>>(), b.iter().map(|x| x.0).collect::<Vec<_>>(), "what was observed");
    for (x, y) in a.iter().zip(b) {
        ensure!(x.1 == y.1, "{}: {} with {} ids and label ids, {} with {}", x.0, x.1, wa, y.1, wb);
    }
    Ok(())
}

/// One history at one pair of widths.
fn replay<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx, u: &Universe, steps: usize, r0: &Rng) -> Result<(Digest, Model<NL, EL>), String> {
    ctx.rng = r0.clone();
    let (mut g, mut m) = start::<Id, NL, EL, Ty, L>(ctx, u);
    for _ in 0..steps {
        // without mutable views: they are visited in an order that may differ between widths
        step(ctx, &mut g, &mut m, u, OpMix { views: 0, ..MIX_ALL }, Watch { returns: true, labels: true })?;
    }
    check_graph(ctx, Ty::gm(&g), &m, ALL & !ABSENT, m.max_seen, "after the history").map_err(cut)?;
    let d = everything(ctx, g, &m, &|x| x, &|x| x)?;
    ctx.ev("widths compared");
    Ok((d, m))
}

fn widths<NL: HLabel, EL: HLabel, Ty: Dir>(ctx: &mut Ctx) -> CaseResult {
    ctx.clean_scratch();
    let dense = ctx.rng.chance(1, 2);
    let mut u = universe::<NL, EL>(&mut ctx.rng, 255, 100, dense);
    // more labels than eight bits number, at the widths that hold them
    let wide = ctx.rng.chance(1, 4);
    u.fill = if wide { ctx.rng.range(230, 300) } else { u.fill.min(80) };
    let steps = *ctx.rng.pick(&[0usize, 3, 10, 30, 60, 120]);
    ctx.describe(format!("{} steps on ids {:?} at nine pairs of widths", steps, u.ids));
    let r0 = ctx.rng.clone();
    macro_rules! at {
        ($i:ty, $l:ty) => {
            replay::<$i, NL, EL, Ty, $l>(ctx, &u, steps, &r0).map_err(|e| format!("{} ids, {} label ids: {}", stringify!($i), stringify!($l), e))?
        };
    }
    let (a, m) = at!(u32, u32);
    let all = if wide {
        ctx.ev("histories with more than 255 labels");
        vec![
            ("usize/usize", at!(usize, usize)),
            ("u8/u16", at!(u8, u16)),
            ("u8/u32", at!(u8, u32)),
            ("u16/u16", at!(u16, u16)),
            ("u16/usize", at!(u16, usize)),
        ]
    } else {
        vec![
            ("u8/u8", at!(u8, u8)),
            ("u16/u8", at!(u16, u8)),
            ("u32/u8", at!(u32, u8)),
            ("usize/usize", at!(usize, usize)),
            ("u8/u16", at!(u8, u16)),
            ("u8/u32", at!(u8, u32)),
            ("u16/u16", at!(u16, u16)),
            ("usize/u8", at!(usize, u8)),
        ]
    };
    for (w, (b, n)) in &all {
        ensure_eq!(&m, n, "harness: the histories diverged at {}", w);
        differ(&a, b, "u32/u32", w)?;
    }
    // the same content with ids that need more than 32 bits, or the very top of them
    let k = m.nodes.len();
    let r: Vec<usize> = m.nodes.keys().copied().collect();
    let rank: BTreeMap<usize, usize> = r.iter().enumerate().map(|(i, n)| (*n, i)).collect();
    let (off, mul) = *ctx.rng.pick(&[(1usize << 32, 1usize), (1 << 32, 1 << 32), (5, 1 << 40), (usize::MAX - 70_000, 256), ((1 << 63) - 100, 7)]);
    let far = |n: usize| off + rank[&n] * mul;
    let unfar = |x: usize| r[x.wrapping_sub(off) / mul];
    let mut g: TypedGraphMap<usize, NL, EL, Ty, u16> = TypedGraphMap::new();
    let mut h: TypedGraphMap<u16, NL, EL, Ty, u16> = TypedGraphMap::new();
    for (n, l) in &m.nodes {
        g.add_node(far(*n), l.clone());
        h.add_node(*n as u16, l.clone());
    }
    for (&(x, y), l) in &m.edges {
        g.add_edge(far(x), far(y), l.clone());
        h.add_edge(x as u16, y as u16, l.clone());
    }
    if k <= 256 {
        // numbers in the digest are sorted as text there, so both sides must use the same names
        let mut d = Vec::new();
        observe(Ty::gm(&g), &unfar, &mut d);
        let mut e = Vec::new();
        observe(Ty::gm(&h), &|x| x, &mut e);
        differ(&d, &e, &format!("usize (from {} by {})", off, mul), "u16")?;
        let far_set: Vec<usize> = r.iter().map(|n| far(*n)).collect();
        for x in &far_set {
            // ids that agree in their low bits only are other ids
            for y in [*x & 0xffff_ffff, *x & 0xffff, x.wrapping_add(1 << 32), x.wrapping_sub(1 << 32), x ^ (1 << 63)] {
                ensure_eq!(g.has_node(y), far_set.contains(&y), "has_node({})", y);
            }
            ctx.ev("ids beyond 32 bits");
        }
    }
    if m.edges.len() >= 2 {
        ctx.nontrivial(m.fingerprint());
    }
    ctx.clean_scratch();
    Ok(())
}

/// Every id of a narrow type in one graph.
fn full<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    ctx.clean_scratch();
    let n = Id::max_usize() + 1;
    let u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize(), L::max_usize(), true);
    ctx.describe(format!("all {} ids of {}, label ids {}, {}", n, Id::NAME, L::NAME, if Ty::DIRECTED { "directed" } else { "undirected" }));
    let mut m: Model<NL, EL> = match ctx.rng.below(3) {
        0 => big_model(&mut ctx.rng, Ty::DIRECTED, n, &u),
        1 if n < 1000 => {
            let ids: Vec<usize> = (0..n).collect();
            shaped(&mut ctx.rng, Ty::DIRECTED, &ids, &u)
        }
        _ => {
            let mut m = Model::new(Ty::DIRECTED);
            for i in 0..n {
                let l = u.nl(&mut ctx.rng);
                m.add_node(i, l);
            }
            for _ in 0..n {
                let (a, b) = (ctx.rng.below(n), ctx.rng.below(n));
                let l = u.el(&mut ctx.rng);
                m.add_edge(a, b, l);
            }
            m
        }
    };
    // the last id takes part
    let top = n - 1;
    for b in [0, top, ctx.rng.below(n)] {
        let (l, k) = (u.el(&mut ctx.rng), u.el(&mut ctx.rng));
        m.add_edge(top, b, l);
        m.add_edge(b, top, k);
    }
    // as many labels as a static graph can hold
    if L::max_usize() <= 255 && NL::MAX > 256 && ctx.rng.chance(1, 2) {
        let used: BTreeSet<NL> = m.node_label_counts().into_keys().collect();
        let mut k = used.len();
        let ids: Vec<usize> = (0..n).collect();
        for (i, x) in ids.iter().enumerate() {
            let l = NL::make(i);
            if k < L::max_usize() && !used.contains(&l) {
                m.nodes.insert(*x, Some(l));
                k += 1;
            }
        }
        while m.node_label_counts().len() > L::max_usize() {
            let x = ctx.rng.below(n);
            m.nodes.insert(x, None);
        }
        ctx.evn("node labels in one graph", m.node_label_counts().len());
    }
    let g = m.to_graphmap::<Id, Ty, L>(&mut ctx.rng);
    let big = n > 1000;
    check_graph(ctx, Ty::gm(&g), &m, ALL & !ABSENT, m.max_seen, "GraphMap").map_err(cut)?;
    ensure!(g == g.clone(), "a clone of a graph with every id differs from it");
    let same = m.to_graphmap::<Id, Ty, L>(&mut ctx.rng);
    ensure!(g == same, "two equal graphs with every id differ");
    let d = everything(ctx, g.clone(), &m, &|x| x, &|x| x)?;
    for (k, v) in &d {
        ensure!(!(k.contains("search") && v.starts_with("Err")), "{}: {}", k, v);
        ensure!(!(k.contains("equal") && v.contains("false")), "{}: {}", k, v);
    }
    // against the same graph at a wider type
    let w = m.to_graphmap::<usize, Ty, usize>(&mut ctx.rng);
    let (mut a, mut b) = (Vec::new(), Vec::new());
    observe(Ty::gm(&g), &|x| x, &mut a);
    observe(Ty::gm(&w), &|x| x, &mut b);
    for (x, y) in a.iter().zip(&b) {
        if ["counts", "node ids", "edge ids", "adjacency", "components", "edge tests"].contains(&x.0) {
            ensure!(x.1 == y.1, "{} of the graph with every {} id differs from the same graph with usize ids", x.0, Id::NAME);
        }
    }
    for (name, x) in impls::<Id, NL, EL, Ty, L>(ctx, &m) {
        check_graph(ctx, x.as_ref(), &m, ALL & !ABSENT, Some(top), name).map_err(cut)?;
        if !big {
            ensure!(rust_graph::generic::graph::equal(x.as_ref(), Ty::gm(&g)), "{} differs from the graph it was made of", name);
        }
    }
    // and it shrinks like any other
    let mut h = g;
    for _ in 0..10 {
        let x = if ctx.rng.chance(1, 3) { top } else { ctx.rng.below(n) };
        let had = m.remove_node(x).is_some();
        ensure_eq!(h.remove_node(Id::new(x)).is_some(), had, "remove_node({})", x);
    }
    check_graph(ctx, Ty::gm(&h), &m, MEMBER | COUNT | ADJ, m.max_seen, "GraphMap after removals").map_err(cut)?;
    ctx.ev(if big { "graphs with all 65536 ids" } else { "graphs with all 256 ids" });
    ctx.nontrivial(m.fingerprint());
    ctx.clean_scratch();
    Ok(())
}

/// What the traits promise of an id type, at every value of the narrow ones and around the borders of the wide ones.
fn laws<T: HId>(ctx: &mut Ctx, bits: u32) -> CaseResult {
    let max = if bits == 64 { usize::MAX } else { (1usize << bits) - 1 };
    ensure_eq!(T::max_usize(), max, "{}::max_usize()", T::NAME);
    ensure_eq!(T::max_value().id(), max, "{}::max_value().id()", T::NAME);
    ensure_eq!(T::new(max), T::max_value(), "{}::new(max)", T::NAME);
    let mut xs: BTreeSet<usize> = BTreeSet::new();
    if bits <= 16 {
        xs.extend(0..=max);
    } else {
        for b in 0..bits {
            for d in 0..3usize {
                xs.insert((1usize << b).wrapping_sub(d) & max);
                xs.insert(((1usize << b) + d) & max);
                xs.insert(max - ((1usize << b) - 1));
            }
        }
        for _ in 0..300 {
            xs.insert(ctx.rng.next() as usize & max);
        }
    }
    let v: Vec<usize> = xs.into_iter().collect();
    for w in v.windows(2) {
        let (a, b) = (T::new(w[0]), T::new(w[1]));
        ensure_eq!(a.id(), w[0], "{}::new({}).id()", T::NAME, w[0]);
        ensure!(a < b && a != b, "{}: {} and {} are not ordered like their numbers", T::NAME, w[0], w[1]);
        ensure_eq!(a.increment().id(), w[0] + 1, "{}::new({}).increment()", T::NAME, w[0]);
        ctx.ev("id values checked");
    }
    Ok(())
}

/// More labels than 16 bits number.
fn many_labels<Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    let (n, k) = (300usize, 65536 + ctx.rng.range(2, 900));
    ctx.describe(format!("{} edge labels and {} node labels at {}", k, k - 1, L::NAME));
    // as many nodes as labels would do, but edges get to the borders with far fewer nodes
    let mut g: TypedGraphMap<u32, u32, u32, Ty, L> = TypedGraphMap::new();
    let mut want: BTreeMap<(usize, usize), u32> = BTreeMap::new();
    let mut i = 0;
    'all: for a in 0..n * 2 {
        for b in a..n * 2 {
            if i == k {
                break 'all;
            }
            g.add_edge(a as u32, b as u32, Some(i as u32));
            want.insert((a, b), i as u32);
            i += 1;
        }
    }
    for a in 0..k - 1 {
        g.add_node(a as u32, Some(a as u32));
    }
    let look = |g: &DynGraph<'_, u32, u32, u32, L>, what: &str| -> CaseResult {
        for (&(a, b), l) in want.iter() {
            let e = g.get_edge(a as u32, b as u32);
            ensure_eq!((e.get_label_id().map(|x| x.id()), g.get_edge_label(a as u32, b as u32)), (Some(*l as usize), Some(l)), "{}: label of edge ({}, {})", what, a, b);
        }
        for e in g.edges() {
            let (a, b) = (e.get_start().id(), e.get_target().id());
            ensure_eq!(e.get_label_id().map(|x| x.id() as u32), want.get(&(a.min(b), a.max(b))).cloned(), "{}: label of enumerated edge ({}, {})", what, a, b);
        }
        for x in g.nodes() {
            ensure_eq!(x.get_label_id().map(|x| x.id()), Some(x.get_id().id()), "{}: label of node {:?}", what, x.get_id());
        }
        ensure_eq!(g.get_node_label_id_counter().most_common().len(), k - 1, "{}: node labels counted", what);
        ensure_eq!(g.get_edge_label_id_counter().most_common().len(), k, "{}: edge labels counted", what);
        Ok(())
    };
    look(Ty::gm(&g), "GraphMap").map_err(cut)?;
    let mut h = g.clone().reorder_id(false, true, true);
    let h = h.take_graph().unwrap();
    for (&(a, b), l) in want.iter() {
        ensure_eq!(h.get_edge_label(a as u32, b as u32), Some(l), "reordered: label of edge ({}, {})", a, b);
    }
    let s = g.into_static();
    look(Ty::st(&s), "StaticGraph").map_err(cut)?;
    let p = ctx.path("many");
    s.dump_mmap(&p).map_err(|e| format!("dump_mmap: {:?}", e))?;
    let m = StaticGraphMmap::<u32, u32, u32, L>::new(&p);
    look(&m, "StaticGraphMmap").map_err(cut)?;
    ctx.ev("graphs with more labels than 16 bits number");
    ctx.nontrivial(crate::rng::mix(k as u64));
    drop(m);
    ctx.clean_scratch();
    Ok(())
}

fn run(ctx: &mut Ctx) -> CaseResult {
    let c = ctx.case;
    if c % 1201 == 3 {
        return match c / 1201 % 4 {
            0 => many_labels::<Directed, u32>(ctx),
            1 => many_labels::<Undirected, usize>(ctx),
            2 => many_labels::<Undirected, u32>(ctx),
            _ => many_labels::<Directed, usize>(ctx),
        };
    }
    if c % 601 == 5 {
        laws::<u8>(ctx, 8)?;
        laws::<u16>(ctx, 16)?;
        laws::<u32>(ctx, 32)?;
        return laws::<usize>(ctx, 64);
    }
    if c % 331 == 7 && (c / 331) % 4 == 0 {
        return if c / 331 % 8 == 0 { full::<u16, u32, u8, Directed, u8>(ctx) } else { full::<u16, (), u32, Undirected, u16>(ctx) };
    }
    if c % 16 == 15 {
        return match c / 16 % 6 {
            0 => full::<u8, String, u32, Directed, u8>(ctx),
            1 => full::<u8, String, u32, Undirected, u8>(ctx),
            2 => full::<u8, u32, String, Directed, u16>(ctx),
            3 => full::<u8, u32, String, Undirected, usize>(ctx),
            4 => full::<u8, (), (), Undirected, u8>(ctx),
            _ => full::<u8, u32, u32, Directed, u8>(ctx),
        };
    }
    match c % 6 {
        0 => widths::<String, String, Directed>(ctx),
        1 => widths::<String, String, Undirected>(ctx),
        2 => widths::<u32, u8, Directed>(ctx),
        3 => widths::<u8, u32, Undirected>(ctx),
        4 => widths::<(), String, Directed>(ctx),
        _ => widths::<u32, (), Undirected>(ctx),
    }
}

fn main() {
    driver::main(CheckDef {
        id: "C26",
        level: "exploration",
        rule: "most cases replay one mutation history with nine pairs of id and label-id types (u8, u16, u32, usize), each checked against the abstract graph and digested (counts, label tables and ids, nodes, edges, adjacency, pair tests, histograms, components, subgraphs, union, difference, traversals, import, CSV, static and mapped form, reordering); all digests must be equal; a quarter of them start with 230 to 300 labels in their tables, at label-id types that hold as many; the resulting content is repeated with usize ids beyond 32 and 63 bits; one case in 16 builds a graph of all 256 ids of u8 (sometimes with as many labels as the label type numbers), a few per run all 65536 ids of u16, and does everything with it, comparing with the same graph at usize; a few cases per run have more labels than 16 bits number, or check the id types themselves (round trip, order, successor, largest value). Non-trivial: at least two edges or a full id range; distinct by content.",
        assumptions: &["ids and label counts fit the narrowest type compared"],
        quick: 2400,
        thorough: 120000,
        run,
        mem_mb: 4096,
    })
}
