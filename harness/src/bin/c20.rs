//! C20: equality, hashing and copies.
use harness::history::*;
use harness::impls::*;
use harness::observe::*;
use harness::traverse::shaped;
use harness::*;
use rust_graph::generic::graph::equal;
use rust_graph::generic::{GeneralGraph, MutGraphLabelTrait, MutGraphTrait};
use rust_graph::graph_impl::{TypedGraphMap, TypedStaticGraph};
use rust_graph::io::serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn h<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

fn same<NL: HLabel, EL: HLabel>(a: &Model<NL, EL>, b: &Model<NL, EL>) -> bool {
    a.directed == b.directed && a.nodes == b.nodes && a.edges == b.edges
}

/// The same content reached in another way.
fn rebuilt<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx, m: &Model<NL, EL>, u: &Universe) -> Result<(TypedGraphMap<Id, NL, EL, Ty, L>, &'static str), String> {
    Ok(match ctx.rng.below(6) {
        0 => (m.to_graphmap(&mut ctx.rng), "inserted in another order"),
        1 => {
            // labels numbered differently, some known but unused
            let mut pool: Vec<NL> = (0..u.nlabels.min(4)).map(NL::make).collect();
            let mut epool: Vec<EL> = (0..u.elabels.min(4)).map(EL::make).collect();
            ctx.rng.shuffle(&mut pool);
            ctx.rng.shuffle(&mut epool);
            let mut g: TypedGraphMap<Id, NL, EL, Ty, L> = TypedGraphMap::new();
            let z = Id::new(u.ids[0]);
            for l in &pool {
                g.add_node(z, Some(l.clone()));
            }
            for l in &epool {
                g.add_edge(z, z, Some(l.clone()));
            }
            g.remove_edge(z, z);
            g.remove_node(z);
            for (n, l) in &m.nodes {
                g.add_node(Id::new(*n), l.clone());
            }
            for (&(a, b), l) in &m.edges {
                g.add_edge(Id::new(a), Id::new(b), l.clone());
            }
            (g, "labels numbered differently")
        }
        2 => {
            // a detour: everything labelled otherwise first, extra items removed again
            let mut g: TypedGraphMap<Id, NL, EL, Ty, L> = TypedGraphMap::new();
            for i in &u.ids {
                let l = u.nl(&mut ctx.rng);
                g.add_node(Id::new(*i), l);
            }
            for _ in 0..ctx.rng.below(2 * u.ids.len() + 1) {
                let (a, b) = (u.id(&mut ctx.rng), u.id(&mut ctx.rng));
                let l = u.el(&mut ctx.rng);
                g.add_edge(Id::new(a), Id::new(b), l);
            }
            for i in &u.ids {
                if !m.nodes.contains_key(i) {
                    g.remove_node(Id::new(*i));
                }
            }
            for a in &u.ids {
                for b in &u.ids {
                    if !m.has_edge(*a, *b) {
                        g.remove_edge(Id::new(*a), Id::new(*b));
                    }
                }
            }
            for (n, l) in &m.nodes {
                if ctx.rng.chance(1, 2) {
                    g.add_node(Id::new(*n), l.clone());
                } else {
                    g.add_node(Id::new(*n), None);
                    g.update_node_label(Id::new(*n), l.clone());
                }
            }
            for (&(a, b), l) in &m.edges {
                g.add_edge(Id::new(a), Id::new(b), None);
                g.update_edge_label(Id::new(a), Id::new(b), l.clone());
            }
            (g, "reached by a detour")
        }
        3 => {
            let g = m.to_graphmap::<Id, Ty, L>(&mut ctx.rng);
            let p = ctx.path("eq.bin");
            g.export(&p).map_err(|e| format!("export: {}", e))?;
            (TypedGraphMap::import(&p).map_err(|e| format!("import: {}", e))?, "exported and imported")
        }
        4 => (m.to_graphmap::<Id, Ty, L>(&mut ctx.rng).clone(), "cloned"),
        _ => {
            let mut g = m.to_graphmap::<Id, Ty, L>(&mut ctx.rng);
            g.shrink_to_fit();
            (g, "shrunk")
        }
    })
}

/// A content that differs in one thing (or, rarely, not at all).
fn mutant<NL: HLabel, EL: HLabel>(ctx: &mut Ctx, m: &Model<NL, EL>, u: &Universe) -> (Model<NL, EL>, &'static str) {
    let mut r = m.clone();
    let nodes: Vec<usize> = m.nodes.keys().copied().collect();
    let edges: Vec<(usize, usize)> = m.edges.keys().copied().collect();
    let what = match ctx.rng.below(12) {
        0 | 1 if !nodes.is_empty() => {
            let n = *ctx.rng.pick(&nodes);
            let l = match ctx.rng.below(3) {
                0 => None,
                _ => Some(NL::make(ctx.rng.below(u.nlabels.max(1)))),
            };
            r.nodes.insert(n, l);
            "a node label"
        }
        2 | 3 if !edges.is_empty() => {
            let e = *ctx.rng.pick(&edges);
            let l = match ctx.rng.below(3) {
                0 => None,
                _ => Some(EL::make(ctx.rng.below(u.elabels.max(1)))),
            };
            r.edges.insert(e, l);
            "an edge label"
        }
        4 if !edges.is_empty() => {
            let e = *ctx.rng.pick(&edges);
            r.remove_edge(e.0, e.1);
            "an edge missing"
        }
        5 if !edges.is_empty() => {
            // same counts, another edge
            let e = *ctx.rng.pick(&edges);
            let l = r.remove_edge(e.0, e.1).unwrap();
            let (a, b) = (*ctx.rng.pick(&nodes), *ctx.rng.pick(&nodes));
            r.edges.entry(m.key(a, b)).or_insert(l);
            "an edge elsewhere"
        }
        6 if !edges.is_empty() => {
            let e = *ctx.rng.pick(&edges);
            let l = r.remove_edge(e.0, e.1).unwrap();
            r.edges.entry(m.key(e.1, e.0)).or_insert(l);
            "an edge reversed"
        }
        7 => {
            r.add_node(u.id(&mut ctx.rng), None);
            "another node"
        }
        8 if !nodes.is_empty() => {
            let n = *ctx.rng.pick(&nodes);
            r.remove_node(n);
            "a node missing"
        }
        9 if nodes.len() >= 2 => {
            let (a, b) = (*ctx.rng.pick(&nodes), *ctx.rng.pick(&nodes));
            let (x, y) = (m.nodes[&a].clone(), m.nodes[&b].clone());
            r.nodes.insert(a, y);
            r.nodes.insert(b, x);
            "two node labels swapped"
        }
        10 if edges.len() >= 2 => {
            let (a, b) = (*ctx.rng.pick(&edges), *ctx.rng.pick(&edges));
            let (x, y) = (m.edges[&a].clone(), m.edges[&b].clone());
            r.edges.insert(a, y);
            r.edges.insert(b, x);
            "two edge labels swapped"
        }
        11 if !nodes.is_empty() => {
            // one node renamed, counts and labels the same
            let n = *ctx.rng.pick(&nodes);
            let k = u.id(&mut ctx.rng);
            if !m.nodes.contains_key(&k) {
                r = Model::new(m.directed);
                let f = |x: usize| if x == n { k } else { x };
                for (i, l) in &m.nodes {
                    r.add_node(f(*i), l.clone());
                }
                for (&(a, b), l) in &m.edges {
                    r.add_edge(f(a), f(b), l.clone());
                }
            }
            "a node renamed"
        }
        _ => "nothing",
    };
    r.max_seen = r.nodes.keys().last().copied();
    (r, what)
}

fn verdict(ctx: &mut Ctx, eq: bool, want: bool, what: &str, a: &str, b: &str) -> CaseResult {
    ensure!(eq == want, "{}: == says {}, the contents {}: {} / {}", what, eq, if want { "are the same" } else { "differ" }, a, b);
    ctx.ev(if want { "pairs found equal" } else { "pairs found different" });
    Ok(())
}

/// Contents of more items than 16 bits number, differing in one label.
fn huge<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    let cut = |e: String| e.chars().take(3000).collect::<String>();
    let u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize(), L::max_usize(), true);
    let n = 150_000usize.min(Id::max_usize().saturating_add(1));
    let m: Model<NL, EL> = big_model(&mut ctx.rng, Ty::DIRECTED, n, &u);
    ctx.describe(format!("{} nodes, {} edges, {}/{}", n, m.edges.len(), Id::NAME, if Ty::DIRECTED { "directed" } else { "undirected" }));
    let g = m.to_graphmap::<Id, Ty, L>(&mut ctx.rng);
    let s = static_of::<Id, NL, EL, Ty, L>(&mut ctx.rng, &m);
    for round in 0..4 {
        let mut o = m.clone();
        let at = ctx.rng.below(n);
        let what = if round == 0 {
            "nothing"
        } else if round % 2 == 1 {
            let l = u.nl::<NL>(&mut ctx.rng);
            o.nodes.insert(at, l);
            "a node label"
        } else {
            let k = *o.edges.keys().nth(ctx.rng.below(m.edges.len())).unwrap();
            let l = if o.edges[&k].is_some() { None } else { Some(EL::make(0)) };
            o.edges.insert(k, l);
            "an edge label"
        };
        let want = same(&m, &o);
        let x = o.to_graphmap::<Id, Ty, L>(&mut ctx.rng);
        verdict(ctx, g == x, want, &format!("huge GraphMaps different in {}", what), "", "").map_err(cut)?;
        verdict(ctx, equal(Ty::gm(&x), Ty::gm(&g)), want, &format!("equal() of huge GraphMaps different in {}", what), "", "").map_err(cut)?;
        let y = static_of::<Id, NL, EL, Ty, L>(&mut ctx.rng, &o);
        verdict(ctx, y == s, want, &format!("huge StaticGraphs different in {}", what), "", "").map_err(cut)?;
        if want {
            ensure!(h(&x) == h(&g) && h(&y) == h(&s), "huge equal graphs hash differently");
        }
        ctx.ev("huge graphs compared");
    }
    let k = m.fingerprint();
    ctx.nontrivial(k);
    Ok(())
}

fn widths<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, W: HId>(ctx: &mut Ctx, am: &Model<NL, EL>, m: &Model<NL, EL>) -> CaseResult {
    let cut = |e: String| e.chars().take(3000).collect::<String>();
    let a = am.to_graphmap::<Id, Ty, u32>(&mut ctx.rng);
    let b = m.to_graphmap::<Id, Ty, W>(&mut ctx.rng);
    verdict(ctx, equal::<Id, NL, EL, u32, W>(Ty::gm(&a), Ty::gm(&b)), same(am, m), "equal() across label id types", &am.brief(), &m.brief()).map_err(cut)?;
    verdict(ctx, equal::<Id, NL, EL, W, u32>(Ty::gm(&b), Ty::gm(&a)), same(am, m), "equal() across label id types", &m.brief(), &am.brief()).map_err(cut)
}

fn case<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    if ctx.case % 4001 < 10 && ctx.case >= 4001 {
        return huge::<Id, NL, EL, Ty, L>(ctx);
    }
    let cut = |e: String| e.chars().take(3000).collect::<String>();
    let dense = ctx.rng.chance(1, 3);
    let u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize(), L::max_usize(), dense);
    let big = ctx.case % 1009 < 10 && ctx.case >= 1009;
    let m: Model<NL, EL> = if big {
        let n = (*ctx.rng.pick(&[256usize, 2000])).min(Id::max_usize().saturating_add(1));
        ctx.ev("large graphs");
        big_model(&mut ctx.rng, Ty::DIRECTED, n, &u)
    } else {
        let keep: Vec<usize> = u.ids.iter().copied().filter(|_| ctx.rng.chance(4, 5)).collect();
        shaped(&mut ctx.rng, Ty::DIRECTED, &keep, &u)
    };
    let u = if big { Universe { ids: (0..30).collect(), ..u } } else { u };
    ctx.describe(format!("{}/{}/{}/{} ", Id::NAME, NL::NAME, EL::NAME, L::NAME));
    ctx.describe_add(&m.brief());
    // ---- hash-map graphs
    let mut all: Vec<(TypedGraphMap<Id, NL, EL, Ty, L>, Model<NL, EL>, String)> = vec![(m.to_graphmap(&mut ctx.rng), m.clone(), "original".into())];
    for _ in 0..2 {
        let (g, how) = if big { (m.to_graphmap(&mut ctx.rng), "inserted in another order") } else { rebuilt::<Id, NL, EL, Ty, L>(ctx, &m, &u)? };
        all.push((g, m.clone(), how.into()));
    }
    for _ in 0..3 {
        let (mm, how) = mutant(ctx, &m, &u);
        let (g, how2) = if big { (mm.to_graphmap(&mut ctx.rng), "") } else { rebuilt::<Id, NL, EL, Ty, L>(ctx, &mm, &u)? };
        ctx.ev(how);
        all.push((g, mm, format!("different in {}, {}", how, how2)));
    }
    for (i, (a, am, an)) in all.iter().enumerate() {
        for (j, (b, bm, bn)) in all.iter().enumerate() {
            if big && (i > 1 || j > 4) {
                continue;
            }
            let want = same(am, bm);
            let d = format!("GraphMap, {} vs {}", an, bn);
            verdict(ctx, a == b, want, &d, &am.brief(), &bm.brief()).map_err(cut)?;
            ensure!((a != b) != want, "{}: != disagrees with the contents", d);
            verdict(ctx, equal(Ty::gm(a), Ty::gm(b)), want, &format!("equal(): {}", d), &am.brief(), &bm.brief()).map_err(cut)?;
            if want {
                ensure!(h(a) == h(b), "{}: equal graphs hash differently: {}", d, am.brief());
                ctx.ev("hashes compared");
            }
        }
    }
    // another width of label ids, and the other direction
    {
        let (_, am, _) = &all[all.len() - 1];
        // eight bits number only so many labels
        if m.node_label_counts().len().max(m.edge_label_counts().len()) < 200 {
            widths::<Id, NL, EL, Ty, u8>(ctx, am, &m)?;
        } else {
            widths::<Id, NL, EL, Ty, u16>(ctx, am, &m)?;
        }
        let mut o = Model::new(!Ty::DIRECTED);
        for (n, l) in &m.nodes {
            o.add_node(*n, l.clone());
        }
        for (&(a, b), l) in &m.edges {
            o.add_edge(a, b, l.clone());
        }
        let g: Box<DynGraph<'static, Id, NL, EL, L>> = Ty::gm_box(m.to_graphmap::<Id, Ty, L>(&mut ctx.rng));
        let x: Box<DynGraph<'static, Id, NL, EL, L>> = if Ty::DIRECTED {
            Box::new(o.to_graphmap::<Id, rust_graph::generic::Undirected, L>(&mut ctx.rng))
        } else {
            Box::new(o.to_graphmap::<Id, rust_graph::generic::Directed, L>(&mut ctx.rng))
        };
        verdict(ctx, &g == &x, false, "the other direction", &m.brief(), &o.brief()).map_err(cut)?;
        verdict(ctx, &x == &g, false, "the other direction", &o.brief(), &m.brief()).map_err(cut)?;
        verdict(ctx, equal(g.as_ref(), x.as_ref()), false, "equal() with the other direction", &m.brief(), &o.brief()).map_err(cut)?;
    }
    // ---- boxed graphs of every implementation, and static graphs
    if !big || ctx.rng.chance(1, 2) {
        let d = densify(&m);
        let du = Universe { ids: (0..d.nodes.len() + 1).collect(), ..u.clone() };
        let mut e = d.clone();
        let mut how = "nothing";
        for _ in 0..4 {
            let (x, w) = mutant(ctx, &d, &du);
            if x.dense() && x.nodes.len() <= Id::max_usize() {
                e = x;
                how = w;
                break;
            }
        }
        ctx.ev(how);
        let a = impls::<Id, NL, EL, Ty, L>(ctx, &d);
        let b = impls::<Id, NL, EL, Ty, L>(ctx, &e);
        let mut v: Vec<(&str, &Box<DynGraph<'static, Id, NL, EL, L>>, &Model<NL, EL>)> = Vec::new();
        v.extend(a.iter().map(|(n, g)| (*n, g, &d)));
        v.extend(b.iter().map(|(n, g)| (*n, g, &e)));
        let copy = a[ctx.rng.below(4)].1.clone();
        v.push(("copy", &copy, &d));
        for (n, x, xm) in &v {
            for (k, y, ym) in &v {
                let want = same(xm, ym);
                let what = format!("boxed {} vs {} ({})", n, k, how);
                verdict(ctx, x == y, want, &what, &xm.brief(), &ym.brief()).map_err(cut)?;
                verdict(ctx, equal(x.as_ref(), y.as_ref()), want, &format!("equal(): {}", what), &xm.brief(), &ym.brief()).map_err(cut)?;
                if want {
                    ensure!(h(*x) == h(*y), "{}: equal boxed graphs hash differently: {}", what, xm.brief());
                    ctx.ev("hashes compared");
                }
            }
        }
        let mut st: Vec<(TypedStaticGraph<Id, NL, EL, Ty, L>, &Model<NL, EL>)> = Vec::new();
        for _ in 0..2 {
            st.push((static_of(&mut ctx.rng, &d), &d));
        }
        st.push((st[0].0.clone(), &d));
        let p = ctx.path("eqs.bin");
        st[1].0.export(&p).map_err(|e| format!("export: {}", e))?;
        st.push((TypedStaticGraph::import(&p).map_err(|e| format!("import: {}", e))?, &d));
        for _ in 0..2 {
            st.push((static_of(&mut ctx.rng, &e), &e));
        }
        for (x, xm) in &st {
            for (y, ym) in &st {
                let want = same(xm, ym);
                verdict(ctx, x == y, want, &format!("StaticGraph vs StaticGraph ({})", how), &xm.brief(), &ym.brief()).map_err(cut)?;
                if want {
                    ensure!(h(x) == h(y), "equal static graphs hash differently: {}", xm.brief());
                    ctx.ev("hashes compared");
                }
            }
        }
    }
    // ---- a clone does not change with its original
    if !big {
        let (g, gm, _) = all.swap_remove(ctx.rng.below(all.len()));
        let mut g = g;
        let mut gm = gm;
        gm.max_seen = None;
        let c = g.clone();
        let before = gm.clone();
        let hash = h(&c);
        ensure!(c == g && h(&g) == hash, "a clone does not equal its original");
        let w = Watch { returns: false, labels: false };
        for _ in 0..ctx.rng.range(1, 10) {
            step(ctx, &mut g, &mut gm, &u, MIX_ALL, w)?;
        }
        ctx.ev("clones compared after changing the original");
        check_graph(ctx, Ty::gm(&c), &before, MEMBER | COUNT | ADJ | LABEL, None, "a clone after changing its original").map_err(cut)?;
        ensure!(h(&c) == hash, "the hash of a clone changed with its original");
        verdict(ctx, c == g, same(&before, &gm), "a clone and its changed original", &before.brief(), &gm.brief()).map_err(cut)?;
        // and the other way round
        let mut c = c;
        let snapshot = gm.clone();
        let mut cm = before;
        for _ in 0..ctx.rng.range(1, 10) {
            step(ctx, &mut c, &mut cm, &u, MIX_ALL, w)?;
        }
        check_graph(ctx, Ty::gm(&g), &snapshot, MEMBER | COUNT | ADJ | LABEL, None, "an original after changing its clone").map_err(cut)?;
        verdict(ctx, c == g, same(&cm, &gm), "a changed clone and its changed original", &cm.brief(), &gm.brief()).map_err(cut)?;
    }
    if !m.edges.is_empty() {
        let k = m.fingerprint();
        ctx.nontrivial(k);
    }
    Ok(())
}

fn run(ctx: &mut Ctx) -> CaseResult {
    let sel = ctx.case;
    dispatch!(sel, case(ctx))
}

fn main() {
    driver::main(CheckDef {
        id: "C20",
        level: "exploration",
        rule: "each case takes one content and (a) hash-map graphs rebuilt to it in other ways (insertion order, other label numbering with unused labels, detours with removals and relabelling, export/import, clone, shrinking), (b) graphs differing from it in exactly one thing (node or edge label, edge missing, moved or reversed, node missing, added or renamed, two labels swapped), (c) both contents boxed in every implementation, (d) static graphs from arrays, conversion, clone and import, (e) another label-id width and the other direction; ==, != and equal() of every ordered pair are compared with equality of the abstract contents and equal pairs must hash equally; every 4001 cases ten contents of up to 150000 nodes are compared with others that differ in one label; then clones are changed on either side and compared again. Non-trivial: the content has an edge; distinct by content.",
        assumptions: &["the label count stays within what the label-id type can number"],
        quick: 18000,
        thorough: 150000,
        run,
        mem_mb: 4096,
    })
}
