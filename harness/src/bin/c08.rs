//! C08: a static graph answers every query from its adjacency arrays.
use harness::history::*;
use harness::impls::*;
use harness::observe::*;
use harness::*;
use rust_graph::generic::{GraphLabelTrait, GraphTrait, MapTrait};
use rust_graph::graph_impl::static_graph::EdgeVecTrait;
use rust_graph::graph_impl::{EdgeVec, TypedStaticGraph};
use rust_graph::map::SetMap;
use std::collections::BTreeMap;

type SG<Id, NL, EL, Ty, L> = TypedStaticGraph<Id, NL, EL, Ty, L>;

/// Everything an edge vector answers, against the arrays it was made from.
fn edge_vec<Id: HId, L: HId>(
    ctx: &mut Ctx,
    v: &dyn EdgeVecTrait<Id, L>,
    offsets: &[usize],
    edges: &[Id],
    labels: &[L],
    what: &str,
) -> CaseResult {
    let n = offsets.len().saturating_sub(1);
    ensure!(v.get_offsets() == offsets, "{}: get_offsets()", what);
    ensure!(v.get_edges() == edges, "{}: get_edges()", what);
    ensure!(v.get_labels() == labels, "{}: get_labels() = {:?}, expected {:?}", what, v.get_labels().iter().take(9).collect::<Vec<_>>(), labels.iter().take(9).collect::<Vec<_>>());
    ensure_eq!(v.num_nodes(), n, "{}: num_nodes()", what);
    ensure_eq!(v.num_edges(), edges.len(), "{}: num_edges()", what);
    let mut ids: Vec<usize> = (0..n.min(12)).chain((0..8).map(|k| n.saturating_sub(k + 1))).collect();
    for x in [n, n + 1, Id::max_usize(), Id::max_usize() / 2, 0] {
        if x <= Id::max_usize() {
            ids.push(x);
        }
    }
    ids.sort();
    ids.dedup();
    for &a in &ids {
        let i = Id::new(a);
        ensure_eq!(v.has_node(i), a < n, "{}: has_node({})", what, a);
        if a < n {
            let slice = &edges[offsets[a]..offsets[a + 1]];
            ensure!(v.neighbors(i) == slice, "{}: neighbors({}) = {:?}", what, a, v.neighbors(i));
            ensure_eq!(v.degree(i), slice.len(), "{}: degree({})", what, a);
        } else {
            ensure!(guarded(|| v.neighbors(i).len()).is_err(), "{}: neighbors({}) beyond the end was answered", what, a);
            ensure!(guarded(|| v.degree(i)).is_err(), "{}: degree({}) beyond the end was answered", what, a);
        }
        for &b in &ids {
            let j = Id::new(b);
            let pos = if a < n && b < n {
                edges[offsets[a]..offsets[a + 1]].iter().position(|x| *x == j).map(|p| p + offsets[a])
            } else {
                None
            };
            ensure_eq!(v.find_edge_index(i, j), pos, "{}: find_edge_index({}, {})", what, a, b);
            ensure_eq!(v.has_edge(i, j), pos.is_some(), "{}: has_edge({}, {})", what, a, b);
            let l = pos.and_then(|p| labels.get(p));
            ensure_eq!(v.find_edge_label_id(i, j), l, "{}: find_edge_label_id({}, {})", what, a, b);
            ctx.ev("edge positions looked up");
        }
    }
    Ok(())
}

fn arrays_of<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(
    ctx: &mut Ctx,
    g: &SG<Id, NL, EL, Ty, L>,
    a: &Arrays<Id, NL, EL, L>,
    what: &str,
) -> CaseResult {
    let none: Vec<L> = Vec::new();
    edge_vec(ctx, g.get_edge_vec(), &a.offsets, &a.edges, a.elabels.as_ref().unwrap_or(&none), &format!("{}, edges", what))?;
    ensure_eq!(g.get_in_edge_vec().is_some(), Ty::DIRECTED, "{}: in-edges present", what);
    if let Some(v) = g.get_in_edge_vec() {
        edge_vec(ctx, v, &a.in_offsets, &a.in_edges, v.get_labels().to_vec().as_slice(), &format!("{}, in-edges", what))?;
    }
    ensure!(g.get_labels() == &a.nlabels, "{}: get_labels()", what);
    let t: Vec<NL> = GraphLabelTrait::<Id, NL, EL, L>::get_node_label_map(g).items().cloned().collect();
    ensure_eq!(t, a.ntab, "{}: node label table", what);
    let t: Vec<EL> = GraphLabelTrait::<Id, NL, EL, L>::get_edge_label_map(g).items().cloned().collect();
    ensure_eq!(t, a.etab, "{}: edge label table", what);
    // positions across the whole graph
    for s in 0..a.offsets.len() - 1 {
        if a.edges.len() > 4000 && s % 37 != 0 {
            continue;
        }
        for p in a.offsets[s]..a.offsets[s + 1] {
            ensure_eq!(g.find_edge_index(Id::new(s), a.edges[p]), Some(p), "{}: find_edge_index({}, {:?})", what, s, a.edges[p]);
        }
    }
    Ok(())
}

fn case<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    let lim = Id::max_usize().min(70_000);
    let u = universe::<NL, EL>(&mut ctx.rng, lim, L::max_usize(), true);
    let m: Model<NL, EL> = if ctx.case % 997 < 10 && ctx.case >= 997 {
        let n = (*ctx.rng.pick(&[256usize, 3000, 65_536])).min(Id::max_usize().saturating_add(1));
        ctx.ev("large graphs");
        big_model(&mut ctx.rng, Ty::DIRECTED, n, &u)
    } else {
        let k = *ctx.rng.pick(&[0usize, 1, 2, 3, 4, 5, 7, 10, 16, 30]);
        let ids: Vec<usize> = (0..k).collect();
        let e = ctx.rng.below(k * 3 + 1);
        random_model(&mut ctx.rng, Ty::DIRECTED, &ids, e, &u)
    };
    let m = {
        let (x, y) = (ctx.rng.chance(1, 4), ctx.rng.chance(1, 4));
        strip(&m, x, y)
    };
    let with_nl = m.nodes.values().any(|l| l.is_some()) || ctx.rng.chance(1, 2);
    let with_el = m.edges.values().any(|l| l.is_some()) || ctx.rng.chance(1, 2);
    let a = arrays::<Id, NL, EL, L>(&mut ctx.rng, &m, with_nl, with_el);
    ctx.describe(format!("{}/{}/{}/{} node labels {} edge labels {}: {}", Id::NAME, NL::NAME, EL::NAME, L::NAME, with_nl, with_el, m.brief()));
    let top = m.nodes.keys().last().cloned();
    let cut = |e: String| e.chars().take(3000).collect::<String>();
    let g: SG<Id, NL, EL, Ty, L> = from_arrays(&mut ctx.rng, &a);
    check_graph(ctx, Ty::st(&g), &m, ALL, top, "from arrays").map_err(cut)?;
    arrays_of::<Id, NL, EL, Ty, L>(ctx, &g, &a, "from arrays")?;
    ctx.ev(match (with_nl, with_el) {
        (true, true) => "graphs with both kinds of labels",
        (true, false) => "graphs with node labels only",
        (false, true) => "graphs with edge labels only",
        _ => "graphs without labels",
    });
    // removing labels, on a clone, keeps everything else and leaves the original alone
    let mut c = g.clone();
    let mut b = a.clone();
    let mut cm = m.clone();
    for _ in 0..ctx.rng.range(1, 3) {
        match ctx.rng.below(4) {
            0 => {
                c.remove_node_labels();
                b.nlabels = None;
                b.ntab = Vec::new();
                cm = strip(&cm, true, false);
                ctx.step("remove_node_labels".into());
            }
            1 => {
                c.remove_edge_labels();
                b.elabels = None;
                b.etab = Vec::new();
                cm = strip(&cm, false, true);
                ctx.step("remove_edge_labels".into());
            }
            2 => {
                c.remove_labels();
                b.nlabels = None;
                b.ntab = Vec::new();
                b.elabels = None;
                b.etab = Vec::new();
                cm = strip(&cm, true, true);
                ctx.step("remove_labels".into());
            }
            _ => {
                c.shrink_to_fit();
                ctx.step("shrink_to_fit".into());
            }
        }
        check_graph(ctx, Ty::st(&c), &cm, ALL, top, "after removing labels").map_err(cut)?;
        arrays_of::<Id, NL, EL, Ty, L>(ctx, &c, &b, "after removing labels")?;
        ctx.ev("label removals observed");
    }
    if m.edges.len() < 200 {
        check_graph(ctx, Ty::st(&g), &m, ALL, top, "original whose clone lost labels").map_err(cut)?;
    }
    // edge vectors on their own
    let mut v: EdgeVec<Id, L> = EdgeVec::from_raw(a.offsets.clone(), a.edges.clone(), a.elabels.clone());
    let none: Vec<L> = Vec::new();
    edge_vec(ctx, &v, &a.offsets, &a.edges, a.elabels.as_ref().unwrap_or(&none), "edge vector")?;
    v.shrink_to_fit();
    edge_vec(ctx, &v.clone(), &a.offsets, &a.edges, a.elabels.as_ref().unwrap_or(&none), "cloned edge vector")?;
    v.remove_labels();
    edge_vec(ctx, &v, &a.offsets, &a.edges, &none, "edge vector without labels")?;
    let mut w: EdgeVec<Id, L> = if ctx.rng.chance(1, 2) {
        Default::default()
    } else {
        let mut w = EdgeVec::from_raw(a.offsets.clone(), a.edges.clone(), a.elabels.clone());
        w.clear();
        w
    };
    edge_vec(ctx, &w, &[], &[], &[], "empty edge vector")?;
    w.clear();
    edge_vec(ctx, &w, &[], &[], &[], "cleared edge vector")?;
    if let (Some(l), true) = (&a.elabels, ctx.case % 7 == 0) {
        // labels that do not align with the edges are refused
        let mut l = l.clone();
        l.push(L::new(0));
        ensure!(
            guarded(|| EdgeVec::<Id, L>::with_labels(a.offsets.clone(), a.edges.clone(), l)).is_err(),
            "an edge vector accepted more labels than edges"
        );
        ctx.ev("misaligned labels refused");
    }
    if Ty::DIRECTED && ctx.case % 7 == 0 {
        let e: EdgeVec<Id, L> = EdgeVec::new(a.offsets.clone(), a.edges.clone());
        ensure!(
            guarded(|| SG::<Id, NL, EL, Ty, L>::new(e, None, None, None).edge_count()).is_err(),
            "a directed static graph was built without in-edges"
        );
    }
    // a default graph is an empty graph
    if ctx.case % 50 < 10 {
        let g: SG<Id, NL, EL, Ty, L> = TypedStaticGraph::new(
            EdgeVec::default(),
            if Ty::DIRECTED { Some(EdgeVec::default()) } else { None },
            None,
            None,
        );
        let e = Model::new(Ty::DIRECTED);
        check_graph(ctx, Ty::st(&g), &e, ALL, None, "graph of empty arrays").map_err(cut)?;
        ctx.ev("graphs of empty arrays");
    }
    // exchanging the label arrays through the accessors
    if ctx.case % 3 == 0 && !m.nodes.is_empty() && NL::MAX > 3 && L::max_usize() > 4 {
        let mut d = g.clone();
        let mut dm = m.clone();
        let t: SetMap<NL> = (0..3).map(NL::make).collect();
        *d.get_node_label_map_mut() = t;
        let ls: Vec<L> = dm.nodes.keys().map(|_| if ctx.rng.chance(1, 3) { L::max_value() } else { L::new(ctx.rng.below(3)) }).collect();
        let by: BTreeMap<usize, L> = dm.nodes.keys().cloned().zip(ls.iter().cloned()).collect();
        for (n, l) in dm.nodes.iter_mut() {
            *l = if by[n] == L::max_value() { None } else { Some(NL::make(by[n].id())) };
        }
        *d.get_labels_mut() = Some(ls);
        check_graph(ctx, Ty::st(&d), &dm, ALL, top, "after exchanging the node labels").map_err(cut)?;
        ctx.ev("label arrays exchanged");
    }
    // exchanging adjacency, edge labels and both tables through the accessors
    if ctx.case % 3 == 1 {
        let mut d = g.clone();
        let mut dm = m.clone();
        for l in dm.edges.values_mut() {
            *l = None;
        }
        d.get_edge_vec_mut().remove_labels();
        if let Some(ref mut e) = *d.get_in_edge_vec_mut() {
            e.remove_labels();
        }
        if ctx.rng.chance(1, 2) {
            d.get_edge_vec_mut().shrink_to_fit();
        }
        let t: SetMap<EL> = (0..EL::MAX.min(3)).map(EL::make).collect();
        let tn = t.len();
        *d.get_edge_label_map_mut() = t;
        check_graph(ctx, Ty::st(&d), &dm, ALL, top, "after dropping the edge labels through the accessors").map_err(cut)?;
        ensure_eq!(GraphLabelTrait::get_edge_label_map(&d).len(), tn, "edge label table set through the accessor");
        check_graph(ctx, Ty::st(&g), &m, ALL, top, "after changing a copy").map_err(cut)?;
        ctx.ev("edge label arrays dropped through accessors");
    }
    if !m.edges.is_empty() {
        let k = m.fingerprint();
        ctx.nontrivial(k);
    }
    Ok(())
}

fn run(ctx: &mut Ctx) -> CaseResult {
    let sel = ctx.case;
    dispatch!(sel, case(ctx))
}

fn main() {
    driver::main(CheckDef {
        id: "C08",
        level: "exploration",
        rule: "each case writes down the offset/edge/in-edge/label arrays of a random abstract graph (0..30 nodes, isolated nodes, self-loops, tables with unused labels; every 997 cases ten graphs of up to 65536 nodes) independently of the library, builds a static graph through one of the constructors with or without explicit counts, and compares every query, every edge position and the arrays themselves; then removes node labels, edge labels or both from a clone and compares both again. Non-trivial: the graph has an edge; distinct: by content.",
        assumptions: &["arrays are well-formed (sorted, in-edges match out-edges), label ids below the type's no-label sentinel"],
        quick: 20000,
        thorough: 400000,
        run,
        mem_mb: 4096,
    })
}
