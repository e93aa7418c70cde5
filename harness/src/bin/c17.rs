//! C17: connected subgraphs.
use harness::history::*;
use harness::impls::*;
use harness::observe::*;
use harness::traverse::shaped;
use harness::*;
use rust_graph::algorithm::ConnSubgraph;
use rust_graph::graph_impl::TypedGraphMap;
use std::collections::{BTreeMap, BTreeSet};

fn split<Id: HId, NL: HLabel, EL: HLabel, L: HId>(ctx: &mut Ctx, g: &DynGraph<'static, Id, NL, EL, L>, m: &Model<NL, EL>, what: &str) -> CaseResult {
    let comp = m.components();
    let mut want: BTreeMap<usize, Model<NL, EL>> = BTreeMap::new();
    for (n, c) in &comp {
        want.entry(*c).or_insert_with(|| Model::new(m.directed)).add_node(*n, m.nodes[n].clone());
    }
    for (&(a, b), l) in &m.edges {
        want.get_mut(&comp[&a]).unwrap().add_edge(a, b, l.clone());
    }
    let mut cs: ConnSubgraph<'static, Id, NL, EL, L> = if ctx.rng.chance(1, 2) {
        ConnSubgraph::new(g)
    } else {
        let mut cs = ConnSubgraph::empty(g);
        cs.run_subgraph_enumeration(g);
        cs
    };
    if ctx.rng.chance(1, 6) {
        // enumerating the same graph once more adds nothing
        cs.run_subgraph_enumeration(g);
        ctx.ev("enumerations repeated");
    }
    // the representatives: exactly one per component, each standing for the subgraph that holds it
    let mut reps: Vec<(usize, usize)> = Vec::new();
    for n in m.nodes.keys() {
        if let Some(i) = cs.root_to_subgraph(Id::new(*n)) {
            reps.push((*n, i));
        }
    }
    let parts = cs.into_result();
    ensure_eq!(reps.len(), want.len(), "{}: number of nodes that stand for a subgraph", what);
    ensure!(reps.iter().map(|r| r.1).collect::<BTreeSet<_>>().len() == reps.len(), "{}: two nodes stand for one subgraph: {:?}", what, reps);
    for (n, i) in &reps {
        ensure!(parts.get(*i).map_or(false, |p| p.has_node(Id::new(*n))), "{}: node {} stands for subgraph {}, which does not hold it", what, n, i);
        ctx.ev("representatives checked");
    }
    ctx.evn("subgraphs returned", parts.len());
    ensure_eq!(parts.len(), want.len(), "{}: number of subgraphs, the components are {:?}", what, comp.values().collect::<BTreeSet<_>>());
    let mut seen = BTreeSet::new();
    for (i, p) in parts.iter().enumerate() {
        let first = match p.node_indices().next() {
            None => return Err(format!("{}: subgraph {} is empty", what, i)),
            Some(x) => x.id(),
        };
        let c = *comp.get(&first).ok_or_else(|| format!("{}: subgraph {} contains {}, which is not a node of the graph", what, i, first))?;
        ensure!(seen.insert(c), "{}: two subgraphs hold parts of the component of {}", what, first);
        let w = &want[&c];
        check_graph(ctx, p.as_ref(), w, ALL, w.max_seen, &format!("{}: subgraph of the component of {}", what, first))?;
        ensure!(p.as_ref().as_graph().is_directed() == m.directed, "{}: direction of a subgraph", what);
    }
    Ok(())
}

fn case<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    let cut = |e: String| e.chars().take(3000).collect::<String>();
    let big = ctx.case % 1009 < 10 && ctx.case >= 1009;
    let u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize(), L::max_usize(), false);
    let (g, m): (TypedGraphMap<Id, NL, EL, Ty, L>, Model<NL, EL>) = if big {
        let n = (*ctx.rng.pick(&[256usize, 256, 3000, 3000, 3000, 20_000])).min(Id::max_usize().saturating_add(1));
        let mut m = big_model(&mut ctx.rng, Ty::DIRECTED, n, &u);
        if ctx.rng.chance(1, 2) {
            // without its hub it falls apart
            let hub = m.nodes.keys().copied().max_by_key(|k| m.edges.keys().filter(|(a, b)| a == k || b == k).count()).unwrap();
            if hub + 1 < n {
                let (l, e) = (n - 1, m.edges.len());
                let _ = e;
                m.remove_node(l);
                m.edges.retain(|(a, b), _| *a != hub && *b != hub);
            }
        }
        ctx.ev("large graphs");
        (m.to_graphmap(&mut ctx.rng), m)
    } else if ctx.rng.chance(1, 2) {
        let steps = *ctx.rng.pick(&[0usize, 3, 10, 30, 60]);
        random_graph(ctx, &u, steps)?
    } else {
        let m = shaped(&mut ctx.rng, Ty::DIRECTED, &u.ids, &u);
        (m.to_graphmap(&mut ctx.rng), m)
    };
    ctx.describe(format!("{}/{}/{}/{} ", Id::NAME, NL::NAME, EL::NAME, L::NAME));
    ctx.describe_add(&if big { format!("large, {} nodes", m.nodes.len()) } else { m.brief() });
    {
        let b: Box<DynGraph<'static, Id, NL, EL, L>> = Ty::gm_box(g);
        split(ctx, b.as_ref(), &m, "GraphMap").map_err(cut)?;
        check_graph(ctx, b.as_ref(), &m, MEMBER | LABEL, m.max_seen, "the graph after splitting it").map_err(cut)?;
    }
    let d = densify(&m);
    for (name, g) in impls::<Id, NL, EL, Ty, L>(ctx, &d) {
        split(ctx, g.as_ref(), &d, name).map_err(cut)?;
    }
    if m.edges.len() >= 2 {
        let k = m.fingerprint();
        ctx.nontrivial(k);
    }
    Ok(())
}

fn run(ctx: &mut Ctx) -> CaseResult {
    let sel = ctx.case;
    dispatch!(sel, case(ctx))
}

fn main() {
    driver::main(CheckDef {
        id: "C17",
        level: "exploration",
        rule: "each case splits a labelled graph (history with removals, or shaped: paths, cycles, stars, trees, several components, self-loops, isolated nodes; contiguous, gapped and top-of-range ids) into connected subgraphs, through both entry points, on all four implementations; every returned graph is queried in full and compared with the part of the abstract graph its component makes up (nodes, edges, labels, label tables, counts, adjacency, direction); the number of parts must be the number of components. Every 1009 cases ten graphs of up to 20000 nodes. Non-trivial: at least two edges; distinct by content.",
        assumptions: &["the label count stays within what the label-id type can number"],
        quick: 5000,
        thorough: 250000,
        run,
        mem_mb: 4096,
    })
}
