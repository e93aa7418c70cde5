//! C04: every node and edge carries exactly the label last given to it.
use harness::history::*;
use harness::impls::*;
use harness::observe::*;
use harness::*;
use rust_graph::graph_impl::TypedGraphMap;

const ASP: u32 = LABEL;

fn big<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    if ctx.rng.chance(1, 3) {
        return large_history::<Id, NL, EL, Ty, L>(ctx, ASP);
    }
    let u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize(), L::max_usize(), true);
    let n = *ctx.rng.pick(&[200usize, 3000, 20_000, 70_000, 70_000]);
    let n = n.min(Id::max_usize().saturating_add(1));
    let m: Model<NL, EL> = big_model(&mut ctx.rng, Ty::DIRECTED, n, &u);
    ctx.describe(format!("large graph with {} nodes and {} edges, {}", n, m.edges.len(), Id::NAME));
    for (name, g) in impls::<Id, NL, EL, Ty, L>(ctx, &m) {
        check_graph(ctx, g.as_ref(), &m, ASP, m.max_seen, name).map_err(|e| e.chars().take(3000).collect::<String>())?;
        ctx.ev("large graphs observed");
    }
    let k = m.fingerprint();
    ctx.nontrivial(k);
    Ok(())
}

fn case<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    if ctx.case % 1009 < 10 && ctx.case >= 1009 {
        return big::<Id, NL, EL, Ty, L>(ctx);
    }
    let u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize(), L::max_usize(), false);
    ctx.describe(format!(
        "{}/{}/{}/{}/{} ids {:?}, ",
        Id::NAME, NL::NAME, EL::NAME, L::NAME, if Ty::DIRECTED { "directed" } else { "undirected" }, u.ids
    ));
    let (mut g, mut m): (TypedGraphMap<Id, NL, EL, Ty, L>, Model<NL, EL>) = start(ctx, &u);
    let steps = *ctx.rng.pick(&[5usize, 15, 40, 40, 80]);
    let every = ctx.rng.range(1, 10);
    let mix = OpMix { views: 4, ..MIX_ALL };
    let w = Watch { returns: false, labels: false };
    for s in 0..steps {
        step(ctx, &mut g, &mut m, &u, mix, w)?;
        if s % every == 0 {
            check_graph(ctx, Ty::gm(&g), &m, ASP, m.max_seen, "during the history")?;
        }
    }
    check_graph(ctx, Ty::gm(&g), &m, ASP, m.max_seen, "after the history")?;
    ctx.describe_add(&format!("{} steps, ends with {} nodes and {} edges", steps, m.nodes.len(), m.edges.len()));
    // the same content in every implementation
    let d = densify(&m);
    for (name, g) in impls::<Id, NL, EL, Ty, L>(ctx, &d) {
        check_graph(ctx, g.as_ref(), &d, ASP, d.max_seen, name)?;
        ctx.ev(name);
    }
    if d.nodes.len() == m.nodes.len() && m.dense() {
        let s = g.into_static();
        check_graph(ctx, Ty::st(&s), &m, ASP, d.max_seen, "the history's graph made static")?;
    }
    if !m.edges.is_empty() {
        let k = m.fingerprint() ^ steps as u64;
        ctx.nontrivial(k);
    }
    Ok(())
}

fn run(ctx: &mut Ctx) -> CaseResult {
    let sel = ctx.case;
    dispatch!(sel, case(ctx))
}

fn main() {
    driver::main(CheckDef {
        id: "C04",
        level: "exploration",
        rule: "each case replays one random mutation history (incl. self-loops, re-additions, failing removals, mutable views) of 5..80 steps on a TypedGraphMap, then rebuilds its final content as hash-map graph, converted static graph, static graph from independently written adjacency arrays and memory-mapped dump; every label by lookup, view and enumeration, the label tables and all four histograms are compared with the abstract graph, after every few steps and on every implementation; 10 type/direction combinations; every 1009 cases ten large graphs of up to 80000 nodes with a hub, one in three of them losing hubs, nodes and edges and growing again. Non-trivial: the final graph has an edge; distinct: by final content and history length.",
        assumptions: &["the label count stays within what the label-id type can number"],
        quick: 24000,
        thorough: 300000,
        run,
        mem_mb: 4096,
    })
}
