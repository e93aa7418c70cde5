//! C01: a mutable graph holds exactly what its mutation history leaves in it.
use harness::history::*;
use harness::observe::*;
use harness::*;
use rust_graph::generic::{MutEdgeTrait, MutNodeTrait, NodeTrait, EdgeTrait};
use rust_graph::graph_impl::graph_map::new_general_graphmap;

fn case<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    let u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize(), L::max_usize(), false);
    ctx.describe(format!(
        "{}/{}/{}/{}/{} ids {:?}, ",
        Id::NAME, NL::NAME, EL::NAME, L::NAME, if Ty::DIRECTED { "directed" } else { "undirected" }, u.ids
    ));
    let (mut g, mut m) = start::<Id, NL, EL, Ty, L>(ctx, &u);
    let steps = *ctx.rng.pick(&[5usize, 15, 40, 40, 80, 150]);
    let every = ctx.rng.range(1, 12);
    // some histories grow first and shrink later
    let phased = ctx.rng.chance(1, 3);
    let w = Watch { returns: true, labels: true };
    let asp = MEMBER | LABEL | ABSENT | MAXID;
    let mut removed = false;
    for s in 0..steps {
        let mix = if !phased {
            MIX_ALL
        } else if s < steps / 2 {
            OpMix { add: 12, remove: 1, relabel: 2, views: 1, misc: 1 }
        } else {
            OpMix { add: 2, remove: 12, relabel: 2, views: 1, misc: 1 }
        };
        step(ctx, &mut g, &mut m, &u, mix, w)?;
        removed |= m.max_seen.map_or(false, |x| !m.nodes.contains_key(&x));
        if s % every == 0 {
            check_graph(ctx, Ty::gm(&g), &m, asp, m.max_seen, "during the history")?;
        }
    }
    check_graph(ctx, Ty::gm(&g), &m, ALL & !COUNT, m.max_seen, "after the history")?;
    if removed {
        ctx.ev("histories that removed the largest id");
    }
    ctx.describe_add(&format!("{} steps, ends with {} nodes and {} edges", steps, m.nodes.len(), m.edges.len()));
    if !m.edges.is_empty() || steps >= 40 {
        let k = m.fingerprint() ^ steps as u64;
        ctx.nontrivial(k);
    }
    Ok(())
}

fn large<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    large_history::<Id, NL, EL, Ty, L>(ctx, ALL & !COUNT)
}

/// The same through the trait objects a caller gets from `new_general_graphmap`.
fn boxed<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    let u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize(), L::max_usize(), false);
    ctx.describe(format!(
        "trait object {}/{}/{}/{}/{} ids {:?}, ",
        Id::NAME, NL::NAME, EL::NAME, L::NAME, if Ty::DIRECTED { "directed" } else { "undirected" }, u.ids
    ));
    let mut g: Box<DynGraph<'static, Id, NL, EL, L>> = new_general_graphmap(Ty::DIRECTED);
    let mut m: Model<NL, EL> = Model::new(Ty::DIRECTED);
    let steps = *ctx.rng.pick(&[3usize, 10, 30, 60]);
    for s in 0..steps {
        let known: Vec<(usize, usize)> = m.edges.keys().cloned().collect();
        {
            let x = match g.as_mut_graph() {
                Some(x) => x,
                None => return Err("as_mut_graph() of a new_general_graphmap is None".into()),
            };
            let (a, b) = if !known.is_empty() && ctx.rng.chance(1, 2) { *ctx.rng.pick(&known) } else { (u.id(&mut ctx.rng), u.id(&mut ctx.rng)) };
            let (a, b) = if !Ty::DIRECTED && ctx.rng.chance(1, 2) { (b, a) } else { (a, b) };
            let (i, j) = (Id::new(a), Id::new(b));
            match ctx.rng.below(8) {
                0 | 1 => {
                    let l: Option<NL> = u.nl(&mut ctx.rng);
                    ctx.step(format!("add_node({}, {:?})", a, l));
                    ensure_eq!(x.add_node(i, l.clone()), m.add_node(a, l), "add_node({})", a);
                }
                2 | 3 | 4 => {
                    let l: Option<EL> = u.el(&mut ctx.rng);
                    ctx.step(format!("add_edge({}, {}, {:?})", a, b, l));
                    ensure_eq!(x.add_edge(i, j, l.clone()), m.add_edge(a, b, l), "add_edge({}, {})", a, b);
                }
                5 => {
                    ctx.step(format!("remove_edge({}, {})", a, b));
                    ensure_eq!(x.remove_edge(i, j).is_some(), m.remove_edge(a, b).is_some(), "remove_edge({}, {})", a, b);
                }
                6 => {
                    ctx.step(format!("remove_node({})", a));
                    ensure_eq!(x.remove_node(i).is_some(), m.remove_node(a).is_some(), "remove_node({})", a);
                }
                _ => {
                    ctx.step("clearing labels through views".into());
                    for mut v in x.nodes_mut().take(m.nodes.len() + 16) {
                        if v.get_id().id() % 2 == s % 2 {
                            v.set_label_id(None);
                            m.nodes.insert(v.get_id().id(), None);
                        }
                    }
                    ensure_eq!(x.get_edge_mut(i, j).is_some(), m.has_edge(a, b), "get_edge_mut({}, {})", a, b);
                    if m.has_edge(a, b) {
                        x.get_edge_mut(i, j).set_label_id(None);
                        let k = m.key(a, b);
                        m.edges.insert(k, None);
                    }
                }
            }
        }
        if s % 8 == 7 {
            check_graph(ctx, g.as_ref(), &m, ALL & !COUNT, m.max_seen, "trait object during the history")?;
        }
    }
    check_graph(ctx, g.as_ref(), &m, ALL & !COUNT, m.max_seen, "trait object after the history")?;
    ctx.ev("histories through trait objects");
    ctx.describe_add(&format!("{} steps, ends with {} nodes and {} edges", steps, m.nodes.len(), m.edges.len()));
    if !m.edges.is_empty() {
        let k = m.fingerprint() ^ (steps as u64) << 32;
        ctx.nontrivial(k);
    }
    Ok(())
}

fn run(ctx: &mut Ctx) -> CaseResult {
    if ctx.case % 1009 < 10 && ctx.case >= 1009 {
        let sel = ctx.case % 1009;
        return dispatch!(sel, large(ctx));
    }
    let sel = ctx.case / 8;
    if ctx.case % 8 == 7 {
        return dispatch!(sel, boxed(ctx));
    }
    let sel = ctx.case;
    dispatch!(sel, case(ctx))
}

fn main() {
    driver::main(CheckDef {
        id: "C01",
        level: "exploration",
        rule: "each case replays one random mutation history (additions, re-additions, self-loops, removals, relabellings, mutable views, clones) of 5..150 steps on a real TypedGraphMap and on an abstract graph, comparing every return value (one case in eight runs the history through the trait objects of new_general_graphmap) and, every few steps and at the end, every membership test, lookup, enumeration, label and the largest id; 10 type/direction combinations, dense, gapped, scattered and top-of-range ids. Every 1009 cases ten histories on up to 80000 nodes that lose hubs, most nodes or most edges and grow again. Non-trivial: the final graph has an edge or the history has at least 40 steps; distinct: by final content and length.",
        assumptions: &["the label count stays within what the label-id type can number"],
        quick: 36000,
        thorough: 600000,
        run,
        mem_mb: 4096,
    })
}
