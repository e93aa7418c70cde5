//! C14: breadth-first search.
use harness::history::*;
use harness::impls::*;
use harness::traverse::*;
use harness::*;
use rust_graph::algorithm::Bfs;
use rust_graph::graph_impl::TypedGraphMap;

fn walk<'a, Id: HId, NL: HLabel, EL: HLabel, L: HId>(
    ctx: &mut Ctx,
    adj: &Adj,
    absent: &[usize],
    mk: &dyn Fn(Option<Id>) -> Bfs<'a, Id, NL, EL, L>,
    name: &str,
) -> CaseResult
where
    NL: 'a,
    EL: 'a,
{
    let nodes: Vec<usize> = adj.keys().copied().collect();
    if nodes.is_empty() {
        return Ok(());
    }
    let mut starts = vec![None, Some(*ctx.rng.pick(&nodes))];
    if nodes.len() <= 6 {
        starts = nodes.iter().map(|x| Some(*x)).chain([None]).collect();
    } else if nodes.len() < 1000 {
        starts.push(Some(*ctx.rng.pick(&nodes)));
        starts.push(Some(nodes[nodes.len() - 1]));
    }
    for s in starts {
        let what = format!("{}: Bfs from {:?}", name, s);
        let w = guarded(|| mk(s.map(Id::new))).map_err(|e| format!("{}: {}", what, e))?;
        drive(ctx, adj, w, s, true, &what)?;
    }
    for a in absent {
        ensure!(guarded(|| mk(Some(Id::new(*a)))).is_err(), "{}: Bfs from the absent node {} is not rejected", name, a);
        ctx.ev("absent start nodes rejected");
    }
    Ok(())
}

fn case<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    let cut = |e: String| e.chars().take(3000).collect::<String>();
    let lim = Id::max_usize().min(if ctx.case % 1009 < 10 { 300_000 } else { 100_000 });
    let big = ctx.case % 1009 < 10 && ctx.case >= 1009;
    let u = universe::<NL, EL>(&mut ctx.rng, lim, L::max_usize(), false);
    ctx.describe(format!("{}/{}/{} ", Id::NAME, if Ty::DIRECTED { "directed" } else { "undirected" }, L::NAME));
    // a graph with a history, or a shaped one
    let (g, m): (TypedGraphMap<Id, NL, EL, Ty, L>, Model<NL, EL>) = if big {
        let n = (*ctx.rng.pick(&[300usize, 300, 5000, 5000, 5000, 60_000, 70_000, 140_000])).min(lim + 1);
        let m = if ctx.rng.chance(1, 2) {
            let mut m = big_model(&mut ctx.rng, Ty::DIRECTED, n, &u);
            if n > 20_000 {
                few_runs(&mut m);
            }
            m
        } else {
            let mut m = Model::new(Ty::DIRECTED);
            for i in 0..n {
                m.add_node(i, None);
                if i > 0 {
                    m.add_edge(i - 1, i, None);
                }
            }
            if n > 20_000 && Ty::DIRECTED {
                few_runs(&mut m);
            }
            m
        };
        ctx.ev("large graphs");
        (m.to_graphmap(&mut ctx.rng), m)
    } else if ctx.rng.chance(1, 3) {
        let steps = *ctx.rng.pick(&[3usize, 10, 30, 60]);
        random_graph(ctx, &u, steps)?
    } else {
        let m = shaped(&mut ctx.rng, Ty::DIRECTED, &u.ids, &u);
        (m.to_graphmap(&mut ctx.rng), m)
    };
    ctx.describe_add(&if big { format!("large, {} nodes", m.nodes.len()) } else { m.brief() });
    let adj = m.out_adj();
    let mut absent: Vec<usize> = vec![0, 1, lim, m.nodes.keys().last().map_or(0, |x| x + 1)];
    absent.extend(u.ids.iter().copied());
    absent.retain(|a| *a <= Id::max_usize() && !m.nodes.contains_key(a));
    absent.push(Id::max_usize());
    absent.retain(|a| !m.nodes.contains_key(a));
    absent.dedup();
    ctx.rng.shuffle(&mut absent);
    absent.truncate(3);
    walk(ctx, &adj, &absent, &|s| Ty::bfs_gm(&g, s), "GraphMap").map_err(cut)?;

    let d = densify(&m);
    if !d.nodes.is_empty() && (big || ctx.rng.chance(1, 2)) {
        let dadj = d.out_adj();
        let n = d.nodes.len();
        let absent: Vec<usize> = [n, Id::max_usize()].iter().copied().filter(|a| *a <= Id::max_usize() && !d.nodes.contains_key(a)).collect();
        let st = static_of::<Id, NL, EL, Ty, L>(&mut ctx.rng, &d);
        walk(ctx, &dadj, &absent, &|s| Ty::bfs_st(&st, s), "StaticGraph").map_err(cut)?;
        let mm = mmap_of::<Id, NL, EL, Ty, L>(ctx, &d);
        walk(ctx, &dadj, &absent, &|s| Bfs::new(&mm, s), "StaticGraphMmap").map_err(cut)?;
    }
    if m.edges.len() >= 2 {
        let k = m.fingerprint();
        ctx.nontrivial(k);
    }
    Ok(())
}

fn run(ctx: &mut Ctx) -> CaseResult {
    let sel = ctx.case;
    dispatch!(sel, case(ctx))
}

fn main() {
    driver::main(CheckDef {
        id: "C14",
        level: "exploration",
        rule: "each case builds a graph of 1..40 nodes (paths, cycles, stars, trees, layers, dense, sparse, several components, self-loops, or the result of a mutation history with removals; contiguous, gapped and top-of-range ids) and runs breadth-first traversals from every or several start nodes and from none on the hash-map, static and memory-mapped implementation; an order oracle accepts exactly the valid breadth-first orders (every yielded node must be an unvisited neighbour of the earliest visited node that still has one; a new run only when none is left); each node once, None for ever afterwards, copies taken on the way judged too, absent start nodes must be refused. Every 1009 cases ten graphs of up to 140000 nodes (or as many as ids allow). Non-trivial: at least two edges; distinct by content.",
        assumptions: &["node ids up to 100000 (a traversal allocates a bit per id up to the largest)", "the graph has at least one node"],
        quick: 16000,
        thorough: 400000,
        run,
        mem_mb: 4096,
    })
}
