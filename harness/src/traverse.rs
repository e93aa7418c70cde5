//! What both traversal monitors share: graph shapes, orders accepted, driving a traversal.
use crate::driver::{guarded, CaseResult, Ctx};
use crate::history::*;
use crate::model::*;
use crate::rng::Rng;
use crate::{ensure, ensure_eq};
use std::collections::{BTreeMap, BTreeSet};

pub type Adj = BTreeMap<usize, BTreeSet<usize>>;

/// Judges a complete traversal order; `start`: the node it had to start with.
pub fn verify_order(adj: &Adj, order: &[usize], start: Option<usize>, breadth: bool) -> Result<usize, String> {
    let mut seen = BTreeSet::new();
    for x in order {
        ensure!(adj.contains_key(x), "yields {}, which is not a node", x);
        ensure!(seen.insert(*x), "yields {} twice", x);
    }
    ensure_eq!(seen.len(), adj.len(), "number of nodes visited (not visited: {:?})", adj.keys().filter(|k| !seen.contains(k)).take(20).collect::<Vec<_>>());
    if let (Some(s), Some(f)) = (start, order.first()) {
        ensure_eq!(*f, s, "first node of the traversal");
    }
    // the unvisited neighbours of every node, lazily shrinking
    let mut visited = BTreeSet::new();
    let mut its: BTreeMap<usize, _> = BTreeMap::new();
    // breadth: first node of `path` with an unvisited neighbour; depth: last one
    let mut path: Vec<usize> = Vec::new();
    let mut head = 0;
    let mut runs = 0;
    for (pos, &y) in order.iter().enumerate() {
        loop {
            let x = if breadth { path.get(head).copied() } else { path.last().copied() };
            let x = match x {
                None => {
                    runs += 1;
                    break;
                }
                Some(x) => x,
            };
            let it = its.entry(x).or_insert_with(|| adj[&x].iter().copied().peekable());
            while it.peek().map_or(false, |z| visited.contains(z)) {
                it.next();
            }
            if it.peek().is_some() {
                ensure!(
                    adj[&x].contains(&y),
                    "{}-first order broken at position {}: {} comes next, but {} still has the unvisited neighbour {} (order so far: {:?})",
                    if breadth { "breadth" } else { "depth" },
                    pos,
                    y,
                    x,
                    it.peek().unwrap(),
                    &order[pos.saturating_sub(40)..pos + 1]
                );
                break;
            }
            if breadth {
                head += 1;
            } else {
                path.pop();
            }
        }
        visited.insert(y);
        path.push(y);
    }
    Ok(runs)
}

/// A model whose shape makes traversals interesting.
pub fn shaped<NL: HLabel, EL: HLabel>(rng: &mut Rng, directed: bool, ids: &[usize], u: &Universe) -> Model<NL, EL> {
    let k = ids.len();
    let mut m = Model::new(directed);
    for i in ids {
        let l = u.nl(rng);
        m.add_node(*i, l);
    }
    if k == 0 {
        return m;
    }
    let mut order: Vec<usize> = ids.to_vec();
    rng.shuffle(&mut order);
    let mut pairs: Vec<(usize, usize)> = Vec::new();
    match rng.below(8) {
        // path, possibly closed, possibly with chords
        0 => {
            pairs.extend((1..k).map(|i| (i - 1, i)));
            if k > 0 && rng.chance(1, 2) {
                pairs.push((k - 1, 0));
            }
            for _ in 0..rng.below(4) {
                pairs.push((rng.below(k), rng.below(k)));
            }
        }
        // star out of and into a hub
        1 => pairs.extend((1..k).map(|i| if rng.chance(2, 3) { (0, i) } else { (i, 0) })),
        // random tree
        2 => pairs.extend((1..k).map(|i| (rng.below(i), i))),
        // layers
        3 => {
            let w = rng.range(1, 4);
            for i in 0..k {
                for j in 0..k {
                    if j / w == i / w + 1 && rng.chance(2, 3) {
                        pairs.push((i, j));
                    }
                }
            }
        }
        // several small cycles
        4 => {
            let c = rng.range(1, 5);
            for i in 0..k {
                let b = i / c * c;
                let e = (b + c).min(k);
                pairs.push((i, if i + 1 < e { i + 1 } else { b }));
            }
        }
        // dense
        5 => {
            for i in 0..k {
                for j in 0..k {
                    if rng.chance(2, 3) {
                        pairs.push((i, j));
                    }
                }
            }
        }
        // sparse random with self-loops
        _ => {
            for _ in 0..rng.below(3 * k + 1) {
                pairs.push((rng.below(k), rng.below(k)));
            }
        }
    }
    for (a, b) in pairs {
        let l = u.el(rng);
        m.add_edge(order[a], order[b], l);
    }
    m
}

/// Drives one traversal to its end, with a clone taken on the way, and judges both.
pub fn drive<Id: HId, W: Iterator<Item = Id> + Clone>(ctx: &mut Ctx, adj: &Adj, mut w: W, start: Option<usize>, breadth: bool, what: &str) -> CaseResult {
    let fork = if ctx.rng.chance(1, 3) { Some(ctx.rng.below(adj.len() + 1)) } else { None };
    let mut order = Vec::new();
    let mut copy: Option<(Vec<usize>, W)> = None;
    loop {
        if fork == Some(order.len()) && copy.is_none() {
            copy = Some((order.clone(), w.clone()));
        }
        match guarded(|| w.next()).map_err(|e| format!("{}: next() panicked after {} nodes: {}", what, order.len(), e))? {
            Some(x) => {
                order.push(x.id());
                ensure!(order.len() <= adj.len(), "{}: yields more than the {} nodes of the graph: {:?}", what, adj.len(), order.iter().rev().take(30).collect::<Vec<_>>());
            }
            None => break,
        }
    }
    ctx.evn("nodes visited", order.len());
    ctx.ev("traversals");
    let runs = verify_order(adj, &order, start, breadth).map_err(|e| format!("{}: {}", what, e))?;
    ctx.evn("runs", runs);
    for _ in 0..2 {
        ensure!(w.next().is_none(), "{}: yields a node after its end", what);
    }
    if let Some((mut o, mut c)) = copy {
        while let Some(x) = c.next() {
            o.push(x.id());
            ensure!(o.len() <= adj.len(), "{}: the copy yields too many nodes", what);
        }
        ctx.ev("copies of traversals");
        verify_order(adj, &o, start, breadth).map_err(|e| format!("{}, copied on the way: {}", what, e))?;
    }
    Ok(())
}

/// Closes a huge graph to one run, wherever it starts (choosing where the next run starts may take time in proportion to the graph,
/// and a traversal may choose differently).
pub fn few_runs<NL: HLabel, EL: HLabel>(m: &mut Model<NL, EL>) {
    let ids: Vec<usize> = m.nodes.keys().copied().collect();
    for i in 0..ids.len() {
        m.add_edge(ids[i], ids[(i + 1) % ids.len()], None);
    }
}
