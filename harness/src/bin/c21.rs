//! C21: graph generators.
use harness::observe::*;
use harness::*;
use rust_graph::generic::{DefaultId, Directed, EdgeTrait, GraphLabelTrait, GraphTrait, Undirected};
use rust_graph::graph_gen::*;
use rust_graph::graph_impl::TypedGraphMap;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Empty,
    Complete,
    Gnp(f32),
    Gnm(usize),
}

fn generate<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir>(kind: Kind, n: usize, nl: Option<(Vec<NL>, Vec<EL>)>) -> TypedGraphMap<Id, NL, EL, Ty> {
    match (kind, nl) {
        (Kind::Empty, Some((a, b))) => empty_graph(n, a, b),
        (Kind::Empty, None) => empty_graph_unlabeled(n),
        (Kind::Complete, Some((a, b))) => complete_graph(n, a, b),
        (Kind::Complete, None) => complete_graph_unlabeled(n),
        (Kind::Gnp(p), Some((a, b))) => random_gnp_graph(n, p, a, b),
        (Kind::Gnp(p), None) => random_gnp_graph_unlabeled(n, p),
        (Kind::Gnm(m), Some((a, b))) => random_gnm_graph(n, m, a, b),
        (Kind::Gnm(m), None) => random_gnm_graph_unlabeled(n, m),
    }
}

fn possible(directed: bool, n: usize) -> usize {
    let p = n * n.saturating_sub(1);
    if directed { p } else { p / 2 }
}

fn labels<X: HLabel>(rng: &mut Rng, cap: usize) -> Vec<X> {
    let k = (*rng.pick(&[0usize, 0, 1, 2, 3, 5, 9])).min(cap.min(X::MAX));
    let mut v: Vec<X> = (0..k).map(|i| X::make(i)).collect();
    rng.shuffle(&mut v);
    if !v.is_empty() && rng.chance(1, 4) {
        // the same label listed more than once
        for _ in 0..rng.range(1, 3) {
            let x = rng.pick(&v).clone();
            v.push(x);
        }
    }
    v
}

fn class<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir>(ctx: &mut Ctx) -> CaseResult {
    let cut = |e: String| e.chars().take(3000).collect::<String>();
    let max = Id::max_usize().saturating_add(1);
    let n = match ctx.rng.below(12) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 if ctx.rng.chance(1, 40) => max.min(256),
        5 if ctx.rng.chance(1, 20) => 90,
        _ => ctx.rng.range(2, 20),
    };
    let total = possible(Ty::DIRECTED, n);
    let kind = match ctx.rng.below(9) {
        0 => Kind::Empty,
        1 => Kind::Complete,
        2 => Kind::Gnp(0.0),
        3 => Kind::Gnp(1.0),
        4 => Kind::Gnp(*ctx.rng.pick(&[0.5f32, 0.01, 0.99, f32::MIN_POSITIVE, 1.0 - f32::EPSILON / 2.0, -0.0])),
        5 => Kind::Gnm(0),
        6 => Kind::Gnm(total),
        _ => Kind::Gnm(ctx.rng.below(total + 1)),
    };
    let lists = if ctx.rng.chance(1, 5) { None } else { Some((labels::<NL>(&mut ctx.rng, Id::max_usize()), labels::<EL>(&mut ctx.rng, Id::max_usize()))) };
    ctx.describe(format!("{:?} n={} {} {}/{}/{} labels {:?}", kind, n, if Ty::DIRECTED { "directed" } else { "undirected" }, Id::NAME, NL::NAME, EL::NAME, lists));
    let g: TypedGraphMap<Id, NL, EL, Ty> = guarded(|| generate(kind, n, lists.clone()))?;
    ctx.ev("graphs generated");
    // read it back and judge its class
    let (nls, els) = lists.unwrap_or_default();
    let ids: BTreeSet<usize> = g.node_indices().map(|i| i.id()).collect();
    ensure_eq!(ids, (0..n).collect::<BTreeSet<_>>(), "node ids");
    let mut m: Model<NL, EL> = Model::new(Ty::DIRECTED);
    for i in 0..n {
        let l = g.get_node_label(Id::new(i)).cloned();
        match &l {
            None => ensure!(nls.is_empty(), "node {} has no label, the list is {:?}", i, nls),
            Some(l) => ensure!(nls.contains(l), "node {} has the label {:?}, which is not in {:?}", i, l, nls),
        }
        m.add_node(i, l);
    }
    for e in g.edges() {
        let (s, t) = (e.get_start(), e.get_target());
        ensure!(s != t, "a self-loop on {:?}", s);
        let l = g.get_edge_label(s, t).cloned();
        match &l {
            None => ensure!(els.is_empty(), "edge {:?}-{:?} has no label, the list is {:?}", s, t, els),
            Some(l) => ensure!(els.contains(l), "edge {:?}-{:?} has the label {:?}, which is not in {:?}", s, t, l, els),
        }
        ensure!(!m.has_edge(s.id(), t.id()), "edge {:?}-{:?} is there twice", s, t);
        m.add_edge(s.id(), t.id(), l);
    }
    let want = match kind {
        Kind::Empty => Some(0),
        Kind::Complete => Some(total),
        Kind::Gnm(k) => Some(k),
        Kind::Gnp(p) if p <= 0.0 => Some(0),
        Kind::Gnp(p) if p >= 1.0 => Some(total),
        _ => None,
    };
    if let Some(w) = want {
        ensure_eq!(m.edges.len(), w, "number of edges");
    }
    check_graph(ctx, Ty::gm(&g), &m, ALL, m.nodes.keys().last().copied(), "generated graph").map_err(cut)?;
    // impossible parameters
    let bad: Vec<Kind> = vec![
        Kind::Gnp(-f32::MIN_POSITIVE),
        Kind::Gnp(1.0 + f32::EPSILON),
        Kind::Gnp(f32::NAN),
        Kind::Gnp(f32::INFINITY),
        Kind::Gnp(f32::NEG_INFINITY),
        Kind::Gnp(-1.0),
        Kind::Gnp(2.0),
        Kind::Gnm(total + 1),
        Kind::Gnm(total * 2 + 1),
        // more than fits, though less than twice or squared
        Kind::Gnm(n * n + 1),
        Kind::Gnm(total + 1 + ctx.rng.below(total + 1)),
    ];
    if n <= 20 {
        for k in bad {
            let l = if ctx.rng.chance(1, 2) { None } else { Some((nls.clone(), els.clone())) };
            let r = guarded(|| {
                let g: TypedGraphMap<Id, NL, EL, Ty> = generate(k, n, l);
                g.edge_count()
            });
            if let Ok(e) = r {
                return Err(format!("impossible parameters {:?} with n={} were accepted and gave {} edges of {}", k, n, e, total));
            }
            ctx.ev("impossible parameters rejected");
        }
    }
    if !m.edges.is_empty() {
        let k = m.fingerprint() ^ n as u64;
        ctx.nontrivial(k);
    }
    Ok(())
}

/// `x` of `r` draws with probability `p`: judged a bias when, by Chernoff's bound, a count so far
/// off happens less than once in 10^17 unbiased runs.
fn fair(ctx: &mut Ctx, x: usize, r: usize, p: f64, what: &str) -> CaseResult {
    if r == 0 {
        return Ok(());
    }
    let (x, r) = (x as f64, r as f64);
    if p <= 1e-12 || p >= 1.0 - 1e-12 {
        let p = p.round();
        ensure!(x == r * p, "{}: {} of {} draws, expected {}", what, x, r, r * p);
        return Ok(());
    }
    let q = x / r;
    let part = |a: f64, b: f64| if a <= 0.0 { 0.0 } else { a * (a / b).ln() };
    let odds = r * (part(q, p) + part(1.0 - q, 1.0 - p));
    ctx.ev("frequencies judged");
    ensure!(odds <= 40.0, "{}: {} of {} draws, expected {:.1} +- {:.1} (less likely than e^-{:.0})", what, x, r, r * p, (r * p * (1.0 - p)).sqrt(), odds);
    Ok(())
}

/// Many draws from one generator: frequencies of edges, pairs of edges, subsets and labels.
fn distribution<Ty: Dir>(ctx: &mut Ctx) -> CaseResult {
    let rare = ctx.rng.chance(1, 4);
    let n = if rare { ctx.rng.range(2, 4) } else { ctx.rng.range(2, 7) };
    let total = possible(Ty::DIRECTED, n);
    let r = if ctx.tier == Tier::Quick { if rare { 9000 } else { 3000 } } else { 20_000 };
    let k = ctx.rng.range(1, 5);
    let lists: (Vec<u32>, Vec<String>) = ((0..k as u32).collect(), (0..ctx.rng.range(1, 4)).map(|i| i.to_string()).collect());
    let kind = match ctx.rng.below(4) {
        _ if rare => Kind::Gnp(*ctx.rng.pick(&[0.01f32, 0.015, 0.02, 0.03, 0.97, 0.985, 0.99])),
        0 => Kind::Complete,
        1 => Kind::Gnm(ctx.rng.below(total + 1)),
        _ => Kind::Gnp(*ctx.rng.pick(&[0.05f32, 0.1, 0.25, 1.0 / 3.0, 0.5, 0.6, 0.75, 0.9, 0.95])),
    };
    ctx.describe(format!("{} draws of {:?} n={} {}, {} node and {} edge labels", r, kind, n, if Ty::DIRECTED { "directed" } else { "undirected" }, k, lists.1.len()));
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).filter(|(a, b)| if Ty::DIRECTED { a != b } else { a < b }).collect();
    let mut one = vec![0usize; pairs.len()];
    let mut two: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut subsets: BTreeMap<u64, usize> = BTreeMap::new();
    let mut nlab: BTreeMap<(usize, u32), usize> = BTreeMap::new();
    let mut nsame: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut elab: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut esame: BTreeMap<(usize, usize), (usize, usize)> = BTreeMap::new();
    let mut edges = 0;
    for _ in 0..r {
        let g: TypedGraphMap<DefaultId, u32, String, Ty> = generate(kind, n, Some(lists.clone()));
        ctx.ev("graphs drawn");
        let nl: Vec<u32> = (0..n).map(|i| *g.get_node_label(i as DefaultId).unwrap()).collect();
        for i in 0..n {
            *nlab.entry((i, nl[i])).or_default() += 1;
            for j in 0..i {
                if nl[i] == nl[j] {
                    *nsame.entry((j, i)).or_default() += 1;
                }
            }
        }
        let mut mask = 0u64;
        let mut el: Vec<Option<usize>> = vec![None; pairs.len()];
        for (x, (a, b)) in pairs.iter().enumerate() {
            if g.has_edge(*a as DefaultId, *b as DefaultId) {
                mask |= 1 << x;
                one[x] += 1;
                edges += 1;
                let l: usize = g.get_edge_label(*a as DefaultId, *b as DefaultId).unwrap().parse().unwrap();
                el[x] = Some(l);
                *elab.entry((x, l)).or_default() += 1;
                for y in 0..x {
                    if let Some(k) = el[y] {
                        *two.entry((y, x)).or_default() += 1;
                        let e = esame.entry((y, x)).or_default();
                        e.1 += 1;
                        if k == l {
                            e.0 += 1;
                        }
                    }
                }
            }
        }
        *subsets.entry(mask).or_default() += 1;
    }
    let t = total as f64;
    let (p1, p2) = match kind {
        Kind::Gnp(p) => (p as f64, (p as f64) * (p as f64)),
        Kind::Gnm(m) => (m as f64 / t, if total > 1 { (m as f64 / t) * ((m as f64 - 1.0) / (t - 1.0)) } else { 0.0 }),
        _ => (1.0, 1.0),
    };
    for (x, e) in pairs.iter().enumerate() {
        fair(ctx, one[x], r, p1, &format!("edge {:?}", e))?;
        for y in 0..x {
            fair(ctx, *two.get(&(y, x)).unwrap_or(&0), r, p2, &format!("edges {:?} and {:?} together", pairs[y], e))?;
            if let Some((s, both)) = esame.get(&(y, x)) {
                fair(ctx, *s, *both, 1.0 / lists.1.len() as f64, &format!("edges {:?} and {:?} having the same label", pairs[y], e))?;
            }
        }
        for l in 0..lists.1.len() {
            fair(ctx, *elab.get(&(x, l)).unwrap_or(&0), one[x], 1.0 / lists.1.len() as f64, &format!("label {} on edge {:?}", l, e))?;
        }
    }
    for i in 0..n {
        for l in 0..k {
            fair(ctx, *nlab.get(&(i, l as u32)).unwrap_or(&0), r, 1.0 / k as f64, &format!("label {} on node {}", l, i))?;
        }
        for j in 0..i {
            fair(ctx, *nsame.get(&(j, i)).unwrap_or(&0), r, 1.0 / k as f64, &format!("nodes {} and {} having the same label", j, i))?;
        }
    }
    if let Kind::Gnp(_) = kind {
        fair(ctx, edges, r * total, p1, "all edges")?;
    }
    // whole edge sets, where there are few enough
    if pairs.len() <= 12 {
        for mask in 0u64..1 << pairs.len() {
            let c = mask.count_ones() as usize;
            let p = match kind {
                Kind::Gnp(p) => (p as f64).powi(c as i32) * (1.0 - p as f64).powi((total - c) as i32),
                Kind::Complete => (c == total) as usize as f64,
                Kind::Gnm(m) if m == c => 1.0 / (0..m).fold(1.0, |b, i| b * (t - i as f64) / (i as f64 + 1.0)),
                _ => 0.0,
            };
            fair(ctx, *subsets.get(&mask).unwrap_or(&0), r, p, &format!("the edge set {:?}", (0..pairs.len()).filter(|x| mask >> x & 1 == 1).map(|x| pairs[x]).collect::<Vec<_>>()))?;
        }
    }
    ctx.evn("distinct edge sets drawn", subsets.len());
    ctx.nontrivial(subsets.len() as u64 ^ (edges as u64) << 20);
    Ok(())
}

/// Draws from the labels 0..k: each label, ranges and residues of them, and repetitions.
fn spread(ctx: &mut Ctx, drawn: &[usize], k: usize, what: &str) -> CaseResult {
    let mut one = vec![0usize; k];
    for x in drawn {
        ensure!(*x < k, "{} label {} is not in the list", what, *x as isize);
        one[*x] += 1;
    }
    let n = drawn.len();
    for l in 0..k {
        fair(ctx, one[l], n, 1.0 / k as f64, &format!("{} label {} of {}", what, l, k))?;
    }
    for parts in [2usize, 3, 16, 256] {
        for i in 0..parts.min(k) {
            let (a, b) = (k * i / parts, k * (i + 1) / parts);
            fair(ctx, one[a..b].iter().sum(), n, (b - a) as f64 / k as f64, &format!("{} labels {}..{} of {}", what, a, b, k))?;
            let r: Vec<usize> = (i..k).step_by(parts).collect();
            fair(ctx, r.iter().map(|x| one[*x]).sum(), n, r.len() as f64 / k as f64, &format!("{} labels {} modulo {} of {}", what, i, parts, k))?;
        }
    }
    for far in [1usize, 2] {
        // adjacent draws are independent, so the repetitions are (pairwise) too
        let same = (far..n).filter(|i| drawn[*i] == drawn[*i - far]).count();
        fair(ctx, same, n.saturating_sub(far), 1.0 / k as f64, &format!("{} label repeated {} later", what, far))?;
    }
    Ok(())
}

/// One large sparse or dense graph: density overall, per node and per distance.
fn large<Ty: Dir>(ctx: &mut Ctx) -> CaseResult {
    let n = *ctx.rng.pick(&[200usize, 400]);
    let total = possible(Ty::DIRECTED, n);
    let (kind, p) = if ctx.rng.chance(1, 2) {
        let p = *ctx.rng.pick(&[0.01f32, 0.03, 0.5, 0.97]);
        (Kind::Gnp(p), p as f64)
    } else {
        let m = *ctx.rng.pick(&[total / 50, total / 2, total - total / 50]);
        (Kind::Gnm(m), m as f64 / total as f64)
    };
    ctx.describe(format!("large {:?} n={}", kind, n));
    // long lists of labels
    let lists: Option<(Vec<u32>, Vec<u32>)> = if ctx.rng.chance(1, 3) {
        None
    } else {
        let k = *ctx.rng.pick(&[2u32, 255, 256, 257, 300, 1000, 5000, 65_536, 65_537, 70_000]);
        Some(((0..*ctx.rng.pick(&[3u32, 17, 300, 66_000])).collect(), (0..k).collect()))
    };
    let g: TypedGraphMap<DefaultId, u32, u32, Ty> = generate(kind, n, lists.clone());
    ctx.ev("large graphs");
    if let Some((nl, el)) = lists {
        let nodes: Vec<usize> = (0..n).map(|i| g.get_node_label(i as DefaultId).map_or(usize::MAX, |l| *l as usize)).collect();
        spread(ctx, &nodes, nl.len(), "node")?;
        let mut pairs: Vec<_> = g.edge_indices().collect();
        pairs.sort();
        let edges: Vec<usize> = pairs.iter().map(|(s, t)| g.get_edge_label(*s, *t).map_or(usize::MAX, |l| *l as usize)).collect();
        spread(ctx, &edges, el.len(), "edge")?;
        let many: TypedGraphMap<DefaultId, u32, u32, Ty> = empty_graph(20_000, nl.clone(), el);
        let nodes: Vec<usize> = (0..20_000).map(|i| many.get_node_label(i as DefaultId).map_or(usize::MAX, |l| *l as usize)).collect();
        spread(ctx, &nodes, nl.len(), "node")?;
        ctx.ev("graphs with long label lists");
    }
    let mut rows = vec![0usize; n];
    let mut cols = vec![0usize; n];
    let mut gap = vec![0usize; n];
    let mut sum = 0;
    let mut seen = BTreeSet::new();
    for (s, t) in g.edge_indices() {
        let (s, t) = (s as usize, t as usize);
        ensure!(s != t && s < n && t < n, "edge {}-{}", s, t);
        let (s, t) = if Ty::DIRECTED { (s, t) } else { (s.min(t), s.max(t)) };
        ensure!(seen.insert((s, t)), "edge {}-{} twice", s, t);
        rows[s] += 1;
        cols[t] += 1;
        gap[s.max(t) - s.min(t)] += 1;
        sum += 1;
    }
    if let Kind::Gnm(m) = kind {
        ensure_eq!(sum, m, "number of edges");
    } else {
        fair(ctx, sum, total, p, "all edges")?;
    }
    for i in 0..n {
        let (r, c, d) = if Ty::DIRECTED { (n - 1, n - 1, 2 * (n - i)) } else { (n - 1 - i, i, n - i) };
        fair(ctx, rows[i], r, p, &format!("edges out of {}", i))?;
        fair(ctx, cols[i], c, p, &format!("edges into {}", i))?;
        if i > 0 {
            fair(ctx, gap[i], d, p, &format!("edges between ids {} apart", i))?;
        }
    }
    ctx.nontrivial(sum as u64);
    Ok(())
}

/// Millions of draws: never at 0, and as rarely as asked for otherwise.
fn sparse<Ty: Dir>(ctx: &mut Ctx) -> CaseResult {
    let n = 2500;
    let total = possible(Ty::DIRECTED, n);
    for k in 0..4 {
        let p = if k < 2 { 0.0 } else { *ctx.rng.pick(&[1e-6f32, 1e-5, 3e-5, 1e-4, 1e-3]) };
        ctx.describe(format!("sparse p={} n={}; ", p, n));
        let g: TypedGraphMap<DefaultId, u32, u32, Ty> = generate::<DefaultId, u32, u32, Ty>(Kind::Gnp(p), n, None);
        ensure_eq!(g.node_count(), n, "number of nodes");
        ensure_eq!(g.edge_indices().count(), g.edge_count(), "number of edges");
        if p == 0.0 {
            ensure_eq!(g.edge_count(), 0, "number of edges at probability 0");
        } else {
            fair(ctx, g.edge_count(), total, p as f64, "all edges")?;
        }
        ctx.evn("draws at small probabilities", total);
        ctx.nontrivial(g.edge_count() as u64 ^ (p.to_bits() as u64) << 32);
    }
    Ok(())
}

fn run(ctx: &mut Ctx) -> CaseResult {
    let sel = ctx.case;
    let dir = sel & 1 == 0;
    if sel / 2 % 20 == 1 && sel / 40 % 16 == 7 {
        return if dir { sparse::<Directed>(ctx) } else { sparse::<Undirected>(ctx) };
    }
    match sel / 2 % 20 {
        0 if dir => distribution::<Directed>(ctx),
        0 => distribution::<Undirected>(ctx),
        1 if dir => large::<Directed>(ctx),
        1 => large::<Undirected>(ctx),
        k => match k % 4 {
            0 if dir => class::<u32, String, u32, Directed>(ctx),
            0 => class::<u32, String, u32, Undirected>(ctx),
            1 if dir => class::<u8, u32, String, Directed>(ctx),
            1 => class::<u8, u32, String, Undirected>(ctx),
            2 if dir => class::<usize, (), u8, Directed>(ctx),
            2 => class::<usize, (), u8, Undirected>(ctx),
            _ if dir => class::<u16, u8, (), Directed>(ctx),
            _ => class::<u16, u8, (), Undirected>(ctx),
        },
    }
}

fn main() {
    driver::main(CheckDef {
        id: "C21",
        level: "exploration",
        rule: "18 of 20 cases generate one graph (every generator, labelled and not, n from 0 to 256 incl. the whole u8 range, p incl. 0, 1, the floats next to them, m incl. 0 and all, duplicate and empty label lists, four id types, both directions), read it back, judge its class and compare every query with what was read; each also tries eleven impossible parameter sets, which must be refused. 1 of 20 draws thousands of graphs from one generator and judges, by Chernoff's bound at e^-40, the frequency of every edge, every pair of edges, every whole edge set, every label on every node and edge and every pair of equal labels; 1 of 20 judges densities per node and id distance of graphs of up to 400 nodes, and labels drawn from lists of up to 70000 by value, range, residue and repetition (every 16th of these instead: 25 million draws at probability 0 and down to 1e-6). Non-trivial: the graph has edges; distinct by content.",
        assumptions: &["biases smaller than the tests resolve go unseen", "the generators' own randomness is not seeded, so the graphs differ from run to run", "label lists naming a label twice are judged for membership only"],
        quick: 12800,
        thorough: 100000,
        run,
        mem_mb: 4096,
    })
}
