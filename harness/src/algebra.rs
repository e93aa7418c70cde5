//! Union and difference of graphs: what both monitors share.
use crate::driver::{guarded, CaseResult, Ctx};
use crate::history::*;
use crate::impls::*;
use crate::model::*;
use crate::observe::*;
use crate::traverse::shaped;
use crate::{ensure, ensure_eq};
use rust_graph::algorithm::{graph_minus, graph_union};
use rust_graph::graph_impl::TypedGraphMap;

type Boxed<Id, NL, EL, L> = Box<DynGraph<'static, Id, NL, EL, L>>;
const ASP: u32 = MEMBER | COUNT | ADJ | LABEL | ABSENT;

pub fn union_model<NL: HLabel, EL: HLabel>(a: &Model<NL, EL>, b: &Model<NL, EL>) -> Model<NL, EL> {
    let mut r = Model::new(a.directed);
    for (n, l) in a.nodes.iter().chain(b.nodes.iter()) {
        r.nodes.insert(*n, l.clone());
    }
    for (k, l) in a.edges.iter().chain(b.edges.iter()) {
        r.edges.insert(*k, l.clone());
    }
    r
}

pub fn minus_model<NL: HLabel, EL: HLabel>(a: &Model<NL, EL>, b: &Model<NL, EL>) -> Model<NL, EL> {
    let mut r = Model::new(a.directed);
    for (n, l) in &a.nodes {
        if !b.nodes.contains_key(n) {
            r.nodes.insert(*n, l.clone());
        }
    }
    for (&(s, t), l) in &a.edges {
        if r.nodes.contains_key(&s) && r.nodes.contains_key(&t) {
            r.edges.insert((s, t), l.clone());
        }
    }
    r
}

/// A graph with ids from `ids` in some implementation.
fn operand<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx, u: &Universe) -> Result<(&'static str, Boxed<Id, NL, EL, L>, Model<NL, EL>), String> {
    if ctx.rng.chance(1, 3) {
        let steps = *ctx.rng.pick(&[0usize, 4, 12, 30]);
        let (g, m): (TypedGraphMap<Id, NL, EL, Ty, L>, Model<NL, EL>) = random_graph(ctx, u, steps)?;
        return Ok(("GraphMap with a history", Ty::gm_box(g), m));
    }
    let keep: Vec<usize> = u.ids.iter().copied().filter(|_| ctx.rng.chance(3, 4)).collect();
    let m: Model<NL, EL> = shaped(&mut ctx.rng, Ty::DIRECTED, &keep, u);
    if m.nodes.is_empty() || ctx.rng.chance(1, 3) {
        return Ok(("GraphMap", Ty::gm_box(m.to_graphmap::<Id, Ty, L>(&mut ctx.rng)), m));
    }
    let m = densify(&m);
    if ctx.rng.chance(1, 2) {
        Ok(("StaticGraph", Ty::st_box::<Id, NL, EL, L>(static_of(&mut ctx.rng, &m)), m))
    } else {
        Ok(("StaticGraphMmap", Box::new(mmap_of::<Id, NL, EL, Ty, L>(ctx, &m)), m))
    }
}

/// Random chains of one operation over a pool of graphs, results used as operands again.
pub fn chain<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx, minus: bool) -> CaseResult {
    let op = if minus { "-" } else { "+" };
    let expect = if minus { minus_model::<NL, EL> } else { union_model::<NL, EL> };
    let dense = ctx.rng.chance(2, 3);
    let mut u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize(), L::max_usize(), dense);
    u.ids.truncate(15);
    ctx.describe(format!("{}/{}/{}/{}/{} ids {:?}", Id::NAME, NL::NAME, EL::NAME, L::NAME, if Ty::DIRECTED { "directed" } else { "undirected" }, u.ids));
    let mut pool: Vec<(&'static str, Boxed<Id, NL, EL, L>, Model<NL, EL>)> = Vec::new();
    for _ in 0..ctx.rng.range(2, 4) {
        let x = operand::<Id, NL, EL, Ty, L>(ctx, &u)?;
        ctx.step(format!("operand {}: {} {}", pool.len(), x.0, x.2.brief()));
        pool.push(x);
    }
    let mut key = 0;
    for _ in 0..ctx.rng.range(1, 6) {
        let i = ctx.rng.below(pool.len());
        let j = ctx.rng.below(pool.len());
        let want = expect(&pool[i].2, &pool[j].2);
        let what = format!("{} [{}] {} {} [{}]", pool[i].0, i, op, pool[j].0, j);
        key = crate::rng::mix(key ^ want.fingerprint() ^ pool[j].2.fingerprint());
        if i == j {
            ctx.ev("a graph with itself");
        }
        let form = ctx.rng.below(5);
        let (name, got): (&'static str, Boxed<Id, NL, EL, L>) = match form {
            0 | 1 => {
                let fun = form == 0;
                let (a, b) = (&pool[i].1, &pool[j].1);
                let name = if fun { "function" } else { "borrowed operator" };
                let r: Boxed<Id, NL, EL, L> = if fun {
                    if minus { graph_minus(a.as_ref(), b.as_ref()) } else { graph_union(a.as_ref(), b.as_ref()) }
                } else {
                    // the operator ties its result to the operands: judge it here, then copy it out
                    let mk = |x: &DynGraph<'static, Id, NL, EL, L>, y: &DynGraph<'static, Id, NL, EL, L>, ctx: &mut Ctx| -> CaseResult {
                        let r = if minus { x - y } else { x + y };
                        check_graph(ctx, r.as_ref(), &want, ASP, want.max_seen, &format!("{} (borrowed operator)", what))
                    };
                    mk(a.as_ref(), b.as_ref(), ctx)?;
                    Ty::gm_box(want.to_graphmap::<Id, Ty, L>(&mut ctx.rng))
                };
                for k in [i, j] {
                    let (n, g, m) = &pool[k];
                    check_graph(ctx, g.as_ref(), m, ASP, m.max_seen, &format!("operand {} ({}) after {} ({})", k, n, what, name))?;
                }
                (name, r)
            }
            2 => {
                // boxes are consumed, so copies of the operands go in
                let (a, b) = (pool[i].1.clone(), pool[j].1.clone());
                ("boxed general operator", if minus { a - b } else { a + b })
            }
            _ => {
                let a = pool[i].2.to_graphmap::<Id, Ty, L>(&mut ctx.rng);
                let b = pool[j].2.to_graphmap::<Id, Ty, L>(&mut ctx.rng);
                let boxed = form == 4;
                let r = if minus { Ty::sub_gm(a, b, boxed) } else { Ty::add_gm(a, b, boxed) };
                (if boxed { "boxed typed operator" } else { "typed operator" }, Ty::gm_box(r))
            }
        };
        ctx.ev(name);
        ctx.step(format!("{} by {} gives {}", what, name, want.brief()));
        check_graph(ctx, got.as_ref(), &want, ASP, want.max_seen, &format!("{} ({})", what, name))?;
        ensure!(got.as_graph().is_directed() == Ty::DIRECTED, "{} ({}): direction of the result", what, name);
        if want.nodes.is_empty() {
            ctx.ev("empty results");
        }
        let rest = &mut pool;
        if rest.len() > 5 {
            let k = ctx.rng.below(rest.len());
            rest.swap_remove(k);
        }
        rest.push(("result", got, want));
        if !minus {
            copies(ctx, pool.last_mut().unwrap(), &u)?;
        }
    }
    // typed operands that have a history behind them
    let steps = *ctx.rng.pick(&[0usize, 5, 15, 30]);
    let (a, am): (TypedGraphMap<Id, NL, EL, Ty, L>, Model<NL, EL>) = random_graph(ctx, &u, steps)?;
    let (b, bm): (TypedGraphMap<Id, NL, EL, Ty, L>, Model<NL, EL>) = random_graph(ctx, &u, steps)?;
    let want = expect(&am, &bm);
    let boxed = ctx.rng.chance(1, 2);
    let what = format!("{} {} {} ({} typed operator on graphs with a history)", am.brief(), op, bm.brief(), if boxed { "boxed" } else { "" });
    let r = if minus { Ty::sub_gm(a, b, boxed) } else { Ty::add_gm(a, b, boxed) };
    ctx.ev("typed operator on graphs with a history");
    check_graph(ctx, Ty::gm(&r), &want, ASP, want.max_seen, &what)?;
    if pool.iter().any(|p| !p.2.edges.is_empty()) {
        ctx.nontrivial(key);
    }
    Ok(())
}

/// A copy of a boxed general graph is equal and independent.
fn copies<Id: HId, NL: HLabel, EL: HLabel, L: HId>(ctx: &mut Ctx, x: &mut (&'static str, Boxed<Id, NL, EL, L>, Model<NL, EL>), u: &Universe) -> CaseResult {
    if !ctx.rng.chance(1, 2) {
        return Ok(());
    }
    let (name, g, m) = x;
    let mut c = g.clone();
    ctx.ev("copies of boxed graphs");
    check_graph(ctx, c.as_ref(), m, ASP, m.max_seen, &format!("copy of {}", name))?;
    ensure!(&c == &*g && &*g == &c, "a copy of a {} does not equal its original: {}", name, m.brief());
    // change one of the two
    let before = m.clone();
    let which = ctx.rng.chance(1, 2);
    let mut changed = before.clone();
    let t = if which { &mut c } else { &mut *g };
    if let Some(mg) = t.as_mut_graph() {
        for _ in 0..ctx.rng.range(1, 5) {
            let (a, b) = (u.id(&mut ctx.rng), u.id(&mut ctx.rng));
            let (nl, el) = (u.nl::<NL>(&mut ctx.rng), u.el::<EL>(&mut ctx.rng));
            match ctx.rng.below(4) {
                0 => {
                    mg.add_node(Id::new(a), nl.clone());
                    changed.add_node(a, nl);
                }
                1 => {
                    mg.add_edge(Id::new(a), Id::new(b), el.clone());
                    changed.add_edge(a, b, el);
                }
                2 => {
                    mg.remove_node(Id::new(a));
                    changed.remove_node(a);
                }
                _ => {
                    mg.remove_edge(Id::new(a), Id::new(b));
                    changed.remove_edge(a, b);
                }
            }
        }
        ctx.ev("copies changed independently");
    }
    let (cm, gm) = if which { (&changed, &before) } else { (&before, &changed) };
    check_graph(ctx, c.as_ref(), cm, ASP, cm.max_seen, &format!("copy of {} after changing {}", name, if which { "the copy" } else { "the original" }))?;
    check_graph(ctx, g.as_ref(), gm, ASP, gm.max_seen, &format!("{} after changing {}", name, if which { "its copy" } else { "it" }))?;
    let gm = gm.clone();
    ensure_eq!(&c == &*g, cm.nodes == gm.nodes && cm.edges == gm.edges, "copy == original after changing one of them");
    *m = gm;
    Ok(())
}

/// Copies of every implementation (not only of results).
pub fn copies_of_all<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    let u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize(), L::max_usize(), true);
    let m: Model<NL, EL> = shaped(&mut ctx.rng, Ty::DIRECTED, &u.ids, &u);
    let d = densify(&m);
    for (name, g) in impls::<Id, NL, EL, Ty, L>(ctx, &d) {
        let mut x = (name, g, d.clone());
        copies(ctx, &mut x, &u)?;
        let c = x.1.clone();
        drop(x.1);
        check_graph(ctx, c.as_ref(), &x.2, ASP, x.2.max_seen, &format!("copy of {} after dropping the original", name))?;
    }
    Ok(())
}

/// Operands that are large: a result of several thousand nodes.
pub fn large<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx, minus: bool) -> CaseResult {
    let u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize(), L::max_usize(), true);
    let n = (*ctx.rng.pick(&[256usize, 5000, 5000, 5000, 100_000])).min(Id::max_usize().saturating_add(1));
    ctx.describe(format!("large operands of {} nodes, {}", n, Id::NAME));
    let a: Model<NL, EL> = big_model(&mut ctx.rng, Ty::DIRECTED, n, &u);
    let b0: Model<NL, EL> = big_model(&mut ctx.rng, Ty::DIRECTED, n, &u);
    // the second operand holds a random part
    let part = *ctx.rng.pick(&[8usize, 8, 15]);
    let mut b = Model::new(Ty::DIRECTED);
    for (n, l) in &b0.nodes {
        if ctx.rng.chance(part, 16) {
            b.add_node(*n, l.clone());
        }
    }
    for (&(s, t), l) in &b0.edges {
        if b.nodes.contains_key(&s) && b.nodes.contains_key(&t) {
            b.add_edge(s, t, l.clone());
        }
    }
    let want = if minus { minus_model(&a, &b) } else { union_model(&a, &b) };
    let (ga, gb) = (a.to_graphmap::<Id, Ty, L>(&mut ctx.rng), b.to_graphmap::<Id, Ty, L>(&mut ctx.rng));
    let boxed = ctx.rng.chance(1, 2);
    let r = if ctx.rng.chance(1, 2) {
        guarded(|| if minus { graph_minus(Ty::gm(&ga), Ty::gm(&gb)) } else { graph_union(Ty::gm(&ga), Ty::gm(&gb)) })?
    } else {
        guarded(|| Ty::gm_box(if minus { Ty::sub_gm(ga, gb, boxed) } else { Ty::add_gm(ga, gb, boxed) }))?
    };
    ctx.ev("large graphs");
    check_graph(ctx, r.as_ref(), &want, ASP, want.max_seen, "large result").map_err(|e| e.chars().take(3000).collect::<String>())?;
    ctx.nontrivial(want.fingerprint());
    Ok(())
}
