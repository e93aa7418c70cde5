//! C23: memory-mapped data is never read outside the mapped file. Built with AddressSanitizer.
use harness::history::*;
use harness::impls::*;
use harness::traverse::shaped;
use harness::*;
use rust_graph::algorithm::{Bfs, ConnComp, Dfs};
use rust_graph::generic::{DiGraphTrait, EdgeTrait, GeneralGraph, GraphLabelTrait, GraphTrait, NodeTrait};
use rust_graph::graph_impl::static_graph::mmap::EdgeVecMmap;
use rust_graph::graph_impl::static_graph::mmap::graph_mmap::StaticGraphMmapAux;
use rust_graph::graph_impl::static_graph::EdgeVecTrait;
use rust_graph::graph_impl::StaticGraphMmap;
use rust_graph::io::mmap::{dump, typed_as_byte_slice, TypedMemoryMap};
use rust_graph::io::serde::Serializer;
use rust_graph::map::SetMap;
use std::borrow::Cow;
use std::fs;

extern "C" {
    fn __asan_poison_memory_region(p: *const u8, n: usize);
    fn __asan_unpoison_memory_region(p: *const u8, n: usize);
}

const PAGE: usize = 4096;

/// A file mapped into this process: where, and how many bytes of it are the file's.
#[derive(Clone, Debug)]
struct Region {
    file: String,
    base: usize,
    size: usize,
    end: usize,
}

/// The mappings of files below `dir`, their page tails made untouchable.
struct Guard {
    regions: Vec<Region>,
}
impl Guard {
    fn over(ctx: &mut Ctx, dir: &str) -> Guard {
        let mut regions: Vec<Region> = Vec::new();
        for l in fs::read_to_string("/proc/self/maps").unwrap().lines() {
            if let Some(p) = l.find(dir) {
                let file = l[p..].to_string();
                let mut r = l.split(' ').next().unwrap().split('-').map(|x| usize::from_str_radix(x, 16).unwrap());
                let (base, end) = (r.next().unwrap(), r.next().unwrap());
                let size = fs::metadata(&file).map(|m| m.len() as usize).unwrap_or(0);
                regions.push(Region { file, base, size, end });
            }
        }
        for r in &regions {
            let from = r.base + r.size;
            if from < r.end {
                unsafe { __asan_poison_memory_region(from as *const u8, r.end - from) };
                ctx.ev("page tails guarded");
            }
        }
        ctx.evn("mapped files watched", regions.len());
        Guard { regions }
    }
    /// A slice that was handed out must lie within the bytes of one file.
    fn holds<T>(&self, s: &[T], suffix: &str) -> CaseResult {
        if s.is_empty() {
            return Ok(());
        }
        let a = s.as_ptr() as usize;
        let b = a + std::mem::size_of_val(s);
        ensure!(
            self.regions.iter().any(|r| r.file.ends_with(suffix) && a >= r.base && b <= r.base + r.size),
            "a slice of {} items at {:#x}..{:#x} was handed out, which is not within the file {}: {:x?}",
            s.len(),
            a,
            b,
            suffix,
            self.regions
        );
        Ok(())
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        for r in &self.regions {
            unsafe { __asan_unpoison_memory_region(r.base as *const u8, r.end - r.base) };
        }
    }
}

fn bytes(rng: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| rng.next() as u8).collect()
}

// ---------------------------------------------------------------------------------------------
// one typed map over a file of any size

fn sizes(rng: &mut Rng, item: usize) -> usize {
    match rng.below(8) {
        1 if rng.chance(1, 10) => *rng.pick(&[65_536usize, 1 << 20, 3 << 20, 5_000_000]) + rng.below(2 * PAGE),
        0 => rng.below(3 * item + 1),
        1 => 0,
        2 => (PAGE * rng.range(1, 3)).saturating_sub(rng.below(2 * item)),
        3 => PAGE * rng.range(1, 3) + rng.below(2 * item + 1),
        4 => PAGE * rng.range(1, 4),
        5 => item * rng.below(200),
        _ => rng.below(3 * PAGE),
    }
}

fn typed<T: Copy + PartialEq + std::fmt::Debug>(ctx: &mut Ctx, read: fn(&[u8]) -> T) -> CaseResult {
    let item = std::mem::size_of::<T>();
    let size = sizes(&mut ctx.rng, item);
    let content = bytes(&mut ctx.rng, size);
    let p = ctx.path("typed");
    let _ = fs::remove_file(&p);
    fs::write(&p, &content).unwrap();
    ctx.describe(format!("typed map of {}-byte items over a file of {} bytes", item, size));
    let m: TypedMemoryMap<T> = if ctx.rng.chance(1, 2) || size == 0 {
        guarded(|| TypedMemoryMap::new(&p))?
    } else {
        let f = fs::File::open(&p).unwrap();
        let map = unsafe { memmap::Mmap::map(&f).unwrap() };
        guarded(|| TypedMemoryMap::with_mmap(map))?
    };
    let g = Guard::over(ctx, &p);
    let want: Vec<T> = content.chunks_exact(item).map(read).collect();
    ensure_eq!(m.len, want.len(), "number of items");
    {
        let all = guarded(|| &m[..])?;
        g.holds(all, "typed")?;
        ensure_eq!(all, &want[..], "m[..]");
        ctx.evn("items compared", all.len());
    }
    let n = want.len();
    let mut ks = vec![0, 1, n, n + 1, n.saturating_sub(1), n + 2, n * 2, usize::MAX, usize::MAX / 2, usize::MAX / item, (usize::MAX / item).wrapping_add(1), usize::MAX - n, 1 << 61, PAGE / item, PAGE / item + 1];
    for _ in 0..6 {
        ks.push(ctx.rng.below(n + 3));
        ks.push(ctx.rng.next() as usize);
    }
    for k in ks {
        for from in [true, false] {
            let r = guarded(|| if from { &m[k..] } else { &m[..k] });
            match r {
                Ok(s) => {
                    g.holds(s, "typed")?;
                    let w = if from { want.get(k..) } else { want.get(..k) };
                    match w {
                        None => return Err(format!("m[{}{}{}] of {} items gave {} items", if from { "" } else { ".." }, k, if from { ".." } else { "" }, n, s.len())),
                        Some(w) => ensure_eq!(s, w, "m with {} {}", if from { "from" } else { "up to" }, k),
                    }
                    ctx.ev("ranges served");
                }
                Err(_) => {
                    ensure!(k > n, "m with {} {} of {} items was refused", if from { "from" } else { "up to" }, k, n);
                    ctx.ev("ranges refused");
                }
            }
        }
    }
    drop(g);
    ctx.nontrivial(rng::fnv(&content) ^ item as u64);
    Ok(())
}

/// Arrays written as bytes and mapped back.
fn round_trip<T: Copy + PartialEq + std::fmt::Debug>(ctx: &mut Ctx, make: fn(u64) -> T) -> CaseResult {
    let item = std::mem::size_of::<T>();
    let n = match ctx.rng.below(6) {
        0 => ctx.rng.below(5),
        1 => 10_000 / item + ctx.rng.below(5),
        2 => 20_000 / item + ctx.rng.below(5),
        3 => PAGE / item * ctx.rng.range(1, 3),
        4 if ctx.rng.chance(1, 10) => *ctx.rng.pick(&[65_536usize, 262_144, 500_000]) + ctx.rng.below(PAGE),
        4 => ctx.rng.below(40_000),
        _ => ctx.rng.below(300),
    };
    // exactly as much memory as there are items: the sanitizer guards both ends
    let data: Box<[T]> = (0..n).map(|_| make(ctx.rng.next())).collect();
    ctx.describe(format!("{} items of {} bytes written and mapped back", n, item));
    let b = guarded(|| typed_as_byte_slice(&data))?;
    ensure!(b.len() == n * item && (n == 0 || b.as_ptr() as usize == data.as_ptr() as usize), "typed_as_byte_slice covers {} bytes of {}", b.len(), n * item);
    let copy: Vec<u8> = b.to_vec();
    let p = ctx.path("dumped");
    let _ = fs::remove_file(&p);
    if ctx.rng.chance(1, 2) {
        let f = fs::File::create(&p).unwrap();
        guarded(|| unsafe { dump(&data, f) })?.map_err(|e| format!("dump: {}", e))?;
    } else {
        let mut v: Vec<u8> = Vec::new();
        guarded(|| unsafe { dump(&data, &mut v) })?.map_err(|e| format!("dump: {}", e))?;
        fs::write(&p, v).unwrap();
    }
    ensure!(fs::read(&p).unwrap() == copy, "the dumped bytes differ from the array's");
    let m: TypedMemoryMap<T> = guarded(|| TypedMemoryMap::new(&p))?;
    let g = Guard::over(ctx, &p);
    let s = guarded(|| &m[..])?;
    g.holds(s, "dumped")?;
    ensure!(s == &data[..], "{} of {} values came back", s.iter().zip(data.iter()).filter(|(a, b)| a == b).count(), n);
    ctx.evn("items compared", n);
    ctx.ev("round trips");
    drop(g);
    ctx.nontrivial(rng::fnv(&copy) ^ 1);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// whole graphs over damaged files

struct Raw<Id, L> {
    off: Vec<usize>,
    edges: Vec<Id>,
    labels: Option<Vec<L>>,
}
impl<Id: HId, L: HId> Raw<Id, L> {
    fn read(prefix: &str) -> Raw<Id, L> {
        Raw {
            off: words::<usize>(&format!("{}.offsets", prefix)).unwrap_or_default(),
            edges: words::<Id>(&format!("{}.edges", prefix)).unwrap_or_default(),
            labels: words::<L>(&format!("{}.labels", prefix)),
        }
    }
    fn neighbours(&self, i: usize) -> Option<&[Id]> {
        let (a, b) = (*self.off.get(i)?, *self.off.get(i.checked_add(1)?)?);
        self.edges.get(a..b)
    }
}

/// The positions below `n` that the id `i` may stand for.
fn again<Id: HId>(i: Id, n: usize) -> impl Iterator<Item = usize> {
    (i.id()..n.max(i.id().saturating_add(1))).step_by(Id::max_usize().saturating_add(1))
}

fn words<T: HId>(p: &str) -> Option<Vec<T>> {
    let b = fs::read(p).ok()?;
    let n = std::mem::size_of::<T>();
    Some(
        b.chunks_exact(n)
            .map(|c| {
                let mut a = [0u8; 8];
                a[..n].copy_from_slice(c);
                T::new(usize::from_le_bytes(a))
            })
            .collect(),
    )
}

fn damage(ctx: &mut Ctx, files: &[String]) -> String {
    let f = ctx.rng.pick(files).clone();
    let mut b = fs::read(&f).unwrap_or_default();
    let other = ctx.rng.pick(files).clone();
    let what = match ctx.rng.below(11) {
        0 => {
            let k = ctx.rng.below(b.len() + 1);
            b.truncate(k);
            "cut off"
        }
        1 => {
            let k = ctx.rng.range(1, 40);
            b.extend(bytes(&mut ctx.rng, k));
            "extended"
        }
        2 if !b.is_empty() => {
            let i = ctx.rng.below(b.len());
            b[i] ^= 1 << ctx.rng.below(8);
            "a bit flipped"
        }
        3 | 4 | 5 if b.len() >= 8 => {
            // a word with a tempting value
            let i = ctx.rng.below(b.len() / 8) * 8;
            let n = b.len();
            let v: u64 = *ctx.rng.pick(&[u64::MAX, u64::MAX - 1, 0, 1, n as u64, n as u64 / 8, n as u64 / 4 + 1, n as u64 / 8 + 1, 1 << 63, 1 << 32, 1 << 61, 1 << 62, 4096, 1024, 512, u64::MAX / 4 + 1, u64::MAX / 8 + 1]);
            b[i..i + 8].copy_from_slice(&v.to_le_bytes());
            "a word overwritten"
        }
        6 => {
            b.clear();
            "emptied"
        }
        7 => {
            let k = ctx.rng.below(200);
            b = bytes(&mut ctx.rng, k);
            "random bytes"
        }
        8 => {
            b = fs::read(&other).unwrap_or_default();
            "another file's content"
        }
        9 if !f.ends_with(".offsets") || ctx.rng.chance(1, 4) => {
            let _ = fs::remove_file(&f);
            ctx.step(format!("{}: removed", f));
            ctx.ev("files damaged");
            return f;
        }
        10 if !b.is_empty() => {
            // repeated up to a page or more
            let c = b.clone();
            while b.len() < PAGE + 100 {
                b.extend(&c);
            }
            b.truncate(PAGE + ctx.rng.below(20));
            "repeated past a page"
        }
        _ => {
            let k = b.len();
            b.truncate(k.saturating_sub(1));
            "last byte cut"
        }
    };
    ctx.step(format!("{}: {}", f, what));
    ctx.ev("files damaged");
    let _ = fs::remove_file(&f);
    fs::write(&f, b).unwrap();
    f
}

fn edge_vec<Id: HId, L: HId, E: EdgeVecTrait<Id, L>>(ctx: &mut Ctx, e: &E, raw: &Raw<Id, L>, g: &Guard, ids: &[usize], suffix: &str) -> CaseResult {
    g.holds(guarded(|| e.get_offsets())?, &format!("{}.offsets", suffix))?;
    g.holds(guarded(|| e.get_edges())?, &format!("{}.edges", suffix))?;
    g.holds(guarded(|| e.get_labels())?, &format!("{}.labels", suffix))?;
    ensure_eq!(e.get_offsets(), &raw.off[..], "offsets of {}", suffix);
    ensure_eq!(e.get_edges(), &raw.edges[..], "edges of {}", suffix);
    for i in ids {
        let id = Id::new(*i);
        if let Ok(n) = guarded(|| e.neighbors(id)) {
            g.holds(n, &format!("{}.edges", suffix))?;
            ensure_eq!(Some(n), raw.neighbours(*i), "neighbours of {} in {}", i, suffix);
            ctx.ev("answers from damaged files");
        } else {
            ctx.ev("refusals");
        }
        let _ = guarded(|| e.degree(id));
        for j in ids {
            let t = Id::new(*j);
            if let Ok(Some(k)) = guarded(|| e.find_edge_index(id, t)) {
                ensure!(raw.edges.get(k) == Some(&t), "find_edge_index({}, {}) = {} in {}", i, j, k, suffix);
            }
            if let Ok(Some(l)) = guarded(|| e.find_edge_label_id(id, t)) {
                g.holds(std::slice::from_ref(l), &format!("{}.labels", suffix))?;
            }
            let _ = guarded(|| e.has_edge(id, t));
        }
    }
    Ok(())
}

fn battery<Id: HId, NL: HLabel, EL: HLabel, L: HId>(ctx: &mut Ctx, p: &str, r: &StaticGraphMmap<Id, NL, EL, L>, g: &Guard) -> CaseResult {
    let out: Raw<Id, L> = Raw::read(&format!("{}_OUT", p));
    let inn: Raw<Id, L> = Raw::read(&format!("{}_IN", p));
    let nlab: Option<Vec<L>> = words(&format!("{}.labels", p));
    let n = r.node_count();
    let mut ids: Vec<usize> = vec![0, 1, n.saturating_sub(1), n, n.saturating_add(1), out.off.len(), out.off.len().saturating_sub(1), out.off.len().saturating_sub(2), Id::max_usize(), Id::max_usize() - 1, nlab.as_ref().map_or(0, |l| l.len())];
    for _ in 0..6 {
        ids.push(ctx.rng.below(n.min(1000) + 3));
        ids.push(ctx.rng.next() as usize);
    }
    let ids: Vec<usize> = ids.into_iter().map(|i| i & Id::max_usize()).collect();
    for i in &ids {
        let id = Id::new(*i);
        let _ = guarded(|| r.has_node(id));
        for which in 0..2 {
            let raw = if which == 0 { &out } else { &inn };
            let suffix = if which == 0 { "_OUT.edges" } else { "_IN.edges" };
            let s = guarded(|| if which == 0 { r.inner_neighbors(id) } else { r.inner_in_neighbors(id) });
            match s {
                Ok(s) => {
                    g.holds(s, suffix)?;
                    ensure!(s.is_empty() || Some(s) == raw.neighbours(*i), "neighbours of {} are {:?}, the file {} says {:?}", i, s, suffix, raw.neighbours(*i));
                    ctx.ev("answers from damaged files");
                }
                Err(_) => ctx.ev("refusals"),
            }
            let c = guarded(|| if which == 0 { r.neighbors(id) } else { r.in_neighbors(id) });
            if let Ok(c) = c {
                if let Cow::Borrowed(s) = c {
                    g.holds(s, suffix)?;
                }
                ensure!(c.is_empty() || Some(&c[..]) == raw.neighbours(*i), "neighbours of {} are {:?}, the file {} says {:?}", i, c, suffix, raw.neighbours(*i));
            }
            let k = guarded(|| if which == 0 { r.neighbors_iter(id).take(5000).collect::<Vec<Id>>() } else { r.in_neighbors_iter(id).take(5000).collect() });
            if let Ok(k) = k {
                ensure!(k.is_empty() || raw.neighbours(*i).map_or(false, |w| w[..w.len().min(5000)] == k[..]), "neighbours of {} iterated are {:?}, the file {} says {:?}", i, k, suffix, raw.neighbours(*i));
            }
            let d = guarded(|| if which == 0 { r.degree(id) } else { r.in_degree(id) });
            if let Ok(d) = d {
                ensure!(d == 0 || raw.neighbours(*i).map(|w| w.len()) == Some(d), "degree of {} is {}, the file {} says {:?}", i, d, suffix, raw.neighbours(*i));
            }
        }
        if let Ok(Some(l)) = guarded(|| r.get_node(*&id).get_label_id()) {
            ensure!(nlab.as_ref().and_then(|v| v.get(*i)) == Some(&l), "label id of node {} is {:?}, the file says {:?}", i, l, nlab.as_ref().and_then(|v| v.get(*i)));
            ctx.ev("answers from damaged files");
        }
        let _ = guarded(|| r.get_node_label(id).cloned());
        for j in ids.iter().take(8) {
            let t = Id::new(*j);
            let h = guarded(|| r.has_edge(id, t));
            if let Ok(true) = h {
                ensure!(out.neighbours(*i).map_or(false, |w| w.contains(&t)), "has_edge({}, {}) though the files do not say so", i, j);
            }
            if let Ok(Some(l)) = guarded(|| r.get_edge(id, t).get_label_id()) {
                let found = out.neighbours(*i).map_or(false, |w| w.iter().enumerate().any(|(k, x)| *x == t && out.labels.as_ref().and_then(|v| v.get(out.off[*i] + k)) == Some(&l)));
                ensure!(found, "label id of edge {}-{} is {:?}, which the files do not say", i, j, l);
                ctx.ev("answers from damaged files");
            }
            let _ = guarded(|| r.get_edge_label(id, t).cloned());
        }
    }
    // enumerations end, and yield what the files say
    let bound = out.off.len().saturating_mul(out.edges.len()).min(2_000_000);
    let e = guarded(|| {
        let mut k = 0usize;
        let mut bad = None;
        for (s, t) in r.edge_indices() {
            k += 1;
            // damaged counts may number more nodes than the id type holds: ids then start over
            if !again::<Id>(s, out.off.len()).any(|i| out.neighbours(i).map_or(false, |w| w.contains(&t))) {
                bad = Some((s, t));
                break;
            }
            if k > bound || k > 20_000 {
                break;
            }
        }
        (k, bad)
    });
    if let Ok((k, bad)) = e {
        ensure!(bad.is_none(), "edge_indices() yields {:?}, which the files do not say", bad);
        ensure!(k <= bound, "edge_indices() yields more than {} edges, the files have {} offsets and {} adjacencies", bound, out.off.len(), out.edges.len());
        ctx.evn("edges enumerated", k);
    }
    let _ = guarded(|| r.edges().take(5000).map(|e| (e.get_start(), e.get_target(), e.get_label_id())).count());
    if let Ok(v) = guarded(|| r.nodes().take(5000).map(|n| (n.get_id(), n.get_label_id())).collect::<Vec<_>>()) {
        for (i, l) in v {
            if let Some(l) = l {
                let there = nlab.as_ref().map_or(false, |v| again::<Id>(i, v.len()).any(|k| v.get(k) == Some(&l)));
                ensure!(there, "label id of node {:?} enumerated is {:?}", i, l);
            }
        }
    }
    ctx.evn("nodes enumerated", guarded(|| r.node_indices().take(5000).count()).unwrap_or(0));
    let _ = guarded(|| r.max_seen_id());
    if n <= 5000 && out.edges.len() <= 5000 && matches!(e, Ok((k, _)) if k < 5000) {
        let _ = guarded(|| r.get_node_label_counter().len());
        let _ = guarded(|| r.get_edge_label_counter().len());
        let _ = guarded(|| r.get_node_label_id_counter().len());
        let _ = guarded(|| r.get_edge_label_id_counter().len());
        let _ = guarded(|| ConnComp::new(r as &DynGraph<Id, NL, EL, L>).get_count());
        let _ = guarded(|| Bfs::new(r, None).take(6000).count());
        let _ = guarded(|| Dfs::new(r, None).take(6000).count());
        let _ = guarded(|| r.as_general_graph().as_labeled_graph().has_edge_labels());
        ctx.ev("algorithms run over damaged files");
    }
    Ok(())
}

fn graph<Id: HId, NL: HLabel, EL: HLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    let u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize(), L::max_usize(), true);
    let m: Model<NL, EL> = if ctx.rng.chance(1, 10) {
        let n = 1200.min(Id::max_usize().saturating_add(1));
        big_model(&mut ctx.rng, Ty::DIRECTED, n, &u)
    } else {
        let k = u.ids.len();
        densify(&shaped(&mut ctx.rng, Ty::DIRECTED, &u.ids[..k], &u))
    };
    ctx.describe(format!("{}/{} {}: ", Id::NAME, L::NAME, m.brief()));
    let p = ctx.path("d");
    static_of::<Id, NL, EL, Ty, L>(&mut ctx.rng, &m).dump_mmap(&p).map_err(|e| format!("dump_mmap: {}", e))?;
    let aux = format!("{}_aux.bin", p);
    let mut files: Vec<String> = fs::read_dir(&ctx.scratch).unwrap().flatten().map(|e| e.path().to_str().unwrap().to_string()).filter(|f| *f != aux).collect();
    files.sort();
    if ctx.rng.chance(1, 4) {
        files.push(format!("{}.labels", p));
        files.push(format!("{}_OUT.labels", p));
        files.push(format!("{}_IN.edges", p));
        files.push(format!("{}_IN.offsets", p));
    }
    for _ in 0..ctx.rng.below(4) {
        damage(ctx, &files);
    }
    match ctx.rng.below(4) {
        0 => {
            let _ = fs::remove_file(&aux);
            ctx.step("no aux file".into());
        }
        1 => {
            // counts that lie
            let n = m.nodes.len();
            let c = [0, 1, n + 1, n * 2 + 3, 513, 5000, 1 << 20, usize::MAX, usize::MAX / 2, Id::max_usize(), Id::max_usize().saturating_add(1)];
            let (a, b) = (*ctx.rng.pick(&c), *ctx.rng.pick(&c));
            ctx.step(format!("aux file says {} nodes and {} edges", a, b));
            let t: SetMap<NL> = m.node_label_counts().into_keys().take(ctx.rng.below(3)).collect();
            let s: SetMap<EL> = m.edge_label_counts().into_keys().take(ctx.rng.below(3)).collect();
            let x: StaticGraphMmapAux<NL, EL> = StaticGraphMmapAux::new(a, b, t, s);
            Serializer::export(&x, &aux).unwrap();
            ctx.ev("lying aux files");
        }
        _ => {}
    }
    let dir = ctx.scratch.to_str().unwrap().to_string();
    match guarded(|| StaticGraphMmap::<Id, NL, EL, L>::new(&p)) {
        Err(_) => ctx.ev("loads refused"),
        Ok(r) => {
            ctx.ev("damaged graphs loaded");
            let g = Guard::over(ctx, &dir);
            battery(ctx, &p, &r, &g)?;
            drop(g);
        }
    }
    for suffix in ["_OUT", "_IN"] {
        let pre = format!("{}{}", p, suffix);
        if let Ok(e) = guarded(|| EdgeVecMmap::<Id, L>::new(&pre)) {
            let g = Guard::over(ctx, &dir);
            let raw: Raw<Id, L> = Raw::read(&pre);
            let mut ids = vec![0, 1, raw.off.len(), raw.off.len().saturating_sub(1), raw.off.len().saturating_sub(2), Id::max_usize()];
            ids.push(ctx.rng.below(raw.off.len() + 1));
            let ids: Vec<usize> = ids.into_iter().map(|i| i & Id::max_usize()).collect();
            edge_vec(ctx, &e, &raw, &g, &ids, suffix)?;
            drop(g);
        }
    }
    ctx.nontrivial(m.fingerprint() ^ ctx.trace_len() as u64);
    Ok(())
}

fn run(ctx: &mut Ctx) -> CaseResult {
    ctx.clean_scratch();
    let sel = ctx.case / 3;
    match ctx.case % 3 {
        0 => match sel % 7 {
            0 => typed::<u8>(ctx, |b| b[0]),
            1 => typed::<u16>(ctx, |b| u16::from_ne_bytes(b.try_into().unwrap())),
            2 => typed::<u32>(ctx, |b| u32::from_ne_bytes(b.try_into().unwrap())),
            3 => typed::<u64>(ctx, |b| u64::from_ne_bytes(b.try_into().unwrap())),
            4 => typed::<u128>(ctx, |b| u128::from_ne_bytes(b.try_into().unwrap())),
            5 => typed::<[u8; 3]>(ctx, |b| b.try_into().unwrap()),
            _ => typed::<[u32; 7]>(ctx, |b| {
                let mut a = [0u32; 7];
                for (i, c) in b.chunks_exact(4).enumerate() {
                    a[i] = u32::from_ne_bytes(c.try_into().unwrap());
                }
                a
            }),
        },
        1 if sel % 4 == 0 => match sel / 4 % 6 {
            0 => round_trip::<u8>(ctx, |x| x as u8),
            1 => round_trip::<u16>(ctx, |x| x as u16),
            2 => round_trip::<u32>(ctx, |x| x as u32),
            3 => round_trip::<usize>(ctx, |x| x as usize),
            4 => round_trip::<[u8; 3]>(ctx, |x| [x as u8, (x >> 8) as u8, (x >> 16) as u8]),
            _ => round_trip::<u128>(ctx, |x| (x as u128) << 64 | x as u128),
        },
        _ => {
            let s = sel / 2;
            dispatch!(s, graph(ctx))
        }
    }
}

fn main() {
    driver::main(CheckDef {
        id: "C23",
        level: "exploration",
        rule: "the harness and the library are compiled with AddressSanitizer; the unused rest of the last page of every mapped file (found in /proc/self/maps) is poisoned, and every slice handed out must lie within the file's bytes and equal them. A third of the cases map files of 0 bytes to 4 pages (around item and page borders) as items of 1, 2, 3, 4, 8, 16 and 28 bytes and ask for full, from- and to-ranges incl. far outside ones; a twelfth write arrays (around the 10000-byte write blocks and pages) as bytes and map them back; the rest dump a graph, damage up to three of its files (cut, extended, bits flipped, words overwritten with tempting values, emptied, random, swapped, removed, repeated past a page), remove the aux file or let it lie about the counts, load it as StaticGraphMmap and EdgeVecMmap and ask everything about existing, border and random ids; each call may answer what the files say or panic. Non-trivial: every case; distinct by content and damage.",
        assumptions: &["item types for which every bit pattern is a value", "the mapped files do not change while mapped", "the aux file decodes", "maps handed to with_mmap start at a page"],
        quick: 24000,
        thorough: 300000,
        run,
        mem_mb: 0,
    })
}
