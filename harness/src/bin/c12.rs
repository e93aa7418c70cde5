//! C12: CSV write followed by read reproduces the graph.
use harness::history::*;
use harness::impls::*;
use harness::observe::*;
use harness::*;
use rust_graph::generic::{Directed, MutGraphTrait, Undirected};
use rust_graph::graph_impl::{StaticGraphMmap, TypedGraphMap, TypedStaticGraph};
use rust_graph::io::csv::{CSVReader, CSVWriter};
use rust_graph::io::{read_from_csv, write_to_csv};
use std::collections::BTreeMap;

/// Labels a CSV field can carry: anything but the empty string.
trait CsvLabel: HLabel {
    fn hostile(rng: &mut Rng, sep: &str) -> Self;
}
impl CsvLabel for String {
    fn hostile(rng: &mut Rng, sep: &str) -> String {
        let s = match rng.below(28) {
            0 => sep.to_string(),
            1 => format!("a{}b{}", sep, sep),
            2 => "\"".into(),
            3 => "\"\"".into(),
            4 => "\"quoted\"".into(),
            5 => format!("\"{}\"", sep),
            6 => "two\nlines".into(),
            7 => "\n".into(),
            8 => "carriage\r\nreturn".into(),
            9 => "\r".into(),
            10 => " ".into(),
            11 => "  padded  ".into(),
            12 => "\t".into(),
            13 => "\u{e9}\u{4e2d}\u{6587}\u{1F600}".into(),
            14 => "None".into(),
            15 => "null".into(),
            16 => "0".into(),
            17 => "-1.5e3".into(),
            18 => "nodeId:ID".into(),
            19 => ":LABEL".into(),
            20 => "#comment".into(),
            21 => "\\".into(),
            22 => "\\\"".into(),
            23 => "a".repeat(9000),
            24 => "\u{feff}x".into(),
            25 => "'single'".into(),
            26 => "\0nul".into(),
            _ => format!("L{}", rng.below(5)),
        };
        s
    }
}
impl CsvLabel for u32 {
    fn hostile(rng: &mut Rng, _: &str) -> u32 {
        *rng.pick(&[0u32, 1, 10, 12345, u32::MAX, u32::MAX - 1, 1 << 31])
    }
}
impl CsvLabel for u8 {
    fn hostile(rng: &mut Rng, _: &str) -> u8 {
        rng.below(256) as u8
    }
}

fn relabel<NL: CsvLabel, EL: CsvLabel>(ctx: &mut Ctx, m: &Model<NL, EL>, sep: &str, nl: (usize, usize), el: (usize, usize), cap: usize) -> Model<NL, EL> {
    let k = ctx.rng.range(1, 6).min(cap);
    let np: Vec<NL> = (0..k).map(|_| NL::hostile(&mut ctx.rng, sep)).collect();
    let ep: Vec<EL> = (0..k).map(|_| EL::hostile(&mut ctx.rng, sep)).collect();
    let mut r = m.clone();
    for l in r.nodes.values_mut() {
        *l = if ctx.rng.chance(nl.0, nl.1) { Some(ctx.rng.pick(&np).clone()) } else { None };
    }
    for l in r.edges.values_mut() {
        *l = if ctx.rng.chance(el.0, el.1) { Some(ctx.rng.pick(&ep).clone()) } else { None };
    }
    // long labels in every row of a large file are more than this run has memory for
    if r.nodes.len() + r.edges.len() > 9_000 {
        let size: usize = r.nodes.values().flatten().map(|l| format!("{:?}", l).len()).sum::<usize>() + r.edges.values().flatten().map(|l| format!("{:?}", l).len()).sum::<usize>();
        if size > 50_000_000 {
            r.nodes.values_mut().for_each(|l| *l = None);
            r.edges.values_mut().for_each(|l| *l = None);
        }
    }
    r
}

fn replay<NL: HLabel, EL: HLabel>(t: &mut Model<NL, EL>, m: &Model<NL, EL>, nodes: bool) {
    if nodes {
        for (n, l) in &m.nodes {
            t.add_node(*n, l.clone());
        }
    }
    for (&(a, b), l) in &m.edges {
        t.add_edge(a, b, l.clone());
    }
}

fn seps(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => "comma".into(),
        1 => "tab".into(),
        2 => "space".into(),
        3 => rng.pick(&[",", ";", "|", ":", "\t", " "]).to_string(),
        _ => loop {
            let b = rng.range(1, 127) as u8;
            if b != b'"' && b != b'\n' && b != b'\r' {
                break (b as char).to_string();
            }
        },
    }
}

fn real(sep: &str) -> &str {
    match sep {
        "comma" => ",",
        "tab" => "\t",
        "space" => " ",
        o => o,
    }
}

fn case<Id: HId, NL: CsvLabel, EL: CsvLabel, Ty: Dir, L: HId>(ctx: &mut Ctx) -> CaseResult {
    let cut = |e: String| e.chars().take(3000).collect::<String>();
    let dense = ctx.rng.chance(1, 2);
    let lim = if dense { Id::max_usize().min(60_000) } else { Id::max_usize() };
    let u = universe::<NL, EL>(&mut ctx.rng, lim, 5, dense);
    let sep = seps(&mut ctx.rng);
    let plain = ctx.rng.chance(1, 3);
    let sep = if plain { "comma".to_string() } else { sep };
    let ps = [(0usize, 1usize), (1, 2), (1, 1)];
    let (np, ep) = (*ctx.rng.pick(&ps), *ctx.rng.pick(&ps));
    let base: Model<NL, EL> = if ctx.case % 401 < 10 && ctx.case >= 401 {
        let n = (*ctx.rng.pick(&[256usize, 256, 2000, 2000, 9000, 80_000])).min(Id::max_usize().saturating_add(1));
        ctx.ev("large graphs");
        big_model(&mut ctx.rng, Ty::DIRECTED, n, &u)
    } else if dense {
        let k = *ctx.rng.pick(&[0usize, 1, 2, 4, 8, 16]);
        let ids: Vec<usize> = (0..k).collect();
        let e = ctx.rng.below(3 * k + 1);
        random_model(&mut ctx.rng, Ty::DIRECTED, &ids, e, &u)
    } else {
        let e = ctx.rng.below(3 * u.ids.len() + 1);
        random_model(&mut ctx.rng, Ty::DIRECTED, &u.ids.clone(), e, &u)
    };
    let m = relabel(ctx, &base, real(&sep), np, ep, 5);
    let (pn, pe) = (ctx.path("nodes.csv"), ctx.path("edges.csv"));
    // ---- write, from any implementation
    let which = if m.dense() { ctx.rng.below(4) } else { 0 };
    let g: Box<DynGraph<'static, Id, NL, EL, L>> = match which {
        0 => Ty::gm_box(m.to_graphmap::<Id, Ty, L>(&mut ctx.rng)),
        1 => Ty::st_box::<Id, NL, EL, L>(m.to_graphmap::<Id, Ty, L>(&mut ctx.rng).into_static()),
        2 => {
            let s: TypedStaticGraph<Id, NL, EL, Ty, L> = static_of(&mut ctx.rng, &m);
            Ty::st_box(s)
        }
        _ => {
            let x: StaticGraphMmap<Id, NL, EL, L> = mmap_of::<Id, NL, EL, Ty, L>(ctx, &m);
            Box::new(x)
        }
    };
    ctx.ev(["written from GraphMap", "written from a converted StaticGraph", "written from a StaticGraph", "written from StaticGraphMmap"][which]);
    ctx.describe(format!("{}/{}/{}/{} separator {:?}: {}", Id::NAME, NL::NAME, EL::NAME, L::NAME, sep, m.brief()));
    if ctx.rng.chance(1, 6) {
        std::fs::write(&pn, "nodeId:ID,:LABEL\n77,stale\n".repeat(500)).unwrap();
        std::fs::write(&pe, "stale").unwrap();
    }
    let r = if plain && ctx.rng.chance(1, 2) {
        write_to_csv(&*g, &pn, &pe)
    } else if plain && ctx.rng.chance(1, 2) {
        CSVWriter::new(&*g, &pn, &pe).write()
    } else {
        CSVWriter::with_separator(&*g, &pn, &pe, &sep).write()
    };
    r.map_err(|e| format!("writing CSV failed: {}", e))?;
    // ---- read back, into an empty or into a populated graph
    let (mut t, mut tm): (TypedGraphMap<Id, NL, EL, Ty, L>, Model<NL, EL>) = (TypedGraphMap::new(), Model::new(Ty::DIRECTED));
    if ctx.rng.chance(1, 3) {
        let other = relabel(ctx, &base, real(&sep), (1, 2), (1, 2), 5);
        for (n, l) in other.nodes {
            if ctx.rng.chance(1, 2) {
                t.add_node(Id::new(n), l.clone());
                tm.add_node(n, l);
            }
        }
        for ((a, b), l) in other.edges {
            if ctx.rng.chance(1, 2) {
                t.add_edge(Id::new(a), Id::new(b), l.clone());
                tm.add_edge(a, b, l);
            }
        }
        ctx.ev("read into a populated graph");
    }
    let with_nodes = !ctx.rng.chance(1, 6);
    let flex = ctx.rng.chance(1, 2);
    let rd = |s: &str| -> CSVReader<'static, Id, NL, EL> {
        let p = if with_nodes { Some(pn.clone()) } else { None };
        let r = if s == "comma" && flex { CSVReader::new(p, pe.clone()) } else { CSVReader::with_separator(p, pe.clone(), s) };
        r.headers(true).flexible(flex)
    };
    for round in 0..ctx.rng.range(1, 2) {
        rd(&sep).read(&mut t).map_err(|e| format!("reading CSV failed: {}", e))?;
        replay(&mut tm, &m, with_nodes);
        check_graph(ctx, Ty::gm(&t), &tm, MEMBER | COUNT | LABEL | ADJ | MAXID, tm.max_seen, if round == 0 { "read back" } else { "read twice" }).map_err(cut)?;
    }
    // ---- the streaming iterators yield the same rows
    if with_nodes {
        let mut rows = BTreeMap::new();
        for (i, l) in rd(&sep).node_iter().map_err(|e| e.to_string())?.take(2 * m.nodes.len() + 9) {
            ensure!(rows.insert(i.id(), l).is_none(), "node {:?} is written twice", i);
        }
        ensure!(rows == m.nodes, "node_iter() yields {:?}\n  instead of {:?}", rows, m.nodes);
    } else {
        ensure_eq!(rd(&sep).node_iter().map_err(|e| e.to_string())?.count(), 0, "rows of node_iter() without a node file");
    }
    let mut rows = BTreeMap::new();
    for (s, t, l) in rd(&sep).edge_iter().map_err(|e| e.to_string())?.take(2 * m.edges.len() + 9) {
        ensure!(rows.insert(m.key(s.id(), t.id()), l).is_none(), "edge ({:?}, {:?}) is written twice", s, t);
    }
    ensure!(rows == m.edges, "edge_iter() yields {:?}\n  instead of {:?}", rows, m.edges);
    ctx.evn("node rows", m.nodes.len());
    ctx.evn("edge rows", m.edges.len());
    // ---- written again from what was read
    if ctx.rng.chance(1, 3) && with_nodes {
        let (pn2, pe2) = (ctx.path("n2.csv"), ctx.path("e2.csv"));
        CSVWriter::with_separator(Ty::gm(&t), &pn2, &pe2, &sep).write().map_err(|e| format!("writing CSV failed: {}", e))?;
        let mut t2: TypedGraphMap<Id, NL, EL, Ty, L> = TypedGraphMap::new();
        CSVReader::with_separator(Some(&pn2), &pe2, &sep).read(&mut t2).map_err(|e| format!("reading CSV failed: {}", e))?;
        let mut m2 = Model::new(Ty::DIRECTED);
        replay(&mut m2, &tm, true);
        check_graph(ctx, Ty::gm(&t2), &m2, MEMBER | COUNT | LABEL, None, "second generation").map_err(cut)?;
        ensure!(t2 == t, "the graph read back is not equal to the graph written: {}", tm.brief());
        ctx.ev("second generations");
    }
    ctx.clean_scratch();
    if !m.edges.is_empty() {
        let k = m.fingerprint() ^ rng::fnv(sep.as_bytes());
        ctx.nontrivial(k);
    }
    Ok(())
}

/// The function form of reading, where label ids are numbered like nodes.
fn simple<Id: HId, NL: CsvLabel, EL: CsvLabel, Ty: Dir>(ctx: &mut Ctx) -> CaseResult {
    let u = universe::<NL, EL>(&mut ctx.rng, Id::max_usize(), 5, false);
    let sep = seps(&mut ctx.rng);
    let e = ctx.rng.below(2 * u.ids.len() + 1);
    let base: Model<NL, EL> = random_model(&mut ctx.rng, Ty::DIRECTED, &u.ids.clone(), e, &u);
    let m = relabel(ctx, &base, real(&sep), (1, 2), (1, 2), 5);
    let (pn, pe) = (ctx.path("nodes.csv"), ctx.path("edges.csv"));
    let g: TypedGraphMap<Id, NL, EL, Ty, Id> = m.to_graphmap(&mut ctx.rng);
    let default = ctx.rng.chance(1, 3);
    ctx.describe(format!("read_from_csv {}/{}/{} separator {:?}: {}", Id::NAME, NL::NAME, EL::NAME, sep, m.brief()));
    if default {
        write_to_csv(Ty::gm(&g), &pn, &pe).map_err(|e| e.to_string())?;
    } else {
        CSVWriter::with_separator(Ty::gm(&g), &pn, &pe, &sep).write().map_err(|e| e.to_string())?;
    }
    let mut t: TypedGraphMap<Id, NL, EL, Ty, Id> = TypedGraphMap::new();
    let s = if default { None } else { Some(&sep[..]) };
    let with_nodes = ctx.rng.chance(3, 4);
    read_from_csv(&mut t, if with_nodes { Some(&pn) } else { None }, &pe, s, true, ctx.rng.chance(1, 2)).map_err(|e| e.to_string())?;
    let mut tm = Model::new(Ty::DIRECTED);
    replay(&mut tm, &m, with_nodes);
    check_graph(ctx, Ty::gm(&t), &tm, MEMBER | COUNT | LABEL | ADJ | MAXID, tm.max_seen, "read_from_csv").map_err(|e| e.chars().take(3000).collect::<String>())?;
    ctx.ev("read_from_csv calls");
    ctx.clean_scratch();
    if !m.edges.is_empty() {
        let k = m.fingerprint();
        ctx.nontrivial(k);
    }
    Ok(())
}

fn run(ctx: &mut Ctx) -> CaseResult {
    ctx.clean_scratch();
    match ctx.rng.below(12) {
        0 => case::<u32, String, String, Directed, u32>(ctx),
        1 => case::<u32, String, String, Undirected, u32>(ctx),
        2 => case::<u8, u32, String, Directed, u8>(ctx),
        3 => case::<u8, String, u32, Undirected, u16>(ctx),
        4 => case::<u16, String, u8, Directed, u32>(ctx),
        5 => case::<u16, u8, String, Undirected, u8>(ctx),
        6 => case::<usize, String, String, Directed, u8>(ctx),
        7 => case::<usize, u32, u32, Undirected, u16>(ctx),
        8 => simple::<u32, String, String, Directed>(ctx),
        9 => simple::<u8, String, String, Undirected>(ctx),
        10 => simple::<usize, String, u32, Directed>(ctx),
        _ => simple::<u16, u32, String, Undirected>(ctx),
    }
}

fn main() {
    driver::main(CheckDef {
        id: "C12",
        level: "exploration",
        rule: "each case writes a random graph (any implementation, ids up to the top of the id range, labels drawn from separators, quotes, line breaks, blanks, non-ASCII text, look-alikes of headers and numbers, 9000-byte labels) with a random separator (names or any single byte but quote and line breaks), reads it back into an empty or populated graph with or without the node file, compares every node, edge and label with a replay of the rows on the abstract graph, compares the row iterators, and writes and reads the result again. Non-trivial: the graph has an edge; distinct: by content and separator.",
        assumptions: &["string labels are not empty (an empty field means no label)"],
        quick: 48000,
        thorough: 300000,
        run,
        mem_mb: 4096,
    })
}
