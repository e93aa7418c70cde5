//! C22: loading an LDBC directory.
use harness::*;
use rust_graph::generic::{Directed, EdgeTrait, GraphLabelTrait, GraphTrait, Undirected};
use rust_graph::graph_impl::TypedGraphMap;
use rust_graph::io::ldbc::Scheme;
use rust_graph::io::read_ldbc_from_path;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ffi::OsString;
use std::fs;
#[path = "../faultio.rs"]
mod faultio;
use faultio::Plan;
use std::os::unix::ffi::OsStringExt;

/// The relations of the LDBC social network benchmark: start, label, target.
const RELATIONS: [(&str, &str, &str); 23] = [
    ("comment", "hasCreator", "person"),
    ("comment", "hasTag", "tag"),
    ("comment", "isLocatedIn", "place"),
    ("comment", "replyOf", "comment"),
    ("comment", "replyOf", "post"),
    ("forum", "containerOf", "post"),
    ("forum", "hasMember", "person"),
    ("forum", "hasModerator", "person"),
    ("forum", "hasTag", "tag"),
    ("organisation", "isLocatedIn", "place"),
    ("person", "hasInterest", "tag"),
    ("person", "isLocatedIn", "place"),
    ("person", "knows", "person"),
    ("person", "likes", "comment"),
    ("person", "likes", "post"),
    ("person", "studyAt", "organisation"),
    ("person", "workAt", "organisation"),
    ("place", "isPartOf", "place"),
    ("post", "hasCreator", "person"),
    ("post", "hasTag", "tag"),
    ("post", "isLocatedIn", "place"),
    ("tag", "hasType", "tagclass"),
    ("tagclass", "isSubclassOf", "tagclass"),
];

type Entity = (&'static str, String);

/// What a directory says: the labels of its entities and the labels each pair may carry.
#[derive(Default)]
struct World {
    entities: BTreeMap<Entity, String>,
    edges: BTreeMap<(Entity, Entity), BTreeSet<&'static str>>,
}

/// An expected or a loaded graph with its nodes numbered 0..n-1.
struct G {
    labels: Vec<String>,
    /// (neighbour, direction, class of the labels the pair may carry)
    adj: Vec<Vec<(usize, u8, &'static str)>>,
}

/// Labels that may join the same pair of nodes count as one.
fn class(l: &str, directed: bool) -> &'static str {
    match l {
        "studyAt" | "workAt" => "attends",
        "hasMember" | "hasModerator" => "member",
        "hasCreator" | "likes" if !directed => "creates",
        _ => RELATIONS.iter().find(|r| r.1 == l).map(|r| r.1).unwrap_or("?"),
    }
}

/// Refines the colours of both graphs together; None when they already differ.
fn refine(gs: [&G; 2], mut col: [Vec<u64>; 2], rounds: usize) -> Option<[Vec<u64>; 2]> {
    let mut kinds = 0;
    for _ in 0..rounds {
        let mut next: [Vec<u64>; 2] = [Vec::new(), Vec::new()];
        let mut names: HashMap<(u64, Vec<(u64, u8, &str)>), u64> = HashMap::new();
        for k in 0..2 {
            for v in 0..gs[k].labels.len() {
                let mut sig: Vec<(u64, u8, &str)> = gs[k].adj[v].iter().map(|(w, d, l)| (col[k][*w], *d, *l)).collect();
                sig.sort();
                let fresh = names.len() as u64;
                next[k].push(*names.entry((col[k][v], sig)).or_insert(fresh));
            }
        }
        let mut c: Vec<Vec<u64>> = next.iter().map(|x| { let mut y = x.clone(); y.sort(); y }).collect();
        if c[0] != c[1] {
            return None;
        }
        c[0].dedup();
        col = next;
        if c[0].len() == kinds {
            return Some(col);
        }
        kinds = c[0].len();
    }
    Some(col)
}

/// Searches a one-to-one correspondence; Some(true) found, Some(false) none exists, None: gave up.
fn matches(gs: [&G; 2], col: [Vec<u64>; 2], leaf: &dyn Fn(&[usize]) -> bool, budget: &mut usize) -> Option<bool> {
    let col = match refine(gs, col, usize::MAX) {
        None => return Some(false),
        Some(c) => c,
    };
    let mut cells: BTreeMap<u64, (Vec<usize>, Vec<usize>)> = BTreeMap::new();
    for (v, c) in col[0].iter().enumerate() {
        cells.entry(*c).or_default().0.push(v);
    }
    for (v, c) in col[1].iter().enumerate() {
        cells.get_mut(c).unwrap().1.push(v);
    }
    let pick = cells.values().filter(|c| c.0.len() > 1).min_by_key(|c| c.0.len());
    match pick {
        None => {
            let mut map = vec![0; gs[0].labels.len()];
            for (a, b) in cells.values() {
                map[a[0]] = b[0];
            }
            Some(leaf(&map))
        }
        Some((a, b)) => {
            for y in b {
                if *budget == 0 {
                    return None;
                }
                *budget -= 1;
                let mut c = col.clone();
                c[0][a[0]] = u64::MAX;
                c[1][*y] = u64::MAX;
                match matches(gs, c, leaf, budget) {
                    Some(false) => (),
                    r => return r,
                }
            }
            Some(false)
        }
    }
}

fn colours(gs: [&G; 2]) -> [Vec<u64>; 2] {
    let mut names: BTreeMap<&str, u64> = BTreeMap::new();
    for g in gs.iter() {
        for l in &g.labels {
            let k = names.len() as u64;
            names.entry(l).or_insert(k);
        }
    }
    [gs[0].labels.iter().map(|l| names[l.as_str()]).collect(), gs[1].labels.iter().map(|l| names[l.as_str()]).collect()]
}

/// Reads the loaded graph and compares it with the world, up to the numbering of nodes.
fn judge<Id: HId, Ty: Dir>(ctx: &mut Ctx, w: &World, g: &TypedGraphMap<Id, String, String, Ty>, what: &str) -> CaseResult {
    let n = w.entities.len();
    let ids: BTreeSet<usize> = g.node_indices().map(|i| i.id()).collect();
    ensure_eq!(g.node_count(), n, "{}: number of nodes", what);
    ensure_eq!(ids, (0..n).collect::<BTreeSet<_>>(), "{}: node ids", what);
    let mut got = G { labels: Vec::new(), adj: vec![Vec::new(); n] };
    for i in 0..n {
        got.labels.push(g.get_node_label(Id::new(i)).cloned().ok_or_else(|| format!("{}: node {} has no label", what, i))?);
    }
    let mut have: BTreeMap<&str, usize> = BTreeMap::new();
    let mut want: BTreeMap<&str, usize> = BTreeMap::new();
    for l in &got.labels {
        *have.entry(l).or_default() += 1;
    }
    for l in w.entities.values() {
        *want.entry(l).or_default() += 1;
    }
    ensure_eq!(have, want, "{}: how many nodes carry which label", what);
    let mut edges: BTreeMap<(usize, usize), String> = BTreeMap::new();
    for e in g.edges() {
        let (s, t) = (e.get_start(), e.get_target());
        ensure!(s.id() < n && t.id() < n, "{}: edge {:?}-{:?} of unknown nodes", what, s, t);
        let l = g.get_edge_label(s, t).cloned().ok_or_else(|| format!("{}: edge {:?}-{:?} has no label", what, s, t))?;
        let c = class(&l, Ty::DIRECTED);
        let (a, b) = (s.id(), t.id());
        got.adj[a].push((b, if Ty::DIRECTED { 1 } else { 0 }, c));
        if a != b || Ty::DIRECTED {
            got.adj[b].push((a, if Ty::DIRECTED { 2 } else { 0 }, c));
        }
        let key = if Ty::DIRECTED { (a, b) } else { (a.min(b), a.max(b)) };
        ensure!(edges.insert(key, l).is_none(), "{}: edge {:?}-{:?} is there twice", what, s, t);
        ctx.ev("edges observed");
    }
    ctx.evn("nodes observed", n);
    ensure_eq!(edges.len(), w.edges.len(), "{}: number of edges", what);
    ensure_eq!(g.edge_count(), w.edges.len(), "{}: edge_count()", what);
    let pos: BTreeMap<Entity, usize> = w.entities.keys().enumerate().map(|(i, e)| (e.clone(), i)).collect();
    let mut exp = G { labels: w.entities.values().cloned().collect(), adj: vec![Vec::new(); n] };
    let mut sets: Vec<(usize, usize, &BTreeSet<&'static str>)> = Vec::new();
    for ((a, b), ls) in &w.edges {
        let (x, y) = (pos[a], pos[b]);
        let c = class(ls.iter().next().unwrap(), Ty::DIRECTED);
        exp.adj[x].push((y, if Ty::DIRECTED { 1 } else { 0 }, c));
        if x != y || Ty::DIRECTED {
            exp.adj[y].push((x, if Ty::DIRECTED { 2 } else { 0 }, c));
        }
        sets.push((x, y, ls));
    }
    let leaf = |map: &[usize]| {
        sets.iter().all(|(x, y, ls)| {
            let (a, b) = (map[*x], map[*y]);
            let key = if Ty::DIRECTED { (a, b) } else { (a.min(b), a.max(b)) };
            edges.get(&key).map_or(false, |l| ls.contains(l.as_str())) && g.has_edge(Id::new(a), Id::new(b))
        })
    };
    let mut budget = 300;
    if n > 10_000 {
        // too many for a search: what each node and its neighbours look like must agree
        ensure!(refine([&exp, &got], colours([&exp, &got]), 2).is_some(), "{}: no numbering of the nodes makes the loaded graph the one the files describe", what);
        ctx.ev("large graphs compared by their neighbourhoods");
        return Ok(());
    }
    match matches([&exp, &got], colours([&exp, &got]), &leaf, &mut budget) {
        Some(true) => ctx.ev("correspondences found"),
        None => ctx.ev("correspondence searches given up"),
        Some(false) => {
            return Err(format!("{}: no numbering of the nodes makes the loaded graph the one the files describe; loaded: labels {:?}, edges {:?}; described: {:?}, {:?}", what, got.labels, edges, w.entities, w.edges)
                .chars()
                .take(6000)
                .collect())
        }
    }
    Ok(())
}

struct Row {
    file: String,
    fields: Vec<String>,
}

fn quote(rng: &mut Rng, f: &str) -> String {
    if f.contains('|') || f.contains('"') || f.contains('\n') || rng.chance(1, 60) {
        format!("\"{}\"", f.replace('"', "\"\""))
    } else {
        f.to_string()
    }
}

/// Writes the rows of each relation spread over several files.
fn write(ctx: &mut Ctx, dir: &str, rows: &[Row], empties: &[String], whole: bool) {
    fs::create_dir(dir).unwrap();
    let mut by: BTreeMap<&str, Vec<&Row>> = BTreeMap::new();
    for r in rows {
        by.entry(&r.file).or_default().push(r);
    }
    for e in empties {
        by.entry(e).or_default();
    }
    let mut files: Vec<(String, String)> = Vec::new();
    for (stem, mut rs) in by {
        ctx.rng.shuffle(&mut rs);
        let k = if whole { 1 } else { *ctx.rng.pick(&[1usize, 1, 1, 2, 3, 5]) };
        let names: Vec<String> = match ctx.rng.below(4) {
            0 => (0..k).map(|i| format!("{}_0_{}.csv", stem, i)).collect(),
            1 => (0..k).map(|i| format!("{}_{}.csv", stem, i * 7)).collect(),
            2 => (0..k).map(|i| format!("{}_{}_{}.csv", stem, i, 0)).collect(),
            _ => (0..k).map(|i| if i == 0 { format!("{}_.csv", stem) } else { format!("{}_{:03}__{}.csv", stem, i, i) }).collect(),
        };
        let eol = if ctx.rng.chance(1, 5) { "\r\n" } else { "\n" };
        let w = rs.first().map_or(2, |r| r.fields.len());
        let header = (0..w).map(|i| format!("col{}", i)).collect::<Vec<_>>().join("|");
        let mut texts: Vec<String> = names.iter().map(|_| format!("{}{}", header, eol)).collect();
        for r in rs {
            // sometimes a row is said twice, in the same or another file
            for _ in 0..if ctx.rng.chance(1, 8) { 2 } else { 1 } {
                let t = ctx.rng.below(k);
                let line: Vec<String> = r.fields.iter().map(|f| quote(&mut ctx.rng, f)).collect();
                texts[t].push_str(&line.join("|"));
                texts[t].push_str(eol);
            }
        }
        for (n, mut t) in names.into_iter().zip(texts) {
            if ctx.rng.chance(1, 6) {
                t.truncate(t.len() - eol.len());
            }
            files.push((n, t));
        }
    }
    ctx.rng.shuffle(&mut files);
    let linked = ctx.rng.chance(1, 8);
    // creation order decides the listing order on many file systems
    for (n, t) in files {
        ctx.step(format!("{}/{}: {:?}", dir, n, t.chars().take(400).collect::<String>()));
        if linked {
            // the files lie elsewhere, the directory has links to them
            let to = format!("{}.{}.data", dir, n);
            fs::write(&to, t).unwrap();
            std::os::unix::fs::symlink(to, format!("{}/{}", dir, n)).unwrap();
            ctx.ev("linked files");
        } else {
            fs::write(format!("{}/{}", dir, n), t).unwrap();
        }
        ctx.ev("files written");
    }
}

/// Files that belong to none of the relations.
fn unrelated(ctx: &mut Ctx, dir: &str) {
    let body = "a|b|c|d\n1|2|3|4\n5|6|7|8\n";
    let names = [
        "person_0_0.csv", "comment_0_0.csv", "forum_0_0.csv", "post_0_0.csv", "tag_0_0.csv", "tagclass_0_0.csv",
        "person_email_emailaddress_0_0.csv", "person_speaks_language_0_0.csv", "readme.txt", "place_0_0.txt", "x.csv", ".csv",
        "_SUCCESS", "person_knows_tag_0_0.csv", "person_knows_person", "places_0_0.csv", "myplace_0_0.csv", "organisation_0_0.tsv",
        ".person_knows_person_0_0.csv.crc", "person_knows_person_0_0.csv.bak", "old_forum_hasTag_tag_0_0.csv", "place_0_0.csv~", "post_hasTag_tag_0_0_csv",
        "organisation_0_0.csvx", "PLACE_0_0.csv", "place_0_0_csv", "place_x_0.csv",
    ];
    for _ in 0..ctx.rng.below(6) {
        let n = *ctx.rng.pick(&names);
        let p = format!("{}/{}", dir, n);
        let content: Vec<u8> = match ctx.rng.below(4) {
            0 => vec![0xFF, 0x00, b'|', 0xFE, b'\n', 0xC3, 0x28],
            1 => Vec::new(),
            _ => body.as_bytes().to_vec(),
        };
        ctx.step(format!("{}", p));
        fs::write(p, content).unwrap();
        ctx.ev("unrelated files");
    }
    if ctx.rng.chance(1, 3) {
        let mut name = dir.as_bytes().to_vec();
        name.extend_from_slice(if ctx.rng.chance(1, 2) { b"/person_\xFF.csv" } else { b"/\xC3\x28" });
        fs::write(OsString::from_vec(name), body).unwrap();
        ctx.ev("unrelated files with a non-UTF-8 name");
    }
    if ctx.rng.chance(1, 3) {
        // a directory that is named like a relation
        let d = format!("{}/person_knows_person_77_7.csv", dir);
        fs::create_dir(&d).unwrap();
        fs::write(format!("{}/person_knows_person_0_0.csv", d), "a|b\n901|902\n").unwrap();
        ctx.ev("subdirectories");
    }
}

fn case<Id: HId, Ty: Dir>(ctx: &mut Ctx) -> CaseResult {
    ctx.clean_scratch();
    let big = ctx.case % 251 < 8 && ctx.case >= 251;
    let huge = big && ctx.case % 1757 < 4;
    let limit = Id::max_usize().saturating_add(1).min(if huge { 160_000 } else if big { 3000 } else { 60 });
    // ids overlap between types
    let wide = Id::max_usize() > 1_000_000;
    // many rows spread over files, in one file of one relation, or in one file of an entity
    let shape = if huge { ctx.case as usize % 3 } else { 0 };
    let per = if huge { limit / 8 } else { ctx.rng.range(1, limit / 8) };
    let style = ctx.rng.below(5);
    let pad = "9".repeat(*ctx.rng.pick(&[20usize, 31, 32, 63, 64, 255, 256, 1000, 5000]));
    let id = |rng: &mut Rng| -> String {
        let k = rng.below(per) as u64;
        let style = if shape > 0 { 2 } else { style };
        // texts that differ, also where their numbers, cases, ends or concatenations with a type agree
        let odd = ["class5", "5", "05", "5.0", "+5", "class", "5 ", "CLASS5", "a|b", "a\"b", "\u{e9}", "e\u{301}", "tag5", "-5", "0x5", "two\nlines", "|5", "_5", "5_", "person5", "#5", "99999999999999999999999", "9999999999999999999999", "18446744073709551621"];
        match style {
            0 => (k * 1_099_511_627_776 + 933).to_string(),
            1 => match odd.get(k as usize) {
                Some(x) => x.to_string(),
                None => format!("id{}", k),
            },
            // long texts that differ only at the end or only at the start
            4 if k % 2 == 0 => format!("{}{}", pad, k),
            4 => format!("{}{}", k, pad),
            _ => k.to_string(),
        }
    };
    let mut w = World::default();
    let mut rows: Vec<Row> = Vec::new();
    let mut empties: Vec<String> = Vec::new();
    // organisations and places from their own files
    let unique = ctx.rng.chance(1, 2);
    for (t, types) in [("organisation", ["university", "company", "school"]), ("place", ["city", "country", "continent"])] {
        let t: &'static str = t;
        if ctx.rng.chance(1, 4) {
            continue;
        }
        if ctx.rng.chance(1, 8) {
            empties.push(t.to_string());
        }
        let many = shape == 2 && wide;
        for j in 0..if many { ctx.rng.range(67_000, 75_000) } else { ctx.rng.below(per + 1) } {
            let i = if many { j.to_string() } else { id(&mut ctx.rng) };
            if w.entities.contains_key(&(t, i.clone())) {
                continue;
            }
            let ty = if unique { format!("{}#{}", types[0], i) } else { ctx.rng.pick(&types).to_string() };
            let name = match ctx.rng.below(5) {
                0 => "with \"quotes\"|and pipe".to_string(),
                1 => "\u{e9}\u{4e2d}, x".into(),
                2 => "two\nlines".into(),
                3 => String::new(),
                _ => format!("name{}", i),
            };
            let fields = if t == "organisation" { vec![i.to_string(), ty.clone(), name, "http://x".into()] } else { vec![i.to_string(), name, "http://y".into(), ty.clone()] };
            w.entities.insert((t, i), ty);
            rows.push(Row { file: t.to_string(), fields });
        }
    }
    let mut used: Vec<usize> = (0..RELATIONS.len()).filter(|_| ctx.rng.chance(2, 3)).collect();
    if shape == 1 {
        used.truncate(1);
        ctx.ev("more than 65536 rows of one relation");
    }
    let count = if huge { ctx.rng.range(66_000, 90_000) } else if big { ctx.rng.below(6000) } else { ctx.rng.below(80) };
    for r in &used {
        if ctx.rng.chance(1, 10) {
            let (s, l, t) = RELATIONS[*r];
            empties.push(format!("{}_{}_{}", s, l, t));
        }
    }
    if !used.is_empty() {
        for _ in 0..count {
            let (s, l, t) = RELATIONS[*ctx.rng.pick(&used)];
            let (a, b) = ((s, id(&mut ctx.rng)), (t, id(&mut ctx.rng)));
            w.entities.entry(a.clone()).or_insert_with(|| s.to_string());
            w.entities.entry(b.clone()).or_insert_with(|| t.to_string());
            let key = if Ty::DIRECTED || a <= b { (a.clone(), b.clone()) } else { (b.clone(), a.clone()) };
            w.edges.entry(key).or_default().insert(l);
            rows.push(Row { file: format!("{}_{}_{}", s, l, t), fields: vec![a.1, b.1] });
        }
        // rows of one relation have the same extra columns
        let extra: BTreeMap<String, usize> = rows.iter().map(|r| (r.file.clone(), ctx.rng.below(2))).collect();
        for r in rows.iter_mut() {
            if r.fields.len() == 2 && extra[&r.file] > 0 {
                r.fields.push("2010-03-13T07:37:21.718+0000".into());
            }
        }
    }
    ctx.describe(format!("{} {}: {} entities, {} rows, {} relations, ids {}", Id::NAME, if Ty::DIRECTED { "directed" } else { "undirected" }, w.entities.len(), rows.len(), used.len(), ["far apart", "textual", "small", "small", "long"][style]));
    for k in 0..2 {
        let dir = ctx.path(if k == 0 { "ldbc" } else { "split otherwise" });
        write(ctx, &dir, &rows, &empties, k == 0 && shape > 0);
        if k == 1 || ctx.rng.chance(1, 2) {
            unrelated(ctx, &dir);
        }
        let g: TypedGraphMap<Id, String, String, Ty> = if ctx.rng.chance(1, 2) {
            guarded(|| read_ldbc_from_path(&dir))?
        } else {
            guarded(|| Scheme::init().from_path(&dir))?.map_err(|e| format!("loading failed: {}", e))?
        };
        ctx.ev("directories loaded");
        judge(ctx, &w, &g, if k == 0 { "first directory" } else { "same rows split otherwise" })?;
        if ctx.case % 4 == 0 && !big {
            // short reads do not matter, and a file that cannot be read to its end is not a shorter file
            let plan = Plan { reads: true, opens: true, short: *ctx.rng.pick(&[7usize, 50, 1000]), ..faultio::NONE };
            type G<Id, Ty> = TypedGraphMap<Id, String, String, Ty>;
            let (r, calls, _): (Result<G<Id, Ty>, String>, _, _) = faultio::with(plan, || guarded(|| read_ldbc_from_path(&dir)));
            ctx.evn("read and open calls watched", calls as usize);
            judge(ctx, &w, &r.map_err(|e| format!("loading through short reads: {}", e))?, "loaded through short reads")?;
            for _ in 0..3 {
                let f = Plan { fail: ctx.rng.below(calls.max(1) as usize) as u64, once: ctx.rng.chance(1, 2), errno: *ctx.rng.pick(&[libc::EIO, libc::EACCES]), ..plan };
                let (r, _, failed): (Result<G<Id, Ty>, String>, _, _) = faultio::with(f, || guarded(|| Scheme::init().from_path(&dir)).and_then(|r| r.map_err(|e| e.to_string())));
                ctx.ev(if failed > 0 { "loads with a failing call" } else { "calls that were not made this time" });
                match r {
                    Ok(g) => judge(ctx, &w, &g, &format!("loaded although call {} of {} failed", f.fail, calls))?,
                    Err(e) if failed == 0 => return Err(format!("loading through short reads: {}", e)),
                    Err(_) => ctx.ev("failing loads refused"),
                }
            }
        }
        if big {
            break;
        }
    }
    if !w.edges.is_empty() {
        let k = rng::fnv(format!("{:?}{:?}", w.entities, w.edges).as_bytes());
        ctx.nontrivial(k);
    }
    Ok(())
}

fn run(ctx: &mut Ctx) -> CaseResult {
    match ctx.case % 8 {
        0 => case::<u32, Directed>(ctx),
        1 => case::<u32, Undirected>(ctx),
        2 => case::<usize, Directed>(ctx),
        3 => case::<u16, Undirected>(ctx),
        4 => case::<u8, Directed>(ctx),
        5 => case::<u8, Undirected>(ctx),
        6 => case::<u16, Directed>(ctx),
        _ => case::<usize, Undirected>(ctx),
    }
}

fn main() {
    driver::main(CheckDef {
        id: "C22",
        level: "exploration",
        rule: "each case invents entities with ids overlapping between types (small, far apart, arbitrary or very long texts) and up to 80 rows (a few cases: 6000 or 90000) over a random choice of the 23 LDBC relations, writes them twice, each time spread at random over files with different names, order, line ends, duplicated rows, extra columns, quoting, empty and header-only files, with unrelated files and directories next to them (now and then as links to files elsewhere), and loads both, in every fourth case also through short reads, and with a read or open call failing loading must not succeed with less (stand-ins for the C library's calls); the loaded graph is compared with the described one up to the numbering of its nodes (colour refinement and search for a correspondence that respects types, directions and edge labels). Non-trivial: at least one edge; distinct by content.",
        assumptions: &["one type per organisation or place, well-formed rows", "where several relations join the same pair either label is accepted", "a search for a correspondence that needs more than 300 choices is given up and not counted as a violation; graphs of more than 10000 nodes are compared by neighbourhoods only"],
        quick: 4500,
        thorough: 80000,
        run,
        mem_mb: 4096,
    })
}
