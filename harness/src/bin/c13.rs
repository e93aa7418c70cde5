//! C13: CSV reading loads every well-formed row and skips only malformed ones.
use harness::observe::*;
use harness::*;
use rust_graph::generic::{Directed, Undirected};
use rust_graph::graph_impl::TypedGraphMap;
use rust_graph::io::csv::CSVReader;
use rust_graph::io::read_from_csv;
use std::fs;

#[path = "../faultio.rs"]
mod faultio;
use faultio::Plan;

trait CsvLabel: HLabel {
    /// A label and its text.
    fn some(rng: &mut Rng, sep: u8) -> (Self, Vec<u8>);
    /// A text that is no label of this type.
    fn junk(rng: &mut Rng) -> Option<Vec<u8>>;
}
impl CsvLabel for String {
    fn junk(_: &mut Rng) -> Option<Vec<u8>> {
        None
    }
    fn some(rng: &mut Rng, sep: u8) -> (String, Vec<u8>) {
        let s = sep as char;
        let odd = ["#tag", "#", "%", "//x", "\\N", "NULL", "null", "NA", "a\\b", "\\", "\\\"", "'q'", "\ttab", "\u{feff}x", "=1+1", "0x10", "1e3", "true", "-", "\0", "a\rb", "\r", "\"", "\"\"", "--", "\u{a0}", "\u{2028}", "e\u{301}", "nodeId:ID", ":LABEL"];
        let x = match rng.below(18) {
            14..=17 => rng.pick(&odd).to_string(),
            0 => format!("a{}b", s),
            1 => "say \"hi\"".into(),
            2 => "two\nlines".into(),
            3 => "\u{e9}\u{4e2d}".into(),
            4 => "None".into(),
            5 => "12".into(),
            6 if rng.chance(1, 40) => "y".repeat(*rng.pick(&[4096usize, 8191, 8192, 8193, 20_000, 70_000])),
            // few enough different labels in all that one byte can number them
            6 if rng.chance(1, 10) => "x".repeat(*rng.pick(&[199usize, 255, 256, 257, 300])),
            6 => "x".repeat(rng.range(1, 140)),
            7 => s.to_string(),
            8 => " padded ".into(),
            _ => format!("L{}", rng.below(4)),
        };
        let b = x.clone().into_bytes();
        (x, b)
    }
}
impl CsvLabel for u32 {
    fn junk(rng: &mut Rng) -> Option<Vec<u8>> {
        Some(rng.pick(&[&b"x"[..], b"-1", b"1.5", b"4294967296", b"12a", b"None", b"7 7"]).to_vec())
    }
    fn some(rng: &mut Rng, _: u8) -> (u32, Vec<u8>) {
        let x = *rng.pick(&[0u32, 1, 2, 77, u32::MAX]);
        (x, x.to_string().into_bytes())
    }
}
impl CsvLabel for u8 {
    fn junk(rng: &mut Rng) -> Option<Vec<u8>> {
        Some(rng.pick(&[&b"x"[..], b"-1", b"1.5", b"256", b"12a", b"None", b"true"]).to_vec())
    }
    fn some(rng: &mut Rng, _: u8) -> (u8, Vec<u8>) {
        let x = *rng.pick(&[0u8, 1, 2, 77, 255]);
        (x, x.to_string().into_bytes())
    }
}

#[derive(Clone, Debug)]
enum Row<X> {
    Good(Vec<usize>, Option<X>),
    Bad(&'static str),
}

/// Writes a field, quoted if it must be or just so.
fn field(rng: &mut Rng, out: &mut Vec<u8>, f: &[u8], sep: u8, alone: bool) {
    let must = f.iter().any(|b| *b == sep || *b == b'"' || *b == b'\n' || *b == b'\r') || (alone && f.is_empty());
    if must || rng.chance(1, 10) {
        out.push(b'"');
        for b in f {
            if *b == b'"' {
                out.push(b'"');
            }
            out.push(*b);
        }
        out.push(b'"');
    } else {
        out.extend_from_slice(f);
    }
}

struct Conf {
    headers: bool,
    flexible: bool,
    sep: u8,
    /// how many rows in ten are damaged
    bad: usize,
}

fn good_id(rng: &mut Rng, max: usize, pool: &[usize], out: &mut Vec<u8>) -> usize {
    let x = (*rng.pick(pool)).min(max);
    if rng.chance(1, 20) {
        out.extend_from_slice(b"00");
    }
    out.extend_from_slice(x.to_string().as_bytes());
    x
}

fn bad_id(rng: &mut Rng, max: usize) -> (Vec<u8>, &'static str) {
    match rng.below(9) {
        0 => (b"abc".to_vec(), "id is no number"),
        1 => (b"-1".to_vec(), "negative id"),
        2 => (b"1.5".to_vec(), "fractional id"),
        3 => (b"".to_vec(), "empty id"),
        4 => ((max as u128 + 1).to_string().into_bytes(), "id just beyond the id type"),
        5 => (b"99999999999999999999999999".to_vec(), "id far beyond the id type"),
        6 => (b"12a".to_vec(), "id with a letter"),
        7 => (b"nodeId:ID".to_vec(), "a header as id"),
        _ => (((max as u128 + 1) * 3 / 2 + 7).to_string().into_bytes(), "id beyond the id type"),
    }
}

/// A file with `n` rows of `ids` id columns and a label column: its bytes and what each row means.
fn file<X: CsvLabel>(rng: &mut Rng, c: &Conf, names: &[&str], max: usize, pool: &[usize], n: usize) -> (Vec<u8>, Vec<Row<X>>) {
    let ids = names.len() - 1;
    let sep = c.sep;
    let nl: &[u8] = *rng.pick(&[&b"\n"[..], &b"\n"[..], &b"\r\n"[..]]);
    // column order: position of each of (ids.., label) in the row
    let mut cols: Vec<usize> = (0..names.len()).collect();
    let mut missing_id = false;
    if c.headers {
        if rng.chance(1, 2) {
            rng.shuffle(&mut cols);
        }
        if rng.chance(1, 5) {
            cols.retain(|x| *x != ids); // no label column
        } else if rng.chance(1, 25) {
            let k = rng.below(ids);
            cols.retain(|x| *x != k);
            missing_id = true;
        }
    } else if rng.chance(1, 6) {
        cols.retain(|x| *x != ids);
    }
    let mut out = Vec::new();
    let blank = rng.chance(1, 3);
    if blank && rng.chance(1, 4) {
        out.extend_from_slice(nl);
    }
    if c.headers {
        for (i, k) in cols.iter().enumerate() {
            if i > 0 {
                out.push(sep);
            }
            field(rng, &mut out, names[*k].as_bytes(), sep, cols.len() == 1);
        }
        out.extend_from_slice(nl);
    }
    let mut expected_len = if c.headers { Some(cols.len()) } else { None };
    let mut rows = Vec::new();
    for r in 0..n {
        if blank && rng.chance(1, 6) {
            out.extend_from_slice(nl);
        }
        let mut want: Row<X>;
        let mut vals = Vec::new();
        let mut bad: Option<&'static str> = if missing_id { Some("missing id column") } else { None };
        let mut fs: Vec<Vec<u8>> = Vec::new();
        let mut label: Option<X> = None;
        for k in &cols {
            let mut f = Vec::new();
            if *k < ids {
                if rng.chance(c.bad, 20) {
                    let (b, w) = bad_id(rng, max);
                    f = b;
                    bad = bad.or(Some(w));
                    vals.push((*k, 0));
                } else {
                    let v = good_id(rng, max, pool, &mut f);
                    vals.push((*k, v));
                }
            } else if rng.chance(2, 3) {
                let (x, b) = X::some(rng, sep);
                label = Some(x);
                f = b;
                if rng.chance(c.bad, 20) {
                    if let Some(b) = X::junk(rng) {
                        label = None;
                        f = b;
                    }
                }
            }
            fs.push(f);
        }
        vals.sort();
        want = match bad {
            Some(w) => Row::Bad(w),
            None => Row::Good(vals.iter().map(|x| x.1).collect(), label.clone()),
        };
        // damage to the shape of the row
        if rng.chance(c.bad, 20) {
            match rng.below(3) {
                0 if c.headers || cols.len() == names.len() => {
                    // too long: the columns that count are all there
                    for _ in 0..rng.range(1, 3) {
                        let f = if rng.chance(1, 2) { b"extra".to_vec() } else { Vec::new() };
                        fs.push(f);
                    }
                }
                1 if fs.len() > 1 => {
                    let keep = rng.range(1, fs.len() - 1);
                    fs.truncate(keep);
                    {
                        let have: Vec<usize> = cols[..keep].to_vec();
                        if (0..ids).any(|k| !have.contains(&k)) {
                            want = Row::Bad("missing end point or id");
                        } else if !have.contains(&ids) {
                            if let Row::Good(v, _) = want {
                                want = Row::Good(v, None);
                            }
                        }
                    }
                }
                _ => {
                    if r > 0 || c.headers || c.flexible {
                        // an invalid byte somewhere in the row
                        let k = rng.below(fs.len());
                        let at = rng.below(fs[k].len() + 1);
                        fs[k].insert(at, *rng.pick(&[0xffu8, 0xc3, 0x80, 0xfe]));
                        if std::str::from_utf8(&fs[k]).is_err() {
                            want = Row::Bad("invalid encoding");
                        } else {
                            fs[k].remove(at);
                        }
                    }
                }
            }
        }
        let len = fs.len();
        match expected_len {
            None => expected_len = Some(len),
            Some(e) => {
                if e != len && !c.flexible {
                    want = Row::Bad("wrong number of fields");
                }
            }
        }
        // without headers, a long first row still has its columns in order
        let alone = fs.len() == 1;
        for (i, f) in fs.iter().enumerate() {
            if i > 0 {
                out.push(sep);
            }
            field(rng, &mut out, f, sep, alone);
        }
        if r + 1 < n || rng.chance(2, 3) {
            out.extend_from_slice(nl);
        }
        rows.push(want);
    }
    if blank && rng.chance(1, 4) && out.last() == Some(&b'\n') {
        out.extend_from_slice(nl);
        out.extend_from_slice(nl);
    }
    (out, rows)
}

fn case<Id: HId, NL: CsvLabel, EL: CsvLabel, Ty: Dir, L: HId>(ctx: &mut Ctx, simple: Option<fn(&mut Ctx, &mut TypedGraphMap<Id, NL, EL, Ty, L>, Option<&str>, &str, &str, bool, bool) -> Result<(), String>>) -> CaseResult {
    let max = Id::max_usize();
    let rng = &mut ctx.rng;
    let (sep, sname): (u8, String) = match rng.below(8) {
        0 | 1 => (b',', "comma".into()),
        2 => (b' ', "space".into()),
        3 => (b'\t', "tab".into()),
        4 => (b';', ";".into()),
        5 => (b'|', "|".into()),
        _ => {
            let b = *rng.pick(&[b',', b'~', b'^', b'!', b'&', b'$', b'\x01']);
            (b, (b as char).to_string())
        }
    };
    let c = Conf { headers: rng.chance(1, 2), flexible: rng.chance(1, 2), sep, bad: *rng.pick(&[0usize, 1, 2, 4, 8]) };
    let k = rng.range(1, 12);
    let pool: Vec<usize> = (0..k)
        .map(|i| match rng.below(4) {
            0 => max - i.min(max),
            1 => (rng.next() as usize) & max,
            _ => i,
        })
        .collect();
    let big = ctx.case % 97 == 96;
    let huge = ctx.case % 2003 == 2002;
    let rng = &mut ctx.rng;
    let n = if huge { rng.range(5000, 70_000) } else if big { rng.range(1000, 4000) } else { *rng.pick(&[0usize, 1, 2, 3, 6, 12, 30]) };
    let (nb, nrows) = file::<NL>(rng, &c, &["nodeId:ID", ":LABEL"], max, &pool, n);
    let n = if huge { rng.range(5000, 70_000) } else if big { rng.range(1000, 4000) } else { *rng.pick(&[0usize, 1, 2, 3, 6, 12, 30]) };
    let (eb, erows) = file::<EL>(rng, &c, &[":START_ID", ":END_ID", ":TYPE"], max, &pool, n);
    let with_nodes = rng.chance(5, 6);
    let (pn, pe) = (ctx.path("n.csv"), ctx.path("e.csv"));
    fs::write(&pn, &nb).unwrap();
    fs::write(&pe, &eb).unwrap();
    let show = |b: &[u8]| String::from_utf8_lossy(&b[..b.len().min(700)]).to_string();
    ctx.describe(format!(
        "{}/{}/{}/{} headers {} flexible {} separator {:?}\nnodes: {:?}\nedges: {:?}",
        Id::NAME, NL::NAME, EL::NAME, L::NAME, c.headers, c.flexible, sname, show(&nb), show(&eb)
    ));
    // what must be loaded
    let mut m: Model<NL, EL> = Model::new(Ty::DIRECTED);
    let mut wn: Vec<(usize, Option<NL>)> = Vec::new();
    let mut we: Vec<(usize, usize, Option<EL>)> = Vec::new();
    if with_nodes {
        for r in &nrows {
            match r {
                Row::Good(v, l) => {
                    m.add_node(v[0], l.clone());
                    wn.push((v[0], l.clone()));
                    ctx.ev("well-formed rows");
                }
                Row::Bad(w) => ctx.ev(w),
            }
        }
    }
    for r in &erows {
        match r {
            Row::Good(v, l) => {
                m.add_edge(v[0], v[1], l.clone());
                we.push((v[0], v[1], l.clone()));
                ctx.ev("well-formed rows");
            }
            Row::Bad(w) => ctx.ev(w),
        }
    }
    let np = if with_nodes { Some(pn.clone()) } else { None };
    let plain = sname == "comma" && ctx.rng.chance(1, 2);
    let rd: CSVReader<'static, Id, NL, EL> = {
        let r = if plain { CSVReader::new(np.clone(), pe.clone()) } else { CSVReader::with_separator(np.clone(), pe.clone(), &sname) };
        let r = r.headers(c.headers).flexible(c.flexible);
        if ctx.rng.chance(1, 2) { r.clone() } else { r }
    };
    let mut g: TypedGraphMap<Id, NL, EL, Ty, L> = TypedGraphMap::new();
    match (simple, ctx.rng.chance(1, 2)) {
        (Some(f), true) => {
            f(ctx, &mut g, np.as_ref().map(|s| &s[..]), &pe, if plain { "" } else { &sname }, c.headers, c.flexible).map_err(|e| format!("read_from_csv failed: {}", e))?;
            ctx.ev("read_from_csv calls");
        }
        _ => rd.read(&mut g).map_err(|e| format!("reading failed: {}", e))?,
    }
    let bads: Vec<String> = nrows.iter().filter_map(|r| if let Row::Bad(w) = r { Some(w.to_string()) } else { None }).chain(erows.iter().filter_map(|r| if let Row::Bad(w) = r { Some(w.to_string()) } else { None })).take(12).collect();
    check_graph(ctx, Ty::gm(&g), &m, MEMBER | LABEL | COUNT | MAXID, m.max_seen, "graph read from CSV").map_err(|e| {
        let e: String = e.chars().take(2000).collect();
        format!("{} (rows to be skipped: {:?})", e, bads)
    })?;
    // the iterators yield exactly those rows, in order
    let got: Vec<(usize, Option<NL>)> = rd.node_iter().map_err(|e| e.to_string())?.take(nrows.len() + 9).map(|(i, l)| (i.id(), l)).collect();
    ensure!(got == wn, "node_iter() yields {:?}\n  instead of {:?} (rows to be skipped: {:?})", got.iter().take(20).collect::<Vec<_>>(), wn.iter().take(20).collect::<Vec<_>>(), bads);
    let got: Vec<(usize, usize, Option<EL>)> = rd.edge_iter().map_err(|e| e.to_string())?.take(erows.len() + 9).map(|(s, t, l)| (s.id(), t.id(), l)).collect();
    ensure!(got == we, "edge_iter() yields {:?}\n  instead of {:?} (rows to be skipped: {:?})", got.iter().take(20).collect::<Vec<_>>(), we.iter().take(20).collect::<Vec<_>>(), bads);
    // short reads do not matter, and a read that fails is not the end of the file
    if ctx.case % 8 == 0 && nrows.len() + erows.len() < 500 {
        let base = Plan { reads: true, opens: true, ..faultio::NONE };
        let least = 1 + (nb.len() + eb.len()) / 300;
        let plan = Plan { short: ctx.rng.pick(&[1usize, 3, 10, 100]).max(&least).clone(), ..base };
        let mut x: TypedGraphMap<Id, NL, EL, Ty, L> = TypedGraphMap::new();
        let (r, calls, _) = faultio::with(plan, || guarded(|| rd.read(&mut x).map_err(|e| e.to_string())));
        ctx.evn("read and open calls watched", calls as usize);
        r.and_then(|r| r).map_err(|e| format!("reading through reads of at most {} bytes: {}", plan.short, e))?;
        ensure!(x == g, "reading through reads of at most {} bytes gives another graph", plan.short);
        let a: Vec<(Id, Option<NL>)> = faultio::with(plan, || rd.node_iter().map(|i| i.take(nrows.len() + 9).collect())).0.map_err(|e| e.to_string())?;
        ensure!(a.iter().map(|x| (x.0.id(), &x.1)).eq(wn.iter().map(|x| (x.0, &x.1))), "node_iter() through short reads");
        let a: Vec<(Id, Id, Option<EL>)> = faultio::with(plan, || rd.edge_iter().map(|i| i.take(erows.len() + 9).collect())).0.map_err(|e| e.to_string())?;
        ensure!(a.iter().map(|x| (x.0.id(), x.1.id(), &x.2)).eq(we.iter().map(|x| (x.0, x.1, &x.2))), "edge_iter() through short reads");
        for _ in 0..6 {
            let f = Plan { fail: ctx.rng.below(calls as usize) as u64, once: ctx.rng.chance(1, 2), errno: *ctx.rng.pick(&[libc::EIO, libc::EACCES, libc::EISDIR]), ..plan };
            let mut x: TypedGraphMap<Id, NL, EL, Ty, L> = TypedGraphMap::new();
            let (r, _, failed) = faultio::with(f, || guarded(|| rd.read(&mut x).is_ok()));
            ctx.ev(if failed > 0 { "readings with a failing call" } else { "calls that were not made this time" });
            match r.map_err(|e| format!("reading with call {} of {} failing: {}", f.fail, calls, e))? {
                true => ensure!(x == g, "reading with call {} of {} failing reported success and loaded another graph", f.fail, calls),
                false => ctx.ev("failing reads reported"),
            }
        }
    }
    // missing files are errors
    if ctx.case % 16 == 0 {
        let none = ctx.path("missing.csv");
        let mut x: TypedGraphMap<Id, NL, EL, Ty, L> = TypedGraphMap::new();
        let a: CSVReader<Id, NL, EL> = CSVReader::new(Some(none.clone()), pe.clone());
        ensure!(guarded(|| a.read(&mut x).is_err()) == Ok(true), "reading a missing node file did not fail");
        ensure!(guarded(|| a.node_iter().is_err()) == Ok(true), "node_iter() of a missing file did not fail");
        let b: CSVReader<Id, NL, EL> = CSVReader::new(np.clone(), none);
        ensure!(guarded(|| b.read(&mut x).is_err()) == Ok(true), "reading a missing edge file did not fail");
        ensure!(guarded(|| b.edge_iter().is_err()) == Ok(true), "edge_iter() of a missing file did not fail");
        ctx.ev("missing files refused");
        // a file that can be opened but not read
        let dir = ctx.path("directory.csv");
        fs::create_dir_all(&dir).unwrap();
        let a: CSVReader<Id, NL, EL> = CSVReader::new(Some(dir.clone()), pe.clone()).headers(c.headers);
        ensure!(guarded(|| a.read(&mut x).is_err()) == Ok(true), "an unreadable node file did not make reading fail");
        let b: CSVReader<Id, NL, EL> = CSVReader::new(np, dir).headers(c.headers);
        ensure!(guarded(|| b.read(&mut x).is_err()) == Ok(true), "an unreadable edge file did not make reading fail");
        ctx.ev("unreadable files refused");
    }
    ctx.evn("rows", nrows.len() + erows.len());
    ctx.ev(match (c.headers, c.flexible) {
        (true, true) => "files with headers, flexible",
        (true, false) => "files with headers, fixed length",
        (false, true) => "files without headers, flexible",
        _ => "files without headers, fixed length",
    });
    ctx.clean_scratch();
    if !wn.is_empty() || !we.is_empty() {
        let k = rng::fnv(&nb) ^ rng::fnv(&eb).rotate_left(1);
        ctx.nontrivial(k);
    }
    Ok(())
}

fn call<Id: HId, NL: CsvLabel, EL: CsvLabel, Ty: Dir>(
    _: &mut Ctx,
    g: &mut TypedGraphMap<Id, NL, EL, Ty, Id>,
    n: Option<&str>,
    e: &str,
    sep: &str,
    h: bool,
    f: bool,
) -> Result<(), String> {
    read_from_csv(g, n, e, if sep.is_empty() { None } else { Some(sep) }, h, f).map_err(|e| e.to_string())
}

fn run(ctx: &mut Ctx) -> CaseResult {
    ctx.clean_scratch();
    match ctx.rng.below(8) {
        0 => case::<u32, String, String, Directed, u32>(ctx, Some(call)),
        1 => case::<u32, String, String, Undirected, u32>(ctx, Some(call)),
        2 => case::<u8, u32, String, Directed, u16>(ctx, None),
        3 => case::<u8, String, u8, Undirected, u8>(ctx, Some(call)),
        4 => case::<u16, String, u32, Directed, u8>(ctx, None),
        5 => case::<u16, u8, String, Undirected, u32>(ctx, None),
        6 => case::<usize, String, String, Directed, u8>(ctx, None),
        _ => case::<usize, u32, u32, Undirected, usize>(ctx, Some(call)),
    }
}

fn main() {
    driver::main(CheckDef {
        id: "C13",
        level: "exploration",
        rule: "each case writes a node file and an edge file of 0..30 rows (every 97th: thousands, every 2003rd: up to 70000) in which a random share of rows is damaged (labels that are no number although they should be one, ids that are no number, negative, fractional, empty, just or far beyond the id type; missing end points; invalid UTF-8; too many or too few fields), with or without headers (permuted, without label column, without an id column), flexible or fixed, any separator, blank lines, CRLF, quoted fields, no final line break; a row-by-row oracle says which rows count; the loaded graph and the rows of both iterators must equal it exactly, in every eighth case also through short reads, and with a read or open call failing reading must say so (stand-ins for the C library's calls). Non-trivial: some row is well-formed; distinct: by file contents.",
        assumptions: &["ids are written without blanks or plus sign", "the first row of a headerless fixed-length file is valid UTF-8"],
        quick: 80000,
        thorough: 800000,
        run,
        mem_mb: 4096,
    })
}
