//! C05: label tables are stable one-to-one maps between items and indices.
use harness::rng::fnv;
use harness::*;
use rust_graph::generic::{MapTrait, MutMapTrait};
use rust_graph::io::serde::{Deserialize, Deserializer, Serialize, Serializer};
use rust_graph::map::{SetMap, VecMap};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

fn look<X: HLabel, T: MapTrait<X>>(ctx: &mut Ctx, t: &T, want: &[X], universe: &[X], what: &str) -> CaseResult {
    ensure_eq!(t.len(), want.len(), "{}: len()", what);
    ensure_eq!(t.is_empty(), want.is_empty(), "{}: is_empty()", what);
    let got: Vec<X> = t.items().take(want.len() + 5).cloned().collect();
    ensure!(got == want, "{}: items() yields {:?}, expected {:?}", what, got, want);
    for (i, x) in want.iter().enumerate() {
        ensure_eq!(t.get_item(i), Some(x), "{}: get_item({})", what, i);
        ensure_eq!(t.find_index(x), Some(i), "{}: find_index({:?})", what, x);
        ensure!(t.contains(x), "{}: contains({:?}) is false", what, x);
    }
    for i in [want.len(), want.len() + 1, usize::MAX, usize::MAX / 2, 1 << 32] {
        ensure_eq!(t.get_item(i), None, "{}: get_item({}) beyond the end", what, i);
    }
    for x in universe.iter().filter(|x| !want.contains(x)) {
        ensure_eq!(t.find_index(x), None, "{}: find_index({:?}) of an absent item", what, x);
        ensure!(!t.contains(x), "{}: contains({:?}) of an absent item", what, x);
    }
    ctx.ev("tables observed");
    Ok(())
}

fn dedup<X: HLabel>(v: &[X]) -> Vec<X> {
    let mut r = Vec::new();
    for x in v {
        if !r.contains(x) {
            r.push(x.clone());
        }
    }
    r
}

fn case<X: HLabel>(ctx: &mut Ctx) -> CaseResult {
    let k = (*ctx.rng.pick(&[1usize, 2, 3, 5, 8, 20, 60, 300])).min(X::MAX);
    let uni: Vec<X> = (0..k).map(X::make).collect();
    let steps = *ctx.rng.pick(&[3usize, 10, 30, 100, 400]);
    ctx.describe(format!("items {} of {} kinds, {} steps", X::NAME, k, steps));
    let mut want: Vec<X> = Vec::new();
    let (mut s, mut v): (SetMap<X>, VecMap<X>) = match ctx.rng.below(6) {
        0 => {
            let c = if ctx.rng.chance(1, 10) { 5000 } else { 20 };
            (SetMap::with_capacity(ctx.rng.below(c)), VecMap::with_capacity(ctx.rng.below(c)))
        }
        1 => (Default::default(), Default::default()),
        2 | 3 => {
            // from items with repetitions
            let n = ctx.rng.below(2 * k + 1);
            let it: Vec<X> = (0..n).map(|_| ctx.rng.pick(&uni).clone()).collect();
            want = dedup(&it);
            ctx.step(format!("collected from {:?}", it));
            match ctx.rng.below(4) {
                0 => (it.iter().cloned().collect(), it.iter().cloned().collect()),
                1 => (SetMap::from_vec(it.clone()), want.clone().into()),
                2 => ((&it).into(), (&want).into()),
                _ => (it.into(), VecMap::with_data(want.clone())),
            }
        }
        4 => {
            if uni.len() >= 2 {
                let (a, b) = (uni[0].clone(), uni[1].clone());
                want = vec![a.clone(), b.clone()];
                ctx.step("setmap! and vecmap! macros with a repetition".into());
                (rust_graph::setmap![a.clone(), b.clone(), a.clone()], rust_graph::vecmap![a.clone(), b, a])
            } else {
                (SetMap::new(), VecMap::new())
            }
        }
        _ => (SetMap::new(), VecMap::new()),
    };
    look(ctx, &s, &want, &uni, "SetMap at the start")?;
    look(ctx, &v, &want, &uni, "VecMap at the start")?;
    for i in 0..steps {
        match ctx.rng.below(40) {
            0..=23 => {
                let x = ctx.rng.pick(&uni).clone();
                let idx = want.iter().position(|y| *y == x).unwrap_or(want.len());
                if idx == want.len() {
                    want.push(x.clone());
                    ctx.ev("new items added");
                } else {
                    ctx.ev("items re-added");
                }
                ctx.step(format!("add_item({:?})", x));
                ensure_eq!(s.add_item(x.clone()), idx, "SetMap::add_item({:?})", x);
                ensure_eq!(v.add_item(x.clone()), idx, "VecMap::add_item({:?})", x);
            }
            24..=31 => {
                let w = want.pop();
                ctx.step("pop_item".into());
                ctx.ev("items popped");
                ensure_eq!(s.pop_item(), w, "SetMap::pop_item()");
                ensure_eq!(v.pop_item(), w, "VecMap::pop_item()");
            }
            32 => {
                if ctx.rng.chance(1, 6) {
                    ctx.step("clear".into());
                    want.clear();
                    s.clear();
                    v.clear();
                }
            }
            33 => {
                ctx.step("convert into each other".into());
                ctx.ev("conversions");
                let (ns, nv) = if ctx.rng.chance(1, 2) {
                    (SetMap::from(&v), VecMap::from(&s))
                } else {
                    (SetMap::from(v.clone()), VecMap::from(s.clone()))
                };
                ensure!(ns == s, "SetMap converted from VecMap differs from the SetMap of the same history");
                ensure!(nv == v, "VecMap converted from SetMap differs from the VecMap of the same history");
                s = ns;
                v = nv;
            }
            34 => {
                ctx.step("items_vec and back".into());
                ensure_eq!(s.clone().items_vec(), want, "SetMap::items_vec()");
                ensure_eq!(v.clone().items_vec(), want, "VecMap::items_vec()");
            }
            35 => {
                ctx.step("export and import".into());
                ctx.ev("tables saved and loaded");
                let (p, q) = (ctx.path("s.bin"), ctx.path("v.bin"));
                if ctx.rng.chance(1, 2) {
                    s.export(&p).map_err(|e| format!("export: {}", e))?;
                    v.export(&q).map_err(|e| format!("export: {}", e))?;
                    s = SetMap::import(&p).map_err(|e| format!("import: {}", e))?;
                    v = VecMap::import(&q).map_err(|e| format!("import: {}", e))?;
                } else {
                    Serializer::export(&s, &p).map_err(|e| format!("export: {}", e))?;
                    Serializer::export(&v, &q).map_err(|e| format!("export: {}", e))?;
                    s = Deserializer::import(&p).map_err(|e| format!("import: {}", e))?;
                    v = Deserializer::import(&q).map_err(|e| format!("import: {}", e))?;
                }
            }
            36 => {
                ctx.step("clone, then change the clone".into());
                let (mut cs, mut cv) = (s.clone(), v.clone());
                ensure!(cs == s && cv == v, "a clone differs from its original");
                if let Some(x) = uni.iter().find(|x| !want.contains(x)) {
                    cs.add_item(x.clone());
                    cv.add_item(x.clone());
                }
                cs.pop_item();
                cs.pop_item();
                cv.pop_item();
                cv.pop_item();
                look(ctx, &s, &want, &uni, "SetMap whose clone was changed")?;
                look(ctx, &v, &want, &uni, "VecMap whose clone was changed")?;
            }
            37 => {
                ctx.step("shrink_to_fit".into());
                v.shrink_to_fit();
            }
            _ => {
                // equality against a neighbouring assignment
                let mut o = want.clone();
                match ctx.rng.below(5) {
                    0 => {}
                    1 => ctx.rng.shuffle(&mut o),
                    2 => {
                        o.pop();
                    }
                    3 => {
                        if let Some(x) = uni.iter().find(|x| !o.contains(x)) {
                            o.push(x.clone());
                        }
                    }
                    _ => {
                        if let (Some(x), false) = (uni.iter().find(|x| !o.contains(x)).cloned(), o.is_empty()) {
                            let j = ctx.rng.below(o.len());
                            o[j] = x;
                        }
                    }
                }
                let same = o == want;
                // built differently: a detour over items that are popped again
                let mut os: SetMap<X> = SetMap::new();
                let mut ov: VecMap<X> = VecMap::new();
                for x in &o {
                    os.add_item(x.clone());
                    ov.add_item(x.clone());
                    if let (true, Some(y)) = (ctx.rng.chance(1, 3), uni.iter().find(|y| !o.contains(y))) {
                        os.add_item(y.clone());
                        ov.add_item(y.clone());
                        os.pop_item();
                        ov.pop_item();
                    }
                }
                ctx.step(format!("compare with a table of {:?}", o));
                ctx.ev(if same { "equal tables compared" } else { "different tables compared" });
                ensure_eq!(os == s, same, "SetMap {:?} == SetMap {:?}", o, want);
                ensure_eq!(s == os, same, "SetMap {:?} == SetMap {:?}", want, o);
                ensure_eq!(ov == v, same, "VecMap {:?} == VecMap {:?}", o, want);
                ensure_eq!(v == ov, same, "VecMap {:?} == VecMap {:?}", want, o);
                if same {
                    ensure_eq!(h(&os), h(&s), "hashes of equal SetMaps");
                    ensure_eq!(h(&ov), h(&v), "hashes of equal VecMaps");
                }
            }
        }
        if steps <= 30 || i % 16 == 0 {
            look(ctx, &s, &want, &uni, "SetMap")?;
            look(ctx, &v, &want, &uni, "VecMap")?;
        }
    }
    look(ctx, &s, &want, &uni, "SetMap at the end")?;
    look(ctx, &v, &want, &uni, "VecMap at the end")?;
    ctx.clean_scratch();
    if !want.is_empty() {
        ctx.nontrivial(fnv(format!("{}{:?}{}", X::NAME, want, steps).as_bytes()));
    }
    Ok(())
}

/// Tables of thousands of items (a VecMap searches item by item, so fewer for it).
fn large<X: HLabel>(ctx: &mut Ctx) -> CaseResult {
    let k = (*ctx.rng.pick(&[255usize, 256, 257, 1000, 4096, 5000, 65_535, 65_536, 65_537, 80_000])).min(X::MAX);
    let mut items: Vec<X> = (0..k).map(X::make).collect();
    ctx.rng.shuffle(&mut items);
    let mut want = items.clone();
    let mut back: HashMap<X, usize> = want.iter().cloned().enumerate().map(|(i, x)| (x, i)).collect();
    let how = ctx.rng.below(4);
    ctx.describe(format!("large tables of {} {} items, made in way {}", k, X::NAME, how));
    let mut s: SetMap<X> = match how {
        0 => SetMap::from_vec(items.clone()),
        1 => items.iter().cloned().collect(),
        2 => SetMap::from(&VecMap::with_data(items.clone())),
        _ => {
            let mut s = SetMap::new();
            for (i, x) in items.iter().enumerate() {
                ensure_eq!(s.add_item(x.clone()), i, "SetMap::add_item({:?})", x);
            }
            s
        }
    };
    let mut v: VecMap<X> = match how {
        0 => VecMap::with_data(items.clone()),
        1 => VecMap::from(s.clone()),
        2 => VecMap::from(&s),
        _ => items.clone().into(),
    };
    for round in 0..3 {
        let n = want.len();
        for (t, what, few) in [(&s as &dyn Table<X>, "SetMap", false), (&v, "VecMap", true)] {
            ensure_eq!(t.count(), n, "{}: len()", what);
            ensure!(t.all() == want, "{}: items() of {} items differ from what was put in", what, n);
            for _ in 0..if few { 60 } else { 3000 } {
                let i = match ctx.rng.below(4) {
                    0 => n.saturating_sub(1 + ctx.rng.below(3)),
                    _ => ctx.rng.below(n.max(1)),
                };
                if i < n {
                    ensure_eq!(t.at(i), Some(&want[i]), "{}: get_item({}) of {}", what, i, n);
                    ensure_eq!(t.index(&want[i]), Some(i), "{}: find_index of item {} of {}", what, i, n);
                    ensure!(t.has(&want[i]), "{}: contains item {} of {}", what, i, n);
                    ctx.ev("items of large tables looked up");
                }
            }
            for i in [n, n + 1, n + 255, n + 256, n + 65_536] {
                ensure_eq!(t.at(i), None, "{}: get_item({}) of {}", what, i, n);
            }
        }
        ensure!(SetMap::from(&v) == s, "the SetMap made from the VecMap differs from the SetMap");
        ensure!(VecMap::from(&s) == v, "the VecMap made from the SetMap differs from the VecMap");
        if round == 1 {
            let (p, q) = (ctx.path("s.bin"), ctx.path("v.bin"));
            s.export(&p).map_err(|e| format!("export: {}", e))?;
            v.export(&q).map_err(|e| format!("export: {}", e))?;
            let (t, w) = (SetMap::import(&p).map_err(|e| format!("import: {}", e))?, VecMap::import(&q).map_err(|e| format!("import: {}", e))?);
            ensure!(t == s && w == v, "a large table differs from what was saved");
            ensure!(h(&t) == h(&s) && h(&w) == h(&v), "hashes of equal large tables differ");
            s = t;
            v = w;
            // one exchanged pair, or one item less
            let mut o = want.clone();
            if o.len() >= 2 {
                let i = ctx.rng.below(o.len() - 1);
                o.swap(i, i + 1);
                ensure!(SetMap::from_vec(o.clone()) != s, "a SetMap with items {} and {} of {} exchanged is equal", i, i + 1, n);
                ensure!(VecMap::with_data(o.clone()) != v, "a VecMap with items {} and {} of {} exchanged is equal", i, i + 1, n);
            }
        }
        // drop some, put some back
        let d = ctx.rng.below(n.min(400) + 1);
        let mut gone = Vec::new();
        for _ in 0..d {
            let x = want.pop();
            ensure_eq!(s.pop_item(), x, "SetMap::pop_item() of {}", n);
            ensure_eq!(v.pop_item(), x, "VecMap::pop_item() of {}", n);
            back.remove(x.as_ref().unwrap());
            gone.extend(x);
        }
        for _ in 0..20 {
            let x = if gone.is_empty() || ctx.rng.chance(1, 2) { ctx.rng.pick(&items).clone() } else { ctx.rng.pick(&gone).clone() };
            let i = back.get(&x).copied();
            ensure_eq!(s.find_index(&x), i, "SetMap::find_index({:?}) in a large table", x);
            ensure_eq!(v.find_index(&x), i, "VecMap::find_index({:?}) in a large table", x);
            let i = i.unwrap_or(want.len());
            ensure_eq!(s.add_item(x.clone()), i, "SetMap::add_item({:?}) to a large table", x);
            ensure_eq!(v.add_item(x.clone()), i, "VecMap::add_item({:?}) to a large table", x);
            if i == want.len() {
                back.insert(x.clone(), i);
                want.push(x);
            }
        }
    }
    ctx.clean_scratch();
    ctx.ev("large tables");
    let salt = ctx.rng.next();
    ctx.nontrivial(fnv(format!("{}{}{}", X::NAME, k, how).as_bytes()) ^ salt);
    Ok(())
}

/// What both kinds of table answer.
trait Table<X> {
    fn count(&self) -> usize;
    fn all(&self) -> Vec<X>;
    fn at(&self, i: usize) -> Option<&X>;
    fn index(&self, x: &X) -> Option<usize>;
    fn has(&self, x: &X) -> bool;
}
impl<X: HLabel, T: MapTrait<X>> Table<X> for T {
    fn count(&self) -> usize {
        self.len()
    }
    fn all(&self) -> Vec<X> {
        self.items().cloned().collect()
    }
    fn at(&self, i: usize) -> Option<&X> {
        self.get_item(i)
    }
    fn index(&self, x: &X) -> Option<usize> {
        self.find_index(x)
    }
    fn has(&self, x: &X) -> bool {
        self.contains(x)
    }
}

fn run(ctx: &mut Ctx) -> CaseResult {
    if ctx.case % 1009 < 4 && ctx.case >= 1009 {
        return if ctx.case % 2 == 0 { large::<String>(ctx) } else { large::<u32>(ctx) };
    }
    match ctx.case % 4 {
        0 => case::<String>(ctx),
        1 => case::<u32>(ctx),
        2 => case::<u8>(ctx),
        _ => {
            if ctx.rng.chance(1, 20) {
                case::<()>(ctx)
            } else {
                case::<String>(ctx)
            }
        }
    }
}

fn main() {
    driver::main(CheckDef {
        id: "C05",
        level: "exploration",
        rule: "each case drives a SetMap and a VecMap through one random history (add, re-add, pop, clear, convert into each other, clone and change the clone, save and load, compare with equal and with slightly different tables) of 3..400 steps against a plain list of distinct items, comparing every returned index, both lookup directions, absent items, out-of-range indices, enumeration order, equality and hashes; every 1009 cases four tables of up to 80000 items. Non-trivial: the final table is not empty; distinct: by final table and length.",
        assumptions: &["a VecMap built directly from a vector is given distinct items"],
        quick: 48000,
        thorough: 400000,
        run,
        mem_mb: 4096,
    })
}
