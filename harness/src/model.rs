//! The abstract graph every concrete graph is compared with.
use crate::rng::fnv;
use rust_graph::generic::{
    DiGraphTrait, Directed, GeneralGraph, GraphType, IdType, Undirected,
};
use rust_graph::algorithm::{Bfs, Dfs};
use rust_graph::graph_impl::{TypedGraphMap, TypedStaticGraph};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::Hash;

pub trait HId: IdType + DeserializeOwned + Serialize {
    const NAME: &'static str;
}
impl HId for u8 {
    const NAME: &'static str = "u8";
}
impl HId for u16 {
    const NAME: &'static str = "u16";
}
impl HId for u32 {
    const NAME: &'static str = "u32";
}
impl HId for usize {
    const NAME: &'static str = "usize";
}

pub trait HLabel:
    Hash + Eq + Ord + Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static
{
    /// How many distinct labels `make` provides.
    const MAX: usize;
    const NAME: &'static str;
    /// The k-th label; different k below MAX give different labels.
    fn make(k: usize) -> Self;
}
impl HLabel for String {
    const MAX: usize = 1 << 20;
    const NAME: &'static str = "String";
    fn make(k: usize) -> Self {
        match k {
            3 => String::new(),
            4 => "a,b".into(),
            5 => "\"q\"".into(),
            6 => "line\nbreak".into(),
            7 => " pad ".into(),
            8 => "\u{e9}\u{4e2d}\u{1F600}".into(),
            9 => "None".into(),
            _ => format!("L{}", k),
        }
    }
}
impl HLabel for u32 {
    const MAX: usize = 1 << 20;
    const NAME: &'static str = "u32";
    fn make(k: usize) -> Self {
        (k as u32).wrapping_mul(2_654_435_761)
    }
}
impl HLabel for u8 {
    const MAX: usize = 256;
    const NAME: &'static str = "u8";
    fn make(k: usize) -> Self {
        255 - (k as u8)
    }
}
impl HLabel for () {
    const MAX: usize = 1;
    const NAME: &'static str = "()";
    fn make(_: usize) -> Self {}
}

/// Labels to fill a table with; the same ones for every table, and few types have as many.
pub fn fillers<X: HLabel>(k: usize) -> Vec<X> {
    if X::MAX > 1 << 19 {
        (0..k).map(|i| X::make((1 << 19) + i)).collect()
    } else {
        (0..k.min(X::MAX - 1)).map(|i| X::make(X::MAX - 2 - i)).collect()
    }
}

pub type DynGraph<'a, Id, NL, EL, L> = dyn GeneralGraph<Id, NL, EL, L> + 'a;

/// Both directions, with the conversions that exist only per direction.
pub trait Dir: GraphType + Send + Sync + 'static {
    const DIRECTED: bool;
    fn gm<Id: HId, NL: HLabel, EL: HLabel, L: HId>(
        g: &TypedGraphMap<Id, NL, EL, Self, L>,
    ) -> &DynGraph<'_, Id, NL, EL, L>;
    fn st<Id: HId, NL: HLabel, EL: HLabel, L: HId>(
        g: &TypedStaticGraph<Id, NL, EL, Self, L>,
    ) -> &DynGraph<'_, Id, NL, EL, L>;
    fn gm_box<Id: HId, NL: HLabel, EL: HLabel, L: HId>(
        g: TypedGraphMap<Id, NL, EL, Self, L>,
    ) -> Box<DynGraph<'static, Id, NL, EL, L>>;
    fn st_box<Id: HId, NL: HLabel, EL: HLabel, L: HId>(
        g: TypedStaticGraph<Id, NL, EL, Self, L>,
    ) -> Box<DynGraph<'static, Id, NL, EL, L>>;
    /// Traversals exist for sized graphs only.
    fn bfs_gm<Id: HId, NL: HLabel, EL: HLabel, L: HId>(g: &TypedGraphMap<Id, NL, EL, Self, L>, s: Option<Id>) -> Bfs<'_, Id, NL, EL, L>;
    fn bfs_st<Id: HId, NL: HLabel, EL: HLabel, L: HId>(g: &TypedStaticGraph<Id, NL, EL, Self, L>, s: Option<Id>) -> Bfs<'_, Id, NL, EL, L>;
    fn dfs_gm<Id: HId, NL: HLabel, EL: HLabel, L: HId>(g: &TypedGraphMap<Id, NL, EL, Self, L>, s: DfsStart<Id>) -> Dfs<'_, Id, NL, EL, L>;
    fn dfs_st<Id: HId, NL: HLabel, EL: HLabel, L: HId>(g: &TypedStaticGraph<Id, NL, EL, Self, L>, s: DfsStart<Id>) -> Dfs<'_, Id, NL, EL, L>;
    /// The operator forms that exist per direction: by value or boxed.
    fn add_gm<Id: HId, NL: HLabel, EL: HLabel, L: HId>(
        a: TypedGraphMap<Id, NL, EL, Self, L>,
        b: TypedGraphMap<Id, NL, EL, Self, L>,
        boxed: bool,
    ) -> TypedGraphMap<Id, NL, EL, Self, L>;
    fn sub_gm<Id: HId, NL: HLabel, EL: HLabel, L: HId>(
        a: TypedGraphMap<Id, NL, EL, Self, L>,
        b: TypedGraphMap<Id, NL, EL, Self, L>,
        boxed: bool,
    ) -> TypedGraphMap<Id, NL, EL, Self, L>;
    /// In-neighbours asked of the typed graph (directed only).
    fn gm_in<Id: HId, NL: HLabel, EL: HLabel, L: HId>(
        _g: &TypedGraphMap<Id, NL, EL, Self, L>,
        _id: Id,
    ) -> Option<Vec<Id>> {
        None
    }
}
/// How a depth-first traversal is made.
pub enum DfsStart<Id> {
    New(Option<Id>),
    WithCapacity,
    FromParts(Vec<Id>, fixedbitset::FixedBitSet),
}
impl<Id: HId> DfsStart<Id> {
    pub fn start<'a, G: GeneralGraph<Id, NL, EL, L>, NL: HLabel, EL: HLabel, L: HId>(self, g: &'a G) -> Dfs<'a, Id, NL, EL, L> {
        match self {
            DfsStart::New(s) => Dfs::new(g, s),
            DfsStart::WithCapacity => Dfs::with_capacity(g),
            DfsStart::FromParts(s, d) => Dfs::from_parts(s, d, g),
        }
    }
}

macro_rules! traversals_and_operators {
    () => {
        fn bfs_gm<Id: HId, NL: HLabel, EL: HLabel, L: HId>(g: &TypedGraphMap<Id, NL, EL, Self, L>, s: Option<Id>) -> Bfs<'_, Id, NL, EL, L> {
            Bfs::new(g, s)
        }
        fn bfs_st<Id: HId, NL: HLabel, EL: HLabel, L: HId>(g: &TypedStaticGraph<Id, NL, EL, Self, L>, s: Option<Id>) -> Bfs<'_, Id, NL, EL, L> {
            Bfs::new(g, s)
        }
        fn dfs_gm<Id: HId, NL: HLabel, EL: HLabel, L: HId>(g: &TypedGraphMap<Id, NL, EL, Self, L>, s: DfsStart<Id>) -> Dfs<'_, Id, NL, EL, L> {
            s.start(g)
        }
        fn dfs_st<Id: HId, NL: HLabel, EL: HLabel, L: HId>(g: &TypedStaticGraph<Id, NL, EL, Self, L>, s: DfsStart<Id>) -> Dfs<'_, Id, NL, EL, L> {
            s.start(g)
        }
        fn add_gm<Id: HId, NL: HLabel, EL: HLabel, L: HId>(
            a: TypedGraphMap<Id, NL, EL, Self, L>,
            b: TypedGraphMap<Id, NL, EL, Self, L>,
            boxed: bool,
        ) -> TypedGraphMap<Id, NL, EL, Self, L> {
            if boxed { Box::new(a) + Box::new(b) } else { a + b }
        }
        fn sub_gm<Id: HId, NL: HLabel, EL: HLabel, L: HId>(
            a: TypedGraphMap<Id, NL, EL, Self, L>,
            b: TypedGraphMap<Id, NL, EL, Self, L>,
            boxed: bool,
        ) -> TypedGraphMap<Id, NL, EL, Self, L> {
            if boxed { Box::new(a) - Box::new(b) } else { a - b }
        }
    };
}

impl Dir for Directed {
    const DIRECTED: bool = true;
    traversals_and_operators!();
    fn gm<Id: HId, NL: HLabel, EL: HLabel, L: HId>(
        g: &TypedGraphMap<Id, NL, EL, Self, L>,
    ) -> &DynGraph<'_, Id, NL, EL, L> {
        g
    }
    fn st<Id: HId, NL: HLabel, EL: HLabel, L: HId>(
        g: &TypedStaticGraph<Id, NL, EL, Self, L>,
    ) -> &DynGraph<'_, Id, NL, EL, L> {
        g
    }
    fn gm_box<Id: HId, NL: HLabel, EL: HLabel, L: HId>(
        g: TypedGraphMap<Id, NL, EL, Self, L>,
    ) -> Box<DynGraph<'static, Id, NL, EL, L>> {
        Box::new(g)
    }
    fn st_box<Id: HId, NL: HLabel, EL: HLabel, L: HId>(
        g: TypedStaticGraph<Id, NL, EL, Self, L>,
    ) -> Box<DynGraph<'static, Id, NL, EL, L>> {
        Box::new(g)
    }
    fn gm_in<Id: HId, NL: HLabel, EL: HLabel, L: HId>(
        g: &TypedGraphMap<Id, NL, EL, Self, L>,
        id: Id,
    ) -> Option<Vec<Id>> {
        Some(g.in_neighbors(id).into_owned())
    }
}
impl Dir for Undirected {
    const DIRECTED: bool = false;
    traversals_and_operators!();
    fn gm<Id: HId, NL: HLabel, EL: HLabel, L: HId>(
        g: &TypedGraphMap<Id, NL, EL, Self, L>,
    ) -> &DynGraph<'_, Id, NL, EL, L> {
        g
    }
    fn st<Id: HId, NL: HLabel, EL: HLabel, L: HId>(
        g: &TypedStaticGraph<Id, NL, EL, Self, L>,
    ) -> &DynGraph<'_, Id, NL, EL, L> {
        g
    }
    fn gm_box<Id: HId, NL: HLabel, EL: HLabel, L: HId>(
        g: TypedGraphMap<Id, NL, EL, Self, L>,
    ) -> Box<DynGraph<'static, Id, NL, EL, L>> {
        Box::new(g)
    }
    fn st_box<Id: HId, NL: HLabel, EL: HLabel, L: HId>(
        g: TypedStaticGraph<Id, NL, EL, Self, L>,
    ) -> Box<DynGraph<'static, Id, NL, EL, L>> {
        Box::new(g)
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Model<NL: HLabel, EL: HLabel> {
    pub directed: bool,
    pub nodes: BTreeMap<usize, Option<NL>>,
    /// Undirected edges are kept as (smaller, larger).
    pub edges: BTreeMap<(usize, usize), Option<EL>>,
    pub max_seen: Option<usize>,
}

impl<NL: HLabel, EL: HLabel> Model<NL, EL> {
    pub fn new(directed: bool) -> Self {
        Model { directed, nodes: BTreeMap::new(), edges: BTreeMap::new(), max_seen: None }
    }
    #[inline]
    pub fn key(&self, s: usize, t: usize) -> (usize, usize) {
        if self.directed || s <= t {
            (s, t)
        } else {
            (t, s)
        }
    }
    pub fn has_edge(&self, s: usize, t: usize) -> bool {
        self.edges.contains_key(&self.key(s, t))
    }
    pub fn edge(&self, s: usize, t: usize) -> Option<&Option<EL>> {
        self.edges.get(&self.key(s, t))
    }
    pub fn add_node(&mut self, id: usize, l: Option<NL>) -> bool {
        self.max_seen = Some(self.max_seen.map_or(id, |m| m.max(id)));
        self.nodes.insert(id, l).is_none()
    }
    pub fn add_edge(&mut self, s: usize, t: usize, l: Option<EL>) -> bool {
        for x in [s, t] {
            if !self.nodes.contains_key(&x) {
                self.add_node(x, None);
            }
        }
        let k = self.key(s, t);
        self.edges.insert(k, l).is_none()
    }
    pub fn remove_node(&mut self, id: usize) -> Option<Option<NL>> {
        let r = self.nodes.remove(&id);
        if r.is_some() {
            self.edges.retain(|&(a, b), _| a != id && b != id);
        }
        r
    }
    pub fn remove_edge(&mut self, s: usize, t: usize) -> Option<Option<EL>> {
        let k = self.key(s, t);
        self.edges.remove(&k)
    }
    pub fn out_adj(&self) -> BTreeMap<usize, BTreeSet<usize>> {
        let mut m: BTreeMap<usize, BTreeSet<usize>> =
            self.nodes.keys().map(|k| (*k, BTreeSet::new())).collect();
        for &(a, b) in self.edges.keys() {
            m.get_mut(&a).unwrap().insert(b);
            if !self.directed {
                m.get_mut(&b).unwrap().insert(a);
            }
        }
        m
    }
    pub fn in_adj(&self) -> BTreeMap<usize, BTreeSet<usize>> {
        let mut m: BTreeMap<usize, BTreeSet<usize>> =
            self.nodes.keys().map(|k| (*k, BTreeSet::new())).collect();
        for &(a, b) in self.edges.keys() {
            m.get_mut(&b).unwrap().insert(a);
            if !self.directed {
                m.get_mut(&a).unwrap().insert(b);
            }
        }
        m
    }
    pub fn node_label_counts(&self) -> BTreeMap<NL, usize> {
        let mut m = BTreeMap::new();
        for l in self.nodes.values().flatten() {
            *m.entry(l.clone()).or_insert(0) += 1;
        }
        m
    }
    pub fn edge_label_counts(&self) -> BTreeMap<EL, usize> {
        let mut m = BTreeMap::new();
        for l in self.edges.values().flatten() {
            *m.entry(l.clone()).or_insert(0) += 1;
        }
        m
    }
    /// True when the node ids are 0..n-1.
    pub fn dense(&self) -> bool {
        self.nodes.keys().enumerate().all(|(i, k)| i == *k)
    }
    pub fn fingerprint(&self) -> u64 {
        fnv(format!("{:?}{:?}{:?}", self.directed, self.nodes, self.edges).as_bytes())
    }
    /// Components ignoring direction: node -> smallest member.
    pub fn components(&self) -> BTreeMap<usize, usize> {
        let adj_o = self.out_adj();
        let adj_i = self.in_adj();
        let mut comp = BTreeMap::new();
        for &n in self.nodes.keys() {
            if comp.contains_key(&n) {
                continue;
            }
            let mut st = vec![n];
            comp.insert(n, n);
            while let Some(x) = st.pop() {
                for y in adj_o[&x].iter().chain(adj_i[&x].iter()) {
                    if !comp.contains_key(y) {
                        comp.insert(*y, n);
                        st.push(*y);
                    }
                }
            }
        }
        comp
    }
    pub fn brief(&self) -> String {
        let s = format!(
            "{} nodes={:?} edges={:?}",
            if self.directed { "directed" } else { "undirected" },
            self.nodes,
            self.edges
        );
        s.chars().take(1500).collect()
    }
    /// The same content as a fresh GraphMap, nodes and edges inserted in the given order.
    pub fn to_graphmap<Id: HId, Ty: Dir, L: HId>(
        &self,
        rng: &mut crate::rng::Rng,
    ) -> TypedGraphMap<Id, NL, EL, Ty, L> {
        use rust_graph::generic::MutGraphTrait;
        let wide = rng.chance(1, 40);
        let mut g = if wide {
            let k = if rng.chance(2, 3) { rng.range(246, 256) } else { rng.range(200, 300) };
            let a = L::max_usize().saturating_sub(self.node_label_counts().len() + 16).min(k);
            let b = L::max_usize().saturating_sub(self.edge_label_counts().len() + 16).min(k);
            TypedGraphMap::with_label_map(fillers(a).into(), fillers(b).into())
        } else {
            TypedGraphMap::new()
        };
        let mut ns: Vec<_> = self.nodes.iter().collect();
        rng.shuffle(&mut ns);
        let mut es: Vec<_> = self.edges.iter().collect();
        rng.shuffle(&mut es);
        for (n, l) in ns {
            g.add_node(Id::new(*n), l.clone());
        }
        for (&(a, b), l) in es {
            let (a, b) = if !self.directed && rng.chance(1, 2) { (b, a) } else { (a, b) };
            g.add_edge(Id::new(a), Id::new(b), l.clone());
        }
        g
    }
}
