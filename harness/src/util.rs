//! The reference: a graph as a plain list of nodes and edges.
use rust_graph::prelude::*;
pub use rust_graph::prelude::*;
use std::hash::Hash;
pub use vp::*;

pub type Di = rust_graph::graph_impl::TypedDiGraphMap<u8, u8>;
pub type Un = rust_graph::graph_impl::TypedUnGraphMap<u8, u8>;

#[derive(Clone)]
pub struct Model {
    pub dir: bool,
    pub nodes: Vec<(u8, Option<u8>)>,
    pub edges: Vec<(u8, u8, Option<u8>)>,
}
impl Model {
    pub fn new(dir: bool) -> Model {
        Model { dir, nodes: vec![], edges: vec![] }
    }
    pub fn node(&self, n: u8) -> Option<usize> {
        self.nodes.iter().position(|x| x.0 == n)
    }
    pub fn has(&self, n: u8) -> bool {
        self.node(n).is_some()
    }
    pub fn edge(&self, s: u8, t: u8) -> Option<usize> {
        let dir = self.dir;
        self.edges.iter().position(|x| (x.0 == s && x.1 == t) || (!dir && x.0 == t && x.1 == s))
    }
    pub fn adj(&self, s: u8, t: u8) -> bool {
        self.edge(s, t).is_some()
    }
    pub fn node_label(&self, n: u8) -> Option<u8> {
        self.node(n).and_then(|i| self.nodes[i].1)
    }
    pub fn edge_label(&self, s: u8, t: u8) -> Option<u8> {
        self.edge(s, t).and_then(|i| self.edges[i].2)
    }
    pub fn add_node(&mut self, n: u8, l: Option<u8>) -> bool {
        match self.node(n) {
            Some(i) => {
                self.nodes[i].1 = l;
                false
            }
            None => {
                self.nodes.push((n, l));
                true
            }
        }
    }
    pub fn add_edge(&mut self, s: u8, t: u8, l: Option<u8>) -> bool {
        for &n in &[s, t] {
            if !self.has(n) {
                self.nodes.push((n, None))
            }
        }
        match self.edge(s, t) {
            Some(i) => {
                self.edges[i].2 = l;
                false
            }
            None => {
                self.edges.push((s, t, l));
                true
            }
        }
    }
    pub fn remove_node(&mut self, n: u8) -> Option<Option<u8>> {
        let i = self.node(n)?;
        let r = self.nodes.remove(i).1;
        self.edges.retain(|e| e.0 != n && e.1 != n);
        Some(r)
    }
    pub fn remove_edge(&mut self, s: u8, t: u8) -> Option<Option<u8>> {
        let i = self.edge(s, t)?;
        Some(self.edges.remove(i).2)
    }
    /// Nodes next to `n`, going out.
    pub fn out(&self, n: u8) -> Vec<u8> {
        let mut v = vec![];
        for &(s, t, _) in &self.edges {
            if s == n {
                v.push(t)
            } else if !self.dir && t == n {
                v.push(s)
            }
        }
        v
    }
    pub fn inn(&self, n: u8) -> Vec<u8> {
        self.edges.iter().filter(|e| e.1 == n).map(|e| e.0).collect()
    }
}

/// Where a harness takes its ids and labels from: any byte, or one of a few different ones in
/// ascending order, whatever they are.
#[derive(Clone)]
pub struct Pool {
    ids: Vec<u8>,
    labels: Vec<u8>,
}
impl Pool {
    pub fn any() -> Pool {
        Pool { ids: vec![], labels: vec![] }
    }
    pub fn of(ids: usize, labels: usize) -> Pool {
        let v: Vec<u8> = (0..ids).map(|_| u8_()).collect();
        for p in v.windows(2) {
            assume(p[0] < p[1]);
        }
        let l: Vec<u8> = (0..labels).map(|_| u8_()).collect();
        for p in l.windows(2) {
            assume(p[0] != p[1]);
        }
        Pool { ids: v, labels: l }
    }
    pub fn id(&self) -> u8 {
        if self.ids.is_empty() {
            u8_()
        } else {
            self.ids[choose(self.ids.len() as u8) as usize]
        }
    }
    /// All pairs of ids there are in the pool, or any one pair.
    pub fn pairs<F: Fn(u8, u8)>(&self, f: F) {
        if self.ids.is_empty() {
            f(u8_(), u8_())
        }
        for &s in &self.ids {
            for &t in &self.ids {
                f(s, t)
            }
        }
    }
    pub fn label(&self) -> Option<u8> {
        if self.ids.is_empty() {
            opt(256)
        } else {
            match choose(self.labels.len() as u8 + 1) {
                0 => None,
                k => Some(self.labels[k as usize - 1]),
            }
        }
    }
}

pub fn opt(limit: u16) -> Option<u8> {
    if flag() {
        let x = u8_();
        if limit < 256 {
            assume((x as u16) < limit);
        }
        Some(x)
    } else {
        None
    }
}
pub fn id(limit: u16) -> u8 {
    let x = u8_();
    if limit < 256 {
        assume((x as u16) < limit);
    }
    x
}

/// `a` and `b` hold the same elements, as multisets.
pub fn same<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut used = vec![false; b.len()];
    for x in a {
        match (0..b.len()).find(|&i| !used[i] && b[i] == *x) {
            Some(i) => used[i] = true,
            None => return false,
        }
    }
    true
}
/// The same edges, each once, whichever way round an undirected one is given.
pub fn same_edges(dir: bool, a: &[(u8, u8)], b: &[(u8, u8, Option<u8>)]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut used = vec![false; b.len()];
    for x in a {
        match (0..b.len()).find(|&i| !used[i] && ((b[i].0 == x.0 && b[i].1 == x.1) || (!dir && b[i].1 == x.0 && b[i].0 == x.1))) {
            Some(i) => used[i] = true,
            None => return false,
        }
    }
    true
}

/// The contents of `g` are those of `m`: nodes, edges, labels.
pub fn contents<G, L: IdType>(g: &G, m: &Model)
where
    G: GraphLabelTrait<u8, u8, u8, L>,
{
    check!(g.is_directed() == m.dir, "the graph is of the kind that was asked for");
    for &(n, l) in &m.nodes {
        check!(g.has_node(n), "a node that was put in is there");
        check!(g.get_node_label(n).map(|x| *x) == l, "a node has the label it was given last");
    }
    for &(s, t, l) in &m.edges {
        check!(g.has_edge(s, t), "an edge that was put in is there");
        check!(g.get_edge_label(s, t).map(|x| *x) == l, "an edge has the label it was given last");
        if !m.dir {
            check!(g.has_edge(t, s), "an undirected edge is there the other way round");
            check!(g.get_edge_label(t, s).map(|x| *x) == l, "an undirected edge has the same label both ways");
        }
    }
    let ns: Vec<u8> = g.node_indices().collect();
    check!(ns.len() == m.nodes.len(), "every node is listed once");
    check!(ns.iter().all(|&n| m.has(n)), "only nodes that were put in are listed");
    let es: Vec<(u8, u8)> = g.edge_indices().collect();
    check!(es.len() == m.edges.len(), "every edge is listed once");
    check!(es.iter().all(|&(s, t)| m.adj(s, t)), "only edges that were put in are listed");
}
/// Nothing but the contents of `m` is found in `g`, whatever is asked for.
pub fn nothing_else<G, L: IdType>(g: &G, m: &Model, s: u8, t: u8)
where
    G: GraphLabelTrait<u8, u8, u8, L>,
{
    check!(g.has_node(s) == m.has(s), "a node is found if and only if it was put in");
    check!(g.has_edge(s, t) == m.adj(s, t), "an edge is found if and only if it was put in");
    check!(g.get_node(s).is_some() == m.has(s), "a node is handed out if and only if it is there");
    check!(g.get_edge(s, t).is_some() == m.adj(s, t), "an edge is handed out if and only if it is there");
}
/// Neighbours and degrees of every node, looking out.
pub fn outward<G, L: IdType>(g: &G, m: &Model)
where
    G: GraphTrait<u8, L>,
{
    for &(n, _) in &m.nodes {
        let mut out = m.out(n);
        out.sort();
        check!(g.neighbors(n).into_owned() == out, "a node has the neighbours its edges give it");
        check!(g.degree(n) == out.len(), "a node has as many neighbours as edges");
    }
}
/// Neighbours and degrees of every node, looking in.
pub fn inward<G, L: IdType>(g: &G, m: &Model)
where
    G: DiGraphTrait<u8, L>,
{
    for &(n, _) in &m.nodes {
        let mut inn = m.inn(n);
        inn.sort();
        check!(g.in_neighbors(n).into_owned() == inn, "a node has the in-neighbours its edges give it");
        check!(g.in_degree(n) == inn.len(), "a node has as many in-neighbours as edges into it");
    }
}
/// A graph of any shape on the nodes `ids`.
pub fn shape<G, L: IdType>(g: &mut G, m: &mut Model, ids: &[u8], loops: bool, label: fn() -> Option<u8>)
where
    G: MutGraphTrait<u8, u8, u8, L>,
{
    for &i in ids {
        let l = label();
        g.add_node(i, l);
        m.add_node(i, l);
    }
    for (a, &i) in ids.iter().enumerate() {
        for (b, &j) in ids.iter().enumerate() {
            if (loops || a != b) && (m.dir || a <= b) && flag() {
                let l = label();
                g.add_edge(i, j, l);
                m.add_edge(i, j, l);
            }
        }
    }
}
/// A graph of many nodes: one next to all, the others in a chain, some self-loops, most things labelled.
pub fn crowd<G, L: IdType>(g: &mut G, m: &mut Model, n: u8, stride: u8)
where
    G: MutGraphTrait<u8, u8, u8, L>,
{
    let id = |i: u8| i.wrapping_mul(stride);
    let mut node = |g: &mut G, m: &mut Model, i: u8| {
        let l = if i % 3 == 0 { None } else { Some(i / 2) };
        g.add_node(id(i), l);
        m.add_node(id(i), l);
    };
    for i in 0..n {
        node(g, m, i);
    }
    let mut edge = |i: u8, j: u8| {
        let l = if (i ^ j) % 4 == 0 { None } else { Some(i.wrapping_add(j) / 2) };
        g.add_edge(id(i), id(j), l);
        m.add_edge(id(i), id(j), l);
    };
    let hub = n / 2;
    for i in (0..n).rev() {
        edge(hub, i);
        if i % 5 == 0 {
            edge(i, hub);
        }
        if i % 4 == 0 {
            edge(i, i);
        }
        if i + 1 < n {
            edge(i, i + 1);
        }
    }
}
/// Several components: a chain, a ring, a tree, a ladder, a clique, three nodes by themselves. The way an edge points varies.
pub fn towns<G, L: IdType>(g: &mut G, m: &mut Model, stride: u8)
where
    G: MutGraphTrait<u8, u8, u8, L>,
{
    let id = |i: u8| i.wrapping_mul(stride);
    for &i in &[35, 34, 21] {
        let l = if i == 35 { Some(1) } else { None };
        g.add_node(id(i), l);
        m.add_node(id(i), l);
    }
    let mut edge = |i: u8, j: u8| {
        let (i, j) = if (i + j) % 3 == 1 { (j, i) } else { (i, j) };
        let l = if i % 3 == 0 { None } else { Some(j) };
        g.add_edge(id(i), id(j), l);
        m.add_edge(id(i), id(j), l);
    };
    for i in 0..7 {
        edge(i, i + 1);
    }
    for i in 0..6 {
        edge(8 + i, 8 + (i + 1) % 6);
    }
    for i in 1..7 {
        edge(14 + i, 14 + (i - 1) / 2);
    }
    for i in 0..3 {
        edge(22 + 2 * i, 24 + 2 * i);
        edge(23 + 2 * i, 25 + 2 * i);
        edge(22 + 2 * i, 23 + 2 * i);
    }
    for i in 30..34 {
        for j in 30..i + 1 {
            edge(i, j);
        }
    }
}
pub fn no_label() -> Option<u8> {
    None
}
pub fn any_label() -> Option<u8> {
    opt(256)
}
/// What can be reached from `from` without `avoid`, with distances, nearest first.
pub fn reach(m: &Model, from: u8, avoid: &[u8]) -> Vec<(u8, u32)> {
    let mut r = vec![(from, 0)];
    let mut i = 0;
    while i < r.len() {
        let (n, d) = r[i];
        for x in m.out(n) {
            if !avoid.contains(&x) && !r.iter().any(|y| y.0 == x) {
                r.push((x, d + 1))
            }
        }
        i += 1;
    }
    r
}
/// Node ids with and without gaps, around the word size of a bit set, up to the last one.
pub fn some_ids(k: u8) -> [u8; 5] {
    match k {
        0 => [0, 1, 2, 3, 4],
        1 => [9, 4, 31, 32, 1],
        2 => [255, 0, 64, 63, 128],
        _ => [2, 1, 0, 7, 3],
    }
}
/// `l` is `m`: kind, counts, nodes, edges, labels, adjacency.
pub fn whole(l: &dyn GraphLabelTrait<u8, u8, u8, u32>, m: &Model) {
    check!(l.is_directed() == m.dir, "the graph is of the kind it should be");
    check!(l.node_count() == m.nodes.len(), "the graph counts the nodes it should have");
    check!(l.edge_count() == m.edges.len(), "the graph counts the edges it should have");
    for &(n, x) in &m.nodes {
        check!(l.has_node(n) && l.get_node(n).get_id() == n, "a node that should be there is");
        check!(l.get_node_label(n).map(|y| *y) == x, "a node has the label it should have");
        let mut out = m.out(n);
        out.sort();
        check!(l.neighbors(n).into_owned() == out && l.degree(n) == out.len(), "a node has the neighbours it should have");
    }
    for &(s, t, x) in &m.edges {
        check!(l.has_edge(s, t) && l.get_edge_label(s, t).map(|y| *y) == x, "an edge has the label it should have");
        check!(m.dir || (l.has_edge(t, s) && l.get_edge_label(t, s).map(|y| *y) == x), "an edge has the label it should have, both ways");
    }
    let ns: Vec<u8> = l.node_indices().collect();
    check!(ns.len() == m.nodes.len() && ns.iter().all(|&n| m.has(n)), "no node is there that should not be");
    let es: Vec<(u8, u8)> = l.edge_indices().collect();
    check!(same_edges(m.dir, &es, &m.edges), "no edge is there that should not be");
}
/// A graph of any shape, labelled as its ids are.
pub fn by_id<G, L: IdType>(g: &mut G, m: &mut Model, ids: &[u8], loops: bool)
where
    G: MutGraphTrait<u8, u8, u8, L>,
{
    for &i in ids {
        let l = if i & 1 == 0 { Some(i) } else { None };
        g.add_node(i, l);
        m.add_node(i, l);
    }
    for (a, &i) in ids.iter().enumerate() {
        for (b, &j) in ids.iter().enumerate() {
            if (loops || a != b) && (m.dir || a <= b) && flag() {
                let l = if i & 2 == 0 { Some(j) } else { None };
                g.add_edge(i, j, l);
                m.add_edge(i, j, l);
            }
        }
    }
}

/// What a map of items to indices must look like when it holds these items.
pub fn map_is<T: Clone + PartialEq, M: MapTrait<T> + Clone>(map: &M, want: &[T], asked: &[T]) {
    check!(map.len() == want.len() && map.is_empty() == want.is_empty(), "a map has one item per distinct item added");
    let items: Vec<&T> = map.items().collect();
    check!(items.len() == want.len(), "items gives every item");
    for (i, w) in want.iter().enumerate() {
        check!(items[i] == w, "items come in order of insertion");
        check!(map.get_item(i).map_or(false, |x| x == w), "the item at an index is the one added there");
    }
    check!(map.get_item(want.len()).is_none() && map.get_item(usize::max_value()).is_none(), "there is no item beyond the last");
    for a in want.iter().chain(asked) {
        let i = want.iter().position(|w| w == a);
        check!(map.find_index(a) == i, "the index of an item is where it was put, and only items in the map have one");
        check!(map.contains(a) == i.is_some(), "a map contains the items it holds and no other");
    }
    check!(map.clone().items_vec() == want, "items_vec gives the items in order");
}
/// Add to a list as a map should: the index, whether new or not.
pub fn add_to<T: PartialEq>(m: &mut Vec<T>, x: T) -> usize {
    match m.iter().position(|w| *w == x) {
        Some(i) => i,
        None => {
            m.push(x);
            m.len() - 1
        }
    }
}
/// What hashing a value feeds to the hasher.
#[derive(Default)]
pub struct Fed(Vec<u8>);
impl std::hash::Hasher for Fed {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
pub fn fed<T: std::hash::Hash>(x: &T) -> Vec<u8> {
    let mut t = Fed::default();
    x.hash(&mut t);
    t.0
}
/// Any text of up to two ASCII characters.
pub fn text() -> String {
    let n = choose(3);
    let mut s = String::new();
    for _ in 0..n {
        s.push(below(128) as char);
    }
    s
}
/// Runs `f` on a good disk, then on one of several bad ones.
pub fn faulty<F: Fn(&str) -> bool>(files: &[&str], f: F) {
    let (p, q) = (dir() + "/a", dir() + "/b");
    check!(f(&p), "writing succeeds where there is nothing against it");
    let len: Vec<u64> = files.iter().map(|x| fs_len(&(p.clone() + x))).collect();
    let written: Vec<usize> = (0..files.len()).filter(|&i| len[i] != !0).collect();
    let most = len.iter().filter(|x| **x != !0).max().map(|x| *x).unwrap_or(0);
    match choose(6) {
        0 => {
            // no file can grow past this
            let b = conc(u8_() as u64);
            assume(b <= most + 1);
            fs_budget(b);
            let ok = f(&q);
            fs_budget(1 << 40);
            cover!(ok);
            cover!(!ok);
            check!(ok == (b >= most), "writing fails if and only if a file does not fit");
        }
        1 => {
            // one file is on a full disk
            let i = choose(files.len() as u8) as usize;
            fs_full(&(q.clone() + files[i]));
            let ok = f(&q);
            cover!(!ok);
            if len[i] != !0 && len[i] > 0 {
                check!(!ok, "writing fails if one of the files cannot be written");
            } else {
                check!(ok, "writing succeeds if the full disk is of no use to it");
            }
            return;
        }
        2 => {
            // a directory stands where one of the files should go
            let i = written[choose(written.len() as u8) as usize];
            std::fs::create_dir(q.clone() + files[i]).unwrap();
            check!(!f(&q), "writing fails if one of the files cannot be made");
            return;
        }
        3 => {
            check!(!f(&(dir() + "/none/b")), "writing fails if there is no such directory");
            return;
        }
        4 => {
            // one write fails, the others do not
            fs_fail(1 + choose(10) as u64);
            let ok = f(&q);
            let left = fs_fail(0);
            cover!(!ok);
            check!(ok == (left > 0), "writing fails if and only if one of the writes does");
            return;
        }
        _ => {
            fs_short(true);
            fs_intr(choose(4) as u64);
            check!(f(&q), "short and interrupted writes are no failure");
            fs_intr(0);
            fs_short(false);
            for i in 0..files.len() {
                let (a, b) = (std::fs::read(p.clone() + files[i]).ok(), std::fs::read(q.clone() + files[i]).ok());
                check!(a == b, "short and interrupted writes change nothing");
            }
        }
    }
}
/// As above; when it succeeds, the files are those of the good disk.
pub fn full<F: Fn(&str) -> bool>(files: &[&str], f: F) {
    faulty(files, |p| {
        let ok = f(p);
        if ok {
            for x in files {
                let (a, b) = (dir() + "/a" + x, p.to_string() + x);
                check!(fs_len(&a) == fs_len(&b) || fs_len(&a) == !0, "when writing succeeds everything is written");
            }
        }
        ok
    });
}
pub fn distinct<T: Clone + PartialEq>(v: &[T]) -> Vec<T> {
    let mut r = vec![];
    for x in v {
        add_to(&mut r, x.clone());
    }
    r
}
/// What any graph made by a generator must be like: nodes 0 to n-1, edges between different nodes, labels from the lists.
/// Gives the edges.
pub fn made<I: IdType, N: Hash + Eq + Clone, E: Hash + Eq + Clone, Ty: GraphType>(
    g: &rust_graph::graph_impl::TypedGraphMap<I, N, E, Ty>,
    n: usize,
    nl: &[N],
    el: &[E],
) -> Vec<(usize, usize)> {
    let dir = Ty::is_directed();
    check!(g.is_directed() == dir, "the graph is of the kind asked for");
    check!(g.node_count() == n, "there are as many nodes as asked for");
    let mut ids: Vec<usize> = g.node_indices().map(|i| i.id()).collect();
    ids.sort();
    check!(ids == (0..n).collect::<Vec<_>>(), "the nodes are 0 to n-1");
    let es: Vec<(usize, usize)> = g.edge_indices().map(|(s, t)| (s.id(), t.id())).collect();
    check!(es.len() == g.edge_count(), "every edge counted is there");
    for (k, &(s, t)) in es.iter().enumerate() {
        check!(s < n && t < n && s != t, "edges are between different nodes");
        check!(!es[..k].contains(&(s, t)) && (dir || !es[..k].contains(&(t, s))), "no edge is there twice");
    }
    for i in 0..n {
        let x = I::new(i);
        let l = g.get_node_label(x);
        check!(l.is_none() == nl.is_empty() && l.map_or(true, |l| nl.contains(l)), "a node has one of the labels given, if any are");
        let mut d = 0;
        for j in 0..n {
            let y = I::new(j);
            let e = es.contains(&(i, j)) || (!dir && es.contains(&(j, i)));
            check!(g.has_edge(x, y) == e, "an edge is found if and only if it is listed");
            if e {
                d += 1;
                let l = g.get_edge_label(x, y);
                check!(l.is_none() == el.is_empty() && l.map_or(true, |l| el.contains(l)), "an edge has one of the labels given, if any are");
                check!(dir || l == g.get_edge_label(y, x), "an undirected edge has the same label both ways");
            }
        }
        check!(g.neighbors(x).len() == d && g.degree(x) == d, "a node has as many neighbours as edges");
    }
    check!(same(&g.get_node_label_map().clone().items_vec(), &distinct(nl)), "the graph knows all node labels given");
    check!(same(&g.get_edge_label_map().clone().items_vec(), &distinct(el)), "the graph knows all edge labels given");
    es
}
/// The same for a graph of many nodes; labels are 0, 1, 2, .. `nl` and `el` of them. How many edges there are.
pub fn made_large<I: IdType, Ty: GraphType>(g: &rust_graph::graph_impl::TypedGraphMap<I, u16, u16, Ty>, n: usize, nl: u16, el: u16) -> usize {
    let dir = Ty::is_directed();
    check!(g.is_directed() == dir && g.node_count() == n, "there are as many nodes as asked for");
    check!((0..n).all(|i| g.has_node(I::new(i))) && !g.has_node(I::new(n)), "the nodes are 0 to n-1");
    let mut at = vec![false; n * n];
    let es: Vec<(usize, usize)> = g.edge_indices().map(|(s, t)| (s.id(), t.id())).collect();
    check!(es.len() == g.edge_count(), "every edge counted is there");
    for &(s, t) in &es {
        check!(s < n && t < n && s != t, "edges are between different nodes");
        check!(!at[s * n + t], "no edge is there twice");
        at[s * n + t] = true;
        if !dir {
            at[t * n + s] = true;
        }
    }
    for i in 0..n {
        let l = g.get_node_label(I::new(i)).map(|l| *l);
        check!(l.is_none() == (nl == 0) && l.map_or(true, |l| l < nl), "a node has one of the labels given, if any are");
        for j in 0..n {
            check!(g.has_edge(I::new(i), I::new(j)) == at[i * n + j], "an edge is found if and only if it is listed");
            if at[i * n + j] {
                let l = g.get_edge_label(I::new(i), I::new(j)).map(|l| *l);
                check!(l.is_none() == (el == 0) && l.map_or(true, |l| l < el), "an edge has one of the labels given, if any are");
            }
        }
    }
    check!(g.get_node_label_map().len() == nl as usize && g.get_edge_label_map().len() == el as usize, "the graph knows all labels given");
    es.len()
}
/// Up to `k` labels, the same or different.
pub fn few(k: u8) -> Vec<u8> {
    (0..choose(k + 1)).map(|_| u8_()).collect()
}
/// All pairs of different nodes there are.
pub fn pairs<Ty: GraphType>(n: usize) -> usize {
    n * n.saturating_sub(1) / if Ty::is_directed() { 1 } else { 2 }
}
