//! Graphs whose ids and label ids are of any width: the same for every property that uses them.
use crate::util::*;
use rust_graph::algorithm::{graph_minus, graph_union, Bfs, ConnComp, ConnSubgraph, Dfs};
use rust_graph::graph_impl::{StaticGraphMmap, TypedDiGraphMap, TypedGraphMap, TypedUnGraphMap};
use rust_graph::generic::MutEdgeTrait;
use rust_graph::io::serde::{Deserialize, Serialize};

pub trait Wide: IdType + Ord + serde::de::DeserializeOwned {
    fn any() -> Self;
}
impl Wide for u8 {
    fn any() -> u8 {
        u8_()
    }
}
impl Wide for u16 {
    fn any() -> u16 {
        u16_()
    }
}
impl Wide for u32 {
    fn any() -> u32 {
        u32_()
    }
}
impl Wide for usize {
    fn any() -> usize {
        u64_() as usize
    }
}
/// Three ids, the smallest first; the model knows them as 0, 1, 2.
pub fn three<Id: Wide>() -> Vec<Id> {
    let v = vec![Id::any(), Id::any(), Id::any()];
    assume(v[0] < v[1] && v[1] < v[2]);
    v
}
pub fn is<Id: Wide, L: IdType>(g: &dyn GraphLabelTrait<Id, u8, u8, L>, m: &Model, ids: &[Id], x: Id) {
    let at = |i: u8| ids[i as usize];
    let back = |x: Id| ids.iter().position(|y| *y == x).map_or(255, |i| i as u8);
    check!(g.is_directed() == m.dir, "the graph is of the kind it should be");
    check!(g.node_count() == m.nodes.len() && g.edge_count() == m.edges.len(), "the graph counts what it holds");
    for i in 0..ids.len() as u8 {
        check!(g.has_node(at(i)) == m.has(i), "a node is there if and only if it should be");
        if !m.has(i) {
            continue;
        }
        check!(g.get_node(at(i)).get_id() == at(i) && g.get_node_label(at(i)).map(|y| *y) == m.node_label(i), "a node has its id and its label");
        let mut out = m.out(i);
        out.sort();
        let out: Vec<Id> = out.into_iter().map(at).collect();
        check!(g.neighbors(at(i)).into_owned() == out && g.degree(at(i)) == out.len(), "a node has its neighbours, in order");
        for j in 0..ids.len() as u8 {
            check!(g.has_edge(at(i), at(j)) == m.adj(i, j), "an edge is there if and only if it should be");
            check!(g.get_edge_label(at(i), at(j)).map(|y| *y) == m.edge_label(i, j), "an edge has its label");
        }
    }
    check!(g.has_node(x) == (back(x) != 255 && m.has(back(x))), "a node is found if and only if it was put in");
    let ns: Vec<u8> = g.node_indices().map(back).collect();
    check!(ns.len() == m.nodes.len() && ns.iter().all(|&n| m.has(n)), "no node is there that should not be");
    let es: Vec<(u8, u8)> = g.edge_indices().map(|(s, t)| (back(s), back(t))).collect();
    check!(same_edges(m.dir, &es, &m.edges), "no edge is there that should not be");
}
pub fn op<Id: Wide, L: IdType, G: MutGraphTrait<Id, u8, u8, L>>(g: &mut G, m: &mut Model, ids: &[Id]) {
    let (i, j) = (choose(3), choose(3));
    let (a, b) = (ids[i as usize], ids[j as usize]);
    match choose(if i == j { 4 } else { 2 }) {
        0 => check!(g.add_edge(a, b, Some(i)) == m.add_edge(i, j, Some(i)), "adding an edge says whether it is new"),
        1 => check!(EdgeTrait::is_some(&g.remove_edge(a, b)) == m.remove_edge(i, j).is_some(), "removing an edge says whether it was there"),
        2 => check!(g.add_node(a, Some(i + 4)) == m.add_node(i, Some(i + 4)), "adding a node says whether it is new"),
        _ => check!(NodeTrait::is_some(&g.remove_node(a)) == m.remove_node(i).is_some(), "removing a node says whether it was there"),
    }
}
pub fn history<Id: Wide, L: Wide, Ty: GraphType>() {
    let ids = three::<Id>();
    let (mut g, mut m) = (TypedGraphMap::<Id, u8, u8, Ty, L>::new(), Model::new(Ty::is_directed()));
    let (s, t) = (choose(3), choose(3));
    g.add_edge(ids[s as usize], ids[t as usize], Some(200));
    m.add_edge(s, t, Some(200));
    let mut most = s.max(t);
    for _ in 0..2 {
        op(&mut g, &mut m, &ids);
        most = m.nodes.iter().fold(most, |x, n| x.max(n.0));
    }
    is(&g, &m, &ids, Id::any());
    let top = g.max_seen_id();
    check!(top == Some(ids[most as usize]), "the largest id seen is the largest that was added");
    check!(g.max_possible_id() == Id::max_value() && g.max_possible_label_id() == L::max_value(), "the largest possible ids are those of the types");
}
pub fn two_edges<Id: Wide, L: Wide, G: MutGraphTrait<Id, u8, u8, L>>(g: &mut G, m: &mut Model, ids: &[Id]) {
    for i in 0..3 {
        if i < 2 || flag() {
            let l = if i == 1 { None } else { Some(i + 4) };
            g.add_node(ids[i as usize], l);
            m.add_node(i, l);
        }
    }
    for k in 0..2 {
        let (s, t) = (choose(3), choose(3));
        let l = if k == 1 { None } else { Some(s) };
        g.add_edge(ids[s as usize], ids[t as usize], l);
        m.add_edge(s, t, l);
    }
}
pub fn joined(m: &Model, s: u8, t: u8) -> bool {
    let mut u = m.clone();
    u.dir = false;
    reach(&u, s, &[]).iter().any(|x| x.0 == t)
}
pub fn components<Id: Wide, L: Wide, G: GeneralGraph<Id, u8, u8, L>>(g: &G, m: &Model, ids: &[Id]) {
    let at = |i: u8| ids[i as usize];
    let s = m.nodes[choose(m.nodes.len() as u8) as usize].0;
    let c = ConnComp::new(g);
    for x in &m.nodes {
        check!(c.is_connected(at(s), at(x.0)) == joined(m, s, x.0), "two nodes are connected if and only if a path joins them");
    }
    check!(c.get_connected_nodes(at(s)).map(|v| v.len()) == Some(m.nodes.iter().filter(|x| joined(m, s, x.0)).count()), "a component is what paths join");
    let parts = (0..m.nodes.len()).filter(|&i| !(0..i).any(|j| joined(m, m.nodes[i].0, m.nodes[j].0))).count();
    check!(c.get_count() == parts, "as many components are counted as there are");
}
pub fn union<Id: Wide, L: Wide, G: GeneralGraph<Id, u8, u8, L>, H: GeneralGraph<Id, u8, u8, L>>(g: &G, m: &Model, h: &H, n: &Model, ids: &[Id]) {
    let mut k = m.clone();
    for x in &n.nodes {
        k.add_node(x.0, x.1);
    }
    for x in &n.edges {
        k.add_edge(x.0, x.1, x.2);
    }
    let u = graph_union(g, h);
    is(u.as_labeled_graph(), &k, ids, Id::max_value());
    check!(u.max_seen_id() == k.nodes.iter().map(|x| ids[x.0 as usize]).max(), "the largest id seen is the largest that was added");
}
pub fn minus<Id: Wide, L: Wide, G: GeneralGraph<Id, u8, u8, L>, H: GeneralGraph<Id, u8, u8, L>>(g: &G, m: &Model, h: &H, n: &Model, ids: &[Id]) {
    let mut k = m.clone();
    for x in &n.nodes {
        k.remove_node(x.0);
    }
    is(graph_minus(g, h).as_labeled_graph(), &k, ids, Id::max_value());
}
pub fn subgraphs<Id: Wide, L: Wide, G: GeneralGraph<Id, u8, u8, L>>(g: &G, m: &Model, ids: &[Id]) {
    let all = ConnSubgraph::new(g).into_result();
    let parts = (0..m.nodes.len()).filter(|&i| !(0..i).any(|j| joined(m, m.nodes[i].0, m.nodes[j].0))).count();
    check!(all.len() == parts, "there is a subgraph for each component");
    for h in all {
        let mut k = m.clone();
        let f = h.as_graph().node_indices().next().unwrap();
        let f = ids.iter().position(|x| *x == f).unwrap() as u8;
        k.nodes.retain(|x| joined(m, f, x.0));
        k.edges.retain(|x| joined(m, f, x.0));
        is(h.as_labeled_graph(), &k, ids, Id::max_value());
    }
}
/// Components, subgraphs, union and difference.
pub fn algorithms<Id: Wide, L: Wide, G: GeneralGraph<Id, u8, u8, L>>(g: &G, m: &Model, ids: &[Id]) {
    match choose(3) {
        0 => components(g, m, ids),
        1 => {
            union(g, m, g, m, ids);
            minus(g, m, g, m, ids);
        }
        _ => subgraphs(g, m, ids),
    }
}
/// A search keeps a bit per id up to the largest, so that these are not any.
pub fn bfs<Id: Wide, L: Wide, G: GeneralGraph<Id, u8, u8, L>>(g: &G, m: &Model, ids: &[Id]) {
    let at = |i: u8| ids[i as usize];
    let s = m.nodes[choose(m.nodes.len() as u8) as usize].0;
    let near = reach(m, s, &[]);
    let v: Vec<Id> = Bfs::new(g, Some(at(s))).collect();
    check!(v.len() == m.nodes.len() && m.nodes.iter().all(|x| v.contains(&at(x.0))), "a search visits every node once");
    check!(near.iter().all(|x| v[..near.len()].contains(&at(x.0))), "a search reaches what is reachable first");
}
pub fn dfs<Id: Wide, L: Wide, G: GeneralGraph<Id, u8, u8, L>>(g: &G, m: &Model, ids: &[Id]) {
    let at = |i: u8| ids[i as usize];
    let s = m.nodes[choose(m.nodes.len() as u8) as usize].0;
    let near = reach(m, s, &[]);
    let v: Vec<Id> = Dfs::new(g, Some(at(s))).collect();
    check!(v.len() == m.nodes.len() && m.nodes.iter().all(|x| v.contains(&at(x.0))), "a search visits every node once");
    check!(near.iter().all(|x| v[..near.len()].contains(&at(x.0))), "a search reaches what is reachable first");
}
/// Ids for searches.
pub fn spread<Id: Wide>() -> Vec<Id> {
    let v = [[3, 256, 257], [0, 255, 1000], [64, 70, 2000]][choose(3) as usize];
    v.iter().map(|x| Id::new(*x)).collect()
}
/// Through a file, through new ids, static and mapped.
pub fn conversions<Id: Wide, L: Wide, Ty: GraphType>() {
    let (p, mut ids) = (dir() + "/g", three::<Id>());
    let (mut g, mut m) = (TypedGraphMap::<Id, u8, u8, Ty, L>::new(), Model::new(Ty::is_directed()));
    two_edges(&mut g, &mut m, &ids);
    let h = g.clone();
    is(&h, &m, &ids, Id::max_value());
    check!(h == g, "a clone is equal");
    g.export(&p).unwrap();
    let h = TypedGraphMap::<Id, u8, u8, Ty, L>::import(&p).unwrap();
    is(&h, &m, &ids, Id::max_value());
    check!(h == g, "what is imported is equal");
    let mut r = g.reorder_id(true, flag(), false);
    let g = r.take_graph().unwrap();
    let n = m.nodes.len();
    for i in 0..3 {
        let old = ids[i];
        if m.has(i as u8) {
            ids[i] = r.find_new_node_id(old);
            check!(ids[i].id() < n && r.get_original_node_id(ids[i]) == old, "new ids stand for the old ones");
        } else {
            ids[i] = Id::max_value();
        }
    }
    check!((0..3).all(|i| (0..i).all(|j| ids[i] != ids[j])), "new ids are as distinct as the old ones");
    // The model's order has to be that of the new ids.
    let mut to: Vec<u8> = (0..3).collect();
    to.sort_by_key(|i| ids[*i as usize]);
    let now = |i: u8| to.iter().position(|x| *x == i).unwrap() as u8;
    for x in &mut m.nodes {
        x.0 = now(x.0);
    }
    for x in &mut m.edges {
        *x = (now(x.0), now(x.1), x.2);
    }
    ids.sort();
    is(&g, &m, &ids, Id::max_value());
    let s = g.into_static();
    is(&s, &m, &ids, Id::max_value());
    s.dump_mmap(&p).unwrap();
    is(&StaticGraphMmap::<Id, u8, u8, L>::new(&p), &m, &ids, Id::max_value());
}
/// What no u8 can number: nodes, labels and edges in hundreds.
pub fn hundreds<Id: Wide, L: Wide, Ty: GraphType>(n: usize, how: u8)
where
    TypedGraphMap<Id, u16, u16, Ty, L>: GeneralGraph<Id, u16, u16, L>,
{
    let p = dir() + "/g";
    let mut g = TypedGraphMap::<Id, u16, u16, Ty, L>::new();
    for i in 0..n {
        g.add_node(Id::new(i), Some(i as u16));
    }
    for i in 0..n - 2 {
        g.add_edge(Id::new(i), Id::new(i + 1), Some(1000 + i as u16));
    }
    let k = [0, 256, n - 1][choose(3) as usize];
    g.add_edge(Id::new(n - 1), Id::new(k), Some(7));
    fn whole<Id: Wide, L: IdType>(g: &dyn GraphLabelTrait<Id, u16, u16, L>, n: usize, k: usize, how: &dyn Fn(usize) -> Id) {
        check!(g.node_count() == n && g.edge_count() == n - 1, "the graph counts what it holds");
        check!(g.num_of_node_labels() == n && g.num_of_edge_labels() == n - 1, "there is a label for each");
        for i in 0..n {
            check!(g.get_node_label(how(i)).map(|x| *x) == Some(i as u16), "a node has its label");
            if i < n - 2 {
                check!(g.get_edge_label(how(i), how(i + 1)).map(|x| *x) == Some(1000 + i as u16), "an edge has its label");
            }
        }
        check!(g.get_edge_label(how(n - 1), how(k)).map(|x| *x) == Some(7), "an edge has its label");
        check!(!g.has_edge(how(n - 1), how(if k == 0 { 5 } else { 0 })) && !g.has_edge(how(0), how(256)), "there is no edge that was not put in");
    }
    whole(&g, n, k, &Id::new);
    match how {
        0 => {
            let s = g.into_static();
            whole(&s, n, k, &Id::new);
            s.dump_mmap(&p).unwrap();
            whole(&StaticGraphMmap::<Id, u16, u16, L>::new(&p), n, k, &Id::new);
        }
        1 => {
            g.export(&p).unwrap();
            whole(&TypedGraphMap::<Id, u16, u16, Ty, L>::import(&p).unwrap(), n, k, &Id::new);
        }
        2 => {
            let mut r = g.reorder_id(true, true, true);
            let h = r.take_graph().unwrap();
            whole(&h, n, k, &|i| r.find_new_node_id(Id::new(i)));
        }
        3 => {
            let c = ConnComp::new(&g);
            check!(c.get_count() == if k == n - 1 { 2 } else { 1 }, "as many components are counted as there are");
            check!(Bfs::new(&g, Some(Id::new(n - 1))).count() == n && Dfs::new(&g, Some(Id::new(n - 1))).count() == n, "a search visits every node once");
        }
        _ => {}
    }
}
/// A node in the middle of hundreds, a loop at it, and one edge more somewhere.
pub fn hub<Id: Wide, L: Wide, Ty: GraphType>(n: usize) -> (TypedGraphMap<Id, u16, u16, Ty, L>, usize) {
    let mut g = TypedGraphMap::<Id, u16, u16, Ty, L>::new();
    let c = 130;
    for i in 0..n {
        check!(g.add_edge(Id::new(c), Id::new(i), if i % 2 == 0 { None } else { Some(i as u16) }), "adding an edge says whether it is new");
    }
    let k = [0, 255, n - 1][choose(3) as usize];
    check!(g.add_edge(Id::new(k), Id::new(c), Some(7)) == Ty::is_directed(), "adding an edge says whether it is new");
    (g, k)
}
pub fn hub_label(n: usize, k: usize, dir: bool, i: usize) -> Option<u16> {
    if !dir && i == k {
        Some(7)
    } else if i % 2 == 0 {
        None
    } else {
        Some(i as u16)
    }
}
pub fn hub_is<Id: Wide, L: IdType>(g: &dyn GraphLabelTrait<Id, u16, u16, L>, n: usize, k: usize) {
    let (c, dir) = (Id::new(130), g.is_directed());
    check!(g.node_count() == n && g.edge_count() == n + dir as usize, "the graph counts what it holds");
    check!(g.node_indices().count() == n && g.nodes().count() == n, "the graph lists what it holds");
    check!(g.edge_indices().count() == n + dir as usize && g.edges().count() == n + dir as usize, "the graph lists what it holds");
    check!(g.degree(c) == n && g.neighbors(c).len() == n && g.neighbors_iter(c).count() == n, "a node has its neighbours, in order");
    check!(g.neighbors(c).iter().enumerate().all(|(i, x)| x.id() == i), "a node has its neighbours, in order");
    check!(g.neighbors_iter(c).enumerate().all(|(i, x)| x.id() == i), "a node has its neighbours, in order");
    for i in 0..n {
        check!(g.get_edge_label(c, Id::new(i)).map(|x| *x) == hub_label(n, k, dir, i), "an edge has its label");
        check!(g.has_edge(Id::new(i), c) == (!dir || i == k || i == 130), "an edge is there if and only if it should be");
    }
    check!(g.edges().all(|e| e.is_some()), "the graph lists what it holds");
    let all: usize = g.edge_indices().map(|(s, t)| s.id() + t.id()).sum();
    check!(all == 130 * n + n * (n - 1) / 2 + if dir { k + 130 } else { 0 }, "the graph lists what it holds");
    let labelled = g.edges().filter(|e| e.get_label_id().is_some()).count();
    check!(labelled == (0..n).filter(|&i| hub_label(n, k, dir, i).is_some()).count() + dir as usize, "the graph lists what it holds");
    check!(g.max_seen_id() == Some(Id::new(n - 1)), "the largest id seen is the largest that was added");
    check!(g.get_edge_label_counter().values().sum::<usize>() == labelled && g.get_edge_label_id_counter().values().sum::<usize>() == labelled, "the labels in use are counted");
}
pub fn hub_in<Id: Wide, L: IdType>(g: &dyn DiGraphTrait<Id, L>, n: usize, k: usize) {
    for i in 0..n {
        let i = Id::new(i);
        let want = if i.id() == 130 { vec![k.min(130), k.max(130)] } else { vec![130] };
        check!(g.in_degree(i) == want.len() && g.in_neighbors(i).iter().map(|x| x.id()).eq(want.iter().map(|x| *x)), "a node has its in-neighbours, in order");
        check!(g.in_neighbors_iter(i).map(|x| x.id()).eq(want.into_iter()), "a node has its in-neighbours, in order");
    }
}
/// The hub is removed, or one of its edges.
pub fn hub_removed<Id: Wide, L: Wide, Ty: GraphType>(n: usize) {
    let (mut g, k) = hub::<Id, L, Ty>(n);
    let dir = Ty::is_directed();
    let x = [0, 130, 255, n - 1][choose(4) as usize];
    if flag() {
        check!(EdgeTrait::is_some(&g.remove_edge(Id::new(130), Id::new(x))), "removing an edge says whether it was there");
        check!(g.edge_count() == n - 1 + dir as usize && g.edges().count() == g.edge_count(), "the graph counts what it holds");
        check!((0..n).all(|i| g.has_edge(Id::new(130), Id::new(i)) == (i != x)), "an edge is there if and only if it should be");
        check!(g.degree(Id::new(130)) == n - 1, "an edge is there if and only if it should be");
    } else {
        check!(NodeTrait::is_some(&g.remove_node(Id::new(x))), "removing a node says whether it was there");
        check!(g.node_count() == n - 1 && g.edges().count() == g.edge_count(), "the graph counts what it holds");
        let left = if x == 130 { 0 } else { n - 1 + (dir && x != k) as usize };
        check!(g.edge_count() == left, "the graph counts what it holds");
        check!(g.edge_indices().all(|(s, t)| s.id() != x && t.id() != x), "no edge is left at what was removed");
        check!((0..n).all(|i| g.has_node(Id::new(i)) == (i != x)), "a node is there if and only if it should be");
        check!(x == 130 || g.degree(Id::new(130)) == n - 1, "an edge is there if and only if it should be");
    }
}
/// Two graphs are equal only if their ids are, in full width.
pub fn equality<Id: Wide, L: Wide, Ty: GraphType>() {
    let ids = three::<Id>();
    let (mut g, mut h) = (TypedGraphMap::<Id, u8, u8, Ty, L>::new(), TypedGraphMap::<Id, u8, u8, Ty, L>::new());
    let (i, j) = (choose(3), choose(3));
    let x = Id::any();
    let loops = flag();
    g.add_edge(ids[i as usize], if loops { ids[i as usize] } else { ids[j as usize] }, Some(3));
    h.add_edge(x, if loops { x } else { ids[j as usize] }, Some(3));
    let same = x == ids[i as usize];
    check!((g == h) == same && (h == g) == same, "two graphs are equal if and only if they hold the same");
    if same {
        check!(fed(&g) == fed(&h), "equal graphs feed a hasher the same");
    }
}
pub fn one_edge<Id: Wide, L: Wide, G: MutGraphTrait<Id, u8, u8, L>>(g: &mut G, m: &mut Model, ids: &[Id]) {
    let (s, t) = (choose(3), choose(3));
    let l = if flag() { None } else { Some(90) };
    g.add_edge(ids[s as usize], ids[t as usize], l);
    m.add_edge(s, t, l);
}
/// The labels of a node in the middle of hundreds and of its edges, through what can be changed.
pub fn hub_changed<Id: Wide, L: Wide, Ty: GraphType>(n: usize) {
    let (mut g, k) = hub::<Id, L, Ty>(n);
    let dir = Ty::is_directed();
    g.add_node(Id::new(5), Some(5));
    let l = g.get_node(Id::new(5)).get_label_id();
    let mut seen = vec![0u8; n];
    for x in g.nodes_mut() {
        seen[x.get_id().id()] += 1;
    }
    check!(seen.iter().all(|x| *x == 1), "every node is handed out to change once");
    for mut x in g.nodes_mut() {
        x.set_label_id(l);
    }
    check!((0..n).all(|i| g.get_node_label(Id::new(i)).map(|x| *x) == Some(5)), "a label set through a handle is the label");
    let (mut count, mut loops) = (0, 0);
    let s = g.get_edge(Id::new(130), Id::new(131)).get_label_id();
    for mut x in g.edges_mut() {
        count += 1;
        loops += (x.get_start() == x.get_target()) as usize;
        check!(x.get_start().id() == 130 || x.get_target().id() == 130, "an edge is handed out to change with its ends");
        if dir {
            x.set_label_id(s);
        }
    }
    check!(count == n + dir as usize && loops == 1, "every edge is handed out to change once");
    check!(!dir || (0..n).all(|i| g.get_edge_label(Id::new(130), Id::new(i)).map(|x| *x) == Some(131)), "a label set through a handle is the label");
    let i = [0, 129, 255, n - 1][choose(4) as usize];
    if dir {
        g.get_edge_mut(Id::new(130), Id::new(i)).set_label_id(None);
        check!((0..n).all(|j| g.get_edge_label(Id::new(130), Id::new(j)).is_none() == (i == j)), "a label set through a handle is the label");
    }
}
pub fn middle<Id: Wide, L: Wide, Ty: GraphType>(n: usize, how: u8)
where
    TypedGraphMap<Id, u16, u16, Ty, L>: GeneralGraph<Id, u16, u16, L>,
{
    let inn = |g: &dyn GeneralGraph<Id, u16, u16, L>, k: usize| {
        check!(g.as_digraph().is_some() == Ty::is_directed(), "the graph is of the kind it should be");
        if let Some(g) = g.as_digraph() {
            hub_in(g, n, k);
        }
    };
    match how {
        0 => hub_removed::<Id, L, Ty>(n),
        1 => hub_changed::<Id, L, Ty>(n),
        2 => {
            let (g, k) = hub::<Id, L, Ty>(n);
            hub_is(&g, n, k);
            inn(&g, k);
            let h = graph_union(&g, &g);
            hub_is(h.as_labeled_graph(), n, k);
            inn(h.as_general_graph(), k);
            let h = ConnSubgraph::new(&g).into_result();
            check!(h.len() == 1, "there is a subgraph for each component");
            hub_is(h[0].as_labeled_graph(), n, k);
            inn(h[0].as_general_graph(), k);
            check!(graph_minus(&g, h[0].as_general_graph()).node_count() == 0, "nothing is left of a graph without itself");
        }
        _ => {
            let (g, k) = hub::<Id, L, Ty>(n);
            let p = dir() + "/hub";
            let s = g.into_static();
            hub_is(&s, n, k);
            s.dump_mmap(&p).unwrap();
            let s = StaticGraphMmap::<Id, u16, u16, L>::new(&p);
            hub_is(&s, n, k);
            inn(&s, k);
        }
    }
}
/// A chain of a hundred, a star of many, and nodes on their own.
pub fn parts<Id: Wide, L: Wide, Ty: GraphType>(n: usize) -> TypedGraphMap<Id, u16, u16, Ty, L> {
    let mut g = TypedGraphMap::<Id, u16, u16, Ty, L>::new();
    for i in (0..n).rev() {
        g.add_node(Id::new(i), None);
    }
    for i in 0..99 {
        g.add_edge(Id::new(i), Id::new(i + 1), Some(i as u16));
    }
    for i in 101..n - 5 {
        g.add_edge(Id::new(100), Id::new(i), Some(i as u16));
    }
    g
}
/// The number of the part a node is in, the least node in it, and how many are.
pub fn part(n: usize, i: usize) -> (usize, usize, usize) {
    if i < 100 {
        (0, 0, 100)
    } else if i < n - 5 {
        (1, 100, n - 105)
    } else {
        (i + 7 - n, i, 1)
    }
}
/// How far along edges a node is from another one.
pub fn far(n: usize, dir: bool, s: usize, t: usize) -> Option<usize> {
    if part(n, s).0 != part(n, t).0 {
        return None;
    }
    if s < 100 {
        return if t >= s { Some(t - s) } else if dir { None } else { Some(s - t) };
    }
    Some(if s == t { 0 } else if s == 100 { 1 } else if dir { return None } else if t == 100 { 1 } else { 2 })
}
pub fn from(n: usize) -> usize {
    [0, 50, 99, 100, n - 6, n - 1][choose(6) as usize]
}
pub fn broad<Id: Wide, L: Wide, Ty: GraphType>(n: usize)
where
    TypedGraphMap<Id, u16, u16, Ty, L>: GeneralGraph<Id, u16, u16, L>,
{
    let (g, s, dir) = (parts::<Id, L, Ty>(n), from(n), Ty::is_directed());
    let v: Vec<usize> = Bfs::new(&g, Some(Id::new(s))).map(|x| x.id()).collect();
    once(n, &v);
    let near = (0..n).filter(|&t| far(n, dir, s, t).is_some()).count();
    let d: Vec<Option<usize>> = v[..near].iter().map(|&t| far(n, dir, s, t)).collect();
    check!(d.iter().all(|x| x.is_some()), "what is reachable comes first");
    check!(d[0] == Some(0) && d.windows(2).all(|w| w[0] <= w[1]), "nodes come in order of distance");
}
pub fn deep<Id: Wide, L: Wide, Ty: GraphType>(n: usize)
where
    TypedGraphMap<Id, u16, u16, Ty, L>: GeneralGraph<Id, u16, u16, L>,
{
    let (g, s, dir) = (parts::<Id, L, Ty>(n), from(n), Ty::is_directed());
    let v: Vec<usize> = Dfs::new(&g, Some(Id::new(s))).map(|x| x.id()).collect();
    once(n, &v);
    let near = (0..n).filter(|&t| far(n, dir, s, t).is_some()).count();
    check!(v[0] == s && v[..near].iter().all(|&t| far(n, dir, s, t).is_some()), "what is reachable comes first");
    let mut d = Dfs::new(&g, Some(Id::new(s)));
    d.by_ref().take(7).count();
    d.reset();
    once(n, &d.map(|x| x.id()).collect::<Vec<_>>());
}
fn once(n: usize, v: &[usize]) {
    let mut seen = vec![0; n];
    for &x in v {
        seen[x] += 1;
    }
    check!(v.len() == n && seen.iter().all(|&x| x == 1), "a search visits every node once");
}
/// All at once, or edge by edge.
pub fn linked<Id: Wide, L: Wide, Ty: GraphType>(n: usize)
where
    TypedGraphMap<Id, u16, u16, Ty, L>: GeneralGraph<Id, u16, u16, L>,
{
    let g = parts::<Id, L, Ty>(n);
    let all = flag();
    let c = if all {
        ConnComp::new(&g)
    } else {
        let mut c = ConnComp::empty();
        let e: Vec<_> = g.edge_indices().collect();
        for i in 0..e.len() {
            // Every third one, three times over (their number is no multiple of three), so that trees are joined to trees.
            let (s, t) = e[i * 3 % e.len()];
            c.process_new_edge(&rust_graph::graph_impl::Edge::<Id, L>::new(s, t, None));
        }
        c
    };
    let m = if all { n } else { n - 5 };
    check!(c.get_count() == if all { 7 } else { 2 }, "as many components are counted as there are");
    let s = [0, 99, 100, m - 1][choose(4) as usize];
    for t in 0..m {
        check!(c.is_connected(Id::new(s), Id::new(t)) == (part(n, s).0 == part(n, t).0), "two nodes are connected if and only if a path joins them");
    }
    let v = c.get_connected_nodes(Id::new(s)).unwrap();
    check!(v.len() == part(n, s).2 && v.iter().all(|x| part(n, x.id()).0 == part(n, s).0), "a component is what paths join");
}
/// The subgraph of each part.
pub fn split<Id: Wide, L: Wide, Ty: GraphType>(n: usize)
where
    TypedGraphMap<Id, u16, u16, Ty, L>: GeneralGraph<Id, u16, u16, L>,
{
    let g = parts::<Id, L, Ty>(n);
    let all = ConnSubgraph::new(&g).into_result();
    check!(all.len() == 7, "there is a subgraph for each component");
    let mut seen = vec![0; n];
    for h in &all {
        let f = h.as_graph().node_indices().next().unwrap().id();
        let (_, _, many) = part(n, f);
        check!(h.node_count() == many && h.edge_count() == many - 1, "a subgraph has what its component has");
        for x in h.as_graph().node_indices() {
            seen[x.id()] += 1;
            check!(part(n, x.id()).0 == part(n, f).0, "a subgraph has what its component has");
        }
        for (s, t) in h.as_graph().edge_indices() {
            check!(g.has_edge(s, t), "a subgraph has what its component has");
            check!(h.get_edge_label(s, t) == g.get_edge_label(s, t) && h.get_edge_label(s, t).is_some(), "an edge has its label");
        }
    }
    check!(seen.iter().all(|&x| x == 1), "a subgraph has what its component has");
}
/// Two graphs of hundreds that share a hundred nodes and some edges, and what their sum or difference has.
pub fn sums<Id: Wide, L: Wide, Ty: GraphType>(plus: bool)
where
    TypedGraphMap<Id, u16, u16, Ty, L>: GeneralGraph<Id, u16, u16, L>,
{
    let (mut g, mut h) = (TypedGraphMap::<Id, u16, u16, Ty, L>::new(), TypedGraphMap::<Id, u16, u16, Ty, L>::new());
    let two = |i: usize| if i % 3 == 0 { Some(2000 + i as u16) } else { None };
    for i in 0..300 {
        g.add_node(Id::new(i), Some(i as u16));
        h.add_node(Id::new(i + 270), two(i + 270));
    }
    for i in 0..290 {
        g.add_edge(Id::new(i), Id::new(i + 1), Some(5000 + i as u16));
    }
    for i in 275..530 {
        h.add_edge(Id::new(i), Id::new(i + 1), two(i));
    }
    if !plus {
        let k = choose(2) as usize * 29;
        // These edges are at nodes that go, or at nodes only one of them has.
        h.remove_node(Id::new(270 + k));
        let r = graph_minus(&g, &h);
        let there = |i: usize| i < 270 || i == 270 + k;
        check!((0..600).all(|i| r.has_node(Id::new(i)) == (there(i) && i < 300)) && r.node_count() == 271, "a difference has the nodes only the first graph has");
        for i in 0..300 {
            let l = if there(i) { Some(i as u16) } else { None };
            check!(r.get_node_label(Id::new(i)).map(|x| *x) == l, "a node has the first graph's label");
            let e = if i < 290 && there(i) && there(i + 1) { Some(5000 + i as u16) } else { None };
            check!(r.get_edge_label(Id::new(i), Id::new(i + 1)).map(|x| *x) == e, "an edge has the first graph's label");
        }
        check!(r.edge_count() == if k == 0 { 270 } else { 269 }, "a difference counts what it holds");
        return;
    }
    let r = graph_union(&g, &h);
    check!(r.node_count() == 570 && r.edge_count() == 530, "a union counts what it holds");
    for i in 0..570 {
        let l = if i < 270 { Some(i as u16) } else { two(i) };
        check!(r.has_node(Id::new(i)) && r.get_node_label(Id::new(i)).map(|x| *x) == l, "a node has the second graph's label if that has it");
        let e = if i < 275 { Some(5000 + i as u16) } else if i < 530 { two(i) } else { None };
        check!(r.has_edge(Id::new(i), Id::new(i + 1)) == (i < 530), "a union has the edges of either");
        check!(r.get_edge_label(Id::new(i), Id::new(i + 1)).map(|x| *x) == e, "an edge has the second graph's label if that has it");
    }
}
