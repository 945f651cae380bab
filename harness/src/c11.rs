//! Static graphs made from arrays: look-ups, adjacency, counts and iterators agree with the arrays.
//! bound: every graph on up to 3 nodes with u8 ids, with or without node and edge labels; every labelling of graphs on 2 nodes (3 in thorough), labels of 2, the sentinel for none included; a node among 260 and 1100 neighbours
use crate::util::*;
use crate::wide::*;
use rust_graph::graph_impl::static_graph::EdgeVecTrait;
use rust_graph::graph_impl::{EdgeVec, TypedStaticGraph};
use rust_graph::map::SetMap;

type St<Ty> = TypedStaticGraph<u8, u8, u8, Ty, u8>;
const NONE: u8 = 255;

struct Arrays {
    m: Model,
    nodes: Option<Vec<u8>>,
    out: (Vec<usize>, Vec<u8>, Option<Vec<u8>>),
    inn: (Vec<usize>, Vec<u8>, Option<Vec<u8>>),
}
fn label_id() -> u8 {
    let l = u8_();
    assume(l < 2 || l == NONE);
    l
}
/// Labels by label id; the maps hold these.
const NODE: [u8; 2] = [70, 60];
const EDGE: [u8; 2] = [50, 90];
fn named(l: u8, of: &[u8; 2]) -> Option<u8> {
    if l == NONE {
        None
    } else if l == 0 {
        Some(of[0])
    } else {
        Some(of[1])
    }
}
fn make(dir: bool, n: usize, node_labels: bool, edge_labels: bool) -> Arrays {
    let mut m = Model::new(dir);
    let nodes: Option<Vec<u8>> = if node_labels { Some((0..n).map(|_| label_id()).collect()) } else { None };
    for i in 0..n {
        m.add_node(i as u8, nodes.as_ref().and_then(|v| named(v[i], &NODE)));
    }
    let mut at = [[None; 4]; 4];
    for i in 0..n {
        for j in 0..n {
            if (dir || i <= j) && flag() {
                let l = if edge_labels { label_id() } else { 0 };
                at[i][j] = Some(l);
                if !dir {
                    at[j][i] = Some(l);
                }
                m.add_edge(i as u8, j as u8, if edge_labels { named(l, &EDGE) } else { None });
            }
        }
    }
    let list = |turn: bool| {
        let (mut o, mut e, mut ls) = (vec![0], vec![], vec![]);
        for i in 0..n {
            for j in 0..n {
                if let Some(l) = if turn { at[j][i] } else { at[i][j] } {
                    e.push(j as u8);
                    ls.push(l);
                }
            }
            o.push(e.len());
        }
        (o, e, if edge_labels { Some(ls) } else { None })
    };
    let (out, inn) = (list(false), list(true));
    Arrays { m, nodes, out, inn }
}
fn graph<Ty: GraphType>(a: &Arrays, how: u8) -> St<Ty> {
    let e = EdgeVec::from_raw(a.out.0.clone(), a.out.1.clone(), a.out.2.clone());
    let i = EdgeVec::from_raw(a.inn.0.clone(), a.inn.1.clone(), a.inn.2.clone());
    let i = if a.m.dir { Some(i) } else { None };
    let nm: SetMap<u8> = NODE.iter().map(|x| *x).collect();
    let em: SetMap<u8> = EDGE.iter().map(|x| *x).collect();
    let (n, k) = if how > 0 { (Some(a.m.nodes.len()), Some(a.m.edges.len())) } else { (None, None) };
    if how == 2 {
        return TypedStaticGraph::from_raw(n.unwrap(), k.unwrap(), e, i, a.nodes.clone(), nm, em);
    }
    match a.nodes {
        Some(ref l) => TypedStaticGraph::with_labels(e, i, l.clone(), nm, em, n, k),
        None if a.out.2.is_some() => TypedStaticGraph::from_raw(a.m.nodes.len(), a.m.edges.len(), e, i, None, nm, em),
        None => TypedStaticGraph::new(e, i, n, k),
    }
}
fn look<Ty: GraphType>(g: &St<Ty>, m: &Model, out: &[u8], s: u8, t: u8) {
    check!(g.node_count() == m.nodes.len(), "as many nodes are counted as there are");
    check!(g.edge_count() == m.edges.len(), "as many edges are counted as there are");
    check!(g.max_seen_id().map(|x| x as usize + 1).unwrap_or(0) == m.nodes.len(), "the largest id is the last one");
    contents(g, m);
    outward(g, m);
    let es: Vec<(u8, u8)> = g.edge_indices().collect();
    check!(same_edges(m.dir, &es, &m.edges), "every edge is listed once");
    let mut ee = vec![];
    for e in g.edges() {
        let (s, t) = (e.get_start(), e.get_target());
        ee.push((s, t));
        let l = e.get_label_id().map(|i| *GraphLabelTrait::get_edge_label_map(g).get_item(i as usize).unwrap());
        check!(l == m.edge_label(s, t), "edges are listed with their labels");
        let e = g.get_edge(s, t);
        check!(e.get_start() == s && e.get_target() == t, "an edge knows its nodes");
    }
    check!(same_edges(m.dir, &ee, &m.edges), "every edge is listed once, labels and all");
    let mut k = 0;
    for n in g.nodes() {
        check!(n.get_id() as usize == k, "nodes are listed in order");
        let l = n.get_label_id().map(|i| *GraphLabelTrait::get_node_label_map(g).get_item(i as usize).unwrap());
        check!(l == m.node_label(n.get_id()), "nodes are listed with their labels");
        check!(g.get_node(n.get_id()).get_id() == n.get_id(), "a node knows its id");
        k += 1;
    }
    check!(k == m.nodes.len(), "every node is listed once");
    nothing_else(g, m, s, t);
    let at = g.find_edge_index(s, t);
    check!(at.is_some() == m.adj(s, t), "an edge has an index if and only if it is there");
    if let Some(i) = at {
        let i = conc(i as u64) as usize;
        check!(i < out.len() && out[i] == t && g.get_edge_vec().neighbors(s).len() > 0, "the index of an edge is its place in the array");
        cover!();
    }
}
fn unlabelled(m: &Model, nodes: bool, edges: bool) -> Model {
    let mut m = m.clone();
    if nodes {
        m.nodes.iter_mut().for_each(|n| n.1 = None)
    }
    if edges {
        m.edges.iter_mut().for_each(|n| n.2 = None)
    }
    m
}
fn all<Ty: GraphType>(mut g: St<Ty>, a: &Arrays, view: fn(&St<Ty>, &Model)) {
    let (s, t) = (u8_(), u8_());
    look(&g, &a.m, &a.out.1, s, t);
    view(&g, &a.m);
    g.shrink_to_fit();
    look(&g, &a.m, &a.out.1, s, t);
    for k in 1..4 {
        let mut h = g.clone();
        match k {
            1 => h.remove_node_labels(),
            2 => h.remove_edge_labels(),
            _ => h.remove_labels(),
        }
        if k & 1 > 0 {
            check!(GraphLabelTrait::get_node_label_map(&h).len() == 0, "no node labels are left");
        }
        if k & 2 > 0 {
            check!(GraphLabelTrait::get_edge_label_map(&h).len() == 0, "no edge labels are left");
        }
        let m = unlabelled(&a.m, k & 1 > 0, k & 2 > 0);
        look(&h, &m, &a.out.1, s, t);
        view(&h, &m);
    }
}
fn none<Ty: GraphType>(_: &St<Ty>, _: &Model) {}
fn inn(g: &St<Directed>, m: &Model) {
    inward(g, m);
    for &(n, _) in &m.nodes {
        let v: Vec<u8> = g.in_neighbors_iter(n).collect();
        check!(v == g.in_neighbors(n).into_owned(), "in-neighbours are iterated as they are listed");
        let v: Vec<u8> = g.neighbors_iter(n).collect();
        check!(v == g.neighbors(n).into_owned(), "neighbours are iterated as they are listed");
    }
}
fn di(n: usize, nl: bool, el: bool, how: u8) {
    let a = make(true, n, nl, el);
    all(graph::<Directed>(&a, how), &a, inn)
}
fn un(n: usize, nl: bool, el: bool, how: u8) {
    let a = make(false, n, nl, el);
    all(graph::<Undirected>(&a, how), &a, none)
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c11_di_shapes() {
    di(choose(4) as usize, false, false, choose(3))
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c11_un_shapes() {
    un(choose(4) as usize, false, false, choose(3))
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c11_di_labels() {
    di(choose(3) as usize, true, true, 2 * choose(2))
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c11_un_labels() {
    un(choose(3) as usize, flag(), true, choose(3))
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c11_nodes() {
    un(2 + choose(2) as usize, true, false, choose(3))
}
/// A directed graph needs its edges both ways; wide ids.
#[no_mangle]
pub extern "C" fn c11_refuse() {
    let e = EdgeVec::<u8, u8>::new(vec![0], vec![]);
    let (a, b, c) = (e.clone(), e.clone(), e.clone());
    check!(panics(|| { St::<Directed>::new(a, None, None, None); }), "a directed graph needs in-edges");
    check!(panics(|| { St::<Directed>::with_labels(b, None, vec![], SetMap::new(), SetMap::new(), None, None); }), "a directed graph needs in-edges");
    check!(panics(|| { St::<Directed>::from_raw(0, 0, c, None, None, SetMap::new(), SetMap::new()); }), "a directed graph needs in-edges");
    let (s, t) = (u32_(), u32_());
    let g = TypedStaticGraph::<u32, u8, u8, Undirected, u32>::new(EdgeVec::new(vec![0, 1, 2, 2], vec![1, 0]), None, None, None);
    check!(g.edge_count() == 1 && g.node_count() == 3, "counts are those of the arrays");
    check!(g.has_edge(s, t) == ((s == 0 && t == 1) || (s == 1 && t == 0)), "an edge is found if and only if the array holds it");
    check!(g.has_node(s) == (s < 3), "a node is found if and only if it has a row");
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c11_di_labels3() {
    di(3, flag(), true, 1)
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c11_un_labels3() {
    un(3, true, true, 0)
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c11_un_shapes4() {
    un(4, false, false, 0)
}
/// Long rows.
//@ shards=4
#[no_mangle]
pub extern "C" fn c11_many() {
    let n = 40u8;
    let dir = flag();
    let mut m = Model::new(dir);
    for i in 0..n {
        m.add_node(i, None);
    }
    let row = |i: u8, j: u8| i == 20 || (!dir && j == 20) || (i ^ j) == 1 || (dir && j == 3 && i % 2 == 0) || i == j && i % 7 == 0;
    let list = |turn: bool| {
        let (mut o, mut e) = (vec![0], vec![]);
        for i in 0..n {
            e.extend((0..n).filter(|&j| if turn { row(j, i) } else { row(i, j) }));
            o.push(e.len());
        }
        EdgeVec::<u8, u8>::new(o, e)
    };
    for i in 0..n {
        for j in 0..n {
            if row(i, j) && (dir || i <= j) {
                m.edges.push((i, j, None));
            }
        }
    }
    let out = list(false);
    let flat = out.get_edges().to_vec();
    let (s, t) = (u8_(), [0, 20, 39][choose(3) as usize]);
    if dir {
        let g: St<Directed> = TypedStaticGraph::new(out, Some(list(true)), None, None);
        look(&g, &m, &flat, s, t);
        inn(&g, &m);
    } else {
        let g: St<Undirected> = TypedStaticGraph::new(out, None, None, None);
        look(&g, &m, &flat, s, t);
    }
}
/// A node in the middle of hundreds.
//@ shards=2
#[no_mangle]
pub extern "C" fn c11_hundreds() {
    if flag() {
        let (g, k) = hub::<u16, u16, Directed>(1100);
        let s = g.into_static();
        hub_is(&s, 1100, k);
        hub_in(&s, 1100, k);
    } else {
        let (g, k) = hub::<u32, u32, Undirected>(260);
        hub_is(&g.into_static(), 260, k);
    }
}
