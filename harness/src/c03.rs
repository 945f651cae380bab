//! The views of the adjacency agree: single lookups, lists, iterators and degrees, in both directions.
//! bound: every graph on 3 nodes; every graph of 3 edges over u8 ids; 3 ids of any 32 and 64 bits; a node among 260 and 1100 neighbours
use crate::util::*;
use crate::wide::*;

fn common<G>(g: &G, m: &Model)
where
    G: GraphLabelTrait<u8, u8, u8, u32>,
{
    for &(n, _) in &m.nodes {
        let out = m.out(n);
        let v: Vec<u8> = g.neighbors(n).into_owned();
        check!(same(&v, &out), "the neighbours of a node are the ends of its edges, each once");
        let w: Vec<u8> = g.neighbors_iter(n).collect();
        check!(v == w, "neighbours are the same listed and iterated");
        check!(g.degree(n) == out.len(), "the degree of a node is the number of its neighbours");
        check!(v.windows(2).all(|p| p[0] < p[1]), "neighbours come in ascending order");
        let nd = g.get_node(n);
        check!(nd.get_id() == n, "a node knows its id");
    }
    let ns: Vec<u8> = g.node_indices().collect();
    let all: Vec<u8> = m.nodes.iter().map(|x| x.0).collect();
    check!(same(&ns, &all), "the node ids are those of the nodes, each once");
    let nn: Vec<u8> = g.nodes().map(|n| n.get_id()).collect();
    check!(same(&nn, &all), "the nodes are listed, each once");
    let es: Vec<(u8, u8)> = g.edge_indices().collect();
    check!(same_edges(m.dir, &es, &m.edges), "the edge ids are those of the edges, each once");
    let mut ee = vec![];
    for e in g.edges() {
        let (s, t) = (e.get_start(), e.get_target());
        ee.push((s, t));
        check!(e.get_label_id() == g.get_edge(s, t).get_label_id(), "an edge has the same label listed and looked up");
    }
    check!(same_edges(m.dir, &ee, &m.edges), "the edges are listed, each once");
    for &(s, t, _) in &m.edges {
        let e = g.get_edge(s, t);
        check!(e.is_some() && e.get_start() == s && e.get_target() == t, "an edge looked up joins the nodes asked for");
    }
}
fn inward<G>(g: &G, m: &Model)
where
    G: DiGraphTrait<u8, u32>,
{
    for &(n, _) in &m.nodes {
        let inn = m.inn(n);
        let v: Vec<u8> = g.in_neighbors(n).into_owned();
        check!(same(&v, &inn), "the in-neighbours of a node are the starts of the edges that end there, each once");
        let w: Vec<u8> = g.in_neighbors_iter(n).collect();
        check!(v == w, "in-neighbours are the same listed and iterated");
        check!(g.in_degree(n) == inn.len(), "the in-degree of a node is the number of its in-neighbours");
    }
}
/// Every graph on `n` nodes: each possible edge is there or not.
fn matrix<G>(g: &mut G, m: &mut Model, n: u8)
where
    G: GraphLabelTrait<u8, u8, u8, u32> + MutGraphTrait<u8, u8, u8, u32>,
{
    for i in 0..n {
        g.add_node(i, None);
        m.add_node(i, None);
    }
    for i in 0..n {
        for j in 0..n {
            if (m.dir || i <= j) && flag() {
                g.add_edge(i, j, None);
                m.add_edge(i, j, None);
            }
        }
    }
}
fn listed<G>(g: &mut G, m: &mut Model, k: usize)
where
    G: GraphLabelTrait<u8, u8, u8, u32> + MutGraphTrait<u8, u8, u8, u32>,
{
    for _ in 0..k {
        let (s, t, l) = (u8_(), u8_(), if k < 3 { opt(256) } else { None });
        g.add_edge(s, t, l);
        m.add_edge(s, t, l);
        cover!(s == t);
        cover!(s > t);
    }
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c03_di_matrix() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    matrix(&mut g, &mut m, 3);
    common(&g, &m);
    inward(&g, &m);
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c03_un_matrix() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    matrix(&mut g, &mut m, 3);
    common(&g, &m);
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c03_di_list() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    listed(&mut g, &mut m, 3);
    common(&g, &m);
    inward(&g, &m);
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c03_di_labels() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    listed(&mut g, &mut m, 2);
    common(&g, &m);
    inward(&g, &m);
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c03_un_labels() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    listed(&mut g, &mut m, 2);
    common(&g, &m);
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c03_un_list() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    listed(&mut g, &mut m, 3);
    common(&g, &m);
}
/// A hub with more neighbours than one B-tree node takes, and a removal.
//@ shards=8
#[no_mangle]
pub extern "C" fn c03_hub() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    for i in 0..14u8 {
        g.add_edge(20, i * 2, None);
        m.add_edge(20, i * 2, None);
        g.add_edge(i * 2, 21, None);
        m.add_edge(i * 2, 21, None);
    }
    let x = u8_();
    g.add_edge(20, x, None);
    m.add_edge(20, x, None);
    let y = u8_();
    check!(g.remove_edge(20, y).is_some() == m.remove_edge(20, y).is_some(), "an edge of a hub is removed if it is there");
    common(&g, &m);
    inward(&g, &m);
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c03_un_matrix4() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    for i in 0..4u8 {
        g.add_node(i, None);
        m.add_node(i, None);
    }
    for i in 0..4u8 {
        for j in i..4u8 {
            if flag() {
                g.add_edge(j, i, None);
                m.add_edge(j, i, None);
            }
        }
    }
    common(&g, &m);
}
/// Many nodes with many neighbours, one edge more.
//@ shards=4
#[no_mangle]
pub extern "C" fn c03_many_di() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    crowd(&mut g, &mut m, 24, 11);
    let s = u8_();
    g.add_edge(s, 77, None);
    m.add_edge(s, 77, None);
    common(&g, &m);
    inward(&g, &m);
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c03_many_un() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    crowd(&mut g, &mut m, 24, 11);
    let s = u8_();
    g.add_edge(s, 77, None);
    m.add_edge(s, 77, None);
    common(&g, &m);
}
/// Ids of any width.
//@ shards=8
#[no_mangle]
pub extern "C" fn c03_widths() {
    if flag() {
        history::<u32, u16, Directed>()
    } else {
        history::<usize, u16, Undirected>()
    }
}
/// A node in the middle of hundreds.
//@ shards=2
#[no_mangle]
pub extern "C" fn c03_hundreds() {
    if flag() {
        let (g, k) = hub::<u16, u16, Directed>(1100);
        hub_is(&g, 1100, k);
        hub_in(&g, 1100, k);
    } else {
        let (g, k) = hub::<u32, u32, Undirected>(260);
        hub_is(&g, 260, k);
    }
}
