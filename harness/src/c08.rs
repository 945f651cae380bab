//! into_static keeps nodes, edges, labels and adjacency.
//! bound: every graph on up to 3 nodes; every labelled graph on 2 nodes, labels any u8; every graph of 3 labelled edges on 3 nodes (4 in thorough); all of 256 nodes with u8 ids; a node among 260 and 1100 neighbours
use crate::util::*;
use crate::wide::*;

fn compare<S>(s: &S, m: &Model, nl: &[u8], el: &[u8])
where
    S: GraphLabelTrait<u8, u8, u8, u32>,
{
    check!(s.node_count() == m.nodes.len(), "a static graph counts the nodes of its origin");
    check!(s.edge_count() == m.edges.len(), "a static graph counts the edges of its origin");
    contents(s, m);
    for &(n, _) in &m.nodes {
        let mut out = m.out(n);
        out.sort();
        check!(s.neighbors(n).into_owned() == out, "neighbours are those of the origin, ascending");
        check!(s.neighbors_iter(n).collect::<Vec<_>>() == out, "neighbours are iterated like those of the origin");
        check!(s.degree(n) == out.len(), "degrees are those of the origin");
        check!(s.get_node(n).get_id() == n, "a node knows its id");
    }
    let es: Vec<(u8, u8)> = s.edge_indices().collect();
    check!(same_edges(m.dir, &es, &m.edges), "the edges are those of the origin, each once");
    let mut ee = vec![];
    for e in s.edges() {
        let (a, b) = (e.get_start(), e.get_target());
        ee.push((a, b));
        let l = e.get_label_id().map(|i| *s.get_edge_label_map().get_item(i as usize).unwrap());
        check!(l == m.edge_label(a, b), "edges are listed with their labels");
    }
    check!(same_edges(m.dir, &ee, &m.edges), "the edges are listed, each once");
    let mut k = 0;
    for n in s.nodes() {
        let l = n.get_label_id().map(|i| *s.get_node_label_map().get_item(i as usize).unwrap());
        check!(l == m.node_label(n.get_id()), "nodes are listed with their labels");
        k += 1;
    }
    check!(k == m.nodes.len(), "the nodes are listed, each once");
    let a: Vec<u8> = s.get_node_label_map().items().map(|x| *x).collect();
    check!(a == nl, "the node label map is kept");
    let a: Vec<u8> = s.get_edge_label_map().items().map(|x| *x).collect();
    check!(a == el, "the edge label map is kept");
    let x = u8_();
    let y = u8_();
    check!(s.has_node(x) == m.has(x), "a node is found if and only if the origin has it");
    check!(s.has_edge(x, y) == m.adj(x, y), "an edge is found if and only if the origin has it");
}
fn go_di(g: Di, m: &Model) {
    let nl: Vec<u8> = g.node_labels().map(|x| *x).collect();
    let el: Vec<u8> = g.edge_labels().map(|x| *x).collect();
    let s = g.into_static();
    compare(&s, m, &nl, &el);
    inward(&s, m);
}
fn go_un(g: Un, m: &Model) {
    let nl: Vec<u8> = g.node_labels().map(|x| *x).collect();
    let el: Vec<u8> = g.edge_labels().map(|x| *x).collect();
    let s = g.into_static();
    compare(&s, m, &nl, &el);
}
fn matrix<G: MutGraphTrait<u8, u8, u8, u32>>(g: &mut G, m: &mut Model, n: u8, node: fn() -> Option<u8>, edge: fn() -> Option<u8>) {
    for i in 0..n {
        let l = node();
        g.add_node(i, l);
        m.add_node(i, l);
    }
    for i in 0..n {
        for j in 0..n {
            if (m.dir || i <= j) && flag() {
                let l = edge();
                g.add_edge(i, j, l);
                m.add_edge(i, j, l);
            }
        }
    }
}
fn none() -> Option<u8> {
    None
}
fn any() -> Option<u8> {
    opt(256)
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c08_di_shapes() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    let n = choose(4);
    matrix(&mut g, &mut m, n, none, none);
    go_di(g, &m);
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c08_un_shapes() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    let n = choose(4);
    matrix(&mut g, &mut m, n, none, none);
    go_un(g, &m);
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c08_di_labels() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    matrix(&mut g, &mut m, 2, any, none);
    go_di(g, &m);
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c08_un_labels() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    matrix(&mut g, &mut m, 2, any, any);
    go_un(g, &m);
}
fn listed<G: MutGraphTrait<u8, u8, u8, u32>>(g: &mut G, m: &mut Model, n: u8) {
    for i in 0..n {
        g.add_node(i, None);
        m.add_node(i, None);
    }
    for k in 0..3 {
        let (s, t, l) = (id(n as u16), id(n as u16), if k < 2 { opt(256) } else { None });
        g.add_edge(s, t, l);
        m.add_edge(s, t, l);
    }
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c08_di_edges() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    listed(&mut g, &mut m, 3);
    go_di(g, &m);
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c08_un_edges() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    listed(&mut g, &mut m, 3);
    go_un(g, &m);
}
/// Every id a u8 can be.
//@ shards=2
#[no_mangle]
pub extern "C" fn c08_full() {
    let mut g = Di::new();
    for i in 0..=255u8 {
        g.add_node(i, None);
    }
    let s = [0, 255][choose(2) as usize];
    let t = [0, 7, 255][choose(3) as usize];
    g.add_edge(s, t, None);
    g.add_edge(3, 4, None);
    let g = g.into_static();
    check!(g.node_count() == 256 && g.edge_count() == 2, "a graph that uses every id keeps its counts");
    let es: Vec<(u8, u8)> = g.edge_indices().collect();
    check!(same(&es, &[(s, t), (3, 4)]), "a graph that uses every id keeps its edges");
    check!(g.has_node(255) && g.has_edge(s, t) && g.in_degree(t) == 1, "a graph that uses every id answers for them");
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c08_un_matrix4() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    matrix(&mut g, &mut m, 4, none, none);
    go_un(g, &m);
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c08_di_edges4() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    listed(&mut g, &mut m, 4);
    go_di(g, &m);
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c08_un_edges4() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    listed(&mut g, &mut m, 4);
    go_un(g, &m);
}
/// Many nodes, long rows, many labels.
//@ shards=4
#[no_mangle]
pub extern "C" fn c08_many() {
    let s = u8_();
    if flag() {
        let (mut g, mut m) = (Di::new(), Model::new(true));
        crowd(&mut g, &mut m, 24, 1);
        assume(s < 24);
        g.add_edge(s, 23, Some(77));
        m.add_edge(s, 23, Some(77));
        go_di(g, &m);
    } else {
        let (mut g, mut m) = (Un::new(), Model::new(false));
        crowd(&mut g, &mut m, 24, 1);
        assume(s < 24);
        g.add_edge(s, 23, Some(77));
        m.add_edge(s, 23, Some(77));
        go_un(g, &m);
    }
}
/// More labels than a byte counts.
#[no_mangle]
pub extern "C" fn c08_many_labels() {
    let mut g = rust_graph::graph_impl::TypedDiGraphMap::<u16, u16, u16, u32>::new();
    let n = 300u16;
    for i in 0..n {
        g.add_node(i, Some(7 * i));
        g.add_edge(i, i / 2, Some(11 * i + 1));
        g.add_edge(i / 3, i, None);
    }
    let x = u16_();
    assume(x < n);
    let g = g.into_static();
    check!(g.get_node_label(x).map(|y| *y) == Some(7 * x), "a node has the label it was given last");
    for i in 0..n {
        check!(g.get_node_label(i).map(|x| *x) == Some(7 * i), "a node has the label it was given last");
        let l = if i < 2 { None } else { Some(11 * i + 1) };
        check!(g.get_edge_label(i, i / 2).map(|x| *x) == l || i < 3, "an edge has the label it was given last");
        check!(g.has_edge(i / 3, i) && (i < 3 || g.get_edge_label(i / 3, i).is_none()), "an edge without a label has none");
    }
    check!(g.num_of_node_labels() == 300 && g.node_count() == 300, "labels and nodes are kept");
}
/// A node in the middle of hundreds.
//@ shards=2
#[no_mangle]
pub extern "C" fn c08_hundreds() {
    if flag() {
        let (g, k) = hub::<u16, u16, Directed>(1100);
        let s = g.into_static();
        hub_is(&s, 1100, k);
        hub_in(&s, 1100, k);
    } else {
        let (g, k) = hub::<u32, u32, Undirected>(260);
        hub_is(&g.into_static(), 260, k);
    }
}
