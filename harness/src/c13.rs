//! A dumped static graph comes back whole when it is mapped, whatever was there before.
//! bound: every graph on up to 2 nodes with any u8 labels, of every shape on 3 nodes and of 2 labelled edges on 3 nodes; dumps over a dump of another graph of either kind; the files of an edge vector of up to 2 rows and 3 edges; a node among 260 and 1100 neighbours
use crate::util::*;
use crate::wide::*;
use rust_graph::graph_impl::static_graph::{EdgeVec, EdgeVecTrait};
use rust_graph::graph_impl::{EdgeVecMmap, StaticGraphMmap, TypedStaticGraph};
use rust_graph::map::SetMap;

type Map = StaticGraphMmap<u8, u8, u8, u32>;
fn mapped(g: &Map, m: &Model, nl: &[u8], el: &[u8]) {
    check!(g.is_directed() == m.dir, "the kind comes back");
    check!(g.node_count() == m.nodes.len(), "the number of nodes comes back");
    check!(g.edge_count() == m.edges.len(), "the number of edges comes back");
    contents(g, m);
    outward(g, m);
    for &(n, _) in &m.nodes {
        let mut inn = if m.dir { m.inn(n) } else { vec![] };
        inn.sort();
        if m.dir {
            check!(g.in_neighbors(n).into_owned() == inn, "in-neighbours come back");
            check!(g.in_degree(n) == inn.len() && g.inner_in_neighbors(n) == &inn[..], "in-neighbours come back");
            check!(g.in_neighbors_iter(n).collect::<Vec<u8>>() == inn, "in-neighbours come back");
        }
        check!(g.neighbors_iter(n).collect::<Vec<u8>>() == g.inner_neighbors(n).to_vec(), "neighbours are iterated as they are listed");
        check!(g.get_node(n).get_id() == n, "a node knows its id");
    }
    let es: Vec<(u8, u8)> = g.edge_indices().collect();
    check!(same_edges(m.dir, &es, &m.edges), "every edge is listed once");
    let mut ee = vec![];
    for e in g.edges() {
        let (s, t) = (e.get_start(), e.get_target());
        ee.push((s, t));
        let l = e.get_label_id().map(|i| *g.get_edge_label_map().get_item(i as usize).unwrap());
        check!(l == m.edge_label(s, t), "edges are listed with their labels");
    }
    check!(same_edges(m.dir, &ee, &m.edges), "every edge is listed once, labels and all");
    let mut k = 0;
    for n in g.nodes() {
        let l = n.get_label_id().map(|i| *g.get_node_label_map().get_item(i as usize).unwrap());
        check!(n.get_id() as usize == k && l == m.node_label(n.get_id()), "nodes are listed with their labels");
        k += 1;
    }
    check!(k == m.nodes.len(), "every node is listed once");
    check!(g.get_node_label_map().items().map(|x| *x).collect::<Vec<u8>>() == nl, "the node label map comes back");
    check!(g.get_edge_label_map().items().map(|x| *x).collect::<Vec<u8>>() == el, "the edge label map comes back");
    check!(g.max_seen_id().map(|x| x as usize + 1).unwrap_or(0) == m.nodes.len(), "the largest id comes back");
    check!(g.as_digraph().is_some() == m.dir, "a directed graph comes back as one");
    let (s, t) = (u8_(), u8_());
    nothing_else(g, m, s, t);
}
fn build<G: MutGraphTrait<u8, u8, u8, u32>>(g: &mut G, m: &mut Model, n: u8, label: fn() -> Option<u8>) {
    for i in 0..n {
        let l = label();
        g.add_node(i, l);
        m.add_node(i, l);
    }
    for i in 0..n {
        for j in 0..n {
            if (m.dir || i <= j) && flag() {
                let l = label();
                g.add_edge(i, j, l);
                m.add_edge(i, j, l);
            }
        }
    }
}
fn none() -> Option<u8> {
    None
}
fn any() -> Option<u8> {
    opt(256)
}
/// None, or one of two labels.
fn few() -> Option<u8> {
    match choose(3) {
        0 => None,
        k => Some(k * 100),
    }
}
/// Dumps `g` (built as `m` says) to the files at `p`.
fn put<Ty: GraphType + 'static>(g: rust_graph::graph_impl::TypedGraphMap<u8, u8, u8, Ty, u32>, p: &str) -> (Vec<u8>, Vec<u8>) {
    let nl = g.node_labels().map(|x| *x).collect();
    let el = g.edge_labels().map(|x| *x).collect();
    let s = g.into_static();
    check!(s.dump_mmap(p).is_ok(), "a dump succeeds");
    (nl, el)
}
fn di(n: u8, label: fn() -> Option<u8>, p: &str) -> (Model, Vec<u8>, Vec<u8>) {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    build(&mut g, &mut m, n, label);
    let (a, b) = put(g, p);
    (m, a, b)
}
fn un(n: u8, label: fn() -> Option<u8>, p: &str) -> (Model, Vec<u8>, Vec<u8>) {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    build(&mut g, &mut m, n, label);
    let (a, b) = put(g, p);
    (m, a, b)
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c13_di_shapes() {
    let p = dir() + "/g";
    let (m, a, b) = di(choose(4), none, &p);
    mapped(&Map::new(&p), &m, &a, &b);
}
#[no_mangle]
pub extern "C" fn c13_un_shapes() {
    let p = dir() + "/g";
    let (m, a, b) = un(choose(4), none, &p);
    mapped(&Map::new(&p), &m, &a, &b);
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c13_di_labels() {
    let p = dir() + "/g";
    let (m, a, b) = di(2, few, &p);
    mapped(&Map::new(&p), &m, &a, &b);
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c13_un_labels() {
    let p = dir() + "/g";
    let (m, a, b) = un(2, any, &p);
    mapped(&Map::new(&p), &m, &a, &b);
}
/// A dump over an earlier one: larger or smaller, labelled or not, of the other kind.
//@ shards=8
#[no_mangle]
pub extern "C" fn c13_again() {
    let p = dir() + "/g";
    fn some() -> Option<u8> {
        Some(7)
    }
    let l: fn() -> Option<u8> = if flag() { some } else { none };
    let n = choose(3);
    if flag() {
        di(n, l, &p);
    } else {
        un(n, l, &p);
    }
    let l: fn() -> Option<u8> = if flag() { some } else { none };
    let n = choose(3);
    let (m, a, b) = if flag() { di(n, l, &p) } else { un(n, l, &p) };
    mapped(&Map::new(&p), &m, &a, &b);
}
/// Two prefixes side by side, the map outliving the graph; the same graph through the boxed trait.
#[no_mangle]
pub extern "C" fn c13_side() {
    let (p, q) = (dir() + "/g", dir() + "/g2");
    let (m, a, b) = di(1, few, &p);
    let first = Map::new(&p);
    let (k, c, d) = un(2, none, &q);
    mapped(&Map::new(&q), &k, &c, &d);
    mapped(&first, &m, &a, &b);
    let g: &dyn GeneralGraph<u8, u8, u8, u32> = &first;
    check!(g.as_graph().node_count() == 1 && g.as_digraph().is_some(), "a mapped graph is a general graph");
}
/// Without the file of counts and label maps the counts are those of the arrays.
#[no_mangle]
pub extern "C" fn c13_no_aux() {
    let p = dir() + "/g";
    let (m, _, _) = if flag() { di(2, none, &p) } else { un(2, none, &p) };
    std::fs::remove_file(p.clone() + "_aux.bin").unwrap();
    mapped(&Map::new(&p), &m, &[], &[]);
}
/// Label ids as they are, of any width; label maps of text.
#[no_mangle]
pub extern "C" fn c13_raw() {
    let p = dir() + "/g";
    let (a, b) = (u16_(), u16_());
    let e = EdgeVec::<u32, u16>::with_labels(vec![0, 1, 2], vec![1, 0], vec![a, a]);
    let mut nm = SetMap::<String>::new();
    nm.add_item("x".into());
    nm.add_item("".into());
    let g = TypedStaticGraph::<u32, String, String, Undirected, u16>::with_labels(e, None, vec![b, 1], nm, SetMap::new(), None, None);
    check!(g.dump_mmap(&p).is_ok(), "a dump succeeds");
    let h = StaticGraphMmap::<u32, String, String, u16>::new(&p);
    check!(h.node_count() == 2 && h.edge_count() == 1 && !h.is_directed(), "counts and kind come back");
    check!(h.get_edge(0, 1).get_label_id() == g.get_edge(0, 1).get_label_id(), "label ids come back");
    check!(h.get_edge(1, 0).get_label_id() == if a == 65535 { None } else { Some(a) }, "label ids come back");
    check!(h.get_node(0).get_label_id() == if b == 65535 { None } else { Some(b) }, "label ids come back");
    check!(h.get_node_label(1).map(|x| x == "").unwrap_or(false), "label maps come back");
    check!(h.get_node_label_map() == GraphLabelTrait::get_node_label_map(&g), "label maps come back");
    let (s, t) = (u32_(), u32_());
    check!(h.has_edge(s, t) == ((s == 0 && t == 1) || (s == 1 && t == 0)), "edges come back, and no others");
}
/// The edge vector alone.
//@ shards=4
#[no_mangle]
pub extern "C" fn c13_edge_vec() {
    let p = dir() + "/e";
    let n = choose(3) as usize;
    let (mut o, mut e) = (vec![0], vec![]);
    for _ in 0..n {
        let k = choose(4 - (e.len() as u8));
        let r: Vec<u16> = (0..k).map(|_| u16_()).collect();
        assume(r.windows(2).all(|w| w[0] < w[1]));
        e.extend(r);
        o.push(e.len());
    }
    let l: Option<Vec<u32>> = if flag() { Some(e.iter().map(|_| u32_()).collect()) } else { None };
    let v = EdgeVec::<u16, u32>::from_raw(o, e, l);
    if flag() {
        let w = EdgeVec::<u16, u32>::with_labels(vec![0, 1], vec![0], vec![1]);
        check!(w.dump_mmap(&p).is_ok(), "a dump succeeds");
    }
    check!(v.dump_mmap(&p).is_ok(), "a dump succeeds");
    let w = EdgeVecMmap::<u16, u32>::new(&p);
    check!(w.get_offsets() == v.get_offsets() && w.get_edges() == v.get_edges() && w.get_labels() == v.get_labels(), "the arrays come back");
    check!(w.num_nodes() == v.num_nodes() && w.num_edges() == v.num_edges(), "the counts come back");
    let (s, t) = (u16_(), u16_());
    check!(w.find_edge_index(s, t) == v.find_edge_index(s, t), "an edge is found where it was");
    check!(w.find_edge_label_id(s, t) == v.find_edge_label_id(s, t), "an edge has the label it had");
}
//@ shards=32 tier=thorough
#[no_mangle]
pub extern "C" fn c13_un_labels3() {
    let p = dir() + "/g";
    let (m, a, b) = un(3, few, &p);
    mapped(&Map::new(&p), &m, &a, &b);
}
//@ shards=32 tier=thorough
#[no_mangle]
pub extern "C" fn c13_di_any() {
    let p = dir() + "/g";
    let (m, a, b) = di(2, any, &p);
    mapped(&Map::new(&p), &m, &a, &b);
}
/// Many nodes, long rows, many labels.
//@ shards=2
#[no_mangle]
pub extern "C" fn c13_many() {
    let p = dir() + "/g";
    if flag() {
        let (mut g, mut m) = (Di::new(), Model::new(true));
        crowd(&mut g, &mut m, 24, 1);
        let (a, b) = put(g, &p);
        mapped(&Map::new(&p), &m, &a, &b);
    } else {
        let (mut g, mut m) = (Un::new(), Model::new(false));
        crowd(&mut g, &mut m, 24, 1);
        let (a, b) = put(g, &p);
        mapped(&Map::new(&p), &m, &a, &b);
    }
}
/// Labels that nothing has any more.
#[no_mangle]
pub extern "C" fn c13_left_over() {
    let p = dir() + "/g";
    let (mut g, mut m) = (Di::new(), Model::new(true));
    let (a, b) = (u8_(), u8_());
    g.add_edge(0, 1, Some(a));
    m.add_edge(0, 1, Some(a));
    g.add_node(0, Some(b));
    m.add_node(0, Some(b));
    if flag() {
        g.remove_edge(0, 1);
        m.remove_edge(0, 1);
    }
    if flag() {
        g.add_node(0, None);
        m.add_node(0, None);
    }
    if flag() {
        for &n in &[1, 0] {
            g.remove_node(n);
            m.remove_node(n);
        }
    }
    put(g, &p);
    mapped(&Map::new(&p), &m, &[b], &[a]);
}
/// More labels than a byte counts.
#[no_mangle]
pub extern "C" fn c13_many_labels() {
    let p = dir() + "/g";
    let mut g = rust_graph::graph_impl::TypedUnGraphMap::<u16, u16, u16, u32>::new();
    let n = 300u16;
    for i in 0..n {
        g.add_node(i, Some(7 * i));
        g.add_edge(i, i / 2, Some(11 * i + 1));
    }
    check!(g.into_static().dump_mmap(&p).is_ok(), "a dump succeeds");
    let h = StaticGraphMmap::<u16, u16, u16, u32>::new(&p);
    for i in 0..n {
        check!(h.get_node_label(i).map(|x| *x) == Some(7 * i), "a node has the label it was given last");
        let l = Some(11 * i + 1);
        check!(h.get_edge_label(i, i / 2).map(|x| *x) == l && h.get_edge_label(i / 2, i).map(|x| *x) == l, "an edge has the label it was given last");
    }
    let x = u16_();
    check!(h.has_node(x) == (x < n) && h.node_count() == 300 && h.edge_count() == 300, "nodes and edges come back");
}
/// A node in the middle of hundreds.
//@ shards=2
#[no_mangle]
pub extern "C" fn c13_hundreds() {
    use rust_graph::graph_impl::StaticGraphMmap;
    let p = dir() + "/hub";
    if flag() {
        let (g, k) = hub::<u16, u16, Directed>(1100);
        g.into_static().dump_mmap(&p).unwrap();
        let s = StaticGraphMmap::<u16, u16, u16, u16>::new(&p);
        hub_is(&s, 1100, k);
        hub_in(&s, 1100, k);
    } else {
        let (g, k) = hub::<u32, u32, Undirected>(260);
        g.into_static().dump_mmap(&p).unwrap();
        hub_is(&StaticGraphMmap::<u32, u16, u16, u32>::new(&p), 260, k);
    }
}
