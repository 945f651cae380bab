//! What is not in a graph is not found, in any implementation; adjacency of unknown nodes is refused.
//! bound: graph maps of up to 2 edges and a node over any u8 ids; static and mapped graphs of every shape on up to 2 nodes, labelled, and of 2 edges on 3 nodes; every id asked for; the empty graph; a node among 260 neighbours, any 16-bit id asked for
use crate::util::*;
use crate::wide::*;
use rust_graph::graph_impl::{EdgeVec, StaticGraphMmap, TypedStaticGraph};
use rust_graph::map::SetMap;

fn missing<G, L: IdType>(g: &G, m: &Model, s: u8, t: u8)
where
    G: GraphLabelTrait<u8, u8, u8, L>,
{
    check!(g.has_node(s) == m.has(s), "a node is found if and only if it is there");
    check!(g.has_edge(s, t) == m.adj(s, t), "an edge is found if and only if it is there");
    check!(g.get_node(s).is_some() == m.has(s) && g.get_node(s).is_none() != m.has(s), "a node is handed out if and only if it is there");
    check!(g.get_edge(s, t).is_some() == m.adj(s, t) && g.get_edge(s, t).is_none() != m.adj(s, t), "an edge is handed out if and only if it is there");
    check!(g.get_node_label(s).map(|x| *x) == m.node_label(s), "what is not there has no label");
    check!(g.get_edge_label(s, t).map(|x| *x) == m.edge_label(s, t), "what is not there has no label");
    if m.has(s) {
        check!(g.degree(s) == m.out(s).len() && g.neighbors(s).len() == g.neighbors_iter(s).count(), "a node that is there has its neighbours");
    } else {
        cover!();
        check!(panics(|| { g.degree(s); }), "the degree of a node that is not there is refused");
        check!(panics(|| { g.neighbors(s); }), "the neighbours of a node that is not there are refused");
        check!(panics(|| { g.neighbors_iter(s).count(); }), "the neighbours of a node that is not there are refused");
    }
    cover!(!m.has(s) && m.has(t));
    cover!(m.has(s) && !m.has(t));
}
fn inn<G, L: IdType>(g: &G, m: &Model, s: u8)
where
    G: DiGraphTrait<u8, L>,
{
    if m.has(s) {
        check!(g.in_degree(s) == m.inn(s).len() && g.in_neighbors(s).len() == g.in_neighbors_iter(s).count(), "a node that is there has its in-neighbours");
    } else {
        cover!();
        check!(panics(|| { g.in_degree(s); }), "the in-degree of a node that is not there is refused");
        check!(panics(|| { g.in_neighbors(s); }), "the in-neighbours of a node that is not there are refused");
        check!(panics(|| { g.in_neighbors_iter(s).count(); }), "the in-neighbours of a node that is not there are refused");
    }
}
fn build<G: MutGraphTrait<u8, u8, u8, u32>>(g: &mut G, m: &mut Model, ops: u8) {
    let k = choose(ops + 1);
    for i in 0..k {
        if i > 1 || flag() {
            let (n, l) = (u8_(), opt(256));
            g.add_node(n, l);
            m.add_node(n, l);
        } else {
            let (s, t, l) = (u8_(), u8_(), opt(256));
            g.add_edge(s, t, l);
            m.add_edge(s, t, l);
        }
    }
}
fn mutable<G: MutGraphTrait<u8, u8, u8, u32>>(g: &mut G, m: &Model, s: u8, t: u8) {
    check!(g.get_node_mut(s).is_some() == m.has(s), "a node is handed out to change if and only if it is there");
    check!(EdgeTrait::is_some(&g.get_edge_mut(s, t)) == m.adj(s, t), "an edge is handed out to change if and only if it is there");
    if !m.has(s) {
        check!(g.remove_node(s).is_none(), "what is not there cannot be removed");
    }
    if !m.adj(s, t) {
        check!(EdgeTrait::is_none(&g.remove_edge(s, t)), "what is not there cannot be removed");
    }
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c12_di_map() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    build(&mut g, &mut m, 2);
    let (s, t) = (u8_(), u8_());
    missing(&g, &m, s, t);
    inn(&g, &m, s);
    mutable(&mut g, &m, s, t);
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c12_un_map() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    build(&mut g, &mut m, 2);
    let (s, t) = (u8_(), u8_());
    missing(&g, &m, s, t);
    mutable(&mut g, &m, s, t);
}
/// Every shape on up to 2 nodes, labels in part; or 2 edges on 3 nodes.
fn shape<G: MutGraphTrait<u8, u8, u8, u32>>(g: &mut G, m: &mut Model) {
    let n = choose(4);
    for i in 0..n {
        let l = if i == 0 && flag() { Some(u8_()) } else { None };
        g.add_node(i, l);
        m.add_node(i, l);
    }
    if n < 3 {
        for i in 0..n {
            for j in 0..n {
                if (m.dir || i <= j) && flag() {
                    let l = if i < j { opt(256) } else { None };
                    g.add_edge(i, j, l);
                    m.add_edge(i, j, l);
                }
            }
        }
    } else {
        for _ in 0..2 {
            let (s, t) = (id(3), id(3));
            g.add_edge(s, t, None);
            m.add_edge(s, t, None);
        }
    }
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c12_di_static() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    shape(&mut g, &mut m);
    let g = g.into_static();
    let (s, t) = (u8_(), u8_());
    missing(&g, &m, s, t);
    inn(&g, &m, s);
    check!(g.find_edge_index(s, t).is_some() == m.adj(s, t), "what is not there has no index");
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c12_un_static() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    shape(&mut g, &mut m);
    let g = g.into_static();
    let (s, t) = (u8_(), u8_());
    missing(&g, &m, s, t);
    check!(g.find_edge_index(s, t).is_some() == m.adj(s, t), "what is not there has no index");
}
type Map = StaticGraphMmap<u8, u8, u8, u32>;
//@ shards=8
#[no_mangle]
pub extern "C" fn c12_di_mmap() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    shape(&mut g, &mut m);
    let p = dir() + "/g";
    check!(g.into_static().dump_mmap(&p).is_ok(), "a dump succeeds");
    let g = Map::new(&p);
    let (s, t) = (u8_(), u8_());
    missing(&g, &m, s, t);
    inn(&g, &m, s);
    check!(m.has(s) || panics(|| { g.inner_neighbors(s); }), "the neighbours of a node that is not there are refused");
    check!(m.has(s) || panics(|| { g.inner_in_neighbors(s); }), "the in-neighbours of a node that is not there are refused");
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c12_un_mmap() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    shape(&mut g, &mut m);
    let p = dir() + "/g";
    check!(g.into_static().dump_mmap(&p).is_ok(), "a dump succeeds");
    let g = Map::new(&p);
    let (s, t) = (u8_(), u8_());
    missing(&g, &m, s, t);
    check!(m.has(s) || panics(|| { g.inner_neighbors(s); }), "the neighbours of a node that is not there are refused");
}
/// Graphs with nothing in them, however they come about.
#[no_mangle]
pub extern "C" fn c12_empty() {
    let m = Model::new(true);
    let (s, t) = (u8_(), u8_());
    missing(&Di::default(), &m, s, t);
    missing(&Un::with_capacity(1, 1, 1), &Model::new(false), s, t);
    let mut d = Di::new();
    let a = u8_();
    d.add_edge(a, t, Some(1));
    d.remove_node(a);
    d.remove_node(t);
    missing(&d, &m, s, t);
    inn(&d, &m, s);
    let g = match choose(3) {
        0 => TypedStaticGraph::<u8, u8, u8, Directed, u32>::new(EdgeVec::new(vec![], vec![]), Some(EdgeVec::new(vec![0], vec![])), None, None),
        1 => TypedStaticGraph::from_raw(0, 0, EdgeVec::new(vec![0], vec![]), Some(EdgeVec::default()), None, SetMap::new(), SetMap::new()),
        _ => Di::new().into_static(),
    };
    missing(&g, &m, s, t);
    check!(g.node_indices().count() + g.edge_indices().count() + g.nodes().count() + g.edges().count() == 0, "nothing is listed");
    check!(g.max_seen_id().is_none(), "there is no largest id");
    let p = dir() + "/g";
    check!(g.dump_mmap(&p).is_ok(), "a dump succeeds");
    let g = Map::new(&p);
    missing(&g, &m, s, t);
    check!(g.node_indices().count() + g.edge_indices().count() + g.nodes().count() + g.edges().count() == 0, "nothing is listed");
    check!(g.max_seen_id().is_none(), "there is no largest id");
}
/// Ids wider than the graph, to the last one of the type.
#[no_mangle]
pub extern "C" fn c12_wide() {
    let g = TypedStaticGraph::<u32, u8, u8, Directed, u32>::new(EdgeVec::new(vec![0, 1, 2], vec![1, 0]), Some(EdgeVec::new(vec![0, 1, 2], vec![1, 0])), None, None);
    let (s, t) = (u32_(), u32_());
    check!(g.has_node(s) == (s < 2), "a node is found if and only if it is there");
    check!(g.has_edge(s, t) == (s < 2 && t < 2 && s != t), "an edge is found if and only if it is there");
    check!(g.get_edge(s, t).is_some() == g.has_edge(s, t), "an edge is handed out if and only if it is there");
    check!(panics(|| { g.neighbors(s); }) == (s >= 2), "the neighbours of a node that is not there are refused");
    check!(panics(|| { g.in_degree(s); }) == (s >= 2), "the in-degree of a node that is not there is refused");
    let p = dir() + "/g";
    check!(g.dump_mmap(&p).is_ok(), "a dump succeeds");
    let g = StaticGraphMmap::<u32, u8, u8, u32>::new(&p);
    check!(g.has_node(s) == (s < 2) && g.has_edge(s, t) == (s < 2 && t < 2 && s != t), "what is not there is not found");
    check!(panics(|| { g.neighbors(s); }) == (s >= 2), "the neighbours of a node that is not there are refused");
}
/// Many nodes, any id asked for.
//@ shards=8
#[no_mangle]
pub extern "C" fn c12_many() {
    let (s, t) = (u8_(), [0, 11, 23, 24, 255][choose(5) as usize]);
    let k = choose(3);
    if flag() {
        let (mut g, mut m) = (Di::new(), Model::new(true));
        crowd(&mut g, &mut m, 24, if k == 0 { 11 } else { 1 });
        if k == 0 {
            missing(&g, &m, s, t);
            inn(&g, &m, s);
        } else {
            let g = g.into_static();
            let p = dir() + "/g";
            if k == 1 {
                missing(&g, &m, s, t);
                inn(&g, &m, s);
            } else {
                g.dump_mmap(&p).unwrap();
                let g = Map::new(&p);
                missing(&g, &m, s, t);
                inn(&g, &m, s);
            }
        }
    } else {
        let (mut g, mut m) = (Un::new(), Model::new(false));
        crowd(&mut g, &mut m, 24, if k == 0 { 11 } else { 1 });
        if k == 0 {
            missing(&g, &m, s, t);
        } else {
            let g = g.into_static();
            let p = dir() + "/g";
            if k == 1 {
                missing(&g, &m, s, t);
            } else {
                g.dump_mmap(&p).unwrap();
                missing(&Map::new(&p), &m, s, t);
            }
        }
    }
}
/// A node among hundreds, any id asked for.
//@ shards=6
#[no_mangle]
pub extern "C" fn c12_hundreds() {
    fn none<G: GraphLabelTrait<u16, u16, u16, u32>>(g: &G, s: u16, k: usize) {
        let (n, dir) = (260, g.is_directed());
        check!(g.has_node(s) == (s < n) && g.get_node(s).is_some() == (s < n), "a node is found if and only if it is there");
        check!(g.has_edge(130, s) == (s < n) && g.get_edge(130, s).is_some() == (s < n), "an edge is found if and only if it is there");
        let back = s < n && (!dir || s as usize == k || s == 130);
        check!(g.has_edge(s, 130) == back && g.get_edge(s, 130).is_some() == back, "an edge is found if and only if it is there");
        check!(!g.has_edge(s, 300) && !g.has_edge(300, s), "an edge is found if and only if it is there");
        check!(panics(|| { g.degree(s); }) == (s >= n), "the degree of a node that is not there is refused");
        check!(panics(|| { g.neighbors(s); }) == (s >= n), "the neighbours of a node that is not there are refused");
    }
    let s = u16_();
    let p = dir() + "/g";
    match choose(3) {
        0 => {
            let (g, k) = hub::<u16, u32, Directed>(260);
            none(&g, s, k);
            check!(panics(|| { g.in_degree(s); }) == (s >= 260), "the in-degree of a node that is not there is refused");
        }
        1 => {
            let (g, k) = hub::<u16, u32, Undirected>(260);
            none(&g.into_static(), s, k);
        }
        _ => {
            let (g, k) = hub::<u16, u32, Directed>(260);
            g.into_static().dump_mmap(&p).unwrap();
            let g = StaticGraphMmap::<u16, u16, u16, u32>::new(&p);
            none(&g, s, k);
            check!(panics(|| { g.in_degree(s); }) == (s >= 260), "the in-degree of a node that is not there is refused");
        }
    }
}
