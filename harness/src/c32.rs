//! A handle of a node or an edge tells what it stands for, or that it stands for nothing.
//! bound: graph maps of 2 edges and a node over any u8 ids and labels; any two ids asked for; one node's own adjacency through 3 changes; static and mapped graphs of 2 nodes; implementation names in upper and lower case, one with any letter changed to any ASCII character, and any with a letter left out or any ASCII character put in
use crate::util::*;
use rust_graph::generic::{
    Edge, EdgeType, MutEdgeTrait, MutNodeMapTrait, MutNodeType, NodeMapTrait, NodeType, OwnedEdgeType, OwnedNodeType,
};
use rust_graph::graph_impl::graph_map::NodeMap;
use rust_graph::graph_impl::static_graph::StaticNode;
use rust_graph::graph_impl::{GraphImpl, MutEdge, StaticGraphMmap, TypedDiStaticGraph, TypedUnStaticGraph};

fn build<G: MutGraphTrait<u8, u8, u8, u32>>(g: &mut G, m: &mut Model) {
    let (n, l) = (u8_(), opt(256));
    g.add_node(n, l);
    m.add_node(n, l);
    for i in 0..2 {
        let (s, t, l) = (u8_(), u8_(), if i == 0 { opt(256) } else { None });
        g.add_edge(s, t, l);
        m.add_edge(s, t, l);
    }
}
fn edge_is<E: EdgeTrait<u8, u32>>(e: &E, s: u8, t: u8, l: Option<u32>) {
    check!(e.is_some() && !e.is_none(), "an edge that is there is something");
    check!(e.get_start() == s && e.get_target() == t, "an edge joins the nodes it was asked for by");
    check!(e.get_label_id() == l, "an edge has its label");
}
fn nowhere<E: EdgeTrait<u8, u32>>(e: &E) {
    check!(e.is_none() && !e.is_some(), "an edge that is not there is nothing");
    check!(panics(|| { e.get_start(); }), "no edge has no start");
    check!(panics(|| { e.get_target(); }), "no edge has no target");
    check!(panics(|| check!(e.get_label_id().is_none(), "no edge has no label")) || e.get_label_id().is_none(), "no edge has no label");
}
fn node_is<N: NodeTrait<u8, u32>>(n: &N, i: u8, l: Option<u32>) {
    check!(n.is_some() && !n.is_none(), "a node that is there is something");
    check!(n.get_id() == i, "a node has the id it was asked for by");
    check!(n.get_label_id() == l, "a node has its label");
}
fn nobody<N: NodeTrait<u8, u32>>(n: &N) {
    check!(n.is_none() && !n.is_some(), "a node that is not there is nothing");
    check!(panics(|| { n.get_id(); }), "no node has no id");
    check!(panics(|| check!(n.get_label_id().is_none(), "no node has no label")) || n.get_label_id().is_none(), "no node has no label");
}
/// The adjacency a node keeps itself.
fn own(n: &NodeMap<u8, u32>, i: u8, out: &[(u8, Option<u32>)], inn: &[u8], x: u8) {
    let mut ids: Vec<u8> = out.iter().map(|e| e.0).collect();
    ids.sort();
    let label = |t: u8| out.iter().find(|e| e.0 == t).map(|e| e.1);
    check!(n.has_neighbor(x) == ids.contains(&x), "a node has the neighbours it has");
    check!(n.get_neighbor(x) == label(x), "a node has the label of the edge to a neighbour, if there is one");
    check!(n.degree() == ids.len() && n.neighbors() == ids, "a node's own list is that of its neighbours");
    check!(n.neighbors_iter().collect::<Vec<_>>() == ids, "a node's own iterator goes over its neighbours");
    let up: Vec<u8> = ids.iter().filter(|t| **t >= i).map(|t| *t).collect();
    check!(n.non_less_neighbors_iter().collect::<Vec<_>>() == up, "the neighbours that are not less are those that are not less");
    let full: Vec<Edge<u8, u32>> = n.neighbors_iter_full().collect();
    check!(full.len() == ids.len() && (0..ids.len()).all(|k| full[k] == Edge::new(i, ids[k], label(ids[k]).unwrap())), "a node gives its edges with their labels");
    let full: Vec<Edge<u8, u32>> = n.non_less_neighbors_iter_full().collect();
    check!(full.len() == up.len() && (0..up.len()).all(|k| full[k] == Edge::new(i, up[k], label(up[k]).unwrap())), "a node gives its edges to nodes that are not less, with their labels");
    let mut inn = inn.to_vec();
    inn.sort();
    check!(n.has_in_neighbor(x) == inn.contains(&x), "a node has the in-neighbours it has");
    check!(n.in_degree() == inn.len() && n.in_neighbors() == inn, "a node's own list is that of its in-neighbours");
    check!(n.in_neighbors_iter().collect::<Vec<_>>() == inn, "a node's own iterator goes over its in-neighbours");
}
fn handles<G: GraphLabelTrait<u8, u8, u8, u32> + MutGraphTrait<u8, u8, u8, u32>>(g: &mut G, m: &Model, x: u8, y: u8) {
    let has = m.has(x);
    let l = g.get_node(x).get_label_id();
    check!(l.and_then(|l| g.get_node_label_map().get_item(l as usize).map(|x| *x)) == m.node_label(x), "a node's label id stands for its label");
    let adj = m.adj(x, y);
    let el = g.get_edge(x, y).get_label_id();
    check!(el.and_then(|l| g.get_edge_label_map().get_item(l as usize).map(|x| *x)) == m.edge_label(x, y), "an edge's label id stands for its label");
    let out: Vec<(u8, Option<u32>)> = m.out(x).iter().map(|t| (*t, g.get_edge(x, *t).get_label_id())).collect();
    let inn = if m.dir { m.inn(x) } else { vec![] };
    if has {
        node_is(&g.get_node(x), x, l);
        own(g.get_node(x).unwrap_nodemap(), x, &out, &inn, y);
        check!(panics(|| { g.get_node(x).unwrap_staticnode(); }), "a graph map has no static nodes");
        node_is(&g.get_node_mut(x), x, l);
        own(g.get_node_mut(x).unwrap_nodemap_ref(), x, &out, &inn, y);
        for new in [if l.is_none() { Some(3) } else { None }, Some(0x1234567), l] {
            {
                let mut n = g.get_node_mut(x);
                n.set_label_id(new);
                node_is(&n, x, new);
            }
            node_is(&g.get_node(x), x, new);
        }
    } else {
        nobody(&g.get_node(x));
        check!(g.get_node(x) == NodeType::None, "a node that is not there is None");
        check!(panics(|| { g.get_node(x).unwrap_nodemap(); }), "None cannot be unwrapped");
        check!(panics(|| { g.get_node(x).unwrap_staticnode(); }), "None cannot be unwrapped");
        nobody(&g.get_node_mut(x));
        check!(g.get_node_mut(x) == MutNodeType::None, "a node that is not there is None");
        check!(panics(|| { g.get_node_mut(x).set_label_id(None); }), "what is not there cannot be labelled");
        check!(panics(|| { g.get_node_mut(x).unwrap_nodemap_ref(); }), "None cannot be unwrapped");
    }
    if adj {
        edge_is(&g.get_edge(x, y), x, y, el);
        edge_is(&g.get_edge(x, y).unwrap(), x, y, el);
        check!(g.get_edge(x, y) == EdgeType::Edge(Edge::new(x, y, el)), "edges with the same ends and label are equal");
        edge_is(&g.get_edge_mut(x, y), x, y, el);
        check!(panics(|| { g.get_edge_mut(x, y).unwrap_edge(); }), "an edge to change cannot be taken out");
        for new in [if el.is_none() { Some(3) } else { None }, Some(0x1234567), el] {
            {
                let mut e = g.get_edge_mut(x, y);
                e.set_label_id(new);
                edge_is(&e, x, y, new);
            }
            edge_is(&g.get_edge(x, y), x, y, new);
        }
        edge_is(&g.get_edge_mut(x, y).unwrap_edge_ref(), x, y, el);
        let r = g.remove_edge(x, y);
        edge_is(&r, x, y, el);
        check!(r == OwnedEdgeType::Edge(Edge::new(x, y, el)), "the edge taken out is the one that was there");
    } else {
        nowhere(&g.get_edge(x, y));
        check!(g.get_edge(x, y) == EdgeType::None, "an edge that is not there is None");
        check!(panics(|| { g.get_edge(x, y).unwrap(); }), "None cannot be unwrapped");
        nowhere(&g.get_edge_mut(x, y));
        check!(panics(|| { g.get_edge_mut(x, y).unwrap_edge(); }), "None cannot be unwrapped");
        check!(panics(|| { g.get_edge_mut(x, y).unwrap_edge_ref(); }), "None cannot be unwrapped");
        check!(panics(|| { g.get_edge_mut(x, y).set_label_id(Some(1)); }), "what is not there cannot be labelled");
        nowhere(&g.remove_edge(x, y));
    }
    let r = g.remove_node(x);
    if has {
        node_is(&r, x, l);
    } else {
        nobody(&r);
        check!(r == OwnedNodeType::None, "what is not there cannot be taken out");
    }
    cover!(has && adj);
    cover!(!has);
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c32_di() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    build(&mut g, &mut m);
    handles(&mut g, &m, u8_(), u8_());
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c32_un() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    build(&mut g, &mut m);
    handles(&mut g, &m, u8_(), u8_());
}
fn some_label() -> Option<u32> {
    opt(256).map(|x| x as u32 * 0x1010101)
}
/// A node by itself: what is done to it and what it then says.
fn alone(k: u8) {
    let (i, l) = (u8_(), some_label());
    let mut n = NodeMap::new(i, l);
    let mut out: Vec<(u8, Option<u32>)> = vec![];
    let mut inn: Vec<u8> = vec![];
    for _ in 0..k {
        let x = u8_();
        let at = out.iter().position(|e| e.0 == x);
        match choose(7) {
            0 => {
                let l = some_label();
                check!(n.add_edge(x, l) == at.is_none(), "adding an edge tells whether it is new");
                match at {
                    Some(k) => out[k].1 = l,
                    None => out.push((x, l)),
                }
            }
            1 => {
                check!(n.add_in_edge(x) != inn.contains(&x), "adding an in-edge tells whether it is new");
                add_to(&mut inn, x);
            }
            2 => match at {
                Some(k) => {
                    let (_, l) = out.remove(k);
                    cover!();
                    check!(n.remove_edge(x) == OwnedEdgeType::Edge(Edge::new(i, x, l)), "removing an edge gives it");
                }
                None => check!(n.remove_edge(x) == OwnedEdgeType::None, "an edge that is not there cannot be removed"),
            },
            3 => {
                check!(n.remove_in_edge(x) == inn.contains(&x), "removing an in-edge tells whether it was there");
                inn.retain(|y| *y != x);
            }
            4 => {
                let l = some_label();
                let mut e = n.get_neighbor_mut(x);
                match at {
                    Some(k) => {
                        cover!();
                        edge_is(&e, i, x, out[k].1);
                        e.set_label_id(l);
                        edge_is(&e, i, x, l);
                        out[k].1 = l;
                    }
                    None => nowhere(&e),
                }
            }
            5 => {
                let mut seen = vec![];
                for mut e in n.neighbors_iter_mut() {
                    check!(e.get_start() == i, "a node's edges start there");
                    let t = e.get_target();
                    let k = out.iter().position(|e| e.0 == t).unwrap();
                    check!(e.get_label_id() == out[k].1, "a node's edges have their labels");
                    out[k].1 = Some(seen.len() as u32);
                    e.set_label_id(out[k].1);
                    seen.push(t);
                }
                check!(seen.len() == out.len() && seen.windows(2).all(|p| p[0] < p[1]), "a node's edges can be changed, each once");
            }
            _ => {
                let mut seen = vec![];
                for mut e in n.non_less_neighbors_iter_mut() {
                    let t = e.get_target();
                    check!(e.get_start() == i && t >= i, "a node's edges to nodes that are not less go to nodes that are not less");
                    let k = out.iter().position(|e| e.0 == t).unwrap();
                    check!(e.get_label_id() == out[k].1, "a node's edges have their labels");
                    out[k].1 = Some(seen.len() as u32 + 7);
                    e.set_label_id(out[k].1);
                    seen.push(t);
                }
                check!(seen.len() == out.iter().filter(|e| e.0 >= i).count(), "all edges to nodes that are not less can be changed");
            }
        }
    }
    node_is(&n, i, l);
    own(&n, i, &out, &inn, u8_());
    let l = some_label();
    n.set_label_id(l);
    node_is(&n, i, l);
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c32_alone() {
    alone(2);
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c32_alone3() {
    alone(3);
}
//@ shards=4
/// Three edges each way, then all of them seen and changed.
#[no_mangle]
pub extern "C" fn c32_three() {
    let i = u8_();
    let mut n = NodeMap::new(i, None);
    let mut out: Vec<(u8, Option<u32>)> = vec![];
    let mut inn: Vec<u8> = vec![];
    for k in 0..3 {
        let x = u8_();
        assume(out.iter().all(|e| e.0 < x));
        check!(n.add_edge(x, Some(k)) && n.add_in_edge(x), "adding an edge tells that it is new");
        out.push((x, Some(k)));
        inn.push(x);
    }
    own(&n, i, &out, &inn, u8_());
    for (k, mut e) in n.non_less_neighbors_iter_mut().enumerate() {
        let j = out.iter().position(|x| x.0 == e.get_target()).unwrap();
        out[j].1 = Some(k as u32 + 9);
        e.set_label_id(out[j].1);
    }
    own(&n, i, &out, &inn, u8_());
}
/// Nodes and edges by themselves.
#[no_mangle]
pub extern "C" fn c32_plain() {
    let (i, j, l) = (u8_(), u8_(), u32_());
    let some = if l == u32::max_value() { None } else { Some(l) };
    node_is(&StaticNode::new_static(i, l), i, some);
    edge_is(&Edge::new_static(i, j, l), i, j, some);
    let o = if flag() { Some(l) } else { None };
    node_is(&StaticNode::new(i, o), i, o);
    edge_is(&Edge::new(i, j, o), i, j, o);
    let mut cell = o;
    let k = u32_();
    {
        let mut e = MutEdge::new(i, j, &mut cell);
        edge_is(&e, i, j, o);
        e.set_label_id(Some(k));
        edge_is(&e, i, j, Some(k));
    }
    check!(cell == Some(k), "a label is changed where it is kept");
    let (i2, j2, o2) = (u8_(), u8_(), if flag() { Some(u32_()) } else { None });
    let (ei, ej, eo) = (i == i2, j == j2, o == o2);
    check!((Edge::new(i, j, o) == Edge::new(i2, j2, o2)) == (ei && ej && eo), "edges are equal if and only if ends and labels are");
    check!((StaticNode::new(i, o) == StaticNode::new(i2, o2)) == (ei && eo), "nodes are equal if and only if ids and labels are");
    let n: StaticNode<u8, u32> = StaticNode::new(i, o);
    check!(NodeType::StaticNode(n.clone()).unwrap_staticnode() == n, "a static node is what is unwrapped");
    check!(panics(|| { NodeType::StaticNode(n.clone()).unwrap_nodemap(); }), "a static node is no node of a graph map");
    node_is(&NodeType::StaticNode(n.clone()), i, o);
}
/// As the traits of a general graph see it.
fn general(g: &dyn GeneralGraph<u8, u8, u8, u32>, m: &Model, kind: GraphImpl) {
    let labelled: &dyn GraphTrait<u8, u32> = g.as_labeled_graph();
    for f in &[g.as_graph(), labelled, g.as_general_graph().as_graph()] {
        check!(f.implementation() == kind, "a graph tells how it is implemented");
        check!(f.is_directed() == m.dir && f.node_count() == m.nodes.len() && f.edge_count() == m.edges.len(), "a graph seen as a graph is the same graph");
        check!(f.max_possible_id() == 255 && f.max_possible_label_id() == u32::max_value(), "the largest ids are those of their types");
    }
    whole(g.as_labeled_graph(), m);
    check!(g.as_digraph().is_some() == m.dir, "a graph is a directed graph if and only if it is directed");
    if let Some(d) = g.as_digraph() {
        for &(n, _) in &m.nodes {
            let mut inn = m.inn(n);
            inn.sort();
            check!(d.in_degree(n) == inn.len() && d.in_neighbors(n).into_owned() == inn, "a directed graph has its in-neighbours");
        }
    }
}
fn ends(g: &mut dyn GeneralGraph<u8, u8, u8, u32>, m: &mut Model, kind: GraphImpl, changes: bool) {
    general(g, m, kind);
    check!(g.as_mut_graph().is_some() == changes, "a graph can be changed if and only if it is a graph map");
    if let Some(h) = g.as_mut_graph() {
        let (n, l) = (u8_(), opt(256));
        check!(h.add_node(n, l) == m.add_node(n, l), "a graph seen as one to change is the same graph");
        let (s, t) = (u8_(), u8_());
        check!(h.add_edge(s, t, l) == m.add_edge(s, t, l), "a graph seen as one to change is the same graph");
        whole(g.as_labeled_graph(), m);
    }
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c32_general_map() {
    let mut m = Model::new(flag());
    if m.dir {
        let mut g = Di::new();
        by_id(&mut g, &mut m, &[0, 1], true);
        ends(&mut g, &mut m, GraphImpl::GraphMap, true);
    } else {
        let mut g = Un::new();
        by_id(&mut g, &mut m, &[0, 1], true);
        ends(&mut g, &mut m, GraphImpl::GraphMap, true);
    }
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c32_general_static() {
    let p = dir() + "/g";
    let mut m = Model::new(flag());
    if m.dir {
        let mut g = Di::new();
        by_id(&mut g, &mut m, &[0, 1], true);
        let mut s: TypedDiStaticGraph<u8, u8, u8, u32> = g.into_static();
        ends(&mut s, &mut m, GraphImpl::StaticGraph, false);
        handed(&s, &m, u8_(), u8_());
        s.dump_mmap(&p).unwrap();
    } else {
        let mut g = Un::new();
        by_id(&mut g, &mut m, &[0, 1], true);
        let mut s: TypedUnStaticGraph<u8, u8, u8, u32> = g.into_static();
        ends(&mut s, &mut m, GraphImpl::StaticGraph, false);
        handed(&s, &m, u8_(), u8_());
        s.dump_mmap(&p).unwrap();
    }
    let mut g = StaticGraphMmap::<u8, u8, u8, u32>::new(&p);
    ends(&mut g, &mut m, GraphImpl::StaicGraphMmap, false);
    handed(&g, &m, u8_(), u8_());
}
/// The handles a static graph gives.
fn handed<G: GraphLabelTrait<u8, u8, u8, u32>>(g: &G, m: &Model, x: u8, y: u8) {
    if m.has(x) {
        let l = m.node_label(x).map(|l| g.get_node_label_map().find_index(&l).unwrap() as u32);
        node_is(&g.get_node(x), x, l);
        check!(g.get_node(x).unwrap_staticnode() == StaticNode::new(x, l), "a static graph has static nodes");
        check!(panics(|| { g.get_node(x).unwrap_nodemap(); }), "a static graph has no nodes of a graph map");
    } else {
        nobody(&g.get_node(x));
        check!(panics(|| { g.get_node(x).unwrap_nodemap(); }), "None cannot be unwrapped");
        check!(panics(|| { g.get_node(x).unwrap_staticnode(); }), "None cannot be unwrapped");
    }
    if m.adj(x, y) {
        let l = m.edge_label(x, y).map(|l| g.get_edge_label_map().find_index(&l).unwrap() as u32);
        edge_is(&g.get_edge(x, y), x, y, l);
        edge_is(&g.get_edge(x, y).unwrap(), x, y, l);
    } else {
        nowhere(&g.get_edge(x, y));
        check!(panics(|| { g.get_edge(x, y).unwrap(); }), "None cannot be unwrapped");
    }
    cover!(m.has(x) && m.adj(x, y));
    cover!(m.has(x) && !m.adj(x, y));
}
/// A static graph changed in its parts.
fn parts<Ty: GraphType>(mut s: rust_graph::graph_impl::TypedStaticGraph<u8, u8, u8, Ty, u32>, mut m: Model, x: u8, y: u8) {
    let k = s.get_node_label_map().len();
    let l = u8_();
    let i = s.get_node_label_map_mut().add_item(l);
    check!(s.get_node_label_map().get_item(i).map(|y| *y) == Some(l) && s.num_of_node_labels() >= k, "a label added to a graph's map is there");
    if let Some(ls) = s.get_labels_mut() {
        cover!();
        ls[x as usize] = i as u32;
        let j = m.node(x).unwrap();
        m.nodes[j].1 = Some(l);
    }
    whole(s.as_graph_(), &m);
    let l = u8_();
    let i = s.get_edge_label_map_mut().add_item(l);
    check!(s.get_edge_label_map().get_item(i).map(|y| *y) == Some(l), "a label added to a graph's map is there");
    whole(s.as_graph_(), &m);
    if flag() {
        s.get_edge_vec_mut().remove_labels();
        for e in m.edges.iter_mut() {
            e.2 = None;
        }
        whole(s.as_graph_(), &m);
    }
    check!(s.get_in_edge_vec_mut().is_some() == m.dir, "a directed graph keeps the edges into its nodes");
    let _ = y;
}
trait AsGraph {
    fn as_graph_(&self) -> &dyn GraphLabelTrait<u8, u8, u8, u32>;
}
impl<Ty: GraphType> AsGraph for rust_graph::graph_impl::TypedStaticGraph<u8, u8, u8, Ty, u32> {
    fn as_graph_(&self) -> &dyn GraphLabelTrait<u8, u8, u8, u32> {
        self
    }
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c32_parts() {
    let mut m = Model::new(flag());
    let (x, y) = (below(2), below(2));
    if m.dir {
        let mut g = Di::new();
        by_id(&mut g, &mut m, &[0, 1], true);
        parts(g.into_static(), m, x, y);
    } else {
        let mut g = Un::new();
        by_id(&mut g, &mut m, &[0, 1], true);
        parts(g.into_static(), m, x, y);
    }
}
/// `name` in upper and lower case: each letter up to the `k`th as it comes, the others all the same.
fn named(name: &str, k: usize, kind: GraphImpl) {
    let rest = flag();
    let s: String = name.chars().enumerate().map(|(i, c)| if if i < k { flag() } else { rest } { c.to_ascii_uppercase() } else { c }).collect();
    check!(s.parse::<GraphImpl>() == Ok(kind), "an implementation is known by its name, in any case");
}
#[no_mangle]
pub extern "C" fn c32_names() {
    match choose(4) {
        0 => named("graphmap", 8, GraphImpl::GraphMap),
        1 => named("staticgraph", 8, GraphImpl::StaticGraph),
        2 => named("staticgraphmmap", 8, GraphImpl::StaicGraphMmap),
        _ => for n in &["", "graph", "map", "mmap", "static", "staticmmap", "graphmmap", "staticmap", "static_graph", "graph_map", "staicgraphmmap", "staticgraphmmapmmap", "graphmapstaticgraph", "mapgraph", "graphs"] {
            check!(n.parse::<GraphImpl>().is_err(), "there is no implementation of another name");
        },
    }
}
/// A name with one letter changed.
#[no_mangle]
pub extern "C" fn c32_no_name() {
    let mut s = b"graphmap".to_vec();
    let (i, c) = (choose(8) as usize, below(128));
    let right = c.to_ascii_lowercase() == s[i];
    s[i] = c;
    let r = String::from_utf8(s).unwrap().parse::<GraphImpl>();
    cover!(right);
    cover!(!right);
    check!(r.is_ok() == right, "there is no implementation of another name");
}
/// A name with a letter left out, or with one more.
#[no_mangle]
pub extern "C" fn c32_near_name() {
    let mut s: Vec<u8> = ["graphmap", "staticgraph", "staticgraphmmap"][choose(3) as usize].bytes().collect();
    let n = s.len();
    if flag() {
        s.remove(choose(n as u8) as usize);
    } else {
        s.insert([0, 4, n - 1, n][choose(4) as usize], below(128));
    }
    check!(String::from_utf8(s).unwrap().parse::<GraphImpl>().is_err(), "there is no implementation of another name");
}
