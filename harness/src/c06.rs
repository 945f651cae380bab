//! Mutable views: what they show and set is what look-ups show.
//! bound: graphs of 2 edges and a node with any u8 ids and labels, of 3 edges over 3 ids; any u32 label id set; a node among 260 and 1100 neighbours
use crate::util::*;
use crate::wide::*;
use rust_graph::generic::{MutEdgeTrait, MutNodeTrait};

#[derive(PartialEq)]
struct State {
    nodes: Vec<(u8, Option<u32>)>,
    edges: Vec<(u8, u8, Option<u32>)>,
}
/// The label ids, as look-ups show them.
fn state<G: GraphLabelTrait<u8, u8, u8, u32>>(g: &G, m: &Model) -> State {
    State {
        nodes: m.nodes.iter().map(|x| (x.0, g.get_node(x.0).get_label_id())).collect(),
        edges: m.edges.iter().map(|x| (x.0, x.1, g.get_edge(x.0, x.1).get_label_id())).collect(),
    }
}
fn unchanged<G: GraphLabelTrait<u8, u8, u8, u32>>(g: &G, m: &Model) {
    check!(g.node_count() == m.nodes.len() && g.edge_count() == m.edges.len(), "setting a label changes no count");
    for &(s, t, _) in &m.edges {
        check!(g.has_edge(s, t) && (m.dir || g.has_edge(t, s)), "setting a label changes no edge");
    }
}
fn build<G: MutGraphLabelTrait<u8, u8, u8, u32>>(g: &mut G, m: &mut Model, p: &Pool, edges: usize, labels: bool) {
    let (n, l) = (p.id(), if labels { p.label() } else { None });
    g.add_node(n, l);
    m.add_node(n, l);
    for _ in 0..edges {
        let (s, t, l) = (p.id(), p.id(), if labels { p.label() } else { None });
        g.add_edge(s, t, l);
        m.add_edge(s, t, l);
    }
}
fn value() -> Option<u32> {
    if flag() {
        Some(u32_())
    } else {
        None
    }
}
fn nodes<G: MutGraphLabelTrait<u8, u8, u8, u32>>(mut g: G, m: Model) {
    let before = state(&g, &m);
    let v = value();
    let k;
    if flag() {
        k = u8_();
        let mut n = g.get_node_mut(k);
        check!(n.is_some() == m.has(k), "a node is handed out for change if and only if it is there");
        if m.has(k) {
            let i = m.node(k).unwrap();
            check!(n.get_id() == k && n.get_label_id() == before.nodes[i].1, "a mutable node shows its id and label");
            n.set_label_id(v);
            check!(n.get_label_id() == v, "a mutable node shows the label just set");
            cover!();
        }
    } else {
        let i = choose(m.nodes.len() as u8) as usize;
        k = m.nodes[i].0;
        let mut ids = vec![];
        for mut n in g.nodes_mut() {
            let j = m.node(n.get_id());
            check!(j.is_some() && n.get_label_id() == before.nodes[j.unwrap()].1, "the mutable nodes show their labels");
            ids.push(n.get_id());
            if n.get_id() == k {
                n.set_label_id(v);
            }
        }
        let all: Vec<u8> = m.nodes.iter().map(|x| x.0).collect();
        check!(same(&ids, &all), "the mutable nodes are the nodes, each once");
    }
    let after = state(&g, &m);
    for i in 0..m.nodes.len() {
        let l = if m.nodes[i].0 == k { v } else { before.nodes[i].1 };
        check!(after.nodes[i].1 == l, "the label of the node changed, and of no other");
    }
    check!(after.edges == before.edges, "changing a node changes no edge");
    unchanged(&g, &m);
}
/// Change one edge; what it is found to be afterwards, seen from the end it was changed at.
fn edges<G: MutGraphLabelTrait<u8, u8, u8, u32>>(g: &mut G, m: &Model) {
    let before = state(g, m);
    let v = value();
    let (a, b);
    if flag() {
        a = u8_();
        b = u8_();
        let mut e = g.get_edge_mut(a, b);
        check!(e.is_some() == m.adj(a, b), "an edge is handed out for change if and only if it is there");
        if m.adj(a, b) {
            let i = m.edge(a, b).unwrap();
            check!(e.get_start() == a && e.get_target() == b, "a mutable edge shows its ends");
            check!(e.get_label_id() == before.edges[i].2, "a mutable edge shows its label");
            e.set_label_id(v);
            check!(e.get_label_id() == v, "a mutable edge shows the label just set");
            cover!();
        }
    } else {
        let i = choose(m.edges.len() as u8) as usize;
        let mut ids = vec![];
        let (mut x, mut y) = (0, 0);
        for mut e in g.edges_mut() {
            let j = m.edge(e.get_start(), e.get_target());
            check!(j.is_some() && e.get_label_id() == before.edges[j.unwrap()].2, "the mutable edges show their labels");
            ids.push((e.get_start(), e.get_target()));
            if j == Some(i) {
                x = e.get_start();
                y = e.get_target();
                e.set_label_id(v);
            }
        }
        a = x;
        b = y;
        check!(same_edges(m.dir, &ids, &m.edges), "the mutable edges are the edges, each once");
    }
    let k = m.edge(a, b);
    if k.is_some() {
        check!(g.get_edge(a, b).get_label_id() == v, "the label set is the label looked up");
        for e in g.edges() {
            if m.edge(e.get_start(), e.get_target()) == k && (m.dir || (e.get_start(), e.get_target()) == (a, b)) {
                check!(e.get_label_id() == v, "the label set is the label listed");
            }
        }
    }
    for i in 0..m.edges.len() {
        if Some(i) != k {
            let (s, t, l) = before.edges[i];
            check!(g.get_edge(s, t).get_label_id() == l, "no other edge changed");
            check!(m.dir || g.get_edge(t, s).get_label_id() == l, "no other edge changed at its other end");
        }
    }
    check!(state(g, m).nodes == before.nodes, "changing an edge changes no node");
    unchanged(g, m);
    if !m.dir && k.is_some() && flag() {
        check!(g.get_edge(b, a).get_label_id() == v, "the label set on an undirected edge is the one seen from its other end");
    }
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c06_di_nodes() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    build(&mut g, &mut m, &Pool::any(), 1, true);
    nodes(g, m)
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c06_un_nodes() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    build(&mut g, &mut m, &Pool::any(), 1, true);
    nodes(g, m)
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c06_di_edges() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    build(&mut g, &mut m, &Pool::any(), 2, false);
    edges(&mut g, &m)
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c06_un_edges() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    build(&mut g, &mut m, &Pool::any(), 2, false);
    edges(&mut g, &m)
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c06_di_small() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    build(&mut g, &mut m, &Pool::of(2, 1), 3, true);
    edges(&mut g, &m)
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c06_un_small() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    build(&mut g, &mut m, &Pool::of(2, 1), 3, true);
    edges(&mut g, &m)
}
/// Many nodes and edges, one changed.
//@ shards=4
#[no_mangle]
pub extern "C" fn c06_many_nodes() {
    if flag() {
        let (mut g, mut m) = (Di::new(), Model::new(true));
        crowd(&mut g, &mut m, 16, 7);
        nodes(g, m)
    } else {
        let (mut g, mut m) = (Un::new(), Model::new(false));
        crowd(&mut g, &mut m, 16, 7);
        nodes(g, m)
    }
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c06_many_di() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    crowd(&mut g, &mut m, 12, 7);
    edges(&mut g, &m)
}
/// A node in the middle of hundreds.
//@ shards=4
#[no_mangle]
pub extern "C" fn c06_hundreds() {
    if flag() {
        hub_changed::<u16, u16, Directed>(1100)
    } else {
        hub_changed::<u32, u32, Undirected>(260)
    }
}
