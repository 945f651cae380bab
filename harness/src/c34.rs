//! A graph that came out of another operation can be changed like one built by hand.
//! bound: graphs of every shape on 2 nodes with any two ids, labels by id, then a change of any kind with any ids and labels and three that follow from it (thorough: two of any kind); sources: clone, boxed clone, union, difference, import, CSV, reordering with every option, connected subgraphs, generators, given label maps, edge lists; a node among 260 neighbours, changed after each
use crate::util::*;
use rust_graph::graph_impl::TypedGraphMap;
use crate::wide::*;
use rust_graph::algorithm::{graph_minus, graph_union, ConnSubgraph};
use rust_graph::graph_gen::{complete_graph, empty_graph, random_gnm_graph, random_gnp_graph};
use rust_graph::graph_impl::{TypedDiGraphMap, TypedUnGraphMap};
use rust_graph::io::csv::{read_from_csv, write_to_csv};
use rust_graph::io::serde::{Deserialize, Serialize};
use rust_graph::map::SetMap;

/// One change, any of those there are to a general graph.
fn op<G: MutGraphTrait<u8, u8, u8, L> + ?Sized, L: IdType>(g: &mut G, m: &mut Model, ops: u8) {
    match choose(ops) {
        0 => {
            let (s, t, l) = (u8_(), u8_(), opt(256));
            check!(g.add_edge(s, t, l) == m.add_edge(s, t, l), "adding an edge tells whether it is new");
        }
        1 => {
            let (s, t) = (u8_(), u8_());
            let r = g.remove_edge(s, t);
            check!(EdgeTrait::is_some(&r) == m.remove_edge(s, t).is_some(), "removing an edge tells whether it was there");
        }
        2 => {
            let (n, l) = (u8_(), opt(256));
            check!(g.add_node(n, l) == m.add_node(n, l), "adding a node tells whether it is new");
        }
        _ => {
            let n = u8_();
            check!(NodeTrait::is_some(&g.remove_node(n)) == m.remove_node(n).is_some(), "removing a node tells whether it was there");
        }
    }
}
/// All there is to ask, for any label id type.
fn holds<G: GraphLabelTrait<u8, u8, u8, L> + ?Sized, L: IdType>(g: &G, m: &Model) {
    check!(g.is_directed() == m.dir && g.node_count() == m.nodes.len() && g.edge_count() == m.edges.len(), "the graph has as much as it should");
    for &(n, x) in &m.nodes {
        check!(g.has_node(n) && g.get_node_label(n).map(|y| *y) == x, "a node has the label it should have");
        let mut out = m.out(n);
        out.sort();
        check!(g.neighbors(n).into_owned() == out && g.degree(n) == out.len(), "a node has the neighbours it should have");
        check!(g.max_seen_id().map_or(false, |i| i >= n), "the largest id seen is no less than any there");
        check!(x.map_or(true, |x| g.get_node_label_map().contains(&x)), "a label in use is in the map");
    }
    for &(s, t, x) in &m.edges {
        check!(g.has_edge(s, t) && g.get_edge_label(s, t).map(|y| *y) == x, "an edge has the label it should have");
        check!(m.dir || (g.has_edge(t, s) && g.get_edge_label(t, s).map(|y| *y) == x), "an edge has the label it should have, both ways");
        check!(x.map_or(true, |x| g.get_edge_label_map().contains(&x)), "a label in use is in the map");
    }
    let ns: Vec<u8> = g.node_indices().collect();
    check!(ns.len() == m.nodes.len() && ns.iter().all(|&n| m.has(n)), "no node is there that should not be");
    let es: Vec<(u8, u8)> = g.edge_indices().collect();
    check!(same_edges(m.dir, &es, &m.edges), "no edge is there that should not be");
}
fn inwards<L: IdType>(g: &TypedDiGraphMap<u8, u8, u8, L>, m: &Model) {
    for &(n, _) in &m.nodes {
        let mut inn = m.inn(n);
        inn.sort();
        check!(g.in_neighbors(n).into_owned() == inn, "a node has the in-neighbours it should have");
    }
}
/// Then it is changed, and is what it should be.
fn then<G: GraphLabelTrait<u8, u8, u8, L> + MutGraphLabelTrait<u8, u8, u8, L>, L: IdType>(g: &mut G, m: &mut Model, k: u8) {
    for _ in 0..k {
        match choose(3) {
            0 => op(g, m, 4),
            1 => {
                let (n, l) = (u8_(), opt(256));
                check!(g.update_node_label(n, l) == m.has(n), "a node can be labelled if it is there");
                if m.has(n) {
                    m.add_node(n, l);
                }
            }
            _ => {
                let (s, t, l) = (u8_(), u8_(), opt(256));
                check!(g.update_edge_label(s, t, l) == m.adj(s, t), "an edge can be labelled if it is there");
                if m.adj(s, t) {
                    m.add_edge(s, t, l);
                }
            }
        }
    }
    holds(g, m);
    last(g, m);
    holds(g, m);
}
/// What is there is joined to something new, labelled anew, and in part taken out again.
fn last<G: MutGraphTrait<u8, u8, u8, L> + ?Sized, L: IdType>(g: &mut G, m: &mut Model) {
    if m.nodes.is_empty() {
        return;
    }
    let (a, b) = (m.nodes[0].0, m.nodes[m.nodes.len() - 1].0);
    check!(g.add_edge(b, a, Some(201)) == m.add_edge(b, a, Some(201)), "adding an edge tells whether it is new");
    check!(g.add_node(b, Some(202)) == m.add_node(b, Some(202)), "adding a node tells whether it is new");
    if a != b {
        check!(NodeTrait::is_some(&g.remove_node(a)) == m.remove_node(a).is_some(), "removing a node tells whether it was there");
    }
}
fn two() -> [u8; 2] {
    let ids = [u8_(), u8_()];
    assume(ids[0] < ids[1]);
    ids
}
/// Labelled, but with the same labels whatever the ids are.
fn base<G: MutGraphTrait<u8, u8, u8, L>, L: IdType>(g: &mut G, m: &mut Model, ids: &[u8]) {
    for (i, &n) in ids.iter().enumerate() {
        let l = if i == 0 { Some(7) } else { None };
        g.add_node(n, l);
        m.add_node(n, l);
    }
    for (a, &i) in ids.iter().enumerate() {
        for (b, &j) in ids.iter().enumerate() {
            if (m.dir || a <= b) && (a == 0 || b == 0) && flag() {
                let l = [None, Some(3), Some(5)][(a + 2 * b) % 3];
                g.add_edge(i, j, l);
                m.add_edge(i, j, l);
            }
        }
    }
}
fn maker<L: IdType + serde::de::DeserializeOwned>(how: u8, ids: [u8; 2]) {
    let (mut g, mut m) = (TypedDiGraphMap::<u8, u8, u8, L>::new(), Model::new(true));
    base(&mut g, &mut m, &ids);
    match how {
        0 => {
            let mut h = g.clone();
            then(&mut h, &mut m.clone(), 1);
            holds(&g, &m);
        }
        1 => {
            g.export(dir() + "/g").unwrap();
            let mut h = TypedDiGraphMap::<u8, u8, u8, L>::import(dir() + "/g").unwrap();
            then(&mut h, &mut m, 1);
            inwards(&h, &m);
        }
        _ => {
            let f = (flag(), flag(), flag());
            let mut r = g.reorder_id(f.0, f.1, f.2);
            let mut h = r.take_graph().unwrap();
            for n in &mut m.nodes {
                n.0 = r.find_new_node_id(n.0);
            }
            for e in &mut m.edges {
                *e = (r.find_new_node_id(e.0), r.find_new_node_id(e.1), e.2);
            }
            then(&mut h, &mut m, 1);
            inwards(&h, &m);
        }
    }
}
fn maker_un<L: IdType + serde::de::DeserializeOwned>(how: u8, ids: [u8; 2]) {
    let (mut g, mut m) = (TypedUnGraphMap::<u8, u8, u8, L>::new(), Model::new(false));
    base(&mut g, &mut m, &ids);
    match how {
        0 => {
            let mut h = g.clone();
            then(&mut h, &mut m.clone(), 1);
            holds(&g, &m);
        }
        1 => {
            g.export(dir() + "/g").unwrap();
            let mut h = TypedUnGraphMap::<u8, u8, u8, L>::import(dir() + "/g").unwrap();
            then(&mut h, &mut m, 1);
        }
        _ => {
            let f = (flag(), flag(), flag());
            let mut r = g.reorder_id(f.0, f.1, f.2);
            let mut h = r.take_graph().unwrap();
            for n in &mut m.nodes {
                n.0 = r.find_new_node_id(n.0);
            }
            for e in &mut m.edges {
                *e = (r.find_new_node_id(e.0), r.find_new_node_id(e.1), e.2);
            }
            then(&mut h, &mut m, 1);
        }
    }
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c34_clone() {
    maker::<u32>(0, two());
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c34_clone_un() {
    maker_un::<u8>(0, two());
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c34_import() {
    maker::<u8>(1, two());
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c34_import_un() {
    maker_un::<u32>(1, two());
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c34_reorder() {
    maker::<u32>(2, [4, 9]);
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c34_reorder_un() {
    maker_un::<u32>(2, [4, 9]);
}
type Dyn = dyn GeneralGraph<u8, u8, u8, u32>;
fn boxed(dir: bool, ids: &[u8]) -> (Box<Dyn>, Model) {
    let mut m = Model::new(dir);
    if dir {
        let mut g = Di::new();
        base(&mut g, &mut m, ids);
        (Box::new(g), m)
    } else {
        let mut g = Un::new();
        base(&mut g, &mut m, ids);
        (Box::new(g), m)
    }
}
fn then_boxed(mut g: Box<Dyn>, mut m: Model) {
    {
        let h = g.as_mut_graph().unwrap();
        op(h, &mut m, 4);
    }
    holds(g.as_labeled_graph(), &m);
    last(g.as_mut_graph().unwrap(), &mut m);
    holds(g.as_labeled_graph(), &m);
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c34_boxed() {
    let ids = two();
    let (g, m) = boxed(flag(), &ids);
    let h = g.clone();
    then_boxed(h, m.clone());
    holds(g.as_labeled_graph(), &m);
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c34_union() {
    let d = flag();
    let (g, mut m) = boxed(d, &[4, 9]);
    let (h, n) = boxed(d, &[9]);
    for &(i, l) in &n.nodes {
        m.add_node(i, l);
    }
    for &(s, t, l) in &n.edges {
        m.add_edge(s, t, l);
    }
    then_boxed(graph_union(g.as_general_graph(), h.as_general_graph()), m);
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c34_minus() {
    let d = flag();
    let (g, mut m) = boxed(d, &[4, 9]);
    let (h, n) = boxed(d, &[9]);
    for &(i, _) in &n.nodes {
        m.remove_node(i);
    }
    then_boxed(graph_minus(g.as_general_graph(), h.as_general_graph()), m);
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c34_parts() {
    let (g, m) = boxed(flag(), &[9, 4]);
    for h in ConnSubgraph::new(g.as_general_graph()).into_result() {
        let mut n = Model::new(m.dir);
        n.nodes = m.nodes.iter().filter(|x| h.has_node(x.0)).map(|x| *x).collect();
        n.edges = m.edges.iter().filter(|x| n.has(x.0)).map(|x| *x).collect();
        cover!(n.nodes.len() == 2);
        cover!(n.nodes.len() == 1);
        let last = n.has(4);
        if last {
            then_boxed(h, n);
        } else {
            holds(h.as_labeled_graph(), &n);
        }
    }
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c34_csv() {
    let (p, q) = (dir() + "/n", dir() + "/e");
    if flag() {
        let (mut g, mut m) = (TypedDiGraphMap::<u8, u8, u8, u8>::new(), Model::new(true));
        base(&mut g, &mut m, &[4, 9]);
        write_to_csv(&g, &p, &q).unwrap();
        let mut h = TypedDiGraphMap::<u8, u8, u8, u8>::new();
        read_from_csv(&mut h, Some(&p), &q, None, true, false).unwrap();
        then(&mut h, &mut m, 1);
        inwards(&h, &m);
    } else {
        let (mut g, mut m) = (TypedUnGraphMap::<u8, u8, u8, u8>::new(), Model::new(false));
        base(&mut g, &mut m, &[4, 9]);
        write_to_csv(&g, &p, &q).unwrap();
        let mut h = TypedUnGraphMap::<u8, u8, u8, u8>::new();
        read_from_csv(&mut h, Some(&p), &q, None, true, false).unwrap();
        then(&mut h, &mut m, 1);
    }
}
/// What a graph holds, as it says.
fn read<G: GraphLabelTrait<u8, u8, u8, L>, L: IdType>(g: &G) -> Model {
    let mut m = Model::new(g.is_directed());
    for n in g.node_indices() {
        m.add_node(n, g.get_node_label(n).map(|x| *x));
    }
    for (s, t) in g.edge_indices() {
        m.add_edge(s, t, g.get_edge_label(s, t).map(|x| *x));
    }
    m
}
fn made_then<Ty: GraphType>() -> (rust_graph::graph_impl::TypedGraphMap<u8, u8, u8, Ty, u8>, Model) {
    let (nl, el) = (few(1), few(1));
    let g = match choose(4) {
        0 => empty_graph(2, nl, el),
        1 => complete_graph(2, nl, el),
        2 => random_gnm_graph(2, 1, nl, el),
        _ => random_gnp_graph(2, 0.5, nl, el),
    };
    let m = read(&g);
    (g, m)
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c34_made() {
    if flag() {
        let (mut g, mut m) = made_then::<Directed>();
        then(&mut g, &mut m, 1);
        inwards(&g, &m);
    } else {
        let (mut g, mut m) = made_then::<Undirected>();
        then(&mut g, &mut m, 1);
    }
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c34_begun() {
    let mut m = Model::new(true);
    let mut g = match choose(5) {
        0 => Di::default(),
        1 => Di::with_capacity(1, 0, 3),
        2 => {
            let (mut a, mut b) = (SetMap::new(), SetMap::new());
            a.add_item(u8_());
            b.add_item(3);
            b.add_item(u8_());
            Di::with_label_map(a, b)
        }
        3 => {
            let es = [(u8_(), u8_()), (u8_(), u8_())];
            for e in &es {
                m.add_edge(e.0, e.1, None);
            }
            Di::from_edges(es.to_vec())
        }
        _ => {
            let mut g = Di::new();
            base(&mut g, &mut m, &[8, 2]);
            g.shrink_to_fit();
            g
        }
    };
    then(&mut g, &mut m, 1);
    inwards(&g, &m);
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c34_twice() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    base(&mut g, &mut m, &[4, 9]);
    let mut r = g.reorder_id(flag(), flag(), flag());
    let mut h = r.take_graph().unwrap();
    for n in &mut m.nodes {
        n.0 = r.find_new_node_id(n.0);
    }
    for e in &mut m.edges {
        *e = (r.find_new_node_id(e.0), r.find_new_node_id(e.1), e.2);
    }
    then(&mut h, &mut m, 2);
}
/// A node in the middle of hundreds.
//@ shards=8
#[no_mangle]
pub extern "C" fn c34_hundreds() {
    fn change<Id: Wide, Ty: GraphType, L: IdType>(mut g: TypedGraphMap<Id, u16, u16, Ty, L>, n: usize, k: usize) {
        hub_is(&g, n, k);
        let (c, x, new) = (Id::new(130), Id::new(255), Id::new(n + 3));
        let d = Ty::is_directed() as usize;
        check!(g.add_edge(new, c, Some(9)), "adding an edge tells whether it is new");
        check!(g.max_seen_id() == Some(new) && g.node_count() == n + 1 && g.edge_count() == n + d + 1, "the graph has as much as it should");
        check!(g.degree(c) == n + 1 - d && g.get_edge_label(new, c).map(|l| *l) == Some(9), "a node has the neighbours it should have");
        check!(g.get_edge_label_map().contains(&9), "a label in use is in the map");
        check!(EdgeTrait::is_some(&g.remove_edge(c, x)) && !g.has_edge(c, x) && g.degree(c) == n - d, "a node has the neighbours it should have");
        check!(NodeTrait::is_some(&g.remove_node(c)), "removing a node tells whether it was there");
        check!(g.node_count() == n && g.edge_count() == 0 && g.edge_indices().next().is_none(), "the graph has as much as it should");
    }
    fn from<Ty: GraphType + 'static>(how: u8)
    where
        TypedGraphMap<u16, u16, u16, Ty, u32>: GeneralGraph<u16, u16, u16, u32>,
    {
        let n = 260;
        let (g, k) = hub::<u16, u32, Ty>(n);
        let (p, q) = (dir() + "/n", dir() + "/e");
        match how {
            0 => change(g.clone(), n, k),
            1 => {
                g.export(&p).unwrap();
                change(TypedGraphMap::<u16, u16, u16, Ty, u32>::import(&p).unwrap(), n, k)
            }
            2 => {
                write_to_csv(&g, &p, &q).unwrap();
                let mut h = TypedGraphMap::<u16, u16, u16, Ty, u16>::new();
                read_from_csv(&mut h, Some(&p), &q, None, true, false).unwrap();
                change(h, n, k)
            }
            _ => change(g.reorder_id(false, true, true).take_graph().unwrap(), n, k),
        }
    }
    let how = choose(4);
    if flag() {
        from::<Directed>(how)
    } else {
        from::<Undirected>(how)
    }
}
