//! Reordering renames ids and labels and keeps everything else.
//! bound: graphs of a node and 2 edges over any u8 ids, of 3 edges over any 3 ids; 2 labels; all 8 choices of what is reordered; 260 and 1100 nodes and edges, each with a label of its own
use crate::util::*;
use crate::wide::*;
use rust_graph::map::{SetMap, VecMap};

fn build<G: MutGraphTrait<u8, u8, u8, u32>>(g: &mut G, m: &mut Model, p: &Pool, nodes: usize, edges: usize) {
    for _ in 0..nodes {
        let (n, l) = (p.id(), p.label());
        g.add_node(n, l);
        m.add_node(n, l);
    }
    for _ in 0..edges {
        let (s, t, l) = (p.id(), p.id(), p.label());
        g.add_edge(s, t, l);
        m.add_edge(s, t, l);
    }
}
/// `g` is `m` with its nodes renamed by `new`.
fn renamed<G: GraphLabelTrait<u8, u8, u8, u32>>(g: &G, m: &Model, new: &dyn Fn(u8) -> u8) {
    check!(g.node_count() == m.nodes.len(), "reordering keeps the number of nodes");
    check!(g.edge_count() == m.edges.len(), "reordering keeps the number of edges");
    check!(g.is_directed() == m.dir, "reordering keeps the kind");
    for &(n, l) in &m.nodes {
        check!(g.has_node(new(n)) && g.get_node(new(n)).get_id() == new(n), "a node is found under its new id");
        check!(g.get_node_label(new(n)).map(|x| *x) == l, "a node keeps its label");
        let mut out: Vec<u8> = m.out(n).into_iter().map(|x| new(x)).collect();
        out.sort();
        check!(g.neighbors(new(n)).into_owned() == out, "a node keeps its neighbours");
    }
    for &(s, t, l) in &m.edges {
        check!(g.has_edge(new(s), new(t)), "an edge is found under the new ids");
        check!(g.get_edge_label(new(s), new(t)).map(|x| *x) == l, "an edge keeps its label");
        check!(m.dir || g.get_edge_label(new(t), new(s)).map(|x| *x) == l, "an undirected edge keeps its label both ways");
    }
    let ns: Vec<u8> = g.node_indices().collect();
    check!(ns.len() == m.nodes.len(), "no node is added");
    let es: Vec<(u8, u8)> = g.edge_indices().collect();
    let me: Vec<(u8, u8, Option<u8>)> = m.edges.iter().map(|e| (new(e.0), new(e.1), e.2)).collect();
    check!(same_edges(m.dir, &es, &me), "no edge is added or lost");
    let top = m.nodes.iter().map(|x| new(x.0)).max();
    check!(g.max_seen_id() == top, "the largest id is that of the new ids");
}
fn degree(m: &Model, n: u8) -> usize {
    if m.dir {
        m.out(n).len() + m.inn(n).len()
    } else {
        m.out(n).len()
    }
}
fn sorted_by_use(m: &Model, g: &[u8], nodes: bool) -> bool {
    let of = |l: u8| {
        if nodes {
            m.nodes.iter().filter(|x| x.1 == Some(l)).count()
        } else {
            m.edges.iter().filter(|x| x.2 == Some(l)).count()
        }
    };
    g.iter().all(|&l| of(l) > 0) && g.windows(2).all(|w| of(w[0]) <= of(w[1]))
}
fn check_all<G: GraphLabelTrait<u8, u8, u8, u32>>(g: &G, m: &Model, map: Option<&SetMap<u8>>, flags: (bool, bool, bool), old: &dyn Fn(u8) -> u8, new: &dyn Fn(u8) -> u8) {
    check!(map.is_some() == flags.0, "there is an id map if and only if nodes are reordered");
    let ids: Vec<u8> = m.nodes.iter().map(|x| x.0).collect();
    if flags.0 {
        for &n in &ids {
            check!((new(n) as usize) < ids.len(), "new ids are below the number of nodes");
            check!(old(new(n)) == n, "the original id is found again");
        }
        for i in 0..ids.len() {
            check!(new(old(i as u8)) == i as u8, "the new id is found again");
        }
        let d: Vec<usize> = (0..ids.len()).map(|i| degree(m, old(i as u8))).collect();
        check!(d.windows(2).all(|w| w[0] <= w[1]), "new ids are given by degree");
        for i in 0..3 {
            check!(m.has(i) || panics(|| { new(i); }), "what was no node has no new id");
        }
        let n = ids.len() as u8;
        check!(panics(|| { old(n); }) && panics(|| { old(255); }), "what is no node now had no id before");
    } else {
        for &n in &ids {
            check!(new(n) == n && old(n) == n, "nodes not reordered keep their ids");
        }
    }
    renamed(g, m, new);
    let nl: Vec<u8> = g.node_labels().map(|x| *x).collect();
    let el: Vec<u8> = g.edge_labels().map(|x| *x).collect();
    if flags.1 {
        check!(sorted_by_use(m, &nl, true), "node labels are renumbered by frequency");
    }
    if flags.2 {
        check!(sorted_by_use(m, &el, false), "edge labels are renumbered by frequency");
    }
    for v in &[nl, el] {
        check!((0..v.len()).all(|i| !v[..i].contains(&v[i])), "a label occurs once");
    }
}
fn go_di(p: &Pool, nodes: usize, edges: usize) {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    build(&mut g, &mut m, p, nodes, edges);
    let f = (flag(), flag(), flag());
    let mut r = g.reorder_id(f.0, f.1, f.2);
    let g = r.take_graph().unwrap();
    check_all(&g, &m, r.get_node_id_map(), f, &|n| r.get_original_node_id(n), &|n| r.find_new_node_id(n));
    for &(n, _) in &m.nodes {
        let mut inn: Vec<u8> = m.inn(n).into_iter().map(|x| r.find_new_node_id(x)).collect();
        inn.sort();
        check!(g.in_neighbors(r.find_new_node_id(n)).into_owned() == inn, "a node keeps its in-neighbours");
    }
}
fn go_un(p: &Pool, nodes: usize, edges: usize) {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    build(&mut g, &mut m, p, nodes, edges);
    let f = (flag(), flag(), flag());
    let mut r = g.reorder_id(f.0, f.1, f.2);
    let g = r.take_graph().unwrap();
    check_all(&g, &m, r.get_node_id_map(), f, &|n| r.get_original_node_id(n), &|n| r.find_new_node_id(n));
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c09_di() {
    go_di(&Pool::of(3, 1), 1, 2)
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c09_un() {
    go_un(&Pool::of(3, 1), 1, 2)
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c09_di_any() {
    go_di(&Pool::any(), 1, 1)
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c09_un_any() {
    go_un(&Pool::any(), 1, 1)
}
/// Labels of different frequency.
//@ shards=16
#[no_mangle]
pub extern "C" fn c09_labels() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    let ls = [u8_(), u8_()];
    assume(ls[0] != ls[1]);
    for i in 0..4u8 {
        let l = match choose(3) {
            0 => None,
            k => Some(ls[k as usize - 1]),
        };
        g.add_node(i, l);
        m.add_node(i, l);
        g.add_edge(0, i, l);
        m.add_edge(0, i, l);
    }
    let f = (false, flag(), flag());
    let mut r = g.reorder_id(f.0, f.1, f.2);
    let g = r.take_graph().unwrap();
    check_all(&g, &m, r.get_node_id_map(), f, &|n| r.get_original_node_id(n), &|n| r.find_new_node_id(n));
}
/// With maps of one's own.
//@ shards=16
#[no_mangle]
pub extern "C" fn c09_with() {
    let ids = [u8_(), u8_(), u8_()];
    assume(ids[0] != ids[1] && ids[1] != ids[2] && ids[0] != ids[2]);
    let (mut g, mut m) = (Di::new(), Model::new(true));
    let pick = || ids[choose(3) as usize];
    for _ in 0..2 {
        let (s, t, l) = (pick(), pick(), if flag() { Some(7) } else { Some(9) });
        g.add_edge(s, t, l);
        m.add_edge(s, t, l);
    }
    let n = pick();
    g.add_node(n, Some(5));
    m.add_node(n, Some(5));
    let el: Vec<u8> = g.edge_labels().map(|x| *x).collect();
    let map: Option<VecMap<u8>> = if flag() { Some(ids.to_vec().into()) } else { None };
    let nmap: Option<SetMap<u32>> = None;
    let emap: Option<SetMap<u32>> = if flag() { Some((0..el.len() as u32).rev().collect()) } else { None };
    let g = g.reorder_id_with(&map, &nmap, &emap);
    let renaming = map.is_some();
    let new = |n: u8| if renaming { ids.iter().position(|x| *x == n).unwrap() as u8 } else { n };
    if map.is_some() || emap.is_some() {
        renamed(&g, &m, &new);
    } else {
        contents(&g, &m);
    }
    let now: Vec<u8> = g.edge_labels().map(|x| *x).collect();
    let want: Vec<u8> = if emap.is_some() { el.into_iter().rev().collect() } else { el };
    check!(now == want, "edge labels are numbered by the map given");
    for &(n, _) in &m.nodes {
        let mut inn: Vec<u8> = m.inn(n).into_iter().map(|x| new(x)).collect();
        inn.sort();
        check!(g.in_neighbors(new(n)).into_owned() == inn, "a node keeps its in-neighbours");
    }
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c09_di_long() {
    go_di(&Pool::of(3, 1), 1, 3)
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c09_un_long() {
    go_un(&Pool::of(3, 1), 1, 3)
}
/// Many nodes of many degrees, many labels.
//@ shards=8
#[no_mangle]
pub extern "C" fn c09_many_di() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    crowd(&mut g, &mut m, 22, 7);
    let f = (flag(), flag(), flag());
    let mut r = g.reorder_id(f.0, f.1, f.2);
    let g = r.take_graph().unwrap();
    check_all(&g, &m, r.get_node_id_map(), f, &|n| r.get_original_node_id(n), &|n| r.find_new_node_id(n));
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c09_many_un() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    crowd(&mut g, &mut m, 22, 7);
    let f = (flag(), flag(), flag());
    let mut r = g.reorder_id(f.0, f.1, f.2);
    let g = r.take_graph().unwrap();
    check_all(&g, &m, r.get_node_id_map(), f, &|n| r.get_original_node_id(n), &|n| r.find_new_node_id(n));
}
/// Hundreds of nodes, edges and labels.
//@ shards=4
#[no_mangle]
pub extern "C" fn c09_hundreds() {
    if flag() {
        hundreds::<u16, u16, Directed>(1100, 2)
    } else {
        hundreds::<u32, u32, Undirected>(260, 2)
    }
}
