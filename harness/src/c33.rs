//! An iterator says truly how much is left, however far it has come.
//! bound: every graph on 2 nodes with any ids and labels and of every shape on 3 nodes; static and mapped graphs of every shape on 3 nodes; maps of up to 3 items; a user's own iterators of up to 6 items; searches from any node; a node among 260 and 1100 neighbours
use crate::util::*;
use crate::wide::*;
use rust_graph::algorithm::{Bfs, Dfs};
use rust_graph::generic::NodeMapTrait;
use rust_graph::graph_impl::StaticGraphMmap;
use rust_graph::graph_impl::static_graph::static_edge_iter::StaticEdgeIndexIter;
use rust_graph::io::csv::CSVReader;
use rust_graph::map::{SetMap, VecMap};

/// `make` gives an iterator over `n` things, any number of times.
fn left<T, I: Iterator<Item = T>, F: FnMut() -> I>(mut make: F, n: usize) {
    let mut all = make();
    for k in 0..n + 1 {
        let (lo, hi) = all.size_hint();
        check!(lo <= n - k, "an iterator does not promise more than is left");
        check!(hi.map_or(true, |h| h >= n - k), "an iterator does not promise less than is left");
        let mut it = make();
        for _ in 0..k {
            it.next();
        }
        check!(it.count() == n - k, "an iterator counts what is left");
        check!(all.next().is_some() == (k < n), "an iterator gives as much as there is");
    }
    let mut it = make();
    check!(it.nth(n).is_none(), "an iterator gives no more than there is");
    check!(n == 0 || make().nth(n - 1).is_some(), "an iterator gives its last thing when asked for it");
    check!(make().last().is_some() == (n > 0), "an iterator has a last thing if it has any");
}
fn any<G: GraphLabelTrait<u8, u8, u8, u32>>(g: &G, m: &Model) {
    left(|| g.node_indices(), m.nodes.len());
    left(|| g.nodes(), m.nodes.len());
    left(|| g.edge_indices(), m.edges.len());
    left(|| g.edges(), m.edges.len());
    left(|| g.node_labels(), g.get_node_label_map().len());
    left(|| g.edge_labels(), g.get_edge_label_map().len());
    for &(n, _) in &m.nodes {
        left(|| g.neighbors_iter(n), m.out(n).len());
    }
}
fn inn<G: DiGraphTrait<u8, u32>>(g: &G, m: &Model) {
    for &(n, _) in &m.nodes {
        left(|| g.in_neighbors_iter(n), m.inn(n).len());
    }
}
/// What can be counted once only.
fn once<T, I: Iterator<Item = T>>(mut it: I, k: usize, n: usize) {
    for _ in 0..k {
        it.next();
    }
    let (lo, hi) = it.size_hint();
    check!(lo <= n - k && hi.map_or(true, |h| h >= n - k), "an iterator to change things by promises neither more nor less than is left");
    check!(it.count() == n - k, "an iterator to change things by counts what is left");
}
fn changing<G: MutGraphTrait<u8, u8, u8, u32>>(g: &mut G, m: &Model) {
    for k in 0..m.nodes.len() + 1 {
        once(g.nodes_mut(), k, m.nodes.len());
    }
    for k in 0..m.edges.len() + 1 {
        once(g.edges_mut(), k, m.edges.len());
    }
}
fn from_nodes<G: GraphLabelTrait<u8, u8, u8, u32>>(g: &G, m: &Model) {
    for &(i, _) in &m.nodes {
        let n = g.get_node(i).unwrap_nodemap();
        let out = m.out(i);
        left(|| n.neighbors_iter(), out.len());
        left(|| n.neighbors_iter_full(), out.len());
        let up = out.iter().filter(|t| **t >= i).count();
        left(|| n.non_less_neighbors_iter(), up);
        left(|| n.non_less_neighbors_iter_full(), up);
        if m.dir {
            left(|| n.in_neighbors_iter(), m.inn(i).len());
        }
    }
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c33_di() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    shape(&mut g, &mut m, &[0, 1, 2], true, no_label);
    any(&g, &m);
    inn(&g, &m);
    from_nodes(&g, &m);
    changing(&mut g, &m);
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c33_un() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    shape(&mut g, &mut m, &[0, 1, 2], true, no_label);
    any(&g, &m);
    from_nodes(&g, &m);
    changing(&mut g, &m);
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c33_labels() {
    let mut m = Model::new(flag());
    let ids = [u8_(), u8_()];
    assume(ids[0] != ids[1]);
    if m.dir {
        let mut g = Di::new();
        shape(&mut g, &mut m, &ids, true, any_label);
        any(&g, &m);
    } else {
        let mut g = Un::new();
        shape(&mut g, &mut m, &ids, true, any_label);
        any(&g, &m);
    }
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c33_static() {
    let p = dir() + "/g";
    let (mut g, mut m) = (Di::new(), Model::new(true));
    by_id(&mut g, &mut m, &[0, 1, 2], true);
    let s = g.into_static();
    any(&s, &m);
    inn(&s, &m);
    s.dump_mmap(&p).unwrap();
    let s = StaticGraphMmap::<u8, u8, u8, u32>::new(&p);
    any(&s, &m);
    inn(&s, &m);
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c33_static_un() {
    let p = dir() + "/g";
    let (mut g, mut m) = (Un::new(), Model::new(false));
    by_id(&mut g, &mut m, &[0, 1, 2], true);
    let s = g.into_static();
    any(&s, &m);
    left(|| StaticEdgeIndexIter::new(Box::new(s.get_edge_vec()), false), m.edges.len());
    s.dump_mmap(&p).unwrap();
    any(&StaticGraphMmap::<u8, u8, u8, u32>::new(&p), &m);
}
#[no_mangle]
pub extern "C" fn c33_maps() {
    let (mut s, mut v, mut want) = (SetMap::new(), VecMap::new(), vec![]);
    for _ in 0..choose(4) {
        let x = u8_();
        s.add_item(x);
        v.add_item(x);
        add_to(&mut want, x);
    }
    left(|| s.items(), want.len());
    left(|| v.items(), want.len());
    left(|| Iter::<u8>::empty(), 0);
    left(|| Iter::new(Box::new(want.iter())), want.len());
}
/// Iterators of a user's own, which know little, much or nothing of how much is left.
#[no_mangle]
pub extern "C" fn c33_made() {
    let (k, mask) = (choose(4), choose(8));
    let kept = (0..k).filter(|i| mask >> i & 1 == 1).count();
    let runs: usize = (0..k).map(|i| (mask >> i & 1) as usize * 2).sum();
    let head = (0..k).take_while(|i| mask >> i & 1 == 1).count();
    left(|| Iter::new(Box::new((0..k).filter(|i| mask >> i & 1 == 1))), kept);
    left(|| Iter::new(Box::new((0..k).flat_map(|i| vec![i; (mask >> i & 1) as usize * 2]))), runs);
    left(|| Iter::new(Box::new((0..k).take_while(|i| mask >> i & 1 == 1))), head);
    left(|| Iter::new(Box::new((0..k).chain(0..1).filter(|i| mask >> i & 1 == 1))), kept + (mask & 1) as usize);
    left(|| {
        let mut i = 0;
        Iter::new(Box::new(std::iter::from_fn(move || { i += 1; if i <= k { Some(i) } else { None } })))
    }, k as usize);
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c33_searches() {
    let mut m = Model::new(flag());
    let from = match choose(4) {
        3 => None,
        k => Some(k),
    };
    if m.dir {
        let mut g = Di::new();
        shape(&mut g, &mut m, &[0, 1, 2], false, no_label);
        left(|| Bfs::new(&g, from), 3);
        left(|| Dfs::new(&g, from), 3);
    } else {
        let mut g = Un::new();
        shape(&mut g, &mut m, &[0, 1, 2], false, no_label);
        left(|| Bfs::new(&g, from), 3);
        left(|| Dfs::new(&g, from), 3);
    }
}
#[no_mangle]
pub extern "C" fn c33_rows() {
    let (p, q) = (dir() + "/n", dir() + "/e");
    let (a, b) = (choose(4), choose(4));
    let mut t = String::new();
    for i in 0..a {
        t += &format!("{},{}\n", i, i);
    }
    std::fs::write(&p, t).unwrap();
    let mut t = String::new();
    for i in 0..b {
        t += &format!("{},{},{}\n", i, i + 1, i);
    }
    std::fs::write(&q, t).unwrap();
    let r = CSVReader::<u8, u8, u8>::new(Some(&p), &q).headers(false);
    left(|| r.node_iter().unwrap(), a as usize);
    left(|| r.edge_iter().unwrap(), b as usize);
}
/// Iterators over hundreds, at their ends and in the middle.
//@ shards=4
#[no_mangle]
pub extern "C" fn c33_hundreds() {
    fn many<T, I: Iterator<Item = T>, F: FnMut() -> I>(mut make: F, n: usize) {
        for &k in &[0, 1, n / 2, n - 1, n] {
            let mut it = make();
            for _ in 0..k {
                check!(it.next().is_some(), "an iterator gives as much as there is");
            }
            let (lo, hi) = it.size_hint();
            check!(lo <= n - k && hi.map_or(true, |h| h >= n - k), "an iterator promises neither more nor less than is left");
            check!(it.count() == n - k, "an iterator counts what is left");
        }
        check!(make().nth(n - 1).is_some() && make().nth(n).is_none() && make().last().is_some(), "an iterator gives as much as there is");
    }
    fn all<Id: Wide, L: IdType>(g: &dyn GraphLabelTrait<Id, u16, u16, L>, n: usize) {
        let e = n + g.is_directed() as usize;
        many(|| g.node_indices(), n);
        many(|| g.nodes(), n);
        many(|| g.edge_indices(), e);
        many(|| g.edges(), e);
        many(|| g.neighbors_iter(Id::new(130)), n);
        let l = g.get_edge_label_map().len();
        many(|| g.edge_labels(), l);
    }
    let p = dir() + "/g";
    match choose(4) {
        0 => all(&hub::<u16, u16, Directed>(1100).0, 1100),
        1 => all(&hub::<u32, u32, Undirected>(260).0, 260),
        2 => all(&hub::<u16, u32, Undirected>(260).0.into_static(), 260),
        _ => {
            hub::<u16, u32, Directed>(260).0.into_static().dump_mmap(&p).unwrap();
            all(&StaticGraphMmap::<u16, u16, u16, u32>::new(&p), 260)
        }
    }
}
