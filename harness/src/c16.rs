//! Breadth-first search: every node once, the start first, level by level.
//! bound: every graph on up to 3 nodes, directed and undirected, and without self-loops on 4 nodes (undirected 5 in thorough), for several sets of ids, with a node removed or not; every start; graph maps, static and mapped graphs; 3 ids to 2000 of 32 and 64 bits; a chain of 100, a star of 164 or 994 and 5 nodes alone, from each of 6 kinds of nodes
use crate::util::*;
use crate::wide::*;
use rust_graph::algorithm::Bfs;
use rust_graph::graph_impl::StaticGraphMmap;

fn walk(seq: &[u8], m: &Model, start: Option<u8>) {
    check!(seq.len() == m.nodes.len(), "as many nodes are visited as there are");
    if let Some(s) = start {
        check!(seq[0] == s, "the start is visited first");
    }
    let mut seen: Vec<u8> = vec![];
    while seen.len() < seq.len() {
        let at = seen.len();
        check!(m.has(seq[at]) && !seen.contains(&seq[at]), "only nodes of the graph are visited, once each");
        let r = reach(m, seq[at], &seen);
        let mut last = 0;
        for k in 0..r.len() {
            check!(at + k < seq.len(), "what can be reached is visited");
            let n = seq[at + k];
            let d = r.iter().find(|x| x.0 == n).map(|x| x.1);
            check!(d.is_some(), "what can be reached is visited before anything else");
            let d = d.unwrap_or(0);
            check!(d >= last, "nearer nodes are visited before farther ones");
            check!(!seen.contains(&n), "no node is visited twice");
            last = d;
            seen.push(n);
        }
        cover!(r.len() > 2 && last > 1);
        cover!(at > 0);
    }
}
fn go<G: GeneralGraph<u8, u8, u8, u32>>(g: &G, m: &Model) {
    let start = match choose(m.nodes.len() as u8 + 1) {
        0 => None,
        k => Some(m.nodes[k as usize - 1].0),
    };
    let mut b = Bfs::new(g, start);
    let mut seq = vec![];
    while let Some(n) = b.next() {
        seq.push(n);
        check!(seq.len() <= m.nodes.len(), "the search ends");
    }
    check!(b.next().is_none(), "a search that is over stays over");
    walk(&seq, m, start);
}
/// A node that was there once.
fn once<G: MutGraphTrait<u8, u8, u8, u32>>(g: &mut G, ids: &[u8]) {
    let x = [200, 255, ids[0] + 1][choose(3) as usize];
    if !ids.contains(&x) {
        g.add_edge(x, ids[0], None);
        g.add_edge(ids[0], x, None);
        g.remove_node(x);
    }
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c16_di() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    let ids = some_ids(choose(3));
    shape(&mut g, &mut m, &ids[..1 + choose(3) as usize], true, no_label);
    go(&g, &m);
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c16_un() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    let ids = some_ids(choose(3));
    shape(&mut g, &mut m, &ids[..1 + choose(3) as usize], true, no_label);
    go(&g, &m);
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c16_di4() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    shape(&mut g, &mut m, &some_ids(1)[..4], false, no_label);
    go(&g, &m);
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c16_un4() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    shape(&mut g, &mut m, &some_ids(choose(3))[..4], false, no_label);
    go(&g, &m);
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c16_removed() {
    let ids = &some_ids(3)[..3];
    if flag() {
        let (mut g, mut m) = (Di::new(), Model::new(true));
        if flag() {
            once(&mut g, ids);
        }
        shape(&mut g, &mut m, ids, false, no_label);
        if flag() {
            once(&mut g, ids);
            g.remove_node(ids[1]);
            m.remove_node(ids[1]);
        }
        go(&g, &m);
    } else {
        let (mut g, mut m) = (Un::new(), Model::new(false));
        shape(&mut g, &mut m, ids, false, no_label);
        once(&mut g, ids);
        g.remove_edge(ids[0], ids[2]);
        m.remove_edge(ids[0], ids[2]);
        go(&g, &m);
    }
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c16_static() {
    let n = 1 + choose(3) as usize;
    let p = dir() + "/g";
    let (a, b) = (flag(), flag());
    if a {
        let (mut g, mut m) = (Di::new(), Model::new(true));
        shape(&mut g, &mut m, &some_ids(0)[..n], n < 3, no_label);
        let g = g.into_static();
        if b {
            g.dump_mmap(&p).unwrap();
            go(&StaticGraphMmap::new(&p), &m);
        } else {
            go(&g, &m);
        }
    } else {
        let (mut g, mut m) = (Un::new(), Model::new(false));
        shape(&mut g, &mut m, &some_ids(0)[..n], true, no_label);
        let g = g.into_static();
        if b {
            g.dump_mmap(&p).unwrap();
            go(&StaticGraphMmap::new(&p), &m);
        } else {
            go(&g, &m);
        }
    }
}
/// What there is no search of.
#[no_mangle]
pub extern "C" fn c16_refuse() {
    let mut g = Di::new();
    let k = choose(3);
    for i in 0..k {
        g.add_edge(3 * i, 3 * i + 1, None);
    }
    let s = u8_();
    let no = panics(|| { Bfs::new(&g, Some(s)); });
    check!(no != g.has_node(s), "a start that is not there is refused, and no other");
    check!(panics(|| { Bfs::new(&g, None); }) == (k == 0), "an empty graph is refused, and no other");
    if k > 0 {
        g.remove_node(0);
        g.remove_node(1);
        check!(panics(|| { Bfs::new(&g, None); }) == (k == 1), "a graph that has become empty is refused");
    }
}
/// Ids of another width.
#[no_mangle]
pub extern "C" fn c16_wide() {
    let x = 300 + (u8_() as u32 & 1);
    let x = conc(x as u64) as u32;
    let mut g = rust_graph::DiGraphMap::<u8, u8>::new();
    g.add_edge(x, 70000, None);
    g.add_edge(70000, 5, None);
    g.add_node(6, None);
    let v: Vec<u32> = Bfs::new(&g, Some(x)).collect();
    check!(v == vec![x, 70000, 5, 6], "every node is visited, level by level");
}
//@ shards=16 tier=thorough
#[no_mangle]
pub extern "C" fn c16_un5() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    shape(&mut g, &mut m, &some_ids(1 + choose(2)), false, no_label);
    go(&g, &m);
}
//@ shards=16 tier=thorough
#[no_mangle]
pub extern "C" fn c16_di4_loops() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    shape(&mut g, &mut m, &some_ids(2)[..4], true, no_label);
    go(&g, &m);
}
/// Many nodes in several components, or all next to one; from any node.
//@ shards=8
#[no_mangle]
pub extern "C" fn c16_many() {
    let stride = [1, 7][choose(2) as usize];
    let all = flag();
    if flag() {
        let (mut g, mut m) = (Di::new(), Model::new(true));
        if all { crowd(&mut g, &mut m, 20, stride) } else { towns(&mut g, &mut m, stride) }
        go(&g, &m);
    } else {
        let (mut g, mut m) = (Un::new(), Model::new(false));
        if all { crowd(&mut g, &mut m, 20, stride) } else { towns(&mut g, &mut m, stride) }
        go(&g, &m);
    }
}
/// Ids of any width.
//@ shards=8
#[no_mangle]
pub extern "C" fn c16_widths() {
    use rust_graph::graph_impl::{TypedDiGraphMap, TypedUnGraphMap};
    if flag() {
        let ids = spread::<u32>();
        let (mut g, mut m) = (TypedDiGraphMap::<u32, u8, u8, u16>::new(), Model::new(true));
        two_edges(&mut g, &mut m, &ids);
        bfs(&g, &m, &ids);
    } else {
        let ids = spread::<usize>();
        let (mut g, mut m) = (TypedUnGraphMap::<usize, u8, u8, u16>::new(), Model::new(false));
        two_edges(&mut g, &mut m, &ids);
        bfs(&g, &m, &ids);
    }
}
/// A chain of a hundred, a star of many, and nodes on their own.
//@ shards=2
#[no_mangle]
pub extern "C" fn c16_hundreds() {
    if flag() {
        broad::<u16, u16, Directed>(1100);
    } else {
        broad::<u32, u32, Undirected>(270);
    }
}
