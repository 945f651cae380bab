//! Connected components: two nodes are in one exactly if a path joins them, whatever was asked in between.
//! bound: 3 edges over any 4 u8 ids (3 and 4 over any in thorough), 4 edges over 5 nodes (5 in thorough) in any order with a query after each; every graph on up to 3 nodes, undirected on 4, static and mapped ones included; 3 ids of any 32 and 64 bits; a chain of 100, a star of 164 or 194 and 5 nodes alone
use crate::util::*;
use crate::wide::*;
use rust_graph::algorithm::ConnComp;
use rust_graph::graph_impl::{Edge, StaticGraphMmap};

/// Joined by a path, whichever way the edges point.
fn joined(m: &Model, s: u8, t: u8) -> bool {
    let mut u = m.clone();
    u.dir = false;
    m.has(s) && m.has(t) && reach(&u, s, &[]).iter().any(|x| x.0 == t)
}
fn parts(m: &Model) -> usize {
    (0..m.nodes.len()).filter(|&i| !(0..i).any(|j| joined(m, m.nodes[i].0, m.nodes[j].0))).count()
}
fn pair(c: &ConnComp<u8>, m: &Model, s: u8, t: u8) {
    let j = joined(m, s, t);
    check!(c.is_connected(s, t) == j, "two nodes are connected if and only if a path joins them");
    check!(c.get_root(s).is_some() == m.has(s), "a node has a root if and only if it is there");
    check!((m.has(s) && m.has(t) && c.get_root(s) == c.get_root(t)) == j, "two nodes have one root if and only if a path joins them");
    check!(c.get_parent(s).is_some() == m.has(s) && c.parent().contains_key(&s) == m.has(s), "a node has a parent if and only if it is there");
}
fn all(c: &ConnComp<u8>, m: &Model, s: u8, t: u8) {
    check!(c.get_count() == parts(m), "as many components are counted as there are");
    check!(c.parent().len() == m.nodes.len(), "every node has one parent");
    pair(c, m, s, t);
    for &(n, _) in &m.nodes {
        let v: Vec<u8> = m.nodes.iter().map(|x| x.0).filter(|&x| joined(m, n, x)).collect();
        let got = c.get_connected_nodes(n);
        check!(got.is_some(), "a node that is there has a component");
        check!(same(&got.unwrap_or(vec![]), &v), "a component is what paths join");
        let r = c.get_root(n).unwrap();
        check!(v.contains(&r) && c.get_root(r) == Some(r), "the root of a component is in it, and its own");
        for &(k, _) in &m.nodes {
            pair(c, m, n, k);
        }
    }
    check!(c.get_connected_nodes(s).is_some() == m.has(s), "a node has a component if and only if it is there");
    check!(c.get_count() == parts(m), "queries change nothing");
}
fn feed(c: &mut ConnComp<u8>, m: &mut Model, s: u8, t: u8) {
    c.process_new_edge(&Edge::<u8, u8>::new(s, t, None));
    m.add_edge(s, t, None);
    check!(c.get_count() == parts(m), "an edge joins two components if they are two");
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c18_any() {
    let (mut c, mut m) = (ConnComp::empty(), Model::new(true));
    let ids = [u8_(), u8_(), u8_(), u8_()];
    feed(&mut c, &mut m, ids[0], ids[1]);
    feed(&mut c, &mut m, ids[2], ids[3]);
    feed(&mut c, &mut m, ids[choose(4) as usize], ids[choose(4) as usize]);
    all(&c, &m, u8_(), ids[0]);
}
/// `k` edges between `n` nodes, the first one at node 0, a query before each.
fn order(k: usize, n: u8) {
    let (mut c, mut m) = (ConnComp::<u8>::with_capacity(2), Model::new(true));
    let ids = [7, 3, 255, 0, 9, 8];
    for i in 0..k {
        if i > 1 {
            c.get_root(ids[choose(n) as usize]);
        }
        let s = ids[if i == 0 { 0 } else { choose(n) as usize }];
        let t = ids[choose(n) as usize];
        feed(&mut c, &mut m, s, t);
    }
    all(&c, &m, 7, 1);
    c.reset();
    all(&c, &Model::new(true), 7, 7);
    check!(c.get_count() == 0, "nothing is left after a reset");
    c.process_new_edge(&Edge::<u8, u8>::new(7, 9, None));
    check!(c.is_connected(9, 7) && c.get_count() == 1, "components are found after a reset");
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c18_order() {
    order(3, 4)
}
/// Trees of any shape grown by joining roots: paths of any length to halve.
//@ shards=16
#[no_mangle]
pub extern "C" fn c18_trees() {
    let (mut c, mut m) = (ConnComp::empty(), Model::new(true));
    let perm = choose(2);
    for i in 0..5u8 {
        let (s, t) = (choose(i + 1), i + 1);
        if perm == 0 {
            feed(&mut c, &mut m, s, t)
        } else {
            feed(&mut c, &mut m, t, s)
        }
    }
    let q = choose(6);
    c.get_root(q);
    c.is_connected(5, q);
    all(&c, &m, q, 6);
}
fn go<G: GeneralGraph<u8, u8, u8, u32>>(g: &G, m: &Model) {
    let mut c = ConnComp::new(g);
    all(&c, m, u8_(), m.nodes.first().map(|x| x.0).unwrap_or(0));
    c.run_detection(g);
    check!(c.get_count() == parts(m), "detecting again changes nothing");
    let mut m = m.clone();
    let (s, t) = (m.nodes.last().map(|x| x.0).unwrap_or(1), 77);
    feed(&mut c, &mut m, s, t);
    all(&c, &m, s, t);
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c18_di() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    let n = choose(4) as usize;
    shape(&mut g, &mut m, &some_ids(2)[..n], n < 3, no_label);
    go(&g, &m);
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c18_un() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    let n = choose(5) as usize;
    shape(&mut g, &mut m, &some_ids(1)[..n], n < 4, no_label);
    go(&g, &m);
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c18_static() {
    let n = choose(4) as usize;
    let p = dir() + "/g";
    let b = flag();
    if flag() {
        let (mut g, mut m) = (Di::new(), Model::new(true));
        shape(&mut g, &mut m, &some_ids(0)[..n], n < 3, no_label);
        let g = g.into_static();
        if b {
            g.dump_mmap(&p).unwrap();
            go(&StaticGraphMmap::new(&p), &m);
        } else {
            go(&g, &m);
        }
    } else {
        let (mut g, mut m) = (Un::new(), Model::new(false));
        shape(&mut g, &mut m, &some_ids(0)[..n], true, no_label);
        let g = g.into_static();
        if b {
            g.dump_mmap(&p).unwrap();
            go(&StaticGraphMmap::new(&p), &m);
        } else {
            go(&g, &m);
        }
    }
}
/// After removals only what is left counts.
#[no_mangle]
pub extern "C" fn c18_removed() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    shape(&mut g, &mut m, &some_ids(3)[..3], false, no_label);
    let x = some_ids(3)[choose(3) as usize];
    g.remove_node(x);
    m.remove_node(x);
    go(&g, &m);
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c18_order_long() {
    order(4, 5)
}
//@ shards=32 tier=thorough
#[no_mangle]
pub extern "C" fn c18_any4() {
    let (mut c, mut m) = (ConnComp::empty(), Model::new(true));
    for _ in 0..4 {
        feed(&mut c, &mut m, u8_(), u8_());
    }
    all(&c, &m, u8_(), u8_());
}
//@ shards=32 tier=thorough
#[no_mangle]
pub extern "C" fn c18_any3() {
    let (mut c, mut m) = (ConnComp::empty(), Model::new(true));
    for _ in 0..3 {
        feed(&mut c, &mut m, u8_(), u8_());
    }
    all(&c, &m, u8_(), u8_());
}
/// Many nodes in several components, edges in several orders, and one edge more.
//@ shards=4
#[no_mangle]
pub extern "C" fn c18_many() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    let stride = [1, 7][choose(2) as usize];
    towns(&mut g, &mut m, stride);
    let mut c = match choose(3) {
        0 => ConnComp::new(&g),
        k => {
            let mut c = ConnComp::empty();
            let mut es = m.edges.clone();
            if k == 2 {
                es.reverse()
            }
            m = Model::new(true);
            for (s, t, _) in es {
                c.process_new_edge(&Edge::<u8, u8>::new(s, t, None));
                m.add_edge(s, t, None);
            }
            c
        }
    };
    let (s, t) = (u8_(), stride.wrapping_mul(14));
    c.process_new_edge(&Edge::<u8, u8>::new(s, t, None));
    m.add_edge(s, t, None);
    let mut u = m.clone();
    u.dir = false;
    let mut left: Vec<u8> = m.nodes.iter().map(|x| x.0).collect();
    let mut parts = 0;
    while let Some(&n) = left.first() {
        let part: Vec<u8> = reach(&u, n, &[]).into_iter().map(|x| x.0).collect();
        check!(same(&c.get_connected_nodes(n).unwrap_or(vec![]), &part), "a component is what paths join");
        let r = c.get_root(n);
        check!(r.map_or(false, |r| part.contains(&r)), "the root of a component is in it");
        for &k in &part {
            check!(c.get_root(k) == r && c.is_connected(n, k), "the nodes of a component have one root");
        }
        left.retain(|x| !part.contains(x));
        if let Some(&o) = left.first() {
            check!(!c.is_connected(n, o) && c.get_root(o) != r, "components have roots of their own");
        }
        parts += 1;
    }
    check!(c.get_count() == parts, "as many components are counted as there are");
}
/// Ids of any width.
//@ shards=8
#[no_mangle]
pub extern "C" fn c18_widths() {
    use rust_graph::graph_impl::{TypedDiGraphMap, TypedUnGraphMap};
    if flag() {
        let ids = three::<u32>();
        let (mut g, mut m) = (TypedDiGraphMap::<u32, u8, u8, u16>::new(), Model::new(true));
        two_edges(&mut g, &mut m, &ids);
        components(&g, &m, &ids);
    } else {
        let ids = three::<usize>();
        let (mut g, mut m) = (TypedUnGraphMap::<usize, u8, u8, u16>::new(), Model::new(false));
        two_edges(&mut g, &mut m, &ids);
        components(&g, &m, &ids);
    }
}
/// A chain of a hundred, a star of many, and nodes on their own.
//@ shards=2
#[no_mangle]
pub extern "C" fn c18_hundreds() {
    if flag() {
        linked::<u16, u16, Directed>(300);
    } else {
        linked::<u32, u32, Undirected>(270);
    }
}
