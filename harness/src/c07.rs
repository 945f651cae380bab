//! Equality of graphs is equality of content; equal graphs feed a hasher the same.
//! bound: pairs of graphs built in up to 2 insertions each over any 2 ids and 2 labels (3 in thorough); static graphs over 2 nodes; 2 edges over 4 ids of any 16, 32 and 64 bits
use crate::util::*;
use crate::wide::*;
use std::hash::{Hash, Hasher};

/// A hasher that keeps what it is fed.
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn tape<T: Hash>(x: &T) -> Vec<u8> {
    let mut t = Tape(vec![]);
    x.hash(&mut t);
    t.0
}
fn equal(a: &Model, b: &Model) -> bool {
    a.dir == b.dir
        && a.nodes.len() == b.nodes.len()
        && a.edges.len() == b.edges.len()
        && a.nodes.iter().all(|x| b.has(x.0) && b.node_label(x.0) == x.1)
        && a.edges.iter().all(|x| b.adj(x.0, x.1) && b.edge_label(x.0, x.1) == x.2)
}
fn op<G: MutGraphTrait<u8, u8, u8, u32> + ?Sized>(g: &mut G, m: &mut Model, p: &Pool, kinds: u8) {
    match choose(kinds) {
        0 => {
            let (s, t, l) = (p.id(), p.id(), p.label());
            g.add_edge(s, t, l);
            m.add_edge(s, t, l);
        }
        1 => {
            let (n, l) = (p.id(), p.label());
            g.add_node(n, l);
            m.add_node(n, l);
        }
        _ => {}
    }
}
fn eq<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}
fn compare<T: PartialEq + Hash>(a: &T, b: &T, ma: &Model, mb: &Model) {
    let e = equal(ma, mb);
    cover!(e);
    cover!(!e);
    check!((a == b) == e, "graphs are equal if and only if their contents are");
    check!((b == a) == e, "equality is the same the other way round");
    check!(a == a && b == b, "a graph equals itself");
    if e {
        check!(tape(a) == tape(b), "equal graphs hash alike");
    }
}
//@ shards=32
#[no_mangle]
pub extern "C" fn c07_di() {
    let p = Pool::of(2, 1);
    let (mut a, mut ma, mut b, mut mb) = (Di::new(), Model::new(true), Di::new(), Model::new(true));
    for _ in 0..2 {
        op(&mut a, &mut ma, &p, 2);
    }
    for _ in 0..2 {
        op(&mut b, &mut mb, &p, 3);
    }
    compare(&a, &b, &ma, &mb);
}
//@ shards=32
#[no_mangle]
pub extern "C" fn c07_un() {
    let p = Pool::of(2, 1);
    let (mut a, mut ma, mut b, mut mb) = (Un::new(), Model::new(false), Un::new(), Model::new(false));
    for _ in 0..2 {
        op(&mut a, &mut ma, &p, 2);
    }
    for _ in 0..2 {
        op(&mut b, &mut mb, &p, 3);
    }
    compare(&a, &b, &ma, &mb);
}
/// Any ids and labels, fewer of them.
//@ shards=16
#[no_mangle]
pub extern "C" fn c07_any() {
    let p = Pool::any();
    let (mut a, mut ma, mut b, mut mb) = (Un::new(), Model::new(false), Un::new(), Model::new(false));
    op(&mut a, &mut ma, &p, 2);
    op(&mut a, &mut ma, &p, 3);
    op(&mut b, &mut mb, &p, 2);
    compare(&a, &b, &ma, &mb);
}
/// The same content put in in two orders, so that labels get other ids.
//@ shards=8
#[no_mangle]
pub extern "C" fn c07_order() {
    let (k, l, x, y) = (u8_(), u8_(), u8_(), u8_());
    let mut a = Di::new();
    a.add_node(x, Some(k));
    a.add_node(y, Some(l));
    a.add_edge(x, y, Some(k));
    a.add_edge(y, x, Some(l));
    let mut b = Di::new();
    if x != y {
        b.add_edge(y, x, Some(l));
        b.add_edge(x, y, Some(k));
        b.add_node(y, Some(l));
        b.add_node(x, Some(k));
    } else {
        b.add_edge(x, x, Some(l));
        b.add_node(x, Some(l));
    }
    check!(a == b && b == a, "the order of insertion does not matter");
    check!(tape(&a) == tape(&b), "the order of insertion does not matter to the hash");
    let c = a.clone();
    check!(c == a && tape(&c) == tape(&a), "a clone equals its original");
    b.remove_edge(x, y);
    check!(a != b && b != a, "a graph with an edge less is another");
    b.add_edge(x, y, Some(if x == y { l } else { k }));
    check!(a == b, "a graph with the edge back is the same");
    let z = u8_();
    assume(z != x && z != y);
    b.add_node(z, None);
    check!(a != b && b != a, "a graph with a node more is another");
    b.remove_node(z);
    check!(a == b && tape(&a) == tape(&b), "a graph with the node gone is the same");
}
fn fixed(m: &mut Model, g: &mut dyn MutGraphTrait<u8, u8, u8, u32>) {
    // 2 nodes, labels and an edge or two: the shapes static graphs can have
    for i in 0..2u8 {
        let l = opt(3);
        g.add_node(i, l);
        m.add_node(i, l);
    }
    for &(s, t) in &[(0, 1), (1, 1)] {
        if flag() {
            let l = opt(3);
            g.add_edge(s, t, l);
            m.add_edge(s, t, l);
        }
    }
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c07_static_di() {
    let (mut a, mut ma, mut b, mut mb) = (Di::new(), Model::new(true), Di::new(), Model::new(true));
    fixed(&mut ma, &mut a);
    fixed(&mut mb, &mut b);
    compare(&a.into_static(), &b.into_static(), &ma, &mb);
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c07_static_un() {
    let (mut a, mut ma, mut b, mut mb) = (Un::new(), Model::new(false), Un::new(), Model::new(false));
    fixed(&mut ma, &mut a);
    fixed(&mut mb, &mut b);
    compare(&a.into_static(), &b.into_static(), &ma, &mb);
}
/// Static graphs of different size.
//@ shards=8
#[no_mangle]
pub extern "C" fn c07_static_size() {
    let (mut a, mut ma, mut b, mut mb) = (Di::new(), Model::new(true), Di::new(), Model::new(true));
    for (g, m) in vec![(&mut a, &mut ma), (&mut b, &mut mb)] {
        for i in 0..choose(4) {
            g.add_node(i, None);
            m.add_node(i, None);
            if flag() {
                g.add_edge(i, 0, None);
                m.add_edge(i, 0, None);
            }
        }
    }
    compare(&a.into_static(), &b.into_static(), &ma, &mb);
}
type Boxed = Box<dyn GeneralGraph<u8, u8, u8, u32>>;
fn boxed(dir: bool) -> Boxed {
    rust_graph::graph_impl::graph_map::new_general_graphmap(dir)
}
//@ shards=32
#[no_mangle]
pub extern "C" fn c07_boxed() {
    let p = Pool::of(2, 1);
    let (da, db) = (flag(), flag());
    let (mut a, mut ma, mut b, mut mb) = (boxed(da), Model::new(da), boxed(db), Model::new(db));
    op(a.as_mut_graph().unwrap(), &mut ma, &p, 2);
    op(a.as_mut_graph().unwrap(), &mut ma, &p, 3);
    op(b.as_mut_graph().unwrap(), &mut mb, &p, 2);
    compare(&a, &b, &ma, &mb);
    if flag() {
        let z = u8_();
        assume(!mb.has(z));
        let g = b.as_mut_graph().unwrap();
        g.add_edge(z, z, Some(9));
        g.remove_node(z);
        check!(eq(&a, &b) == equal(&ma, &mb) && (!eq(&a, &b) || tape(&a) == tape(&b)), "what was there once makes no difference");
    }
    let c = a.clone();
    check!(eq(&c, &a) && eq(&a, &c), "a cloned general graph equals its original");
    check!(tape(&c) == tape(&a), "a cloned general graph hashes like its original");
    check!(c.is_directed() == da && c.node_count() == ma.nodes.len() && c.edge_count() == ma.edges.len(), "a cloned general graph is of the same kind and size");
}
/// A static graph in a box equals the graph map it was made from.
//@ shards=8
#[no_mangle]
pub extern "C" fn c07_boxed_static() {
    let d = flag();
    let mut m = Model::new(d);
    let (a, s): (Boxed, Boxed) = if d {
        let mut g = Di::new();
        fixed(&mut m, &mut g);
        (Box::new(g.clone()), Box::new(g.into_static()))
    } else {
        let mut g = Un::new();
        fixed(&mut m, &mut g);
        (Box::new(g.clone()), Box::new(g.into_static()))
    };
    compare(&a, &s, &m, &m);
    let c = s.clone();
    check!(eq(&c, &s) && eq(&c, &a), "a clone of a static graph equals it");
    let mut mb = Model::new(d);
    let mut b = boxed(d);
    fixed(&mut mb, b.as_mut_graph().unwrap());
    compare(&s, &b, &m, &mb);
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c07_un_long() {
    let p = Pool::of(2, 2);
    let (mut a, mut ma, mut b, mut mb) = (Un::new(), Model::new(false), Un::new(), Model::new(false));
    for _ in 0..2 {
        op(&mut a, &mut ma, &p, 2);
    }
    for _ in 0..3 {
        op(&mut b, &mut mb, &p, 3);
    }
    compare(&a, &b, &ma, &mb);
}
/// Many nodes and edges put in in two orders, and one change.
fn many<G>(mut a: G, mut b: G, dir: bool, n: u8)
where
    G: GraphLabelTrait<u8, u8, u8, u32> + MutGraphTrait<u8, u8, u8, u32> + PartialEq + Hash,
{
    let mut m = Model::new(dir);
    crowd(&mut a, &mut m, n, 7);
    if flag() {
        m.nodes.reverse();
        m.edges.reverse();
    }
    for &(s, t, l) in &m.edges {
        if dir {
            b.add_edge(s, t, l);
        } else {
            b.add_edge(t, s, l);
        }
    }
    for &(n, l) in &m.nodes {
        b.add_node(n, l);
    }
    if flag() {
        // what was there once
        b.add_edge(251, 7, Some(199));
        b.remove_node(251);
    }
    let mut k = m.clone();
    match choose(5) {
        0 => {}
        1 => {
            let (s, l) = (u8_(), [None, Some(3), Some(200)][choose(3) as usize]);
            b.add_edge(s, 7, l);
            k.add_edge(s, 7, l);
        }
        2 => {
            let (s, l) = (u8_(), [None, Some(3), Some(200)][choose(3) as usize]);
            b.add_node(s, l);
            k.add_node(s, l);
        }
        3 => {
            let s = u8_();
            b.remove_edge(s, 7);
            k.remove_edge(s, 7);
        }
        _ => {
            let s = u8_();
            b.remove_node(s);
            k.remove_node(s);
        }
    }
    compare(&a, &b, &m, &k);
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c07_many_di() {
    many(Di::new(), Di::new(), true, 16)
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c07_many_un() {
    many(Un::new(), Un::new(), false, 16)
}
/// Ids of any width.
//@ shards=4
#[no_mangle]
pub extern "C" fn c07_widths() {
    match choose(3) {
        0 => equality::<u16, u32, Undirected>(),
        1 => equality::<u32, u16, Directed>(),
        _ => equality::<usize, u8, Undirected>(),
    }
}
