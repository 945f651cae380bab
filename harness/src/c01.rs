//! Insertion: the graph holds what was put in, the latest label wins, the results tell what was new.
//! bound: histories of 3 operations with any u8 ids and labels, of 4 over 2 ids and 2 labels; 3 ids of any 32 and 64 bits; a node among 260 and 1100 neighbours
use crate::util::*;
use crate::wide::*;

fn run<G>(mut g: G, dir: bool, ops: usize, p: &Pool)
where
    G: GraphLabelTrait<u8, u8, u8, u32> + MutGraphTrait<u8, u8, u8, u32>,
{
    let mut m = Model::new(dir);
    for _ in 0..ops {
        if flag() {
            let (n, l) = (p.id(), p.label());
            let new = m.add_node(n, l);
            cover!(!new);
            check!(g.add_node(n, l) == new, "adding a node says whether it is new");
        } else {
            let (s, t, l) = (p.id(), p.id(), p.label());
            let new = m.add_edge(s, t, l);
            cover!(!new);
            cover!(s == t);
            check!(g.add_edge(s, t, l) == new, "adding an edge says whether it is new");
        }
    }
    contents(&g, &m);
    p.pairs(|s, t| nothing_else(&g, &m, s, t));
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c01_di() {
    run(Di::new(), true, 3, &Pool::any())
}
//@ shards=24
#[no_mangle]
pub extern "C" fn c01_un() {
    run(Un::new(), false, 3, &Pool::any())
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c01_di_small() {
    run(Di::new(), true, 4, &Pool::of(2, 2))
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c01_un_small() {
    run(Un::new(), false, 4, &Pool::of(2, 2))
}
/// Wider ids, and the capacities given up front.
//@ shards=4
#[no_mangle]
pub extern "C" fn c01_wide() {
    let mut g = rust_graph::DiGraphMap::<u16, u32>::with_capacity(1, 1, 1);
    let (a, b, c, d) = (u32_(), u32_(), u32_(), u32_());
    let (l, k) = (u16_(), u32_());
    check!(g.add_edge(a, b, Some(k)), "adding an edge says whether it is new");
    let again = a == c && b == d;
    check!(g.add_edge(c, d, None) != again, "adding an edge says whether it is new");
    check!(!g.add_node(a, Some(l)), "adding a node says whether it is new");
    check!(g.get_edge_label(a, b).map(|x| *x) == if again { None } else { Some(k) }, "an edge has the label it was given last");
    check!(g.get_node_label(a).map(|x| *x) == Some(l), "a node has the label it was given last");
    check!(b == a || g.get_node_label(b).is_none(), "a node that an edge brought along has no label");
    let (x, y) = (u32_(), u32_());
    check!(g.has_edge(x, y) == ((x == a && y == b) || (x == c && y == d)), "an edge is found if and only if it was put in");
    check!(g.has_node(x) == (x == a || x == b || x == c || x == d), "a node is found if and only if it was put in");
}
/// A graph made from a list of edges holds those, without labels.
fn listed<G>(make: fn(Vec<(u8, u8)>) -> G, dir: bool)
where
    G: GraphLabelTrait<u8, u8, u8, u32>,
{
    let es = vec![(u8_(), u8_()), (u8_(), u8_()), (u8_(), 5)];
    let mut m = Model::new(dir);
    for &(s, t) in &es {
        m.add_edge(s, t, None);
    }
    let g = make(es);
    contents(&g, &m);
    nothing_else(&g, &m, u8_(), u8_());
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c01_listed_di() {
    listed(|es| Di::from_edges(es), true)
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c01_listed_un() {
    listed(|es| Un::from_edges(es), false)
}
/// Many nodes, and one insertion more.
fn many<G>(mut g: G, dir: bool)
where
    G: GraphLabelTrait<u8, u8, u8, u32> + MutGraphTrait<u8, u8, u8, u32>,
{
    let mut m = Model::new(dir);
    crowd(&mut g, &mut m, 30, 7);
    let (s, l) = (u8_(), [None, Some(3), Some(200)][choose(3) as usize]);
    if flag() {
        let t = [0, 21, 105, 255][choose(4) as usize];
        check!(g.add_edge(s, t, l) == m.add_edge(s, t, l), "adding an edge says whether it is new");
    } else {
        check!(g.add_node(s, l) == m.add_node(s, l), "adding a node says whether it is new");
    }
    contents(&g, &m);
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c01_many_di() {
    many(Di::new(), true)
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c01_many_un() {
    many(Un::new(), false)
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c01_di_long() {
    run(Di::new(), true, 5, &Pool::of(2, 2))
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c01_un_long() {
    run(Un::new(), false, 5, &Pool::of(2, 2))
}
/// Ids of any width.
//@ shards=8
#[no_mangle]
pub extern "C" fn c01_widths() {
    if flag() {
        history::<u32, u16, Directed>()
    } else {
        history::<usize, u16, Undirected>()
    }
}
/// A node in the middle of hundreds.
//@ shards=2
#[no_mangle]
pub extern "C" fn c01_hundreds() {
    if flag() {
        let (g, k) = hub::<u16, u16, Directed>(1100);
        hub_is(&g, 1100, k);
        hub_in(&g, 1100, k);
    } else {
        let (g, k) = hub::<u32, u32, Undirected>(260);
        hub_is(&g, 260, k);
    }
}
