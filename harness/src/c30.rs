//! Id types convert without loss.
//! bound: none: every number and every id of (), u8, u16, u32 and usize, also as node of a graph
use crate::util::*;

fn all<I: IdType>(x: usize, y: usize) {
    let max = I::max_usize();
    check!(I::max_value().id() == max, "the last id is that of the largest number");
    check!(I::default().id() == 0, "the default id is the first");
    if x <= max {
        let i = I::new(x);
        check!(i.id() == x, "a number up to the largest comes back from an id");
        check!(I::new(i.id()) == i && i.clone() == i, "an id comes back from its number");
        check!(i <= I::max_value(), "no id is beyond the last");
        if x < max {
            check!(i.increment().id() == x + 1, "increment gives the next id");
        }
        if y <= max {
            let j = I::new(y);
            check!((i == j) == (x == y) && (i < j) == (x < y) && i.cmp(&j) == x.cmp(&y), "ids are in the order of their numbers");
        }
        cover!(x == max);
        cover!(x < max);
    }
}
#[no_mangle]
pub extern "C" fn c30_u8() {
    all::<u8>(u64_() as usize, u64_() as usize);
    check!(<u8 as IdType>::max_usize() == 255, "the largest number is that of the type");
    check!(panics(|| { <u8 as IdType>::max_value().increment(); }), "there is no id after the last");
}
#[no_mangle]
pub extern "C" fn c30_u16() {
    all::<u16>(u64_() as usize, u64_() as usize);
    check!(<u16 as IdType>::max_usize() == 65535, "the largest number is that of the type");
    check!(panics(|| { <u16 as IdType>::max_value().increment(); }), "there is no id after the last");
}
#[no_mangle]
pub extern "C" fn c30_u32() {
    all::<u32>(u64_() as usize, u64_() as usize);
    check!(<u32 as IdType>::max_usize() == 4294967295, "the largest number is that of the type");
    check!(panics(|| { <u32 as IdType>::max_value().increment(); }), "there is no id after the last");
}
#[no_mangle]
pub extern "C" fn c30_usize() {
    all::<usize>(u64_() as usize, u64_() as usize);
    check!(<usize as IdType>::max_usize() == !0, "the largest number is that of the type");
    check!(panics(|| { <usize as IdType>::max_value().increment(); }), "there is no id after the last");
}
#[no_mangle]
pub extern "C" fn c30_void() {
    let x = u64_() as usize;
    check!(<() as IdType>::new(x).id() == 0 && <() as IdType>::max_usize() == 0, "the only id of () is the first");
    check!(<() as IdType>::max_value() == () && ().increment() == (), "the only id of () is also the last");
}
/// Ids go through a graph unchanged, whatever their size.
fn graph<I: IdType>(x: usize, y: usize) {
    assume(x <= I::max_usize() && y <= I::max_usize());
    let mut g = rust_graph::graph_impl::TypedGraphMap::<I, u8, u8, Directed>::new();
    let (i, j) = (I::new(x), I::new(y));
    g.add_edge(i, j, Some(1));
    check!(g.has_node(i) && g.has_node(j) && g.has_edge(i, j), "what was added under an id is found under it");
    check!(g.has_edge(j, i) == (x == y), "edges are told apart by their ids");
    check!(g.neighbors(i).into_owned() == vec![j] && g.in_neighbors(j).into_owned() == vec![i], "neighbours are the ids that were given");
    check!(g.edge_indices().next() == Some((i, j)) && g.edge_indices().count() == 1, "an edge has the ids it was given");
    check!(g.node_indices().all(|n| n.id() == x || n.id() == y), "a node has the id it was given");
    check!(g.max_seen_id().map(|n| n.id()) == Some(x.max(y)), "the largest id is that of the largest number");
    check!(g.max_possible_id().id() == I::max_usize(), "the largest possible id is that of the type");
    cover!(x < y);
    cover!(x > y);
    cover!(x == y);
}
#[no_mangle]
pub extern "C" fn c30_graph() {
    let (x, y) = (u64_() as usize, u64_() as usize);
    match choose(4) {
        0 => graph::<u8>(x, y),
        1 => graph::<u16>(x, y),
        2 => graph::<u32>(x, y),
        _ => graph::<usize>(x, y),
    }
}
