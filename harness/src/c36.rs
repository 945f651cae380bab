//! The width of the id type and of the label id type makes no difference.
//! checks: wide
//! bound: ids of 16, 32 and 64 bits, label ids of 8 to 64; any 3 ids, 2 operations of any kind on an edge, all pairs of edges for the algorithms and conversions; searches over ids to 1000; graphs of 260 and 270 nodes and as many labels, with one edge anywhere
use crate::util::*;
use crate::wide::*;
use rust_graph::graph_impl::{TypedDiGraphMap, TypedUnGraphMap};

//@ shards=8
#[no_mangle]
pub extern "C" fn c36_history_16() {
    history::<u16, usize, Directed>()
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c36_history_32() {
    history::<u32, u16, Undirected>()
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c36_history_64() {
    history::<usize, u16, Directed>()
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c36_history_64_un() {
    history::<usize, u32, Undirected>()
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c36_algorithms() {
    let ids = three::<usize>();
    let (mut g, mut m) = (TypedDiGraphMap::<usize, u8, u8, u16>::new(), Model::new(true));
    two_edges(&mut g, &mut m, &ids);
    algorithms(&g, &m, &ids);
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c36_algorithms_un() {
    let ids = three::<u32>();
    let (mut g, mut m) = (TypedUnGraphMap::<u32, u8, u8, usize>::new(), Model::new(false));
    two_edges(&mut g, &mut m, &ids);
    algorithms(&g, &m, &ids);
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c36_searches() {
    let ids = spread();
    let (mut g, mut m) = (TypedDiGraphMap::<usize, u8, u8, u16>::new(), Model::new(true));
    two_edges(&mut g, &mut m, &ids);
    if flag() {
        bfs(&g, &m, &ids)
    } else {
        dfs(&g, &m, &ids)
    }
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c36_searches_un() {
    let ids = spread();
    let (mut g, mut m) = (TypedUnGraphMap::<u16, u8, u8, usize>::new(), Model::new(false));
    two_edges(&mut g, &mut m, &ids);
    if flag() {
        bfs(&g, &m, &ids)
    } else {
        dfs(&g, &m, &ids)
    }
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c36_conversions() {
    conversions::<usize, u32, Directed>()
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c36_conversions_un() {
    conversions::<u32, u16, Undirected>()
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c36_hundreds() {
    hundreds::<u16, u16, Directed>(270, choose(4))
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c36_hundreds_un() {
    hundreds::<u32, u32, Undirected>(260, choose(4))
}
/// A node in the middle of hundreds, in every form.
//@ shards=8
#[no_mangle]
pub extern "C" fn c36_hub() {
    middle::<usize, u16, Directed>(270, choose(4));
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c36_hub_un() {
    middle::<u16, usize, Undirected>(260, choose(4));
}
//@ shards=2
#[no_mangle]
pub extern "C" fn c36_equality() {
    match choose(3) {
        0 => equality::<u16, u32, Undirected>(),
        1 => equality::<u32, u16, Directed>(),
        _ => equality::<usize, u8, Undirected>(),
    }
}
/// Hundreds of nodes in several components.
//@ shards=7
#[no_mangle]
pub extern "C" fn c36_parts() {
    match choose(7) {
        0 => broad::<usize, u16, Directed>(270),
        1 => deep::<u16, usize, Undirected>(300),
        2 => linked::<u32, u16, Directed>(270),
        3 => linked::<u16, u16, Undirected>(300),
        4 => split::<usize, u32, Undirected>(270),
        5 => sums::<u32, u32, Directed>(true),
        _ => sums::<usize, u16, Undirected>(false),
    }
}
