//! Empty and complete graphs are what they say.
//! bound: 0 to 3 nodes (7 unlabelled; 20, 40 and 300 with draws all low, high or in the middle), up to 2 node and 2 edge labels of any u8, the same or different, drawn in every way; ids u8, u16, u32, usize; labels u8, String, ()
use crate::util::*;
use rust_graph::graph_gen::helper::complete_edge_pairs;
use rust_graph::graph_gen::{complete_graph, complete_graph_unlabeled, empty_graph, empty_graph_unlabeled};
use std::hash::Hash;

fn empty<I: IdType, N: Hash + Eq + Clone, E: Hash + Eq + Clone, Ty: GraphType>(n: usize, nl: &[N], el: &[E]) {
    let g = empty_graph::<I, N, E, Ty>(n, nl.to_vec(), el.to_vec());
    check!(made(&g, n, nl, el).is_empty(), "an empty graph has no edge");
    cover!(n > 0);
}
fn full<I: IdType, N: Hash + Eq + Clone, E: Hash + Eq + Clone, Ty: GraphType>(n: usize, nl: &[N], el: &[E]) {
    let g = complete_graph::<I, N, E, Ty>(n, nl.to_vec(), el.to_vec());
    check!(made(&g, n, nl, el).len() == pairs::<Ty>(n), "a complete graph has an edge between any two different nodes");
    cover!(n > 0);
}
/// Which nodes carry labels does not hang on edges: all of both.
//@ shards=16
#[no_mangle]
pub extern "C" fn c29_empty() {
    let n = choose(5) as usize;
    let (nl, el) = (few(2), few(2));
    if flag() {
        empty::<u8, u8, u8, Directed>(n, &nl, &el)
    } else {
        empty::<u32, u8, u8, Undirected>(n, &nl, &el)
    }
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c29_di() {
    full::<u8, u8, u8, Directed>(choose(4) as usize, &few(1), &few(2))
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c29_un() {
    full::<u16, u8, u8, Undirected>(choose(4) as usize, &few(2), &few(2))
}
#[no_mangle]
pub extern "C" fn c29_text() {
    let (a, b) = (text(), text());
    full::<u32, String, (), Undirected>(2, &[a.clone()], &[()]);
    full::<usize, (), String, Directed>(2, &[()], &[b, a]);
}
/// Larger, without labels.
#[no_mangle]
pub extern "C" fn c29_plain() {
    for n in 0..8 {
        let g = complete_graph_unlabeled::<u8, u8, u8, Directed>(n);
        check!(made(&g, n, &[], &[]).len() == pairs::<Directed>(n), "a complete graph has an edge between any two different nodes");
        let g = complete_graph_unlabeled::<u32, u8, String, Undirected>(n);
        check!(made(&g, n, &[], &[]).len() == pairs::<Undirected>(n), "a complete graph has an edge between any two different nodes");
        let g = empty_graph_unlabeled::<usize, String, u8, Directed>(n);
        check!(made(&g, n, &[], &[]).is_empty(), "an empty graph has no edge");
        let g = empty_graph_unlabeled::<u16, u8, u8, Undirected>(n);
        check!(made(&g, n, &[], &[]).is_empty(), "an empty graph has no edge");
    }
    // any id there is
    let g = empty_graph_unlabeled::<u8, u8, u8, Undirected>(256);
    check!(g.node_count() == 256 && g.has_node(255) && g.edge_count() == 0, "there are as many nodes as asked for");
}
/// The pairs a complete graph is made of.
#[no_mangle]
pub extern "C" fn c29_pairs() {
    for n in 0..7 {
        let d: Vec<(usize, usize)> = complete_edge_pairs::<Directed>(n).collect();
        let u: Vec<(usize, usize)> = complete_edge_pairs::<Undirected>(n).collect();
        check!(d.len() == pairs::<Directed>(n) && u.len() == pairs::<Undirected>(n), "there are as many pairs as of different nodes");
        for i in 0..n {
            for j in 0..n {
                check!(d.contains(&(i, j)) == (i != j), "every ordered pair of different nodes is there");
                check!((u.contains(&(i, j)) || u.contains(&(j, i))) == (i != j), "every pair of different nodes is there");
            }
        }
    }
}
/// More nodes and labels, for draws that are all low, high or in the middle.
//@ shards=4
#[no_mangle]
pub extern "C" fn c29_large() {
    steady(1 + choose(3));
    let (nl, el) = [(0, 0), (300, 3), (3, 300)][choose(3) as usize];
    let (a, b): (Vec<u16>, Vec<u16>) = ((0..nl).collect(), (0..el).collect());
    match choose(3) {
        0 => {
            let g = complete_graph::<u16, u16, u16, Directed>(20, a, b);
            check!(made_large(&g, 20, nl, el) == 380, "a complete graph has an edge between any two different nodes");
        }
        1 => {
            let g = complete_graph::<u32, u16, u16, Undirected>(40, a, b);
            check!(made_large(&g, 40, nl, el) == 780, "a complete graph has an edge between any two different nodes");
        }
        _ => {
            let g = empty_graph::<u16, u16, u16, Undirected>(300, a, b);
            check!(g.edge_count() == 0 && g.node_count() == 300 && (0..300).all(|i| g.has_node(i)), "an empty graph has no edge");
            check!((0..300).all(|i| g.get_node_label(i).map_or(nl == 0, |l| *l < nl)), "a node has one of the labels given, if any are");
        }
    }
}
