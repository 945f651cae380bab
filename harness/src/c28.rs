//! Random graphs keep their parameters for every draw.
//! bound: up to 4 nodes undirected and 3 directed (4 with few or most edges) and any number of edges up to one too many, p among 0, 1/4, 1/2, 3/4, 1 and outside; every outcome of the draws (fractions among 0, 1/4, 1/2, 1-2^-24); up to 2 node or edge labels of any u8 for up to 3 nodes; 20 and 40 nodes and up to all edges with draws all low, high or in the middle
use crate::util::*;
use rust_graph::graph_gen::{random_gnm_graph, random_gnm_graph_unlabeled, random_gnp_graph, random_gnp_graph_unlabeled};
use std::hash::Hash;

fn gnm<I: IdType, N: Hash + Eq + Clone, E: Hash + Eq + Clone, Ty: GraphType>(n: usize, m: usize, nl: &[N], el: &[E]) {
    let make = || random_gnm_graph::<I, N, E, Ty>(n, m, nl.to_vec(), el.to_vec());
    if m > pairs::<Ty>(n) {
        check!(panics(|| { make(); }), "more edges than there can be are refused");
        cover!();
    } else {
        check!(made(&make(), n, nl, el).len() == m, "there are as many edges as asked for");
        cover!(m > 0);
    }
}
fn gnp<I: IdType, N: Hash + Eq + Clone, E: Hash + Eq + Clone, Ty: GraphType>(n: usize, p: f32, nl: &[N], el: &[E]) {
    let make = || random_gnp_graph::<I, N, E, Ty>(n, p, nl.to_vec(), el.to_vec());
    if p < 0.0 || p > 1.0 {
        check!(panics(|| { make(); }), "a probability out of range is refused");
        cover!();
    } else {
        let k = made(&make(), n, nl, el).len();
        check!(p != 0.0 || k == 0, "there is no edge of probability 0");
        check!(p != 1.0 || k == pairs::<Ty>(n), "every edge of probability 1 is there");
        cover!(k > 0 && k < pairs::<Ty>(n));
    }
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c28_gnm_un() {
    gnm::<u8, u8, u8, Undirected>(choose(5) as usize, choose(8) as usize, &[], &[])
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c28_gnm_di() {
    let n = choose(4) as usize;
    gnm::<u32, u8, u8, Directed>(n, choose(8) as usize, &[], &[])
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c28_gnm_di4() {
    let m = [0, 1, 10, 11, 12, 13, 1000][choose(7) as usize];
    gnm::<usize, u8, u8, Directed>(4, m, &[], &[])
}
fn some_p() -> f32 {
    [0.0, 1.0, 0.25, 0.5, 0.75, 1e-7, 0.9999999, -0.0, -1e-7, 1.0000001, -1.0, 2.0, 1e30, -1e30][choose(14) as usize]
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c28_gnp_un() {
    gnp::<u8, u8, u8, Undirected>(choose(5) as usize, some_p(), &[], &[])
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c28_gnp_di() {
    gnp::<u16, u8, u8, Directed>(choose(4) as usize, some_p(), &[], &[])
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c28_labels() {
    let (nl, el) = match choose(3) {
        0 => (few(2), vec![]),
        1 => (vec![], few(2)),
        _ => (few(1), few(1)),
    };
    match choose(4) {
        0 => gnm::<u8, u8, u8, Undirected>(3, 2, &nl, &el),
        1 => gnm::<u8, u8, u8, Directed>(2, 2, &nl, &el),
        2 => gnp::<u8, u8, u8, Undirected>(3, 0.5, &nl, &el),
        _ => gnp::<u8, u8, u8, Directed>(2, 0.5, &nl, &el),
    }
}
#[no_mangle]
pub extern "C" fn c28_plain() {
    match choose(5) {
        0 => {
            let g = random_gnm_graph_unlabeled::<u32, u8, String, Directed>(3, 2);
            check!(made(&g, 3, &[], &[]).len() == 2, "there are as many edges as asked for");
        }
        1 => {
            let g = random_gnm_graph_unlabeled::<u8, String, u8, Undirected>(3, 1);
            check!(made(&g, 3, &[], &[]).len() == 1, "there are as many edges as asked for");
        }
        2 => {
            let g = random_gnp_graph_unlabeled::<u32, u8, String, Directed>(3, 1.0);
            check!(made(&g, 3, &[], &[]).len() == 6, "every edge of probability 1 is there");
        }
        3 => {
            let g = random_gnp_graph_unlabeled::<u8, String, u8, Undirected>(3, 0.0);
            check!(made(&g, 3, &[], &[]).is_empty(), "there is no edge of probability 0");
        }
        _ => {
            check!(panics(|| { random_gnm_graph_unlabeled::<u8, u8, u8, Undirected>(3, 4); }), "more edges than there can be are refused");
            check!(panics(|| { random_gnp_graph_unlabeled::<u8, u8, u8, Undirected>(0, 1.5); }), "a probability out of range is refused");
        }
    }
}
/// More nodes, edges and labels, for draws that are all low, high or in the middle.
//@ shards=8
#[no_mangle]
pub extern "C" fn c28_large() {
    steady(1 + choose(3));
    let (nl, el) = [(0, 0), (3, 300)][choose(2) as usize];
    let (a, b): (Vec<u16>, Vec<u16>) = ((0..nl).collect(), (0..el).collect());
    match choose(4) {
        0 => {
            let m = [39, 300, 380][choose(3) as usize];
            let g = random_gnm_graph::<u16, u16, u16, Directed>(20, m, a, b);
            check!(made_large(&g, 20, nl, el) == m, "there are as many edges as asked for");
        }
        1 => {
            let m = [39, 300, 780][choose(3) as usize];
            let g = random_gnm_graph::<u32, u16, u16, Undirected>(40, m, a, b);
            check!(made_large(&g, 40, nl, el) == m, "there are as many edges as asked for");
        }
        2 => {
            let p = [0.0, 1.0, 0.5][choose(3) as usize];
            let g = random_gnp_graph::<u16, u16, u16, Directed>(20, p, a, b);
            let k = made_large(&g, 20, nl, el);
            check!(p != 0.0 || k == 0, "there is no edge of probability 0");
            check!(p != 1.0 || k == 380, "every edge of probability 1 is there");
        }
        _ => {
            check!(panics(|| { random_gnm_graph::<u16, u16, u16, Undirected>(40, 781, a, b); }), "more edges than there can be are refused");
        }
    }
}
