//! EdgeVec reads its arrays: edges, indices, labels, neighbours, degrees.
//! bound: every well-formed array of up to 3 nodes and 4 edges (6 in thorough), a row of up to 6, ids any u8, labels any u8; every query; rows of 651 and 300 edges among 700 nodes with 32-bit ids, any edge asked for
use crate::util::*;
use rust_graph::graph_impl::static_graph::{EdgeVec, EdgeVecTrait};

/// Rows of ascending ids.
fn rows(nodes: usize, edges: usize) -> Vec<Vec<u8>> {
    let mut left = edges as u8;
    (0..nodes)
        .map(|_| {
            let k = choose(left.min(3) + 1);
            left -= k;
            let r: Vec<u8> = (0..k).map(|_| u8_()).collect();
            assume(r.windows(2).all(|w| w[0] < w[1]));
            r
        })
        .collect()
}
fn arrays(rows: &[Vec<u8>]) -> (Vec<usize>, Vec<u8>) {
    let mut o = vec![0];
    let mut e = vec![];
    for r in rows {
        e.extend(r.iter().map(|x| *x));
        o.push(e.len());
    }
    (o, e)
}
fn look<V: EdgeVecTrait<u8, u8>>(v: &V, rows: &[Vec<u8>], labels: &[u8], s: u8, t: u8) {
    let n = rows.len();
    let total: usize = rows.iter().map(|r| r.len()).sum();
    check!(v.num_nodes() == n && v.num_edges() == total, "as many nodes and edges as the arrays hold");
    let mut found = None;
    let mut i = 0;
    for (k, r) in rows.iter().enumerate() {
        for &x in r {
            if s as usize == k && t == x && (x as usize) < n {
                found = Some(i)
            }
            i += 1;
        }
    }
    check!(v.has_node(s) == ((s as usize) < n), "a node is there if and only if it has a row");
    check!(v.find_edge_index(s, t) == found, "an edge is found where the array holds it");
    check!(v.has_edge(s, t) == found.is_some(), "an edge is there if and only if the array holds it");
    let l = found.and_then(|i| labels.get(i).map(|x| *x));
    check!(v.find_edge_label_id(s, t).map(|x| *x) == l, "an edge has the label the array gives it");
    cover!(l.is_some());
    cover!(found.is_some());
    if (s as usize) < n {
        let mut k = 0;
        while k != s as usize {
            k += 1
        }
        check!(v.neighbors(s) == &rows[k][..], "a node's neighbours are its row");
        check!(v.degree(s) == rows[k].len(), "a node's degree is the length of its row");
    } else {
        cover!();
        check!(panics(|| { v.neighbors(s); }), "the neighbours of a node out of range are refused");
        check!(panics(|| { v.degree(s); }), "the degree of a node out of range is refused");
    }
}
fn any(edges: usize) {
    let n = choose(4) as usize;
    let r = rows(n, edges);
    let (o, e) = arrays(&r);
    let k = e.len();
    let labels: Vec<u8> = if flag() { (0..k).map(|_| u8_()).collect() } else { vec![] };
    let some = !labels.is_empty();
    let mut v = match choose(2) {
        0 if !some => EdgeVec::<u8, u8>::new(o.clone(), e.clone()),
        0 => EdgeVec::with_labels(o.clone(), e.clone(), labels.clone()),
        _ => EdgeVec::from_raw(o.clone(), e.clone(), if some { Some(labels.clone()) } else { None }),
    };
    check!(v.get_offsets() == &o[..] && v.get_edges() == &e[..] && v.get_labels() == &labels[..], "the arrays are those given");
    let (s, t) = (u8_(), u8_());
    look(&v, &r, &labels, s, t);
    v.shrink_to_fit();
    check!(v.get_offsets() == &o[..] && v.get_edges() == &e[..] && v.get_labels() == &labels[..], "shrinking changes nothing");
    v.remove_labels();
    look(&v, &r, &[], s, t);
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c10_any() {
    any(4)
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c10_any6() {
    any(6)
}
/// Longer rows, so that the search has something to halve.
//@ shards=8
#[no_mangle]
pub extern "C" fn c10_row() {
    let k = choose(7) as usize;
    let r: Vec<u8> = (0..k).map(|_| u8_()).collect();
    assume(r.windows(2).all(|w| w[0] < w[1]));
    let before = choose(3) as usize;
    let mut o = vec![0];
    let mut e = vec![];
    for i in 0..8 {
        if i == before {
            e.extend(r.iter().map(|x| *x))
        }
        o.push(e.len())
    }
    let v = EdgeVec::<u8, u8>::with_labels(o, e, (0..k as u8).collect());
    let t = u8_();
    let at = if t < 8 { (0..k).find(|&i| r[i] == t) } else { None };
    check!(v.find_edge_index(before as u8, t) == at, "an edge is found where the array holds it");
    check!(v.find_edge_label_id(before as u8, t).map(|x| *x as usize) == at, "an edge has the label the array gives it");
    cover!(at.is_some());
}
/// Every id of the type in use, and arrays for wider ids.
#[no_mangle]
pub extern "C" fn c10_full() {
    let (s, t) = (choose(2) * 255, u8_());
    let mut o = vec![0; s as usize + 1];
    o.resize(257, 1);
    let v = EdgeVec::<u8, u8>::new(o, vec![t]);
    check!(v.num_nodes() == 256, "a node for every id there is");
    let x = u8_();
    check!(v.has_node(x), "a node for every id there is");
    check!(v.find_edge_index(s, x) == if x == t { Some(0) } else { None }, "an edge is found where the array holds it");
    check!(v.neighbors(s) == &[t][..] && v.degree(255 - s) == 0, "a node's neighbours are its row");
}
//@ shards=2
#[no_mangle]
pub extern "C" fn c10_wide() {
    let (a, b) = (u32_(), u32_());
    assume(a < b);
    let v = EdgeVec::<u32, u16>::with_labels(vec![0, 0, 2, 2], vec![a, b], vec![7, 9]);
    let (s, t) = (u32_(), u32_());
    let at = if s == 1 && t < 3 && (t == a || t == b) { Some((t == b) as usize) } else { None };
    check!(v.find_edge_index(s, t) == at, "an edge is found where the array holds it");
    check!(v.find_edge_label_id(s, t).map(|x| *x) == at.map(|i| [7, 9][i]), "an edge has the label the array gives it");
    check!(v.has_node(s) == (s < 3), "a node is there if and only if it has a row");
    cover!(at.is_some());
}
/// Nothing in it.
#[no_mangle]
pub extern "C" fn c10_empty() {
    let v: EdgeVec<u8, u8> = match choose(4) {
        0 => Default::default(),
        1 => EdgeVec::new(vec![], vec![]),
        2 => EdgeVec::new(vec![0], vec![]),
        _ => {
            let mut v = EdgeVec::with_labels(vec![0, 1], vec![0], vec![3]);
            v.clear();
            v
        }
    };
    check!(v.get_edges().is_empty() && v.get_labels().is_empty(), "an empty vector holds nothing");
    look(&v, &[], &[], u8_(), u8_());
    let k = choose(3) as usize;
    let j = choose(3) as usize;
    let no = panics(|| { EdgeVec::<u8, u8>::with_labels(vec![0, k], vec![0; k], vec![0; j]); });
    check!(no == (k != j), "a label for every edge, or none at all");
    let a = EdgeVec::<u8, u8>::from_raw(vec![0, 1], vec![u8_()], if flag() { Some(vec![u8_()]) } else { None });
    let b = EdgeVec::<u8, u8>::from_raw(vec![0, 1], vec![u8_()], if flag() { Some(vec![u8_()]) } else { None });
    check!((a == b) == (a.get_edges() == b.get_edges() && a.get_labels() == b.get_labels()), "vectors are equal if their arrays are");
    check!(a.clone() == a, "a clone is equal");
}
/// A row of many, another before it and one behind.
//@ shards=4
#[no_mangle]
pub extern "C" fn c10_long() {
    let k = [1, 2, 33, 64, 100][choose(5) as usize];
    let r: Vec<u8> = (0..k).map(|i| i * 2 + 1).collect();
    let mut all = vec![vec![]; 130];
    all[1] = vec![0, 2, 129];
    all[2] = r;
    all[129] = vec![1, 3];
    let (o, e) = arrays(&all);
    let l: Vec<u8> = (0..e.len()).map(|i| i as u8 ^ 5).collect();
    let v = EdgeVec::<u8, u8>::with_labels(o, e, l.clone());
    look(&v, &all, &l, [1, 2, 3, 129][choose(4) as usize], u8_());
    let s = u8_();
    assume(s > 129);
    check!(v.find_edge_index(s, 1).is_none() && !v.has_node(s), "a node out of range has no edges");
}
/// Rows of hundreds of edges.
//@ shards=8
#[no_mangle]
pub extern "C" fn c10_hundreds() {
    let mut o = vec![0, 1100, 1100];
    let mut e: Vec<u32> = (0..1100).map(|i| if i < 1099 { i / 2 + 100 * (i % 2) } else { 699 }).collect();
    e.sort();
    e.dedup();
    let n = e.len();
    o[1] = n;
    o[2] = n;
    let second: Vec<u32> = (0..300).map(|i| 2 * i + 1).collect();
    e.extend(second.iter());
    for _ in 3..701 {
        o.push(e.len());
    }
    let l: Vec<u32> = (0..e.len()).map(|i| (i * 300) as u32).collect();
    let v = EdgeVec::<u32, u32>::with_labels(o, e.clone(), l);
    check!(v.num_nodes() == 700 && v.num_edges() == n + 300, "as many nodes and edges as the arrays hold");
    let s = choose(3) as u32;
    let row = if s == 0 { &e[..n] } else if s == 1 { &e[n..n] } else { &e[n..] };
    check!(v.neighbors(s) == row && v.degree(s) == row.len(), "a node's neighbours are its row");
    let t = u32_();
    let at = row.iter().position(|x| *x == t).map(|i| if s == 2 { n + i } else { i });
    check!(v.find_edge_index(s, t) == at && v.has_edge(s, t) == at.is_some(), "an edge is found where the array holds it");
    check!(v.find_edge_label_id(s, t).map(|x| *x) == at.map(|i| (i * 300) as u32), "an edge has the label the array gives it");
}
