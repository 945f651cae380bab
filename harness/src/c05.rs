//! Labels: stored, looked up, updated and counted as the history says.
//! bound: histories of 3 operations over any 2 ids and 2 labels and of 2 with any u8 ids and labels (quick); of 4 (thorough); 260 and 1100 nodes and edges, each with a label of its own
use crate::util::*;
use crate::wide::*;

/// What the labels of a graph should be.
struct Labels {
    m: Model,
    nl: Vec<u8>,
    el: Vec<u8>,
}
fn used(v: &mut Vec<u8>, l: Option<u8>) {
    if let Some(x) = l {
        if !v.contains(&x) {
            v.push(x)
        }
    }
}
fn count<T: Copy + PartialEq>(v: Vec<Option<T>>) -> Vec<(T, usize)> {
    let mut r: Vec<(T, usize)> = vec![];
    for x in v {
        if let Some(x) = x {
            match r.iter().position(|p| p.0 == x) {
                Some(i) => r[i].1 += 1,
                None => r.push((x, 1)),
            }
        }
    }
    r
}
fn index(v: &Vec<u8>, l: Option<u8>) -> Option<u32> {
    l.map(|x| v.iter().position(|y| *y == x).unwrap() as u32)
}

fn verify<G>(g: &G, w: &Labels)
where
    G: GraphLabelTrait<u8, u8, u8, u32>,
{
    for &(n, l) in &w.m.nodes {
        check!(g.get_node_label(n).map(|x| *x) == l, "a node has the label it was given last");
        check!(g.get_node(n).get_label_id() == index(&w.nl, l), "a node carries the id its label has in the map");
    }
    for &(s, t, l) in &w.m.edges {
        check!(g.get_edge_label(s, t).map(|x| *x) == l, "an edge has the label it was given last");
        check!(g.get_edge(s, t).get_label_id() == index(&w.el, l), "an edge carries the id its label has in the map");
        if !w.m.dir {
            check!(g.get_edge_label(t, s).map(|x| *x) == l, "an undirected edge has one label");
        }
    }
    let a: Vec<u8> = g.get_node_label_map().items().map(|x| *x).collect();
    check!(a == w.nl, "the node label map holds each label used, once, in order of first use");
    let a: Vec<u8> = g.get_edge_label_map().items().map(|x| *x).collect();
    check!(a == w.el, "the edge label map holds each label used, once, in order of first use");
    let a: Vec<u8> = g.node_labels().map(|x| *x).collect();
    check!(a == w.nl, "node_labels lists the node labels");
    let a: Vec<u8> = g.edge_labels().map(|x| *x).collect();
    check!(a == w.el, "edge_labels lists the edge labels");
    check!(g.has_node_labels() == !w.nl.is_empty() && g.has_edge_labels() == !w.el.is_empty(), "a graph says whether it has labels");
    check!(g.num_of_node_labels() == w.nl.len() && g.num_of_edge_labels() == w.el.len(), "a graph says how many labels it has");
}
fn counters<G>(g: &G, w: &Labels)
where
    G: GraphLabelTrait<u8, u8, u8, u32>,
{
    let nl = count(w.m.nodes.iter().map(|x| x.1).collect());
    let el = count(w.m.edges.iter().map(|x| x.2).collect());
    let a: Vec<(u8, usize)> = g.get_node_label_counter().most_common().into_iter().map(|(l, n)| (*l, n)).collect();
    check!(same(&a, &nl), "node labels are counted by the nodes that have them");
    let a: Vec<(u8, usize)> = g.get_edge_label_counter().most_common().into_iter().map(|(l, n)| (*l, n)).collect();
    check!(same(&a, &el), "edge labels are counted by the edges that have them");
    let ni: Vec<(u32, usize)> = nl.iter().map(|p| (index(&w.nl, Some(p.0)).unwrap(), p.1)).collect();
    let a: Vec<(u32, usize)> = g.get_node_label_id_counter().most_common();
    check!(same(&a, &ni), "node label ids are counted by the nodes that have them");
    let ei: Vec<(u32, usize)> = el.iter().map(|p| (index(&w.el, Some(p.0)).unwrap(), p.1)).collect();
    let a: Vec<(u32, usize)> = g.get_edge_label_id_counter().most_common();
    check!(same(&a, &ei), "edge label ids are counted by the edges that have them");
}

fn run<G>(mut g: G, dir: bool, ops: usize, p: &Pool, full: bool)
where
    G: MutGraphLabelTrait<u8, u8, u8, u32>,
{
    let mut w = Labels { m: Model::new(dir), nl: vec![], el: vec![] };
    for k in 0..ops {
        match if k == 0 { choose(2) } else { choose(6) } {
            0 => {
                let (n, l) = (p.id(), p.label());
                g.add_node(n, l);
                used(&mut w.nl, l);
                w.m.add_node(n, l);
            }
            1 => {
                let (s, t, l) = (p.id(), p.id(), p.label());
                g.add_edge(s, t, l);
                used(&mut w.el, l);
                w.m.add_edge(s, t, l);
            }
            2 => {
                let (n, l) = (p.id(), p.label());
                cover!(w.m.has(n));
                check!(g.update_node_label(n, l) == w.m.has(n), "updating a label says whether the node is there");
                if w.m.has(n) {
                    used(&mut w.nl, l);
                    w.m.add_node(n, l);
                }
            }
            3 => {
                let (s, t, l) = (p.id(), p.id(), p.label());
                cover!(w.m.adj(s, t));
                check!(g.update_edge_label(s, t, l) == w.m.adj(s, t), "updating a label says whether the edge is there");
                if w.m.adj(s, t) {
                    used(&mut w.el, l);
                    w.m.add_edge(s, t, l);
                }
            }
            4 => {
                let n = p.id();
                g.remove_node(n);
                w.m.remove_node(n);
            }
            _ => {
                let (s, t) = (p.id(), p.id());
                g.remove_edge(s, t);
                w.m.remove_edge(s, t);
            }
        }
    }
    verify(&g, &w);
    if full {
        counters(&g, &w);
    }
}
//@ shards=32
#[no_mangle]
pub extern "C" fn c05_di() {
    run(Di::new(), true, 3, &Pool::of(2, 2), true)
}
//@ shards=32
#[no_mangle]
pub extern "C" fn c05_un() {
    run(Un::new(), false, 3, &Pool::of(2, 2), true)
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c05_di_any() {
    run(Di::new(), true, 2, &Pool::any(), true)
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c05_un_any() {
    run(Un::new(), false, 2, &Pool::any(), true)
}
/// Many elements with labels of their own: every pattern of equal and different ones.
//@ shards=4
#[no_mangle]
pub extern "C" fn c05_shared() {
    let mut g = Un::new();
    let mut w = Labels { m: Model::new(false), nl: vec![], el: vec![] };
    for i in 0..3u8 {
        let l = opt(256);
        g.add_node(i, l);
        used(&mut w.nl, l);
        w.m.add_node(i, l);
    }
    for i in 0..2u8 {
        let l = opt(256);
        g.add_edge(i + 1, i, l);
        used(&mut w.el, l);
        w.m.add_edge(i + 1, i, l);
    }
    verify(&g, &w);
    counters(&g, &w);
}
/// A graph that starts from label maps keeps their ids, and labels added by themselves are known.
//@ shards=4
#[no_mangle]
pub extern "C" fn c05_maps() {
    let (a, b) = (u8_(), u8_());
    assume(a != b);
    let c = u8_();
    let mut g = Di::with_label_map(vec![a, b].into(), vec![b].into());
    let mut w = Labels { m: Model::new(true), nl: vec![a, b], el: vec![b] };
    check!(g.node_count() == 0 && g.edge_count() == 0 && g.max_seen_id() == None, "a graph made with labels is empty");
    g.add_node(1, Some(c));
    used(&mut w.nl, Some(c));
    w.m.add_node(1, Some(c));
    g.add_edge(1, 2, Some(c));
    used(&mut w.el, Some(c));
    w.m.add_edge(1, 2, Some(c));
    let d = opt(256);
    used(&mut w.nl, d);
    check!(g.add_node_label(d) == index(&w.nl, d), "a label added by itself has an id");
    let e = opt(256);
    used(&mut w.el, e);
    check!(g.add_edge_label(e) == index(&w.el, e), "an edge label added by itself has an id");
    verify(&g, &w);
    counters(&g, &w);
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c05_di_long() {
    run(Di::new(), true, 4, &Pool::of(2, 2), true)
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c05_un_long() {
    run(Un::new(), false, 4, &Pool::of(2, 2), true)
}
/// Many nodes and edges with many labels, and one changed.
fn many<G>(mut g: G, dir: bool)
where
    G: MutGraphLabelTrait<u8, u8, u8, u32>,
{
    let mut w = Labels { m: Model::new(dir), nl: vec![], el: vec![] };
    crowd(&mut g, &mut w.m, 26, 3);
    w.nl = g.node_labels().map(|x| *x).collect();
    w.el = g.edge_labels().map(|x| *x).collect();
    let (a, b) = (distinct(&w.m.nodes.iter().filter_map(|x| x.1).collect::<Vec<u8>>()), distinct(&w.m.edges.iter().filter_map(|x| x.2).collect::<Vec<u8>>()));
    check!(w.nl == a, "the node label map holds each label used, once, in order of first use");
    check!(w.el == b, "the edge label map holds each label used, once, in order of first use");
    let (s, l) = (u8_(), [None, Some(4), Some(199)][choose(3) as usize]);
    if flag() {
        check!(g.update_node_label(s, l) == w.m.has(s), "updating a label says whether the node is there");
        if w.m.has(s) {
            used(&mut w.nl, l);
            w.m.add_node(s, l);
        }
    } else {
        check!(g.update_edge_label(s, 39, l) == w.m.adj(s, 39), "updating a label says whether the edge is there");
        if w.m.adj(s, 39) {
            used(&mut w.el, l);
            w.m.add_edge(s, 39, l);
        }
    }
    verify(&g, &w);
    counters(&g, &w);
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c05_many_di() {
    many(Di::new(), true)
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c05_many_un() {
    many(Un::new(), false)
}
/// More labels than a byte counts.
#[no_mangle]
pub extern "C" fn c05_many_labels() {
    let mut g = rust_graph::graph_impl::TypedUnGraphMap::<u16, u16, u16, u32>::new();
    let n = 300u16;
    for i in 0..n {
        g.add_node(i, Some(7 * i));
        g.add_edge(i, i / 2, Some(11 * i + 1));
    }
    let x = [0, 1, 254, 255, 256, 299][choose(6) as usize];
    g.add_node(x, Some(9000));
    check!(g.update_edge_label(x, x / 2, Some(9001)), "updating a label says whether the edge is there");
    for i in 0..n {
        check!(g.get_node_label(i).map(|x| *x) == Some(if i == x { 9000 } else { 7 * i }), "a node has the label it was given last");
        let l = Some(if i == x { 9001 } else { 11 * i + 1 });
        check!(g.get_edge_label(i, i / 2).map(|x| *x) == l && g.get_edge_label(i / 2, i).map(|x| *x) == l, "an edge has the label it was given last");
    }
    check!(g.num_of_node_labels() == 301 && g.num_of_edge_labels() == 301, "a graph says how many labels it has");
    let c = g.get_node_label_counter();
    check!(c.len() == 300 && c.into_map().into_iter().all(|(_, k)| k == 1), "node labels are counted by the nodes that have them");
}
/// Hundreds of labels.
//@ shards=4
#[no_mangle]
pub extern "C" fn c05_hundreds() {
    match choose(4) {
        0 => {
            let (g, k) = hub::<u16, u16, Directed>(1100);
            hub_is(&g, 1100, k);
            hub_in(&g, 1100, k);
        }
        1 => {
            let (g, k) = hub::<u32, u32, Undirected>(260);
            hub_is(&g, 260, k);
        }
        2 => hundreds::<u16, u16, Directed>(1100, 9),
        _ => hundreds::<u32, u32, Undirected>(260, 9),
    }
}
