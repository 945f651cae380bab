//! Removal: exactly the named node or edge goes, with what hangs on it; the rest stays as it was.
//! bound: histories of 3 operations with any u8 ids and labels, and of 5 over 3 ids; 3 ids of any 32 and 64 bits; a node among 260 and 1100 neighbours
use crate::util::*;
use crate::wide::*;

fn step<G>(g: &mut G, m: &mut Model, kind: u8, p: &Pool)
where
    G: GraphLabelTrait<u8, u8, u8, u32> + MutGraphTrait<u8, u8, u8, u32>,
{
    match kind {
        0 => {
            let (s, t) = (p.id(), p.id());
            let l = p.label();
            m.add_edge(s, t, l);
            g.add_edge(s, t, l);
        }
        1 => {
            let n = p.id();
            let l = p.label();
            m.add_node(n, l);
            g.add_node(n, l);
        }
        2 => {
            let n = p.id();
            let label = |g: &G, x: Option<u32>| x.and_then(|i| g.get_node_label_map().get_item(i as usize).map(|l| *l));
            let r = g.remove_node(n);
            match m.remove_node(n) {
                Some(l) => {
                    check!(r.is_some(), "removing a node that is there hands it out");
                    check!(r.get_id() == n, "the node that is handed out has the id that was asked for");
                    check!(label(g, r.get_label_id()) == l, "the node that is handed out has its label");
                    cover!();
                }
                None => check!(r.is_none(), "removing a node that is not there hands out none"),
            }
        }
        _ => {
            let (s, t) = (p.id(), p.id());
            let label = |g: &G, x: Option<u32>| x.and_then(|i| g.get_edge_label_map().get_item(i as usize).map(|l| *l));
            let r = g.remove_edge(s, t);
            match m.remove_edge(s, t) {
                Some(l) => {
                    check!(r.is_some(), "removing an edge that is there hands it out");
                    check!(r.get_start() == s && r.get_target() == t, "the edge that is handed out joins the nodes that were asked for");
                    check!(label(g, r.get_label_id()) == l, "the edge that is handed out has its label");
                    cover!(s == t);
                }
                None => check!(r.is_none(), "removing an edge that is not there hands out none"),
            }
        }
    }
}
fn end<G>(g: &G, m: &Model, p: &Pool)
where
    G: GraphLabelTrait<u8, u8, u8, u32>,
{
    contents(g, m);
    check!(g.node_count() == m.nodes.len(), "as many nodes are counted as there are");
    check!(g.edge_count() == m.edges.len(), "as many edges are counted as there are");
    p.pairs(|s, t| nothing_else(g, m, s, t));
}
/// Any two edges, then any removal.
fn fixed<G>(mut g: G, dir: bool, kinds: &[u8], p: &Pool, view: fn(&G, &Model))
where
    G: GraphLabelTrait<u8, u8, u8, u32> + MutGraphTrait<u8, u8, u8, u32>,
{
    let mut m = Model::new(dir);
    for &k in kinds {
        step(&mut g, &mut m, k, p);
    }
    end(&g, &m, p);
    view(&g, &m);
}
fn any<G>(mut g: G, dir: bool, ops: usize, p: &Pool, view: fn(&G, &Model))
where
    G: GraphLabelTrait<u8, u8, u8, u32> + MutGraphTrait<u8, u8, u8, u32>,
{
    let mut m = Model::new(dir);
    step(&mut g, &mut m, 0, p);
    for _ in 1..ops {
        let k = choose(4);
        step(&mut g, &mut m, k, p);
    }
    end(&g, &m, p);
    view(&g, &m);
}
fn di(g: &Di, m: &Model) {
    outward(g, m);
    inward(g, m);
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c02_di_node() {
    fixed(Di::new(), true, &[0, 0, 2], &Pool::any(), di)
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c02_un_node() {
    fixed(Un::new(), false, &[0, 0, 2], &Pool::any(), outward)
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c02_di_edge() {
    fixed(Di::new(), true, &[0, 0, 3], &Pool::any(), di)
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c02_un_edge() {
    fixed(Un::new(), false, &[0, 0, 3], &Pool::any(), outward)
}
//@ shards=24
#[no_mangle]
pub extern "C" fn c02_di_history() {
    any(Di::new(), true, 4, &Pool::of(3, 0), di)
}
//@ shards=24
#[no_mangle]
pub extern "C" fn c02_un_history() {
    any(Un::new(), false, 4, &Pool::of(3, 0), outward)
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c02_di_labels() {
    fixed(Di::new(), true, &[1, 0, 2, 0], &Pool::of(3, 3), di)
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c02_un_labels() {
    fixed(Un::new(), false, &[1, 0, 3, 0], &Pool::of(3, 3), outward)
}
//@ shards=48 tier=thorough
#[no_mangle]
pub extern "C" fn c02_di_history_long() {
    any(Di::new(), true, 5, &Pool::of(3, 0), di)
}
//@ shards=48 tier=thorough
#[no_mangle]
pub extern "C" fn c02_un_history_long() {
    any(Un::new(), false, 5, &Pool::of(3, 0), outward)
}
/// Many nodes, and one removal of any of them.
fn many<G>(mut g: G, dir: bool, kind: u8, view: fn(&G, &Model))
where
    G: GraphLabelTrait<u8, u8, u8, u32> + MutGraphTrait<u8, u8, u8, u32>,
{
    let mut m = Model::new(dir);
    crowd(&mut g, &mut m, 24, 9);
    if kind == 2 {
        let n = [u8_(), 108][choose(2) as usize];
        check!(g.remove_node(n).is_some() == m.remove_node(n).is_some(), "removing a node that is there hands it out");
    } else {
        let (s, t) = (u8_(), [0, 108, 117][choose(3) as usize]);
        check!(g.remove_edge(s, t).is_some() == m.remove_edge(s, t).is_some(), "removing an edge that is there hands it out");
    }
    contents(&g, &m);
    check!(g.node_count() == m.nodes.len(), "as many nodes are counted as there are");
    check!(g.edge_count() == m.edges.len(), "as many edges are counted as there are");
    view(&g, &m);
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c02_many_di() {
    many(Di::new(), true, 2 + choose(2), di)
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c02_many_un() {
    many(Un::new(), false, 2 + choose(2), outward)
}
/// Ids of any width.
//@ shards=8
#[no_mangle]
pub extern "C" fn c02_widths() {
    if flag() {
        history::<u32, u16, Directed>()
    } else {
        history::<usize, u16, Undirected>()
    }
}
/// A node in the middle of hundreds, and what is left when part of it goes.
//@ shards=4
#[no_mangle]
pub extern "C" fn c02_hundreds() {
    if flag() {
        hub_removed::<u16, u16, Directed>(1100)
    } else {
        hub_removed::<u32, u32, Undirected>(260)
    }
}
