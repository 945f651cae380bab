//! Counts: nodes, edges and the largest id seen are exact after every history, repeats included.
//! bound: histories of 3 operations with any u8 ids, of 4 over 2 ids (any two); 3 ids of any 32 and 64 bits; a node among 260 and 1100 neighbours
use crate::util::*;
use crate::wide::*;

fn run<G>(mut g: G, dir: bool, ops: usize, p: &Pool)
where
    G: GraphLabelTrait<u8, u8, u8, u32> + MutGraphLabelTrait<u8, u8, u8, u32>,
{
    let mut m = Model::new(dir);
    let mut top: Option<u8> = None;
    check!(g.node_count() == 0 && g.edge_count() == 0, "a new graph is empty");
    check!(g.max_seen_id() == None, "a new graph has seen no id");
    for k in 0..ops {
        match if k == 0 { 0 } else { choose(5) } {
            0 => {
                let (s, t) = (p.id(), p.id());
                cover!(m.adj(s, t));
                g.add_edge(s, t, None);
                m.add_edge(s, t, None);
                top = top.max(Some(s)).max(Some(t));
            }
            1 => {
                let n = p.id();
                g.add_node(n, None);
                m.add_node(n, None);
                top = top.max(Some(n));
            }
            2 => {
                let n = p.id();
                g.remove_node(n);
                m.remove_node(n);
            }
            3 => {
                let (s, t) = (p.id(), p.id());
                g.remove_edge(s, t);
                m.remove_edge(s, t);
            }
            _ => {
                let (s, t) = (p.id(), p.id());
                check!(g.update_edge_label(s, t, Some(7)) == m.adj(s, t), "updating a label says whether the edge is there");
                check!(g.update_node_label(s, Some(7)) == m.has(s), "updating a label says whether the node is there");
            }
        }
        check!(g.node_count() == m.nodes.len(), "as many nodes are counted as there are");
        check!(g.edge_count() == m.edges.len(), "as many edges are counted as there are");
    }
    check!(g.node_indices().count() == m.nodes.len(), "as many nodes are listed as are counted");
    check!(g.edge_indices().count() == m.edges.len(), "as many edges are listed as are counted");
    check!(g.edges().count() == m.edges.len(), "as many edges are handed out as are counted");
    check!(g.nodes().count() == m.nodes.len(), "as many nodes are handed out as are counted");
    check!(g.max_seen_id() == top, "the largest id seen is the largest id ever put in");
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c04_di() {
    run(Di::new(), true, 3, &Pool::any())
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c04_un() {
    run(Un::new(), false, 3, &Pool::any())
}
//@ shards=24
#[no_mangle]
pub extern "C" fn c04_di_small() {
    run(Di::new(), true, 4, &Pool::of(2, 0))
}
//@ shards=24
#[no_mangle]
pub extern "C" fn c04_un_small() {
    run(Un::new(), false, 4, &Pool::of(2, 0))
}
/// A graph made from a list of edges counts each edge once, however often it is listed.
//@ shards=4
#[no_mangle]
pub extern "C" fn c04_from_edges() {
    let es = vec![(u8_(), u8_()), (u8_(), u8_()), (u8_(), u8_())];
    let mut m = Model::new(true);
    for &(s, t) in &es {
        m.add_edge(s, t, None);
    }
    let mut g = Di::from_edges(es);
    check!(g.edge_count() == m.edges.len(), "a graph from a list has as many edges as differ");
    check!(g.node_count() == m.nodes.len(), "a graph from a list has as many nodes as occur");
    g.refine_edge_count();
    check!(g.edge_count() == m.edges.len(), "counting again changes nothing");
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c04_from_edges_un() {
    let es = vec![(u8_(), u8_()), (u8_(), u8_()), (u8_(), u8_())];
    let mut m = Model::new(false);
    for &(s, t) in &es {
        m.add_edge(s, t, None);
    }
    let mut g = Un::from_edges(es);
    check!(g.edge_count() == m.edges.len(), "a graph from a list has as many edges as differ");
    check!(g.node_count() == m.nodes.len(), "a graph from a list has as many nodes as occur");
    g.refine_edge_count();
    check!(g.edge_count() == m.edges.len(), "counting again changes nothing");
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c04_di_long() {
    run(Di::new(), true, 5, &Pool::of(3, 0))
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c04_un_long() {
    run(Un::new(), false, 5, &Pool::of(3, 0))
}
/// Many nodes and edges, some of them given again, one removed.
fn many<G>(mut g: G, dir: bool)
where
    G: GraphLabelTrait<u8, u8, u8, u32> + MutGraphLabelTrait<u8, u8, u8, u32>,
{
    let mut m = Model::new(dir);
    crowd(&mut g, &mut m, 40, 5);
    if flag() {
        crowd(&mut g, &mut m, 30, 5);
    }
    let top = m.nodes.iter().map(|x| x.0).max();
    let (s, t) = (u8_(), 100);
    match choose(4) {
        0 => {
            g.add_edge(s, t, None);
            m.add_edge(s, t, None);
            check!(g.max_seen_id() == top.max(Some(s)), "the largest id seen is the largest id ever put in");
        }
        1 => {
            g.remove_edge(s, t);
            m.remove_edge(s, t);
            check!(g.max_seen_id() == top, "the largest id seen is the largest id ever put in");
        }
        2 => {
            g.remove_node(s);
            m.remove_node(s);
        }
        _ => {
            g.remove_node(t);
            m.remove_node(t);
        }
    }
    check!(g.node_count() == m.nodes.len() && g.node_indices().count() == m.nodes.len(), "as many nodes are counted as there are");
    check!(g.edge_count() == m.edges.len() && g.edge_indices().count() == m.edges.len(), "as many edges are counted as there are");
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c04_many_di() {
    many(Di::new(), true)
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c04_many_un() {
    many(Un::new(), false)
}
/// Ids of any width.
//@ shards=8
#[no_mangle]
pub extern "C" fn c04_widths() {
    if flag() {
        history::<u32, u16, Directed>()
    } else {
        history::<usize, u16, Undirected>()
    }
}
/// A node in the middle of hundreds.
//@ shards=2
#[no_mangle]
pub extern "C" fn c04_hundreds() {
    if flag() {
        let (g, k) = hub::<u16, u16, Directed>(1100);
        hub_is(&g, 1100, k);
        hub_in(&g, 1100, k);
    } else {
        let (g, k) = hub::<u32, u32, Undirected>(260);
        hub_is(&g, 260, k);
    }
}
