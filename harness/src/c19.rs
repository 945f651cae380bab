//! Connected subgraphs: each component, whole and with its labels, in one graph of the same kind.
//! bound: every graph on up to 3 nodes, undirected on 4, labelled by ids; every labelling of graphs on 2 nodes; static and mapped graphs; 3 ids of any 32 and 64 bits; a chain of 100, a star of 164 or 994 and 5 nodes alone
use crate::util::*;
use crate::wide::*;
use rust_graph::algorithm::ConnSubgraph;
use rust_graph::graph_impl::StaticGraphMmap;

type Sub<'a> = Box<dyn GeneralGraph<u8, u8, u8, u32> + 'a>;
fn joined(m: &Model, s: u8, t: u8) -> bool {
    let mut u = m.clone();
    u.dir = false;
    reach(&u, s, &[]).iter().any(|x| x.0 == t)
}
fn all(v: &[Sub], m: &Model) {
    let firsts: Vec<u8> = (0..m.nodes.len()).filter(|&i| !(0..i).any(|j| joined(m, m.nodes[i].0, m.nodes[j].0))).map(|i| m.nodes[i].0).collect();
    check!(v.len() == firsts.len(), "as many subgraphs as components");
    cover!(v.len() > 1);
    for &f in &firsts {
        let mut k = Model::new(m.dir);
        k.nodes = m.nodes.iter().filter(|x| joined(m, f, x.0)).map(|x| *x).collect();
        k.edges = m.edges.iter().filter(|x| joined(m, f, x.0)).map(|x| *x).collect();
        let mut hit = 0;
        for g in v {
            if !g.as_graph().has_node(f) {
                check!(!k.nodes.iter().any(|x| g.as_graph().has_node(x.0)), "a component is not torn apart");
                continue;
            }
            hit += 1;
            check!(g.as_digraph().is_some() == m.dir, "a subgraph is of the kind of the graph");
            whole(g.as_labeled_graph(), &k);
        }
        check!(hit == 1, "a component is in one subgraph");
    }
}
fn go<G: GeneralGraph<u8, u8, u8, u32>>(g: &G, m: &Model) {
    let c = ConnSubgraph::new(g);
    if flag() {
        all(&c.into_result(), m);
    } else {
        let mut c = ConnSubgraph::empty(g);
        check!(c.root_to_subgraph(u8_()).is_none(), "there are no subgraphs before they are made");
        c.run_subgraph_enumeration(g);
        let k = m.nodes.iter().filter(|x| c.root_to_subgraph(x.0).is_some()).count();
        let v = c.into_result();
        check!(k == v.len(), "every subgraph has one root");
        all(&v, m);
    }
    check!(g.node_count() == m.nodes.len() && g.edge_count() == m.edges.len(), "the graph is as it was");
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c19_di() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    let n = choose(4) as usize;
    by_id(&mut g, &mut m, &some_ids(2)[..n], true);
    go(&g, &m);
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c19_un() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    let n = choose(5) as usize;
    by_id(&mut g, &mut m, &some_ids(1)[..n], n < 4);
    go(&g, &m);
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c19_di_labels() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    shape(&mut g, &mut m, &[5, 2], flag(), any_label);
    go(&g, &m);
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c19_un_labels() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    shape(&mut g, &mut m, &[5, 2], true, any_label);
    go(&g, &m);
}
/// Any ids.
//@ shards=4
#[no_mangle]
pub extern "C" fn c19_any() {
    let dir = flag();
    let (mut g, mut h, mut m) = (Di::new(), Un::new(), Model::new(dir));
    for _ in 0..2 {
        let (s, t, l) = (u8_(), u8_(), opt(256));
        if dir { g.add_edge(s, t, l) } else { h.add_edge(s, t, l) };
        m.add_edge(s, t, l);
    }
    if dir {
        go(&g, &m)
    } else {
        go(&h, &m)
    }
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c19_static() {
    let n = choose(4) as usize;
    let p = dir() + "/g";
    let b = flag();
    if flag() {
        let (mut g, mut m) = (Di::new(), Model::new(true));
        by_id(&mut g, &mut m, &some_ids(0)[..n], n < 3);
        let g = g.into_static();
        if b {
            g.dump_mmap(&p).unwrap();
            go(&StaticGraphMmap::new(&p), &m);
        } else {
            go(&g, &m);
        }
    } else {
        let (mut g, mut m) = (Un::new(), Model::new(false));
        by_id(&mut g, &mut m, &some_ids(0)[..n], true);
        let g = g.into_static();
        if b {
            g.dump_mmap(&p).unwrap();
            go(&StaticGraphMmap::new(&p), &m);
        } else {
            go(&g, &m);
        }
    }
}
//@ shards=32 tier=thorough
#[no_mangle]
pub extern "C" fn c19_di4() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    by_id(&mut g, &mut m, &some_ids(1)[..4], false);
    go(&g, &m);
}
//@ shards=32 tier=thorough
#[no_mangle]
pub extern "C" fn c19_un5() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    by_id(&mut g, &mut m, &some_ids(2), false);
    go(&g, &m);
}
/// Many nodes in several components.
//@ shards=4
#[no_mangle]
pub extern "C" fn c19_many() {
    let stride = [1, 7][choose(2) as usize];
    let b = flag();
    if flag() {
        let (mut g, mut m) = (Di::new(), Model::new(true));
        towns(&mut g, &mut m, stride);
        if b && stride == 1 {
            go(&g.into_static(), &m)
        } else {
            go(&g, &m)
        }
    } else {
        let (mut g, mut m) = (Un::new(), Model::new(false));
        towns(&mut g, &mut m, stride);
        if b && stride == 1 {
            go(&g.into_static(), &m)
        } else {
            go(&g, &m)
        }
    }
}
/// Ids of any width.
//@ shards=8
#[no_mangle]
pub extern "C" fn c19_widths() {
    use rust_graph::graph_impl::{TypedDiGraphMap, TypedUnGraphMap};
    if flag() {
        let ids = three::<u32>();
        let (mut g, mut m) = (TypedDiGraphMap::<u32, u8, u8, u16>::new(), Model::new(true));
        two_edges(&mut g, &mut m, &ids);
        subgraphs(&g, &m, &ids);
    } else {
        let ids = three::<usize>();
        let (mut g, mut m) = (TypedUnGraphMap::<usize, u8, u8, u16>::new(), Model::new(false));
        two_edges(&mut g, &mut m, &ids);
        subgraphs(&g, &m, &ids);
    }
}
/// A chain of a hundred, a star of many, and nodes on their own.
//@ shards=2
#[no_mangle]
pub extern "C" fn c19_hundreds() {
    if flag() {
        split::<u16, u16, Directed>(1100);
    } else {
        split::<u32, u32, Undirected>(270);
    }
}
