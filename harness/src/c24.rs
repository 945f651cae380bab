//! Export and import: the value comes back, a cut file gives an error.
//! bound: graphs of 2 operations over any u8 ids and labels, of any shape on up to 3 nodes, with texts as labels, 64-bit ids; static graphs on up to 3 nodes; maps of up to 4 items; every prefix of every file; 260 and 1100 nodes and edges, each with a label of its own
use crate::util::*;
use crate::wide::*;
use rust_graph::graph_impl::{EdgeVec, TypedDiGraphMap, TypedStaticGraph, TypedUnGraphMap};
use rust_graph::io::serde::{Deserialize, Deserializer, Serialize, Serializer};
use rust_graph::map::{SetMap, VecMap};
use rust_graph::graph_impl::graph_map::graph::{ReorderResult, TypedGraphMap};
use rust_graph::graph_impl::static_graph::EdgeVecTrait;

fn path() -> String {
    dir() + "/x"
}
/// Write and read; every proper prefix of the file is refused.
fn trip<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T, cut: bool) -> T {
    let p = path();
    if cut {
        // something longer is in the way
        std::fs::write(&p, vec![1u8; 400]).unwrap();
    }
    check!(Serializer::export(x, &p).is_ok(), "exporting succeeds");
    let r: Result<T, _> = Deserializer::import(&p);
    check!(r.is_ok(), "what was exported can be imported");
    if cut {
        let b = std::fs::read(&p).unwrap();
        let q = dir() + "/cut";
        for k in 0..b.len() {
            std::fs::write(&q, &b[..k]).unwrap();
            let r: Result<T, _> = Deserializer::import(&q);
            check!(r.is_err(), "a file that was cut short is refused");
        }
    }
    r.unwrap()
}
fn missing<T: serde::de::DeserializeOwned>() {
    let r: Result<T, _> = Deserializer::import(dir() + "/none");
    check!(r.is_err(), "a missing file is refused");
}
fn grow<G: MutGraphTrait<u8, u8, u8, u32>>(g: &mut G, m: &mut Model, p: &Pool) {
    match choose(4) {
        0 => {
            let (n, l) = (p.id(), p.label());
            g.add_node(n, l);
            m.add_node(n, l);
        }
        1 => {
            let n = p.id();
            g.remove_node(n);
            m.remove_node(n);
        }
        2 => {
            let (s, t) = (p.id(), p.id());
            g.remove_edge(s, t);
            m.remove_edge(s, t);
        }
        _ => {
            let (s, t, l) = (p.id(), p.id(), p.label());
            g.add_edge(s, t, l);
            m.add_edge(s, t, l);
        }
    }
}
/// The graph read is the graph written, and goes on as it would.
fn graph<Ty>(g: &TypedGraphMap<u8, u8, u8, Ty, u32>, m: &Model, cut: bool) -> TypedGraphMap<u8, u8, u8, Ty, u32>
where
    Ty: GraphType + serde::Serialize + serde::de::DeserializeOwned,
{
    let h = trip(g, cut);
    check!(h == *g, "the imported graph equals the exported one");
    whole(&h, m);
    check!(h.max_seen_id() == g.max_seen_id(), "the largest id comes back");
    check!(h.max_possible_id() == g.max_possible_id() && h.implementation() == g.implementation(), "the graph is of the same type");
    check!(h.get_node_label_map() == g.get_node_label_map(), "the map of node labels comes back");
    check!(h.get_edge_label_map() == g.get_edge_label_map(), "the map of edge labels comes back");
    for &(n, _) in &m.nodes {
        check!(h.get_node(n).get_label_id() == g.get_node(n).get_label_id(), "label ids come back");
    }
    for &(s, t, _) in &m.edges {
        check!(h.get_edge(s, t).get_label_id() == g.get_edge(s, t).get_label_id(), "label ids come back");
    }
    h
}
fn on<G: MutGraphTrait<u8, u8, u8, u32> + GraphLabelTrait<u8, u8, u8, u32>>(mut h: G, mut m: Model) {
    if let Some(&(n, _)) = m.nodes.first() {
        h.add_edge(n, 200, Some(77));
        m.add_edge(n, 200, Some(77));
        whole(&h, &m);
        h.remove_node(n);
        m.remove_node(n);
        whole(&h, &m);
    }
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c24_di() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    let p = Pool::any();
    for _ in 0..2 {
        grow(&mut g, &mut m, &p);
    }
    inward(&graph(&g, &m, false), &m);
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c24_un() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    let p = Pool::any();
    for _ in 0..2 {
        grow(&mut g, &mut m, &p);
    }
    graph(&g, &m, false);
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c24_di_shapes() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    by_id(&mut g, &mut m, &[7, 2, 4][..choose(4) as usize], false);
    let h = graph(&g, &m, true);
    inward(&h, &m);
    on(h, m);
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c24_un_shapes() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    by_id(&mut g, &mut m, &[7, 2, 4][..choose(4) as usize], true);
    let h = graph(&g, &m, true);
    on(h, m);
}
/// A node taken out again leaves its mark on the largest id and the labels.
#[no_mangle]
pub extern "C" fn c24_removed() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    let (a, b, c) = (u8_(), u8_(), u8_());
    g.add_edge(a, b, Some(c));
    m.add_edge(a, b, Some(c));
    g.add_node(c, Some(a));
    m.add_node(c, Some(a));
    g.remove_node(c);
    m.remove_node(c);
    inward(&graph(&g, &m, true), &m);
}
fn fixed<Ty>(s: &St<Ty>, m: &Model, cut: bool) -> St<Ty>
where
    Ty: GraphType + serde::Serialize + serde::de::DeserializeOwned,
{
    let h = trip(s, cut);
    check!(h == *s, "the imported graph equals the exported one");
    whole(&h, m);
    check!(h.get_node_label_map() == s.get_node_label_map(), "the map of node labels comes back");
    check!(h.get_edge_label_map() == s.get_edge_label_map(), "the map of edge labels comes back");
    check!(h.max_seen_id() == s.max_seen_id(), "the largest id comes back");
    check!(h.get_labels() == s.get_labels(), "label ids come back");
    check!(h.get_edge_vec() == s.get_edge_vec() && h.get_in_edge_vec() == s.get_in_edge_vec(), "edges come back in order");
    h
}
type St<Ty> = TypedStaticGraph<u8, u8, u8, Ty, u32>;
//@ shards=16
#[no_mangle]
pub extern "C" fn c24_static_di() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    shape(&mut g, &mut m, &[0, 1, 2][..choose(3) as usize], true, any_label);
    inward(&fixed(&g.into_static(), &m, false), &m);
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c24_static_un() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    shape(&mut g, &mut m, &[0, 1, 2][..choose(3) as usize], false, any_label);
    fixed(&g.into_static(), &m, false);
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c24_static_shapes() {
    let ids = &[0, 1, 2][..choose(4) as usize];
    if flag() {
        let (mut g, mut m) = (Di::new(), Model::new(true));
        by_id(&mut g, &mut m, ids, false);
        inward(&fixed(&g.into_static(), &m, true), &m);
    } else {
        let (mut g, mut m) = (Un::new(), Model::new(false));
        by_id(&mut g, &mut m, ids, true);
        fixed(&g.into_static(), &m, true);
    }
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c24_edge_vec() {
    let off: Vec<usize> = (0..choose(4)).map(|_| u64_() as usize).collect();
    let e: Vec<u32> = (0..choose(3)).map(|_| u32_()).collect();
    let v = if flag() {
        let l: Vec<u16> = e.iter().map(|_| u16_()).collect();
        EdgeVec::<u32, u16>::with_labels(off, e, l)
    } else {
        EdgeVec::<u32, u16>::new(off, e)
    };
    check!(trip(&v, true) == v, "the imported edges equal the exported ones");
}
/// Maps, by their own export and import.
//@ shards=4
#[no_mangle]
pub extern "C" fn c24_maps() {
    let p = path();
    let n = choose(5);
    let (mut s, mut v) = (SetMap::<u8>::new(), VecMap::<u8>::new());
    let mut m = Vec::new();
    for _ in 0..n {
        let x = u8_();
        s.add_item(x);
        v.add_item(x);
        add_to(&mut m, x);
    }
    check!(s.export(&p).is_ok(), "exporting succeeds");
    let t = SetMap::<u8>::import(&p).unwrap();
    check!(t == s, "the imported map equals the exported one");
    map_is(&t, &m, &[u8_()]);
    check!(trip(&s, true) == s, "the imported map equals the exported one");
    check!(v.export(&p).is_ok(), "exporting succeeds");
    let w = VecMap::<u8>::import(&p).unwrap();
    check!(w == v, "the imported map equals the exported one");
    map_is(&w, &m, &[u8_()]);
    check!(trip(&v, true) == v, "the imported map equals the exported one");
    check!(SetMap::<u8>::import(dir() + "/none").is_err() && VecMap::<u8>::import(dir() + "/none").is_err(), "a missing file is refused");
    missing::<Di>();
    missing::<St<Undirected>>();
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c24_texts() {
    let (mut s, mut v, mut m) = (SetMap::<String>::new(), VecMap::<Option<String>>::new(), Vec::new());
    for _ in 0..choose(3) {
        let x = text();
        s.add_item(x.clone());
        v.add_item(if flag() { Some(x.clone()) } else { None });
        add_to(&mut m, x);
    }
    let t = trip(&s, true);
    check!(t == s, "the imported map equals the exported one");
    map_is(&t, &m, &[]);
    check!(trip(&v, true) == v, "the imported map equals the exported one");
}
/// Graphs with other labels and ids.
//@ shards=4
#[no_mangle]
pub extern "C" fn c24_wide() {
    let (a, b, c) = (u64_() as usize, u64_() as usize, u64_() as usize);
    let (x, y) = (text(), u16_());
    let mut g = TypedDiGraphMap::<usize, String, u16, u8>::new();
    g.add_edge(a, b, Some(y));
    g.add_node(c, Some(x.clone()));
    let h = trip(&g, false);
    check!(h == g, "the imported graph equals the exported one");
    check!(h.has_edge(a, b) && h.get_edge_label(a, b).map(|l| *l) == Some(y), "an edge has the label it had");
    check!(h.get_node_label(c).map_or(false, |l| *l == x), "a node has the label it had");
    check!(h.max_seen_id() == g.max_seen_id(), "the largest id comes back");
    let mut g = TypedUnGraphMap::<u32, Option<u8>, (u8, bool), u16>::new();
    let e = (u8_(), bool_());
    g.add_edge(a as u32, b as u32, Some(e));
    let l = Some(u8_());
    g.add_node(b as u32, Some(l));
    let h = trip(&g, false);
    check!(h == g, "the imported graph equals the exported one");
    check!(h.get_edge_label(b as u32, a as u32).map(|l| *l) == Some(e), "an edge has the label it had");
    check!(h.get_node_label(b as u32).map(|x| *x) == Some(l), "a node has the label it had");
}
/// What reordering gives: the renumbered graph with the map of ids.
//@ shards=16
#[no_mangle]
pub extern "C" fn c24_reorder() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    shape(&mut g, &mut m, &some_ids(choose(2))[..2], true, no_label);
    let r = g.reorder_id(flag(), flag(), flag());
    let mut s: ReorderResult<u8, u8, u8, Directed, u32> = trip(&r, true);
    check!(s == r, "the imported result equals the exported one");
    for n in 0..2 {
        check!(r.get_node_id_map().is_none() == s.get_node_id_map().is_none(), "the map of ids comes back");
        if r.get_node_id_map().is_some() {
            check!(s.get_original_node_id(n) == r.get_original_node_id(n), "the map of ids comes back");
        }
    }
    let mut r = r;
    check!(s.take_graph() == r.take_graph(), "the graph comes back");
    check!(trip(&r, true) == r, "a result without its graph comes back");
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c24_di_loops() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    by_id(&mut g, &mut m, &[7, 2, 4], true);
    inward(&graph(&g, &m, true), &m);
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c24_di3() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    let p = Pool::of(2, 2);
    for _ in 0..3 {
        grow(&mut g, &mut m, &p);
    }
    inward(&graph(&g, &m, false), &m);
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c24_un3() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    let p = Pool::of(2, 2);
    for _ in 0..3 {
        grow(&mut g, &mut m, &p);
    }
    graph(&g, &m, false);
}
/// Many nodes, edges and labels.
//@ shards=4
#[no_mangle]
pub extern "C" fn c24_many() {
    let k = flag();
    if flag() {
        let (mut g, mut m) = (Di::new(), Model::new(true));
        if k {
            crowd(&mut g, &mut m, 40, 5);
            let h = graph(&g, &m, false);
            inward(&h, &m);
            on(h, m);
        } else {
            crowd(&mut g, &mut m, 30, 1);
            inward(&fixed(&g.into_static(), &m, false), &m);
        }
    } else {
        let (mut g, mut m) = (Un::new(), Model::new(false));
        if k {
            crowd(&mut g, &mut m, 40, 5);
            let h = graph(&g, &m, false);
            on(h, m);
        } else {
            crowd(&mut g, &mut m, 30, 1);
            fixed(&g.into_static(), &m, false);
        }
    }
}
/// Files longer than what is written or read at once.
//@ shards=2
#[no_mangle]
pub extern "C" fn c24_long() {
    let long = |i: usize| String::from((b'a' + (i % 26) as u8) as char).repeat(100 + 61 * i);
    let mut s = SetMap::<String>::new();
    for i in 0..20 {
        s.add_item(long(i) + &String::from(below(128) as char));
    }
    check!(trip(&s, false) == s, "the imported map equals the exported one");
    let q = path();
    let b = std::fs::read(&q).unwrap();
    let k = [b.len() - 1, b.len() / 2, 8192, 8191, 8193][choose(5) as usize];
    std::fs::write(&q, &b[..k]).unwrap();
    check!(SetMap::<String>::import(&q).is_err(), "a file that was cut short is refused");
}
/// A file that cannot be read to its end, and one that is read in pieces.
//@ shards=4
#[no_mangle]
pub extern "C" fn c24_unread() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    crowd(&mut g, &mut m, 40, 5);
    let p = path();
    check!(g.export(&p).is_ok(), "exporting succeeds");
    let half = flag();
    if half {
        fs_short(true);
        fs_intr(choose(4) as u64);
    }
    fs_fail(choose(6) as u64);
    let r = Di::import(&p);
    let asked = fs_fail(0);
    fs_short(false);
    fs_intr(0);
    cover!(r.is_ok());
    cover!(r.is_err());
    match r {
        Ok(h) => {
            check!(h == g, "the imported graph equals the exported one");
            whole(&h, &m);
        }
        Err(_) => check!(asked == 0, "a file that can be read is imported"),
    }
}
/// Hundreds of nodes, edges and labels.
//@ shards=4
#[no_mangle]
pub extern "C" fn c24_hundreds() {
    if flag() {
        hundreds::<u16, u16, Directed>(1100, 1)
    } else {
        hundreds::<u32, u32, Undirected>(260, 1)
    }
}
