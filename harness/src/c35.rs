//! Chains of conversions keep what a graph holds.
//! bound: graphs of every shape on 2 nodes, any label on one of them and its edges (above 99 in longer chains); one conversion of ten or two in a row of five, then none, static, static imported, mapped (thorough: two of ten, three nodes, three conversions); a node among 260 neighbours through all
use crate::util::*;
use crate::wide::*;
use rust_graph::generic::MapTrait;
use rust_graph::graph_impl::{StaticGraphMmap, TypedDiGraphMap, TypedGraphMap, TypedStaticGraph, TypedUnGraphMap};
use rust_graph::io::csv::{read_from_csv, write_to_csv};
use rust_graph::io::serde::{Deserialize, Serialize};

type Map<Ty> = TypedGraphMap<u8, u8, u8, Ty, u8>;

fn base<Ty: GraphType>(g: &mut Map<Ty>, m: &mut Model, n: u8, any: bool) {
    let l = u8_();
    assume(any || l > 99);
    for i in 0..n {
        let x = [Some(l), None, Some(4)][i as usize];
        g.add_node(i, x);
        m.add_node(i, x);
    }
    for i in 0..n {
        for j in 0..n {
            if (m.dir || i <= j) && (i != j || (n < 3 && i == 0)) && flag() {
                let x = [None, Some(9), Some(l)][(i + 2 * j) as usize % 3];
                g.add_edge(i, j, x);
                m.add_edge(i, j, x);
            }
        }
    }
}
/// What both kinds of graph can do, told apart by type only.
trait Plain: Sized {
    fn fresh() -> Self;
    fn plus(self, b: Self) -> Self;
    fn less(self, b: Self) -> Self;
    fn csv(self) -> Self;
    fn file(self) -> Self;
    fn file_static(s: Static<Self::Ty>) -> Static<Self::Ty>;
    type Ty: GraphType;
}
type Static<Ty> = TypedStaticGraph<u8, u8, u8, Ty, u8>;
fn path(s: &str) -> String {
    dir() + s
}
/// Each file is used once.
fn fresh_path(s: &str) -> String {
    let mut i = 0;
    while fs_len(&path(&format!("{}{}", s, i))) != !0 {
        i += 1;
    }
    path(&format!("{}{}", s, i))
}
macro_rules! plain {
    ($t:ident, $ty:ty) => {
        impl Plain for $t<u8, u8, u8, u8> {
            type Ty = $ty;
            fn fresh() -> Self {
                Self::new()
            }
            fn plus(self, b: Self) -> Self {
                self + b
            }
            fn less(self, b: Self) -> Self {
                self - b
            }
            fn csv(self) -> Self {
                let (p, q) = (fresh_path("/n"), fresh_path("/e"));
                write_to_csv(&self, &p, &q).unwrap();
                let mut h = Self::new();
                read_from_csv(&mut h, Some(&p), &q, None, true, false).unwrap();
                h
            }
            fn file(self) -> Self {
                let p = fresh_path("/g");
                self.export(&p).unwrap();
                Self::import(&p).unwrap()
            }
            fn file_static(s: Static<$ty>) -> Static<$ty> {
                let p = fresh_path("/s");
                s.export(&p).unwrap();
                TypedStaticGraph::import(&p).unwrap()
            }
        }
    };
}
plain!(TypedDiGraphMap, Directed);
plain!(TypedUnGraphMap, Undirected);

fn step<Ty: GraphType>(g: Map<Ty>, how: u8) -> Map<Ty>
where
    Map<Ty>: Plain<Ty = Ty>,
{
    match how {
        0 => g.file(),
        1 => g.csv(),
        2 => Map::<Ty>::fresh().plus(g),
        3 => g.reorder_id(false, true, true).take_graph().unwrap(),
        4 => {
            // twice the same is once
            let h = g.clone();
            g.plus(h)
        }
        5 => g.less(Map::<Ty>::fresh()),
        6 => g.plus(Map::<Ty>::fresh()),
        7 => g.reorder_id(false, true, false).take_graph().unwrap(),
        8 => g.reorder_id(false, false, true).take_graph().unwrap(),
        _ => g.clone(),
    }
}
fn same_as<G: GraphLabelTrait<u8, u8, u8, u8>>(g: &G, m: &Model) {
    contents(g, m);
    check!(g.node_count() == m.nodes.len() && g.edge_count() == m.edges.len(), "a graph counts what it holds");
    outward(g, m);
    check!(g.max_seen_id() == m.nodes.iter().map(|n| n.0).max(), "the largest id is kept");
}
fn chain<Ty: GraphType + 'static>(n: u8, k: u8, of: u8, m: &mut Model) -> Map<Ty>
where
    Map<Ty>: Plain<Ty = Ty>,
{
    let mut g = Map::<Ty>::fresh();
    base(&mut g, m, n, k == 1);
    let first = g.clone();
    for _ in 0..k {
        g = step(g, choose(of));
    }
    same_as(&g, m);
    check!(g == first && first == g, "what went through conversions equals what it was");
    check!(fed(&g) == fed(&first), "and is hashed alike");
    g
}
fn end<Ty: GraphType + 'static>(g: Map<Ty>, m: &Model)
where
    Map<Ty>: Plain<Ty = Ty>,
{
    let (nl, el) = (g.get_node_label_map().len(), g.get_edge_label_map().len());
    let s = g.into_static();
    same_as(&s, m);
    check!(s.get_node_label_map().len() <= nl && s.get_edge_label_map().len() <= el, "no labels come from nowhere");
    let s = if flag() { <Map<Ty> as Plain>::file_static(s) } else { s };
    same_as(&s, m);
    if flag() {
        let p = path("/m");
        s.dump_mmap(&p).unwrap();
        let d = StaticGraphMmap::<u8, u8, u8, u8>::new(&p);
        same_as(&d, m);
        let e = StaticGraphMmap::<u8, u8, u8, u8>::new(&p);
        same_as(&e, m);
    }
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c35_di() {
    let mut m = Model::new(true);
    let g = chain::<Directed>(2, 2, 5, &mut m);
    inward(&g, &m);
    end(g, &m);
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c35_un() {
    let mut m = Model::new(false);
    let g = chain::<Undirected>(2, 2, 5, &mut m);
    end(g, &m);
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c35_one() {
    if flag() {
        let mut m = Model::new(true);
        let g = chain::<Directed>(2, 1, 10, &mut m);
        inward(&g, &m);
        end(g, &m);
    } else {
        let mut m = Model::new(false);
        let g = chain::<Undirected>(2, 1, 10, &mut m);
        end(g, &m);
    }
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c35_all() {
    let mut m = Model::new(true);
    let g = chain::<Directed>(2, 2, 10, &mut m);
    end(g, &m);
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c35_di3() {
    let mut m = Model::new(true);
    let g = chain::<Directed>(3, 2, 5, &mut m);
    end(g, &m);
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c35_un3() {
    let mut m = Model::new(false);
    let g = chain::<Undirected>(3, 2, 5, &mut m);
    end(g, &m);
}
//@ shards=32 tier=thorough
#[no_mangle]
pub extern "C" fn c35_three() {
    let mut m = Model::new(true);
    let g = chain::<Directed>(2, 3, 5, &mut m);
    end(g, &m);
}
/// A node in the middle of hundreds, through everything.
//@ shards=6
#[no_mangle]
pub extern "C" fn c35_hundreds() {
    fn ends<Ty: GraphType>(g: TypedGraphMap<u16, u16, u16, Ty, u16>, k: usize)
    where
        TypedGraphMap<u16, u16, u16, Ty, u16>: GeneralGraph<u16, u16, u16, u16>,
    {
        let (p, q) = (fresh_path("/n"), fresh_path("/e"));
        g.export(&p).unwrap();
        let g2 = TypedGraphMap::<u16, u16, u16, Ty, u16>::import(&p).unwrap();
        check!(g2 == g, "a conversion keeps the graph");
        write_to_csv(&g2, &p, &q).unwrap();
        let mut h = TypedGraphMap::<u16, u16, u16, Ty, u16>::new();
        read_from_csv(&mut h, Some(&p), &q, None, true, false).unwrap();
        hub_is(&h, 260, k);
        check!(h == g && h.clone() == h, "a conversion keeps the graph");
        let h = h.reorder_id(false, true, true).take_graph().unwrap();
        check!(h == g && fed(&h) == fed(&g), "a conversion keeps the graph");
        let s = h.into_static();
        let r = fresh_path("/s");
        s.export(&r).unwrap();
        let s = TypedStaticGraph::<u16, u16, u16, Ty, u16>::import(&r).unwrap();
        hub_is(&s, 260, k);
        s.dump_mmap(&r).unwrap();
        hub_is(&StaticGraphMmap::<u16, u16, u16, u16>::new(&r), 260, k);
    }
    if flag() {
        let (g, k) = hub::<u16, u16, Directed>(260);
        let e = TypedDiGraphMap::new();
        ends(g + e, k);
    } else {
        let (g, k) = hub::<u16, u16, Undirected>(260);
        let e = TypedUnGraphMap::new();
        ends(g - e, k);
    }
}
