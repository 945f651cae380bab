//! Difference: what only the first graph holds, with its labels; every operator alike.
//! bound: pairs of a node and an edge each over any u8 ids and labels; all pairs of shapes on overlapping sets of up to 3 nodes; every operator; static graphs; a directed and an undirected one, mapped or not; 3 ids of any 32 and 64 bits; two graphs of 300 nodes and hundreds of edges that share 30 nodes
use crate::util::*;
use crate::wide::*;
use rust_graph::algorithm::graph_minus;
use rust_graph::graph_impl::StaticGraphMmap;
type Dyn = dyn GeneralGraph<u8, u8, u8, u32>;

fn minus(a: &Model, b: &Model) -> Model {
    let mut m = Model::new(a.dir);
    m.nodes = a.nodes.iter().filter(|x| !b.has(x.0)).map(|x| *x).collect();
    m.edges = a.edges.iter().filter(|x| m.has(x.0) && m.has(x.1) && !b.adj(x.0, x.1)).map(|x| *x).collect();
    m
}
fn by_ref(g: &Dyn, h: &Dyn, a: &Model, b: &Model) {
    let r = graph_minus(g, h);
    let m = minus(a, b);
    whole(r.as_labeled_graph(), &m);
    check!(r.as_digraph().is_some() == m.dir, "the difference is of the kind of the first graph");
    let r = g - h;
    whole(r.as_labeled_graph(), &m);
    whole(g.as_labeled_graph(), a);
    whole(h.as_labeled_graph(), b);
}
/// The kinds of operands there are.
macro_rules! go {
    ($f:ident, $g:ty, $inn:expr) => {
        fn $f(g: $g, h: $g, a: &Model, b: &Model, k: u8) {
            let m = minus(a, b);
            match k {
                0 => by_ref(&g, &h, a, b),
                1 => {
                    let r = g - h;
                    whole(&r, &m);
                    $inn(&r, &m);
                }
                2 => {
                    let r = Box::new(g) - Box::new(h);
                    whole(&r, &m);
                    $inn(&r, &m);
                }
                _ => {
                    let r: Box<Dyn> = (Box::new(g) as Box<Dyn>) - (Box::new(h) as Box<Dyn>);
                    whole(r.as_labeled_graph(), &m);
                }
            }
        }
    };
}
fn nothing(_: &Un, _: &Model) {}
go!(di, Di, inward);
go!(un, Un, nothing);
fn put<G: MutGraphTrait<u8, u8, u8, u32>>(g: &mut G, m: &mut Model, node: bool) {
    if node {
        let (n, l) = (u8_(), opt(256));
        g.add_node(n, l);
        m.add_node(n, l);
    }
    let (s, t, l) = (u8_(), u8_(), opt(256));
    g.add_edge(s, t, l);
    m.add_edge(s, t, l);
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c21_di_any() {
    let (mut g, mut h, mut a, mut b) = (Di::new(), Di::new(), Model::new(true), Model::new(true));
    let k = choose(3);
    put(&mut g, &mut a, k == 1);
    put(&mut h, &mut b, k == 2);
    di(g, h, &a, &b, k);
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c21_un_any() {
    let (mut g, mut h, mut a, mut b) = (Un::new(), Un::new(), Model::new(false), Model::new(false));
    let k = choose(3);
    put(&mut g, &mut a, k == 1);
    put(&mut h, &mut b, k == 2);
    un(g, h, &a, &b, k + 1);
}
/// Labels of every kind of overlap: both, one, none; the same or another.
fn filled<G: MutGraphTrait<u8, u8, u8, u32>>(g: &mut G, m: &mut Model, ids: &[u8], loops: bool, turn: u8) {
    let l = |x: u8| if x % 3 == 0 { None } else { Some(x % 3 + 7) };
    for &i in ids {
        g.add_node(i, l(i + turn));
        m.add_node(i, l(i + turn));
    }
    for (a, &i) in ids.iter().enumerate() {
        for (b, &j) in ids.iter().enumerate() {
            if (loops || a != b) && (m.dir || a <= b) && flag() {
                let (s, t) = if turn > 0 && !m.dir { (j, i) } else { (i, j) };
                g.add_edge(s, t, l(i * 2 + j + turn));
                m.add_edge(s, t, l(i * 2 + j + turn));
            }
        }
    }
}
fn sets(k: u8) -> &'static [u8] {
    match k {
        0 => &[],
        1 => &[4],
        2 => &[4, 9],
        3 => &[9, 3],
        _ => &[20, 21],
    }
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c21_di_shapes() {
    let (mut g, mut h, mut a, mut b) = (Di::new(), Di::new(), Model::new(true), Model::new(true));
    filled(&mut g, &mut a, sets(choose(4)), true, 0);
    filled(&mut h, &mut b, sets(choose(5)), true, 1 + choose(2));
    di(g, h, &a, &b, choose(4));
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c21_un_shapes() {
    let (mut g, mut h, mut a, mut b) = (Un::new(), Un::new(), Model::new(false), Model::new(false));
    filled(&mut g, &mut a, &[3, 4, 9][..choose(4) as usize], false, 0);
    filled(&mut h, &mut b, sets(choose(5)), true, 1 + choose(2));
    un(g, h, &a, &b, choose(4));
}
/// Static operands.
//@ shards=4
#[no_mangle]
pub extern "C" fn c21_static() {
    let k = choose(3) as usize;
    let (mut g, mut h, mut a, mut b) = (Di::new(), Di::new(), Model::new(true), Model::new(true));
    filled(&mut g, &mut a, &[0, 1][..k], true, 0);
    filled(&mut h, &mut b, &[1, 4], true, 1);
    by_ref(&g.into_static(), &h, &a, &b);
    let (mut g, mut h, mut a, mut b) = (Un::new(), Un::new(), Model::new(false), Model::new(false));
    filled(&mut g, &mut a, &[0, 1][..k], false, 0);
    filled(&mut h, &mut b, &[0, 1], false, 1);
    by_ref(&g.into_static(), &h.into_static(), &a, &b);
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c21_di_shapes3() {
    let (mut g, mut h, mut a, mut b) = (Di::new(), Di::new(), Model::new(true), Model::new(true));
    filled(&mut g, &mut a, &[4, 9, 3], false, 0);
    filled(&mut h, &mut b, &[9, 3, 20], false, 1);
    di(g, h, &a, &b, choose(4));
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c21_un_shapes3() {
    let (mut g, mut h, mut a, mut b) = (Un::new(), Un::new(), Model::new(false), Model::new(false));
    filled(&mut g, &mut a, &[4, 9, 3], true, 0);
    filled(&mut h, &mut b, &[3, 9, 20], true, 2);
    un(g, h, &a, &b, choose(4));
}
/// Many nodes on both sides, some of them the same.
//@ shards=4
#[no_mangle]
pub extern "C" fn c21_many() {
    let (a, b) = ([1, 7][choose(2) as usize], [1, 5][choose(2) as usize]);
    if flag() {
        let (mut g, mut h, mut m, mut k) = (Di::new(), Di::new(), Model::new(true), Model::new(true));
        crowd(&mut g, &mut m, 20, a);
        towns(&mut h, &mut k, b);
        if flag() { di(g, h, &m, &k, choose(4)) } else { di(h, g, &k, &m, choose(4)) }
    } else {
        let (mut g, mut h, mut m, mut k) = (Un::new(), Un::new(), Model::new(false), Model::new(false));
        crowd(&mut g, &mut m, 20, a);
        towns(&mut h, &mut k, b);
        if flag() { un(g, h, &m, &k, choose(4)) } else { un(h, g, &k, &m, choose(4)) }
    }
}
/// Both ways between two nodes the label is the same, so that an undirected graph can hold it.
fn even<G: MutGraphTrait<u8, u8, u8, u32>>(g: &mut G, m: &mut Model, ids: &[u8], turn: u8) {
    for &i in ids {
        let l = if (i + turn) % 3 == 0 { None } else { Some(i + turn) };
        g.add_node(i, l);
        m.add_node(i, l);
        for &j in ids {
            let l = if (i + j + turn) % 3 == 0 { None } else { Some((i + j + turn) % 3) };
            if (m.dir || i <= j) && flag() {
                g.add_edge(i, j, l);
                m.add_edge(i, j, l);
            }
        }
    }
}
/// A directed and an undirected graph; one of them mapped.
//@ shards=8
#[no_mangle]
pub extern "C" fn c21_mixed() {
    let p = dir() + "/g";
    let (mut g, mut h, mut a, mut b) = (Un::new(), Di::new(), Model::new(false), Model::new(true));
    even(&mut g, &mut a, &[0, 1], 0);
    even(&mut h, &mut b, &[1, 3], 1);
    let (s1, s2);
    let g: &Dyn = if flag() {
        g.into_static().dump_mmap(&p).unwrap();
        s1 = StaticGraphMmap::<u8, u8, u8, u32>::new(&p);
        &s1
    } else {
        s2 = g;
        &s2
    };
    by_ref(g, &h, &a, &b);
    let r = graph_minus(&h, g);
    check!(r.is_directed() && r.as_digraph().is_some(), "the difference is of the kind of the first graph");
    whole(r.as_labeled_graph(), &minus(&b, &a));
    let r = &h as &Dyn - g;
    whole(r.as_labeled_graph(), &minus(&b, &a));
    whole(h.as_labeled_graph(), &b);
}
/// Ids of any width.
//@ shards=8
#[no_mangle]
pub extern "C" fn c21_widths() {
    use rust_graph::graph_impl::{TypedDiGraphMap, TypedUnGraphMap};
    let (mut m, mut n) = (Model::new(true), Model::new(true));
    if flag() {
        let ids = three::<u32>();
        let (mut g, mut h) = (TypedDiGraphMap::<u32, u8, u8, u16>::new(), TypedDiGraphMap::<u32, u8, u8, u16>::new());
        two_edges(&mut g, &mut m, &ids);
        one_edge(&mut h, &mut n, &ids);
        crate::wide::minus(&g, &m, &h, &n, &ids);
    } else {
        m.dir = false;
        n.dir = false;
        let ids = three::<usize>();
        let (mut g, mut h) = (TypedUnGraphMap::<usize, u8, u8, u16>::new(), TypedUnGraphMap::<usize, u8, u8, u16>::new());
        two_edges(&mut g, &mut m, &ids);
        one_edge(&mut h, &mut n, &ids);
        crate::wide::minus(&g, &m, &h, &n, &ids);
    }
}
/// Graphs of hundreds of nodes that share some.
//@ shards=2
#[no_mangle]
pub extern "C" fn c21_hundreds() {
    if flag() {
        sums::<u16, u16, Directed>(false);
    } else {
        sums::<u32, u32, Undirected>(false);
    }
}
