//! A graph written to CSV and read back is the same graph.
//! bound: two edges or nodes over any u8 ids and labels, any shape on up to 3 nodes, any 64-bit id; labels of up to 2 ASCII characters, and one of any Unicode character; every separator byte but a quote and line ends; ids at the ends of 8, 16, 32 and 63 bits; a node among 260 and 1100 neighbours
use crate::util::*;
use crate::wide::*;
use rust_graph::graph_impl::TypedGraphMap;
use rust_graph::io::csv::{write_to_csv, CSVReader, CSVWriter};

fn files() -> (String, String) {
    (dir() + "/n.csv", dir() + "/e.csv")
}
/// Through the files, with a separator.
fn sent<NL, EL, Ty, Id>(g: &TypedGraphMap<Id, NL, EL, Ty, u32>, sep: &str) -> TypedGraphMap<Id, NL, EL, Ty, u32>
where
    Id: IdType + serde::Serialize + serde::de::DeserializeOwned,
    NL: std::hash::Hash + Eq + serde::Serialize + serde::de::DeserializeOwned,
    EL: std::hash::Hash + Eq + serde::Serialize + serde::de::DeserializeOwned,
    Ty: GraphType,
    TypedGraphMap<Id, NL, EL, Ty, u32>: GeneralGraph<Id, NL, EL, u32>,
{
    let (n, e) = files();
    let mut h = TypedGraphMap::new();
    if sep == "," {
        check!(write_to_csv(g, &n, &e).is_ok(), "writing succeeds");
        check!(CSVReader::new(Some(&n), &e).read(&mut h).is_ok(), "reading succeeds");
    } else {
        check!(CSVWriter::with_separator(g, &n, &e, sep).write().is_ok(), "writing succeeds");
        check!(CSVReader::with_separator(Some(&n), &e, sep).read(&mut h).is_ok(), "reading succeeds");
    }
    h
}
fn named() -> &'static str {
    match choose(5) {
        0 => ",",
        1 => "comma",
        2 => "space",
        3 => "tab",
        _ => "|",
    }
}
/// A node and two edges in which some numbers are any, the others fixed.
fn some<G: MutGraphTrait<u8, u8, u8, u32>>(g: &mut G, m: &mut Model, any: &[u8]) {
    let v = |i: u8, x: u8| if any.contains(&i) { u8_() } else { x };
    let (n, s, t, u) = (v(0, 7), v(1, 101), v(2, 12), v(3, 0));
    let l = |i: u8| if any.contains(&i) { opt(256) } else { Some(i) };
    let (x, y) = (l(4), l(5));
    g.add_node(n, x);
    m.add_node(n, x);
    g.add_edge(s, t, y);
    m.add_edge(s, t, y);
    g.add_edge(t, u, None);
    m.add_edge(t, u, None);
}
fn di(any: &[u8]) {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    some(&mut g, &mut m, any);
    let h = sent(&g, ",");
    check!(h == g, "the graph read equals the one written");
    whole(&h, &m);
    inward(&h, &m);
}
fn un(any: &[u8]) {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    some(&mut g, &mut m, any);
    let h = sent(&g, "tab");
    check!(h == g, "the graph read equals the one written");
    whole(&h, &m);
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c25_di_any() {
    di(&[choose(6)]);
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c25_un_any() {
    un(&[choose(6)]);
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c25_di_two() {
    di(&[choose(4), 4 + choose(2)]);
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c25_un_two() {
    un(&[choose(2), 2 + choose(2)]);
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c25_di_shapes() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    by_id(&mut g, &mut m, &[7, 2, 40][..choose(4) as usize], false);
    let h = sent(&g, ",");
    check!(h == g, "the graph read equals the one written");
    whole(&h, &m);
    inward(&h, &m);
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c25_un_shapes() {
    let (mut g, mut m) = (Un::new(), Model::new(false));
    by_id(&mut g, &mut m, &[7, 2, 40][..choose(4) as usize], true);
    let h = sent(&g, named());
    check!(h == g, "the graph read equals the one written");
    whole(&h, &m);
}
type Texts<Ty> = TypedGraphMap<u8, String, String, Ty, u32>;
fn texts<Ty: GraphType>(x: String, y: String, sep: &str)
where
    Texts<Ty>: GeneralGraph<u8, String, String, u32>,
{
    let mut g = Texts::<Ty>::new();
    g.add_node(1, Some(x.clone()));
    g.add_edge(3, 2, Some(y.clone()));
    let h = sent(&g, sep);
    check!(h == g, "the graph read equals the one written");
    check!(h.node_count() == 3 && h.edge_count() == 1 && h.has_edge(3, 2), "the nodes and edges written are read");
    check!(h.get_node_label(1).map_or(false, |l| *l == x), "a node has the label that was written");
    check!(h.get_edge_label(3, 2).map_or(false, |l| *l == y), "an edge has the label that was written");
    check!(h.get_node_label(2).is_none(), "a node written without a label has none");
}
fn full_text() -> String {
    let x = text();
    assume(x.len() > 0);
    x
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c25_node_text() {
    texts::<Directed>(full_text(), "y".into(), named());
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c25_edge_text() {
    texts::<Undirected>("x".into(), full_text(), named());
}
/// Any separator there can be.
//@ shards=8
#[no_mangle]
pub extern "C" fn c25_separator() {
    let c = conc(below(128) as u64) as u8;
    assume(c != b'"' && c != b'\n' && c != b'\r');
    let sep = String::from(c as char);
    let x = String::from(below(128) as char) + "x";
    texts::<Directed>(x, "5 1".into(), &sep);
}
/// What cannot be a separator is refused; names of separators.
#[no_mangle]
pub extern "C" fn c25_separators() {
    let mut g = TypedGraphMap::<u8, u8, u8, Directed, u32>::new();
    let (x, y, l) = (below(4), below(4), below(4));
    g.add_edge(x, y, Some(l));
    g.add_node(x, Some(l));
    let (n, e) = (dir() + "/n", dir() + "/e");
    if flag() {
        let s = ["", "ab", "\u{e9}", "commas", "Comma", ",,"][choose(6) as usize];
        check!(panics(|| { CSVWriter::with_separator(&g, &n, &e, s); }), "a separator that is not one byte is refused");
        return;
    }
    let (name, c) = [("comma", ","), ("space", " "), ("tab", "\t"), ("|", "|"), (",", ",")][choose(5) as usize];
    check!(CSVWriter::with_separator(&g, &n, &e, name).write().is_ok(), "writing succeeds");
    let read = |p: &str| std::fs::read_to_string(p).unwrap().lines().map(|l| l.split(c).map(|f| f.to_string()).collect::<Vec<_>>()).collect::<Vec<_>>();
    let row = |f: &[u8]| f.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let v = read(&e);
    check!(v == vec![vec![":START_ID".to_string(), ":END_ID".to_string(), ":TYPE".to_string()], row(&[x, y, l])], "an edge is a line with its ends and its label, as the separator named parts them");
    let v = read(&n);
    check!(v[0] == ["nodeId:ID", ":LABEL"] && v.len() == if x == y { 2 } else { 3 }, "a node is a line");
    check!(v[1..].contains(&row(&[x, l])), "a node's line has its id and its label");
    check!(x == y || v[1..].contains(&vec![y.to_string(), String::new()]), "no label is an empty field");
}
/// Characters of several bytes.
#[no_mangle]
pub extern "C" fn c25_unicode() {
    let c = std::char::from_u32(u32_());
    assume(c.is_some());
    let c = c.unwrap();
    texts::<Undirected>(String::from(c), "".to_string() + "a" + &String::from(c), "space");
}
/// Labels of other types, large ids.
//@ shards=8
#[no_mangle]
pub extern "C" fn c25_types() {
    let mut g = TypedGraphMap::<u32, bool, char, Directed, u32>::new();
    let (mut a, mut b, mut l, mut c) = (4_000_000_000, 70_000, false, '5');
    match choose(3) {
        0 => a = 0xffff_ff00 | u8_() as u32,
        1 => b = 65_500 + u8_() as u32,
        _ => {
            l = bool_();
            c = below(128) as char;
        }
    }
    g.add_edge(a, b, Some(c));
    g.add_node(b, Some(l));
    let h = sent(&g, ",");
    check!(h == g, "the graph read equals the one written");
    check!(h.has_edge(a, b) && h.get_edge_label(a, b).map(|x| *x) == Some(c), "an edge has the label that was written");
    check!(h.get_node_label(b).map(|x| *x) == Some(l), "a node has the label that was written");
}
/// Many nodes, edges and labels.
//@ shards=4
#[no_mangle]
pub extern "C" fn c25_many() {
    if flag() {
        let (mut g, mut m) = (Di::new(), Model::new(true));
        crowd(&mut g, &mut m, 40, 5);
        let h = sent(&g, named());
        check!(h == g, "the graph read equals the one written");
        whole(&h, &m);
        inward(&h, &m);
    } else {
        let (mut g, mut m) = (Un::new(), Model::new(false));
        crowd(&mut g, &mut m, 40, 5);
        let h = sent(&g, named());
        check!(h == g, "the graph read equals the one written");
        whole(&h, &m);
    }
}
/// Files longer than what is written or read at once.
#[no_mangle]
pub extern "C" fn c25_long() {
    let long = |i: usize| String::from((b'a' + (i % 26) as u8) as char).repeat(150 + 37 * i);
    let x = String::from(below(128) as char);
    let mut g = Texts::<Directed>::new();
    for i in 0..24 {
        g.add_node(i as u8, Some(long(i)));
        g.add_edge(i as u8, (i * 5 % 24) as u8, Some(if i == 23 { x.clone() + &long(0) } else { long(23 - i) }));
    }
    let h = sent(&g, "tab");
    check!(h == g, "the graph read equals the one written");
    check!(h.edge_count() == 24 && h.get_edge_label(23, 19).map_or(false, |l| l[1..] == long(0)), "an edge has the label that was written");
}
/// Ids that need all the width there is.
//@ shards=2
#[no_mangle]
pub extern "C" fn c25_widths() {
    fn go<Id: Wide + serde::Serialize, Ty: GraphType>(v: &[[usize; 3]])
    where
        TypedGraphMap<Id, u8, u8, Ty, u32>: GeneralGraph<Id, u8, u8, u32>,
    {
        let ids: Vec<Id> = v[choose(v.len() as u8) as usize].iter().map(|x| Id::new(*x)).collect();
        let (mut g, mut m) = (TypedGraphMap::<Id, u8, u8, Ty, u32>::new(), Model::new(Ty::is_directed()));
        two_edges(&mut g, &mut m, &ids);
        let h = sent(&g, ",");
        is(&h, &m, &ids, Id::max_value());
        check!(h == g, "the graph read equals the one written");
    }
    if flag() {
        go::<u32, Directed>(&[[255, 256, 257], [65535, 65536, 65792], [9, (1 << 31) - 1, 1 << 31], [999_999_999, 1_000_000_000, (1 << 32) - 1]]);
    } else {
        go::<usize, Undirected>(&[[0, (1 << 32) - 1, 1 << 32], [1, 1 << 53, (1 << 53) + 1], [(1 << 63) - 1, 1 << 63, !0 - 1]]);
    }
}
/// A node in the middle of hundreds.
//@ shards=2
#[no_mangle]
pub extern "C" fn c25_hundreds() {
    if flag() {
        let (g, k) = hub::<u16, u32, Directed>(1100);
        let h = sent(&g, "tab");
        hub_is(&h, 1100, k);
        hub_in(&h, 1100, k);
    } else {
        let (g, k) = hub::<u32, u32, Undirected>(260);
        hub_is(&sent(&g, ","), 260, k);
    }
}
