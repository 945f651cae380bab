//! CSV rows are parsed or skipped one by one.
//! bound: files of 2 rows of 15 kinds under 6 headers and none, flexible or not, either line end; one number of any two characters; any file of 4 ASCII bytes but quotes; any file of 3 bytes for agreement of read and the iterators; ids around the ends of 16, 32 and 64 bits
use crate::util::*;
use crate::wide::*;
use rust_graph::io::csv::{read_from_csv, CSVReader};

type Nodes = Vec<(u8, Option<u8>)>;
type Edges = Vec<(u8, u8, Option<u8>)>;

/// A number as a field, if it is one.
fn num(x: &[u8]) -> Option<u8> {
    let (x, base) = if x.len() > 1 && x[0] == b'0' && x[1] == b'x' { (&x[2..], 16) } else { (x, 10) };
    let x = if x.len() > 1 && x[0] == b'+' { &x[1..] } else { x };
    if x.is_empty() {
        return None;
    }
    let mut n = 0u32;
    for &c in x {
        let d = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            b'A'..=b'F' => c - b'A' + 10,
            _ => return None,
        };
        if d as u32 >= base {
            return None;
        }
        n = n * base + d as u32;
        if n > 255 {
            return None;
        }
    }
    Some(n as u8)
}
/// The records of a file without quotes.
fn records(file: &[u8], sep: u8) -> Vec<Vec<Vec<u8>>> {
    let mut all = vec![];
    let mut row = vec![];
    let mut field = vec![];
    for &c in file.iter().chain(&[b'\n']) {
        if c == b'\n' || c == b'\r' {
            if !row.is_empty() || !field.is_empty() {
                row.push(field);
                all.push(row);
            }
            row = vec![];
            field = vec![];
        } else if c == sep {
            row.push(field);
            field = vec![];
        } else {
            field.push(c);
        }
    }
    all
}
/// What the columns say: the places of the ids and of the label in a row; None if no row can be read.
fn columns(names: &[&str], head: Option<&Vec<Vec<u8>>>) -> Option<Vec<usize>> {
    match head {
        None => Some((0..names.len()).collect()),
        Some(h) => {
            let mut at = vec![usize::max_value(); names.len()];
            for (i, f) in h.iter().enumerate() {
                let k = names.iter().position(|n| n.as_bytes() == &f[..])?;
                if at[k] != usize::max_value() {
                    return None;
                }
                at[k] = i;
            }
            Some(at)
        }
    }
}
/// The numbers and the label of every row that can be parsed.
fn rows(file: &[u8], names: &[&str], headers: bool, flexible: bool, sep: u8) -> Vec<(Vec<u8>, Option<u8>)> {
    let all = records(file, sep);
    let mut out = vec![];
    if all.is_empty() {
        return out;
    }
    let at = match columns(names, if headers { Some(&all[0]) } else { None }) {
        Some(x) => x,
        None => return out,
    };
    for row in all.iter().skip(headers as usize) {
        if !flexible && row.len() != all[0].len() {
            continue;
        }
        let mut ids = vec![];
        for &c in &at[..names.len() - 1] {
            if let Some(n) = row.get(c).and_then(|f| num(f)) {
                ids.push(n);
            }
        }
        if ids.len() == names.len() - 1 {
            out.push((ids, row.get(at[names.len() - 1]).and_then(|f| num(f))));
        }
    }
    out
}
const NODE: [&str; 2] = ["nodeId:ID", ":LABEL"];
const EDGE: [&str; 3] = [":START_ID", ":END_ID", ":TYPE"];

fn graph<G: MutGraphTrait<u8, u8, u8, u32>>(g: &mut G, m: &mut Model, ns: &Nodes, es: &Edges) {
    let _ = g;
    for &(n, l) in ns {
        m.add_node(n, l);
    }
    for &(s, t, l) in es {
        m.add_edge(s, t, l);
    }
}
/// Both files, read every way, give these rows.
fn expect(reader: &CSVReader<u8, u8, u8>, ns: &Nodes, es: &Edges, iters: bool) {
    let reader = &reader.clone();
    let (mut g, mut m) = (Di::new(), Model::new(true));
    check!(reader.read(&mut g).is_ok(), "reading files that are there succeeds");
    graph(&mut g, &mut m, ns, es);
    whole(&g, &m);
    if iters {
        let x: Nodes = reader.node_iter().unwrap().collect();
        check!(x == *ns, "node_iter gives the rows that can be parsed");
        let x: Edges = reader.edge_iter().unwrap().collect();
        check!(x == *es, "edge_iter gives the rows that can be parsed");
    }
}
fn nodes_of(file: &[u8], headers: bool, flexible: bool, sep: u8) -> Nodes {
    rows(file, &NODE, headers, flexible, sep).into_iter().map(|(i, l)| (i[0], l)).collect()
}
fn edges_of(file: &[u8], headers: bool, flexible: bool, sep: u8) -> Edges {
    rows(file, &EDGE, headers, flexible, sep).into_iter().map(|(i, l)| (i[0], i[1], l)).collect()
}
fn paths() -> (String, String) {
    (dir() + "/n", dir() + "/e")
}
fn files(n: &[u8], e: &[u8], headers: bool, flexible: bool) {
    both(n, e, headers, flexible, true)
}
fn both(n: &[u8], e: &[u8], headers: bool, flexible: bool, iters: bool) {
    let (p, q) = paths();
    std::fs::write(&p, n).unwrap();
    std::fs::write(&q, e).unwrap();
    let r = CSVReader::<u8, u8, u8>::new(Some(&p), &q).headers(headers).flexible(flexible);
    expect(&r, &nodes_of(n, headers, flexible, b','), &edges_of(e, headers, flexible, b','), iters);
}
fn node_row(k: u8) -> &'static str {
    ["7,9", "8,", "8", "7", ",5", "x,5", "256,1", "0x1f,2", "+4,300", "12,x", "5,6,7", ",", "", "4,7,", " 4,7"][k as usize]
}
fn edge_row(k: u8) -> &'static str {
    ["7,9,1", "9,7,", "7,7", "3", "7,,5", "x,5,1", "5,x,1", "256,1,1", "0x1f,2,3", "+4,30,300", "12,1,x", "5,6,7,8", ",,", "", "1,2,3,"][k as usize]
}
fn text_file(head: &str, a: &str, b: &str, eol: &str, last: bool) -> Vec<u8> {
    let mut f = String::new();
    if head != "" {
        f = f + head + eol;
    }
    f = f + a + eol + b;
    if last {
        f = f + eol;
    }
    f.into_bytes()
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c26_node_rows() {
    let head = ["", "nodeId:ID,:LABEL", ":LABEL,nodeId:ID", "nodeId:ID", ":LABEL", "nodeId:ID,:LABEL,:LABEL", "nodeId:ID,other"][choose(7) as usize];
    let f = text_file(head, node_row(choose(15)), node_row(choose(15)), if head.len() % 2 == 0 { "\n" } else { "\r\n" }, head.len() % 3 == 0);
    for &flexible in &[true, false] {
        both(&f, b"", head != "", flexible, flexible == (f.len() % 2 == 0));
    }
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c26_edge_rows() {
    let head = ["", ":START_ID,:END_ID,:TYPE", ":TYPE,:END_ID,:START_ID", ":START_ID,:END_ID", ":END_ID,:TYPE", ":START_ID,:START_ID,:END_ID", ":START_ID,:END_ID,:LABEL"][choose(7) as usize];
    let f = text_file(head, edge_row(choose(15)), edge_row(choose(15)), if head.len() % 2 == 0 { "\n" } else { "\r\n" }, head.len() % 3 == 0);
    for &flexible in &[true, false] {
        both(b"", &f, head != "", flexible, flexible == (f.len() % 2 == 0));
    }
}
fn any_bytes(n: usize) -> Vec<u8> {
    (0..n).map(|_| below(128)).collect()
}
/// A number of any two characters, in any place of a row.
//@ shards=16
#[no_mangle]
pub extern "C" fn c26_numbers() {
    let x = any_bytes(2);
    for c in &x {
        assume(*c != b'"' && *c != b'\n' && *c != b'\r' && *c != b',');
    }
    let mut f: Vec<u8> = vec![];
    let k = choose(5);
    for i in 0..5 {
        if i == k {
            f.extend_from_slice(&x);
        } else {
            f.push(b'1' + i);
        }
        f.push(if i == 1 || i == 4 { b'\n' } else { b',' });
    }
    let n = f.iter().position(|c| *c == b'\n').unwrap() + 1;
    files(&f[..n], &f[n..], false, false);
}
/// A label and an id of any three bytes, in hexadecimal or not.
//@ shards=16
#[no_mangle]
pub extern "C" fn c26_hex() {
    let mut f = b"0x".to_vec();
    for c in any_bytes(2) {
        assume(c != b'"' && c != b'\n' && c != b'\r' && c != b',');
        f.push(c);
    }
    f.extend_from_slice(b",0xFf\n");
    files(&f, b"", false, false);
}
/// Any file.
//@ shards=32
#[no_mangle]
pub extern "C" fn c26_node_bytes() {
    let f = any_bytes(4);
    for c in &f {
        assume(*c != b'"');
    }
    files(&f, b"", false, true);
}
//@ shards=32
#[no_mangle]
pub extern "C" fn c26_edge_bytes() {
    let mut f = any_bytes(3);
    f.insert(1, b',');
    for c in &f {
        assume(*c != b'"');
    }
    let flexible = flag();
    files(b"", &f, false, flexible);
}
/// Any bytes at all: no panic, and the iterators agree with read.
fn agree(f: &[u8], headers: bool, flexible: bool) {
    let (p, q) = paths();
    std::fs::write(&p, f).unwrap();
    std::fs::write(&q, f).unwrap();
    let r = CSVReader::<u8, u8, u8>::with_separator(Some(&p), &q, "space").headers(headers).flexible(flexible);
    let ns: Nodes = r.node_iter().unwrap().collect();
    let es: Edges = r.edge_iter().unwrap().collect();
    expect(&r, &ns, &es, false);
}
//@ shards=32
#[no_mangle]
pub extern "C" fn c26_any() {
    let f = [u8_(), u8_(), u8_()];
    agree(&f, false, flag());
}
//@ shards=32
#[no_mangle]
pub extern "C" fn c26_any_rows() {
    // a row that parses, any bytes, another one
    let mut f = if flag() { b"nodeId:ID :LABEL\n4 5\n".to_vec() } else { b"4 5\n".to_vec() };
    f.push(u8_());
    f.push(u8_());
    f.extend_from_slice(b"\n6 7\n");
    let headers = f.len() > 12;
    agree(&f, headers, true);
}
/// Labels as they are written; separators; the function that reads both; a file that is missing.
//@ shards=8
#[no_mangle]
pub extern "C" fn c26_ways() {
    let (p, q) = paths();
    let (name, sep) = match choose(6) {
        0 => (None, ','),
        1 => (Some("comma"), ','),
        2 => (Some("space"), ' '),
        3 => (Some("tab"), '\t'),
        4 => (Some(";"), ';'),
        _ => (Some(","), ','),
    };
    let headers = flag();
    let x = below(128);
    assume(x != b'"' && x != b'\n' && x != b'\r' && x != sep as u8);
    let (x, sep) = (String::from(x as char), String::from(sep));
    let mut n = if headers { String::from("nodeId:ID") + &sep + ":LABEL\n" } else { String::new() };
    n = n + "1" + &sep + &x + "\n2" + &sep + "\n";
    let mut e = if headers { String::from(":START_ID") + &sep + ":END_ID" + &sep + ":TYPE\n" } else { String::new() };
    e = e + "2" + &sep + "3" + &sep + &x + &x + "\n3" + &sep + "1" + &sep + "\n";
    std::fs::write(&p, n).unwrap();
    std::fs::write(&q, e).unwrap();
    let mut g = rust_graph::graph_impl::UnGraphMap::<String>::new();
    let with_nodes = flag();
    let np = if with_nodes { Some(&p) } else { None };
    check!(read_from_csv(&mut g, np, &q, name, headers, flag()).is_ok(), "reading succeeds");
    check!(g.node_count() == 3 && g.edge_count() == 2, "the nodes and edges in the files are read");
    check!(g.get_node_label(1).map(|l| l.clone()) == if with_nodes { Some(x.clone()) } else { None }, "a label is what its field says");
    check!(g.get_node_label(2).is_none(), "an empty label is no label");
    check!(g.get_edge_label(3, 2).map_or(false, |l| *l == x.clone() + &x), "a label is what its field says");
    check!(g.get_edge_label(1, 3).is_none(), "an empty label is no label");
    let r = match name {
        None => CSVReader::<u8, String, String>::new(np, &q),
        Some(s) => CSVReader::<u8, String, String>::with_separator(np, &q, s),
    };
    let r = r.headers(headers).clone();
    let ns: Vec<_> = r.node_iter().unwrap().collect();
    check!(ns == if with_nodes { vec![(1, Some(x.clone())), (2, None)] } else { vec![] }, "node_iter gives the rows of the node file");
    let es: Vec<_> = r.edge_iter().unwrap().collect();
    check!(es == vec![(2, 3, Some(x.clone() + &x)), (3, 1, None)], "edge_iter gives the rows of the edge file");
    let none = dir() + "/none";
    check!(read_from_csv(&mut g, Some(&none), &q, name, headers, true).is_err(), "a missing node file is an error");
    check!(read_from_csv(&mut g, Some(&p), &none, name, headers, true).is_err(), "a missing edge file is an error");
    let r = CSVReader::<u8, String, String>::new(Some(&none), &none);
    check!(r.node_iter().is_err() && r.edge_iter().is_err(), "a missing file is an error");
}
/// Any separator there can be, any other character in a field.
//@ shards=8
#[no_mangle]
pub extern "C" fn c26_separators() {
    let c = conc(below(128) as u64) as u8;
    assume(c != b'"' && c != b'\n' && c != b'\r' && !(b'0'..=b'9').contains(&c));
    let sep = String::from(c as char);
    let (p, q) = paths();
    let other = String::from([',', '\t', '|', ' ', ';'][choose(5) as usize]);
    let n = String::from("4") + &sep + "5\n6" + &other + "1\n7" + &sep + "2";
    let e = String::from("4") + &sep + "6" + &sep + "8\n7" + &other + "6" + &other + "3\n6" + &sep + "6" + &sep;
    std::fs::write(&p, &n).unwrap();
    std::fs::write(&q, &e).unwrap();
    let r = CSVReader::<u8, u8, u8>::with_separator(Some(&p), &q, &sep).headers(false).flexible(true);
    expect(&r, &nodes_of(n.as_bytes(), false, true, c), &edges_of(e.as_bytes(), false, true, c), true);
}
/// A header that names a column twice says nothing of which is meant, so that no row can be parsed.
#[no_mangle]
pub extern "C" fn c26_twice() {
    let n = ["nodeId:ID,nodeId:ID", "nodeId:ID,:LABEL,nodeId:ID", ":LABEL,nodeId:ID,:LABEL", "nodeId:ID,:label", "nodeID:ID,:LABEL"][choose(5) as usize];
    let e = [":START_ID,:END_ID,:END_ID", ":START_ID,:END_ID,:TYPE,:TYPE", ":START_ID,:START_ID,:TYPE", ":START_ID,:END_ID,:TYPE,:END_ID", ":START_ID,:end_id"][choose(5) as usize];
    let n = n.to_string() + "\n1,2,3\n4,5\n,\n";
    let e = e.to_string() + "\n1,2,3\n4,5,6,7\n8,9\n";
    both(n.as_bytes(), e.as_bytes(), true, flag(), true);
}
/// What cannot be a separator is refused.
#[no_mangle]
pub extern "C" fn c26_separator() {
    let s = match choose(4) {
        0 => "",
        1 => "ab",
        2 => "\u{e9}",
        _ => "commas",
    };
    check!(panics(|| { CSVReader::<u8, u8, u8>::with_separator(None, "e", s); }), "a separator that is not one byte is refused");
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c26_node_bytes5() {
    let mut f = any_bytes(4);
    f.insert(2, b'\n');
    for c in &f {
        assume(*c != b'"');
    }
    files(&f, b"", false, flag());
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c26_edge_bytes5() {
    let mut f = any_bytes(4);
    f.insert(2, b',');
    for c in &f {
        assume(*c != b'"');
    }
    files(b"", &f, false, flag());
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c26_any4() {
    let f = [u8_(), u8_(), u8_(), u8_()];
    agree(&f, flag(), true);
}
/// A long file: more than is read at once, rows of every kind.
//@ shards=4
#[no_mangle]
pub extern "C" fn c26_long() {
    let n = 1200u32;
    let (mut f, mut g) = (String::new(), String::new());
    for i in 0..n {
        let k = ((i * 7) % 240) as u8;
        if i % 11 == 3 {
            f = f + node_row((i % 15) as u8) + "\n";
            g = g + edge_row((i / 11 % 15) as u8) + "\n";
        } else {
            f = f + &k.to_string() + "," + &(k / 3).to_string() + "\n";
            g = g + &k.to_string() + "," + &(k / 5).to_string() + "," + &(k / 2).to_string() + if i % 2 == 0 { "\n" } else { "\r\n" };
        }
    }
    if flag() {
        f.push_str("5,");
        g.push_str("5,6,");
    }
    let (p, q) = paths();
    std::fs::write(&p, &f).unwrap();
    std::fs::write(&q, &g).unwrap();
    let flexible = flag();
    let r = CSVReader::<u8, u8, u8>::new(Some(&p), &q).headers(false).flexible(flexible);
    let x: Nodes = r.node_iter().unwrap().collect();
    check!(x == nodes_of(f.as_bytes(), false, flexible, b','), "node_iter gives the rows that can be parsed");
    let x: Edges = r.edge_iter().unwrap().collect();
    check!(x == edges_of(g.as_bytes(), false, flexible, b','), "edge_iter gives the rows that can be parsed");
}
/// Numbers around the ends of the types.
//@ shards=3
#[no_mangle]
pub extern "C" fn c26_widths() {
    const NUMBERS: [&str; 13] = [
        "0", "255", "256", "65535", "65536", "99999", "2147483648", "4294967295", "4294967296", "10000000000", "18446744073709551615", "18446744073709551616", "-1",
    ];
    fn go<Id: Wide>() {
        let x = NUMBERS[choose(13) as usize];
        let id = x.parse::<u128>().ok().filter(|v| *v <= Id::max_usize() as u128).map(|v| Id::new(v as usize));
        let (p, q) = paths();
        std::fs::write(&p, [x, ",1\n2,3\n", x, "\n"].concat()).unwrap();
        std::fs::write(&q, ["1,", x, ",4\n", x, ",2,5\n3,4,6\n"].concat()).unwrap();
        let r = CSVReader::<Id, u16, u16>::new(Some(&p), &q).headers(false).flexible(true);
        let mut n = vec![(Id::new(2), Some(3))];
        let mut e = vec![(Id::new(3), Id::new(4), Some(6))];
        if let Some(i) = id {
            n.insert(0, (i, Some(1)));
            n.push((i, None));
            e.insert(0, (i, Id::new(2), Some(5)));
            e.insert(0, (Id::new(1), i, Some(4)));
        }
        check!(r.node_iter().unwrap().collect::<Vec<_>>() == n, "node_iter gives the rows that can be parsed");
        check!(r.edge_iter().unwrap().collect::<Vec<_>>() == e, "edge_iter gives the rows that can be parsed");
        let mut g = rust_graph::graph_impl::TypedDiGraphMap::<Id, u16, u16, Id>::new();
        check!(r.read(&mut g).is_ok(), "reading succeeds");
        check!(e.iter().all(|y| g.get_edge_label(y.0, y.1).map(|l| *l) == y.2) && g.edge_count() == e.len(), "the graph has the rows that can be parsed");
        check!(n.iter().all(|y| g.has_node(y.0)) && g.get_node_label(Id::new(2)).map(|l| *l) == id.map_or(Some(3), |i| if i.id() == 2 { None } else { Some(3) }), "the graph has the rows that can be parsed");
    }
    match choose(3) {
        0 => go::<u16>(),
        1 => go::<u32>(),
        _ => go::<usize>(),
    }
}
