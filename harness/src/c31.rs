//! The LDBC reader builds the graph the files describe.
//! bound: two files of a kind with 0 to 2 rows each, with ids of one or two digits, any; labels of any character; each of the 23 kinds of relation with 2 rows of any ids; 2 or 3 kinds together; directories listed in any order; short reads; directed and undirected; ids u8, u32; 40 places, each in another
use crate::util::*;
use rust_graph::graph_impl::TypedGraphMap;
use rust_graph::io::ldbc::{read_ldbc_from_path, Scheme};

/// What the LDBC files say: from, to, label.
const RELATIONS: [(&str, &str, &str); 23] = [
    ("comment", "person", "hasCreator"),
    ("comment", "tag", "hasTag"),
    ("comment", "place", "isLocatedIn"),
    ("comment", "comment", "replyOf"),
    ("comment", "post", "replyOf"),
    ("forum", "post", "containerOf"),
    ("forum", "person", "hasMember"),
    ("forum", "person", "hasModerator"),
    ("forum", "tag", "hasTag"),
    ("organisation", "place", "isLocatedIn"),
    ("person", "tag", "hasInterest"),
    ("person", "place", "isLocatedIn"),
    ("person", "person", "knows"),
    ("person", "comment", "likes"),
    ("person", "post", "likes"),
    ("person", "organisation", "studyAt"),
    ("person", "organisation", "workAt"),
    ("place", "place", "isPartOf"),
    ("post", "person", "hasCreator"),
    ("post", "tag", "hasTag"),
    ("post", "place", "isLocatedIn"),
    ("tag", "tagclass", "hasType"),
    ("tagclass", "tagclass", "isSubclassOf"),
];

/// What the files describe: entities by kind and id with their labels; which are related, and how.
struct Want {
    entities: Vec<(String, String, String)>,
    related: Vec<(usize, usize, &'static str)>,
    dir: String,
    names: usize,
}
impl Want {
    fn new() -> Want {
        let dir = dir() + "/g";
        std::fs::create_dir(&dir).unwrap();
        Want { entities: vec![], related: vec![], dir, names: 0 }
    }
    fn entity(&mut self, kind: &str, id: &str, label: &str) -> usize {
        match self.entities.iter().position(|e| e.0 == kind && e.1 == id) {
            Some(i) => i,
            None => {
                self.entities.push((kind.to_string(), id.to_string(), label.to_string()));
                self.entities.len() - 1
            }
        }
    }
    fn file(&mut self, stem: &str, text: &str) {
        let part = ["0_0", "1_0", "12_7", "_"][self.names % 4];
        self.names += 1;
        std::fs::write([&self.dir, "/", stem, "_", part, ".csv"].concat(), text).unwrap();
    }
    fn nodes(&mut self, kind: &str, rows: &[(&str, &str)]) {
        let place = kind == "place";
        let mut t = String::from(if place { "id|name|url|type\n" } else { "id|type|name|url\n" });
        for (i, l) in rows {
            t += &[*i, "|", if place { "x|y" } else { *l }, "|", if place { *l } else { "x|y" }, "\n"].concat();
            self.entity(kind, i, l);
        }
        self.file(kind, &t);
    }
    fn relation(&mut self, k: usize, rows: &[(&str, &str)]) {
        let (a, b, l) = RELATIONS[k];
        let mut t = [a, ".id|", b, ".id|since\n"].concat();
        for (x, y) in rows {
            t += &[x, "|", y, "|1\n"].concat();
            let (i, j) = (self.entity(a, x, a), self.entity(b, y, b));
            add_to(&mut self.related, (i, j, l));
        }
        self.file(&[a, "_", l, "_", b].concat(), &t);
    }
    /// The graph is this one, the entities numbered in whatever order.
    fn is<I: IdType, Ty: GraphType>(&self, g: &TypedGraphMap<I, String, String, Ty>) {
        let n = self.entities.len();
        check!(g.node_count() == n, "there is one node per entity");
        check!((0..n).all(|i| g.has_node(I::new(i))), "nodes are numbered from 0");
        check!(g.is_directed() == Ty::is_directed(), "the graph is of the kind asked for");
        let undirected = |a: &(usize, usize, &str), b: &(usize, usize, &str)| !Ty::is_directed() && a.0 == b.1 && a.1 == b.0;
        let m = self.related.iter().enumerate().filter(|(k, r)| !self.related[..*k].iter().any(|q| undirected(q, r))).count();
        check!(g.edge_count() == m && g.edge_indices().count() == m, "there is one edge for two entities that are related");
        check!(self.fits(g, &mut vec![]), "nodes have the labels of their entities and edges those of their relations");
    }
    fn fits<I: IdType, Ty: GraphType>(&self, g: &TypedGraphMap<I, String, String, Ty>, to: &mut Vec<usize>) -> bool {
        let n = self.entities.len();
        if to.len() == n {
            return self.related.iter().all(|r| g.get_edge_label(I::new(to[r.0]), I::new(to[r.1])).map_or(false, |l| l == r.2));
        }
        for i in 0..n {
            if !to.contains(&i) && g.get_node_label(I::new(i)).map_or(false, |l| *l == self.entities[to.len()].2) {
                to.push(i);
                if self.fits(g, to) {
                    return true;
                }
                to.pop();
            }
        }
        false
    }
    fn read<I: IdType, Ty: GraphType>(&self, s: &Scheme) {
        let r = s.from_path::<I, Ty, _>(&self.dir);
        check!(r.is_ok(), "reading succeeds");
        self.is(&r.unwrap());
    }
}
fn digits(two: bool) -> String {
    let mut s = String::new();
    for _ in 0..if two { 2 } else { 1 } {
        s.push((b'0' + below(10)) as char);
    }
    s
}
/// Nodes of one kind in two files.
//@ shards=16
#[no_mangle]
pub extern "C" fn c31_nodes() {
    let s = Scheme::init();
    let mut w = Want::new();
    let kind = ["organisation", "place"][choose(2) as usize];
    fs_order(choose(2) as u64);
    let (a, b) = (digits(flag()), digits(flag()));
    let c = below(128);
    assume(c != b'"' && c != b'|' && c != b'\r' && c != b'\n' && c != 0);
    let l = (c as char).to_string();
    match choose(5) {
        0 => {
            w.nodes(kind, &[]);
            w.file(kind, "");
        }
        1 => w.nodes(kind, &[(&a, &l), (&b, if a == b { &l } else { "other" })]),
        2 => {
            w.nodes(kind, &[(&a, &l)]);
            w.nodes(kind, &[(&b, if a == b { &l } else { "other" })]);
        }
        3 => {
            w.nodes(kind, &[(&a, ""), ("5", if a == "5" { "" } else { "V" })]);
            w.nodes(kind, &[]);
        }
        _ => {
            // the same id is another entity in another kind
            w.nodes("place", &[(&a, &l)]);
            w.nodes("organisation", &[(&b, "other")]);
        }
    }
    cover!(a == b);
    cover!(w.entities.len() == 2);
    w.read::<u32, Directed>(&s);
}
/// Every kind of relation.
//@ shards=16
#[no_mangle]
pub extern "C" fn c31_kinds() {
    let s = Scheme::init();
    let mut w = Want::new();
    let k = choose(23) as usize;
    let (a, b, c) = (digits(false), digits(false), digits(true));
    w.relation(k, &[(&a, &b), (&b, &c)]);
    cover!(a == b);
    cover!(a != b && RELATIONS[k].0 == RELATIONS[k].1);
    w.read::<u32, Directed>(&s);
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c31_un() {
    let s = Scheme::init();
    let mut w = Want::new();
    fs_order(choose(2) as u64);
    let k = [12, 17, 3, 22][choose(4) as usize];
    let (a, b, c) = (digits(false), digits(false), digits(false));
    w.relation(k, &[(&a, &b)]);
    w.relation(k, &[(&c, &a), (&a, &b)]);
    cover!(a == b);
    w.read::<u8, Undirected>(&s);
}
/// Entities of the node files in relations, and other files about.
//@ shards=16
#[no_mangle]
pub extern "C" fn c31_mixed() {
    let s = Scheme::init();
    let mut w = Want::new();
    fs_order([0, 11, 119, 1000][choose(4) as usize]);
    let (a, b, c) = (digits(false), digits(false), digits(false));
    w.nodes("place", &[("1", "city"), ("2", "country")]);
    w.nodes("organisation", &[("1", "university")]);
    w.relation(9, &[(&a, &b)]);
    match choose(3) {
        0 => w.relation(17, &[(&b, &c)]),
        1 => w.relation(11, &[(&c, &b), (&c, "1")]),
        _ => w.relation(15, &[(&c, &a)]),
    }
    std::fs::write(w.dir.clone() + "/person_0_0.csv", "id|firstName\n1|x\n").unwrap();
    std::fs::write(w.dir.clone() + "/notes.txt", "id|type\n1|x\n").unwrap();
    std::fs::create_dir(w.dir.clone() + "/place_9_9.csv").unwrap();
    cover!(a == "1" && b == "2");
    cover!(a != "1" && b != "1" && b != "2");
    w.read::<u32, Directed>(&s);
}
/// Ids that are any text: kinds and ids are told apart.
//@ shards=4
#[no_mangle]
pub extern "C" fn c31_texts() {
    let s = Scheme::init();
    let mut w = Want::new();
    let (a, b) = (digits(true), digits(true));
    w.relation(21, &[(&("class".to_string() + &a), &b)]);
    cover!(a == b);
    w.read::<u32, Directed>(&s);
}
/// A file that cannot be read to its end is an error.
#[no_mangle]
pub extern "C" fn c31_unread() {
    let s = Scheme::init();
    let mut w = Want::new();
    let a = digits(false);
    w.nodes("place", &[(&a, "city"), ("22", "country")]);
    w.relation(17, &[(&a, "22"), ("22", "3")]);
    fs_fail(1 + choose(6) as u64);
    let r = s.from_path::<u32, Directed, _>(&w.dir);
    let left = fs_fail(0);
    cover!(left == 0);
    cover!(left > 0);
    check!(r.is_err() == (left == 0), "a file that cannot be read to its end is an error");
    if let Ok(g) = r {
        w.is(&g);
    }
}
/// Whatever portions reading comes in; and through the shorter name.
#[no_mangle]
pub extern "C" fn c31_reading() {
    let mut w = Want::new();
    let a = digits(false);
    w.nodes("place", &[(&a, "city"), ("22", "country")]);
    w.relation(17, &[(&a, "22"), ("22", "3")]);
    w.relation(12, &[("1", &a)]);
    fs_short(true);
    let g = read_ldbc_from_path::<u32, Directed, _>(&w.dir);
    fs_short(false);
    w.is(&g);
    let h = read_ldbc_from_path::<u8, Undirected, _>(&w.dir);
    w.is(&h);
}
/// What is not as it should be is refused.
#[no_mangle]
pub extern "C" fn c31_refused() {
    let s = Scheme::init();
    let d = dir();
    std::fs::write(d.clone() + "/f", "x").unwrap();
    for p in ["/f", "/none"] {
        check!(panics(|| { let _ = s.from_path::<u32, Directed, _>(d.clone() + p); }), "what is not a directory is refused");
    }
    std::fs::create_dir(d.clone() + "/g").unwrap();
    let g = s.from_path::<u32, Directed, _>(d.clone() + "/g").unwrap();
    check!(g.node_count() == 0 && g.edge_count() == 0, "nothing is read from an empty directory");
    let file = d.clone() + if flag() { "/g/place_0_0.csv" } else { "/g/person_knows_person_0_0.csv" };
    std::fs::write(&file, "a|b|c|d\n1|2|3|4\n5|6|7\n").unwrap();
    check!(s.from_path::<u32, Directed, _>(d.clone() + "/g").is_err(), "a row that lacks a field is an error");
    std::fs::write(&file, b"a|b|c|d\n1|2|\xff|4\n").unwrap();
    check!(s.from_path::<u32, Directed, _>(d.clone() + "/g").is_err(), "text that is not UTF-8 is an error");
}
/// Dozens of rows.
#[no_mangle]
pub extern "C" fn c31_many() {
    let s = Scheme::init();
    let mut w = Want::new();
    let t: Vec<(String, String)> = (0..40).map(|i| ((i * 37 + 5).to_string(), format!("kind{}", i))).collect();
    let rows: Vec<(&str, &str)> = t.iter().map(|x| (&x.0[..], &x.1[..])).collect();
    w.nodes("place", &rows[..25]);
    w.nodes("place", &rows[25..]);
    let k = choose(40) as usize;
    let mut e: Vec<(&str, &str)> = (0..39).map(|i| (rows[i + 1].0, rows[i / 3].0)).collect();
    e.push((rows[k].0, rows[39].0));
    w.relation(17, &e);
    w.read::<u32, Directed>(&s);
}
