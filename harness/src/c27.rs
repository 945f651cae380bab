//! CSV writing reports failure.
//! bound: graphs of up to 2 edges or nodes, labels of any u8, and of texts longer than a buffer; a limit at every byte of both files, a full disk or a directory at either; short and interrupted writes; any one write or read that fails
use crate::util::*;
use rust_graph::graph_impl::{DiGraphMap, UnGraphMap};
use rust_graph::io::csv::{read_from_csv, write_to_csv, CSVReader, CSVWriter};

const FILES: [&str; 2] = [".n", ".e"];

//@ shards=16
#[no_mangle]
pub extern "C" fn c27_di() {
    let mut g = Di::new();
    let l = u8_();
    match choose(4) {
        0 => {}
        1 => {
            g.add_node(5, Some(l));
        }
        2 => {
            g.add_edge(3, 200, None);
        }
        _ => {
            g.add_edge(3, 200, Some(7));
            g.add_edge(3, 4, Some(l));
        }
    }
    full(&FILES, |p| write_to_csv(&g, p.to_string() + ".n", p.to_string() + ".e").is_ok());
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c27_un() {
    let mut g = Un::new();
    // more nodes than edges, or longer edges than nodes
    match choose(2) {
        0 => {
            g.add_node(1, None);
            g.add_node(2, Some(3));
            g.add_node(100, Some(3));
        }
        _ => {
            g.add_edge(255, 255, Some(255));
        }
    }
    full(&FILES, |p| CSVWriter::with_separator(&g, p.to_string() + ".n", p.to_string() + ".e", "tab").write().is_ok());
}
/// Of what succeeded on a poor disk everything can be read.
//@ shards=16
#[no_mangle]
pub extern "C" fn c27_read() {
    let (mut g, mut m) = (Di::new(), Model::new(true));
    by_id(&mut g, &mut m, &[6, 1], true);
    let (n, e) = (dir() + "/n", dir() + "/e");
    let b = conc(u8_() as u64);
    assume(b < 64);
    fs_budget(b);
    fs_intr(choose(2) as u64);
    let ok = write_to_csv(&g, &n, &e).is_ok();
    fs_budget(1 << 40);
    cover!(ok);
    cover!(!ok);
    if ok {
        fs_short(true);
        let mut h = Di::new();
        check!(CSVReader::new(Some(&n), &e).read(&mut h).is_ok(), "reading succeeds, in whatever portions");
        whole(&h, &m);
        fs_short(false);
    }
    fs_intr(0);
}
/// More than a buffer holds, so that failures come before the last flush.
//@ shards=16
#[no_mangle]
pub extern "C" fn c27_large() {
    let mut g = UnGraphMap::<String, String>::new();
    let long = "x".repeat(3000);
    let nodes = flag();
    for i in 0..3u32 {
        if nodes {
            g.add_node(i, Some(long.clone()));
        } else {
            g.add_edge(i, i + 1, Some(long.clone()));
        }
    }
    let (n, e) = (dir() + "/n", dir() + "/e");
    let b = conc(choose(9) as u64);
    let need = if nodes { 17 + 9009 } else { 24 + 9015 };
    let b = [0, 1, 8191, 8192, 8193, need - 1, need, need + 1, 5000][b as usize];
    fs_budget(b);
    let ok = write_to_csv(&g, &n, &e).is_ok();
    fs_budget(1 << 40);
    check!(ok == (b >= need), "writing fails if and only if a file does not fit");
    check!(!ok || fs_len(if nodes { &n } else { &e }) == need, "when writing succeeds everything is written");
    cover!(ok);
    cover!(!ok);
}
/// One write fails, the others do not.
//@ shards=4
#[no_mangle]
pub extern "C" fn c27_once() {
    let mut g = DiGraphMap::<String, String>::new();
    let long = "x".repeat([5, 5000][choose(2) as usize]);
    let k = choose(4) as u32;
    for i in 0..k {
        g.add_node(i, Some(long.clone()));
        g.add_edge(i, i, Some(long.clone()));
    }
    let (n, e) = (dir() + "/n", dir() + "/e");
    let at = 1 + choose(7) as u64;
    fs_fail(at);
    let ok = write_to_csv(&g, &n, &e).is_ok();
    let left = fs_fail(0);
    cover!(ok);
    cover!(!ok);
    cover!(!ok && at > 3);
    check!(ok == (left > 0), "writing fails if and only if one of the writes does");
}
/// One read fails, the others do not.
//@ shards=4
#[no_mangle]
pub extern "C" fn c27_read_once() {
    let mut g = DiGraphMap::<String, String>::new();
    let long = "x".repeat([5, 5000][choose(2) as usize]);
    let k = choose(4) as u32;
    for i in 0..k {
        g.add_node(i, Some(long.clone()));
        g.add_edge(i, i, Some(long.clone()));
    }
    let (n, e) = (dir() + "/n", dir() + "/e");
    let headers = flag();
    check!(write_to_csv(&g, &n, &e).is_ok(), "writing succeeds");
    let r = CSVReader::<u32, String, String>::new(Some(&n), &e).headers(headers);
    let mut h = DiGraphMap::<String, String>::new();
    let at = 1 + choose(7) as u64;
    fs_fail(at);
    let ok = r.read(&mut h).is_ok();
    let left = fs_fail(0);
    cover!(ok);
    cover!(!ok);
    cover!(!ok && at > 3);
    check!(ok == (left > 0), "reading fails if and only if one of the reads does");
    check!(!ok || !headers || h == g, "when reading succeeds everything is read");
}
/// Files that are not there.
#[no_mangle]
pub extern "C" fn c27_missing() {
    let (n, e, none) = (dir() + "/n", dir() + "/e", dir() + "/none/x");
    let mut g = DiGraphMap::<u8>::new();
    g.add_edge(1, 2, None);
    check!(write_to_csv(&g, &none, &e).is_err(), "writing fails if the node file cannot be made");
    check!(write_to_csv(&g, &n, &none).is_err(), "writing fails if the edge file cannot be made");
    check!(write_to_csv(&g, &n, &e).is_ok(), "writing succeeds");
    let (a, b) = (flag(), flag());
    let (x, y) = (if a { &n } else { &none }, if b { &e } else { &none });
    let mut h = DiGraphMap::<u8>::new();
    check!(read_from_csv(&mut h, Some(x), y, None, true, false).is_ok() == (a && b), "reading succeeds if and only if both files are there");
    check!(read_from_csv(&mut h, None, y, Some("space"), true, true).is_ok() == b, "reading edges only needs no node file");
    let r = CSVReader::<u32, u8, u8>::new(Some(x), y);
    check!(r.node_iter().is_ok() == a && r.edge_iter().is_ok() == b, "reading succeeds if and only if the file is there");
    std::fs::create_dir(dir() + "/d").unwrap();
    check!(write_to_csv(&g, dir() + "/d", e.clone()).is_err() && write_to_csv(&g, n.clone(), dir() + "/d").is_err(), "writing fails if a directory is in the way");
}
