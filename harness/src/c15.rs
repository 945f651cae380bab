//! A dump or an export that does not fail has written everything; one that could not write everything fails.
//! bound: dumps of graphs on up to 2 nodes, of edge vectors, of values, exports of graphs and maps; a limit at every byte of every file, a full disk or a directory at each of the files; writers that fail, take part or are interrupted at any call
use crate::util::*;
use rust_graph::graph_impl::{EdgeVec, StaticGraphMmap, TypedStaticGraph};
use rust_graph::io::mmap::dump;
use rust_graph::io::serde::{Serialize, Serializer};
use rust_graph::map::SetMap;
use std::io::{Error, ErrorKind, Write};

type St<Ty> = TypedStaticGraph<u8, u8, u8, Ty, u32>;
const FILES: [&str; 8] = ["_OUT.offsets", "_OUT.edges", "_OUT.labels", "_IN.offsets", "_IN.edges", "_IN.labels", ".labels", "_aux.bin"];

fn di(labels: bool) -> St<Directed> {
    let (mut g, l) = (Di::new(), if labels { Some(u8_()) } else { None });
    let n = choose(3);
    for i in 0..n {
        g.add_node(i, l);
    }
    if n > 0 && flag() {
        g.add_edge(0, n - 1, l);
    }
    g.into_static()
}
fn un(labels: bool) -> St<Undirected> {
    let (mut g, l) = (Un::new(), if labels { Some(u8_()) } else { None });
    let n = choose(3);
    for i in 0..n {
        g.add_node(i, None);
    }
    if n > 0 && flag() {
        g.add_edge(0, n - 1, l);
    }
    g.into_static()
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c15_di() {
    let g = di(flag());
    full(&FILES, |p| g.dump_mmap(p).is_ok());
}
//@ shards=8
#[no_mangle]
pub extern "C" fn c15_un() {
    let g = un(flag());
    full(&FILES, |p| g.dump_mmap(p).is_ok());
}
/// Edges and labels that are longer than the offsets.
//@ shards=8
#[no_mangle]
pub extern "C" fn c15_edge_vec() {
    let k = choose(4);
    let e: Vec<u64> = (0..k as u64).collect();
    let e: Vec<usize> = e.into_iter().map(|x| x as usize).collect();
    let l = match choose(2) {
        0 => None,
        _ => Some(vec![u32_() as usize; k as usize]),
    };
    let v = EdgeVec::<usize, usize>::from_raw(vec![0, k as usize], e, l);
    full(&[".offsets", ".edges", ".labels"], |p| v.dump_mmap(p).is_ok());
}
/// An earlier dump that cannot be cleared away.
#[no_mangle]
pub extern "C" fn c15_stale() {
    let p = dir() + "/b";
    let i = [2, 3, 6][choose(3) as usize];
    std::fs::create_dir(p.clone() + FILES[i]).unwrap();
    let g = un(false);
    check!(g.dump_mmap(&p).is_err(), "a dump fails if what it would be mistaken for cannot be removed");
}
//@ shards=4
#[no_mangle]
pub extern "C" fn c15_export() {
    match choose(4) {
        0 => {
            let mut g = Di::new();
            for _ in 0..choose(3) {
                g.add_edge(0, 1, Some(u8_()));
            }
            full(&[""], |p| g.export(p).is_ok());
        }
        1 => {
            let g = un(flag());
            full(&[""], |p| g.export(p).is_ok());
        }
        2 => {
            let m: SetMap<u16> = (0..choose(4) as u16).collect();
            full(&[""], |p| Serializer::export(&m, p).is_ok());
        }
        _ => {
            let v: Vec<String> = vec!["abc".to_string(); choose(4) as usize];
            full(&[""], |p| Serializer::export(&v, p).is_ok());
        }
    }
}
/// More than a buffer holds, so that failures come before the last flush.
//@ shards=4
#[no_mangle]
pub extern "C" fn c15_large() {
    let v: Vec<u64> = (0..2600).collect();
    let p = dir() + "/b";
    let b = [0, 1, 8191, 8192, 9999, 10000, 19999, 20000, 20799, 20800, 20807, 20808, 20809][choose(13) as usize];
    let ex = flag();
    let need = if ex { 20808 } else { 20800 };
    fs_budget(b);
    let ok = if ex { Serializer::export(&v, &p).is_ok() } else { unsafe { dump(&v, std::fs::File::create(&p).unwrap()).is_ok() } };
    fs_budget(1 << 40);
    check!(ok == (b >= need), "writing fails if and only if the file does not fit");
    check!(!ok || fs_len(&p) == need, "when writing succeeds everything is written");
    cover!(ok);
    cover!(!ok);
}
/// A writer that does what the solver says, call by call.
struct Sink {
    got: Vec<u8>,
    failed: bool,
    calls: u32,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        let k = if self.calls > 3 || b.is_empty() { 0 } else { choose(5) };
        match k {
            0 => {
                self.got.extend_from_slice(b);
                Ok(b.len())
            }
            1 => {
                self.got.extend_from_slice(&b[..1]);
                Ok(1)
            }
            2 => Err(Error::from(ErrorKind::Interrupted)),
            3 => {
                self.failed = true;
                Err(Error::from(ErrorKind::Other))
            }
            _ => {
                self.failed = true;
                Ok(0)
            }
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if choose(2) == 0 {
            Ok(())
        } else {
            self.failed = true;
            Err(Error::from(ErrorKind::Other))
        }
    }
}
#[no_mangle]
pub extern "C" fn c15_writer() {
    let v: Vec<u16> = (0..choose(4)).map(|_| u16_()).collect();
    let long: Vec<u16> = (0..5001).collect();
    let v = if flag() { long } else { v };
    let mut s = Sink { got: vec![], failed: false, calls: 0 };
    let ok = unsafe { dump(&v, &mut s).is_ok() };
    check!(ok != s.failed, "a dump fails if and only if its writer does");
    cover!(ok);
    cover!(!ok);
    if ok {
        let mut w: Vec<u8> = vec![];
        for x in &v {
            w.extend_from_slice(&x.to_ne_bytes());
        }
        check!(s.got == w, "when writing succeeds everything is written");
    }
}
/// What a dump that succeeded on a poor disk has written can be mapped.
#[no_mangle]
pub extern "C" fn c15_mapped() {
    let g = di(true);
    let p = dir() + "/b";
    let b = conc(u8_() as u64);
    assume(b < 64);
    fs_budget(b);
    fs_intr(choose(2) as u64);
    let ok = g.dump_mmap(&p).is_ok();
    fs_budget(1 << 40);
    fs_intr(0);
    cover!(ok);
    if ok {
        let h = StaticGraphMmap::<u8, u8, u8, u32>::new(&p);
        check!(h.node_count() == g.node_count() && h.edge_count() == g.edge_count(), "when writing succeeds everything is written");
        for n in g.node_indices() {
            check!(h.neighbors(n) == g.neighbors(n) && h.in_neighbors(n) == g.in_neighbors(n), "when writing succeeds everything is written");
            check!(h.get_node_label(n) == g.get_node_label(n), "when writing succeeds everything is written");
        }
    }
}
