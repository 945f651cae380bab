//! SetMap: a bijection between items and indices.
//! bound: histories of 5 adds and pops of any u8, of 4 of texts up to 2 bytes; every constructor from 4 items, of any value; equality of maps of up to 3 items
use crate::util::*;
use indexmap::IndexSet;
use rust_graph::map::{SetMap, VecMap};
use rust_graph::setmap;

fn run<T, M, F: Fn() -> T>(mut map: M, ops: usize, any: F)
where
    T: Clone + PartialEq,
    M: MapTrait<T> + MutMapTrait<T> + Clone,
{
    let (mut m, mut gone) = (Vec::new(), Vec::new());
    for _ in 0..ops {
        if flag() {
            let x = any();
            let i = add_to(&mut m, x.clone());
            check!(map.add_item(x) == i, "adding an item gives its index, whether new or not");
        } else {
            let x = m.pop();
            if let Some(x) = &x {
                gone.push(x.clone());
            }
            check!(map.pop_item() == x, "pop gives the last item and removes it");
        }
    }
    gone.push(any());
    map_is(&map, &m, &gone);
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c22_u8() {
    run(SetMap::new(), 5, u8_)
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c22_text() {
    run(SetMap::<String>::with_capacity(2), 4, text)
}
#[no_mangle]
pub extern "C" fn c22_long() {
    let n = 40;
    let mut s = SetMap::new();
    let x = u8_();
    let mut m = Vec::new();
    for i in 0..n {
        m.push(3 * i as u32 + x as u32);
        check!(s.add_item(m[i]) == i, "a new item has the next index");
    }
    for i in 0..n {
        check!(s.add_item(m[i]) == i && s.find_index(&m[i]) == Some(i), "an item keeps its index");
    }
    while let Some(l) = m.pop() {
        check!(s.pop_item() == Some(l), "pop gives the last item and removes it");
        check!(s.find_index(&l).is_none(), "what was popped is gone");
    }
    check!(s.is_empty(), "a map is empty when all was popped");
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c22_new() {
    let mut v: Vec<u8> = Vec::new();
    for _ in 0..choose(5) {
        v.push(u8_());
    }
    let mut m = Vec::new();
    for x in &v {
        add_to(&mut m, *x);
    }
    let all: Vec<SetMap<u8>> = vec![
        v.iter().map(|x| *x).collect(),
        SetMap::from_vec(v.clone()),
        SetMap::from(v.clone()),
        SetMap::from(&v),
        SetMap::with_data(v.iter().map(|x| *x).collect::<IndexSet<u8>>()),
        SetMap::from(VecMap::from(m.clone())),
        SetMap::from(&VecMap::from(m.clone())),
    ];
    let q = [u8_()];
    for (i, s) in all.iter().enumerate() {
        map_is(s, &m, &q);
        check!(*s == all[0] && fed(s) == fed(&all[0]), "maps with the same items are equal");
        let mut t = s.clone();
        let mut n = m.clone();
        let k = add_to(&mut n, q[0]);
        check!(t.add_item(q[0]) == k, "adding an item gives its index, whether new or not");
        if i == 0 {
            map_is(&t, &n, &[]);
            t.clear();
            map_is(&t, &[], &q);
            check!(t.add_item(7) == 0, "a cleared map starts anew");
        }
    }
    map_is(&SetMap::<u8>::default(), &[], &q);
    if v.len() == 3 {
        map_is(&setmap![v[0], v[1], v[2]], &m, &q);
    }
}
/// Equality and hashing, in whatever order the items came.
//@ shards=16
#[no_mangle]
pub extern "C" fn c22_eq() {
    let mut maps = [SetMap::new(), SetMap::new()];
    let mut ms = [Vec::new(), Vec::new()];
    for k in 0..2 {
        for _ in 0..choose(4) {
            let x = u8_();
            maps[k].add_item(x);
            add_to(&mut ms[k], x);
        }
        if flag() {
            maps[k].pop_item();
            ms[k].pop();
        }
    }
    let same = ms[0] == ms[1];
    cover!(same && ms[0].len() == 2);
    check!((maps[0] == maps[1]) == same, "maps are equal when they hold the same items at the same indices");
    check!((maps[1] == maps[0]) == same, "equality is symmetric");
    check!(!same || fed(&maps[0]) == fed(&maps[1]), "equal maps hash equally");
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c22_u8_6() {
    run(SetMap::new(), 7, u8_)
}
//@ shards=32 tier=thorough
#[no_mangle]
pub extern "C" fn c22_text5() {
    run(SetMap::<String>::new(), 5, text)
}
/// More items than a byte counts.
#[no_mangle]
pub extern "C" fn c22_many() {
    let mut s = SetMap::with_capacity(3);
    let m: Vec<u32> = (0..300).map(|i| (i * 7919) % 3001).collect();
    for (i, x) in m.iter().enumerate() {
        check!(s.add_item(*x) == i, "a new item has the next index");
    }
    check!(s.len() == 300 && s.clone().items_vec() == m, "items come in order of insertion");
    for &i in &[0, 127, 128, 255, 256, 257, 299] {
        check!(s.find_index(&m[i]) == Some(i) && s.get_item(i) == Some(&m[i]) && s.add_item(m[i]) == i, "an item keeps its index");
    }
    let x = u32_();
    let at = m.iter().position(|y| *y == x);
    check!(s.find_index(&x) == at, "the index of an item is where it was put, and only items in the map have one");
    check!(s.add_item(x) == at.unwrap_or(300), "adding an item gives its index, whether new or not");
}
