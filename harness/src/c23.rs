//! VecMap: a bijection between items and indices.
//! bound: histories of 5 adds and pops of any u8, of 4 of texts up to 2 bytes; every constructor from 4 distinct items, of any value (collecting: any items); equality of maps of up to 3 items
use crate::util::*;
use rust_graph::map::{SetMap, VecMap};
use rust_graph::vecmap;

fn run<T, F: Fn() -> T>(mut map: VecMap<T>, ops: usize, any: F)
where
    T: Clone + Eq,
{
    let (mut m, mut gone) = (Vec::new(), Vec::new());
    for _ in 0..ops {
        if flag() {
            let x = any();
            let i = add_to(&mut m, x.clone());
            check!(map.add_item(x) == i, "adding an item gives its index, whether new or not");
        } else {
            let x = m.pop();
            if let Some(x) = &x {
                gone.push(x.clone());
            }
            check!(map.pop_item() == x, "pop gives the last item and removes it");
        }
    }
    gone.push(any());
    map.shrink_to_fit();
    map_is(&map, &m, &gone);
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c23_u8() {
    run(VecMap::new(), 5, u8_)
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c23_text() {
    run(VecMap::<String>::with_capacity(2), 4, text)
}
//@ shards=16
#[no_mangle]
pub extern "C" fn c23_new() {
    let mut v: Vec<u8> = Vec::new();
    for _ in 0..choose(5) {
        v.push(u8_());
    }
    let mut m = Vec::new();
    for x in &v {
        add_to(&mut m, *x);
    }
    let set: SetMap<u8> = m.iter().map(|x| *x).collect();
    let all: Vec<VecMap<u8>> = vec![
        v.iter().map(|x| *x).collect(),
        VecMap::with_data(m.clone()),
        VecMap::from(m.clone()),
        VecMap::from(&m),
        VecMap::from(set.clone()),
        VecMap::from(&set),
    ];
    let q = [u8_()];
    for (i, s) in all.iter().enumerate() {
        map_is(s, &m, &q);
        check!(*s == all[0] && fed(s) == fed(&all[0]), "maps with the same items are equal");
        let back = SetMap::from(s);
        check!(back == set, "converting between the kinds of map keeps items and indices");
        let mut t = s.clone();
        let mut n = m.clone();
        let k = add_to(&mut n, q[0]);
        check!(t.add_item(q[0]) == k, "adding an item gives its index, whether new or not");
        if i == 0 {
            map_is(&t, &n, &[]);
            t.clear();
            map_is(&t, &[], &q);
            check!(t.add_item(7) == 0, "a cleared map starts anew");
        }
    }
    map_is(&VecMap::<u8>::default(), &[], &q);
    if v.len() == 3 {
        map_is(&vecmap![v[0], v[1], v[2]], &m, &q);
    }
}
/// To and fro, through maps that were popped.
//@ shards=16
#[no_mangle]
pub extern "C" fn c23_convert() {
    let (mut s, mut v, mut m) = (SetMap::new(), VecMap::new(), Vec::new());
    for _ in 0..4 {
        let x = u8_();
        let i = add_to(&mut m, x);
        check!(s.add_item(x) == i && v.add_item(x) == i, "both kinds of map give the same index");
    }
    for _ in 0..choose(3) {
        let x = m.pop();
        check!(s.pop_item() == x && v.pop_item() == x, "both kinds of map pop the same item");
    }
    let q = [u8_()];
    map_is(&VecMap::from(s.clone()), &m, &q);
    map_is(&VecMap::from(&s), &m, &q);
    map_is(&SetMap::from(v.clone()), &m, &q);
    map_is(&SetMap::from(&v), &m, &q);
    check!(SetMap::from(VecMap::from(s.clone())) == s, "converting to and fro changes nothing");
    check!(VecMap::from(SetMap::from(v.clone())) == v, "converting to and fro changes nothing");
}
/// Equality and hashing, in whatever order the items came.
//@ shards=16
#[no_mangle]
pub extern "C" fn c23_eq() {
    let mut maps = [VecMap::new(), VecMap::new()];
    let mut ms = [Vec::new(), Vec::new()];
    for k in 0..2 {
        for _ in 0..choose(4) {
            let x = u8_();
            maps[k].add_item(x);
            add_to(&mut ms[k], x);
        }
        if flag() {
            maps[k].pop_item();
            ms[k].pop();
        }
    }
    let same = ms[0] == ms[1];
    cover!(same && ms[0].len() == 2);
    check!((maps[0] == maps[1]) == same, "maps are equal when they hold the same items at the same indices");
    check!((maps[1] == maps[0]) == same, "equality is symmetric");
    check!(!same || fed(&maps[0]) == fed(&maps[1]), "equal maps hash equally");
}
//@ shards=64 tier=thorough
#[no_mangle]
pub extern "C" fn c23_u8_7() {
    run(VecMap::new(), 7, u8_)
}
//@ shards=32 tier=thorough
#[no_mangle]
pub extern "C" fn c23_text5() {
    run(VecMap::<String>::new(), 5, text)
}
/// More items than a byte counts.
#[no_mangle]
pub extern "C" fn c23_many() {
    let mut s = VecMap::with_capacity(3);
    let m: Vec<u32> = (0..300).map(|i| (i * 7919) % 3001).collect();
    for (i, x) in m.iter().enumerate() {
        check!(s.add_item(*x) == i, "a new item has the next index");
    }
    check!(s.len() == 300 && s.clone().items_vec() == m, "items come in order of insertion");
    for &i in &[0, 127, 128, 255, 256, 257, 299] {
        check!(s.find_index(&m[i]) == Some(i) && s.get_item(i) == Some(&m[i]) && s.add_item(m[i]) == i, "an item keeps its index");
    }
    let x = u32_();
    let at = m.iter().position(|y| *y == x);
    check!(s.find_index(&x) == at, "the index of an item is where it was put, and only items in the map have one");
    check!(s.add_item(x) == at.unwrap_or(300), "adding an item gives its index, whether new or not");
    check!(SetMap::from(&s).items_vec() == s.items_vec(), "converting between the kinds of map keeps items and indices");
}
