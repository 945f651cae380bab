//! A typed memory map shows the values dumped, in full and by range, and nothing else.
//! bound: up to 4 values of 1, 2, 4 and 8 bytes and of 3 two-byte parts, any values; dumps of up to 20001 bytes and of 131200, around every boundary of 10000; every range
use crate::util::*;
use rust_graph::io::mmap::{dump, typed_as_byte_slice, TypedMemoryMap};
use std::fs::File;

fn ranges<T: Copy + PartialEq>(m: &TypedMemoryMap<T>, v: &[T], i: usize, j: usize) {
    let n = v.len();
    check!(m.len == n, "as many values as were dumped");
    check!(&m[..] == v, "the values are those dumped");
    if i <= n {
        let i = conc(i as u64) as usize;
        check!(&m[i..] == &v[i..], "the values from a place on are those dumped");
    } else {
        cover!();
        check!(panics(|| { let _ = &m[i..]; }), "a range beyond the values is refused");
    }
    if j <= n {
        let j = conc(j as u64) as usize;
        check!(&m[..j] == &v[..j], "the values up to a place are those dumped");
    } else {
        cover!();
        check!(panics(|| { let _ = &m[..j]; }), "a range beyond the values is refused");
    }
}
fn trip<T: Copy + PartialEq>(v: &[T]) {
    let p = dir() + "/m";
    if flag() {
        // an earlier, longer dump
        unsafe { dump(&[1u64; 9], File::create(&p).unwrap()).unwrap() }
    }
    check!(unsafe { dump(v, File::create(&p).unwrap()).is_ok() }, "a dump succeeds");
    check!(fs_len(&p) == (v.len() * std::mem::size_of::<T>()) as u64, "a dump is as long as its values");
    ranges(&TypedMemoryMap::<T>::new(&p), v, u64_() as usize, u64_() as usize);
}
fn n() -> usize {
    choose(5) as usize
}
#[no_mangle]
pub extern "C" fn c14_u8() {
    let v: Vec<u8> = (0..n()).map(|_| u8_()).collect();
    trip(&v);
}
#[no_mangle]
pub extern "C" fn c14_u16() {
    let v: Vec<u16> = (0..n()).map(|_| u16_()).collect();
    trip(&v);
}
#[no_mangle]
pub extern "C" fn c14_u32() {
    let v: Vec<u32> = (0..n()).map(|_| u32_()).collect();
    trip(&v);
}
#[no_mangle]
pub extern "C" fn c14_u64() {
    let v: Vec<u64> = (0..n()).map(|_| u64_()).collect();
    trip(&v);
}
#[no_mangle]
pub extern "C" fn c14_parts() {
    let v: Vec<[u16; 3]> = (0..n()).map(|_| [u16_(), u16_(), u16_()]).collect();
    trip(&v);
}
/// The bytes of a slice; what a writer other than a file gets; one file read as several types.
#[no_mangle]
pub extern "C" fn c14_bytes() {
    let v: Vec<u32> = (0..n()).map(|_| u32_()).collect();
    let b = typed_as_byte_slice(&v);
    check!(b.len() == 4 * v.len(), "four bytes for each value");
    for (i, x) in v.iter().enumerate() {
        for k in 0..4 {
            check!(b[4 * i + k] == x.to_ne_bytes()[k], "the bytes are those of the values");
        }
    }
    let mut w: Vec<u8> = vec![];
    check!(unsafe { dump(&v, &mut w).is_ok() } && &w[..] == b, "a dump is the bytes of the values");
    let p = dir() + "/m";
    unsafe { dump(&v, File::create(&p).unwrap()).unwrap() }
    let m = TypedMemoryMap::<u8>::new(&p);
    check!(&m[..] == b, "a dump is the bytes of the values");
    let m = TypedMemoryMap::<u64>::new(&p);
    check!(m.len == v.len() / 2 && m[..].len() == m.len, "a map has the values the file has room for");
    check!(panics(|| { let _ = &m[m.len + 1..]; }), "a range beyond the values is refused");
}
/// Dumps longer than what is written at once.
//@ shards=2
#[no_mangle]
pub extern "C" fn c14_long() {
    let n = [1249, 1250, 1251, 2500, 2501][choose(5) as usize];
    let mut v: Vec<u64> = (0..n as u64).map(|i| i.wrapping_mul(0x0101010101010101)).collect();
    v[0] = u64_();
    v[1249 - 1] = u64_();
    v[n - 1] = u64_();
    let p = dir() + "/m";
    check!(unsafe { dump(&v, File::create(&p).unwrap()).is_ok() }, "a dump succeeds");
    let m = TypedMemoryMap::<u64>::new(&p);
    check!(m.len == n && &m[..] == &v[..], "the values are those dumped");
    let k = [0, 1249, n - 1, n][choose(4) as usize];
    check!(&m[k..] == &v[k..] && &m[..k] == &v[..k], "the values of a range are those dumped");
}
/// Bytes in numbers that no element size divides.
//@ shards=2
#[no_mangle]
pub extern "C" fn c14_long_bytes() {
    let n = [9999, 10000, 10001, 19999, 20000, 20001][choose(6) as usize];
    let mut v: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
    v[9998] = u8_();
    v[n - 1] = u8_();
    let mut w: Vec<u8> = vec![];
    check!(unsafe { dump(&v, &mut w).is_ok() } && w == v, "a dump is the bytes of the values");
    let p = dir() + "/m";
    check!(unsafe { dump(&v, File::create(&p).unwrap()).is_ok() }, "a dump succeeds");
    let m = TypedMemoryMap::<u8>::new(&p);
    check!(m.len == n && &m[..] == &v[..], "the values are those dumped");
}
/// Ranges of many values.
#[no_mangle]
pub extern "C" fn c14_many() {
    let n = 70;
    let v: Vec<u16> = (0..n).map(|i| i * 321).collect();
    let p = dir() + "/m";
    unsafe { dump(&v, File::create(&p).unwrap()).unwrap() }
    let (i, j) = (u8_() as usize, u8_() as usize);
    ranges(&TypedMemoryMap::<u16>::new(&p), &v, i, j);
}
#[no_mangle]
pub extern "C" fn c14_large() {
    let v: Vec<[u64; 3]> = (0..choose(3)).map(|_| [u64_(), u64_(), u64_()]).collect();
    trip(&v);
}
/// A map that is there already.
#[no_mangle]
pub extern "C" fn c14_with_mmap() {
    let v: Vec<u16> = (0..1 + choose(4)).map(|_| u16_()).collect();
    let p = dir() + "/m";
    unsafe { dump(&v, File::create(&p).unwrap()).unwrap() }
    let map = || unsafe { memmap::Mmap::map(&File::open(&p).unwrap()).unwrap() };
    ranges(&TypedMemoryMap::<u16>::with_mmap(map()), &v, u64_() as usize, u64_() as usize);
    let m = TypedMemoryMap::<u32>::with_mmap(map());
    check!(m.len == v.len() / 2 && m[..].len() == m.len, "a map has the values the file has room for");
}
/// More values than two bytes count, and more bytes.
#[no_mangle]
pub extern "C" fn c14_huge() {
    let n = [65536, 65600][choose(2) as usize];
    let mut v: Vec<u16> = (0..n).map(|i| (i ^ i >> 7) as u16).collect();
    v[n - 1] = u16_();
    let p = dir() + "/m";
    check!(unsafe { dump(&v, File::create(&p).unwrap()).is_ok() }, "a dump succeeds");
    let m = TypedMemoryMap::<u16>::new(&p);
    check!(m.len == n && &m[..] == &v[..], "the values are those dumped");
    check!(&m[65530..] == &v[65530..] && &m[..65535] == &v[..65535], "the values of a range are those dumped");
}
