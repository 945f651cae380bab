//! What a harness may say to the engine. Under the engine the inputs are symbolic; with the feature
//! `native` the same harness runs as an ordinary program on the inputs of a counterexample.
#![allow(static_mut_refs)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn vp_bool() -> bool;
        fn vp_u8() -> u8;
        fn vp_u16() -> u16;
        fn vp_u32() -> u32;
        fn vp_u64() -> u64;
        fn vp_assume(c: bool);
        fn vp_check(c: bool, id: u32, p: *const u8, n: usize);
        fn vp_cover(id: u32);
        fn vp_conc(x: u64) -> u64;
        fn vp_note(p: *const u8, n: usize);
        fn vp_catch(f: extern "C" fn(*mut u8), data: *mut u8) -> bool;
        fn vp_fs_budget(n: u64);
        fn vp_fs_short(on: bool);
        fn vp_fs_intr(n: u64);
        fn vp_fs_fail(n: u64) -> u64;
        fn vp_fs_full(p: *const u8, n: usize);
        fn vp_fs_order(n: u64);
        fn vp_fs_len(p: *const u8, n: usize) -> u64;
    }
    pub fn bool_() -> bool {
        unsafe { vp_bool() }
    }
    pub fn u8_() -> u8 {
        unsafe { vp_u8() }
    }
    pub fn u16_() -> u16 {
        unsafe { vp_u16() }
    }
    pub fn u32_() -> u32 {
        unsafe { vp_u32() }
    }
    pub fn u64_() -> u64 {
        unsafe { vp_u64() }
    }
    pub fn assume(c: bool) {
        unsafe { vp_assume(c) }
    }
    pub fn check(c: bool, id: u32, what: &str) {
        unsafe { vp_check(c, id, what.as_ptr(), what.len()) }
    }
    pub fn cover(id: u32) {
        unsafe { vp_cover(id) }
    }
    pub fn conc(x: u64) -> u64 {
        unsafe { vp_conc(x) }
    }
    pub fn note(s: &str) {
        unsafe { vp_note(s.as_ptr(), s.len()) }
    }
    extern "C" fn tramp<F: FnOnce()>(d: *mut u8) {
        let f = unsafe { (*(d as *mut Option<F>)).take().unwrap() };
        f()
    }
    pub fn panics<F: FnOnce()>(f: F) -> bool {
        let mut s = Some(f);
        unsafe { vp_catch(tramp::<F>, &mut s as *mut Option<F> as *mut u8) }
    }
    pub fn fs_budget(n: u64) {
        unsafe { vp_fs_budget(n) }
    }
    pub fn fs_short(on: bool) {
        unsafe { vp_fs_short(on) }
    }
    pub fn fs_intr(n: u64) {
        unsafe { vp_fs_intr(n) }
    }
    /// The `n`th read or write from now fails (0: none does). Gives what was left of the last count.
    pub fn fs_fail(n: u64) -> u64 {
        unsafe { vp_fs_fail(n) }
    }
    pub fn fs_full(p: &str) {
        unsafe { vp_fs_full(p.as_ptr(), p.len()) }
    }
    pub fn fs_order(n: u64) {
        unsafe { vp_fs_order(n) }
    }
    pub fn fs_len(p: &str) -> u64 {
        unsafe { vp_fs_len(p.as_ptr(), p.len()) }
    }
    pub const NATIVE: bool = false;
    /// Where harnesses keep their files.
    pub fn dir() -> String {
        "/vp".to_string()
    }
}

#[cfg(feature = "native")]
mod imp {
    static mut INPUTS: Vec<u64> = Vec::new();
    static mut POS: usize = 0;
    static mut DIR: String = String::new();
    pub fn start(inputs: Vec<u64>, dir: String) {
        unsafe {
            INPUTS = inputs;
            DIR = dir;
        }
    }
    fn next() -> u64 {
        unsafe {
            if POS >= INPUTS.len() {
                println!("REPLAY: ran out of inputs");
                std::process::exit(77)
            }
            POS += 1;
            INPUTS[POS - 1]
        }
    }
    pub fn bool_() -> bool {
        next() & 1 == 1
    }
    pub fn u8_() -> u8 {
        next() as u8
    }
    pub fn u16_() -> u16 {
        next() as u16
    }
    pub fn u32_() -> u32 {
        next() as u32
    }
    pub fn u64_() -> u64 {
        next()
    }
    pub fn assume(c: bool) {
        if !c {
            println!("REPLAY: an assumption does not hold");
            std::process::exit(77)
        }
    }
    pub fn check(c: bool, id: u32, what: &str) {
        if !c {
            println!("REPLAY: check {} fails: {}", id, what);
            std::process::exit(1)
        }
    }
    pub fn cover(_: u32) {}
    pub fn conc(x: u64) -> u64 {
        x
    }
    pub fn note(s: &str) {
        println!("note: {}", s)
    }
    pub fn panics<F: FnOnce()>(f: F) -> bool {
        let h = std::panic::take_hook();
        std::panic::set_hook(Box::new(|_| {}));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
        std::panic::set_hook(h);
        r
    }
    // The calls the engine models, with the same faults: these take the place of the C library's.
    static mut BUDGET: i64 = -1;
    static mut SHORT: bool = false;
    static mut INTR: u64 = 0;
    static mut FAIL: u64 = 0;
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
        fn __errno_location() -> *mut i32;
        fn lseek(fd: i32, o: i64, w: i32) -> i64;
    }
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
        let mut n = n;
        if fd > 2 && n > 0 {
            if INTR > 0 {
                INTR -= 1;
                *__errno_location() = 4;
                return -1;
            }
            if FAIL > 0 {
                FAIL -= 1;
                if FAIL == 0 {
                    *__errno_location() = 5;
                    return -1;
                }
            }
            if BUDGET >= 0 {
                let pos = lseek(fd, 0, 1).max(0);
                if pos >= BUDGET {
                    *__errno_location() = 27;
                    return -1;
                }
                n = n.min((BUDGET - pos) as usize);
            }
            if SHORT && n > 1 {
                n = (n + 1) / 2
            }
        }
        syscall(1, fd, p, n) as isize
    }
    #[no_mangle]
    pub unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
        let mut n = n;
        if fd > 2 && n > 0 {
            if INTR > 0 {
                INTR -= 1;
                *__errno_location() = 4;
                return -1;
            }
            if FAIL > 0 {
                FAIL -= 1;
                if FAIL == 0 {
                    *__errno_location() = 5;
                    return -1;
                }
            }
            if SHORT && n > 1 {
                n = (n + 1) / 2
            }
        }
        syscall(0, fd, p, n) as isize
    }
    pub fn fs_budget(n: u64) {
        unsafe { BUDGET = n.min(1 << 62) as i64 }
    }
    pub fn fs_short(on: bool) {
        unsafe { SHORT = on }
    }
    pub fn fs_intr(n: u64) {
        unsafe { INTR = n }
    }
    pub fn fs_fail(n: u64) -> u64 {
        unsafe { std::mem::replace(&mut *std::ptr::addr_of_mut!(FAIL), n) }
    }
    // Directories are listed in the order asked for: number ORDER of the permutations of the sorted names.
    static mut ORDER: u64 = 0;
    struct Stream {
        real: *mut u8,
        entries: Vec<Vec<u64>>,
        pos: usize,
    }
    static mut STREAMS: Vec<*mut Stream> = Vec::new();
    extern "C" {
        fn dlsym(h: *mut u8, n: *const u8) -> *mut u8;
    }
    unsafe fn next_one(n: &'static [u8]) -> *mut u8 {
        dlsym(-1isize as *mut u8, n.as_ptr())
    }
    unsafe fn ours(d: *mut u8) -> Option<&'static mut Stream> {
        STREAMS.iter().find(|s| **s as *mut u8 == d).map(|s| &mut **s)
    }
    unsafe fn real_readdir(d: *mut u8) -> *mut u8 {
        let f: extern "C" fn(*mut u8) -> *mut u8 = std::mem::transmute(next_one(b"readdir64\0"));
        f(d)
    }
    unsafe fn real_closedir(d: *mut u8) -> i32 {
        let f: extern "C" fn(*mut u8) -> i32 = std::mem::transmute(next_one(b"closedir\0"));
        f(d)
    }
    #[no_mangle]
    pub unsafe extern "C" fn opendir(p: *const u8) -> *mut u8 {
        let f: extern "C" fn(*const u8) -> *mut u8 = std::mem::transmute(next_one(b"opendir\0"));
        let real = f(p);
        if real.is_null() {
            return real;
        }
        let mut l: Vec<(Vec<u8>, Vec<u64>)> = vec![];
        loop {
            let e = real_readdir(real);
            if e.is_null() {
                break;
            }
            // struct dirent64: d_reclen at 16, d_name at 19
            let n = *(e.add(16) as *const u16) as usize;
            let mut b = vec![0u64; (n + 7) / 8];
            std::ptr::copy_nonoverlapping(e, b.as_mut_ptr() as *mut u8, n);
            let name = std::ffi::CStr::from_ptr(e.add(19) as *const _).to_bytes().to_vec();
            if name != b"." && name != b".." {
                l.push((name, b))
            }
        }
        l.sort();
        let mut k = ORDER;
        let mut entries = vec![];
        while !l.is_empty() {
            let n = l.len() as u64;
            entries.push(l.remove((k % n) as usize).1);
            k /= n;
        }
        let s = Box::into_raw(Box::new(Stream { real, entries, pos: 0 }));
        STREAMS.push(s);
        s as *mut u8
    }
    #[no_mangle]
    pub unsafe extern "C" fn readdir64(d: *mut u8) -> *mut u8 {
        match ours(d) {
            None => real_readdir(d),
            Some(s) if s.pos < s.entries.len() => {
                s.pos += 1;
                s.entries[s.pos - 1].as_mut_ptr() as *mut u8
            }
            _ => std::ptr::null_mut(),
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn closedir(d: *mut u8) -> i32 {
        match ours(d) {
            None => real_closedir(d),
            Some(s) => {
                STREAMS.retain(|x| *x as *mut u8 != d);
                let real = s.real;
                drop(Box::from_raw(d as *mut Stream));
                real_closedir(real)
            }
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn dirfd(d: *mut u8) -> i32 {
        let f: extern "C" fn(*mut u8) -> i32 = std::mem::transmute(next_one(b"dirfd\0"));
        match ours(d) {
            None => f(d),
            Some(s) => f(s.real),
        }
    }
    pub fn fs_order(n: u64) {
        unsafe { ORDER = n }
    }
    pub fn fs_full(p: &str) {
        let _ = std::fs::remove_file(p);
        std::os::unix::fs::symlink("/dev/full", p).unwrap()
    }
    pub fn fs_len(p: &str) -> u64 {
        std::fs::metadata(p).map(|m| m.len()).unwrap_or(!0)
    }
    pub const NATIVE: bool = true;
    pub fn dir() -> String {
        unsafe { DIR.clone() }
    }
}
pub use imp::*;
#[cfg(feature = "native")]
pub mod native {
    pub use crate::imp::start;
}

/// A symbolic byte below `n`.
pub fn below(n: u8) -> u8 {
    let x = u8_();
    assume(x < n);
    x
}
/// A number below `n`, one path for each.
pub fn choose(n: u8) -> u8 {
    conc(below(n) as u64) as u8
}
/// A truth value, one path for each.
pub fn flag() -> bool {
    conc(bool_() as u64) == 1
}

static STEADY: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
/// From now on random draws are free (0), the lowest (1), the highest (2), in the middle (3).
pub fn steady(k: u8) {
    STEADY.store(k, std::sync::atomic::Ordering::Relaxed)
}
pub fn is_steady() -> u8 {
    STEADY.load(std::sync::atomic::Ordering::Relaxed)
}

/// Names a place in a harness: a hash of the file name above the line.
pub const fn at(file: &str, line: u32) -> u32 {
    let b = file.as_bytes();
    let mut i = b.len();
    while i > 0 && b[i - 1] != b'/' {
        i -= 1
    }
    let mut h: u32 = 0x811c9dc5;
    while i < b.len() {
        h = (h ^ b[i] as u32).wrapping_mul(0x01000193);
        i += 1
    }
    ((h ^ (h >> 16)) << 16) | (line & 0xffff)
}
#[macro_export]
macro_rules! check {
    ($c:expr, $what:expr) => {{
        const AT: u32 = $crate::at(file!(), line!());
        $crate::check($c, AT, $what)
    }};
}
#[macro_export]
macro_rules! cover {
    () => {{
        const AT: u32 = $crate::at(file!(), line!());
        $crate::cover(AT)
    }};
    ($c:expr) => {
        if $c {
            const AT: u32 = $crate::at(file!(), line!());
            $crate::cover(AT)
        }
    };
}
