//! Symbolic execution: one state per path, concrete addresses, forks where a term decides control.
use crate::expr::*;
use crate::ir::*;
use crate::solver::Solver;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<E>, // empty, or a term per byte (0 = concrete)
    pub ro: bool,
    pub heap: bool,
    pub align: u64,
}
impl Obj {
    fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: vec![], ro: false, heap: false, align: 0 }
    }
}

#[derive(Clone)]
struct Frame {
    f: usize,
    body: Rc<Body>,
    regs: Vec<V>,
    block: u32,
    pc: u32,
    dst: u32,
    allocas: Vec<u32>,
    catch: bool,
}

#[derive(Clone, Default)]
pub struct File {
    pub data: Rc<Vec<u8>>,
    pub sym: Rc<Vec<E>>,
}
#[derive(Clone)]
struct Fd {
    path: String,
    pos: u64,
    append: bool,
    dir: Option<Rc<Vec<String>>>,
}
#[derive(Clone, Default)]
struct Fs {
    files: BTreeMap<String, File>,
    fds: BTreeMap<i32, Fd>,
    next: i32,
    /// no file can grow past this many bytes, when set (RLIMIT_FSIZE)
    budget: Option<u64>,
    short: bool,
    intr: u64,
    /// this many calls of read or write from now, one fails
    fail: u64,
    dirs: BTreeSet<String>,
    /// writing to these fails with ENOSPC
    full: BTreeSet<String>,
    /// the number of the permutation of a sorted listing that readdir gives
    order: u64,
    /// open directory streams: what is left to give, the entry given last
    streams: BTreeMap<u64, (Vec<String>, u64)>,
}
impl Fs {
    fn is_dir(&self, path: &str) -> bool {
        let p = path.trim_end_matches('/');
        p == "/vp" || self.dirs.contains(p)
    }
    fn has(&self, path: &str) -> bool {
        self.files.contains_key(path) || self.is_dir(path)
    }
    fn parent_is_dir(&self, path: &str) -> bool {
        match path.trim_end_matches('/').rfind('/') {
            Some(i) => self.is_dir(&path[..i]),
            None => false,
        }
    }
    /// Names in a directory.
    fn list(&self, path: &str) -> Vec<String> {
        let pre = format!("{}/", path.trim_end_matches('/'));
        let mut v: Vec<String> = self.files.keys().chain(self.dirs.iter()).filter(|k| k.starts_with(&pre) && !k[pre.len()..].contains('/')).map(|k| k[pre.len()..].to_string()).collect();
        v.sort();
        v
    }
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    pc: Vec<E>,
    model: Rc<Vec<u128>>,
    inputs: Vec<(u32, V)>, // width, value
    nvars: u32,
    path: u64,
    depth: u32,
    fs: Fs,
    notes: Rc<Vec<String>>,
    live_heap: i64,
}

#[derive(Debug, Clone)]
pub struct Finding {
    pub kind: String, // check, panic, memory, ub
    pub id: u64,
    pub what: String,
    pub inputs: Vec<(u32, u128)>,
    /// other inputs on the same path that end the same way
    pub alts: Vec<Vec<u128>>,
    pub stack: Vec<String>,
    pub notes: Vec<String>,
}

pub enum Stop {
    /// the path is over
    End,
    Bug(String, u64, String),
    /// the engine cannot go on: the result of the whole run is inconclusive
    Giveup(String),
}

pub struct Opts {
    pub max_secs: f64,
    pub max_steps: u64,
    pub shard: u64,
    pub shards: u64,
    pub shard_depth: u32,
    pub max_findings: usize,
    pub trace: bool,
}

pub struct Exec {
    pub m: Module,
    pub p: Pool,
    pub s: Solver,
    pub opts: Opts,
    work: Vec<State>,
    pub findings: BTreeMap<(String, u64), Finding>,
    pub finding_paths: u64,
    pub covers: BTreeMap<u64, u64>,
    pub checks: BTreeMap<u64, (u64, u64)>, // id -> (times reached, times decided by the solver)
    pub paths: u64,
    /// inputs of some of the paths that ended well, to be run on the real code
    pub samples: Vec<Vec<(u32, u128)>>,
    pub killed: u64,
    pub steps: u64,
    pub longest: u64,
    pub forks: u64,
    pub ran: Vec<bool>,
    pub giveup: Option<String>,
    pub max_inputs: usize,
    pub max_vars: u32,
    pub leaks: u64,
    names: Vec<u8>,
    t0: Instant,
}

type X<T> = Result<T, Stop>;
fn give<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Giveup(s.into()))
}
fn bug<T>(k: &str, id: u64, s: impl Into<String>) -> X<T> {
    Err(Stop::Bug(k.into(), id, s.into()))
}

/// Functions the engine implements itself even where a body exists.
pub fn modelled(n: &str) -> bool {
    if n.starts_with("llvm.") || n.starts_with("vp_") {
        return true;
    }
    if n.contains("7___rustc") {
        return n.ends_with("___rust_alloc")
            || n.ends_with("___rust_dealloc")
            || n.ends_with("___rust_realloc")
            || n.ends_with("___rust_alloc_zeroed")
            || n.ends_with("___rust_no_alloc_shim_is_unstable_v2");
    }
    n.ends_with("5linux19hashmap_random_keys")
        || n.ends_with("4core9panicking9panic_fmt")
        || n.ends_with("4core9panicking18panic_nounwind_fmt")
        || n.contains("9panicking19panic_nounwind_fmt")
        || n.ends_with("3std7process5abort")
        || n.ends_with("9panicking20rust_panic_with_hook")
        || n.contains("9panicking15panic_with_hook")
        || n.contains("9panicking11begin_panic")
        || n.ends_with("5alloc18handle_alloc_error")
        || n == "memcmp"
        || n == "bcmp"
        || n == "strlen"
        || n == "memcpy"
        || n == "memmove"
        || n == "memset"
}

impl Exec {
    pub fn new(m: Module, opts: Opts) -> Exec {
        let n = m.funcs.len();
        Exec {
            m,
            p: Pool::new(),
            s: Solver::new(),
            opts,
            work: vec![],
            findings: BTreeMap::new(),
            finding_paths: 0,
            covers: BTreeMap::new(),
            checks: BTreeMap::new(),
            paths: 0,
            samples: vec![],
            killed: 0,
            steps: 0,
            longest: 0,
            forks: 0,
            ran: vec![false; n],
            giveup: None,
            max_inputs: 0,
            max_vars: 0,
            leaks: 0,
            names: vec![],
            t0: Instant::now(),
        }
    }

    // ---- start-up -------------------------------------------------------------------------
    fn init_mem(&mut self) -> Result<Vec<Option<Rc<Obj>>>, String> {
        let mut mem: Vec<Option<Rc<Obj>>> = vec![None; 16];
        let src = self.m.src.clone();
        for i in 0..self.m.globals.len() {
            let g = &self.m.globals[i];
            let mut o = Obj::new(g.ty.size() as usize);
            if let Some(at) = g.init_at {
                let mut c = Cur::new(&src, at);
                let v = self.m.cst(&mut c, &g.ty).map_err(|e| format!("global {}: {}", g.name, e))?;
                Exec::poke(&mut o, 0, &g.ty, &v);
            }
            o.ro = g.ro;
            mem.push(Some(Rc::new(o)));
        }
        Ok(mem)
    }
    fn poke(o: &mut Obj, off: u64, t: &Ty, v: &V) {
        match v {
            V::I(x) => {
                if !t.is_scalar() {
                    return; // zero
                }
                let n = (t.width() as usize + 7) / 8;
                for i in 0..n {
                    o.data[off as usize + i] = (x >> (8 * i)) as u8
                }
            }
            V::A(vs) => {
                for (i, x) in vs.iter().enumerate() {
                    let (fo, ft) = t.field(i);
                    Exec::poke(o, off + fo, &ft, x)
                }
            }
            V::S(_) => unreachable!(),
        }
    }
    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        self.t0 = Instant::now();
        let f = *self.m.fidx.get(entry).ok_or(format!("no function {}", entry))?;
        let mem = self.init_mem()?;
        let body = self.m.body(f)?;
        let st = State {
            frames: vec![Frame { f, regs: vec![V::I(0); body.nregs as usize], body, block: 0, pc: 0, dst: !0, allocas: vec![], catch: false }],
            mem,
            free: vec![],
            pc: vec![],
            model: Rc::new(vec![]),
            inputs: vec![],
            nvars: 0,
            path: 0,
            depth: 0,
            fs: Fs { next: 3, ..Default::default() },
            notes: Rc::new(vec![]),
            live_heap: 0,
        };
        self.ran[f] = true;
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            let r = self.go(&mut st);
            self.max_inputs = self.max_inputs.max(st.inputs.len());
            self.max_vars = self.max_vars.max(st.nvars);
            match r {
                Ok(()) | Err(Stop::End) => {}
                Err(Stop::Bug(k, id, what)) => {
                    self.paths += 1;
                    self.record(&st, k, id, what);
                    if self.findings.len() >= self.opts.max_findings {
                        return Ok(());
                    }
                }
                Err(Stop::Giveup(s)) => {
                    if s.ends_with(" limit") {
                        // perhaps the code never ends here: bin/check asks the real code
                        self.record(&st, "hang".into(), 0, "does not end".into());
                    }
                    let w = self.stack(&st);
                    self.giveup = Some(format!("{} [{}]", s, w.join(" < ")));
                    return Ok(());
                }
            }
        }
        Ok(())
    }
    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| self.m.funcs[f.f].name.clone()).collect()
    }
    fn record(&mut self, st: &State, kind: String, id: u64, what: String) {
        self.finding_paths += 1;
        let stack = self.stack(st);
        let model = st.model.clone();
        let inputs: Vec<(u32, u128)> = st.inputs.iter().map(|(w, v)| (*w, self.value(v, &model))).collect();
        let key = (format!("{}:{}", kind, what), id);
        if let Some(f) = self.findings.get_mut(&key) {
            // another path to the same failure: one more witness
            if f.alts.len() < 120 {
                f.alts.push(inputs.iter().map(|x| x.1).collect());
            }
        } else {
            let alts = self.alternatives(st);
            self.findings.insert(key, Finding { kind, id, what, inputs, alts, stack, notes: (*st.notes).clone() });
        }
    }
    /// More models of a path: what the model leaves open (the order of a hash map, say) can depend on
    /// the values that make up the path, so that some of them replay and others do not.
    fn alternatives(&mut self, st: &State) -> Vec<Vec<u128>> {
        let t0 = Instant::now();
        let mut r = 0x9E3779B97F4A7C15u64;
        let mut out: Vec<Vec<u128>> = vec![];
        let vars: Vec<E> = st.inputs.iter().filter_map(|(_, v)| if let V::S(e) = v { Some(*e) } else { None }).collect();
        while out.len() < 40 && !vars.is_empty() && t0.elapsed().as_secs_f64() < 2.0 {
            let mut s = st.clone();
            for &e in &vars {
                r ^= r << 13;
                r ^= r >> 7;
                r ^= r << 17;
                let w = self.p.w(e);
                let v = (r >> 11) as u128 & if out.len() % 2 == 0 { 15 } else { u128::MAX } & (u128::MAX >> (128 - w));
                let k = self.p.cst(v, w);
                let c = self.p.bin(Op::Eq, e, k);
                if let Ok(Some(m)) = self.sat_with(&s, c) {
                    s.model = m;
                    self.add(&mut s, c);
                }
            }
            let model = s.model.clone();
            out.push(s.inputs.iter().map(|(_, v)| self.value(v, &model)).collect());
        }
        out
    }
    fn sample(&mut self, st: &State) {
        if self.paths > 2 && !self.paths.is_power_of_two() {
            return;
        }
        let model = st.model.clone();
        let i = st.inputs.iter().map(|(w, v)| (*w, self.value(v, &model))).collect();
        self.samples.push(i);
    }
    fn value(&mut self, v: &V, model: &[u128]) -> u128 {
        match v {
            V::I(x) => *x,
            V::S(e) => self.p.eval(*e, model),
            V::A(_) => 0,
        }
    }

    // ---- path conditions --------------------------------------------------------------------
    fn holds_in_model(&mut self, st: &State, c: E) -> bool {
        self.p.eval(c, &st.model) == 1
    }
    fn sat_with(&mut self, st: &State, c: E) -> X<Option<Rc<Vec<u128>>>> {
        match self.s.sat(&mut self.p, &st.pc, c) {
            Err(e) => give(e),
            Ok(None) => Ok(None),
            Ok(Some(d)) => {
                let mut m = (*st.model).clone();
                for &(i, v) in d.iter() {
                    while m.len() <= i as usize {
                        m.push(0)
                    }
                    m[i as usize] = v;
                }
                Ok(Some(Rc::new(m)))
            }
        }
    }
    fn add(&mut self, st: &mut State, c: E) {
        if self.p.val(c) == Some(1) {
            return;
        }
        // keep conjunctions apart
        let n = self.p.n[c as usize];
        if n.op == Op::And {
            self.add(st, n.a);
            self.add(st, n.b);
            return;
        }
        if !st.pc.contains(&c) {
            st.pc.push(c)
        }
    }
    /// Which way does `c` go? Forks when it can go both ways.
    fn decide(&mut self, st: &mut State, c: E) -> X<bool> {
        if let Some(k) = self.p.val(c) {
            return Ok(k == 1);
        }
        let nc = self.p.not(c);
        let here = self.holds_in_model(st, c);
        let other = if here { nc } else { c };
        let this = if here { c } else { nc };
        match self.sat_with(st, other)? {
            None => Ok(here),
            Some(m) => {
                self.forks += 1;
                let mut o = st.clone();
                o.model = m;
                self.add(&mut o, other);
                o.frames.last_mut().unwrap().pc -= 1; // run the instruction again
                self.branch(&mut o, !here as u64);
                if self.mine(&o) {
                    self.work.push(o);
                }
                self.add(st, this);
                self.branch(st, here as u64);
                if !self.mine(st) {
                    return Err(Stop::End);
                }
                Ok(here)
            }
        }
    }
    fn branch(&mut self, st: &mut State, bit: u64) {
        st.depth += 1;
        if st.depth <= self.opts.shard_depth {
            st.path = (st.path.wrapping_mul(2).wrapping_add(bit + 1)).wrapping_mul(0x9E3779B97F4A7C15) >> 3;
        }
    }
    fn mine(&self, st: &State) -> bool {
        self.opts.shards <= 1 || st.depth != self.opts.shard_depth || (st.path >> 20) % self.opts.shards == self.opts.shard
    }
    /// Make a value concrete, forking over the values it can take.
    fn conc(&mut self, st: &mut State, v: &V) -> X<u128> {
        match v {
            V::I(x) => Ok(*x),
            V::A(_) => give("aggregate where a number is needed"),
            V::S(e) => {
                let w = self.p.w(*e);
                let x = self.p.eval(*e, &st.model);
                let k = self.p.cst(x, w);
                let c = self.p.bin(Op::Eq, *e, k);
                if self.decide(st, c)? {
                    Ok(x)
                } else {
                    unreachable!()
                }
            }
        }
    }

    // ---- memory -------------------------------------------------------------------------------
    fn alloc(&mut self, st: &mut State, n: u64, heap: bool) -> u64 {
        let mut o = Obj::new(n as usize);
        o.heap = heap;
        if !heap {
            if let Some(i) = st.free.pop() {
                st.mem[i as usize] = Some(Rc::new(o));
                return (i as u64) << 32;
            }
        }
        st.mem.push(Some(Rc::new(o)));
        ((st.mem.len() - 1) as u64) << 32
    }
    fn obj<'a>(&self, st: &'a State, a: u64, n: u64, what: &str) -> X<(&'a Rc<Obj>, usize)> {
        let i = (a >> 32) as usize;
        let off = (a & 0xffff_ffff) as u64;
        match st.mem.get(i) {
            Some(Some(o)) => {
                if off + n > o.data.len() as u64 {
                    return bug("memory", 0, format!("{} of {} bytes at offset {} of an object of {} bytes", what, n, off, o.data.len()));
                }
                Ok((o, off as usize))
            }
            _ => bug("memory", 0, format!("{} of {} bytes through an invalid pointer {:#x}", what, n, a)),
        }
    }
    fn obj_mut<'a>(&self, st: &'a mut State, a: u64, n: u64) -> X<(&'a mut Obj, usize)> {
        let i = (a >> 32) as usize;
        let off = (a & 0xffff_ffff) as u64;
        match st.mem.get_mut(i) {
            Some(Some(o)) => {
                if off + n > o.data.len() as u64 {
                    return bug("memory", 0, format!("write of {} bytes at offset {} of an object of {} bytes", n, off, o.data.len()));
                }
                if o.ro {
                    return bug("memory", 0, "write to read-only memory".to_string());
                }
                Ok((Rc::make_mut(o), off as usize))
            }
            _ => bug("memory", 0, format!("write of {} bytes through an invalid pointer {:#x}", n, a)),
        }
    }
    fn load(&mut self, st: &mut State, a: u64, t: &Ty) -> X<V> {
        if !t.is_scalar() {
            let n = t.nfields();
            let mut v = Vec::with_capacity(n);
            for i in 0..n {
                let (o, ft) = t.field(i);
                v.push(self.load(st, a + o, &ft)?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        let w = t.width();
        let n = (w as usize + 7) / 8;
        let (o, off) = self.obj(st, a, n as u64, "read")?;
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|&e| e == 0) {
            let mut x = 0u128;
            for i in (0..n).rev() {
                x = (x << 8) | o.data[off + i] as u128
            }
            return Ok(V::I(x & mask(w)));
        }
        let o = o.clone();
        let mut e = 0;
        for i in 0..n {
            let b = if o.sym[off + i] != 0 { o.sym[off + i] } else { self.p.cst(o.data[off + i] as u128, 8) };
            e = if i == 0 { b } else { self.p.concat(b, e) };
        }
        let e = if n as u32 * 8 > w { self.p.extract(e, 0, w) } else { e };
        Ok(self.norm(e))
    }
    /// A read from a table at a place that depends on the input: a term over the place, without a fork,
    /// if the object is a table and its contents take few runs of equal values.
    fn table(&mut self, st: &mut State, e: E, t: &Ty) -> X<Option<V>> {
        if !t.is_scalar() || *t == Ty::Ptr || t.width() > 64 {
            return Ok(None);
        }
        let w = t.width();
        let n = (w as u64 + 7) / 8;
        let x = self.p.eval(e, &st.model) as u64;
        let (size, ro) = match st.mem.get((x >> 32) as usize) {
            Some(Some(o)) => (o.data.len() as u64, o.ro),
            _ => return Ok(None),
        };
        let at = x & 0xffff_ffff;
        if size > 4096 || at + n > size || size / n < if ro { 8 } else { 100 } {
            return Ok(None);
        }
        let base = x - at;
        let k = self.p.cst(base as u128, 64);
        let off = self.p.bin(Op::Sub, e, k);
        // the places it can be, by bounds or exactly
        let (lo, hi) = self.p.range(off);
        let some = self.s.values(&self.p, off);
        let mut runs: Vec<(u64, V)> = vec![];
        let mut o = at % n;
        while o + n <= size {
            if (o as u128) < lo || o as u128 > hi || some.as_ref().map_or(false, |s| s.binary_search(&o).is_err()) {
                o += n;
                continue;
            }
            let v = self.load(st, base + o, t)?;
            let same = match (runs.last(), &v) {
                (Some((_, V::I(a))), V::I(b)) => a == b,
                (Some((_, V::S(a))), V::S(b)) => a == b,
                _ => false,
            };
            if !same {
                if runs.len() == 128 {
                    return Ok(None);
                }
                runs.push((o, v));
            }
            o += n;
        }
        // within the object, and at a multiple of the width
        let k = self.p.cst((size - n) as u128, 64);
        let mut c = self.p.bin(Op::Ule, off, k);
        if n > 1 {
            let lo = self.p.extract(off, 0, n.trailing_zeros());
            let k = self.p.cst((at % n) as u128, n.trailing_zeros());
            let d = self.p.bin(Op::Eq, lo, k);
            c = self.p.and(c, d);
        }
        if !self.decide(st, c)? {
            unreachable!()
        }
        let off = self.p.extract(off, 0, 12);
        let r = self.pick(&runs, off, w);
        let mut vals: Vec<u128> = runs.iter().filter_map(|x| if let V::I(k) = x.1 { Some(k) } else { None }).collect();
        vals.sort();
        vals.dedup();
        let r = self.norm(r);
        if vals.len() <= 16 && runs.iter().all(|x| matches!(x.1, V::I(_))) {
            // a few classes: one path each keeps the terms small
            return Ok(Some(V::I(self.conc(st, &r)?)));
        }
        Ok(Some(r))
    }
    fn pick(&mut self, runs: &[(u64, V)], off: E, w: u32) -> E {
        if runs.len() == 1 {
            return self.term(&runs[0].1, w);
        }
        let m = runs.len() / 2;
        let a = self.pick(&runs[..m], off, w);
        let b = self.pick(&runs[m..], off, w);
        let k = self.p.cst(runs[m].0 as u128, 12);
        let c = self.p.bin(Op::Ult, off, k);
        self.p.ite(c, a, b)
    }
    /// `n` bytes from there, by table for a few of them.
    fn bytes_at(&mut self, st: &mut State, a: &V, n: u64) -> X<(Vec<u8>, Vec<E>)> {
        if let V::S(e) = a {
            if n <= 8 {
                let (mut d, mut s) = (vec![], vec![]);
                for i in 0..n {
                    let k = self.p.cst(i as u128, 64);
                    let x = self.p.bin(Op::Add, *e, k);
                    match self.table(st, x, &Ty::I(8))? {
                        Some(V::I(x)) => {
                            d.push(x as u8);
                            s.push(0);
                        }
                        Some(V::S(x)) => {
                            d.push(0);
                            s.push(x);
                        }
                        _ => break,
                    }
                }
                if d.len() as u64 == n {
                    return Ok((d, s));
                }
            }
        }
        let b = self.conc(st, a)? as u64;
        self.read_bytes(st, b, n)
    }
    fn norm(&self, e: E) -> V {
        match self.p.val(e) {
            Some(k) => V::I(k),
            None => V::S(e),
        }
    }
    fn store(&mut self, st: &mut State, a: u64, t: &Ty, v: &V) -> X<()> {
        match v {
            V::A(vs) => {
                for (i, x) in vs.iter().enumerate() {
                    let (o, ft) = t.field(i);
                    self.store(st, a + o, &ft, x)?;
                }
                Ok(())
            }
            V::I(x) => {
                let n = (t.width() as usize + 7) / 8;
                let (o, off) = self.obj_mut(st, a, n as u64)?;
                for i in 0..n {
                    o.data[off + i] = (x >> (8 * i)) as u8;
                }
                if !o.sym.is_empty() {
                    for i in 0..n {
                        o.sym[off + i] = 0
                    }
                }
                Ok(())
            }
            V::S(e) => {
                let w = t.width();
                let n = (w as usize + 7) / 8;
                let e = if n as u32 * 8 > w { self.p.zext(*e, n as u32 * 8) } else { *e };
                let mut bs = Vec::with_capacity(n);
                for i in 0..n {
                    bs.push(self.p.extract(e, 8 * i as u32, 8));
                }
                let vals: Vec<Option<u128>> = bs.iter().map(|&b| self.p.val(b)).collect();
                let (o, off) = self.obj_mut(st, a, n as u64)?;
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                for i in 0..n {
                    match vals[i] {
                        Some(k) => {
                            o.data[off + i] = k as u8;
                            o.sym[off + i] = 0;
                        }
                        None => o.sym[off + i] = bs[i],
                    }
                }
                Ok(())
            }
        }
    }
    fn read_bytes(&self, st: &State, a: u64, n: u64) -> X<(Vec<u8>, Vec<E>)> {
        if n == 0 {
            return Ok((vec![], vec![]));
        }
        let (o, off) = self.obj(st, a, n, "read")?;
        let r = off..off + n as usize;
        Ok((o.data[r.clone()].to_vec(), if o.sym.is_empty() { vec![] } else { o.sym[r].to_vec() }))
    }
    fn write_bytes(&self, st: &mut State, a: u64, d: &[u8], s: &[E]) -> X<()> {
        if d.is_empty() {
            return Ok(());
        }
        let (o, off) = self.obj_mut(st, a, d.len() as u64)?;
        o.data[off..off + d.len()].copy_from_slice(d);
        if !s.is_empty() || !o.sym.is_empty() {
            if o.sym.is_empty() {
                if s.iter().all(|&e| e == 0) {
                    return Ok(());
                }
                o.sym = vec![0; o.data.len()];
            }
            for i in 0..d.len() {
                o.sym[off + i] = if s.is_empty() { 0 } else { s[i] };
            }
        }
        Ok(())
    }
    fn dealloc(&mut self, st: &mut State, a: u64) -> X<()> {
        let i = (a >> 32) as usize;
        match st.mem.get(i) {
            Some(Some(o)) if o.heap && a & 0xffff_ffff == 0 => {
                st.mem[i] = None;
                st.live_heap -= 1;
                Ok(())
            }
            _ => bug("memory", 0, format!("free of {:#x}", a)),
        }
    }
    fn c_str(&mut self, st: &mut State, a: u64) -> X<String> {
        let mut s = vec![];
        let mut a = a;
        loop {
            let v = self.load(st, a, &Ty::I(8))?;
            let b = self.conc(st, &v)? as u8;
            if b == 0 {
                return Ok(String::from_utf8_lossy(&s).into_owned());
            }
            s.push(b);
            a += 1;
        }
    }
    fn rust_str(&mut self, st: &mut State, a: u64, n: u64) -> X<String> {
        let (d, _) = self.read_bytes(st, a, n)?;
        Ok(String::from_utf8_lossy(&d).into_owned())
    }

    // ---- the loop -------------------------------------------------------------------------------
    fn term(&mut self, v: &V, w: u32) -> E {
        match v {
            V::I(x) => self.p.cst(*x, w),
            V::S(e) => *e,
            V::A(_) => panic!("aggregate term"),
        }
    }
    fn binop(&mut self, st: &mut State, op: Op, w: u32, a: &V, b: &V) -> X<V> {
        match (a, b) {
            (V::I(x), V::I(y)) => {
                if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) && *y == 0 {
                    return bug("ub", 1, "division by zero");
                }
                Ok(V::I(Pool::fold(op, w, *x, *y)))
            }
            _ => {
                let x = self.term(a, w);
                let y = self.term(b, w);
                if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                    let z = self.p.cst(0, w);
                    let c = self.p.bin(Op::Eq, y, z);
                    if self.decide(st, c)? {
                        return bug("ub", 1, "division by zero");
                    }
                }
                let e = self.p.bin(op, x, y);
                Ok(self.norm(e))
            }
        }
    }
    fn get<'a>(st: &'a State, o: &'a Opnd) -> &'a V {
        match o {
            Opnd::R(r) => &st.frames[st.frames.len() - 1].regs[*r as usize],
            Opnd::C(v) => v,
        }
    }
    fn set(st: &mut State, d: u32, v: V) {
        if d != !0 {
            st.frames.last_mut().unwrap().regs[d as usize] = v
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.block;
        let body = fr.body.clone();
        let b = &body.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, alts) in &b.phis {
                let o = &alts.iter().find(|x| x.0 == from).expect("phi").1;
                let v = match o {
                    Opnd::R(r) => fr.regs[*r as usize].clone(),
                    Opnd::C(v) => v.clone(),
                };
                vals.push((*d, v));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v
            }
        }
        fr.block = to;
        fr.pc = 0;
    }
    fn pop(&mut self, st: &mut State) -> Frame {
        let f = st.frames.pop().unwrap();
        for &i in &f.allocas {
            st.mem[i as usize] = None;
            st.free.push(i);
        }
        f
    }
    fn call(&mut self, st: &mut State, addr: u64, args: Vec<V>, dst: u32, catch: bool, ret: &Ty) -> X<()> {
        if addr < FN_BASE || (addr & 15) != 0 {
            return bug("memory", 0, format!("call through {:#x}", addr));
        }
        let f = ((addr - FN_BASE) >> 4) as usize;
        if f >= self.m.funcs.len() {
            return bug("memory", 0, format!("call through {:#x}", addr));
        }
        let name = self.m.funcs[f].name.clone();
        if self.m.funcs[f].body_at.is_none() || modelled(&name) {
            let e = self.m.ext(&name);
            let tys: Vec<Ty> = args.iter().map(|_| Ty::I(64)).collect();
            return self.ext(st, dst, e, &args, &tys, ret);
        }
        let body = match self.m.body(f) {
            Ok(b) => b,
            Err(e) => return give(e),
        };
        self.ran[f] = true;
        if st.frames.len() > 20000 {
            return bug("panic", 9, "stack overflow");
        }
        let mut regs = vec![V::I(0); body.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < body.params.len() {
                regs[body.params[i] as usize] = a
            }
        }
        st.frames.push(Frame { f, body, regs, block: 0, pc: 0, dst, allocas: vec![], catch });
        Ok(())
    }
    fn panic(&mut self, st: &mut State, what: String) -> X<()> {
        // to the innermost catch, if any
        if let Some(i) = st.frames.iter().rposition(|f| f.catch) {
            while st.frames.len() > i + 1 {
                self.pop(st);
            }
            let f = self.pop(st);
            Exec::set(st, f.dst, V::I(1));
            return Ok(());
        }
        if what.contains("MODEL-BOUND") {
            return give(what);
        }
        bug("panic", 0, what)
    }

    fn go(&mut self, st: &mut State) -> X<()> {
        let mut n = 0u64;
        loop {
            n += 1;
            self.steps += 1;
            if n & 0xfff == 0 {
                self.longest = self.longest.max(n);
                if n > self.opts.max_steps {
                    return give("step limit");
                }
                if self.t0.elapsed().as_secs_f64() > self.opts.max_secs {
                    return give("time limit");
                }
            }
            let fr = st.frames.last_mut().unwrap();
            let body: *const Body = &*fr.body;
            let pc = fr.pc;
            fr.pc += 1;
            let blk = fr.block;
            // the body outlives the instruction: functions keep their lowered bodies
            let ins = unsafe { &(&(*body).blocks)[blk as usize].ins[pc as usize] };
            match ins {
                Ins::Bin(op, w, d, a, b) => {
                    let (a, b) = (Exec::get(st, a), Exec::get(st, b));
                    let v = match (a, b, op) {
                        (V::I(x), V::I(y), Op::Add) => V::I(x.wrapping_add(*y) & mask(*w)),
                        _ => {
                            let (a, b) = (a.clone(), b.clone());
                            self.binop(st, *op, *w, &a, &b)?
                        }
                    };
                    Exec::set(st, *d, v);
                }
                Ins::VBin(op, w, d, a, b) => {
                    let (a, b) = (Exec::get(st, a).clone(), Exec::get(st, b).clone());
                    match (a, b) {
                        (V::A(x), V::A(y)) => {
                            let mut o = vec![];
                            for (p, q) in x.iter().zip(y.iter()) {
                                o.push(self.binop(st, *op, *w, p, q)?);
                            }
                            Exec::set(st, *d, V::A(Rc::new(o)));
                        }
                        _ => return give("vector operand"),
                    }
                }
                Ins::ICmp(op, sw, ng, w, d, a, b) => {
                    let (a, b) = (Exec::get(st, a), Exec::get(st, b));
                    let (a, b) = if *sw { (b, a) } else { (a, b) };
                    let v = match (a, b) {
                        (V::I(x), V::I(y)) => V::I(Pool::fold(*op, *w, *x, *y) ^ (*ng as u128)),
                        _ => {
                            let x = self.term(a, *w);
                            let y = self.term(b, *w);
                            let mut e = self.p.bin(*op, x, y);
                            if *ng {
                                e = self.p.not(e)
                            }
                            self.norm(e)
                        }
                    };
                    Exec::set(st, *d, v);
                }
                Ins::FBin(k, dbl, d, a, b) => {
                    let (a, b) = (Exec::get(st, a).clone(), Exec::get(st, b).clone());
                    let x = self.conc(st, &a)?;
                    let y = self.conc(st, &b)?;
                    let f = |p: f64, q: f64| match k {
                        b'a' => p + q,
                        b's' => p - q,
                        b'm' => p * q,
                        b'd' => p / q,
                        _ => p % q,
                    };
                    let r = if *dbl {
                        f(f64::from_bits(x as u64), f64::from_bits(y as u64)).to_bits() as u128
                    } else {
                        let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        let r = match k {
                            b'a' => p + q,
                            b's' => p - q,
                            b'm' => p * q,
                            b'd' => p / q,
                            _ => p % q,
                        };
                        r.to_bits() as u128
                    };
                    Exec::set(st, *d, V::I(r));
                }
                Ins::FNeg(dbl, d, a) => {
                    let a = Exec::get(st, a).clone();
                    let x = self.conc(st, &a)?;
                    Exec::set(st, *d, V::I(x ^ (1u128 << if *dbl { 63 } else { 31 })));
                }
                Ins::FCmp(k, dbl, d, a, b) => {
                    let (a, b) = (Exec::get(st, a).clone(), Exec::get(st, b).clone());
                    let x = self.conc(st, &a)?;
                    let y = self.conc(st, &b)?;
                    let (p, q) = if *dbl {
                        (f64::from_bits(x as u64), f64::from_bits(y as u64))
                    } else {
                        (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                    };
                    let bit = if p.is_nan() || q.is_nan() {
                        8
                    } else if p < q {
                        1
                    } else if p == q {
                        2
                    } else {
                        4
                    };
                    Exec::set(st, *d, V::I((k & bit != 0) as u128));
                }
                Ins::Alloca(d, sz, n) => {
                    let n = Exec::get(st, n).clone();
                    let n = self.conc(st, &n)? as u64;
                    let a = self.alloc(st, sz * n, false);
                    st.frames.last_mut().unwrap().allocas.push((a >> 32) as u32);
                    Exec::set(st, *d, V::I(a as u128));
                }
                Ins::Load(d, t, a) => {
                    let a = Exec::get(st, a).clone();
                    if let V::S(e) = a {
                        if let Some(v) = self.table(st, e, t)? {
                            Exec::set(st, *d, v);
                            continue;
                        }
                    }
                    let a = self.conc(st, &a)? as u64;
                    let v = self.load(st, a, t)?;
                    Exec::set(st, *d, v);
                }
                Ins::Store(t, v, a) => {
                    let a = Exec::get(st, a).clone();
                    let a = self.conc(st, &a)? as u64;
                    let v = Exec::get(st, v).clone();
                    self.store(st, a, t, &v)?;
                }
                Ins::Gep(d, base, off, var) => {
                    let mut v = Exec::get(st, base).clone();
                    if *off != 0 {
                        v = self.binop(st, Op::Add, 64, &v, &V::I(*off as u128))?;
                    }
                    for (o, w, sc) in var {
                        let i = Exec::get(st, o).clone();
                        let x = match i {
                            V::I(x) => V::I(((sx(x, *w) as u64).wrapping_mul(*sc)) as u128),
                            V::S(e) => {
                                let e = if *w > 64 { self.p.extract(e, 0, 64) } else { self.p.sext(e, 64) };
                                let k = self.p.cst(*sc as u128, 64);
                                let e = self.p.bin(Op::Mul, e, k);
                                self.norm(e)
                            }
                            V::A(_) => return give("vector gep"),
                        };
                        v = self.binop(st, Op::Add, 64, &v, &x)?;
                    }
                    Exec::set(st, *d, v);
                }
                Ins::Cast(k, d, ft, tt, a) => {
                    let a = Exec::get(st, a).clone();
                    let v = self.cast(st, *k, ft, tt, a)?;
                    Exec::set(st, *d, v);
                }
                Ins::Select(d, c, a, b, t) => {
                    let v = match Exec::get(st, c) {
                        V::I(1) => Exec::get(st, a).clone(),
                        V::I(_) => Exec::get(st, b).clone(),
                        V::S(e) => {
                            let e = *e;
                            let (a, b) = (Exec::get(st, a).clone(), Exec::get(st, b).clone());
                            if !t.is_scalar() || *t == Ty::Ptr {
                                if self.decide(st, e)? {
                                    a
                                } else {
                                    b
                                }
                            } else {
                                let w = t.width();
                                let x = self.term(&a, w);
                                let y = self.term(&b, w);
                                let r = self.p.ite(e, x, y);
                                self.norm(r)
                            }
                        }
                        V::A(_) => return give("vector select"),
                    };
                    Exec::set(st, *d, v);
                }
                Ins::Call(d, f, args, rt) => {
                    let f = Exec::get(st, f).clone();
                    let a = self.conc(st, &f)? as u64;
                    let args: Vec<V> = args.iter().map(|x| Exec::get(st, x).clone()).collect();
                    self.call(st, a, args, *d, false, rt)?;
                }
                Ins::Ext(d, e, args, tys, rt) => {
                    let args: Vec<V> = args.iter().map(|x| Exec::get(st, x).clone()).collect();
                    self.ext(st, *d, *e, &args, tys, rt)?;
                }
                Ins::ExtractValue(d, a, ix) => {
                    let mut v = Exec::get(st, a).clone();
                    for &i in ix {
                        v = match v {
                            V::A(x) => x[i].clone(),
                            _ => return give("extractvalue"),
                        }
                    }
                    Exec::set(st, *d, v);
                }
                Ins::InsertValue(d, a, v, ix) => {
                    let a = Exec::get(st, a).clone();
                    let v = Exec::get(st, v).clone();
                    fn put(a: V, v: V, ix: &[usize]) -> V {
                        match (a, ix) {
                            (_, []) => v,
                            (V::A(x), [i, r @ ..]) => {
                                let mut x = (*x).clone();
                                x[*i] = put(x[*i].clone(), v, r);
                                V::A(Rc::new(x))
                            }
                            (a, _) => a,
                        }
                    }
                    Exec::set(st, *d, put(a, v, ix));
                }
                Ins::ExtractElem(d, a, i) => {
                    let i = Exec::get(st, i).clone();
                    let i = self.conc(st, &i)? as usize;
                    let v = match Exec::get(st, a) {
                        V::A(x) => x[i].clone(),
                        _ => return give("extractelement"),
                    };
                    Exec::set(st, *d, v);
                }
                Ins::InsertElem(d, a, v, i) => {
                    let i = Exec::get(st, i).clone();
                    let i = self.conc(st, &i)? as usize;
                    let v = Exec::get(st, v).clone();
                    let r = match Exec::get(st, a) {
                        V::A(x) => {
                            let mut x = (**x).clone();
                            x[i] = v;
                            V::A(Rc::new(x))
                        }
                        _ => return give("insertelement"),
                    };
                    Exec::set(st, *d, r);
                }
                Ins::Mov(d, a) => {
                    let v = Exec::get(st, a).clone();
                    Exec::set(st, *d, v);
                }
                Ins::Rmw(k, d, t, p, v) => {
                    let p = Exec::get(st, p).clone();
                    let a = self.conc(st, &p)? as u64;
                    let v = Exec::get(st, v).clone();
                    let old = self.load(st, a, t)?;
                    let op = match k {
                        0 => None,
                        1 => Some(Op::Add),
                        2 => Some(Op::Sub),
                        3 => Some(Op::And),
                        4 => Some(Op::Or),
                        _ => Some(Op::Xor),
                    };
                    let new = match op {
                        None => v,
                        Some(op) => self.binop(st, op, t.width(), &old, &v)?,
                    };
                    self.store(st, a, t, &new)?;
                    Exec::set(st, *d, old);
                }
                Ins::CmpXchg(d, t, p, a, n) => {
                    let p = Exec::get(st, p).clone();
                    let ad = self.conc(st, &p)? as u64;
                    let old = self.load(st, ad, t)?;
                    let old = V::I(self.conc(st, &old)?);
                    let a = Exec::get(st, a).clone();
                    let a = self.conc(st, &a)?;
                    let n = Exec::get(st, n).clone();
                    let ok = matches!(old, V::I(x) if x == a);
                    if ok {
                        self.store(st, ad, t, &n)?;
                    }
                    Exec::set(st, *d, V::A(Rc::new(vec![old, V::I(ok as u128)])));
                }
                Ins::Nop => {}
                Ins::Br(l) => self.jump(st, *l),
                Ins::CondBr(c, x, y) => {
                    let to = match Exec::get(st, c) {
                        V::I(k) => *k == 1,
                        V::S(e) => {
                            let e = *e;
                            self.decide(st, e)?
                        }
                        V::A(_) => return give("condition"),
                    };
                    self.jump(st, if to { *x } else { *y });
                }
                Ins::Switch(v, d, cs, w) => {
                    let to = match Exec::get(st, v) {
                        V::I(x) => cs.iter().find(|c| c.0 == *x).map(|c| c.1).unwrap_or(*d),
                        V::S(e) => {
                            let e = *e;
                            let mut to = *d;
                            // the case the model takes first; the others run the instruction again
                            let x = self.p.eval(e, &st.model);
                            match cs.iter().find(|c| c.0 == x) {
                                Some(c) => {
                                    let k = self.p.cst(x, *w);
                                    let q = self.p.bin(Op::Eq, e, k);
                                    if self.decide(st, q)? {
                                        to = c.1
                                    } else {
                                        unreachable!()
                                    }
                                }
                                None => {
                                    // none of the cases
                                    let mut q = self.p.cst(1, 1);
                                    for c in cs {
                                        let k = self.p.cst(c.0, *w);
                                        let x = self.p.bin(Op::Eq, e, k);
                                        let x = self.p.not(x);
                                        q = self.p.and(q, x);
                                    }
                                    if !self.decide(st, q)? {
                                        unreachable!()
                                    }
                                }
                            }
                            to
                        }
                        V::A(_) => return give("switch"),
                    };
                    self.jump(st, to);
                }
                Ins::Ret(v) => {
                    let v = v.as_ref().map(|v| Exec::get(st, v).clone());
                    let f = self.pop(st);
                    if st.frames.is_empty() {
                        if st.depth >= self.opts.shard_depth || self.opts.shard == 0 {
                            self.paths += 1;
                        }
                        self.sample(st);
                        if st.live_heap > 0 {
                            self.leaks += 1;
                        }
                        return Ok(());
                    }
                    if f.catch {
                        Exec::set(st, f.dst, V::I(0));
                    } else if let Some(v) = v {
                        Exec::set(st, f.dst, v);
                    }
                }
                Ins::Unreachable => return bug("ub", 2, "unreachable code reached"),
                Ins::Unsupported(s) => return give(format!("unsupported: {}", s)),
            }
        }
    }
    fn cast(&mut self, st: &mut State, k: Cast, ft: &Ty, tt: &Ty, a: V) -> X<V> {
        if let (Cast::Zext | Cast::Sext | Cast::Trunc, Ty::Vec(_, fe), Ty::Vec(_, te), V::A(x)) = (k, ft, tt, &a) {
            let mut o = vec![];
            for v in x.iter() {
                o.push(self.cast(st, k, fe, te, v.clone())?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        let (fw, tw) = (ft.width(), tt.width());
        Ok(match k {
            Cast::Trunc => match a {
                V::I(x) => V::I(x & mask(tw)),
                V::S(e) => {
                    let e = self.p.extract(e, 0, tw);
                    self.norm(e)
                }
                a => a,
            },
            Cast::Zext => match a {
                V::I(x) => V::I(x),
                V::S(e) => {
                    let e = self.p.zext(e, tw);
                    self.norm(e)
                }
                a => a,
            },
            Cast::Sext => match a {
                V::I(x) => V::I(sx(x, fw) as u128 & mask(tw)),
                V::S(e) => {
                    let e = self.p.sext(e, tw);
                    self.norm(e)
                }
                a => a,
            },
            Cast::Bit => {
                if ft.is_scalar() == tt.is_scalar() {
                    a
                } else {
                    // through memory
                    let ad = self.alloc(st, ft.size().max(tt.size()), false);
                    self.store(st, ad, ft, &a)?;
                    let v = self.load(st, ad, tt)?;
                    let i = (ad >> 32) as u32;
                    st.mem[i as usize] = None;
                    st.free.push(i);
                    v
                }
            }
            _ => {
                let x = self.conc(st, &a)?;
                let fl = |x: u128| if *ft == Ty::F64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
                let un = |f: f64| if *tt == Ty::F64 { f.to_bits() as u128 } else { (f as f32).to_bits() as u128 };
                V::I(match k {
                    Cast::UiToFp => {
                        if *tt == Ty::F64 {
                            (x as f64).to_bits() as u128
                        } else {
                            (x as f32).to_bits() as u128
                        }
                    }
                    Cast::SiToFp => {
                        let s = sx(x, fw);
                        if *tt == Ty::F64 {
                            (s as f64).to_bits() as u128
                        } else {
                            (s as f32).to_bits() as u128
                        }
                    }
                    Cast::FpToUi => (fl(x) as u128) & mask(tw),
                    Cast::FpToSi => (fl(x) as i128 as u128) & mask(tw),
                    Cast::FpTrunc | Cast::FpExt => un(fl(x)),
                    _ => unreachable!(),
                })
            }
        })
    }
    fn input(&mut self, st: &mut State, w: u32) -> V {
        let e = self.p.var(st.nvars, w);
        st.nvars += 1;
        st.inputs.push((w, V::S(e)));
        V::S(e)
    }
    fn assume(&mut self, st: &mut State, c: &V) -> X<()> {
        match c {
            V::I(1) => Ok(()),
            V::I(_) => {
                self.killed += 1;
                Err(Stop::End)
            }
            V::S(e) => {
                if !self.holds_in_model(st, *e) {
                    match self.sat_with(st, *e)? {
                        None => {
                            self.killed += 1;
                            return Err(Stop::End);
                        }
                        Some(m) => st.model = m,
                    }
                }
                self.add(st, *e);
                Ok(())
            }
            _ => give("assume"),
        }
    }
    fn check(&mut self, st: &mut State, c: &V, id: u64, what: String) -> X<()> {
        let r = self.checks.entry(id).or_insert((0, 0));
        r.0 += 1;
        match c {
            V::I(1) => Ok(()),
            V::I(_) => bug("check", id, what),
            V::S(e) => {
                r.1 += 1;
                let e = *e;
                let n = self.p.not(e);
                if self.holds_in_model(st, n) {
                    self.add(st, n);
                    return bug("check", id, what);
                }
                // the verdict on an assertion is Z3's
                self.s.by_table = false;
                let r = self.sat_with(st, n);
                self.s.by_table = true;
                match r? {
                    None => Ok(()),
                    Some(m) => {
                        // report it, and go on where it holds
                        let mut o = st.clone();
                        o.model = m;
                        self.add(&mut o, n);
                        self.record(&o, "check".into(), id, what);
                        self.add(st, e);
                        Ok(())
                    }
                }
            }
            _ => give("check"),
        }
    }

    fn ext(&mut self, st: &mut State, d: u32, e: u32, args: &[V], tys: &[Ty], rt: &Ty) -> X<()> {
        let name = self.m.exts[e as usize].clone();
        let n = name.as_str();
        macro_rules! c {
            ($i:expr) => {{
                let v = args[$i].clone();
                self.conc(st, &v)? as u64
            }};
        }
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                Exec::set(st, d, v);
                return Ok(());
            }};
        }
        if let Some(r) = n.strip_prefix("llvm.") {
            return self.intrinsic(st, d, r, args, tys, rt);
        }
        if let Some(r) = n.strip_prefix("vp_") {
            match r {
                "bool" => ret!(self.input(st, 1)),
                "u8" => ret!(self.input(st, 8)),
                "u16" => ret!(self.input(st, 16)),
                "u32" => ret!(self.input(st, 32)),
                "u64" => ret!(self.input(st, 64)),
                "assume" => {
                    let v = args[0].clone();
                    return self.assume(st, &v);
                }
                "check" => {
                    let id = c!(1);
                    let (a, l) = (c!(2), c!(3));
                    let what = self.rust_str(st, a, l)?;
                    let v = args[0].clone();
                    return self.check(st, &v, id, what);
                }
                "cover" => {
                    let id = c!(0);
                    *self.covers.entry(id).or_insert(0) += 1;
                    return Ok(());
                }
                "conc" => ret!(V::I(c!(0) as u128)),
                "note" => {
                    let (a, l) = (c!(0), c!(1));
                    let s = self.rust_str(st, a, l)?;
                    Rc::make_mut(&mut st.notes).push(s);
                    return Ok(());
                }
                "is_sym" => ret!(V::I(matches!(args[0], V::S(_)) as u128)),
                "catch" => {
                    let (f, a) = (c!(0), args[1].clone());
                    return self.call(st, f, vec![a], d, true, &Ty::Void);
                }
                "native" => ret!(V::I(0)),
                "fs_budget" => {
                    st.fs.budget = Some(c!(0));
                    return Ok(());
                }
                "fs_short" => {
                    st.fs.short = c!(0) != 0;
                    return Ok(());
                }
                "fs_intr" => {
                    st.fs.intr = c!(0);
                    return Ok(());
                }
                "fs_fail" => {
                    let left = st.fs.fail;
                    st.fs.fail = c!(0);
                    ret!(V::I(left as u128))
                }
                "fs_full" => {
                    let (p, n) = (c!(0), c!(1));
                    let path = self.rust_str(st, p, n)?;
                    st.fs.files.insert(path.clone(), File::default());
                    st.fs.full.insert(path);
                    return Ok(());
                }
                "fs_order" => {
                    st.fs.order = c!(0);
                    return Ok(());
                }
                "fs_len" => {
                    let (a, l) = (c!(0), c!(1));
                    let p = self.rust_str(st, a, l)?;
                    let v = st.fs.files.get(&p).map_or(!0u64, |f| f.data.len() as u64);
                    ret!(V::I(v as u128))
                }
                _ => return give(format!("unknown {}", n)),
            }
        }
        if n.contains("7___rustc") {
            if n.ends_with("___rust_no_alloc_shim_is_unstable_v2") {
                return Ok(());
            }
            if n.ends_with("___rust_alloc") || n.ends_with("___rust_alloc_zeroed") {
                let sz = c!(0);
                if sz > 1 << 24 {
                    ret!(V::I(0))
                }
                let a = self.alloc(st, sz, true);
                st.live_heap += 1;
                ret!(V::I(a as u128))
            }
            if n.ends_with("___rust_dealloc") {
                let a = c!(0);
                return self.dealloc(st, a);
            }
            if n.ends_with("___rust_realloc") {
                let (a, old, new) = (c!(0), c!(1), c!(3));
                if new > 1 << 24 {
                    ret!(V::I(0))
                }
                let (b, s) = self.read_bytes(st, a, old.min(new))?;
                self.dealloc(st, a)?;
                let r = self.alloc(st, new, true);
                st.live_heap += 1;
                self.write_bytes(st, r, &b, &s)?;
                ret!(V::I(r as u128))
            }
        }
        if n.ends_with("hashmap_random_keys") {
            ret!(V::A(Rc::new(vec![V::I(0x0706050403020100), V::I(0x0f0e0d0c0b0a0908)])))
        }
        if n.contains("9panicking") || n.ends_with("3std7process5abort") || n.ends_with("handle_alloc_error") {
            let mut what = "panic".to_string();
            if n.ends_with("9panicking9panic_fmt") || n.contains("11begin_panic") {
                what = self.panic_text(st, args).unwrap_or(what);
            } else if n.ends_with("handle_alloc_error") {
                what = "memory allocation failed".into();
            } else if n.ends_with("abort") {
                what = "abort".into();
            }
            return self.panic(st, what);
        }
        match n {
            "memcpy" | "memmove" => {
                let (a, l) = (c!(0), c!(2));
                let (x, s) = self.bytes_at(st, &args[1], l)?;
                self.write_bytes(st, a, &x, &s)?;
                ret!(V::I(a as u128))
            }
            "memset" => {
                let (a, l) = (c!(0), c!(2));
                let v = args[1].clone();
                let b = V::I(self.conc(st, &v)? & 255);
                if let V::I(x) = b {
                    self.write_bytes(st, a, &vec![x as u8; l as usize], &[])?;
                }
                ret!(V::I(a as u128))
            }
            "memcmp" | "bcmp" => {
                let (a, b, l) = (c!(0), c!(1), c!(2));
                let (x, s) = self.read_bytes(st, a, l)?;
                let (y, t) = self.read_bytes(st, b, l)?;
                if s.is_empty() && t.is_empty() {
                    let r = match x.cmp(&y) {
                        std::cmp::Ordering::Less => mask(32),
                        std::cmp::Ordering::Equal => 0,
                        _ => 1,
                    };
                    ret!(V::I(r))
                }
                // from the last byte back: ite(x<y, -1, ite(x>y, 1, rest))
                let mut r = self.p.cst(0, 32);
                for i in (0..l as usize).rev() {
                    let p = if !s.is_empty() && s[i] != 0 { s[i] } else { self.p.cst(x[i] as u128, 8) };
                    let q = if !t.is_empty() && t[i] != 0 { t[i] } else { self.p.cst(y[i] as u128, 8) };
                    let eq = self.p.bin(Op::Eq, p, q);
                    let lt = self.p.bin(Op::Ult, p, q);
                    let m1 = self.p.cst(mask(32), 32);
                    let p1 = self.p.cst(1, 32);
                    let ne = self.p.ite(lt, m1, p1);
                    r = self.p.ite(eq, r, ne);
                }
                ret!(self.norm(r))
            }
            "strlen" => {
                let a = c!(0);
                let s = self.c_str(st, a)?;
                ret!(V::I(s.len() as u128))
            }
            "getenv" | "sigaction" | "signal" | "poll" => ret!(V::I(0)),
            _ => self.libc(st, d, n, args),
        }
    }
    /// The text of a panic: its location, and the message when it is a plain string.
    fn panic_text(&mut self, st: &mut State, args: &[V]) -> Option<String> {
        // fmt::Arguments is (template, args); Location is the last argument
        let loc = match args.last()? {
            V::I(x) => *x as u64,
            _ => return None,
        };
        let rd = |me: &mut Exec, st: &mut State, a: u64, w: u32| -> Option<u64> {
            match me.load(st, a, &Ty::I(w)) {
                Ok(V::I(x)) => Some(x as u64),
                _ => None,
            }
        };
        let fp = rd(self, st, loc, 64)?;
        let fl = rd(self, st, loc + 8, 64)?;
        let line = rd(self, st, loc + 16, 32)?;
        let mut file = self.rust_str(st, fp, fl.min(300)).ok()?;
        if file.ends_with('\0') {
            file.pop();
        }
        let short = file.rsplit("/src/").next().unwrap_or(&file).to_string();
        let mut msg = String::new();
        if args.len() >= 3 {
            if let (V::I(t), V::I(l)) = (&args[0], &args[1]) {
                if l & 1 == 1 {
                    if let Ok(s) = self.rust_str(st, *t as u64, ((l >> 1) as u64).min(200)) {
                        msg = s
                    }
                }
            }
        }
        let krate = if file.contains("/library/") || file.starts_with("library/") { "std:" } else if file.contains(".cargo/registry") { "dep:" } else { "" };
        Some(format!("panic at {}{}:{} {}", krate, short, line, msg).trim().to_string())
    }

    fn intrinsic(&mut self, st: &mut State, d: u32, n: &str, args: &[V], tys: &[Ty], rt: &Ty) -> X<()> {
        macro_rules! c {
            ($i:expr) => {{
                let v = args[$i].clone();
                self.conc(st, &v)? as u64
            }};
        }
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                Exec::set(st, d, v);
                return Ok(());
            }};
        }
        let head = n.split('.').next().unwrap();
        let w = if tys.is_empty() { 0 } else { tys[0].width() };
        match head {
            "memcpy" | "memmove" => {
                let l = c!(2);
                if l == 0 {
                    return Ok(());
                }
                let a = c!(0);
                let (x, s) = self.bytes_at(st, &args[1], l)?;
                return self.write_bytes(st, a, &x, &s);
            }
            "memset" => {
                let l = c!(2);
                if l == 0 {
                    return Ok(());
                }
                let a = c!(0);
                let (x, s) = match &args[1] {
                    V::I(x) => (*x as u8, vec![]),
                    V::S(e) => (0, vec![*e; l as usize]),
                    _ => return give("memset"),
                };
                return self.write_bytes(st, a, &vec![x; l as usize], &s);
            }
            "umin" | "umax" | "smin" | "smax" => {
                let op = if head.starts_with('u') { Op::Ult } else { Op::Slt };
                let lt = match (&args[0], &args[1]) {
                    (V::I(x), V::I(y)) => {
                        let l = Pool::fold(op, w, *x, *y) == 1;
                        let a = if head.ends_with("min") == l { *x } else { *y };
                        ret!(V::I(a))
                    }
                    (V::A(_), _) => return give("vector min"),
                    (a, b) => {
                        let (x, y) = (self.term(a, w), self.term(b, w));
                        (self.p.bin(op, x, y), x, y)
                    }
                };
                let (l, x, y) = lt;
                let r = if head.ends_with("min") { self.p.ite(l, x, y) } else { self.p.ite(l, y, x) };
                ret!(self.norm(r))
            }
            "ucmp" | "scmp" => {
                let op = if head.starts_with('u') { Op::Ult } else { Op::Slt };
                let rw = rt.width();
                let (x, y) = (self.term(&args[0], w), self.term(&args[1], w));
                let l = self.p.bin(op, x, y);
                let q = self.p.bin(Op::Eq, x, y);
                let (m1, z, p1) = (self.p.cst(mask(rw), rw), self.p.cst(0, rw), self.p.cst(1, rw));
                let r = self.p.ite(q, z, p1);
                let r = self.p.ite(l, m1, r);
                ret!(self.norm(r))
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let sat = n.contains(".sat.");
                let signed = head.starts_with('s');
                let ww = (w * 2).min(128);
                let op = match &head[1..] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                if let (V::I(x), V::I(y)) = (&args[0], &args[1]) {
                    let (r, o) = if signed {
                        let (a, b) = (sx(*x, w), sx(*y, w));
                        let f = match op {
                            Op::Add => a.checked_add(b),
                            Op::Sub => a.checked_sub(b),
                            _ => a.checked_mul(b),
                        };
                        let lo = if w == 128 { i128::MIN } else { -(1i128 << (w - 1)) };
                        let hi = if w == 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 };
                        let wrapped = Pool::fold(op, w, *x, *y);
                        let o = f.map_or(true, |f| f < lo || f > hi);
                        if sat && o {
                            let neg = match op {
                                Op::Add => a < 0,
                                Op::Sub => a < 0,
                                _ => (a < 0) != (b < 0),
                            };
                            ((if neg { lo } else { hi }) as u128 & mask(w), o)
                        } else {
                            (wrapped, o)
                        }
                    } else {
                        let f = match op {
                            Op::Add => x.checked_add(*y),
                            Op::Sub => x.checked_sub(*y),
                            _ => x.checked_mul(*y),
                        };
                        let o = f.map_or(true, |f| f > mask(w));
                        if sat && o {
                            (if op == Op::Sub { 0 } else { mask(w) }, o)
                        } else {
                            (Pool::fold(op, w, *x, *y), o)
                        }
                    };
                    if sat {
                        ret!(V::I(r))
                    }
                    ret!(V::A(Rc::new(vec![V::I(r), V::I(o as u128)])))
                }
                if w > 64 {
                    return give("wide overflow arithmetic");
                }
                let (x, y) = (self.term(&args[0], w), self.term(&args[1], w));
                let r = self.p.bin(op, x, y);
                let o = if !signed && op == Op::Add {
                    self.p.bin(Op::Ult, r, x)
                } else if !signed && op == Op::Sub {
                    self.p.bin(Op::Ult, x, y)
                } else {
                    let (xx, yy) = if signed { (self.p.sext(x, ww), self.p.sext(y, ww)) } else { (self.p.zext(x, ww), self.p.zext(y, ww)) };
                    let rr = self.p.bin(op, xx, yy);
                    let back = if signed { self.p.sext(r, ww) } else { self.p.zext(r, ww) };
                    let q = self.p.bin(Op::Eq, rr, back);
                    self.p.not(q)
                };
                if sat {
                    if signed {
                        return give("signed saturation");
                    }
                    let k = self.p.cst(if op == Op::Sub { 0 } else { mask(w) }, w);
                    let r = self.p.ite(o, k, r);
                    ret!(self.norm(r))
                }
                ret!(V::A(Rc::new(vec![self.norm(r), self.norm(o)])))
            }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" => {
                if head == "bswap" {
                    if let V::S(e) = args[0] {
                        let mut r = 0;
                        for i in 0..w / 8 {
                            let b = self.p.extract(e, 8 * i, 8);
                            r = if i == 0 { b } else { self.p.concat(r, b) };
                        }
                        ret!(self.norm(r))
                    }
                }
                if let (V::S(e), "cttz" | "ctlz" | "ctpop") = (&args[0], head) {
                    let e = *e;
                    let mut r = self.p.cst(if head == "ctpop" { 0 } else { w as u128 }, w);
                    for i in 0..w {
                        let bit = match head {
                            "cttz" => w - 1 - i,
                            _ => i,
                        };
                        let b = self.p.extract(e, bit, 1);
                        if head == "ctpop" {
                            let z = self.p.zext(b, w);
                            r = self.p.bin(Op::Add, r, z);
                        } else {
                            let k = self.p.cst(if head == "cttz" { bit as u128 } else { (w - 1 - bit) as u128 }, w);
                            r = self.p.ite(b, k, r);
                        }
                    }
                    ret!(self.norm(r))
                }
                let x = c128(self, st, &args[0])?;
                let r = match head {
                    "ctpop" => x.count_ones() as u128,
                    "ctlz" => (x.leading_zeros() - (128 - w)) as u128,
                    "cttz" => (x.trailing_zeros().min(w)) as u128,
                    "bswap" => x.swap_bytes() >> (128 - w),
                    _ => x.reverse_bits() >> (128 - w),
                };
                ret!(V::I(r))
            }
            "fshl" | "fshr" => {
                let k = match &args[2] {
                    V::I(k) => (*k as u32) % w,
                    _ => (c!(2) as u32) % w,
                };
                let (x, y) = (self.term(&args[0], w), self.term(&args[1], w));
                // the concatenation x:y, shifted
                let lo = if head == "fshl" { w - k } else { k };
                if w > 64 {
                    return give("wide funnel shift");
                }
                let c = self.p.concat(x, y);
                let r = self.p.extract(c, lo, w);
                ret!(self.norm(r))
            }
            "expect" => ret!(args[0].clone()),
            "abs" => {
                let x = self.term(&args[0], w);
                let z = self.p.cst(0, w);
                let neg = self.p.bin(Op::Slt, x, z);
                let m = self.p.bin(Op::Sub, z, x);
                let r = self.p.ite(neg, m, x);
                ret!(self.norm(r))
            }
            "threadlocal" => ret!(args[0].clone()),
            "is" => ret!(V::I(0)),
            "objectsize" => ret!(V::I(mask(64))),
            "ptrmask" => {
                let (a, b) = (args[0].clone(), args[1].clone());
                let v = self.binop(st, Op::And, 64, &a, &b)?;
                ret!(v)
            }
            "trap" | "ubsantrap" => bug("ub", 3, "trap"),
            "prefetch" | "va_start" | "va_end" | "stackrestore" => Ok(()),
            "stacksave" => ret!(V::I(0)),
            "fptoui" | "fptosi" => {
                let x = c128(self, st, &args[0])?;
                let f = if tys[0] == Ty::F64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
                let rw = rt.width();
                let v = if head == "fptoui" {
                    (f as u128).min(mask(rw))
                } else {
                    let lo = if rw == 128 { i128::MIN } else { -(1i128 << (rw - 1)) };
                    let hi = if rw == 128 { i128::MAX } else { (1i128 << (rw - 1)) - 1 };
                    ((f as i128).max(lo).min(hi)) as u128 & mask(rw)
                };
                ret!(V::I(v))
            }
            "fabs" | "floor" | "ceil" | "trunc" | "round" | "sqrt" | "rint" => {
                let x = c128(self, st, &args[0])?;
                let f = |v: f64| match head {
                    "fabs" => v.abs(),
                    "floor" => v.floor(),
                    "ceil" => v.ceil(),
                    "trunc" => v.trunc(),
                    "sqrt" => v.sqrt(),
                    _ => v.round(),
                };
                let r = if tys[0] == Ty::F64 { f(f64::from_bits(x as u64)).to_bits() as u128 } else { (f(f32::from_bits(x as u32) as f64) as f32).to_bits() as u128 };
                ret!(V::I(r))
            }
            _ => give(format!("intrinsic llvm.{}", n)),
        }
    }

    // ---- files ----------------------------------------------------------------------------------
    fn errno(&mut self, st: &mut State, e: u32) -> X<()> {
        let a = self.errno_at();
        self.store(st, a, &Ty::I(32), &V::I(e as u128))
    }
    fn errno_at(&self) -> u64 {
        8u64 << 32
    }
    fn libc(&mut self, st: &mut State, d: u32, n: &str, args: &[V]) -> X<()> {
        macro_rules! c {
            ($i:expr) => {{
                let v = args[$i].clone();
                self.conc(st, &v)? as u64
            }};
        }
        macro_rules! ret {
            ($v:expr) => {{
                let v: i64 = $v;
                Exec::set(st, d, V::I(v as u64 as u128));
                return Ok(());
            }};
        }
        macro_rules! ret32 {
            ($v:expr) => {{
                let v: i32 = $v;
                Exec::set(st, d, V::I(v as u32 as u128));
                return Ok(());
            }};
        }
        if st.mem[8].is_none() {
            st.mem[8] = Some(Rc::new(Obj::new(4)));
        }
        match n {
            "__errno_location" => {
                let a = self.errno_at();
                ret!(a as i64)
            }
            "open64" | "open" => {
                let p = c!(0);
                let path = self.c_str(st, p)?;
                let fl = c!(1) as u32;
                let (acc, creat, excl, trunc, append) = (fl & 3, fl & 0o100 != 0, fl & 0o200 != 0, fl & 0o1000 != 0, fl & 0o2000 != 0);
                let have = st.fs.files.contains_key(&path);
                if st.fs.is_dir(&path) {
                    if acc != 0 {
                        self.errno(st, 21)?;
                        ret32!(-1)
                    }
                    let fd = st.fs.next;
                    st.fs.next += 1;
                    st.fs.fds.insert(fd, Fd { path, pos: 0, append, dir: Some(Rc::new(vec![])) });
                    ret32!(fd)
                }
                if !have && (!creat || !st.fs.parent_is_dir(&path)) {
                    self.errno(st, 2)?;
                    ret32!(-1)
                }
                if have && creat && excl {
                    self.errno(st, 17)?;
                    ret32!(-1)
                }
                if !have || (trunc && acc != 0) {
                    st.fs.files.insert(path.clone(), File::default());
                }
                let fd = st.fs.next;
                st.fs.next += 1;
                st.fs.fds.insert(fd, Fd { path, pos: 0, append, dir: None });
                ret32!(fd)
            }
            "close" => {
                let fd = c!(0) as i32;
                st.fs.fds.remove(&fd);
                ret32!(0)
            }
            "unlink" => {
                let p = c!(0);
                let path = self.c_str(st, p)?;
                if st.fs.is_dir(&path) {
                    self.errno(st, 21)?;
                    ret32!(-1)
                }
                st.fs.full.remove(&path);
                if st.fs.files.remove(&path).is_none() {
                    self.errno(st, 2)?;
                    ret32!(-1)
                }
                ret32!(0)
            }
            "mkdir" => {
                let p = c!(0);
                let path = self.c_str(st, p)?;
                if st.fs.has(&path) {
                    self.errno(st, 17)?;
                    ret32!(-1)
                }
                if !st.fs.parent_is_dir(&path) {
                    self.errno(st, 2)?;
                    ret32!(-1)
                }
                st.fs.dirs.insert(path.trim_end_matches('/').to_string());
                ret32!(0)
            }
            "opendir" => {
                let p = c!(0);
                let path = self.c_str(st, p)?;
                if !st.fs.is_dir(&path) {
                    self.errno(st, if st.fs.has(&path) { 20 } else { 2 })?;
                    ret!(0)
                }
                let mut l = st.fs.list(&path);
                let mut v = vec![];
                let mut k = st.fs.order;
                while !l.is_empty() {
                    let n = l.len() as u64;
                    v.push(l.remove((k % n) as usize));
                    k /= n;
                }
                v.reverse();
                let a = self.alloc(st, 8, true);
                st.fs.streams.insert(a, (v, 0));
                ret!(a as i64)
            }
            "readdir64" => {
                let p = c!(0);
                let (mut v, last) = match st.fs.streams.get(&p) {
                    Some(x) => x.clone(),
                    None => return give("readdir of an unknown stream"),
                };
                if last != 0 {
                    st.mem[(last >> 32) as usize] = None;
                }
                // the riscv64 layout: d_reclen at 16, d_type (unknown) at 18, d_name at 19
                let mut a = 0;
                if let Some(name) = v.pop() {
                    let mut e = vec![0u8; 19];
                    e[0] = 1;
                    e.extend_from_slice(name.as_bytes());
                    e.push(0);
                    e[16] = e.len() as u8;
                    a = self.alloc(st, e.len() as u64, true);
                    self.write_bytes(st, a, &e, &[])?;
                }
                st.fs.streams.insert(p, (v, a));
                ret!(a as i64)
            }
            "closedir" => {
                let p = c!(0);
                if let Some((_, last)) = st.fs.streams.remove(&p) {
                    if last != 0 {
                        st.mem[(last >> 32) as usize] = None;
                    }
                    st.mem[(p >> 32) as usize] = None;
                }
                ret32!(0)
            }
            "dirfd" => ret32!(1000),
            "rmdir" => {
                let p = c!(0);
                let path = self.c_str(st, p)?;
                if !st.fs.list(&path).is_empty() {
                    self.errno(st, 39)?;
                    ret32!(-1)
                }
                if !st.fs.dirs.remove(path.trim_end_matches('/')) {
                    self.errno(st, 2)?;
                    ret32!(-1)
                }
                ret32!(0)
            }
            "rename" => {
                let (p, q) = (c!(0), c!(1));
                let a = self.c_str(st, p)?;
                let b = self.c_str(st, q)?;
                match st.fs.files.remove(&a) {
                    None => {
                        self.errno(st, 2)?;
                        ret32!(-1)
                    }
                    Some(f) => {
                        st.fs.files.insert(b, f);
                        ret32!(0)
                    }
                }
            }
            "write" => {
                let fd = c!(0) as i32;
                let (a, mut l) = (c!(1), c!(2));
                if fd == 1 || fd == 2 {
                    ret!(l as i64)
                }
                if st.fs.intr > 0 && l > 0 {
                    st.fs.intr -= 1;
                    self.errno(st, 4)?;
                    ret!(-1)
                }
                if st.fs.fail > 0 && l > 0 {
                    st.fs.fail -= 1;
                    if st.fs.fail == 0 {
                        self.errno(st, 5)?;
                        ret!(-1)
                    }
                }
                if let Some(f) = st.fs.fds.get(&fd) {
                    if l > 0 && st.fs.full.contains(&f.path) {
                        self.errno(st, 28)?;
                        ret!(-1)
                    }
                }
                if let (Some(b), Some(f)) = (st.fs.budget, st.fs.fds.get(&fd)) {
                    // no file grows past b bytes
                    let len = st.fs.files.get(&f.path).map_or(0, |x| x.data.len() as u64);
                    let pos = if f.append { len } else { f.pos };
                    if l > 0 && pos >= b {
                        self.errno(st, 27)?;
                        ret!(-1)
                    }
                    l = l.min(b - pos.min(b));
                }
                if st.fs.short && l > 1 {
                    l = (l + 1) / 2;
                }
                let (x, s) = self.read_bytes(st, a, l)?;
                let f = match st.fs.fds.get(&fd) {
                    Some(f) => f.clone(),
                    None => {
                        self.errno(st, 9)?;
                        ret!(-1)
                    }
                };
                let mut file = st.fs.files.get(&f.path).cloned().unwrap_or_default();
                let pos = if f.append { file.data.len() } else { f.pos as usize };
                {
                    let dd = Rc::make_mut(&mut file.data);
                    let ss = Rc::make_mut(&mut file.sym);
                    let end = pos + x.len();
                    if dd.len() < end {
                        dd.resize(end, 0);
                    }
                    ss.resize(dd.len(), 0);
                    dd[pos..end].copy_from_slice(&x);
                    for i in 0..x.len() {
                        ss[pos + i] = if s.is_empty() { 0 } else { s[i] };
                    }
                }
                st.fs.files.insert(f.path.clone(), file);
                st.fs.fds.get_mut(&fd).unwrap().pos = (pos + x.len()) as u64;
                ret!(x.len() as i64)
            }
            "read" => {
                let fd = c!(0) as i32;
                let (a, l) = (c!(1), c!(2));
                let f = match st.fs.fds.get(&fd) {
                    Some(f) => f.clone(),
                    None => {
                        self.errno(st, 9)?;
                        ret!(-1)
                    }
                };
                if f.dir.is_some() {
                    self.errno(st, 21)?;
                    ret!(-1)
                }
                if st.fs.intr > 0 && l > 0 {
                    st.fs.intr -= 1;
                    self.errno(st, 4)?;
                    ret!(-1)
                }
                if st.fs.fail > 0 && l > 0 {
                    st.fs.fail -= 1;
                    if st.fs.fail == 0 {
                        self.errno(st, 5)?;
                        ret!(-1)
                    }
                }
                let file = st.fs.files.get(&f.path).cloned().unwrap_or_default();
                let pos = (f.pos as usize).min(file.data.len());
                let mut k = (file.data.len() - pos).min(l as usize);
                if st.fs.short && k > 1 {
                    k = (k + 1) / 2;
                }
                let sy = if file.sym.is_empty() { vec![] } else { file.sym[pos..pos + k].to_vec() };
                self.write_bytes(st, a, &file.data[pos..pos + k], &sy)?;
                st.fs.fds.get_mut(&fd).unwrap().pos += k as u64;
                ret!(k as i64)
            }
            "lseek64" | "lseek" => {
                let fd = c!(0) as i32;
                let (o, w) = (c!(1) as i64, c!(2));
                let f = match st.fs.fds.get(&fd) {
                    Some(f) => f.clone(),
                    None => {
                        self.errno(st, 9)?;
                        ret!(-1)
                    }
                };
                let len = st.fs.files.get(&f.path).map_or(0, |x| x.data.len()) as i64;
                let np = match w {
                    0 => o,
                    1 => f.pos as i64 + o,
                    _ => len + o,
                };
                st.fs.fds.get_mut(&fd).unwrap().pos = np as u64;
                ret!(np)
            }
            "fsync" | "fdatasync" => ret32!(0),
            "ftruncate64" | "ftruncate" => {
                let fd = c!(0) as i32;
                let l = c!(1) as usize;
                if let Some(f) = st.fs.fds.get(&fd).cloned() {
                    let mut file = st.fs.files.get(&f.path).cloned().unwrap_or_default();
                    Rc::make_mut(&mut file.data).resize(l, 0);
                    Rc::make_mut(&mut file.sym).resize(l, 0);
                    st.fs.files.insert(f.path, file);
                }
                ret32!(0)
            }
            "stat64" | "stat" | "lstat64" | "lstat" | "fstat64" | "fstat" => {
                let path = if n.starts_with('f') {
                    let fd = c!(0) as i32;
                    match st.fs.fds.get(&fd) {
                        Some(f) => f.path.clone(),
                        None => {
                            self.errno(st, 9)?;
                            ret32!(-1)
                        }
                    }
                } else {
                    let p = c!(0);
                    self.c_str(st, p)?
                };
                let buf = c!(1);
                let (mode, len) = match st.fs.files.get(&path) {
                    _ if st.fs.is_dir(&path) => (0o040755, 0),
                    Some(f) => (0o100644u32, f.data.len()),
                    None => {
                        self.errno(st, 2)?;
                        ret32!(-1)
                    }
                };
                // the riscv64 layout: st_mode at 16, st_size at 48
                self.write_bytes(st, buf, &[0u8; 128], &[])?;
                self.store(st, buf + 16, &Ty::I(32), &V::I(mode as u128))?;
                self.store(st, buf + 48, &Ty::I(64), &V::I(len as u128))?;
                ret32!(0)
            }
            "mmap" | "mmap64" => {
                let len = c!(1);
                let fd = c!(4) as i32;
                let off = c!(5);
                if len == 0 {
                    self.errno(st, 22)?;
                    ret!(-1)
                }
                let a = self.alloc(st, len, true);
                if let Some(f) = st.fs.fds.get(&fd).cloned() {
                    let file = st.fs.files.get(&f.path).cloned().unwrap_or_default();
                    let pos = (off as usize).min(file.data.len());
                    let k = (file.data.len() - pos).min(len as usize);
                    let sy = if file.sym.is_empty() { vec![] } else { file.sym[pos..pos + k].to_vec() };
                    self.write_bytes(st, a, &file.data[pos..pos + k], &sy)?;
                }
                ret!(a as i64)
            }
            "munmap" => {
                let a = c!(0);
                st.mem[(a >> 32) as usize] = None;
                ret32!(0)
            }
            "sysconf" => {
                // one processor; anything else asked for is the page size
                let k = c!(0);
                ret!(if k == 84 { 1 } else { 4096 })
            }
            "sched_getaffinity" => {
                self.errno(st, 38)?;
                ret32!(-1)
            }
            "dlsym" => ret!(0),
            "isatty" => ret32!(0),
            "strerror_r" | "__xpg_strerror_r" => {
                let b = c!(1);
                self.write_bytes(st, b, b"error\0", &[])?;
                ret32!(0)
            }
            "pthread_self" => ret!(1),
            "syscall" => {
                let k = c!(0);
                if k != 291 {
                    return give(format!("system call {}", k));
                }
                // no statx: std falls back to stat
                self.errno(st, 38)?;
                ret!(-1)
            }
            _ => give(format!("external function {}", n)),
        }
    }
}
fn c128(me: &mut Exec, st: &mut State, v: &V) -> X<u128> {
    let v = v.clone();
    me.conc(st, &v)
}
#[allow(dead_code)]
type Unused = (HashMap<u8, u8>, BTreeSet<u8>);
