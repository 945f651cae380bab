//! Satisfiability of sets of truth-valued terms: independence slicing, a cache, and Z3.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_solver_check_assumptions(c: P, s: P, n: u32, a: *const P) -> i32;
    fn Z3_solver_get_unsat_core(c: P, s: P) -> P;
    fn Z3_ast_vector_inc_ref(c: P, v: P);
    fn Z3_ast_vector_dec_ref(c: P, v: P);
    fn Z3_ast_vector_size(c: P, v: P) -> u32;
    fn Z3_ast_vector_get(c: P, v: P, i: u32) -> P;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
}

pub struct Solver {
    c: P,
    s: P,
    cache: Vec<P>,
    answers: HashMap<Vec<E>, Option<Rc<Vec<(u32, u128)>>>>,
    cores: HashMap<E, Vec<Vec<E>>>,
    tracked: HashMap<E, P>,
    /// terms over one variable of at most 8 bits: their value for each value of it
    tables: HashMap<E, Rc<Vec<u64>>>,
    /// decide by those where possible
    pub by_table: bool,
    pub tabled: u64,
    pub core_hits: u64,
    pub built: u64,
    pub queries: u64,
    pub hits: u64,
    pub unsat: u64,
    pub secs: f64,
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let (k, v) = (CString::new("timeout").unwrap(), CString::new("120000").unwrap());
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            Solver { c, s, cache: vec![], answers: HashMap::new(), cores: HashMap::new(), tracked: HashMap::new(), tables: HashMap::new(), by_table: true, tabled: 0, core_hits: 0, built: 0, queries: 0, hits: 0, unsat: 0, secs: 0.0 }
        }
    }
    unsafe fn num(&self, v: u128, w: u32) -> P {
        let s = CString::new(v.to_string()).unwrap();
        Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, w))
    }
    /// A width-1 Z3 term is Bool; `bv` lifts one to a bit vector.
    unsafe fn bv(&self, a: P, w: u32) -> P {
        if w == 1 {
            Z3_mk_ite(self.c, a, self.num(1, 1), self.num(0, 1))
        } else {
            a
        }
    }
    unsafe fn tr(&mut self, p: &Pool, e: E) -> P {
        if self.cache.len() <= e as usize {
            self.cache.resize(p.n.len().max(e as usize + 1), std::ptr::null_mut());
        }
        if !self.cache[e as usize].is_null() {
            return self.cache[e as usize];
        }
        let c = self.c;
        let n = p.n[e as usize];
        let w = n.w as u32;
        let r = match n.op {
            Op::Const => {
                if w == 1 {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                } else {
                    self.num(n.k, w)
                }
            }
            Op::Var => {
                let nm = CString::new(format!("v{}_{}", n.k, w)).unwrap();
                let so = if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w) };
                Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), so)
            }
            Op::Zext | Op::Sext => {
                let aw = p.w(n.a);
                let a = self.tr(p, n.a);
                if aw == 1 {
                    let one = if n.op == Op::Zext { 1 } else { mask(w) };
                    Z3_mk_ite(c, a, self.num(one, w), self.num(0, w))
                } else if n.op == Op::Zext {
                    Z3_mk_zero_ext(c, w - aw, a)
                } else {
                    Z3_mk_sign_ext(c, w - aw, a)
                }
            }
            Op::Extract => {
                let a = self.tr(p, n.a);
                let x = Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a);
                if w == 1 {
                    Z3_mk_eq(c, x, self.num(1, 1))
                } else {
                    x
                }
            }
            Op::Concat => {
                let (aw, bw) = (p.w(n.a), p.w(n.b));
                let a = self.tr(p, n.a);
                let b = self.tr(p, n.b);
                let (a, b) = (self.bv(a, aw), self.bv(b, bw));
                Z3_mk_concat(c, a, b)
            }
            Op::Ite => {
                let (x, y, z) = (self.tr(p, n.a), self.tr(p, n.b), self.tr(p, n.c));
                Z3_mk_ite(c, x, y, z)
            }
            op => {
                let aw = p.w(n.a);
                let a = self.tr(p, n.a);
                let b = self.tr(p, n.b);
                if aw == 1 {
                    match op {
                        Op::And | Op::Mul => Z3_mk_and(c, 2, [a, b].as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                        Op::Xor | Op::Add | Op::Sub => Z3_mk_xor(c, a, b),
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_and(c, 2, [Z3_mk_not(c, a), b].as_ptr()),
                        Op::Ule => Z3_mk_or(c, 2, [Z3_mk_not(c, a), b].as_ptr()),
                        Op::Slt => Z3_mk_and(c, 2, [a, Z3_mk_not(c, b)].as_ptr()),
                        Op::Sle => Z3_mk_or(c, 2, [a, Z3_mk_not(c, b)].as_ptr()),
                        _ => panic!("1-bit {:?}", op),
                    }
                } else {
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        Op::Sle => Z3_mk_bvsle(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.cache[e as usize] = r;
        r
    }
    /// Is `pc` (assumed satisfiable) together with `q` satisfiable? A model of the part `q` touches.
    pub fn sat(&mut self, p: &mut Pool, pc: &[E], q: E) -> Result<Option<Rc<Vec<(u32, u128)>>>, String> {
        match p.val(q) {
            Some(0) => return Ok(None),
            Some(_) => return Ok(Some(Rc::new(vec![]))),
            None => {}
        }
        // a part of the path condition that Z3 has refuted together with q before
        if let Some(cs) = self.cores.get(&q) {
            if cs.iter().any(|c| c.iter().all(|e| pc.contains(e))) {
                self.core_hits += 1;
                return Ok(None);
            }
        }
        // the constraints that share variables with q, transitively
        let mut sup = p.sup[q as usize];
        let mut picked = vec![false; pc.len()];
        let mut key = vec![q];
        loop {
            let mut more = false;
            for (i, &c) in pc.iter().enumerate() {
                if !picked[i] && p.sup[c as usize] & sup != 0 {
                    picked[i] = true;
                    sup |= p.sup[c as usize];
                    key.push(c);
                    more = true;
                }
            }
            if !more {
                break;
            }
        }
        key.sort();
        key.dedup();
        if let Some(r) = self.answers.get(&key) {
            self.hits += 1;
            return Ok(r.clone());
        }
        // a model by construction, where the constraints order variables; it counts only if every
        // constraint evaluates to true under it
        if let Some(m) = order_model(p, &key) {
            self.built += 1;
            let r = Some(Rc::new(m));
            self.answers.insert(key, r.clone());
            return Ok(r);
        }
        // for the small ones Z3 is as quick
        if self.by_table && key.iter().any(|&c| p.size[c as usize] > 64) {
            if let Some(r) = self.by_tables(p, &key) {
                self.tabled += 1;
                return Ok(r);
            }
        }
        let t0 = Instant::now();
        self.queries += 1;
        if self.queries % 5000 == 77 && std::env::var("VSYM_DUMP").is_ok() { eprintln!("{:?}", key.iter().map(|&c| p.show(c)).collect::<Vec<_>>()); }
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            let mut lits: Vec<P> = Vec::with_capacity(key.len());
            for &c in &key {
                let t = self.tr(p, c);
                let l = match self.tracked.get(&c) {
                    Some(l) => *l,
                    None => {
                        let nm = CString::new(format!("t{}", c)).unwrap();
                        let l = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, nm.as_ptr()), Z3_mk_bool_sort(self.c));
                        self.tracked.insert(c, l);
                        l
                    }
                };
                let imp = Z3_mk_implies(self.c, l, t);
                Z3_solver_assert(self.c, self.s, imp);
                lits.push(l);
            }
            let r = Z3_solver_check_assumptions(self.c, self.s, lits.len() as u32, lits.as_ptr());
            let out = if r == 1 {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut vs = vec![];
                let mut seen = HashSet::new();
                for &c in &key {
                    p.vars(c, &mut seen, &mut vs);
                }
                let mut out = vec![];
                for (i, w) in vs {
                    let ve = p.var(i, w);
                    let t = self.tr(p, ve);
                    let mut o: P = std::ptr::null_mut();
                    if !Z3_model_eval(self.c, m, t, true, &mut o) {
                        return Err("model evaluation failed".into());
                    }
                    let v = if w == 1 {
                        (Z3_get_bool_value(self.c, o) == 1) as u128
                    } else {
                        CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_str().unwrap().parse().unwrap()
                    };
                    out.push((i, v));
                }
                Z3_model_dec_ref(self.c, m);
                Some(Rc::new(out))
            } else if r == -1 {
                self.unsat += 1;
                let v = Z3_solver_get_unsat_core(self.c, self.s);
                Z3_ast_vector_inc_ref(self.c, v);
                let n = Z3_ast_vector_size(self.c, v);
                let mut core = vec![];
                for i in 0..n {
                    let l = Z3_ast_vector_get(self.c, v, i);
                    if let Some(k) = lits.iter().position(|x| *x == l) {
                        core.push(key[k])
                    }
                }
                Z3_ast_vector_dec_ref(self.c, v);
                if core.len() == n as usize && core.len() <= 6 {
                    core.retain(|e| *e != q);
                    let cs = self.cores.entry(q).or_default();
                    if cs.len() < 64 {
                        cs.push(core);
                    }
                }
                None
            } else {
                Z3_solver_pop(self.c, self.s, 1);
                return Err("solver gave up".into());
            };
            Z3_solver_pop(self.c, self.s, 1);
            out
        };
        self.secs += t0.elapsed().as_secs_f64();
        self.answers.insert(key, r.clone());
        Ok(r)
    }
}

impl Solver {
    /// The variable of a term over a single one of at most 8 bits.
    fn single(&self, p: &Pool, e: E) -> Option<Node> {
        let sup = p.sup[e as usize];
        if sup.count_ones() != 1 {
            return None;
        }
        let mut e = e;
        let v = loop {
            let n = p.n[e as usize];
            if n.op == Op::Var {
                break n;
            }
            e = *[n.a, n.b, n.c].iter().find(|&&x| x != 0 && p.sup[x as usize] != 0)?;
        };
        if v.w > 8 { None } else { Some(v) }
    }
    /// The values a term over a single small variable can have, in order.
    pub fn values(&mut self, p: &Pool, e: E) -> Option<Vec<u64>> {
        let v = self.single(p, e)?;
        let t = self.table(p, e, v.k, 1usize << v.w)?;
        let mut r = t.to_vec();
        r.sort();
        r.dedup();
        Some(r)
    }
    /// Constraints over a single variable of at most 8 bits, decided over all its values at once.
    fn by_tables(&mut self, p: &Pool, key: &[E]) -> Option<Option<Rc<Vec<(u32, u128)>>>> {
        let sup = p.sup[key[0] as usize];
        if sup.count_ones() != 1 || key.iter().any(|&c| p.sup[c as usize] != sup) {
            return None;
        }
        let v = self.single(p, key[0])?;
        if self.tables.len() > 40_000 {
            self.tables.clear();
        }
        let size = 1usize << v.w;
        let mut ok = vec![true; size];
        for &c in key {
            let t = self.table(p, c, v.k, size)?;
            for i in 0..size {
                ok[i] = ok[i] && t[i] == 1;
            }
        }
        Some(ok.iter().position(|x| *x).map(|i| Rc::new(vec![(v.k as u32, i as u128)])))
    }
    fn table(&mut self, p: &Pool, e: E, v: u128, size: usize) -> Option<Rc<Vec<u64>>> {
        let n = p.n[e as usize];
        if n.w > 64 {
            return None;
        }
        match n.op {
            Op::Const => return Some(Rc::new(vec![n.k as u64; size])),
            Op::Var => return if n.k == v && 1usize << n.w == size { Some(Rc::new((0..size as u64).collect())) } else { None },
            _ => {}
        }
        if let Some(t) = self.tables.get(&e) {
            return Some(t.clone());
        }
        let w = n.w as u32;
        let a = self.table(p, n.a, v, size)?;
        let aw = p.w(n.a);
        let t: Vec<u64> = match n.op {
            Op::Zext => a.to_vec(),
            Op::Sext => a.iter().map(|&x| (sx(x as u128, aw) as u128 & mask(w)) as u64).collect(),
            Op::Extract => a.iter().map(|&x| ((x as u128 >> n.k) & mask(w)) as u64).collect(),
            Op::Concat => {
                let b = self.table(p, n.b, v, size)?;
                let lw = p.w(n.b);
                (0..size).map(|i| a[i] << lw | b[i]).collect()
            }
            Op::Ite => {
                let b = self.table(p, n.b, v, size)?;
                let c = self.table(p, n.c, v, size)?;
                (0..size).map(|i| if a[i] == 1 { b[i] } else { c[i] }).collect()
            }
            op => {
                let b = self.table(p, n.b, v, size)?;
                (0..size).map(|i| Pool::fold(op, aw, a[i] as u128, b[i] as u128) as u64).collect()
            }
        };
        let t = Rc::new(t);
        self.tables.insert(e, t.clone());
        Some(t)
    }
}

fn order_model(p: &mut Pool, key: &[E]) -> Option<Vec<(u32, u128)>> {
    // terms: variables and constants of one width
    let mut ix: HashMap<E, usize> = HashMap::new();
    let mut terms: Vec<E> = vec![];
    let mut flags: Vec<(u32, u128)> = vec![];
    let mut eqs = vec![];
    let mut nes = vec![];
    let mut less = vec![]; // (a, b, strict)
    let mut w = 0;
    for &c in key {
        if let Some((op, pos, a, b)) = p.lit(c) {
            let (na, nb) = (p.n[a as usize], p.n[b as usize]);
            if !matches!(na.op, Op::Var | Op::Const) || !matches!(nb.op, Op::Var | Op::Const) {
                continue;
            }
            if w == 0 {
                w = na.w
            } else if w != na.w {
                return None;
            }
            let mut i = |e: E, terms: &mut Vec<E>| *ix.entry(e).or_insert_with(|| {
                terms.push(e);
                terms.len() - 1
            });
            let (x, y) = (i(a, &mut terms), i(b, &mut terms));
            match (op, pos) {
                (Op::Eq, true) => eqs.push((x, y)),
                (Op::Eq, false) => nes.push((x, y)),
                (Op::Ult, true) => less.push((x, y, true)),
                (Op::Ult, false) => less.push((y, x, false)),
                (Op::Ule, true) => less.push((x, y, false)),
                (_, _) => less.push((y, x, true)),
            }
        } else {
            let n = p.n[c as usize];
            if n.op == Op::Var {
                flags.push((n.k as u32, 1))
            } else if n.op == Op::Xor && p.n[n.a as usize].op == Op::Var && p.val(n.b) == Some(1) {
                flags.push((p.n[n.a as usize].k as u32, 0))
            }
        }
    }
    let n = terms.len();
    let mut rep: Vec<usize> = (0..n).collect();
    fn find(r: &mut Vec<usize>, mut i: usize) -> usize {
        while r[i] != i {
            r[i] = r[r[i]];
            i = r[i]
        }
        i
    }
    for &(a, b) in &eqs {
        let (a, b) = (find(&mut rep, a), find(&mut rep, b));
        rep[a] = b
    }
    let cls: Vec<usize> = (0..n).map(|i| find(&mut rep, i)).collect();
    let mut fixed: Vec<Option<u128>> = vec![None; n];
    for i in 0..n {
        if let Some(k) = p.val(terms[i]) {
            if fixed[cls[i]].map_or(false, |x| x != k) {
                return None;
            }
            fixed[cls[i]] = Some(k)
        }
    }
    let mut indeg = vec![0; n];
    let mut out: Vec<Vec<usize>> = vec![vec![]; n];
    let mut low: Vec<u128> = vec![0; n];
    let mut pre: Vec<Vec<(usize, bool)>> = vec![vec![]; n];
    let mut uneq: Vec<Vec<usize>> = vec![vec![]; n];
    for &(a, b, s) in &less {
        let (a, b) = (cls[a], cls[b]);
        if a == b {
            if s {
                return None;
            }
            continue;
        }
        out[a].push(b);
        indeg[b] += 1;
        pre[b].push((a, s));
    }
    for &(a, b) in &nes {
        let (a, b) = (cls[a], cls[b]);
        if a == b {
            return None;
        }
        uneq[a].push(b);
        uneq[b].push(a);
    }
    let mut val: Vec<Option<u128>> = vec![None; n];
    let mut todo: Vec<usize> = (0..n).filter(|&i| cls[i] == i && indeg[i] == 0).collect();
    let mut done = 0;
    while let Some(i) = todo.pop() {
        done += 1;
        for &(a, s) in &pre[i] {
            low[i] = low[i].max(val[a].unwrap() + s as u128)
        }
        let mut v = low[i];
        if let Some(k) = fixed[i] {
            if k < v {
                return None;
            }
            v = k
        } else {
            while uneq[i].iter().any(|&j| val[j] == Some(v) || fixed[j] == Some(v)) {
                v += 1
            }
        }
        if v > mask(w as u32) {
            return None;
        }
        val[i] = Some(v);
        for &b in &out[i] {
            indeg[b] -= 1;
            if indeg[b] == 0 {
                todo.push(b)
            }
        }
    }
    if done != (0..n).filter(|&i| cls[i] == i).count() {
        return None;
    }
    let mut m: Vec<(u32, u128)> = flags;
    for i in 0..n {
        let t = p.n[terms[i] as usize];
        if t.op == Op::Var {
            m.push((t.k as u32, val[cls[i]].unwrap()))
        }
    }
    let mut seen = HashSet::new();
    let mut vs = vec![];
    for &c in key {
        p.vars(c, &mut seen, &mut vs);
    }
    let top = vs.iter().map(|v| v.0).max().unwrap_or(0) as usize + 1;
    let mut full = vec![0u128; top];
    for &(i, v) in &m {
        full[i as usize] = v
    }
    if key.iter().all(|&c| p.eval(c, &full) == 1) {
        Some(vs.iter().map(|&(i, _)| (i, full[i as usize])).collect())
    } else {
        None
    }
}
