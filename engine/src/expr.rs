//! Hash-consed bit-vector terms with local simplification. Width 1 is a truth value.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Zext,
    Sext,
    Extract, // k = low bit
    Concat,  // a high, b low
    Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub struct Pool {
    pub n: Vec<Node>,
    pub sup: Vec<u128>, // variables a term mentions, modulo 128
    pub size: Vec<u32>, // of the term as a tree, at most 1 << 20
    ix: HashMap<Node, E, std::hash::BuildHasherDefault<Fx>>,
    memo_gen: Vec<u32>,
    memo_val: Vec<u128>,
    gen: u32,
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool { n: vec![], sup: vec![], size: vec![], ix: HashMap::default(), memo_gen: vec![], memo_val: vec![], gen: 0 };
        // 0 is reserved: "no term"
        p.n.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        p.sup.push(0);
        p.size.push(0);
        p
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> E {
        let nd = Node { op, w: w as u16, a, b, c, k };
        if let Some(&e) = self.ix.get(&nd) {
            return e;
        }
        let e = self.n.len() as E;
        let s = match op {
            Op::Const => 0,
            Op::Var => 1u128 << (k % 128),
            _ => self.sup[a as usize] | self.sup[b as usize] | self.sup[c as usize],
        };
        self.n.push(nd);
        self.sup.push(s);
        self.size.push((1 + self.size[a as usize] + self.size[b as usize] + self.size[c as usize]).min(1 << 20));
        self.ix.insert(nd, e);
        e
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w as u32
    }
    pub fn cst(&mut self, v: u128, w: u32) -> E {
        self.mk(Op::Const, w, 0, 0, 0, v & mask(w))
    }
    pub fn var(&mut self, i: u32, w: u32) -> E {
        self.mk(Op::Var, w, 0, 0, 0, i as u128)
    }
    pub fn val(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn not(&mut self, e: E) -> E {
        let w = self.w(e);
        let m = self.cst(mask(w), w);
        self.bin(Op::Xor, e, m)
    }
    /// A comparison and which way it is meant.
    pub fn lit(&self, e: E) -> Option<(Op, bool, E, E)> {
        let n = self.n[e as usize];
        match n.op {
            Op::Eq | Op::Ult | Op::Ule => Some((n.op, true, n.a, n.b)),
            Op::Xor if n.w == 1 && self.val(n.b) == Some(1) => {
                let m = self.n[n.a as usize];
                match m.op {
                    Op::Eq | Op::Ult | Op::Ule => Some((m.op, false, m.a, m.b)),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }

    pub fn fold(op: Op, w: u32, x: u128, y: u128) -> u128 {
        let r = match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::UDiv => {
                if y == 0 {
                    mask(w)
                } else {
                    x / y
                }
            }
            Op::URem => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::SDiv => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    if a < 0 {
                        1
                    } else {
                        !0
                    }
                } else {
                    a.wrapping_div(b) as u128
                }
            }
            Op::SRem => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    a as u128
                } else {
                    a.wrapping_rem(b) as u128
                }
            }
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let s = sx(x, w);
                (if y >= w as u128 { s >> 127 } else { s >> y }) as u128
            }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Eq => return (x == y) as u128,
            Op::Ult => return (x < y) as u128,
            Op::Ule => return (x <= y) as u128,
            Op::Slt => return (sx(x, w) < sx(y, w)) as u128,
            Op::Sle => return (sx(x, w) <= sx(y, w)) as u128,
            _ => unreachable!(),
        };
        r & mask(w)
    }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.val(a), self.val(b)) {
            let r = Pool::fold(op, w, x, y);
            let rw = match op {
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
                _ => w,
            };
            return self.cst(r, rw);
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm && (self.val(a).is_some() || (self.val(b).is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let kb = self.val(b);
        match op {
            Op::Add | Op::Or | Op::Xor | Op::Sub | Op::Shl | Op::LShr | Op::AShr if kb == Some(0) => return a,
            Op::Or if kb == Some(mask(w)) => return b,
            Op::And if kb == Some(0) => return b,
            Op::And if kb == Some(mask(w)) => return a,
            Op::Mul if kb == Some(0) => return b,
            Op::Mul | Op::UDiv | Op::SDiv if kb == Some(1) => return a,
            Op::URem if kb == Some(1) => return self.cst(0, w),
            _ => {}
        }
        if a == b {
            match op {
                Op::And | Op::Or => return a,
                Op::Xor | Op::Sub => return self.cst(0, w),
                Op::Eq | Op::Ule | Op::Sle => return self.cst(1, 1),
                Op::Ult | Op::Slt => return self.cst(0, 1),
                _ => {}
            }
        }
        // shift by constant as extract/concat
        if let Some(k) = kb {
            if op == Op::LShr {
                let k = k as u32;
                if k >= w {
                    return self.cst(0, w);
                }
                let x = self.extract(a, k, w - k);
                return self.zext(x, w);
            }
            if op == Op::Shl {
                let k = k as u32;
                if k >= w {
                    return self.cst(0, w);
                }
                let x = self.extract(a, 0, w - k);
                let z = self.cst(0, k);
                return self.concat(x, z);
            }
            // low mask
            if op == Op::And && k != 0 && (k & (k + 1)) == 0 {
                let l = 128 - k.leading_zeros();
                let x = self.extract(a, 0, l);
                return self.zext(x, w);
            }
            if op == Op::UDiv && k.is_power_of_two() {
                let s = self.cst(k.trailing_zeros() as u128, w);
                return self.bin(Op::LShr, a, s);
            }
            if op == Op::URem && k.is_power_of_two() {
                let s = self.cst(k - 1, w);
                return self.bin(Op::And, a, s);
            }
        }
        let na = self.n[a as usize];
        if let Some(k) = kb {
            match op {
                Op::Add | Op::Sub => {
                    // (x + k1) + k
                    let k = if op == Op::Sub { k.wrapping_neg() & mask(w) } else { k };
                    if na.op == Op::Add {
                        if let Some(k1) = self.val(na.b) {
                            let kk = self.cst(k1.wrapping_add(k), w);
                            return self.bin(Op::Add, na.a, kk);
                        }
                    }
                    if op == Op::Sub {
                        let kk = self.cst(k, w);
                        return self.bin(Op::Add, a, kk);
                    }
                }
                Op::Xor if na.op == Op::Xor => {
                    if let Some(k1) = self.val(na.b) {
                        let kk = self.cst(k1 ^ k, w);
                        return self.bin(Op::Xor, na.a, kk);
                    }
                }
                Op::Eq => {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match na.op {
                        Op::Zext => {
                            let iw = self.w(na.a);
                            if k > mask(iw) {
                                return self.cst(0, 1);
                            }
                            let kk = self.cst(k, iw);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Sext => {
                            let iw = self.w(na.a);
                            if (sx(k & mask(iw), iw) as u128) & mask(w) != k {
                                return self.cst(0, 1);
                            }
                            let kk = self.cst(k, iw);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Ite => {
                            if let (Some(x), Some(y)) = (self.val(na.b), self.val(na.c)) {
                                return match (x == k, y == k) {
                                    (true, true) => self.cst(1, 1),
                                    (true, false) => na.a,
                                    (false, true) => self.not(na.a),
                                    (false, false) => self.cst(0, 1),
                                };
                            }
                            if self.val(na.b).is_some() || self.val(na.c).is_some() {
                                let x = self.bin(Op::Eq, na.b, b);
                                let y = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        Op::Add => {
                            if let Some(k1) = self.val(na.b) {
                                let kk = self.cst(k.wrapping_sub(k1), w);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k1) = self.val(na.b) {
                                let kk = self.cst(k ^ k1, w);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let kl = self.cst(k, lw);
                            let kh = self.cst(k >> lw, w - lw);
                            let x = self.bin(Op::Eq, na.b, kl);
                            let y = self.bin(Op::Eq, na.a, kh);
                            return self.bin(Op::And, x, y);
                        }
                        _ => {}
                    }
                }
                Op::Ult => {
                    if k == 0 {
                        return self.cst(0, 1);
                    }
                    if k == 1 {
                        let z = self.cst(0, w);
                        return self.bin(Op::Eq, a, z);
                    }
                    if na.op == Op::Zext {
                        let iw = self.w(na.a);
                        if k > mask(iw) {
                            return self.cst(1, 1);
                        }
                        let kk = self.cst(k, iw);
                        return self.bin(Op::Ult, na.a, kk);
                    }
                }
                Op::Ule => {
                    if k == mask(w) {
                        return self.cst(1, 1);
                    }
                    let kk = self.cst(k + 1, w);
                    return self.bin(Op::Ult, a, kk);
                }
                Op::Slt | Op::Sle if na.op == Op::Zext && self.w(na.a) < w => {
                    if sx(k, w) < 0 {
                        return self.cst(0, 1);
                    }
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                _ => {}
            }
        }
        if let Some(k) = self.val(a) {
            let nb = self.n[b as usize];
            match op {
                Op::Ult => {
                    if k == mask(w) {
                        return self.cst(0, 1);
                    }
                    // k < b  <=>  !(b < k+1)
                    let kk = self.cst(k + 1, w);
                    let x = self.bin(Op::Ult, b, kk);
                    return self.not(x);
                }
                Op::Ule => {
                    let x = self.bin(Op::Ult, b, a);
                    return self.not(x);
                }
                Op::Slt | Op::Sle if nb.op == Op::Zext && self.w(nb.a) < w => {
                    if sx(k, w) < 0 {
                        return self.cst(1, 1);
                    }
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                _ => {}
            }
        }
        let nb = self.n[b as usize];
        match op {
            Op::Eq | Op::Ult | Op::Ule if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) => {
                return self.bin(op, na.a, nb.a)
            }
            Op::Slt | Op::Sle if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) < w && self.w(nb.a) < w => {
                return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b)
            }
            Op::And | Op::Or | Op::Xor if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) => {
                let x = self.bin(op, na.a, nb.a);
                return self.zext(x, w);
            }
            // disjoint or: concat(x, 0) | zext(y)
            Op::Or | Op::Add if na.op == Op::Concat && nb.op == Op::Zext => {
                let lw = self.w(na.b);
                if self.val(na.b) == Some(0) && self.w(nb.a) <= lw {
                    let y = self.zext(nb.a, lw);
                    return self.concat(na.a, y);
                }
            }
            Op::Or | Op::Add if nb.op == Op::Concat && na.op == Op::Zext => {
                let lw = self.w(nb.b);
                if self.val(nb.b) == Some(0) && self.w(na.a) <= lw {
                    let y = self.zext(na.a, lw);
                    return self.concat(nb.a, y);
                }
            }
            // one form for the order of two terms: a <= b is !(b < a)
            Op::Ule if self.val(a).is_none() && self.val(b).is_none() => {
                let x = self.bin(Op::Ult, b, a);
                return self.not(x);
            }
            Op::And if w == 1 => {
                let x = self.not(b);
                if x == a {
                    return self.cst(0, 1);
                }
                for (x, y) in [(a, b), (b, a)] {
                    if let (Some((Op::Eq, px, l, r)), Some((Op::Ult, py, m, n))) = (self.lit(x), self.lit(y)) {
                        if (l, r) == (m, n) || (r, l) == (m, n) {
                            return match (px, py) {
                                (true, true) => self.cst(0, 1),
                                (true, false) => x,
                                (false, true) => y,
                                (false, false) => self.bin(Op::Ult, n, m),
                            };
                        }
                    }
                }
            }
            Op::Or if w == 1 => {
                let x = self.not(b);
                if x == a {
                    return self.cst(1, 1);
                }
            }
            _ => {}
        }
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        if op == Op::Eq && w == 1 {
            let x = self.bin(Op::Xor, a, b);
            return self.not(x);
        }
        self.mk(op, rw, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.val(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.val(a), self.val(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Op::Or, c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (_, Some(0)) => return self.bin(Op::And, c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        if let (Some(x), Some(y)) = (self.val(a), self.val(b)) {
            if x == 1 && y == 0 {
                return self.zext(c, w);
            }
            if x == 0 && y == 1 {
                let n = self.not(c);
                return self.zext(n, w);
            }
        }
        let nc = self.n[c as usize];
        if nc.op == Op::Xor && self.val(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let na = self.n[a as usize];
        match na.op {
            Op::Const => self.cst(na.k, w),
            Op::Zext => self.zext(na.a, w),
            _ => self.mk(Op::Zext, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let na = self.n[a as usize];
        match na.op {
            Op::Const => self.cst(sx(na.k, aw) as u128, w),
            Op::Zext if self.w(na.a) < aw => self.zext(na.a, w),
            Op::Sext => self.sext(na.a, w),
            _ => self.mk(Op::Sext, w, a, 0, 0, 0),
        }
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        if lo == 0 && aw == w {
            return a;
        }
        let na = self.n[a as usize];
        match na.op {
            Op::Const => return self.cst(na.k >> lo, w),
            Op::Zext => {
                let iw = self.w(na.a);
                if lo >= iw {
                    return self.cst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(na.a, lo, w);
                }
                let x = self.extract(na.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::Sext => {
                let iw = self.w(na.a);
                if lo + w <= iw {
                    return self.extract(na.a, lo, w);
                }
            }
            Op::Extract => return self.extract(na.a, na.k as u32 + lo, w),
            Op::Concat => {
                let lw = self.w(na.b);
                if lo + w <= lw {
                    return self.extract(na.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(na.a, lo - lw, w);
                }
                let h = self.extract(na.a, 0, lo + w - lw);
                let l = self.extract(na.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::Ite if self.val(na.b).is_some() || self.val(na.c).is_some() => {
                let x = self.extract(na.b, lo, w);
                let y = self.extract(na.c, lo, w);
                return self.ite(na.a, x, y);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(na.a, lo, w);
                let y = self.extract(na.b, lo, w);
                return self.bin(na.op, x, y);
            }
            Op::Add | Op::Mul | Op::Sub if lo == 0 && w <= 16 => {
                let x = self.extract(na.a, 0, w);
                let y = self.extract(na.b, 0, w);
                return self.bin(na.op, x, y);
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        if hw == 0 {
            return l;
        }
        if lw == 0 {
            return h;
        }
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.val(h), self.val(l)) {
            return self.cst((x << lw) | y, w);
        }
        if self.val(h) == Some(0) {
            return self.zext(l, w);
        }
        let (nh, nl) = (self.n[h as usize], self.n[l as usize]);
        if nh.op == Op::Extract {
            // adjacent pieces of one term
            let (base, lo) = match nl.op {
                Op::Extract => (nl.a, nl.k as u32),
                _ => (l, 0),
            };
            if base == nh.a && nh.k as u32 == lo + lw {
                return self.extract(base, lo, w);
            }
        }
        // zext piece above: concat(zext(x), l) = zext(concat(x, l))
        if nh.op == Op::Zext {
            let x = self.concat(nh.a, l);
            return self.zext(x, w);
        }
        if nl.op == Op::Concat {
            // merge into the high part of the low term
            if nh.op == Op::Extract {
                let nlh = self.n[nl.a as usize];
                if nlh.op == Op::Extract && nlh.a == nh.a && nh.k as u32 == nlh.k as u32 + self.w(nl.a) {
                    let wh = hw + self.w(nl.a);
                    let x = self.extract(nh.a, nlh.k as u32, wh);
                    return self.concat(x, nl.b);
                }
            }
        }
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let x = self.concat(nh.b, nl.b);
            let y = self.concat(nh.c, nl.c);
            return self.ite(nh.a, x, y);
        }
        self.mk(Op::Concat, w, h, l, 0, 0)
    }

    /// The value of `e` under an assignment (missing variables are 0).
    pub fn eval(&mut self, e: E, m: &[u128]) -> u128 {
        self.gen += 1;
        if self.memo_gen.len() < self.n.len() {
            let l = self.n.len() + 1024;
            self.memo_gen.resize(l, 0);
            self.memo_val.resize(l, 0);
        }
        self.ev(e, m)
    }
    fn ev(&mut self, e: E, m: &[u128]) -> u128 {
        let nd = self.n[e as usize];
        match nd.op {
            Op::Const => return nd.k,
            Op::Var => return m.get(nd.k as usize).cloned().unwrap_or(0) & mask(nd.w as u32),
            _ => {}
        }
        if self.memo_gen[e as usize] == self.gen {
            return self.memo_val[e as usize];
        }
        let w = nd.w as u32;
        let r = match nd.op {
            Op::Zext => self.ev(nd.a, m),
            Op::Sext => {
                let aw = self.w(nd.a);
                sx(self.ev(nd.a, m), aw) as u128 & mask(w)
            }
            Op::Extract => (self.ev(nd.a, m) >> nd.k) & mask(w),
            Op::Concat => {
                let lw = self.w(nd.b);
                (self.ev(nd.a, m) << lw) | self.ev(nd.b, m)
            }
            Op::Ite => {
                if self.ev(nd.a, m) == 1 {
                    self.ev(nd.b, m)
                } else {
                    self.ev(nd.c, m)
                }
            }
            op => {
                let aw = self.w(nd.a);
                let x = self.ev(nd.a, m);
                let y = self.ev(nd.b, m);
                Pool::fold(op, aw, x, y)
            }
        };
        self.memo_gen[e as usize] = self.gen;
        self.memo_val[e as usize] = r;
        r
    }
    /// Collect the variables of `e` as (index, width).
    pub fn vars(&self, e: E, seen: &mut std::collections::HashSet<E>, out: &mut Vec<(u32, u32)>) {
        if !seen.insert(e) {
            return;
        }
        let nd = self.n[e as usize];
        match nd.op {
            Op::Const => {}
            Op::Var => out.push((nd.k as u32, nd.w as u32)),
            _ => {
                for x in [nd.a, nd.b, nd.c] {
                    if x != 0 {
                        self.vars(x, seen, out)
                    }
                }
            }
        }
    }
}
impl Pool {
    pub fn show(&self, e: E) -> String {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => format!("{}", n.k),
            Op::Var => format!("v{}", n.k),
            Op::Extract => format!("{}[{}+:{}]", self.show(n.a), n.k, n.w),
            Op::Zext | Op::Sext => format!("{:?}{}({})", n.op, n.w, self.show(n.a)),
            Op::Ite => format!("({}?{}:{})", self.show(n.a), self.show(n.b), self.show(n.c)),
            o => format!("{:?}({},{})", o, self.show(n.a), self.show(n.b)),
        }
    }

    /// Bounds of the value of a term, whatever its variables are.
    pub fn range(&self, e: E) -> (u128, u128) {
        self.within(e, 12)
    }
    fn within(&self, e: E, deep: u32) -> (u128, u128) {
        let n = self.n[e as usize];
        let w = n.w as u32;
        let all = (0, mask(w));
        if deep == 0 {
            return all;
        }
        match n.op {
            Op::Const => (n.k, n.k),
            Op::Zext => self.within(n.a, deep - 1),
            Op::Add => {
                let (a, b) = (self.within(n.a, deep - 1), self.within(n.b, deep - 1));
                if w < 128 && a.1 + b.1 <= mask(w) { (a.0 + b.0, a.1 + b.1) } else { all }
            }
            Op::Mul => {
                let (a, b) = (self.within(n.a, deep - 1), self.within(n.b, deep - 1));
                match a.1.checked_mul(b.1) {
                    Some(h) if h <= mask(w) => (a.0 * b.0, h),
                    _ => all,
                }
            }
            Op::Shl => match self.val(n.b) {
                Some(k) if k < w as u128 && w <= 64 => {
                    let a = self.within(n.a, deep - 1);
                    if a.1 << k <= mask(w) { (a.0 << k, a.1 << k) } else { all }
                }
                _ => all,
            },
            Op::LShr => match self.val(n.b) {
                Some(k) if k < w as u128 => {
                    let a = self.within(n.a, deep - 1);
                    (a.0 >> k, a.1 >> k)
                }
                _ => all,
            },
            Op::UDiv => match self.val(n.b) {
                Some(k) if k > 0 => {
                    let a = self.within(n.a, deep - 1);
                    (a.0 / k, a.1 / k)
                }
                _ => all,
            },
            Op::URem => match self.val(n.b) {
                Some(k) if k > 0 => (0, (k - 1).min(self.within(n.a, deep - 1).1)),
                _ => all,
            },
            Op::And => {
                let (a, b) = (self.within(n.a, deep - 1), self.within(n.b, deep - 1));
                (0, a.1.min(b.1))
            }
            Op::Extract => {
                let a = self.within(n.a, deep - 1);
                if n.k == 0 && a.1 <= mask(w) { a } else { all }
            }
            Op::Concat => {
                let (a, b) = (self.within(n.a, deep - 1), self.within(n.b, deep - 1));
                let lw = self.w(n.b);
                (a.0 << lw | b.0, a.1 << lw | b.1)
            }
            Op::Ite => {
                let (a, b) = (self.within(n.b, deep - 1), self.within(n.c, deep - 1));
                (a.0.min(b.0), a.1.max(b.1))
            }
            _ => all,
        }
    }
}
