//! LLVM assembly: the module, its types and constants, and functions lowered on first use.
use crate::expr::{mask, Op};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    I(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    St(Rc<Vec<Ty>>, bool),
    Fn,
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(_, _) => self.size(),
            Ty::St(v, packed) => {
                if *packed {
                    1
                } else {
                    v.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Allocation size.
    pub fn size(&self) -> u64 {
        match self {
            Ty::I(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() + 7) / 8,
            Ty::St(v, packed) => {
                let mut o = 0;
                for t in v.iter() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !*packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::I(w) => *w as u64,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => self.size() * 8,
        }
    }
    pub fn width(&self) -> u32 {
        self.bits() as u32
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::I(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) => (t.size() * i as u64, (**t).clone()),
            Ty::Vec(_, t) => (t.bits() / 8 * i as u64, (**t).clone()),
            Ty::St(v, packed) => {
                let mut o = 0;
                for (j, t) in v.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field")
            }
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            Ty::St(v, _) => v.len(),
            _ => 0,
        }
    }
}

/// A runtime value. Pointers and floats are integers; `S` is a term.
#[derive(Clone, Debug)]
pub enum V {
    I(u128),
    S(u32),
    A(Rc<Vec<V>>),
}
impl V {
    pub fn zero(t: &Ty) -> V {
        match t {
            Ty::Arr(..) | Ty::Vec(..) | Ty::St(..) => V::A(Rc::new((0..t.nfields()).map(|i| V::zero(&t.field(i).1)).collect())),
            _ => V::I(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(V),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cast {
    Trunc,
    Zext,
    Sext,
    Bit,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpTrunc,
    FpExt,
}

#[derive(Debug)]
pub enum Ins {
    Bin(Op, u32, u32, Opnd, Opnd),
    VBin(Op, u32, u32, Opnd, Opnd),
    FBin(u8, bool, u32, Opnd, Opnd),
    FNeg(bool, u32, Opnd),
    /// op, swap operands, negate, width
    ICmp(Op, bool, bool, u32, u32, Opnd, Opnd),
    FCmp(u8, bool, u32, Opnd, Opnd),
    Alloca(u32, u64, Opnd),
    Load(u32, Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(u32, Opnd, u64, Vec<(Opnd, u32, u64)>),
    Cast(Cast, u32, Ty, Ty, Opnd),
    Select(u32, Opnd, Opnd, Opnd, Ty),
    Call(u32, Opnd, Vec<Opnd>, Ty),
    /// intrinsic or modelled external
    Ext(u32, u32, Vec<Opnd>, Rc<Vec<Ty>>, Ty),
    ExtractValue(u32, Opnd, Vec<usize>),
    InsertValue(u32, Opnd, Opnd, Vec<usize>),
    ExtractElem(u32, Opnd, Opnd),
    InsertElem(u32, Opnd, Opnd, Opnd),
    Mov(u32, Opnd),
    Rmw(u8, u32, Ty, Opnd, Opnd),
    CmpXchg(u32, Ty, Opnd, Opnd, Opnd),
    Nop,
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Opnd, u32, Vec<(u128, u32)>, u32),
    Ret(Option<Opnd>),
    Unreachable,
    Unsupported(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub ins: Vec<Ins>,
}
pub struct Body {
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}
pub struct Func {
    pub name: String,
    pub body_at: Option<(usize, usize)>, // text of a definition
    pub body: Option<Rc<Body>>,
    pub weak: bool,
}
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init_at: Option<usize>,
    pub ro: bool,
    pub addr: u64,
    pub weak_ext: bool,
}

pub const FN_BASE: u64 = 0x4000_0000_0000_0000;

pub struct Module {
    pub src: Rc<Vec<u8>>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, usize>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, usize>,
    pub types: HashMap<String, Ty>,
    pub aliases: HashMap<String, String>,
    pub exts: Vec<String>,
    pub extidx: HashMap<String, u32>,
}

pub struct Cur<'a> {
    s: &'a [u8],
    pub p: usize,
}
type R<T> = Result<T, String>;

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Cur<'a> {
    pub fn new(s: &'a [u8], p: usize) -> Cur<'a> {
        Cur { s, p }
    }
    fn ws(&mut self) {
        while self.p < self.s.len() {
            match self.s[self.p] {
                b' ' | b'\t' | b'\n' | b'\r' => self.p += 1,
                b';' => {
                    while self.p < self.s.len() && self.s[self.p] != b'\n' {
                        self.p += 1
                    }
                }
                _ => break,
            }
        }
    }
    /// Skip blanks on the current line.
    fn sp(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t') {
            self.p += 1
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.p).unwrap_or(&0)
    }
    fn skip_line(&mut self) {
        while self.p < self.s.len() && self.s[self.p] != b'\n' {
            self.p += 1
        }
        self.p += 1;
    }
    fn eat(&mut self, t: &str) -> bool {
        let st = self.p;
        self.ws();
        if self.s[self.p..].starts_with(t.as_bytes()) {
            let e = self.p + t.len();
            let last = t.as_bytes()[t.len() - 1];
            if is_word(last) && e < self.s.len() && is_word(self.s[e]) {
                self.p = st;
                return false;
            }
            self.p = e;
            true
        } else {
            self.p = st;
            false
        }
    }
    fn expect(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", t, self.rest()))
        }
    }
    fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.p..(self.p + 120).min(self.s.len())]).into_owned()
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() && is_word(self.s[self.p]) {
            self.p += 1
        }
        std::str::from_utf8(&self.s[st..self.p]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        let w = self.word();
        self.p = st;
        w
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at the opening quote
        self.p += 1;
        let mut o = vec![];
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                if self.s[self.p + 1] == b'\\' {
                    o.push(b'\\');
                    self.p += 2;
                    continue;
                }
                let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                o.push(u8::from_str_radix(h, 16).unwrap());
                self.p += 3;
            } else {
                o.push(self.s[self.p]);
                self.p += 1;
            }
        }
        self.p += 1;
        o
    }
    /// A name after its sigil.
    fn name(&mut self) -> String {
        if self.s[self.p] == b'"' {
            String::from_utf8_lossy(&self.quoted()).into_owned()
        } else {
            let st = self.p;
            while self.p < self.s.len() && is_word(self.s[self.p]) {
                self.p += 1
            }
            String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
        }
    }
    fn balanced(&mut self) {
        // at '(' ; skip to its partner
        let mut d = 0;
        loop {
            match self.s[self.p] {
                b'"' => {
                    self.quoted();
                    continue;
                }
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn type_ahead(&mut self) -> bool {
        let c = self.peek();
        if c == b'{' || c == b'[' || c == b'<' || c == b'%' {
            return true;
        }
        let w = self.peek_word();
        if matches!(w, "ptr" | "void" | "float" | "double" | "half" | "label" | "metadata" | "token" | "opaque" | "x86_fp80" | "fp128" | "bfloat") {
            return true;
        }
        let b = w.as_bytes();
        b.len() > 1 && b[0] == b'i' && b[1..].iter().all(|c| c.is_ascii_digit())
    }
    /// Skip attribute words before a type.
    fn attrs_to_type(&mut self) {
        while !self.type_ahead() {
            if !self.attr() {
                break;
            }
        }
    }
    /// Skip one attribute; false when there is none.
    fn attr(&mut self) -> bool {
        let c = self.peek();
        if c == b'"' {
            self.quoted();
            if self.peek() == b'=' {
                self.p += 1;
                if self.peek() == b'"' {
                    self.quoted();
                }
            }
            return true;
        }
        if c == b'#' {
            self.p += 1;
            self.word();
            return true;
        }
        if !c.is_ascii_alphabetic() {
            return false;
        }
        let w = self.peek_word();
        if is_const_word(w) {
            return false;
        }
        self.word();
        if w == "align" {
            self.sp();
            if self.s[self.p] != b'(' {
                self.word();
                return true;
            }
        }
        if self.s[self.p] == b'(' {
            self.balanced();
        }
        true
    }
}
fn is_const_word(w: &str) -> bool {
    if w.get(1..3) == Some("0x") {
        return true;
    }
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr"
            | "splat" | "bitcast" | "add" | "sub" | "trunc" | "xor" | "c" | "asm" | "blockaddress" | "addrspacecast" | "inf" | "nan"
    )
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read(path).map_err(|e| format!("{}: {}", path, e))?;
        let src = Rc::new(text);
        let mut m = Module {
            src: src.clone(),
            funcs: vec![],
            fidx: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            types: HashMap::new(),
            aliases: HashMap::new(),
            exts: vec![],
            extidx: HashMap::new(),
        };
        let s = &src[..];
        let mut c = Cur::new(s, 0);
        // first pass: names
        let mut pending = vec![];
        while c.p < s.len() {
            let st = c.p;
            match s[c.p] {
                b'@' => {
                    c.p += 1;
                    let n = c.name();
                    pending.push((n, c.p));
                    c.p = st;
                    // initialisers are on one line
                    c.skip_line();
                }
                b'%' => {
                    c.p += 1;
                    let n = c.name();
                    c.expect("=")?;
                    c.expect("type")?;
                    let t = m.ty(&mut c).unwrap_or(Ty::Other);
                    m.types.insert(n, t);
                    c.skip_line();
                }
                b'd' => {
                    let w = c.peek_word();
                    if w == "define" || w == "declare" {
                        let def = w == "define";
                        let head = c.p;
                        // the name is the first @ outside quotes and brackets
                        while s[c.p] != b'@' {
                            if s[c.p] == b'"' {
                                c.quoted();
                            } else if s[c.p] == b'(' {
                                c.balanced();
                            } else {
                                c.p += 1
                            }
                        }
                        let weak = s[head..c.p].windows(11).any(|x| x == b"extern_weak");
                        c.p += 1;
                        let n = c.name();
                        let at = c.p;
                        let mut body = None;
                        if def {
                            loop {
                                c.skip_line();
                                if c.p >= s.len() || s[c.p] == b'}' {
                                    break;
                                }
                            }
                            body = Some((at, c.p));
                        }
                        c.skip_line();
                        let i = m.funcs.len();
                        m.funcs.push(Func { name: n.clone(), body_at: body, body: None, weak });
                        m.fidx.insert(n, i);
                    } else {
                        c.skip_line()
                    }
                }
                _ => c.skip_line(),
            }
        }
        for (n, at) in pending {
            let mut c = Cur::new(s, at);
            c.expect("=")?;
            let mut ro = false;
            let mut weak_ext = false;
            let mut ext = false;
            let mut alias = false;
            loop {
                let w = c.peek_word();
                match w {
                    "global" => {
                        c.word();
                        break;
                    }
                    "constant" => {
                        c.word();
                        ro = true;
                        break;
                    }
                    "alias" => {
                        c.word();
                        alias = true;
                        break;
                    }
                    "extern_weak" => {
                        weak_ext = true;
                        c.word();
                    }
                    "external" => {
                        ext = true;
                        c.word();
                    }
                    _ => {
                        c.word();
                        if s[c.p] == b'(' {
                            c.balanced();
                        }
                    }
                }
            }
            if alias {
                let _ = m.ty(&mut c)?;
                c.expect(",")?;
                c.expect("ptr")?;
                if c.peek() == b'@' {
                    c.p += 1;
                    let t = c.name();
                    m.aliases.insert(n, t);
                }
                continue;
            }
            let ty = m.ty(&mut c)?;
            let i = m.globals.len();
            // the object id is the global's number plus 16
            let addr = ((i as u64) + 16) << 32;
            m.globals.push(Global {
                name: n.clone(),
                ty,
                init_at: if ext || weak_ext { None } else { Some(c.p) },
                ro,
                addr,
                weak_ext,
            });
            m.gidx.insert(n, i);
        }
        Ok(m)
    }

    pub fn ty(&self, c: &mut Cur) -> R<Ty> {
        let ch = c.peek();
        let t = match ch {
            b'{' => {
                c.p += 1;
                let v = self.tylist(c, b'}')?;
                Ty::St(Rc::new(v), false)
            }
            b'[' => {
                c.p += 1;
                let n: u64 = c.word().parse().map_err(|_| "array length")?;
                c.expect("x")?;
                let t = self.ty(c)?;
                c.expect("]")?;
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                c.p += 1;
                if c.peek() == b'{' {
                    c.p += 1;
                    let v = self.tylist(c, b'}')?;
                    c.expect(">")?;
                    Ty::St(Rc::new(v), true)
                } else {
                    let n: u64 = c.word().parse().map_err(|_| "vector length")?;
                    c.expect("x")?;
                    let t = self.ty(c)?;
                    c.expect(">")?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'%' => {
                c.p += 1;
                let n = c.name();
                self.types.get(&n).cloned().ok_or(format!("type %{}", n))?
            }
            _ => {
                let w = c.word();
                match w {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "half" | "bfloat" => Ty::I(16),
                    "fp128" => Ty::I(128),
                    "metadata" | "label" | "token" | "opaque" => Ty::Other,
                    _ if w.starts_with('i') => Ty::I(w[1..].parse().map_err(|_| format!("type {:?} at {:?}", w, c.rest()))?),
                    _ => return Err(format!("type {:?} at {:?}", w, c.rest())),
                }
            }
        };
        // a function type
        if c.s.get(c.p) == Some(&b' ') && c.s.get(c.p + 1) == Some(&b'(') {
            c.p += 1;
            c.balanced();
            return Ok(Ty::Fn);
        }
        Ok(t)
    }
    fn tylist(&self, c: &mut Cur, close: u8) -> R<Vec<Ty>> {
        let mut v = vec![];
        loop {
            if c.peek() == close {
                c.p += 1;
                return Ok(v);
            }
            v.push(self.ty(c)?);
            c.eat(",");
        }
    }
    pub fn func_addr(i: usize) -> u64 {
        FN_BASE + ((i as u64) << 4)
    }
    pub fn symbol(&self, n: &str) -> R<u64> {
        if let Some(&i) = self.fidx.get(n) {
            let f = &self.funcs[i];
            if f.body_at.is_none() && f.weak {
                return Ok(0);
            }
            return Ok(Module::func_addr(i));
        }
        if let Some(&i) = self.gidx.get(n) {
            if self.globals[i].weak_ext {
                return Ok(0);
            }
            return Ok(self.globals[i].addr);
        }
        if let Some(t) = self.aliases.get(n) {
            return self.symbol(t);
        }
        Err(format!("symbol @{}", n))
    }
    /// A constant of type `t`.
    pub fn cst(&self, c: &mut Cur, t: &Ty) -> R<V> {
        let ch = c.peek();
        match ch {
            b'@' => {
                c.p += 1;
                let n = c.name();
                return Ok(V::I(self.symbol(&n)? as u128));
            }
            b'{' | b'[' | b'<' => {
                let packed = ch == b'<' && matches!(t, Ty::St(..));
                c.p += 1;
                if packed {
                    c.expect("{")?;
                }
                let close = match ch {
                    b'{' => b'}',
                    b'[' => b']',
                    _ => {
                        if packed {
                            b'}'
                        } else {
                            b'>'
                        }
                    }
                };
                let mut v = vec![];
                while c.peek() != close {
                    let et = self.ty(c)?;
                    v.push(self.cst(c, &et)?);
                    c.eat(",");
                }
                c.p += 1;
                if packed {
                    c.expect(">")?;
                }
                return Ok(V::A(Rc::new(v)));
            }
            b'c' if c.s[c.p + 1] == b'"' => {
                c.p += 1;
                let b = c.quoted();
                return Ok(V::A(Rc::new(b.into_iter().map(|x| V::I(x as u128)).collect())));
            }
            _ => {}
        }
        let st = c.p;
        if ch == b'+' {
            c.p += 1;
        }
        let w = c.word();
        Ok(match w {
            "true" => V::I(1),
            "false" => V::I(0),
            "null" | "none" => V::I(0),
            "undef" | "poison" | "zeroinitializer" => V::zero(t),
            "splat" => {
                c.expect("(")?;
                let et = self.ty(c)?;
                let v = self.cst(c, &et)?;
                c.expect(")")?;
                V::A(Rc::new(vec![v; t.nfields()]))
            }
            "getelementptr" => {
                while !c.eat("(") {
                    let w = c.word();
                    if w == "inrange" {
                        c.sp();
                        c.balanced();
                    }
                }
                let bt = self.ty(c)?;
                c.expect(",")?;
                let pt = self.ty(c)?;
                let base = self.cst(c, &pt)?;
                let mut a = match base {
                    V::I(x) => x as u64,
                    _ => return Err("gep base".into()),
                };
                let mut cur = bt;
                let mut first = true;
                while c.eat(",") {
                    let it = self.ty(c)?;
                    let iv = match self.cst(c, &it)? {
                        V::I(x) => crate::expr::sx(x, it.width()) as i64,
                        _ => return Err("gep index".into()),
                    };
                    if first {
                        a = a.wrapping_add((iv as u64).wrapping_mul(cur.size()));
                        first = false;
                    } else {
                        let (o, ft) = match &cur {
                            Ty::St(..) => cur.field(iv as usize),
                            Ty::Arr(_, e) => ((iv as u64).wrapping_mul(e.size()), (**e).clone()),
                            _ => return Err("gep type".into()),
                        };
                        a = a.wrapping_add(o);
                        cur = ft;
                    }
                }
                c.expect(")")?;
                V::I(a as u128)
            }
            "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "addrspacecast" => {
                c.expect("(")?;
                let ft = self.ty(c)?;
                let v = self.cst(c, &ft)?;
                c.expect("to")?;
                let tt = self.ty(c)?;
                c.expect(")")?;
                match v {
                    V::I(x) => V::I(x & mask(tt.width())),
                    v => v,
                }
            }
            "add" | "sub" | "xor" => {
                while !c.eat("(") {
                    c.word();
                }
                let ta = self.ty(c)?;
                let a = self.cst(c, &ta)?;
                c.expect(",")?;
                let tb = self.ty(c)?;
                let b = self.cst(c, &tb)?;
                c.expect(")")?;
                match (a, b) {
                    (V::I(x), V::I(y)) => V::I(
                        match w {
                            "add" => x.wrapping_add(y),
                            "sub" => x.wrapping_sub(y),
                            _ => x ^ y,
                        } & mask(ta.width()),
                    ),
                    _ => return Err("const expr".into()),
                }
            }
            _ => {
                let b = w.as_bytes();
                if b.is_empty() {
                    c.p = st;
                    return Err(format!("constant at {:?}", c.rest()));
                }
                match t {
                    Ty::F32 | Ty::F64 => {
                        let hex = w.strip_prefix("0x").or_else(|| w.strip_prefix("f0x"));
                        let f = if let Some(h) = hex {
                            if w.starts_with('f') && *t == Ty::F32 {
                                return Ok(V::I(u128::from_str_radix(h, 16).map_err(|_| "float")?));
                            }
                            f64::from_bits(u64::from_str_radix(h, 16).map_err(|_| "float")?)
                        } else {
                            // 1.0e+00
                            let mut txt = w.to_string();
                            if c.s.get(c.p) == Some(&b'+') {
                                c.p += 1;
                                txt.push_str(c.word());
                            }
                            txt.parse::<f64>().map_err(|_| format!("float {:?}", txt))?
                        };
                        if *t == Ty::F32 {
                            V::I((f as f32).to_bits() as u128)
                        } else {
                            V::I(f.to_bits() as u128)
                        }
                    }
                    _ => {
                        if let Some(h) = w.strip_prefix("u0x") {
                            return Ok(V::I(u128::from_str_radix(h, 16).map_err(|_| "int")? & mask(t.width())));
                        }
                        let v: u128 = if let Some(x) = w.strip_prefix('-') {
                            x.parse::<u128>().map(|x| x.wrapping_neg()).map_err(|_| format!("int {:?}", w))?
                        } else {
                            w.parse::<u128>().map_err(|_| format!("int {:?} at {:?}", w, c.rest()))?
                        };
                        V::I(v & mask(t.width()))
                    }
                }
            }
        })
    }
    pub fn ext(&mut self, name: &str) -> u32 {
        if let Some(&i) = self.extidx.get(name) {
            return i;
        }
        let i = self.exts.len() as u32;
        self.exts.push(name.to_string());
        self.extidx.insert(name.to_string(), i);
        i
    }

    pub fn body(&mut self, f: usize) -> R<Rc<Body>> {
        if let Some(b) = &self.funcs[f].body {
            return Ok(b.clone());
        }
        let (at, end) = self.funcs[f].body_at.ok_or(format!("no body for {}", self.funcs[f].name))?;
        let b = Rc::new(Lower::new(self, at, end).run().map_err(|e| format!("in {}: {}", self.funcs[f].name, e))?);
        self.funcs[f].body = Some(b.clone());
        Ok(b)
    }
}

struct Lower<'m> {
    m: &'m mut Module,
    src: Rc<Vec<u8>>,
    at: usize,
    end: usize,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    nblocks: u32,
}
impl<'m> Lower<'m> {
    fn new(m: &'m mut Module, at: usize, end: usize) -> Lower<'m> {
        let src = m.src.clone();
        Lower { m, src, at, end, regs: HashMap::new(), labels: HashMap::new(), nblocks: 0 }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.labels.get(n) {
            return r;
        }
        let r = self.nblocks;
        self.nblocks += 1;
        self.labels.insert(n.to_string(), r);
        r
    }
    fn run(&mut self) -> R<Body> {
        let src = self.src.clone();
        let s = &src[..self.end];
        let mut c = Cur::new(s, self.at);
        // parameters
        let mut params = vec![];
        c.expect("(")?;
        let mut auto = 0;
        while c.peek() != b')' {
            if c.eat("...") {
                continue;
            }
            self.m.ty(&mut c)?;
            while c.attr() {}
            if c.peek() == b'%' {
                c.p += 1;
                let n = c.name();
                if n == auto.to_string() {
                    auto += 1
                }
                params.push(self.reg(&n));
            } else {
                let n = auto.to_string();
                auto += 1;
                params.push(self.reg(&n));
            }
            c.eat(",");
        }
        // to the opening brace
        while s[c.p] != b'{' {
            if s[c.p] == b'"' {
                c.quoted();
            } else {
                c.p += 1;
            }
        }
        c.skip_line();
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<(u32, Block)> = None;
        while c.p < s.len() {
            // a blank or comment line
            c.ws();
            if c.p >= s.len() {
                break;
            }
            // a label?
            let st = c.p;
            if s[c.p] == b'"' || is_word(s[c.p]) {
                let n = c.name();
                if c.p < s.len() && s[c.p] == b':' {
                    c.skip_line();
                    if let Some((i, b)) = cur.take() {
                        put_block(&mut blocks, i, b);
                    }
                    let l = self.label(&n);
                    cur = Some((l, Block { phis: vec![], ins: vec![] }));
                    continue;
                }
                c.p = st;
            }
            if cur.is_none() {
                let l = self.label(&auto.to_string());
                cur = Some((l, Block { phis: vec![], ins: vec![] }));
            }
            let (_, b) = cur.as_mut().unwrap();
            match self.ins(&mut c, b) {
                Ok(()) => {}
                Err(e) => b.ins.push(Ins::Unsupported(e)),
            }
            // rest of the line is metadata
            if !matches!(b.ins.last(), Some(Ins::Switch(..))) || s[c.p] != b'\n' {
                c.skip_line();
            }
        }
        if let Some((i, b)) = cur.take() {
            put_block(&mut blocks, i, b);
        }
        let blocks = blocks.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], ins: vec![Ins::Unsupported("missing block".into())] })).collect();
        Ok(Body { nregs: self.regs.len() as u32, params, blocks })
    }
    fn val(&mut self, c: &mut Cur, t: &Ty) -> R<Opnd> {
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            return Ok(Opnd::R(self.reg(&n)));
        }
        Ok(Opnd::C(self.m.cst(c, t)?))
    }
    fn tv(&mut self, c: &mut Cur) -> R<(Ty, Opnd)> {
        let t = self.m.ty(c)?;
        while c.peek() != b'%' && c.attr() {}
        let v = self.val(c, &t)?;
        Ok((t, v))
    }
    fn lab(&mut self, c: &mut Cur) -> R<u32> {
        c.expect("label")?;
        c.expect("%")?;
        let n = c.name();
        Ok(self.label(&n))
    }
    fn flags(&mut self, c: &mut Cur, list: &[&str]) {
        loop {
            let w = c.peek_word();
            if list.contains(&w) {
                c.word();
            } else {
                return;
            }
        }
    }
    fn ins(&mut self, c: &mut Cur, b: &mut Block) -> R<()> {
        let mut dst = !0u32;
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            dst = self.reg(&n);
            c.expect("=")?;
        }
        let w = c.word().to_string();
        let fm = ["nuw", "nsw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "nneg", "samesign", "inbounds", "nusw"];
        let i = match w.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                self.flags(c, &fm);
                let (t, a) = self.tv(c)?;
                c.expect(",")?;
                let bb = self.val(c, &t)?;
                let op = match w.as_str() {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    "ashr" => Op::AShr,
                    "and" => Op::And,
                    "or" => Op::Or,
                    _ => Op::Xor,
                };
                match &t {
                    Ty::Vec(_, e) => Ins::VBin(op, e.width(), dst, a, bb),
                    _ => Ins::Bin(op, t.width(), dst, a, bb),
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags(c, &fm);
                let (t, a) = self.tv(c)?;
                c.expect(",")?;
                let bb = self.val(c, &t)?;
                Ins::FBin(w.as_bytes()[1], t == Ty::F64, dst, a, bb)
            }
            "fneg" => {
                self.flags(c, &fm);
                let (t, a) = self.tv(c)?;
                Ins::FNeg(t == Ty::F64, dst, a)
            }
            "icmp" => {
                self.flags(c, &fm);
                let p = c.word().to_string();
                let (t, a) = self.tv(c)?;
                c.expect(",")?;
                let bb = self.val(c, &t)?;
                if !t.is_scalar() {
                    return Err("vector icmp".into());
                }
                let (op, sw, ng) = match p.as_str() {
                    "eq" => (Op::Eq, false, false),
                    "ne" => (Op::Eq, false, true),
                    "ult" => (Op::Ult, false, false),
                    "ule" => (Op::Ule, false, false),
                    "ugt" => (Op::Ult, true, false),
                    "uge" => (Op::Ule, true, false),
                    "slt" => (Op::Slt, false, false),
                    "sle" => (Op::Sle, false, false),
                    "sgt" => (Op::Slt, true, false),
                    "sge" => (Op::Sle, true, false),
                    _ => return Err(format!("icmp {}", p)),
                };
                Ins::ICmp(op, sw, ng, t.width(), dst, a, bb)
            }
            "fcmp" => {
                self.flags(c, &fm);
                let p = c.word().to_string();
                let (t, a) = self.tv(c)?;
                c.expect(",")?;
                let bb = self.val(c, &t)?;
                // bits: 1 lt, 2 eq, 4 gt, 8 unordered
                let k = match p.as_str() {
                    "false" => 0,
                    "oeq" => 2,
                    "ogt" => 4,
                    "oge" => 6,
                    "olt" => 1,
                    "ole" => 3,
                    "one" => 5,
                    "ord" => 7,
                    "ueq" => 10,
                    "ugt" => 12,
                    "uge" => 14,
                    "ult" => 9,
                    "ule" => 11,
                    "une" => 13,
                    "uno" => 8,
                    "true" => 15,
                    _ => return Err("fcmp".into()),
                };
                Ins::FCmp(k, t == Ty::F64, dst, a, bb)
            }
            "alloca" => {
                let t = self.m.ty(c)?;
                let mut n = Opnd::C(V::I(1));
                if c.eat(",") && !c.eat("align") {
                    n = self.tv(c)?.1;
                }
                Ins::Alloca(dst, t.size(), n)
            }
            "load" => {
                self.flags(c, &["atomic", "volatile"]);
                let t = self.m.ty(c)?;
                c.expect(",")?;
                let (_, p) = self.tv(c)?;
                Ins::Load(dst, t, p)
            }
            "store" => {
                self.flags(c, &["atomic", "volatile"]);
                let (t, v) = self.tv(c)?;
                c.expect(",")?;
                let (_, p) = self.tv(c)?;
                Ins::Store(t, v, p)
            }
            "getelementptr" => {
                loop {
                    let w = c.peek_word();
                    if fm.contains(&w) {
                        c.word();
                    } else if w == "inrange" {
                        c.word();
                        c.sp();
                        c.balanced();
                    } else {
                        break;
                    }
                }
                let bt = self.m.ty(c)?;
                c.expect(",")?;
                let (_, base) = self.tv(c)?;
                let mut off = 0u64;
                let mut var = vec![];
                let mut cur = bt;
                let mut first = true;
                loop {
                    c.sp();
                    if c.s[c.p] != b',' {
                        break;
                    }
                    let st = c.p;
                    c.p += 1;
                    if c.peek() == b'!' {
                        c.p = st;
                        break;
                    }
                    let (it, iv) = self.tv(c)?;
                    let scale;
                    if first {
                        first = false;
                        scale = cur.size();
                    } else {
                        match &cur {
                            Ty::St(..) => {
                                let k = match &iv {
                                    Opnd::C(V::I(x)) => *x as usize,
                                    _ => return Err("gep".into()),
                                };
                                let (o, ft) = cur.field(k);
                                off = off.wrapping_add(o);
                                cur = ft;
                                continue;
                            }
                            Ty::Arr(_, e) => {
                                scale = e.size();
                                let e = (**e).clone();
                                cur = e;
                            }
                            _ => return Err("gep type".into()),
                        }
                    }
                    match &iv {
                        Opnd::C(V::I(x)) => off = off.wrapping_add((crate::expr::sx(*x, it.width()) as u64).wrapping_mul(scale)),
                        _ => var.push((iv, it.width(), scale)),
                    }
                }
                Ins::Gep(dst, base, off, var)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "addrspacecast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fptrunc" | "fpext" => {
                self.flags(c, &fm);
                let (t, a) = self.tv(c)?;
                c.expect("to")?;
                let tt = self.m.ty(c)?;
                let k = match w.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::Zext,
                    "sext" => Cast::Sext,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "fptrunc" => Cast::FpTrunc,
                    "fpext" => Cast::FpExt,
                    "bitcast" => Cast::Bit,
                    _ => {
                        if tt.width() < t.width() {
                            Cast::Trunc
                        } else {
                            Cast::Zext
                        }
                    }
                };
                Ins::Cast(k, dst, t, tt, a)
            }
            "select" => {
                self.flags(c, &fm);
                let (_, k) = self.tv(c)?;
                c.expect(",")?;
                let (t, x) = self.tv(c)?;
                c.expect(",")?;
                let (_, y) = self.tv(c)?;
                Ins::Select(dst, k, x, y, t)
            }
            "freeze" => {
                let (_, a) = self.tv(c)?;
                Ins::Mov(dst, a)
            }
            "phi" => {
                self.flags(c, &fm);
                let t = self.m.ty(c)?;
                let mut v = vec![];
                loop {
                    c.expect("[")?;
                    let o = self.val(c, &t)?;
                    c.expect(",")?;
                    c.expect("%")?;
                    let n = c.name();
                    let l = self.label(&n);
                    c.expect("]")?;
                    v.push((l, o));
                    c.sp();
                    if c.s[c.p] == b',' {
                        let st = c.p;
                        c.p += 1;
                        if c.peek() == b'!' {
                            c.p = st;
                            break;
                        }
                    } else {
                        break;
                    }
                }
                b.phis.push((dst, v));
                return Ok(());
            }
            "extractvalue" => {
                let (_, a) = self.tv(c)?;
                let mut ix = vec![];
                while c.s[c.p] == b',' {
                    c.p += 1;
                    if c.peek() == b'!' {
                        break;
                    }
                    ix.push(c.word().parse().map_err(|_| "index")?);
                }
                Ins::ExtractValue(dst, a, ix)
            }
            "insertvalue" => {
                let (_, a) = self.tv(c)?;
                c.expect(",")?;
                let (_, v) = self.tv(c)?;
                let mut ix = vec![];
                while c.s[c.p] == b',' {
                    c.p += 1;
                    if c.peek() == b'!' {
                        break;
                    }
                    ix.push(c.word().parse().map_err(|_| "index")?);
                }
                Ins::InsertValue(dst, a, v, ix)
            }
            "extractelement" => {
                let (_, a) = self.tv(c)?;
                c.expect(",")?;
                let (_, i) = self.tv(c)?;
                Ins::ExtractElem(dst, a, i)
            }
            "insertelement" => {
                let (_, a) = self.tv(c)?;
                c.expect(",")?;
                let (_, v) = self.tv(c)?;
                c.expect(",")?;
                let (_, i) = self.tv(c)?;
                Ins::InsertElem(dst, a, v, i)
            }
            "fence" => Ins::Nop,
            "atomicrmw" => {
                self.flags(c, &["volatile"]);
                let op = c.word().to_string();
                let (_, p) = self.tv(c)?;
                c.expect(",")?;
                let (t, v) = self.tv(c)?;
                let k = match op.as_str() {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 4,
                    "xor" => 5,
                    _ => return Err(format!("atomicrmw {}", op)),
                };
                Ins::Rmw(k, dst, t, p, v)
            }
            "cmpxchg" => {
                self.flags(c, &["weak", "volatile"]);
                let (_, p) = self.tv(c)?;
                c.expect(",")?;
                let (t, a) = self.tv(c)?;
                c.expect(",")?;
                let (_, n) = self.tv(c)?;
                Ins::CmpXchg(dst, t, p, a, n)
            }
            "br" => {
                if c.peek_word() == "label" {
                    Ins::Br(self.lab(c)?)
                } else {
                    let (_, k) = self.tv(c)?;
                    c.expect(",")?;
                    let x = self.lab(c)?;
                    c.expect(",")?;
                    let y = self.lab(c)?;
                    Ins::CondBr(k, x, y)
                }
            }
            "switch" => {
                let (t, v) = self.tv(c)?;
                c.expect(",")?;
                let d = self.lab(c)?;
                c.expect("[")?;
                let mut cs = vec![];
                while c.peek() != b']' {
                    let ct = self.m.ty(c)?;
                    let k = match self.m.cst(c, &ct)? {
                        V::I(x) => x,
                        _ => return Err("switch".into()),
                    };
                    c.expect(",")?;
                    cs.push((k, self.lab(c)?));
                }
                c.p += 1;
                Ins::Switch(v, d, cs, t.width())
            }
            "ret" => {
                if c.eat("void") {
                    Ins::Ret(None)
                } else {
                    let (_, v) = self.tv(c)?;
                    Ins::Ret(Some(v))
                }
            }
            "unreachable" => Ins::Unreachable,
            "tail" | "musttail" | "notail" | "call" => {
                if w != "call" {
                    c.expect("call")?;
                }
                c.attrs_to_type();
                let t = self.ret_ty(c)?;
                if c.eat("asm") {
                    // only an empty template (an optimisation barrier) is known
                    self.flags(c, &["sideeffect", "alignstack", "inteldialect"]);
                    c.ws();
                    let tpl = c.quoted();
                    if !tpl.is_empty() {
                        return Err(format!("asm {}", String::from_utf8_lossy(&tpl)));
                    }
                    c.expect(",")?;
                    c.ws();
                    c.quoted();
                    Ins::Nop
                } else {
                    while c.peek() != b'%' && c.peek() != b'@' && c.attr() {}
                    let mut name = None;
                    let callee = if c.peek() == b'@' {
                        c.p += 1;
                        let mut n = c.name();
                        if let Some(t) = self.m.aliases.get(&n) {
                            n = t.clone();
                        }
                        name = Some(n);
                        Opnd::C(V::I(0))
                    } else {
                        self.val(c, &Ty::Ptr)?
                    };
                    c.expect("(")?;
                    let mut args = vec![];
                    let mut tys = vec![];
                    while c.peek() != b')' {
                        if c.peek_word() == "metadata" {
                            // only debugging and scope information
                            while c.peek() != b')' {
                                c.p += 1
                            }
                            break;
                        }
                        let (t, v) = self.tv(c)?;
                        tys.push(t);
                        args.push(v);
                        c.eat(",");
                    }
                    c.p += 1;
                    match name {
                        Some(n) => {
                            if ignored(&n) {
                                Ins::Nop
                            } else {
                                let modelled = crate::exec::modelled(&n);
                                let known = self.m.fidx.get(&n).cloned();
                                let defined = known.map_or(false, |i| self.m.funcs[i].body_at.is_some());
                                if modelled || !defined {
                                    let e = self.m.ext(&n);
                                    Ins::Ext(dst, e, args, Rc::new(tys), t)
                                } else {
                                    let a = Module::func_addr(known.unwrap());
                                    Ins::Call(dst, Opnd::C(V::I(a as u128)), args, t)
                                }
                            }
                        }
                        None => Ins::Call(dst, callee, args, t),
                    }
                }
            }
            _ => return Err(format!("instruction {}", w)),
        };
        b.ins.push(i);
        Ok(())
    }
    fn ret_ty(&mut self, c: &mut Cur) -> R<Ty> {
        // "ret (params) callee" gives the function type; keep the return type
        let st = c.p;
        let t = self.m.ty(c)?;
        if t == Ty::Fn {
            c.p = st;
            // parse again without the parameter list
            c.peek();
            let s = c.s;
            let mut depth = 0;
            let mut e = c.p;
            loop {
                match s[e] {
                    b'{' | b'[' | b'<' => depth += 1,
                    b'}' | b']' | b'>' => depth -= 1,
                    b'(' if depth == 0 => break,
                    _ => {}
                }
                e += 1;
            }
            let mut c2 = Cur::new(&s[..e], c.p);
            let t = self.m.ty(&mut c2)?;
            c.p = e;
            c.balanced();
            return Ok(t);
        }
        Ok(t)
    }
}
fn put_block(v: &mut Vec<Option<Block>>, i: u32, b: Block) {
    while v.len() <= i as usize {
        v.push(None)
    }
    v[i as usize] = Some(b);
}
fn ignored(n: &str) -> bool {
    n.starts_with("llvm.lifetime") || n.starts_with("llvm.dbg") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.invariant") || n == "llvm.assume" || n == "llvm.donothing"
}
