//! Reader for the textual LLVM IR of the linked program (code under test, harness and standard
//! library). Function bodies are parsed when they are first executed.
use crate::term::{mask, T};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    T(T),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u16),
    Ptr,
    F32,
    F64,
    Void,
    Arr(usize, Rc<Ty>),
    Vec(usize, Rc<Ty>),
    St(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    /// width in bits of a first-class scalar
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::St(..) | Ty::Vec(..))
    }
    pub fn align(&self) -> usize {
        match self {
            Ty::Int(w) => match w {
                1..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (*n * t.size()).next_power_of_two().max(1),
            Ty::St(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// bytes a store writes
    pub fn store_size(&self) -> usize {
        match self {
            Ty::Int(w) => (*w as usize + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Ty::Int(w) => {
                let b = (*w as usize + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                if let Ty::Int(1) = **t {
                    (n + 7) / 8
                } else {
                    n * t.size()
                }
            }
            Ty::St(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> usize {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => i * t.size(),
            Ty::St(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            Ty::St(f, _) => f[i].clone(),
            _ => Ty::Other,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n,
            Ty::St(f, _) => f.len(),
            _ => 0,
        }
    }
    pub fn zero(&self) -> V {
        if self.is_agg() {
            V::A(Rc::new((0..self.count()).map(|i| self.elem(i).zero()).collect()))
        } else {
            V::C(0)
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    Udiv,
    Urem,
    Sdiv,
    Srem,
    Shl,
    Lshr,
    Ashr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Sym(usize),
    Ind(Op),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, Ty, Op, Op),
    Icmp(Rc<str>, Ty, Op, Op),
    Fcmp(Rc<str>, Ty, Op, Op),
    FNeg(Ty, Op),
    Cast(Rc<str>, Ty, Ty, Op),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Gep(Op, i128, Vec<(Op, u16, u64)>),
    Alloca(usize),
    Select(Op, bool, Ty, Op, Op),
    ExtractValue(Op, Vec<usize>),
    InsertValue(Op, Op, Vec<usize>),
    ExtractElement(Op, Op),
    InsertElement(Op, Op, Op),
    Shuffle(Op, Op, usize, Vec<Option<usize>>),
    Freeze(Op),
    Call(Ty, Callee, Vec<(Ty, Op)>),
    Rmw(Rc<str>, Ty, Op, Op),
    CmpXchg(Ty, Op, Op, Op),
    Fence,
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Ty, Op, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    Unsupported(String),
}

pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub ins: Vec<(Option<u32>, I)>,
}

pub struct Func {
    pub name: String,
    pub sym: usize,
    pub nparams: usize,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

pub enum Kind {
    /// type, initialiser text range (None: external), constant
    Var(Ty, Option<(usize, usize)>, bool),
    /// parameter list text range, body text range
    Def((usize, usize), (usize, usize)),
    Decl,
    Alias((usize, usize)),
}

pub struct Sym {
    pub name: String,
    pub kind: Kind,
}

pub struct Module {
    pub text: String,
    pub syms: Vec<Sym>,
    pub names: HashMap<String, usize>,
    pub types: HashMap<String, (usize, usize)>,
    tycache: RefCell<HashMap<String, Ty>>,
    funcs: RefCell<HashMap<usize, Rc<Func>>>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    W(&'a str),
    L(&'a str),
    G(&'a str),
    N(&'a str),
    S(&'a str),
    CS(&'a str),
    M(&'a str),
    H,
    P(u8),
    End,
}

struct Lx<'a> {
    s: &'a str,
    i: usize,
    end: usize,
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lx<'a> {
    fn new(s: &'a str, i: usize, end: usize) -> Lx<'a> {
        Lx { s, i, end }
    }
    fn quoted(&mut self) -> &'a str {
        // at the opening quote
        let b = self.s.as_bytes();
        let st = self.i + 1;
        let mut j = st;
        while b[j] != b'"' {
            j += 1
        }
        self.i = j + 1;
        &self.s[st..j]
    }
    fn ident(&mut self) -> &'a str {
        let b = self.s.as_bytes();
        let st = self.i;
        while self.i < self.end && idch(b[self.i]) {
            self.i += 1
        }
        &self.s[st..self.i]
    }
    fn next(&mut self) -> Tok<'a> {
        let b = self.s.as_bytes();
        loop {
            if self.i >= self.end {
                return Tok::End;
            }
            let c = b[self.i];
            if c.is_ascii_whitespace() {
                self.i += 1;
                continue;
            }
            if c == b';' {
                while self.i < self.end && b[self.i] != b'\n' {
                    self.i += 1
                }
                continue;
            }
            break;
        }
        let c = b[self.i];
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let n = if b[self.i] == b'"' { self.quoted() } else { self.ident() };
                if c == b'%' {
                    Tok::L(n)
                } else {
                    Tok::G(n)
                }
            }
            b'!' => {
                self.i += 1;
                let n = self.ident();
                Tok::M(n)
            }
            b'#' => {
                self.i += 1;
                self.ident();
                Tok::H
            }
            b'"' => Tok::S(self.quoted()),
            b'c' if b.get(self.i + 1) == Some(&b'"') => {
                self.i += 1;
                Tok::CS(self.quoted())
            }
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.end && (idch(b[self.i]) || b[self.i] == b'+') {
                    self.i += 1
                }
                Tok::N(&self.s[st..self.i])
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => Tok::W(self.ident()),
            c => {
                self.i += 1;
                Tok::P(c)
            }
        }
    }
    /// move to the start of the next token
    fn peek_skip(&mut self) {
        let b = self.s.as_bytes();
        while self.i < self.end && (b[self.i].is_ascii_whitespace() || b[self.i] == b';') {
            if b[self.i] == b';' {
                while self.i < self.end && b[self.i] != b'\n' {
                    self.i += 1
                }
            } else {
                self.i += 1
            }
        }
    }
    fn peek(&mut self) -> Tok<'a> {
        let s = self.i;
        let t = self.next();
        self.i = s;
        t
    }
    fn eat(&mut self, c: u8) -> bool {
        let s = self.i;
        if self.next() == Tok::P(c) {
            return true;
        }
        self.i = s;
        false
    }
    fn expect(&mut self, c: u8) {
        let t = self.next();
        if t != Tok::P(c) {
            panic!("IR: expected {:?}, got {:?} near {:?}", c as char, t, &self.s[self.i.saturating_sub(120)..(self.i + 40).min(self.s.len())])
        }
    }
    /// skip a balanced group; the opening bracket is the next token
    fn skip_group(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') | Tok::P(b'[') | Tok::P(b'{') => d += 1,
                Tok::P(b')') | Tok::P(b']') | Tok::P(b'}') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::End => return,
                _ => {}
            }
        }
    }
}

fn int_ty(w: &str) -> Option<u16> {
    let d = w.strip_prefix('i')?;
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    d.parse().ok()
}

struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    order: Vec<String>,
}
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let i = self.regs.len() as u32;
        self.regs.insert(n.to_string(), i);
        i
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(r) = self.blocks.get(n) {
            return *r;
        }
        let i = self.order.len() as u32;
        self.blocks.insert(n.to_string(), i);
        self.order.push(n.to_string());
        i
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

impl Module {
    pub fn addr(sym: usize) -> u64 {
        ((sym + 1) as u64) << 32
    }
    pub fn load(text: String) -> Module {
        let mut m = Module { text, syms: vec![], names: HashMap::new(), types: HashMap::new(), tycache: Default::default(), funcs: Default::default() };
        let text = std::mem::take(&mut m.text);
        let b = text.as_bytes();
        let mut i = 0;
        // pass over top-level lines
        while i < b.len() {
            let e = text[i..].find('\n').map(|x| i + x).unwrap_or(b.len());
            let line = &text[i..e];
            let mut nexti = e + 1;
            if line.starts_with('%') {
                let mut lx = Lx::new(&text, i, e);
                if let Tok::L(n) = lx.next() {
                    lx.expect(b'=');
                    lx.next(); // type
                    m.types.insert(n.to_string(), (lx.i, e));
                }
            } else if line.starts_with('@') {
                let mut lx = Lx::new(&text, i, e);
                if let Tok::G(n) = lx.next() {
                    lx.expect(b'=');
                    let mut external = false;
                    let kind;
                    loop {
                        match lx.next() {
                            Tok::W("external") | Tok::W("extern_weak") => external = true,
                            Tok::W("thread_local") | Tok::W("addrspace") => {
                                if lx.peek() == Tok::P(b'(') {
                                    lx.skip_group()
                                }
                            }
                            Tok::W("alias") => {
                                kind = Kind::Alias((lx.i, e));
                                break;
                            }
                            Tok::W(w @ "global") | Tok::W(w @ "constant") => {
                                // type is parsed later, when all named types are known
                                kind = Kind::Var(Ty::Other, Some((lx.i, e)), w == "constant");
                                break;
                            }
                            Tok::End => panic!("IR: global {}", line),
                            _ => {}
                        }
                    }
                    let kind = match kind {
                        Kind::Var(t, r, c) if external => Kind::Var(t, r.map(|x| (x.0, 0)), c),
                        k => k,
                    };
                    m.names.insert(n.to_string(), m.syms.len());
                    m.syms.push(Sym { name: n.to_string(), kind });
                }
            } else if line.starts_with("define ") || line.starts_with("declare ") {
                let def = line.starts_with("define ");
                // the function's name is the first @ in the line (return attributes never contain one)
                let at = i + line.find('@').unwrap();
                let mut lx = Lx::new(&text, at, e);
                if let Tok::G(n) = lx.next() {
                    let ps = lx.i;
                    lx.skip_group();
                    let pe = lx.i;
                    let kind = if def {
                        let bs = e + 1;
                        let be = text[bs..].find("\n}").map(|x| bs + x + 1).unwrap();
                        nexti = be + 1;
                        Kind::Def((ps, pe), (bs, be))
                    } else {
                        Kind::Decl
                    };
                    m.names.insert(n.to_string(), m.syms.len());
                    m.syms.push(Sym { name: n.to_string(), kind });
                }
            }
            i = nexti;
        }
        m.text = text;
        // resolve global types
        for k in 0..m.syms.len() {
            if let Kind::Var(_, Some((s, e)), c) = m.syms[k].kind {
                let mut lx = Lx::new(&m.text, s, if e == 0 { m.text.len() } else { e });
                let ty = m.ty(&mut lx);
                let p = lx.i;
                m.syms[k].kind = Kind::Var(ty, if e == 0 { None } else { Some((p, e)) }, c);
            }
        }
        m
    }

    fn ty(&self, lx: &mut Lx) -> Ty {
        match lx.next() {
            Tok::W(w) => {
                if let Some(n) = int_ty(w) {
                    return Ty::Int(n);
                }
                match w {
                    "ptr" => {
                        if lx.peek() == Tok::W("addrspace") {
                            lx.next();
                            lx.skip_group();
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    _ => Ty::Other,
                }
            }
            Tok::L(n) => {
                if let Some(t) = self.tycache.borrow().get(n) {
                    return t.clone();
                }
                let (s, e) = self.types[n];
                let mut l2 = Lx::new(&self.text, s, e);
                let t = self.ty(&mut l2);
                self.tycache.borrow_mut().insert(n.to_string(), t.clone());
                t
            }
            Tok::P(b'[') => {
                let n = self.num(lx) as usize;
                lx.next(); // x
                let t = self.ty(lx);
                lx.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P(b'{') => {
                let v = self.fields(lx);
                Ty::St(Rc::new(v), false)
            }
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let v = self.fields(lx);
                    lx.expect(b'>');
                    return Ty::St(Rc::new(v), true);
                }
                let n = self.num(lx) as usize;
                lx.next();
                let t = self.ty(lx);
                lx.expect(b'>');
                Ty::Vec(n, Rc::new(t))
            }
            t => panic!("IR: type expected, got {:?} near {:?}", t, &lx.s[lx.i.saturating_sub(200)..lx.i]),
        }
    }
    fn fields(&self, lx: &mut Lx) -> Vec<Ty> {
        let mut v = vec![];
        if lx.eat(b'}') {
            return v;
        }
        loop {
            v.push(self.ty(lx));
            if lx.eat(b'}') {
                return v;
            }
            lx.expect(b',');
        }
    }
    fn num(&self, lx: &mut Lx) -> i128 {
        match lx.next() {
            Tok::N(n) => n.parse().unwrap(),
            t => panic!("IR: number expected, got {:?}", t),
        }
    }
    /// skip parameter attributes
    fn attrs(&self, lx: &mut Lx) {
        loop {
            let s = lx.i;
            match lx.next() {
                Tok::W(w) => match w {
                    "null" | "undef" | "poison" | "zeroinitializer" | "true" | "false" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "add" | "sub"
                    | "xor" | "none" => {
                        lx.i = s;
                        return;
                    }
                    "align" => {
                        if lx.peek() == Tok::P(b'(') {
                            lx.skip_group()
                        } else {
                            lx.next();
                        }
                    }
                    "byval" => panic!("IR: byval arguments are not supported"),
                    _ => {
                        if lx.peek() == Tok::P(b'(') {
                            lx.skip_group()
                        }
                    }
                },
                Tok::S(_) => {
                    if lx.eat(b'=') {
                        lx.next();
                    }
                }
                _ => {
                    lx.i = s;
                    return;
                }
            }
        }
    }
    fn value(&self, lx: &mut Lx, ty: &Ty, f: Option<&mut FnCtx>) -> Op {
        let s = lx.i;
        match lx.next() {
            Tok::L(n) => Op::R(f.expect("register in constant").reg(n)),
            _ => {
                lx.i = s;
                Op::K(self.konst(lx, ty))
            }
        }
    }
    fn tval(&self, lx: &mut Lx, f: Option<&mut FnCtx>) -> (Ty, Op) {
        let t = self.ty(lx);
        self.attrs(lx);
        let v = self.value(lx, &t, f);
        (t, v)
    }
    fn sym_addr(&self, n: &str) -> u128 {
        let mut i = *self.names.get(n).unwrap_or_else(|| panic!("IR: unknown symbol {}", n));
        while let Kind::Alias((s, e)) = self.syms[i].kind {
            let mut lx = Lx::new(&self.text, s, e);
            let _ = self.ty(&mut lx);
            lx.expect(b',');
            let _ = self.ty(&mut lx);
            match lx.next() {
                Tok::G(n) => i = self.names[n],
                t => panic!("IR: alias {:?}", t),
            }
        }
        Self::addr(i) as u128
    }
    fn konst(&self, lx: &mut Lx, ty: &Ty) -> V {
        match lx.next() {
            Tok::N(n) => match ty {
                Ty::Int(w) => V::C((n.parse::<i128>().map(|x| x as u128).or_else(|_| n.parse::<u128>()).unwrap()) & mask(*w)),
                Ty::F64 => V::C(if let Some(h) = n.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { n.parse::<f64>().unwrap().to_bits() } as u128),
                Ty::F32 => V::C(if let Some(h) = n.strip_prefix("0x") { (f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32).to_bits() } else { n.parse::<f32>().unwrap().to_bits() } as u128),
                _ => panic!("IR: number {} of type {:?}", n, ty),
            },
            Tok::G(n) => V::C(self.sym_addr(n)),
            Tok::W("null") | Tok::W("undef") | Tok::W("poison") | Tok::W("zeroinitializer") | Tok::W("false") | Tok::W("none") => ty.zero(),
            Tok::W("true") => V::C(1),
            // LLVM 22 and later write floats by their bits
            Tok::W(w) if w.starts_with("f0x") => V::C(u128::from_str_radix(&w[3..], 16).unwrap()),
            Tok::CS(s) => V::A(Rc::new(unescape(s).into_iter().map(|b| V::C(b as u128)).collect())),
            Tok::P(b'{') => self.klist(lx, b'}'),
            Tok::P(b'[') => self.klist(lx, b']'),
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let v = self.klist(lx, b'}');
                    lx.expect(b'>');
                    v
                } else {
                    self.klist(lx, b'>')
                }
            }
            Tok::W("splat") => {
                lx.expect(b'(');
                let v = self.kt(lx).1;
                lx.expect(b')');
                V::A(Rc::new(vec![v; ty.count()]))
            }
            Tok::W("getelementptr") => {
                while let Tok::W(_) = lx.peek() {
                    lx.next();
                    // inrange(a, b) carries a group of its own
                    if lx.s[..lx.i].ends_with("inrange") {
                        lx.skip_group();
                    }
                }
                lx.expect(b'(');
                let et = self.ty(lx);
                lx.expect(b',');
                let base = self.kt(lx).1;
                let mut off = 0i128;
                let mut t = et.clone();
                let mut first = true;
                while lx.eat(b',') {
                    let (it, v) = self.kt(lx);
                    let x = crate::term::sx(cv(&v), it.bits());
                    if first {
                        off += x * et.size() as i128;
                        first = false;
                    } else {
                        off += t.field_off(x as usize) as i128;
                        t = t.elem(x as usize);
                    }
                }
                lx.expect(b')');
                V::C((cv(&base) as i128 + off) as u128 & mask(64))
            }
            Tok::W("inttoptr") | Tok::W("ptrtoint") | Tok::W("bitcast") | Tok::W("zext") | Tok::W("trunc") => {
                lx.expect(b'(');
                let v = self.kt(lx).1;
                lx.next(); // to
                let t = self.ty(lx);
                lx.expect(b')');
                V::C(cv(&v) & mask(t.bits()))
            }
            Tok::W(op @ "add") | Tok::W(op @ "sub") | Tok::W(op @ "xor") | Tok::W(op @ "mul") => {
                while let Tok::W(_) = lx.peek() {
                    lx.next();
                }
                lx.expect(b'(');
                let (t, a) = self.kt(lx);
                lx.expect(b',');
                let (_, b) = self.kt(lx);
                lx.expect(b')');
                let (a, b) = (cv(&a), cv(&b));
                V::C(
                    match op {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        _ => a ^ b,
                    } & mask(t.bits()),
                )
            }
            t => panic!("IR: constant expected, got {:?} near {:?}", t, &lx.s[lx.i.saturating_sub(200)..lx.i]),
        }
    }
    fn kt(&self, lx: &mut Lx) -> (Ty, V) {
        let t = self.ty(lx);
        // `inrange` and friends
        let v = self.konst(lx, &t);
        (t, v)
    }
    fn klist(&self, lx: &mut Lx, end: u8) -> V {
        let mut v = vec![];
        if lx.eat(end) {
            return V::A(Rc::new(v));
        }
        loop {
            v.push(self.kt(lx).1);
            if lx.eat(end) {
                return V::A(Rc::new(v));
            }
            lx.expect(b',');
        }
    }

    pub fn put_bytes(ty: &Ty, v: &V, out: &mut [u8]) {
        match v {
            V::C(c) => {
                let n = ty.store_size();
                out[..n].copy_from_slice(&c.to_le_bytes()[..n]);
            }
            V::A(xs) => {
                for (i, x) in xs.iter().enumerate() {
                    let o = ty.field_off(i);
                    Self::put_bytes(&ty.elem(i), x, &mut out[o..]);
                }
            }
            V::T(_) => unreachable!(),
        }
    }
    /// initial bytes of a global variable
    pub fn init_bytes(&self, sym: usize) -> Option<Vec<u8>> {
        match &self.syms[sym].kind {
            Kind::Var(ty, Some((s, e)), _) => {
                let mut lx = Lx::new(&self.text, *s, *e);
                let v = self.konst(&mut lx, ty);
                let mut b = vec![0u8; ty.size()];
                Self::put_bytes(ty, &v, &mut b);
                Some(b)
            }
            _ => None,
        }
    }

    pub fn func(&self, sym: usize) -> Option<Rc<Func>> {
        if let Some(f) = self.funcs.borrow().get(&sym) {
            return Some(f.clone());
        }
        let f = match self.syms[sym].kind {
            Kind::Def(p, b) => Rc::new(self.parse_func(sym, p, b)),
            Kind::Alias(_) => {
                let t = (self.sym_addr(&self.syms[sym].name) >> 32) as usize - 1;
                return self.func(t);
            }
            _ => return None,
        };
        self.funcs.borrow_mut().insert(sym, f.clone());
        Some(f)
    }

    fn parse_func(&self, sym: usize, p: (usize, usize), b: (usize, usize)) -> Func {
        let mut f = FnCtx { regs: HashMap::new(), blocks: HashMap::new(), order: vec![] };
        let mut lx = Lx::new(&self.text, p.0, p.1);
        lx.expect(b'(');
        let mut np = 0;
        let mut unnamed = 0;
        if !lx.eat(b')') {
            loop {
                if lx.eat(b'.') {
                    break;
                }
                if let Tok::W("...") = lx.peek() {
                    break;
                }
                let _ = self.ty(&mut lx);
                self.attrs(&mut lx);
                match lx.next() {
                    Tok::L(n) => {
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        f.reg(n);
                    }
                    t => panic!("IR: parameter {:?} of {}", t, self.syms[sym].name),
                }
                np += 1;
                if lx.eat(b')') {
                    break;
                }
                lx.expect(b',');
            }
        }
        let mut blocks: HashMap<u32, Block> = HashMap::new();
        let mut cur: Option<(u32, Block)> = None;
        let mut lx = Lx::new(&self.text, b.0, b.1);
        let bytes = self.text.as_bytes();
        loop {
            // label?
            if lx.peek() == Tok::End {
                break;
            }
            let s = lx.i;
            let label: Option<String> = match lx.next() {
                Tok::W(n) | Tok::N(n) | Tok::S(n) if lx.i < lx.end && bytes[lx.i] == b':' => Some(n.to_string()),
                _ => None,
            };
            if let Some(n) = label {
                lx.i += 1;
                if let Some((i, bl)) = cur.take() {
                    blocks.insert(i, bl);
                }
                let i = f.block(&n);
                cur = Some((i, Block { name: n, phis: vec![], ins: vec![] }));
                continue;
            }
            lx.i = s;
            if cur.is_none() {
                let n = format!("{}", unnamed);
                let i = f.block(&n);
                cur = Some((i, Block { name: n, phis: vec![], ins: vec![] }));
            }
            lx.peek_skip();
            let start = lx.i;
            let mut dst = None;
            if let Tok::L(n) = lx.peek() {
                lx.next();
                lx.expect(b'=');
                dst = Some(f.reg(n));
            }
            // the instruction ends at the end of its line, except for switch
            let mut e = lx.i + self.text[lx.i..b.1].find('\n').unwrap_or(b.1 - lx.i);
            if self.text[lx.i..e].trim_start().starts_with("switch ") && self.text[lx.i..e].trim_end().ends_with('[') {
                let close = e + self.text[e..b.1].find(']').unwrap();
                e = close + 1;
            }
            let invoke = self.text[lx.i..e].trim_start().starts_with("invoke ");
            let mut il = Lx::new(&self.text, lx.i, e);
            let blk = &mut cur.as_mut().unwrap().1;
            if let Tok::W("phi") = il.peek() {
                il.next();
                let ty = self.ty(&mut il);
                let mut v = vec![];
                loop {
                    il.expect(b'[');
                    let op = self.value(&mut il, &ty, Some(&mut f));
                    il.expect(b',');
                    match il.next() {
                        Tok::L(n) => v.push((f.block(n), op)),
                        t => panic!("IR: phi {:?}", t),
                    }
                    il.expect(b']');
                    if !il.eat(b',') {
                        break;
                    }
                    if let Tok::M(_) = il.peek() {
                        break;
                    }
                }
                blk.phis.push((dst.unwrap(), v));
            } else {
                let ins = self.inst(&mut il, &mut f, start);
                blk.ins.push((dst, ins));
                if invoke {
                    // panics end the path (panic strategy "abort"), so only the normal edge is taken
                    let rest = &self.text[e..b.1];
                    let k = e + rest.find("to label ").expect("IR: invoke");
                    let n = self.text[k..b.1].find('\n').unwrap_or(b.1 - k);
                    let mut il = Lx::new(&self.text, k + 3, k + n);
                    let t = self.label(&mut il, &mut f);
                    cur.as_mut().unwrap().1.ins.push((None, I::Br(t)));
                    e = k + n;
                }
            }
            // to end of line
            lx.i = e + self.text[e..].find('\n').unwrap_or(0);
        }
        if let Some((i, bl)) = cur.take() {
            blocks.insert(i, bl);
        }
        let n = f.order.len();
        let mut v = vec![];
        for i in 0..n {
            v.push(blocks.remove(&(i as u32)).unwrap_or_else(|| panic!("IR: missing block {} in {}", f.order[i], self.syms[sym].name)));
        }
        // blocks are numbered by first mention: the entry block is the first defined one, index 0
        Func { name: self.syms[sym].name.clone(), sym, nparams: np, nregs: f.regs.len(), blocks: v }
    }

    fn label(&self, lx: &mut Lx, f: &mut FnCtx) -> u32 {
        let t = lx.next();
        if t != Tok::W("label") {
            panic!("IR: label expected, got {:?}", t)
        }
        match lx.next() {
            Tok::L(n) => f.block(n),
            t => panic!("IR: label name {:?}", t),
        }
    }

    fn inst(&self, lx: &mut Lx, f: &mut FnCtx, start: usize) -> I {
        let op = match lx.next() {
            Tok::W(w) => w,
            t => panic!("IR: instruction {:?} near {:?}", t, &self.text[start..(start + 80).min(self.text.len())]),
        };
        let bin = |o: BinOp, lx: &mut Lx, f: &mut FnCtx| {
            loop {
                match lx.peek() {
                    Tok::W("nuw") | Tok::W("nsw") | Tok::W("exact") | Tok::W("disjoint") | Tok::W("fast") | Tok::W("nnan") | Tok::W("ninf") | Tok::W("nsz") | Tok::W("arcp") | Tok::W("contract")
                    | Tok::W("afn") | Tok::W("reassoc") => {
                        lx.next();
                    }
                    _ => break,
                }
            }
            let t = self.ty(lx);
            let a = self.value(lx, &t, Some(f));
            lx.expect(b',');
            let b = self.value(lx, &t, Some(f));
            I::Bin(o, t, a, b)
        };
        use BinOp::*;
        match op {
            "add" => bin(Add, lx, f),
            "sub" => bin(Sub, lx, f),
            "mul" => bin(Mul, lx, f),
            "udiv" => bin(Udiv, lx, f),
            "urem" => bin(Urem, lx, f),
            "sdiv" => bin(Sdiv, lx, f),
            "srem" => bin(Srem, lx, f),
            "shl" => bin(Shl, lx, f),
            "lshr" => bin(Lshr, lx, f),
            "ashr" => bin(Ashr, lx, f),
            "and" => bin(And, lx, f),
            "or" => bin(Or, lx, f),
            "xor" => bin(Xor, lx, f),
            "fadd" => bin(FAdd, lx, f),
            "fsub" => bin(FSub, lx, f),
            "fmul" => bin(FMul, lx, f),
            "fdiv" => bin(FDiv, lx, f),
            "frem" => bin(FRem, lx, f),
            "icmp" | "fcmp" => {
                let mut pred = "";
                loop {
                    let s = lx.i;
                    match lx.next() {
                        Tok::W("samesign") | Tok::W("fast") | Tok::W("nnan") | Tok::W("ninf") | Tok::W("nsz") | Tok::W("arcp") | Tok::W("contract") | Tok::W("afn") | Tok::W("reassoc") => {}
                        Tok::W(w) if pred.is_empty() => pred = w,
                        _ => {
                            lx.i = s;
                            break;
                        }
                    }
                    if !pred.is_empty() {
                        break;
                    }
                }
                let t = self.ty(lx);
                let a = self.value(lx, &t, Some(f));
                lx.expect(b',');
                let b = self.value(lx, &t, Some(f));
                if op == "icmp" {
                    I::Icmp(pred.into(), t, a, b)
                } else {
                    I::Fcmp(pred.into(), t, a, b)
                }
            }
            "fneg" => {
                let t = self.ty(lx);
                let a = self.value(lx, &t, Some(f));
                I::FNeg(t, a)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" => {
                loop {
                    match lx.peek() {
                        Tok::W("nuw") | Tok::W("nsw") | Tok::W("nneg") | Tok::W("fast") => {
                            lx.next();
                        }
                        _ => break,
                    }
                }
                let t = self.ty(lx);
                let a = self.value(lx, &t, Some(f));
                lx.next(); // to
                let t2 = self.ty(lx);
                I::Cast(op.into(), t, t2, a)
            }
            "load" => {
                while let Tok::W("atomic") | Tok::W("volatile") = lx.peek() {
                    lx.next();
                }
                let t = self.ty(lx);
                lx.expect(b',');
                let (_, p) = self.tval(lx, Some(f));
                I::Load(t, p)
            }
            "store" => {
                while let Tok::W("atomic") | Tok::W("volatile") = lx.peek() {
                    lx.next();
                }
                let (t, v) = self.tval(lx, Some(f));
                lx.expect(b',');
                let (_, p) = self.tval(lx, Some(f));
                I::Store(t, v, p)
            }
            "getelementptr" => {
                loop {
                    match lx.peek() {
                        Tok::W("inbounds") | Tok::W("nuw") | Tok::W("nusw") => {
                            lx.next();
                        }
                        Tok::W("inrange") => {
                            lx.next();
                            lx.skip_group();
                        }
                        _ => break,
                    }
                }
                let et = self.ty(lx);
                lx.expect(b',');
                let (_, base) = self.tval(lx, Some(f));
                let mut t = et.clone();
                let mut first = true;
                let mut koff = 0i128;
                let mut dynv = vec![];
                while lx.eat(b',') {
                    if let Tok::M(_) = lx.peek() {
                        break;
                    }
                    let (it, v) = self.tval(lx, Some(f));
                    let (stride, struct_) = if first { (et.size(), false) } else { (t.elem(0).size(), matches!(t, Ty::St(..))) };
                    match v {
                        Op::K(V::C(c)) => {
                            let x = crate::term::sx(c, it.bits());
                            if first {
                                koff += x * stride as i128
                            } else if struct_ {
                                koff += t.field_off(x as usize) as i128;
                            } else {
                                koff += x * stride as i128;
                            }
                            if !first {
                                t = t.elem(if struct_ { x as usize } else { 0 });
                            }
                        }
                        v => {
                            dynv.push((v, it.bits(), stride as u64));
                            if !first {
                                t = t.elem(0)
                            }
                        }
                    }
                    first = false;
                }
                I::Gep(base, koff, dynv)
            }
            "alloca" => {
                let t = self.ty(lx);
                let mut n = 1usize;
                while lx.eat(b',') {
                    match lx.peek() {
                        Tok::W("align") => {
                            lx.next();
                            lx.next();
                        }
                        Tok::M(_) => break,
                        _ => {
                            if let (_, Op::K(V::C(c))) = self.tval(lx, Some(f)) {
                                n = c as usize
                            } else {
                                return I::Unsupported("dynamic alloca".into());
                            }
                        }
                    }
                }
                I::Alloca(t.size() * n)
            }
            "select" => {
                while let Tok::W("fast") | Tok::W("nnan") | Tok::W("nsz") | Tok::W("ninf") = lx.peek() {
                    lx.next();
                }
                let (ct, c) = self.tval(lx, Some(f));
                lx.expect(b',');
                let (t, a) = self.tval(lx, Some(f));
                lx.expect(b',');
                let (_, b) = self.tval(lx, Some(f));
                I::Select(c, ct.is_agg(), t, a, b)
            }
            "extractvalue" => {
                let (_, a) = self.tval(lx, Some(f));
                let mut v = vec![];
                while lx.eat(b',') {
                    if let Tok::M(_) = lx.peek() {
                        break;
                    }
                    v.push(self.num(lx) as usize);
                }
                I::ExtractValue(a, v)
            }
            "insertvalue" => {
                let (_, a) = self.tval(lx, Some(f));
                lx.expect(b',');
                let (_, b) = self.tval(lx, Some(f));
                let mut v = vec![];
                while lx.eat(b',') {
                    if let Tok::M(_) = lx.peek() {
                        break;
                    }
                    v.push(self.num(lx) as usize);
                }
                I::InsertValue(a, b, v)
            }
            "extractelement" => {
                let (_, a) = self.tval(lx, Some(f));
                lx.expect(b',');
                let (_, b) = self.tval(lx, Some(f));
                I::ExtractElement(a, b)
            }
            "insertelement" => {
                let (_, a) = self.tval(lx, Some(f));
                lx.expect(b',');
                let (_, b) = self.tval(lx, Some(f));
                lx.expect(b',');
                let (_, c) = self.tval(lx, Some(f));
                I::InsertElement(a, b, c)
            }
            "shufflevector" => {
                let (t, a) = self.tval(lx, Some(f));
                lx.expect(b',');
                let (_, b) = self.tval(lx, Some(f));
                lx.expect(b',');
                // mask: elements may be poison
                let mt = self.ty(lx);
                let mut m = vec![];
                match lx.next() {
                    Tok::W("zeroinitializer") => m = vec![Some(0); mt.count()],
                    Tok::W("poison") | Tok::W("undef") => m = vec![None; mt.count()],
                    Tok::W("splat") => {
                        lx.expect(b'(');
                        let v = self.kt(lx).1;
                        lx.expect(b')');
                        m = vec![Some(cv(&v) as usize); mt.count()];
                    }
                    _ => loop {
                        let _ = self.ty(lx);
                        match lx.next() {
                            Tok::N(n) => m.push(Some(n.parse().unwrap())),
                            _ => m.push(None),
                        }
                        if !lx.eat(b',') {
                            break;
                        }
                    },
                }
                I::Shuffle(a, b, t.count(), m)
            }
            "freeze" => {
                let (_, a) = self.tval(lx, Some(f));
                I::Freeze(a)
            }
            "fence" => I::Fence,
            "atomicrmw" => {
                if let Tok::W("volatile") = lx.peek() {
                    lx.next();
                }
                let o = match lx.next() {
                    Tok::W(w) => w,
                    t => panic!("IR: rmw {:?}", t),
                };
                let (_, p) = self.tval(lx, Some(f));
                lx.expect(b',');
                let (t, v) = self.tval(lx, Some(f));
                I::Rmw(o.into(), t, p, v)
            }
            "cmpxchg" => {
                while let Tok::W("weak") | Tok::W("volatile") = lx.peek() {
                    lx.next();
                }
                let (_, p) = self.tval(lx, Some(f));
                lx.expect(b',');
                let (t, a) = self.tval(lx, Some(f));
                lx.expect(b',');
                let (_, b) = self.tval(lx, Some(f));
                I::CmpXchg(t, p, a, b)
            }
            "br" => {
                if let Tok::W("label") = lx.peek() {
                    return I::Br(self.label(lx, f));
                }
                let (_, c) = self.tval(lx, Some(f));
                lx.expect(b',');
                let a = self.label(lx, f);
                lx.expect(b',');
                let b = self.label(lx, f);
                I::CondBr(c, a, b)
            }
            "switch" => {
                let (t, v) = self.tval(lx, Some(f));
                lx.expect(b',');
                let d = self.label(lx, f);
                lx.expect(b'[');
                let mut cs = vec![];
                while !lx.eat(b']') {
                    let (_, k) = self.kt(lx);
                    lx.expect(b',');
                    let b = self.label(lx, f);
                    cs.push((cv(&k), b));
                }
                I::Switch(t, v, d, cs)
            }
            "ret" => {
                if let Tok::W("void") = lx.peek() {
                    return I::Ret(None);
                }
                I::Ret(Some(self.tval(lx, Some(f)).1))
            }
            "unreachable" => I::Unreachable,
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    lx.next();
                }
                // calling convention and return attributes
                let rt = loop {
                    let s = lx.i;
                    match lx.next() {
                        Tok::W(w) => {
                            if int_ty(w).is_some() || matches!(w, "void" | "ptr" | "float" | "double") {
                                lx.i = s;
                                break self.ty(lx);
                            }
                            if w == "align" {
                                lx.next();
                            } else if lx.peek() == Tok::P(b'(') {
                                lx.skip_group()
                            }
                        }
                        Tok::L(_) | Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => {
                            lx.i = s;
                            break self.ty(lx);
                        }
                        Tok::N(_) => {}
                        t => panic!("IR: call {:?} near {:?}", t, &self.text[start..lx.i]),
                    }
                };
                if lx.peek() == Tok::P(b'(') {
                    lx.skip_group(); // function type of a variadic callee
                }
                let callee = match lx.next() {
                    Tok::G(n) => {
                        let a = self.sym_addr(n);
                        Callee::Sym((a >> 32) as usize - 1)
                    }
                    Tok::L(n) => Callee::Ind(Op::R(f.reg(n))),
                    Tok::W("asm") => {
                        return I::Unsupported(format!("inline asm {}", &self.text[start..lx.end.min(start + 200)]));
                    }
                    t => panic!("IR: callee {:?} near {:?}", t, &self.text[start..lx.i]),
                };
                lx.expect(b'(');
                let mut args = vec![];
                if !lx.eat(b')') {
                    loop {
                        if let Tok::W("metadata") = lx.peek() {
                            lx.next();
                            // metadata argument
                            loop {
                                match lx.peek() {
                                    Tok::P(b',') | Tok::P(b')') | Tok::End => break,
                                    Tok::P(b'{') | Tok::P(b'(') => lx.skip_group(),
                                    _ => {
                                        lx.next();
                                    }
                                }
                            }
                            args.push((Ty::Other, Op::K(V::C(0))));
                        } else {
                            args.push(self.tval(lx, Some(f)));
                        }
                        if lx.eat(b')') {
                            break;
                        }
                        lx.expect(b',');
                    }
                }
                I::Call(rt, callee, args)
            }
            x => I::Unsupported(x.to_string()),
        }
    }
}

pub fn cv(v: &V) -> u128 {
    match v {
        V::C(c) => *c,
        _ => panic!("IR: constant scalar expected"),
    }
}
