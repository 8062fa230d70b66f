//! Symbolic execution of the linked IR: every feasible path within the limits is followed,
//! assertions are handed to the solver under the path condition.
use crate::poly::{self, Poly};
use crate::ir::*;
use crate::solver::*;
use crate::sweep;
use crate::term::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum ObjKind {
    Global,
    Const,
    Heap,
    Stack,
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// empty when every byte is concrete; otherwise 0 marks a concrete byte
    pub sym: Vec<T>,
    pub kind: ObjKind,
}

pub struct Mdl {
    pub vals: FxMap<u32, u128>,
    pub reals: FxMap<u32, (String, String)>,
    memo: RefCell<FxMap<T, u128>>,
    /// nodes whose value cannot be derived from the model (reals, unlisted applications)
    undef: RefCell<FxMap<T, ()>>,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub blk: u32,
    pub prev: u32,
    pub ip: usize,
    pub regs: Vec<V>,
    pub ret: Option<u32>,
    pub allocas: Vec<u32>,
}

#[derive(Clone, Debug)]
pub enum Input {
    Bv(u16, V),
    Real(T),
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: FxMap<u32, Rc<Obj>>,
    pub pc: Vec<T>,
    pub known: FxMap<T, bool>,
    pub model: Rc<Mdl>,
    pub nextobj: u32,
    pub steps: u64,
    pub inputs: Vec<Input>,
    pub allow_panic: Option<T>,
    pub trace: Vec<(V, u16)>,
    pub asserts: u64,
    pub depth: u32,
}

#[derive(Debug)]
pub enum Stop {
    /// the path ends here, nothing wrong
    Done(&'static str),
    /// the code under test misbehaves on this path (message)
    Bad(String),
    /// this path, or the run, cannot be decided
    Inconclusive(String),
}

#[derive(Clone)]
pub struct Opts {
    pub params: Vec<u64>,
    pub max_paths: u64,
    pub max_steps: u64,
    pub max_total: u64,
    pub time_ms: u64,
    /// fixed inputs for concrete runs (translator validation)
    pub concrete: Option<Vec<u128>>,
    pub max_viol: usize,
    pub ite_addr: usize,
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<String>,
    pub stack: Vec<String>,
    pub confirmed: bool,
}

pub struct Exec {
    pub m: Rc<Module>,
    pub a: Arena,
    pub s: Solver,
    pub o: Opts,
    work: Vec<State>,
    pub violations: Vec<Violation>,
    pub inconclusive: Vec<String>,
    pub paths: u64,
    pub paths_panic: u64,
    pub paths_killed: u64,
    pub steps: u64,
    pub asserts: u64,
    pub obligations: u64,
    pub funcs: BTreeSet<usize>,
    pub reached: BTreeMap<String, u64>,
    pub sweep: sweep::Stats,
    pub input_vars: FxMap<(usize, u16, Option<u128>), T>,
    pub traces: Vec<(Vec<String>, Vec<String>)>,
    builtins: FxMap<usize, Option<Rc<str>>>,
    t0: Instant,
    reals: Vec<Rc<Poly>>,
    realmap: FxMap<Rc<Poly>, u32>,
    open: FxMap<Poly, T>,
    pub forks: u64,
}

type R<X> = Result<X, Stop>;

fn bad<X>(m: impl Into<String>) -> R<X> {
    Err(Stop::Bad(m.into()))
}
fn inc<X>(m: impl Into<String>) -> R<X> {
    Err(Stop::Inconclusive(m.into()))
}

/// readable path from a mangled (v0) symbol
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1
            }
            if j < b.len() && b[j] == b'_' && j > i {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1
            }
            let k: usize = n[i..j].parse().unwrap_or(0);
            let mut s = j;
            if s < b.len() && b[s] == b'_' {
                s += 1
            }
            if k > 0 && s + k <= b.len() {
                out.push(n[s..s + k].to_string());
                i = s + k;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

impl Mdl {
    pub fn empty() -> Mdl {
        Mdl { vals: Default::default(), reals: Default::default(), memo: Default::default(), undef: Default::default() }
    }
    pub fn from(m: Model) -> Mdl {
        let r = Mdl::empty();
        let mut vals: FxMap<u32, u128> = Default::default();
        let mut reals: FxMap<u32, (String, String)> = Default::default();
        {
            let mut memo = r.memo.borrow_mut();
            for (k, v) in m {
                match v {
                    Mv::B(x) => {
                        if k & UF_KEY != 0 {
                            memo.insert(k & !UF_KEY, x);
                        } else {
                            vals.insert(k, x);
                        }
                    }
                    Mv::R(n, d) => {
                        reals.insert(k, (n, d));
                    }
                }
            }
        }
        Mdl { vals, reals, memo: r.memo, undef: r.undef }
    }
    /// value of a term under the model (variables the model does not mention are 0)
    pub fn eval(&self, a: &Arena, t: T) -> Option<u128> {
        if let N::C(v) = a.node(t) {
            return Some(*v);
        }
        if let Some(v) = self.memo.borrow().get(&t) {
            return Some(*v);
        }
        if self.undef.borrow().contains_key(&t) {
            return None;
        }
        // nodes not yet memoised, in topological order
        let mut seen: FxMap<T, ()> = Default::default();
        let mut st = vec![t];
        let mut ch = vec![];
        {
            let memo = self.memo.borrow();
            let undef = self.undef.borrow();
            while let Some(x) = st.pop() {
                if memo.contains_key(&x) || undef.contains_key(&x) || seen.insert(x, ()).is_some() {
                    continue;
                }
                ch.clear();
                a.children(x, &mut ch);
                st.extend(ch.iter());
            }
        }
        let mut order: Vec<T> = seen.keys().copied().collect();
        order.sort();
        let mut memo = self.memo.borrow_mut();
        let mut undef = self.undef.borrow_mut();
        a.eval_into(&order, &mut memo, &|i| self.vals.get(&i).copied().unwrap_or(0), &|_, _, _| None);
        for x in order {
            if !memo.contains_key(&x) {
                undef.insert(x, ());
            }
        }
        memo.get(&t).copied()
    }
}

impl Exec {
    pub fn new(m: Rc<Module>, o: Opts, quick_ms: u64, long_ms: u64) -> Exec {
        Exec {
            m,
            a: Arena::new(),
            s: Solver::new(quick_ms, long_ms),
            o,
            work: vec![],
            violations: vec![],
            inconclusive: vec![],
            paths: 0,
            paths_panic: 0,
            paths_killed: 0,
            steps: 0,
            asserts: 0,
            obligations: 0,
            funcs: Default::default(),
            reached: Default::default(),
            sweep: Default::default(),
            input_vars: Default::default(),
            traces: vec![],
            builtins: Default::default(),
            t0: Instant::now(),
            reals: vec![],
            realmap: Default::default(),
            open: Default::default(),
            forks: 0,
        }
    }

    // ------------------------------------------------------------ terms of values
    fn t(&mut self, v: &V, w: u16) -> T {
        match v {
            V::C(c) => self.a.c(w, *c),
            V::T(t) => *t,
            V::A(_) => panic!("aggregate used as a scalar"),
        }
    }
    fn v(&self, t: T) -> V {
        match self.a.as_c(t) {
            Some(c) => V::C(c),
            None => V::T(t),
        }
    }

    // ------------------------------------------------------------ decisions
    fn query(&mut self, st: &State, extra: &[T]) -> Res {
        let r = self.s.check(&self.a, &st.pc, extra);
        r
    }
    fn need_model(&mut self, st: &mut State) -> R<()> {
        match self.query(st, &[]) {
            Res::Sat(m) => {
                st.model = Rc::new(Mdl::from(m));
                Ok(())
            }
            Res::Unsat => Err(Stop::Done("infeasible")),
            Res::Unknown(e) => inc(format!("path condition undecided: {}", e)),
        }
    }
    fn look(&self, st: &State, c: T) -> Option<bool> {
        st.known.get(&c).copied()
    }
    fn learn(&mut self, st: &mut State, c: T, v: bool) {
        st.known.insert(c, v);
        let n = self.a.not(c);
        st.known.insert(n, !v);
        let pos = if v { c } else { n };
        if let N::And(ts) = self.a.node(pos).clone() {
            for x in ts.iter() {
                if st.known.get(x).is_none() {
                    self.learn(st, *x, true)
                }
            }
        }
    }
    fn push_pc(&mut self, st: &mut State, c: T) {
        if self.a.as_c(c) == Some(1) {
            return;
        }
        self.learn(st, c, true);
        st.pc.push(c);
    }
    /// Truth of `c` on this path. When both values are possible the other one is queued as a
    /// state that re-executes the current instruction.
    fn decide(&mut self, st: &mut State, c: T) -> R<bool> {
        if let Some(v) = self.a.as_c(c) {
            return Ok(v == 1);
        }
        if let Some(v) = self.look(st, c) {
            return Ok(v);
        }
        let nc = self.a.not(c);
        let side = match st.model.eval(&self.a, c) {
            Some(v) => v == 1,
            None => match self.query(st, &[c]) {
                Res::Sat(m) => {
                    st.model = Rc::new(Mdl::from(m));
                    true
                }
                Res::Unsat => {
                    self.learn(st, c, false);
                    return Ok(false);
                }
                Res::Unknown(e) => return inc(format!("branch undecided: {}", e)),
            },
        };
        let (this, other) = if side { (c, nc) } else { (nc, c) };
        match self.query(st, &[other]) {
            Res::Sat(m) => {
                let mut o = st.clone();
                o.model = Rc::new(Mdl::from(m));
                o.depth += 1;
                st.depth += 1;
                self.push_pc(&mut o, other);
                self.work.push(o);
                self.forks += 1;
                self.push_pc(st, this);
            }
            Res::Unsat => self.learn(st, this, true),
            Res::Unknown(e) => return inc(format!("branch undecided: {}", e)),
        }
        Ok(side)
    }
    fn assume(&mut self, st: &mut State, c: T) -> R<()> {
        if let Some(v) = self.a.as_c(c) {
            return if v == 1 { Ok(()) } else { Err(Stop::Done("assume")) };
        }
        match self.look(st, c) {
            Some(true) => return Ok(()),
            Some(false) => return Err(Stop::Done("assume")),
            None => {}
        }
        if st.model.eval(&self.a, c) != Some(1) {
            match self.query(st, &[c]) {
                Res::Sat(m) => st.model = Rc::new(Mdl::from(m)),
                Res::Unsat => return Err(Stop::Done("assume")),
                Res::Unknown(e) => return inc(format!("assumption undecided: {}", e)),
            }
        }
        self.push_pc(st, c);
        Ok(())
    }
    /// One concrete value of the term on this path; other values are queued.
    fn concretize(&mut self, st: &mut State, v: &V, w: u16) -> R<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::T(t) => {
                let x = loop {
                    if let Some(x) = st.model.eval(&self.a, *t) {
                        break x;
                    }
                    self.need_model(st)?;
                    if st.model.eval(&self.a, *t).is_none() {
                        // make the term known to the solver
                        let fresh = self.a.var(w, "k");
                        let e = self.a.eq(fresh, *t);
                        match self.query(st, &[e]) {
                            Res::Sat(m) => st.model = Rc::new(Mdl::from(m)),
                            _ => return inc("cannot concretise"),
                        }
                        if st.model.eval(&self.a, *t).is_none() {
                            return inc("cannot concretise");
                        }
                    }
                };
                let k = self.a.c(w, x);
                let e = self.a.eq(*t, k);
                // the model makes this true
                self.decide(st, e)?;
                Ok(x)
            }
            V::A(_) => inc("aggregate address"),
        }
    }

    /// The assertion `goal` on this path.
    fn prove(&mut self, st: &mut State, goal: T, msg: &str) -> R<()> {
        self.asserts += 1;
        st.asserts += 1;
        if let Some(v) = self.a.as_c(goal) {
            return if v == 1 { Ok(()) } else { bad(format!("assertion failed: {}", msg)) };
        }
        if let Some(v) = self.look(st, goal) {
            return if v { Ok(()) } else { bad(format!("assertion failed: {}", msg)) };
        }
        if st.model.eval(&self.a, goal) == Some(0) {
            return bad(format!("assertion failed: {}", msg));
        }
        self.obligations += 1;
        let ng = self.a.not(goal);
        let big = self.a.cone_exceeds(goal, 400);
        if big {
            match sweep::prove(&mut self.a, &mut self.s, &st.pc, goal, &st.model.vals, &mut self.sweep, self.t0, self.o.time_ms) {
                sweep::Out::Valid => {
                    self.learn(st, goal, true);
                    return Ok(());
                }
                sweep::Out::Cex(m) => {
                    st.model = Rc::new(Mdl::from(m));
                    return bad(format!("assertion failed: {}", msg));
                }
                sweep::Out::Unknown(e) => {
                    if std::env::var("JSYM_DEBUG").is_ok() {
                        eprintln!("sweep gave up: {}", e);
                    }
                }
            }
        }
        match self.query(st, &[ng]) {
            Res::Sat(m) => {
                st.model = Rc::new(Mdl::from(m));
                st.pc.push(ng);
                bad(format!("assertion failed: {}", msg))
            }
            Res::Unsat => {
                self.learn(st, goal, true);
                Ok(())
            }
            Res::Unknown(e) => inc(format!("assertion undecided ({}): {}", e, msg)),
        }
    }

    // ------------------------------------------------------------ memory
    fn obj<'a>(&self, st: &'a mut State, id: u32) -> R<&'a mut Rc<Obj>> {
        if !st.mem.contains_key(&id) {
            let si = id as usize;
            if si >= 1 && si <= self.m.syms.len() {
                match &self.m.syms[si - 1].kind {
                    Kind::Var(_, _, c) => {
                        let data = match self.m.init_bytes(si - 1) {
                            Some(d) => d,
                            None => {
                                let n = &self.m.syms[si - 1].name;
                                if n == "environ" || n == "__environ" {
                                    vec![0; 8]
                                } else {
                                    return inc(format!("access to external data {}", n));
                                }
                            }
                        };
                        let kind = if *c { ObjKind::Const } else { ObjKind::Global };
                        st.mem.insert(id, Rc::new(Obj { data, sym: vec![], kind }));
                    }
                    _ => return bad(format!("memory access to code {}", self.m.syms[si - 1].name)),
                }
            } else {
                return bad(format!("invalid memory access (object {:#x} is not live)", id));
            }
        }
        Ok(st.mem.get_mut(&id).unwrap())
    }
    fn read<'a>(&self, st: &'a mut State, addr: u64, n: usize) -> R<(&'a Obj, usize)> {
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.obj(st, (addr >> 32) as u32)?;
        if off + n > o.data.len() {
            return bad(format!("out-of-bounds read of {} bytes at {:#x} (object size {})", n, addr, o.data.len()));
        }
        Ok((&**o, off))
    }
    fn write<'a>(&self, st: &'a mut State, addr: u64, n: usize) -> R<(&'a mut Obj, usize)> {
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.obj(st, (addr >> 32) as u32)?;
        if off + n > o.data.len() {
            return bad(format!("out-of-bounds write of {} bytes at {:#x} (object size {})", n, addr, o.data.len()));
        }
        if o.kind == ObjKind::Const {
            return bad("write to constant memory");
        }
        Ok((Rc::make_mut(o), off))
    }
    fn new_obj(&mut self, st: &mut State, n: usize, kind: ObjKind, fill: u8) -> u64 {
        let id = st.nextobj;
        st.nextobj += 1;
        st.mem.insert(id, Rc::new(Obj { data: vec![fill; n], sym: vec![], kind }));
        (id as u64) << 32
    }
    fn load_bytes(&mut self, st: &mut State, addr: u64, n: usize) -> R<V> {
        if n == 0 {
            return Ok(V::C(0));
        }
        let (o, off) = self.read(st, addr, n)?;
        let any = !o.sym.is_empty() && o.sym[off..off + n].iter().any(|x| *x != 0);
        if !any {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(V::C(u128::from_le_bytes(b)));
        }
        let mut parts: Vec<Result<T, (u16, u128)>> = vec![];
        for i in (0..n).rev() {
            let s = o.sym[off + i];
            if s != 0 {
                parts.push(Ok(s))
            } else {
                let d = o.data[off + i] as u128;
                if let Some(Err(l)) = parts.last_mut() {
                    l.0 += 8;
                    l.1 = (l.1 << 8) | d;
                } else {
                    parts.push(Err((8, d)))
                }
            }
        }
        let ts: Vec<T> = parts
            .into_iter()
            .map(|p| match p {
                Ok(t) => t,
                Err((w, c)) => self.a.c(w, c),
            })
            .collect();
        let t = if ts.len() == 1 { ts[0] } else { self.a.cat(ts) };
        Ok(self.v(t))
    }
    fn store_bytes(&mut self, st: &mut State, addr: u64, n: usize, v: &V) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        match v {
            V::C(c) => {
                let (o, off) = self.write(st, addr, n)?;
                o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                if !o.sym.is_empty() {
                    for x in &mut o.sym[off..off + n] {
                        *x = 0
                    }
                }
            }
            V::T(t) => {
                let mut bs = vec![];
                for i in 0..n {
                    bs.push(if n == 1 { *t } else { self.a.ext(*t, (8 * i) as u16, 8) });
                }
                let cs: Vec<Option<u128>> = bs.iter().map(|b| self.a.as_c(*b)).collect();
                let (o, off) = self.write(st, addr, n)?;
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                for i in 0..n {
                    match cs[i] {
                        Some(c) => {
                            o.data[off + i] = c as u8;
                            o.sym[off + i] = 0;
                        }
                        None => o.sym[off + i] = bs[i],
                    }
                }
            }
            V::A(_) => return inc("aggregate store"),
        }
        Ok(())
    }
    fn load(&mut self, st: &mut State, ty: &Ty, addr: u64) -> R<V> {
        if ty.is_agg() {
            if let Ty::Vec(n, e) = ty {
                if **e == Ty::Int(1) {
                    let v = self.load_bytes(st, addr, (n + 7) / 8)?;
                    let w = ((n + 7) / 8 * 8) as u16;
                    let t = self.t(&v, w);
                    return Ok(V::A(Rc::new(
                        (0..*n)
                            .map(|i| {
                                let x = self.a.ext(t, i as u16, 1);
                                self.v(x)
                            })
                            .collect(),
                    )));
                }
            }
            let mut v = vec![];
            for i in 0..ty.count() {
                v.push(self.load(st, &ty.elem(i), addr + ty.field_off(i) as u64)?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        let n = ty.store_size();
        let v = self.load_bytes(st, addr, n)?;
        let w = ty.bits();
        if w as usize == 8 * n {
            return Ok(v);
        }
        match v {
            V::C(c) => Ok(V::C(c & mask(w))),
            V::T(t) => {
                let x = self.a.ext(t, 0, w);
                Ok(self.v(x))
            }
            v => Ok(v),
        }
    }
    fn store(&mut self, st: &mut State, ty: &Ty, v: &V, addr: u64) -> R<()> {
        if let V::A(xs) = v {
            if let Ty::Vec(n, e) = ty {
                if **e == Ty::Int(1) {
                    let mut parts = vec![];
                    for x in xs.iter().rev() {
                        parts.push(self.t(x, 1));
                    }
                    let pad = (n + 7) / 8 * 8 - n;
                    if pad > 0 {
                        let z = self.a.c(pad as u16, 0);
                        parts.insert(0, z);
                    }
                    let t = self.a.cat(parts);
                    let v = self.v(t);
                    return self.store_bytes(st, addr, (n + 7) / 8, &v);
                }
            }
            for (i, x) in xs.iter().enumerate() {
                self.store(st, &ty.elem(i), x, addr + ty.field_off(i) as u64)?;
            }
            return Ok(());
        }
        let n = ty.store_size();
        let w = ty.bits();
        if w as usize == 8 * n {
            return self.store_bytes(st, addr, n, v);
        }
        match v {
            V::T(t) => {
                let z = self.a.zext(*t, 8 * n as u16);
                let v = self.v(z);
                self.store_bytes(st, addr, n, &v)
            }
            v => self.store_bytes(st, addr, n, v),
        }
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.read(st, src, n)?;
        let d = o.data[off..off + n].to_vec();
        let s = if !o.sym.is_empty() && o.sym[off..off + n].iter().any(|x| *x != 0) { o.sym[off..off + n].to_vec() } else { vec![] };
        let (o, off) = self.write(st, dst, n)?;
        o.data[off..off + n].copy_from_slice(&d);
        if !s.is_empty() {
            if o.sym.is_empty() {
                o.sym = vec![0; o.data.len()]
            }
            o.sym[off..off + n].copy_from_slice(&s);
        } else if !o.sym.is_empty() {
            for x in &mut o.sym[off..off + n] {
                *x = 0
            }
        }
        Ok(())
    }
    /// the bytes of a region as terms or constants
    fn region(&mut self, st: &mut State, addr: u64, n: usize) -> R<Vec<V>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off) = self.read(st, addr, n)?;
        Ok((0..n)
            .map(|i| {
                if !o.sym.is_empty() && o.sym[off + i] != 0 {
                    V::T(o.sym[off + i])
                } else {
                    V::C(o.data[off + i] as u128)
                }
            })
            .collect())
    }
    fn cstr(&mut self, st: &mut State, addr: u64, n: usize) -> String {
        match self.region(st, addr, n) {
            Ok(v) => v.iter().map(|b| if let V::C(c) = b { *c as u8 as char } else { '?' }).collect(),
            Err(_) => "?".into(),
        }
    }
    /// conjunction of byte-wise equality, compared in wide chunks
    fn bytes_eq(&mut self, x: &[V], y: &[V]) -> T {
        let mut r = self.a.bool_c(true);
        let mut i = 0;
        while i < x.len() {
            let n = (x.len() - i).min(8);
            let mut p = vec![];
            let mut q = vec![];
            for j in (i..i + n).rev() {
                p.push(self.t(&x[j], 8));
                q.push(self.t(&y[j], 8));
            }
            let a = self.a.cat(p);
            let b = self.a.cat(q);
            let e = self.a.eq(a, b);
            r = self.a.and(r, e);
            i += n;
        }
        r
    }

    // ------------------------------------------------------------ arithmetic
    fn bin(&mut self, st: &mut State, op: BinOp, ty: &Ty, x: &V, y: &V) -> R<V> {
        if let Ty::Vec(n, e) = ty {
            if let (V::A(p), V::A(q)) = (x, y) {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.bin(st, op, e, &p[i], &q[i])?);
                }
                return Ok(V::A(Rc::new(v)));
            }
        }
        let w = ty.bits();
        use BinOp::*;
        if matches!(op, FAdd | FSub | FMul | FDiv | FRem) {
            let (a, b) = (self.concretize(st, x, w)?, self.concretize(st, y, w)?);
            return Ok(V::C(if w == 64 {
                let (a, b) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                match op {
                    FAdd => a + b,
                    FSub => a - b,
                    FMul => a * b,
                    FDiv => a / b,
                    _ => a % b,
                }
                .to_bits() as u128
            } else {
                let (a, b) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                match op {
                    FAdd => a + b,
                    FSub => a - b,
                    FMul => a * b,
                    FDiv => a / b,
                    _ => a % b,
                }
                .to_bits() as u128
            }));
        }
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let m = mask(w);
            let r = match op {
                Add => a.wrapping_add(b),
                Sub => a.wrapping_sub(b),
                Mul => a.wrapping_mul(b),
                And => a & b,
                Or => a | b,
                Xor => a ^ b,
                Shl => {
                    if b >= w as u128 {
                        0
                    } else {
                        a << b
                    }
                }
                Lshr => {
                    if b >= w as u128 {
                        0
                    } else {
                        a >> b
                    }
                }
                Ashr => (sx(a, w) >> b.min(w as u128 - 1)) as u128,
                Udiv | Urem | Sdiv | Srem => {
                    if b == 0 {
                        return bad("division by zero");
                    }
                    match op {
                        Udiv => a / b,
                        Urem => a % b,
                        Sdiv => sx(a, w).wrapping_div(sx(b, w)) as u128,
                        _ => sx(a, w).wrapping_rem(sx(b, w)) as u128,
                    }
                }
                _ => unreachable!(),
            };
            return Ok(V::C(r & m));
        }
        let (a, b) = (self.t(x, w), self.t(y, w));
        if matches!(op, Udiv | Urem | Sdiv | Srem) {
            let z = self.a.c(w, 0);
            let nz = self.a.ne(b, z);
            if !self.decide(st, nz)? {
                return bad("division by zero");
            }
        }
        let t = match op {
            Add => self.a.add(a, b),
            Sub => self.a.sub(a, b),
            Mul => self.a.mul(a, b),
            And => self.a.and(a, b),
            Or => self.a.or(a, b),
            Xor => self.a.xor(a, b),
            Shl => self.a.shl(a, b),
            Lshr => self.a.lshr(a, b),
            Ashr => self.a.ashr(a, b),
            Udiv => self.a.udiv(a, b),
            Urem => self.a.urem(a, b),
            Sdiv => self.a.sdiv(a, b),
            Srem => self.a.srem(a, b),
            _ => unreachable!(),
        };
        Ok(self.v(t))
    }
    fn icmp(&mut self, p: &str, ty: &Ty, x: &V, y: &V) -> V {
        if let Ty::Vec(n, e) = ty {
            if let (V::A(a), V::A(b)) = (x, y) {
                let v = (0..*n).map(|i| self.icmp(p, e, &a[i], &b[i])).collect();
                return V::A(Rc::new(v));
            }
        }
        let w = ty.bits();
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let (s, t) = (sx(a, w), sx(b, w));
            return V::C(match p {
                "eq" => a == b,
                "ne" => a != b,
                "ult" => a < b,
                "ule" => a <= b,
                "ugt" => a > b,
                "uge" => a >= b,
                "slt" => s < t,
                "sle" => s <= t,
                "sgt" => s > t,
                _ => s >= t,
            } as u128);
        }
        let (a, b) = (self.t(x, w), self.t(y, w));
        let r = match p {
            "eq" => self.a.eq(a, b),
            "ne" => self.a.ne(a, b),
            "ult" => self.a.ult(a, b),
            "ugt" => self.a.ult(b, a),
            "ule" => {
                let t = self.a.ult(b, a);
                self.a.not(t)
            }
            "uge" => {
                let t = self.a.ult(a, b);
                self.a.not(t)
            }
            "slt" => self.a.slt(a, b),
            "sgt" => self.a.slt(b, a),
            "sle" => {
                let t = self.a.slt(b, a);
                self.a.not(t)
            }
            _ => {
                let t = self.a.slt(a, b);
                self.a.not(t)
            }
        };
        self.v(r)
    }
    fn cast(&mut self, st: &mut State, op: &str, f: &Ty, t: &Ty, v: &V) -> R<V> {
        if op == "bitcast" {
            if f.is_agg() || t.is_agg() {
                // through the bit pattern
                let whole = if let (Ty::Vec(_, e), V::A(xs)) = (f, v) {
                    let ew = e.bits();
                    let mut parts = vec![];
                    for x in xs.iter().rev() {
                        parts.push(self.t(x, ew));
                    }
                    let t = self.a.cat(parts);
                    self.v(t)
                } else {
                    v.clone()
                };
                if let Ty::Vec(n, e) = t {
                    let ew = e.bits();
                    let tw = ew * *n as u16;
                    let x = self.t(&whole, tw);
                    let mut out = vec![];
                    for i in 0..*n {
                        let y = self.a.ext(x, ew * i as u16, ew);
                        out.push(self.v(y));
                    }
                    return Ok(V::A(Rc::new(out)));
                }
                return Ok(whole);
            }
            return Ok(v.clone());
        }
        if let (Ty::Vec(n, e), Ty::Vec(_, g), V::A(xs)) = (f, t, v) {
            let mut out = vec![];
            for i in 0..*n {
                out.push(self.cast(st, op, e, g, &xs[i])?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        let (fw, tw) = (f.bits(), t.bits());
        match op {
            "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" => {
                let c = self.concretize(st, v, fw)?;
                return Ok(V::C(match op {
                    "uitofp" => {
                        if tw == 64 {
                            (c as f64).to_bits() as u128
                        } else {
                            (c as f32).to_bits() as u128
                        }
                    }
                    "sitofp" => {
                        if tw == 64 {
                            (sx(c, fw) as f64).to_bits() as u128
                        } else {
                            (sx(c, fw) as f32).to_bits() as u128
                        }
                    }
                    "fpext" => (f32::from_bits(c as u32) as f64).to_bits() as u128,
                    "fptrunc" => (f64::from_bits(c as u64) as f32).to_bits() as u128,
                    _ => {
                        let d = if fw == 64 { f64::from_bits(c as u64) } else { f32::from_bits(c as u32) as f64 };
                        (if op == "fptoui" { d as u128 } else { d as i128 as u128 }) & mask(tw)
                    }
                }));
            }
            _ => {}
        }
        match v {
            V::C(c) => Ok(V::C(if op == "sext" { sx(*c, fw) as u128 & mask(tw) } else { *c & mask(tw) })),
            V::T(x) => {
                let r = match op {
                    "trunc" => self.a.ext(*x, 0, tw),
                    "sext" => self.a.sext(*x, tw),
                    "zext" => self.a.zext(*x, tw),
                    _ => {
                        if tw > fw {
                            self.a.zext(*x, tw)
                        } else if tw < fw {
                            self.a.ext(*x, 0, tw)
                        } else {
                            *x
                        }
                    }
                };
                Ok(self.v(r))
            }
            _ => inc("cast of aggregate"),
        }
    }

    fn op(&self, st: &State, o: &Op) -> V {
        match o {
            Op::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }
    fn addr(&mut self, st: &mut State, o: &Op) -> R<u64> {
        let v = self.op(st, o);
        Ok(self.concretize(st, &v, 64)? as u64)
    }
    fn select(&mut self, st: &mut State, c: T, x: &V, y: &V, w: u16) -> R<V> {
        match (x, y) {
            (V::A(_), _) | (_, V::A(_)) => Ok(if self.decide(st, c)? { x.clone() } else { y.clone() }),
            _ => {
                let (a, b) = (self.t(x, w), self.t(y, w));
                let r = self.a.ite(c, a, b);
                Ok(self.v(r))
            }
        }
    }

    // ------------------------------------------------------------ control
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f.clone();
        let from = fr.blk;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, cs) in &b.phis {
                let o = cs.iter().find(|c| c.0 == from).map(|c| &c.1).expect("phi without predecessor");
                vals.push((
                    *d,
                    match o {
                        Op::R(r) => fr.regs[*r as usize].clone(),
                        Op::K(v) => v.clone(),
                    },
                ));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.prev = from;
        fr.blk = to;
        fr.ip = 0;
    }
    fn ret(&mut self, st: &mut State, v: Option<V>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        for a in fr.allocas {
            st.mem.remove(&a);
        }
        if st.frames.is_empty() {
            return Err(Stop::Done("return"));
        }
        let c = st.frames.last_mut().unwrap();
        if let (Some(r), Some(v)) = (fr.ret, v) {
            c.regs[r as usize] = v;
        }
        c.ip += 1;
        Ok(())
    }
    fn set(&self, st: &mut State, d: Option<u32>, v: V) {
        if let Some(d) = d {
            st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }
    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| demangle(&f.f.name)).collect()
    }
    pub fn call(&mut self, st: &mut State, sym: usize, args: Vec<V>, ret: Option<u32>) -> R<()> {
        let f = match self.m.func(sym) {
            Some(f) => f,
            None => return inc(format!("call to external function {}", self.m.syms[sym].name)),
        };
        if st.frames.len() > 600 {
            return inc("call depth");
        }
        self.funcs.insert(sym);
        let mut regs = vec![V::C(0); f.nregs];
        for (i, v) in args.into_iter().enumerate().take(f.nparams) {
            regs[i] = v
        }
        st.frames.push(Frame { f, blk: 0, prev: 0, ip: 0, regs, ret, allocas: vec![] });
        Ok(())
    }

    fn builtin(&mut self, sym: usize) -> Option<Rc<str>> {
        if let Some(b) = self.builtins.get(&sym) {
            return b.clone();
        }
        let n = self.m.syms[sym].name.clone();
        let b: Option<Rc<str>> = if n.starts_with("llvm.") || n.starts_with("jsym_") {
            Some(n.as_str().into())
        } else if n.contains("12___rust_alloc") && !n.contains("19___rust_alloc_zeroed") {
            Some("rust_alloc".into())
        } else if n.contains("19___rust_alloc_zeroed") {
            Some("rust_alloc_zeroed".into())
        } else if n.contains("14___rust_dealloc") {
            Some("rust_dealloc".into())
        } else if n.contains("14___rust_realloc") {
            Some("rust_realloc".into())
        } else if n.contains("no_alloc_shim_is_unstable") {
            Some("nop".into())
        } else if n.contains("17rust_begin_unwind") || n.contains("9panicking9panic_fmt") || n.contains("20rust_panic_with_hook") || n.contains("9panicking11begin_panic") || n.contains("19panic_nounwind_fmt") || n.contains("14panic_nounwind") {
            Some("panic".into())
        } else if n.contains("19hashmap_random_keys") {
            Some("hashmap_random_keys".into())
        } else if n.contains("11fill_bytes") && n.contains("3sys6random") {
            Some("fill_random".into())
        } else if n.contains("18handle_alloc_error") {
            Some("alloc_error".into())
        } else {
            match n.as_str() {
                "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen" | "getenv" | "abort" | "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific"
                | "pthread_getspecific" | "pthread_self" | "sched_yield" | "ceil" | "floor" | "log2" | "log" | "sqrt" | "write" | "writev" | "malloc" | "free" | "gettid" | "syscall" | "getrandom" | "__errno_location" => Some(n.as_str().into()),
                _ => None,
            }
        };
        self.builtins.insert(sym, b.clone());
        b
    }

    fn real(&mut self, h: u128) -> R<Rc<Poly>> {
        match self.reals.get((h as usize).wrapping_sub(1)) {
            Some(t) => Ok(t.clone()),
            None => bad(format!("invalid field element handle {}", h)),
        }
    }
    fn real_handle(&mut self, p: Option<Poly>) -> R<V> {
        let p = match p {
            Some(p) => p,
            None => return inc("polynomial out of range"),
        };
        if let Some(h) = self.realmap.get(&p) {
            return Ok(V::C(*h as u128));
        }
        let p = Rc::new(p);
        self.reals.push(p.clone());
        let h = self.reals.len() as u32;
        self.realmap.insert(p, h);
        Ok(V::C(h as u128))
    }

    /// builtin functions; Ok(Some(v)) is the result, Ok(None) no result
    fn run_builtin(&mut self, st: &mut State, n: &str, rt: &Ty, tys: &[Ty], args: &[V]) -> R<Option<V>> {
        macro_rules! conc {
            ($i:expr) => {{
                let w = tys[$i].bits();
                self.concretize(st, &args[$i], w)?
            }};
        }
        if n.starts_with("llvm.") {
            return self.intrinsic(st, n, rt, tys, args);
        }
        if n.starts_with("jsym_") {
            return self.harness_fn(st, n, tys, args);
        }
        match n {
            "nop" => Ok(Some(V::C(0))),
            "rust_alloc" | "rust_alloc_zeroed" | "malloc" => {
                let sz = conc!(0) as usize;
                if sz > 1 << 28 {
                    return inc(format!("allocation of {} bytes", sz));
                }
                let p = self.new_obj(st, sz, ObjKind::Heap, if n == "rust_alloc_zeroed" { 0 } else { 0xA5 });
                Ok(Some(V::C(p as u128)))
            }
            "rust_dealloc" | "free" => {
                let p = conc!(0) as u64;
                if n == "free" && p == 0 {
                    return Ok(None);
                }
                let ok = match st.mem.get(&((p >> 32) as u32)) {
                    Some(o) => {
                        if p & 0xffff_ffff != 0 || o.kind != ObjKind::Heap {
                            return bad("deallocation of a pointer that was not allocated");
                        }
                        let sz = if n == "free" { o.data.len() } else { conc!(1) as usize };
                        st.mem[&((p >> 32) as u32)].data.len() == sz
                    }
                    None => return bad("double free or free of an invalid pointer"),
                };
                if !ok {
                    return bad("deallocation with a wrong size");
                }
                st.mem.remove(&((p >> 32) as u32));
                Ok(None)
            }
            "rust_realloc" => {
                let p = conc!(0) as u64;
                let old = conc!(1) as usize;
                let new = conc!(3) as usize;
                if new > 1 << 28 {
                    return inc(format!("allocation of {} bytes", new));
                }
                let q = self.new_obj(st, new, ObjKind::Heap, 0xA5);
                self.copy(st, q, p, old.min(new))?;
                st.mem.remove(&((p >> 32) as u32));
                Ok(Some(V::C(q as u128)))
            }
            "panic" | "abort" | "alloc_error" => Err(Stop::Bad(format!("panic in {}", self.stack(st).iter().find(|f| f.contains("jester") || f.contains("h_")).cloned().unwrap_or_else(|| self.stack(st).first().cloned().unwrap_or_default())))),
            "hashmap_random_keys" => Ok(Some(V::A(Rc::new(vec![V::C(0x0123_4567_89ab_cdef), V::C(0xfedc_ba98_7654_3210)])))),
            "fill_random" => {
                let p = conc!(0) as u64;
                let k = conc!(1) as usize;
                for i in 0..k {
                    self.store_bytes(st, p + i as u64, 1, &V::C(0x5a))?;
                }
                Ok(None)
            }
            "getrandom" => {
                let p = conc!(0) as u64;
                let k = conc!(1) as usize;
                for i in 0..k {
                    self.store_bytes(st, p + i as u64, 1, &V::C(0x5a))?;
                }
                Ok(Some(V::C(k as u128)))
            }
            "syscall" => {
                // SYS_getrandom
                if conc!(0) == 318 {
                    let p = conc!(1) as u64;
                    let k = conc!(2) as usize;
                    for i in 0..k {
                        self.store_bytes(st, p + i as u64, 1, &V::C(0x5a))?;
                    }
                    return Ok(Some(V::C(k as u128)));
                }
                inc(format!("system call {}", conc!(0)))
            }
            "memcpy" | "memmove" => {
                let k = conc!(2) as usize;
                let (d, s) = (conc!(0) as u64, conc!(1) as u64);
                self.copy(st, d, s, k)?;
                Ok(Some(V::C(d as u128)))
            }
            "memset" => {
                let d = conc!(0) as u64;
                let k = conc!(2) as usize;
                let b = match &args[1] {
                    V::C(c) => V::C(c & 255),
                    V::T(t) => {
                        let x = self.a.ext(*t, 0, 8);
                        self.v(x)
                    }
                    v => v.clone(),
                };
                self.fill(st, d, &b, k)?;
                Ok(Some(V::C(d as u128)))
            }
            "bcmp" | "memcmp" => {
                let k = conc!(2) as usize;
                let (p, q) = (conc!(0) as u64, conc!(1) as u64);
                let x = self.region(st, p, k)?;
                let y = self.region(st, q, k)?;
                if n == "bcmp" {
                    let e = self.bytes_eq(&x, &y);
                    let (z, o) = (self.a.c(32, 0), self.a.c(32, 1));
                    let r = self.a.ite(e, z, o);
                    return Ok(Some(self.v(r)));
                }
                let mut r = self.a.c(32, 0);
                for i in (0..k).rev() {
                    let (a, b) = (self.t(&x[i], 8), self.t(&y[i], 8));
                    let e = self.a.eq(a, b);
                    let l = self.a.ult(a, b);
                    let (m1, p1) = (self.a.c(32, 0xffff_ffff), self.a.c(32, 1));
                    let s = self.a.ite(l, m1, p1);
                    r = self.a.ite(e, r, s);
                }
                Ok(Some(self.v(r)))
            }
            "strlen" => {
                let p = conc!(0) as u64;
                for i in 0..1u64 << 20 {
                    let v = self.load_bytes(st, p + i, 1)?;
                    if self.concretize(st, &v, 8)? == 0 {
                        return Ok(Some(V::C(i as u128)));
                    }
                }
                inc("strlen")
            }
            "getenv" => Ok(Some(V::C(0))),
            "ceil" | "floor" | "log2" | "log" | "sqrt" => {
                let d = f64::from_bits(conc!(0) as u64);
                let r = match n {
                    "ceil" => d.ceil(),
                    "floor" => d.floor(),
                    "log2" => d.log2(),
                    "log" => d.ln(),
                    _ => d.sqrt(),
                };
                Ok(Some(V::C(r.to_bits() as u128)))
            }
            "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "sched_yield" => Ok(Some(V::C(0))),
            "pthread_getspecific" => Ok(Some(V::C(0))),
            "pthread_self" | "gettid" => Ok(Some(V::C(1))),
            "write" => Ok(Some(args[2].clone())),
            x => inc(format!("builtin {}", x)),
        }
    }
    fn fill(&mut self, st: &mut State, d: u64, b: &V, k: usize) -> R<()> {
        if k == 0 {
            return Ok(());
        }
        let (o, off) = self.write(st, d, k)?;
        match b {
            V::C(c) => {
                o.data[off..off + k].iter_mut().for_each(|x| *x = *c as u8);
                if !o.sym.is_empty() {
                    o.sym[off..off + k].iter_mut().for_each(|x| *x = 0);
                }
            }
            V::T(t) => {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()]
                }
                o.sym[off..off + k].iter_mut().for_each(|x| *x = *t);
            }
            _ => {}
        }
        Ok(())
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, rt: &Ty, tys: &[Ty], args: &[V]) -> R<Option<V>> {
        let base = &n[5..];
        let starts = |p: &str| base.starts_with(p);
        if starts("experimental.noalias") || starts("lifetime") || starts("assume") || starts("dbg.") || starts("prefetch") || starts("x86.sse2.pause") {
            return Ok(None);
        }
        if starts("memcpy") || starts("memmove") {
            let k = self.concretize(st, &args[2], 64)? as usize;
            let d = self.concretize(st, &args[0], 64)? as u64;
            let s = self.concretize(st, &args[1], 64)? as u64;
            self.copy(st, d, s, k)?;
            return Ok(None);
        }
        if starts("memset") {
            let k = self.concretize(st, &args[2], 64)? as usize;
            let d = self.concretize(st, &args[0], 64)? as u64;
            self.fill(st, d, &args[1], k)?;
            return Ok(None);
        }
        if starts("trap") || starts("ubsantrap") || starts("debugtrap") {
            return bad(format!("panic (trap) in {}", self.stack(st).join(" < ")));
        }
        if starts("threadlocal.address") {
            return Ok(Some(args[0].clone()));
        }
        if starts("expect") || starts("launder") || starts("strip") {
            return Ok(Some(args[0].clone()));
        }
        if starts("is.constant") {
            return Ok(Some(V::C(0)));
        }
        if starts("load.relative") {
            let p = self.concretize(st, &args[0], 64)? as u64;
            let o = self.concretize(st, &args[1], 64)? as u64;
            let v = self.load_bytes(st, p.wrapping_add(o), 4)?;
            let x = self.concretize(st, &v, 32)?;
            return Ok(Some(V::C((p as i128 + sx(x, 32)) as u128 & mask(64))));
        }
        // vector versions element-wise
        if let (Ty::Vec(k, e), false) = (rt, starts("vector.reduce")) {
            let mut out = vec![];
            for i in 0..*k {
                let xs: Vec<V> = args
                    .iter()
                    .map(|a| if let V::A(v) = a { v[i].clone() } else { a.clone() })
                    .collect();
                let ts: Vec<Ty> = tys.iter().map(|t| if let Ty::Vec(_, e) = t { (**e).clone() } else { t.clone() }).collect();
                out.push(self.intrinsic(st, n, e, &ts, &xs)?.unwrap_or(V::C(0)));
            }
            return Ok(Some(V::A(Rc::new(out))));
        }
        if starts("vector.reduce.") {
            let o = match base.split('.').nth(2).unwrap() {
                "add" => BinOp::Add,
                "mul" => BinOp::Mul,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                _ => return inc(format!("intrinsic {}", n)),
            };
            if let V::A(xs) = &args[0] {
                let mut r = xs[0].clone();
                for x in &xs[1..] {
                    r = self.bin(st, o, rt, &r, x)?;
                }
                return Ok(Some(r));
            }
        }
        if tys.is_empty() {
            return inc(format!("intrinsic {}", n));
        }
        let w = tys[0].bits();
        if starts("ceil") || starts("floor") || starts("fabs") || starts("trunc.f") || starts("log2.f") || starts("sqrt.f") || starts("exp2.f") || starts("log.f") || starts("log10.f") || starts("round.f") || starts("fptoui.sat") || starts("fptosi.sat") {
            let c = self.concretize(st, &args[0], w)?;
            let d = if w == 64 { f64::from_bits(c as u64) } else { f32::from_bits(c as u32) as f64 };
            if starts("fpto") {
                let tw = rt.bits();
                return Ok(Some(V::C(if starts("fptoui") {
                    (d as u128).min(mask(tw))
                } else {
                    let hi = (mask(tw) >> 1) as i128;
                    (d as i128).max(-hi - 1).min(hi) as u128 & mask(tw)
                })));
            }
            let r = if starts("ceil") {
                d.ceil()
            } else if starts("floor") {
                d.floor()
            } else if starts("fabs") {
                d.abs()
            } else if starts("log2") {
                d.log2()
            } else if starts("sqrt") {
                d.sqrt()
            } else if starts("exp2") {
                d.exp2()
            } else if starts("log10") {
                d.log10()
            } else if starts("log") {
                d.ln()
            } else if starts("round") {
                d.round()
            } else {
                d.trunc()
            };
            return Ok(Some(V::C(if w == 64 { r.to_bits() as u128 } else { (r as f32).to_bits() as u128 })));
        }
        if w == 0 {
            return inc(format!("intrinsic {}", n));
        }
        let x = self.t(&args[0], w);
        let second = |s: &mut Self| s.t(&args[1], w);
        let out: T;
        if starts("umin") || starts("umax") || starts("smin") || starts("smax") {
            let y = second(self);
            let lt = if starts("u") { self.a.ult(x, y) } else { self.a.slt(x, y) };
            out = if base[1..].starts_with("min") { self.a.ite(lt, x, y) } else { self.a.ite(lt, y, x) };
        } else if starts("ucmp") || starts("scmp") {
            let y = second(self);
            let rw = rt.bits();
            let (lt, gt) = if starts("u") { (self.a.ult(x, y), self.a.ult(y, x)) } else { (self.a.slt(x, y), self.a.slt(y, x)) };
            let (m1, z, p1) = (self.a.c(rw, mask(rw)), self.a.c(rw, 0), self.a.c(rw, 1));
            let r = self.a.ite(gt, p1, z);
            out = self.a.ite(lt, m1, r);
        } else if starts("abs") {
            let z = self.a.c(w, 0);
            let neg = self.a.slt(x, z);
            let m = self.a.neg(x);
            out = self.a.ite(neg, m, x);
        } else if starts("usub.sat") {
            let y = second(self);
            let lt = self.a.ult(x, y);
            let d = self.a.sub(x, y);
            let z = self.a.c(w, 0);
            out = self.a.ite(lt, z, d);
        } else if starts("uadd.sat") {
            let y = second(self);
            let s = self.a.add(x, y);
            let lt = self.a.ult(s, x);
            let m = self.a.c(w, mask(w));
            out = self.a.ite(lt, m, s);
        } else if base.contains(".with.overflow") {
            let y = second(self);
            let (r, o) = self.overflow(st, &base[..4], x, y, w)?;
            return Ok(Some(V::A(Rc::new(vec![self.v(r), self.v(o)]))));
        } else if starts("fshl") || starts("fshr") {
            let y = second(self);
            let sv = self.concretize(st, &args[2], w)? as u16 % w;
            let s = if starts("fshl") { sv } else { (w - sv) % w };
            if s == 0 {
                out = if starts("fshl") || sv != 0 { x } else { y };
            } else {
                let hi = self.a.ext(x, 0, w - s);
                let lo = self.a.ext(y, w - s, s);
                out = self.a.cat(vec![hi, lo]);
            }
        } else if starts("bswap") {
            let mut p = vec![];
            for i in 0..w / 8 {
                p.push(self.a.ext(x, 8 * i, 8));
            }
            out = self.a.cat(p);
        } else if starts("bitreverse") {
            let mut p = vec![];
            for i in 0..w {
                p.push(self.a.ext(x, i, 1));
            }
            out = self.a.cat(p);
        } else if starts("ctpop") {
            let mut r = self.a.c(w, 0);
            for i in 0..w {
                let b = self.a.ext(x, i, 1);
                let b = self.a.zext(b, w);
                r = self.a.add(r, b);
            }
            out = r;
        } else if starts("ctlz") || starts("cttz") {
            let mut r = self.a.c(w, w as u128);
            for j in 0..w {
                let i = if starts("ctlz") { j } else { w - 1 - j };
                let b = self.a.ext(x, i, 1);
                let k = self.a.c(w, if starts("ctlz") { (w - 1 - i) as u128 } else { i as u128 });
                r = self.a.ite(b, k, r);
            }
            out = r;
        } else {
            return inc(format!("intrinsic {}", n));
        }
        Ok(Some(self.v(out)))
    }
    fn overflow(&mut self, st: &mut State, op: &str, x: T, y: T, w: u16) -> R<(T, T)> {
        let sg = op.starts_with('s');
        Ok(match &op[1..] {
            "add" | "sub" if !sg => {
                if &op[1..] == "add" {
                    let r = self.a.add(x, y);
                    let o = if self.a.um(x).checked_add(self.a.um(y)).map(|s| s <= mask(w)).unwrap_or(false) {
                        self.a.bool_c(false)
                    } else if w < 128 {
                        let (xe, ye) = (self.a.zext(x, w + 1), self.a.zext(y, w + 1));
                        let s = self.a.add(xe, ye);
                        self.a.ext(s, w, 1)
                    } else {
                        self.a.ult(r, x)
                    };
                    (r, o)
                } else {
                    let r = self.a.sub(x, y);
                    let o = self.a.ult(x, y);
                    (r, o)
                }
            }
            "mul" if !sg => {
                let r = self.a.mul(x, y);
                if self.a.um(x).checked_mul(self.a.um(y)).map(|s| s <= mask(w)).unwrap_or(false) {
                    return Ok((r, self.a.bool_c(false)));
                }
                // by a constant: overflow iff x > max / c
                for (p, q) in [(x, y), (y, x)] {
                    if let Some(c) = self.a.as_c(q) {
                        if c == 0 {
                            return Ok((r, self.a.bool_c(false)));
                        }
                        let k = self.a.c(w, mask(w) / c);
                        let o = self.a.ult(k, p);
                        return Ok((r, o));
                    }
                }
                if w > 64 {
                    return inc("128-bit multiplication overflow check");
                }
                let (xe, ye) = (self.a.zext(x, 2 * w), self.a.zext(y, 2 * w));
                let m = self.a.mul(xe, ye);
                let hi = self.a.ext(m, w, w);
                let z = self.a.c(w, 0);
                let o = self.a.ne(hi, z);
                (r, o)
            }
            _ => {
                let k = if &op[1..] == "mul" { 2 * w } else { w + 1 };
                if k > 128 {
                    let (a, b) = (self.v(x), self.v(y));
                    let (a, b) = (sx(self.concretize(st, &a, w)?, w), sx(self.concretize(st, &b, w)?, w));
                    let (r, o) = match &op[1..] {
                        "add" => a.overflowing_add(b),
                        "sub" => a.overflowing_sub(b),
                        _ => a.overflowing_mul(b),
                    };
                    let r = self.a.c(w, r as u128);
                    let o = self.a.bool_c(o);
                    return Ok((r, o));
                }
                let (xe, ye) = (self.a.sext(x, k), self.a.sext(y, k));
                let s = match &op[1..] {
                    "add" => self.a.add(xe, ye),
                    "sub" => self.a.sub(xe, ye),
                    _ => self.a.mul(xe, ye),
                };
                let r = self.a.ext(s, 0, w);
                let back = self.a.sext(r, k);
                let o = self.a.ne(back, s);
                (r, o)
            }
        })
    }

    // ------------------------------------------------------------ harness interface
    fn input(&mut self, st: &mut State, w: u16, max: Option<u128>) -> R<V> {
        if let Some(c) = &self.o.concrete {
            let v = c.get(st.inputs.len()).copied().unwrap_or(0) & mask(w);
            st.inputs.push(Input::Bv(w, V::C(v)));
            return Ok(V::C(v));
        }
        // the n-th input of every path is one variable: paths share terms and declarations
        let key = (st.inputs.len(), w, max);
        let v = match self.input_vars.get(&key) {
            Some(v) => *v,
            None => {
                let v = match max {
                    None => self.a.var(w, "i"),
                    Some(m) => self.a.var_max(w, "i", m),
                };
                self.input_vars.insert(key, v);
                v
            }
        };
        st.inputs.push(Input::Bv(w, V::T(v)));
        if let Some(m) = max {
            // the variable's bound, as a constraint the solver sees: v <= m, built directly
            // because the constructors would fold it to true from the declared maximum
            let k = self.a.c(w, m);
            let c = self.a.raw_ule(v, k);
            if let Some(c) = c {
                st.pc.push(c);
            }
        }
        Ok(V::T(v))
    }
    fn harness_fn(&mut self, st: &mut State, n: &str, tys: &[Ty], args: &[V]) -> R<Option<V>> {
        macro_rules! conc {
            ($i:expr) => {{
                let w = tys[$i].bits();
                self.concretize(st, &args[$i], w)?
            }};
        }
        macro_rules! boolarg {
            ($i:expr) => {{
                let w = tys[$i].bits();
                let t = self.t(&args[$i], w);
                if w == 1 {
                    t
                } else {
                    self.a.ext(t, 0, 1)
                }
            }};
        }
        match &n[5..] {
            "u8" => Ok(Some(self.input(st, 8, None)?)),
            "u16" => Ok(Some(self.input(st, 16, None)?)),
            "u32" => Ok(Some(self.input(st, 32, None)?)),
            "u64" => Ok(Some(self.input(st, 64, None)?)),
            "below" => {
                let m = conc!(0);
                if m == 0 {
                    return Err(Stop::Done("assume"));
                }
                Ok(Some(self.input(st, 64, Some(m - 1))?))
            }
            "bytes" => {
                let p = conc!(0) as u64;
                let k = conc!(1) as usize;
                for i in 0..k {
                    let v = self.input(st, 8, None)?;
                    self.store_bytes(st, p + i as u64, 1, &v)?;
                }
                Ok(None)
            }
            "assume" => {
                let c = boolarg!(0);
                self.assume(st, c)?;
                Ok(None)
            }
            "assert" => {
                let p = conc!(1) as u64;
                let k = conc!(2) as usize;
                let msg = self.cstr(st, p, k);
                let c = boolarg!(0);
                *self.reached.entry(msg.clone()).or_insert(0) += 1;
                self.prove(st, c, &msg)?;
                Ok(None)
            }
            "eq" => {
                // jsym_eq(a, b, len, msg, msglen)
                let (p, q, k) = (conc!(0) as u64, conc!(1) as u64, conc!(2) as usize);
                let (mp, ml) = (conc!(3) as u64, conc!(4) as usize);
                let msg = self.cstr(st, mp, ml);
                let x = self.region(st, p, k)?;
                let y = self.region(st, q, k)?;
                *self.reached.entry(msg.clone()).or_insert(0) += 1;
                let c = self.bytes_eq(&x, &y);
                self.prove(st, c, &msg)?;
                Ok(None)
            }
            "same" => {
                // jsym_same(a, b, len) -> bool: equality as a value
                let (p, q, k) = (conc!(0) as u64, conc!(1) as u64, conc!(2) as usize);
                let x = self.region(st, p, k)?;
                let y = self.region(st, q, k)?;
                let c = self.bytes_eq(&x, &y);
                Ok(Some(self.v(c)))
            }
            "param" => {
                let i = conc!(0) as usize;
                Ok(Some(V::C(self.o.params.get(i).copied().unwrap_or(0) as u128)))
            }
            "nparams" => Ok(Some(V::C(self.o.params.len() as u128))),
            "native" => Ok(Some(V::C(0))),
            "expect_panic" => {
                let c = boolarg!(0);
                st.allow_panic = Some(c);
                Ok(None)
            }
            "conc" => Ok(Some(V::C(conc!(0)))),
            "and" | "or" => {
                // conjunction/disjunction without branching
                let (x, y) = (boolarg!(0), boolarg!(1));
                let r = if &n[5..] == "and" { self.a.and(x, y) } else { self.a.or(x, y) };
                Ok(Some(self.v(r)))
            }
            "select" => {
                let c = boolarg!(0);
                let (x, y) = (self.t(&args[1], 64), self.t(&args[2], 64));
                let r = self.a.ite(c, x, y);
                Ok(Some(self.v(r)))
            }
            "reach" => {
                let (mp, ml) = (conc!(0) as u64, conc!(1) as usize);
                let msg = self.cstr(st, mp, ml);
                *self.reached.entry(msg).or_insert(0) += 1;
                Ok(None)
            }
            "trace" => {
                st.trace.push((args[0].clone(), 64));
                Ok(None)
            }
            "fail" => {
                let (mp, ml) = (conc!(0) as u64, conc!(1) as usize);
                let msg = self.cstr(st, mp, ml);
                self.asserts += 1;
                st.asserts += 1;
                bad(format!("assertion failed: {}", msg))
            }
            "hash" => {
                // uninterpreted function of a byte string: jsym_hash(tag, in, len, out, outlen)
                let tag = conc!(0);
                let (p, k, q, ol) = (conc!(1) as u64, conc!(2) as usize, conc!(3) as u64, conc!(4) as usize);
                let x = self.region(st, p, k)?;
                let mut parts = vec![];
                for c in x.chunks(16) {
                    let mut v = vec![];
                    for b in c.iter().rev() {
                        v.push(self.t(b, 8));
                    }
                    parts.push(self.a.cat(v));
                }
                let mut i = 0;
                while i < ol {
                    let n = (ol - i).min(8);
                    let u = self.a.uf(&format!("h{}_{}_{}", tag, k, i), parts.clone(), 8 * n as u16);
                    for j in 0..n {
                        let b = self.a.ext(u, 8 * j as u16, 8);
                        let b = self.v(b);
                        self.store_bytes(st, q + (i + j) as u64, 1, &b)?;
                    }
                    i += n;
                }
                Ok(None)
            }
            // field elements over the reals; a handle names a term
            "real_var" => {
                if let Some(c) = &self.o.concrete {
                    let v = c.get(st.inputs.len()).copied().unwrap_or(0);
                    let t = self.a.rc(v as i128, 1);
                    st.inputs.push(Input::Real(t));
                    return Ok(Some(self.real_handle(Some(Poly::constant(v as i128, 1)))?));
                }
                let key = (st.inputs.len(), 0, None);
                let t = match self.input_vars.get(&key) {
                    Some(v) => *v,
                    None => self.a.var(0, "r"),
                };
                self.input_vars.insert(key, t);
                st.inputs.push(Input::Real(t));
                Ok(Some(self.real_handle(Some(Poly::var(t)))?))
            }
            "real_const" => {
                let v = sx(conc!(0), 64);
                Ok(Some(self.real_handle(Some(Poly::constant(v, 1)))?))
            }
            "real_add" | "real_mul" | "real_sub" => {
                let (x, y) = (conc!(0), conc!(1));
                let (x, y) = (self.real(x)?, self.real(y)?);
                let r = match &n[5..] {
                    "real_add" => x.add(&y),
                    "real_mul" => x.mul(&y),
                    _ => x.sub(&y),
                };
                Ok(Some(self.real_handle(r)?))
            }
            // inverse of a constant
            "real_inv" => {
                let x = conc!(0);
                let x = self.real(x)?;
                match x.as_const() {
                    Some((0, _)) => Ok(Some(self.real_handle(Some(Poly::constant(0, 1)))?)),
                    Some((p, q)) => Ok(Some(self.real_handle(Some(Poly::constant(q, p)))?)),
                    None => inc("inverse of a symbolic field element"),
                }
            }
            // numerator or denominator of x / y in lower terms
            "real_frac" => {
                let (x, y, k) = (conc!(0), conc!(1), conc!(2));
                let (x, y) = (self.real(x)?, self.real(y)?);
                let r = Poly::frac(&x, &y).map(|(p, q)| if k == 0 { p } else { q });
                Ok(Some(self.real_handle(r)?))
            }
            "real_eq" => {
                let (x, y) = (conc!(0), conc!(1));
                let (x, y) = (self.real(x)?, self.real(y)?);
                let d = match x.sub(&y).and_then(|d| d.monic()) {
                    Some(d) => d,
                    None => return inc("polynomial out of range"),
                };
                let r = match d.as_const() {
                    Some((c, _)) => self.a.bool_c(c == 0),
                    // whether a variable and whether the rest vanishes is left open
                    None if poly::prime() != 0 => {
                        let (vars, rest) = d.split();
                        let mut parts: Vec<Poly> = vars.into_iter().map(Poly::var).collect();
                        if rest.as_const().is_none() {
                            parts.push(rest);
                        }
                        let mut any = self.a.bool_c(false);
                        for q in parts {
                            let next = self.open.len();
                            let t = match self.open.get(&q) {
                                Some(t) => *t,
                                None => {
                                    let t = self.a.var(1, &format!("zero{}", next));
                                    self.open.insert(q, t);
                                    t
                                }
                            };
                            any = self.a.or(any, t);
                        }
                        any
                    }
                    None => {
                        let t = d.term(&mut self.a);
                        let z = self.a.rc(0, 1);
                        self.a.req(t, z)
                    }
                };
                Ok(Some(self.v(r)))
            }
            // the field is that of the given prime (0: unspecified)
            "real_field" => {
                let p = conc!(0) as u64;
                if poly::prime() != p as i128 {
                    poly::set_prime(p);
                    self.reals.clear();
                    self.realmap.clear();
                }
                Ok(None)
            }
            "real_is_const" => {
                let x = conc!(0);
                let x = self.real(x)?;
                Ok(Some(V::C(x.as_const().is_some() as u128)))
            }
            x => inc(format!("harness function {}", x)),
        }
    }

    // ------------------------------------------------------------ the machine
    fn step(&mut self, st: &mut State) -> R<()> {
        let (f, blk, ip) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.blk as usize, fr.ip)
        };
        let (dst, ins) = &f.blocks[blk].ins[ip];
        let dst = *dst;
        macro_rules! done {
            ($v:expr) => {{
                let v = $v;
                let fr = st.frames.last_mut().unwrap();
                if let Some(d) = dst {
                    fr.regs[d as usize] = v;
                }
                fr.ip += 1;
                return Ok(());
            }};
        }
        match ins {
            I::Bin(o, ty, a, b) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                done!(self.bin(st, *o, ty, &x, &y)?)
            }
            I::Icmp(p, ty, a, b) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                done!(self.icmp(p, ty, &x, &y))
            }
            I::Fcmp(p, ty, a, b) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let w = ty.bits();
                let (x, y) = (self.concretize(st, &x, w)?, self.concretize(st, &y, w)?);
                let g = |c: u128| if w == 64 { f64::from_bits(c as u64) } else { f32::from_bits(c as u32) as f64 };
                let (x, y) = (g(x), g(y));
                let un = x.is_nan() || y.is_nan();
                let r = match &**p {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => !un && x != y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "une" => un || x != y,
                    "true" => true,
                    _ => false,
                };
                done!(V::C(r as u128))
            }
            I::FNeg(ty, a) => {
                let x = self.op(st, a);
                let w = ty.bits();
                let x = self.concretize(st, &x, w)?;
                done!(V::C(x ^ (1u128 << (w - 1))))
            }
            I::Cast(o, f, t, a) => {
                let x = self.op(st, a);
                done!(self.cast(st, o, f, t, &x)?)
            }
            I::Load(ty, p) => {
                let v = self.op(st, p);
                if let V::T(_) = v {
                    if let Some(r) = self.load_ite(st, ty, &v)? {
                        done!(r)
                    }
                }
                let a = self.addr(st, p)?;
                done!(self.load(st, ty, a)?)
            }
            I::Store(ty, v, p) => {
                let a = self.addr(st, p)?;
                let x = self.op(st, v);
                self.store(st, ty, &x, a)?;
                done!(V::C(0))
            }
            I::Gep(b, k, dynv) => {
                let base = self.op(st, b);
                let mut r = match &base {
                    V::C(c) => V::C((*c as i128 + *k) as u128 & mask(64)),
                    v => {
                        let t = self.t(v, 64);
                        let kk = self.a.c(64, *k as u128);
                        let s = self.a.add(t, kk);
                        self.v(s)
                    }
                };
                for (o, w, stride) in dynv {
                    let x = self.op(st, o);
                    r = match (&r, &x) {
                        (V::C(b), V::C(i)) => V::C((*b as i128).wrapping_add(sx(*i, *w).wrapping_mul(*stride as i128)) as u128 & mask(64)),
                        _ => {
                            let t = self.t(&x, *w);
                            let t = if *w < 64 { self.a.sext(t, 64) } else { t };
                            let s = self.a.c(64, *stride as u128);
                            let m = self.a.mul(t, s);
                            let b = self.t(&r, 64);
                            let q = self.a.add(b, m);
                            self.v(q)
                        }
                    };
                }
                done!(r)
            }
            I::Alloca(n) => {
                let p = self.new_obj(st, *n, ObjKind::Stack, 0xA5);
                st.frames.last_mut().unwrap().allocas.push((p >> 32) as u32);
                done!(V::C(p as u128))
            }
            I::Select(c, vec, ty, a, b) => {
                let cv = self.op(st, c);
                let (x, y) = (self.op(st, a), self.op(st, b));
                if *vec {
                    if let (V::A(cs), V::A(xs), V::A(ys)) = (&cv, &x, &y) {
                        let w = ty.elem(0).bits();
                        let mut out = vec![];
                        for i in 0..cs.len() {
                            out.push(match &cs[i] {
                                V::C(k) => {
                                    if *k == 1 {
                                        xs[i].clone()
                                    } else {
                                        ys[i].clone()
                                    }
                                }
                                V::T(t) => self.select(st, *t, &xs[i], &ys[i], w)?,
                                _ => return inc("vector select"),
                            });
                        }
                        done!(V::A(Rc::new(out)))
                    }
                }
                match cv {
                    V::C(k) => done!(if k == 1 { x } else { y }),
                    V::T(t) => {
                        if ty.is_agg() || *ty == Ty::Ptr {
                            let d = self.decide(st, t)?;
                            done!(if d { x } else { y })
                        }
                        done!(self.select(st, t, &x, &y, ty.bits())?)
                    }
                    _ => return inc("select"),
                }
            }
            I::ExtractValue(a, ix) => {
                let mut v = self.op(st, a);
                for i in ix {
                    v = match &v {
                        V::A(xs) => xs[*i].clone(),
                        _ => return inc("extractvalue"),
                    }
                }
                done!(v)
            }
            I::InsertValue(a, b, ix) => {
                let v = self.op(st, a);
                let x = self.op(st, b);
                fn ins(v: &V, x: V, ix: &[usize]) -> V {
                    if ix.is_empty() {
                        return x;
                    }
                    if let V::A(xs) = v {
                        let mut n = (**xs).clone();
                        n[ix[0]] = ins(&xs[ix[0]], x, &ix[1..]);
                        return V::A(Rc::new(n));
                    }
                    panic!("insertvalue")
                }
                done!(ins(&v, x, ix))
            }
            I::ExtractElement(a, i) => {
                let v = self.op(st, a);
                let i = self.op(st, i);
                let i = self.concretize(st, &i, 64)? as usize;
                match &v {
                    V::A(xs) => done!(xs[i].clone()),
                    _ => inc("extractelement"),
                }
            }
            I::InsertElement(a, b, i) => {
                let v = self.op(st, a);
                let x = self.op(st, b);
                let i = self.op(st, i);
                let i = self.concretize(st, &i, 64)? as usize;
                match &v {
                    V::A(xs) => {
                        let mut n = (**xs).clone();
                        n[i] = x;
                        done!(V::A(Rc::new(n)))
                    }
                    _ => inc("insertelement"),
                }
            }
            I::Shuffle(a, b, n, m) => {
                if let (V::A(x), V::A(y)) = (self.op(st, a), self.op(st, b)) {
                    let v: Vec<V> = m
                        .iter()
                        .map(|i| match i {
                            None => V::C(0),
                            Some(i) if *i < *n => x[*i].clone(),
                            Some(i) => y[*i - *n].clone(),
                        })
                        .collect();
                    done!(V::A(Rc::new(v)))
                }
                inc("shufflevector")
            }
            I::Freeze(a) => {
                let v = self.op(st, a);
                done!(v)
            }
            I::Fence => done!(V::C(0)),
            I::Rmw(o, ty, p, v) => {
                let a = self.addr(st, p)?;
                let old = self.load(st, ty, a)?;
                let x = self.op(st, v);
                let w = ty.bits();
                let new = match &**o {
                    "xchg" => x,
                    "add" => self.bin(st, BinOp::Add, ty, &old, &x)?,
                    "sub" => self.bin(st, BinOp::Sub, ty, &old, &x)?,
                    "and" => self.bin(st, BinOp::And, ty, &old, &x)?,
                    "or" => self.bin(st, BinOp::Or, ty, &old, &x)?,
                    "xor" => self.bin(st, BinOp::Xor, ty, &old, &x)?,
                    "umax" | "umin" => {
                        let (p, q) = (self.t(&old, w), self.t(&x, w));
                        let lt = self.a.ult(p, q);
                        let r = if &**o == "umax" { self.a.ite(lt, q, p) } else { self.a.ite(lt, p, q) };
                        self.v(r)
                    }
                    o => return inc(format!("atomicrmw {}", o)),
                };
                self.store(st, ty, &new, a)?;
                done!(old)
            }
            I::CmpXchg(ty, p, a, b) => {
                let ad = self.addr(st, p)?;
                let old = self.load(st, ty, ad)?;
                let (x, y) = (self.op(st, a), self.op(st, b));
                let e = self.icmp("eq", ty, &old, &x);
                let e = self.t(&e, 1);
                let d = self.decide(st, e)?;
                if d {
                    self.store(st, ty, &y, ad)?;
                }
                done!(V::A(Rc::new(vec![old, V::C(d as u128)])))
            }
            I::Br(b) => {
                self.jump(st, *b);
                Ok(())
            }
            I::CondBr(c, a, b) => {
                let v = self.op(st, c);
                let d = match v {
                    V::C(k) => k == 1,
                    V::T(t) => self.decide(st, t)?,
                    _ => return inc("branch"),
                };
                self.jump(st, if d { *a } else { *b });
                Ok(())
            }
            I::Switch(ty, v, d, cs) => {
                let v = self.op(st, v);
                match &v {
                    V::C(c) => {
                        let b = cs.iter().find(|x| x.0 == *c).map(|x| x.1).unwrap_or(*d);
                        self.jump(st, b);
                    }
                    V::T(t) => {
                        let w = ty.bits();
                        let mut to = *d;
                        for (k, b) in cs {
                            let kk = self.a.c(w, *k);
                            let e = self.a.eq(*t, kk);
                            if self.decide(st, e)? {
                                to = *b;
                                break;
                            }
                        }
                        self.jump(st, to);
                    }
                    _ => return inc("switch"),
                }
                Ok(())
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|v| self.op(st, v));
                self.ret(st, v)
            }
            I::Unreachable => bad(format!("unreachable code reached in {}", demangle(&f.name))),
            I::Unsupported(s) => inc(format!("unsupported instruction {} in {}", s, demangle(&f.name))),
            I::Call(rt, callee, args) => {
                let sym = match callee {
                    Callee::Sym(s) => *s,
                    Callee::Ind(o) => {
                        let a = self.addr(st, o)?;
                        let s = (a >> 32) as usize;
                        if s == 0 || s > self.m.syms.len() || a & 0xffff_ffff != 0 {
                            return bad(format!("call of an invalid function pointer {:#x}", a));
                        }
                        s - 1
                    }
                };
                let vals: Vec<V> = args.iter().map(|a| self.op(st, &a.1)).collect();
                if let Some(b) = self.builtin(sym) {
                    let tys: Vec<Ty> = args.iter().map(|a| a.0.clone()).collect();
                    let r = self.run_builtin(st, &b, rt, &tys, &vals)?;
                    done!(r.unwrap_or(V::C(0)))
                }
                self.call(st, sym, vals, dst)
            }
        }
    }
    /// load through a symbolic pointer into one object: a conditional over the possible offsets
    fn load_ite(&mut self, st: &mut State, ty: &Ty, v: &V) -> R<Option<V>> {
        if ty.is_agg() || self.o.ite_addr == 0 {
            return Ok(None);
        }
        let t = self.t(v, 64);
        let mut vals: Vec<u128> = vec![];
        let mut excl: Vec<T> = vec![];
        loop {
            let x = if vals.is_empty() {
                match st.model.eval(&self.a, t) {
                    Some(x) => Some(x),
                    None => return Ok(None),
                }
            } else {
                match self.query(st, &excl) {
                    Res::Sat(m) => {
                        let md = Mdl::from(m);
                        match md.eval(&self.a, t) {
                            Some(x) => Some(x),
                            None => return Ok(None),
                        }
                    }
                    Res::Unsat => None,
                    Res::Unknown(_) => return Ok(None),
                }
            };
            match x {
                None => break,
                Some(x) => {
                    vals.push(x);
                    let k = self.a.c(64, x);
                    let e = self.a.ne(t, k);
                    excl.push(e);
                    if vals.len() > self.o.ite_addr {
                        return Ok(None);
                    }
                }
            }
        }
        vals.sort();
        let id = vals[0] >> 32;
        if vals.iter().any(|x| x >> 32 != id) {
            return Ok(None);
        }
        let w = ty.bits();
        let mut r: Option<T> = None;
        for x in vals.iter().rev() {
            let l = match self.load(st, ty, *x as u64) {
                Ok(l) => l,
                Err(_) => return Ok(None),
            };
            let l = self.t(&l, w);
            r = Some(match r {
                None => l,
                Some(p) => {
                    let k = self.a.c(64, *x);
                    let e = self.a.eq(t, k);
                    self.a.ite(e, l, p)
                }
            });
        }
        Ok(r.map(|r| self.v(r)))
    }

    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let sym = *self.m.names.get(entry).ok_or(format!("no entry {}", entry))?;
        let mut st = State {
            frames: vec![],
            mem: Default::default(),
            pc: vec![],
            known: Default::default(),
            model: Rc::new(Mdl::empty()),
            nextobj: self.m.syms.len() as u32 + 16,
            steps: 0,
            inputs: vec![],
            allow_panic: None,
            trace: vec![],
            asserts: 0,
            depth: 0,
        };
        self.call(&mut st, sym, vec![], None).map_err(|e| format!("{:?}", e))?;
        self.work.push(st);
        Ok(())
    }
    fn out_of_time(&self) -> bool {
        self.t0.elapsed().as_millis() as u64 > self.o.time_ms
    }
    pub fn run(&mut self) {
        while let Some(mut st) = self.work.pop() {
            let stop = loop {
                st.steps += 1;
                self.steps += 1;
                if st.steps > self.o.max_steps {
                    break Stop::Inconclusive("step limit of a path".into());
                }
                if self.steps & 0x3ff == 0 && (self.out_of_time() || self.steps > self.o.max_total) {
                    break Stop::Inconclusive("time or step limit of the job".into());
                }
                if let Err(s) = self.step(&mut st) {
                    break s;
                }
            };
            self.finish(st, stop);
            if !self.inconclusive.is_empty() && (self.out_of_time() || self.steps > self.o.max_total) {
                break;
            }
            if self.violations.len() >= self.o.max_viol {
                break;
            }
            if self.paths + self.paths_killed > self.o.max_paths {
                self.inconclusive.push(format!("path limit; {} states left", self.work.len()));
                break;
            }
            if self.inconclusive.len() > 20 {
                break;
            }
        }
    }
    fn inputs_of(&self, st: &State) -> Vec<String> {
        st.inputs
            .iter()
            .map(|i| match i {
                Input::Bv(_, V::C(c)) => format!("{}", c),
                Input::Bv(_, V::T(t)) => format!("{}", st.model.eval(&self.a, *t).unwrap_or(0)),
                Input::Real(t) => match self.a.node(*t) {
                    N::RV(i) => match st.model.reals.get(i) {
                        Some((n, d)) => format!("{}/{}", n, d),
                        // any value will do; over a prime field, one at which no polynomial vanishes by chance
                        None if poly::prime() != 0 => format!("{}/1", (*i as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 4),
                        None => "0/1".into(),
                    },
                    N::RC(n, d) => format!("{}/{}", n, d),
                    _ => "0/1".into(),
                },
                _ => "0".into(),
            })
            .collect()
    }
    fn finish(&mut self, mut st: State, stop: Stop) {
        match stop {
            Stop::Done("return") => {
                self.paths += 1;
                if self.traces.len() < 8 || (self.paths % 97 == 0 && self.traces.len() < 32) {
                    let inputs = self.inputs_of(&st);
                    let m = st.model.clone();
                    let tr = st.trace.clone();
                    let v = tr
                        .iter()
                        .map(|(v, _)| match v {
                            V::C(c) => format!("{}", c),
                            V::T(t) => m.eval(&self.a, *t).map(|x| x.to_string()).unwrap_or("?".into()),
                            _ => "?".into(),
                        })
                        .collect();
                    self.traces.push((inputs, v));
                }
            }
            Stop::Done(_) => self.paths_killed += 1,
            Stop::Bad(msg) => {
                let is_panic = msg.starts_with("panic");
                if is_panic {
                    if let Some(c) = st.allow_panic {
                        // allowed exactly when c holds
                        let nc = self.a.not(c);
                        self.obligations += 1;
                        let r = if self.a.as_c(c) == Some(1) { Res::Unsat } else { self.query(&st, &[nc]) };
                        match r {
                            Res::Unsat => {
                                self.paths_panic += 1;
                                return;
                            }
                            Res::Sat(m) => st.model = Rc::new(Mdl::from(m)),
                            Res::Unknown(e) => {
                                self.inconclusive.push(format!("panic permission undecided: {}", e));
                                return;
                            }
                        }
                    }
                }
                // a model that mentions every input, real ones included
                if !msg.starts_with("assertion failed") || st.model.vals.is_empty() {
                    if let Res::Sat(m) = self.query(&st, &[]) {
                        st.model = Rc::new(Mdl::from(m))
                    }
                }
                let inputs = self.inputs_of(&st);
                let stack = self.stack(&st);
                self.violations.push(Violation { kind: if is_panic { "panic".into() } else if msg.starts_with("assertion") { "assert".into() } else { "memory".into() }, msg, inputs, stack, confirmed: false });
            }
            Stop::Inconclusive(m) => {
                let s = self.stack(&st);
                self.inconclusive.push(format!("{} [{}]", m, s.iter().take(4).cloned().collect::<Vec<_>>().join(" < ")));
            }
        }
    }
}
