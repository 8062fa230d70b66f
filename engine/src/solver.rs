//! The SMT solver behind the executor: a z3 process spoken to over a pipe, kept alive and
//! incremental, plus fresh non-incremental processes for queries the first one gives up on.
use crate::term::*;
use std::collections::HashSet;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Mv {
    B(u128),
    /// rational as decimal strings
    R(String, String),
}
/// by variable index; values of uninterpreted applications are keyed by UF_KEY | term
pub type Model = FxMap<u32, Mv>;
pub const UF_KEY: u32 = 0x8000_0000;

#[derive(Debug)]
pub enum Res {
    Sat(Model),
    Unsat,
    Unknown(String),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_ms: f64,
    pub max_ms: f64,
    pub fallback: u64,
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    emitted: FxMap<T, ()>,
    decl: HashSet<u32>,
    ufd: HashSet<u32>,
    stack: Vec<T>,
    sent: usize,
}

struct Lem {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    n: usize,
}

pub struct Solver {
    p: Option<Proc>,
    l: Option<Lem>,
    pub stats: Stats,
    pub bin: String,
    pub quick_ms: u64,
    pub long_ms: u64,
    pub log: Option<std::fs::File>,
}

impl Drop for Solver {
    fn drop(&mut self) {
        self.kill()
    }
}

static ARM: std::sync::Mutex<Option<(u32, Instant)>> = std::sync::Mutex::new(None);
extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}
/// the solver does not look at its own time limit while it reads and preprocesses: whoever waits
/// for an answer longer than this gets an end of file instead
struct Armed;
fn arm(pid: u32, ms: u64) -> Armed {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        std::thread::spawn(|| loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            let mut g = ARM.lock().unwrap();
            if let Some((p, d)) = *g {
                if Instant::now() > d {
                    unsafe { kill(p as i32, 9) };
                    *g = None;
                }
            }
        });
    });
    *ARM.lock().unwrap() = Some((pid, Instant::now() + std::time::Duration::from_millis(ms)));
    Armed
}
impl Drop for Armed {
    fn drop(&mut self) {
        *ARM.lock().unwrap() = None;
    }
}

fn spawn(bin: &str, extra: &[String]) -> std::io::Result<(Child, ChildStdin, BufReader<ChildStdout>)> {
    let mut child = Command::new(bin).arg("-in").args(extra).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
    let i = child.stdin.take().unwrap();
    let o = BufReader::new(child.stdout.take().unwrap());
    Ok((child, i, o))
}

fn read_balanced(out: &mut BufReader<ChildStdout>) -> std::io::Result<String> {
    let mut s = String::new();
    let mut depth = 0i64;
    loop {
        let mut l = String::new();
        if out.read_line(&mut l)? == 0 {
            return Ok(s);
        }
        for c in l.chars() {
            match c {
                '(' => depth += 1,
                ')' => depth -= 1,
                _ => {}
            }
        }
        s.push_str(&l);
        if depth <= 0 && !s.trim().is_empty() {
            return Ok(s);
        }
    }
}

fn toks(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '(' | ')' => {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur))
                }
                v.push(c.to_string())
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur))
                }
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        v.push(cur)
    }
    v
}

/// parse a value; returns (numerator, denominator) or bits
fn pval(t: &[String], i: &mut usize) -> Option<Mv> {
    let s = t.get(*i)?.clone();
    *i += 1;
    if let Some(h) = s.strip_prefix("#x") {
        return u128::from_str_radix(h, 16).ok().map(Mv::B);
    }
    if let Some(h) = s.strip_prefix("#b") {
        return u128::from_str_radix(h, 2).ok().map(Mv::B);
    }
    if s == "(" {
        let op = t.get(*i)?.clone();
        *i += 1;
        if op == "-" {
            let v = pval(t, i)?;
            *i += 1; // )
            if let Mv::R(n, d) = v {
                return Some(Mv::R(if let Some(p) = n.strip_prefix('-') { p.to_string() } else { format!("-{}", n) }, d));
            }
            return None;
        }
        if op == "/" {
            let a = pval(t, i)?;
            let b = pval(t, i)?;
            *i += 1;
            if let (Mv::R(n, _), Mv::R(d, _)) = (a, b) {
                return Some(Mv::R(n, d));
            }
            return None;
        }
        // algebraic number or something else: skip it
        let mut depth = 1;
        while depth > 0 {
            match t.get(*i)?.as_str() {
                "(" => depth += 1,
                ")" => depth -= 1,
                _ => {}
            }
            *i += 1;
        }
        return None;
    }
    let n = s.strip_suffix(".0").unwrap_or(&s);
    if n.chars().all(|c| c.is_ascii_digit()) {
        return Some(Mv::R(n.into(), "1".into()));
    }
    None
}

impl Solver {
    pub fn new(quick_ms: u64, long_ms: u64) -> Solver {
        let bin = std::env::var("JSYM_Z3").unwrap_or_else(|_| "z3-new".into());
        let log = std::env::var("JSYM_SMTLOG").ok().map(|p| std::fs::OpenOptions::new().create(true).append(true).open(p).unwrap());
        Solver { p: None, l: None, stats: Default::default(), bin, quick_ms, long_ms, log }
    }
    fn kill(&mut self) {
        if let Some(mut p) = self.p.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
        self.kill_lemma();
    }
    fn kill_lemma(&mut self) {
        if let Some(mut p) = self.l.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
    /// is x = y for every value of the cut nodes (and of the variables)?
    pub fn lemma(&mut self, a: &Arena, x: T, y: T, cut: &FxMap<T, ()>, ms: u64) -> Res {
        let t0 = Instant::now();
        self.stats.queries += 1;
        let r = match self.lemma_(a, x, y, cut, ms) {
            Ok(r) => r,
            Err(e) => {
                self.kill_lemma();
                Res::Unknown(e)
            }
        };
        let t = t0.elapsed().as_secs_f64() * 1000.0;
        self.stats.time_ms += t;
        if t > self.stats.max_ms {
            self.stats.max_ms = t
        }
        match r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown(_) => self.stats.unknown += 1,
        }
        r
    }
    fn lemma_(&mut self, a: &Arena, x: T, y: T, cut: &FxMap<T, ()>, ms: u64) -> Result<Res, String> {
        if self.l.as_ref().map(|l| l.n > 3000).unwrap_or(false) {
            self.kill_lemma();
        }
        if self.l.is_none() {
            let (child, mut inp, out) = spawn(&self.bin, &[]).map_err(|e| e.to_string())?;
            writeln!(inp, "(set-option :timeout {})", ms).map_err(|e| e.to_string())?;
            self.l = Some(Lem { child, inp, out, n: 0 });
        }
        let mut seen: FxMap<T, ()> = Default::default();
        let mut st = vec![x, y];
        let mut ch = vec![];
        while let Some(t) = st.pop() {
            if seen.insert(t, ()).is_some() || cut.contains_key(&t) {
                continue;
            }
            ch.clear();
            a.children(t, &mut ch);
            st.extend(ch.iter());
        }
        let mut order: Vec<T> = seen.keys().copied().collect();
        order.sort();
        let nm = |t: T| -> String {
            match a.node(t) {
                N::C(_) => a.smt(t, &|_| String::new()),
                _ => format!("t{}", t),
            }
        };
        let mut txt = String::from("(push 1)\n");
        for t in order {
            match a.node(t) {
                N::C(_) => {}
                n if cut.contains_key(&t) || matches!(n, N::V(_) | N::Uf(..)) => txt.push_str(&format!("(declare-const t{} {})\n", t, a.sort(t))),
                _ => txt.push_str(&format!("(define-fun t{} () {} {})\n", t, a.sort(t), a.smt(t, &nm))),
            }
        }
        txt.push_str(&format!("(assert (not (= {} {})))\n(check-sat)\n(pop 1)\n", nm(x), nm(y)));
        if let Some(l) = self.log.as_mut() {
            let _ = l.write_all(txt.as_bytes());
        }
        let l = self.l.as_mut().unwrap();
        l.n += 1;
        let _g = arm(l.child.id(), 2 * ms + 2000);
        l.inp.write_all(txt.as_bytes()).and_then(|_| l.inp.flush()).map_err(|e| e.to_string())?;
        let mut s = String::new();
        l.out.read_line(&mut s).map_err(|e| e.to_string())?;
        Ok(match s.trim() {
            "sat" => Res::Sat(Default::default()),
            "unsat" => Res::Unsat,
            "unknown" => Res::Unknown("unknown".into()),
            x => return Err(format!("solver said {:?}", x)),
        })
    }
    fn defs(a: &Arena, roots: &[T], emitted: &mut FxMap<T, ()>, decl: &mut HashSet<u32>, ufd: &mut HashSet<u32>, out: &mut String) {
        // collect unemitted cone
        let mut seen: FxMap<T, ()> = Default::default();
        let mut st: Vec<T> = roots.to_vec();
        let mut ch = vec![];
        while let Some(t) = st.pop() {
            if emitted.contains_key(&t) || seen.insert(t, ()).is_some() {
                continue;
            }
            ch.clear();
            a.children(t, &mut ch);
            st.extend(ch.iter());
        }
        let mut order: Vec<T> = seen.keys().copied().collect();
        order.sort();
        for t in order {
            match a.node(t) {
                N::C(_) | N::RC(..) => {}
                N::V(i) | N::RV(i) => {
                    if decl.insert(*i) {
                        out.push_str(&format!("(declare-const {} {})\n", a.vars[*i as usize].name, a.sort(t)));
                    }
                }
                n => {
                    if let N::Uf(i, _) = n {
                        if ufd.insert(*i) {
                            let u = &a.ufs[*i as usize];
                            let args: Vec<String> = u.args.iter().map(|w| format!("(_ BitVec {})", w)).collect();
                            out.push_str(&format!("(declare-fun {} ({}) (_ BitVec {}))\n", u.name, args.join(" "), u.ret));
                        }
                    }
                    let e = a.smt(t, &|x| Self::nm(a, x));
                    out.push_str(&format!("(define-fun t{} () {} {})\n", t, a.sort(t), e));
                }
            }
            emitted.insert(t, ());
        }
    }
    fn nm(a: &Arena, x: T) -> String {
        match a.node(x) {
            N::C(_) | N::RC(..) | N::V(_) | N::RV(_) => a.smt(x, &|_| String::new()),
            _ => format!("t{}", x),
        }
    }
    /// variables occurring in the cone of roots
    pub fn vars_of(a: &Arena, roots: &[T]) -> Vec<u32> {
        let mut v: Vec<u32> = a
            .cone(roots)
            .into_iter()
            .filter_map(|t| match a.node(t) {
                N::V(i) | N::RV(i) => Some(*i),
                _ => None,
            })
            .collect();
        v.sort();
        v.dedup();
        v
    }
    /// applications of uninterpreted functions in the cone of roots
    fn ufs_of(a: &Arena, roots: &[T]) -> Vec<T> {
        a.cone(roots).into_iter().filter(|t| matches!(a.node(*t), N::Uf(..))).collect()
    }
    fn get_model(a: &Arena, vs: &[u32], us: &[T], inp: &mut ChildStdin, out: &mut BufReader<ChildStdout>) -> Result<Model, String> {
        let mut m: Model = Default::default();
        let mut all: Vec<(u32, String)> = vs.iter().map(|i| (*i, a.vars[*i as usize].name.clone())).collect();
        all.extend(us.iter().map(|t| (UF_KEY | *t, format!("t{}", t))));
        for chunk in all.chunks(200) {
            let names: Vec<&str> = chunk.iter().map(|i| i.1.as_str()).collect();
            writeln!(inp, "(get-value ({}))", names.join(" ")).map_err(|e| e.to_string())?;
            inp.flush().map_err(|e| e.to_string())?;
            let s = read_balanced(out).map_err(|e| e.to_string())?;
            if s.contains("(error") {
                return Err(s);
            }
            let t = toks(&s);
            let mut i = 1;
            for (v, _) in chunk {
                // ( name value )
                if t.get(i).map(|x| x.as_str()) != Some("(") {
                    return Err(format!("unexpected model text {}", s));
                }
                i += 2;
                match pval(&t, &mut i) {
                    Some(x) => {
                        m.insert(*v, x);
                    }
                    None => return Err(format!("unparsable value in {}", s)),
                }
                i += 1;
            }
        }
        Ok(m)
    }
    fn incremental(&mut self, a: &Arena, pc: &[T], extra: &[T]) -> Result<Res, String> {
        if self.p.as_ref().map(|p| p.sent > 60_000_000).unwrap_or(false) {
            self.kill();
        }
        if self.p.is_none() {
            let (child, mut inp, out) = spawn(&self.bin, &[]).map_err(|e| e.to_string())?;
            writeln!(inp, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :pp.bv_literals true)\n(set-option :timeout {})", self.quick_ms).map_err(|e| e.to_string())?;
            self.p = Some(Proc { child, inp, out, emitted: Default::default(), decl: Default::default(), ufd: Default::default(), stack: vec![], sent: 0 });
        }
        let p = self.p.as_mut().unwrap();
        let mut txt = String::new();
        let mut all: Vec<T> = pc.to_vec();
        all.extend(extra);
        Self::defs(a, &all, &mut p.emitted, &mut p.decl, &mut p.ufd, &mut txt);
        let mut k = 0;
        while k < p.stack.len() && k < pc.len() && p.stack[k] == pc[k] {
            k += 1;
        }
        if p.stack.len() > k {
            txt.push_str(&format!("(pop {})\n", p.stack.len() - k));
            p.stack.truncate(k);
        }
        for t in &pc[k..] {
            txt.push_str(&format!("(push 1)\n(assert (= {} #b1))\n", Self::nm(a, *t)));
            p.stack.push(*t);
        }
        txt.push_str("(push 1)\n");
        for t in extra {
            txt.push_str(&format!("(assert (= {} #b1))\n", Self::nm(a, *t)));
        }
        txt.push_str("(check-sat)\n");
        if let Some(l) = self.log.as_mut() {
            let _ = l.write_all(txt.as_bytes());
        }
        p.sent += txt.len();
        let _g = arm(p.child.id(), 3 * self.quick_ms + 10_000);
        p.inp.write_all(txt.as_bytes()).and_then(|_| p.inp.flush()).map_err(|e| e.to_string())?;
        let mut l = String::new();
        p.out.read_line(&mut l).map_err(|e| e.to_string())?;
        let r = match l.trim() {
            "sat" => {
                let vs = Self::vars_of(a, &all);
                match Self::get_model(a, &vs, &Self::ufs_of(a, &all), &mut p.inp, &mut p.out) {
                    Ok(m) => Res::Sat(m),
                    Err(e) => Res::Unknown(format!("model: {}", e)),
                }
            }
            "unsat" => Res::Unsat,
            "unknown" => Res::Unknown("unknown".into()),
            x => return Err(format!("solver said {:?}", x)),
        };
        p.inp.write_all(b"(pop 1)\n").map_err(|e| e.to_string())?;
        Ok(r)
    }
    /// one query in a process of its own
    pub fn fresh(&mut self, a: &Arena, asserts: &[T], ms: u64, real: bool) -> Result<Res, String> {
        let secs = ms / 1000 + 2;
        let (mut child, mut inp, mut out) = spawn(&self.bin, &[format!("-T:{}", secs)]).map_err(|e| e.to_string())?;
        let mut txt = String::new();
        let has_uf = a.cone(asserts).iter().any(|t| matches!(a.node(*t), N::Uf(..)));
        if !real {
            txt.push_str(if has_uf { "(set-logic QF_UFBV)\n" } else { "(set-logic QF_BV)\n" });
        }
        txt.push_str(&format!("(set-option :produce-models true)\n(set-option :timeout {})\n", ms));
        Self::defs(a, asserts, &mut Default::default(), &mut Default::default(), &mut Default::default(), &mut txt);
        for t in asserts {
            txt.push_str(&format!("(assert (= {} #b1))\n", Self::nm(a, *t)));
        }
        txt.push_str("(check-sat)\n");
        if let Some(l) = self.log.as_mut() {
            let _ = l.write_all(b";; ---- fresh\n");
            let _ = l.write_all(txt.as_bytes());
        }
        let _g = arm(child.id(), ms + 15_000);
        let r = (|| -> Result<Res, String> {
            inp.write_all(txt.as_bytes()).and_then(|_| inp.flush()).map_err(|e| e.to_string())?;
            let mut l = String::new();
            out.read_line(&mut l).map_err(|e| e.to_string())?;
            Ok(match l.trim() {
                "sat" => {
                    let vs = Self::vars_of(a, asserts);
                    match Self::get_model(a, &vs, &Self::ufs_of(a, asserts), &mut inp, &mut out) {
                        Ok(m) => Res::Sat(m),
                        Err(e) => Res::Unknown(format!("model: {}", e)),
                    }
                }
                "unsat" => Res::Unsat,
                "unknown" | "timeout" | "" => Res::Unknown("unknown".into()),
                x => return Err(format!("solver said {:?}", x)),
            })
        })();
        let _ = child.kill();
        let _ = child.wait();
        r
    }
    /// is pc /\ extra satisfiable?
    pub fn check(&mut self, a: &Arena, pc: &[T], extra: &[T]) -> Res {
        self.check_ms(a, pc, extra, self.long_ms)
    }
    pub fn check_ms(&mut self, a: &Arena, pc: &[T], extra: &[T], long_ms: u64) -> Res {
        let t0 = Instant::now();
        self.stats.queries += 1;
        let mut r = match self.incremental(a, pc, extra) {
            Ok(r) => r,
            Err(e) => {
                self.kill();
                Res::Unknown(e)
            }
        };
        if let Res::Unknown(_) = r {
            if long_ms > 0 {
                self.stats.fallback += 1;
                let mut all = pc.to_vec();
                all.extend(extra);
                let real = a.cone(&all).iter().any(|t| a.width(*t) == 0);
                r = match self.fresh(a, &all, long_ms, real) {
                    Ok(r) => r,
                    Err(e) => Res::Unknown(e),
                };
            }
        }
        let ms = t0.elapsed().as_secs_f64() * 1000.0;
        self.stats.time_ms += ms;
        if ms > self.stats.max_ms {
            self.stats.max_ms = ms
        }
        match r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown(_) => self.stats.unknown += 1,
        }
        r
    }
}
