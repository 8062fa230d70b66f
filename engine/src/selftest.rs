//! Checks the term constructors and the polynomial rules against independent semantics:
//! random expressions are built twice, through the simplifying constructors and as plain SMT-LIB,
//! and z3 has to prove both equal; they are evaluated as well.
use crate::poly::Poly;
use crate::term::{mask, sx, Arena, FxMap, T};
use std::io::Write;
use std::process::{Command, Stdio};

struct R(u64);
impl R {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_f491_4f6c_dd1d)
    }
    fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 20) % n as u64) as usize
    }
    fn value(&mut self, w: u16) -> u128 {
        let m = mask(w);
        (match self.below(8) {
            0 => 0,
            1 => 1,
            2 => m,
            3 => 1u128 << self.below(w as usize),
            4 => (1u128 << self.below(w as usize)) - 1,
            5 => m << self.below(w as usize),
            6 => self.below(4) as u128,
            _ => (self.next() as u128) << 64 | self.next() as u128,
        }) & m
    }
}

/// a plain expression: its text, its value under every sample, and the term built for it
#[derive(Clone)]
struct E {
    w: u16,
    smt: String,
    vals: Vec<u128>,
    t: T,
}

struct G {
    a: Arena,
    r: R,
    defs: String,
    n: usize,
    pool: Vec<E>,
    consts: usize,
}
const SAMPLES: usize = 24;

impl G {
    fn push(&mut self, w: u16, smt: String, vals: Vec<u128>, t: T) -> E {
        let name = format!("e{}", self.n);
        self.n += 1;
        self.defs += &format!("(define-fun {} () (_ BitVec {}) {})\n", name, w, smt);
        let e = E { w, smt: name, vals, t };
        self.pool.push(e.clone());
        e
    }
    fn konst(&mut self, w: u16) -> E {
        let v = self.r.value(w);
        self.consts += 1;
        let t = self.a.c(w, v);
        E { w, smt: Arena::konst(w, v), vals: vec![v; SAMPLES], t }
    }
    fn of(&mut self, w: u16) -> E {
        if self.r.below(5) == 0 {
            return self.konst(w);
        }
        let fit: Vec<usize> = (0..self.pool.len()).filter(|i| self.pool[*i].w == w).collect();
        if fit.is_empty() {
            // resize something
            let e = self.any();
            if e.w > w {
                let lo = self.r.below((e.w - w) as usize + 1) as u16;
                let t = self.a.ext(e.t, lo, w);
                let vals = e.vals.iter().map(|v| v >> lo & mask(w)).collect();
                return self.push(w, format!("((_ extract {} {}) {})", lo + w - 1, lo, e.smt), vals, t);
            }
            let signed = self.r.below(2) == 0;
            let t = if signed { self.a.sext(e.t, w) } else { self.a.zext(e.t, w) };
            let vals = e.vals.iter().map(|v| if signed { sx(*v, e.w) as u128 & mask(w) } else { *v }).collect();
            return self.push(w, format!("((_ {} {}) {})", if signed { "sign_extend" } else { "zero_extend" }, w - e.w, e.smt), vals, t);
        }
        // recent ones more often
        let k = fit.len();
        let i = if self.r.below(2) == 0 { k - 1 - self.r.below(k.min(4)) } else { self.r.below(k) };
        self.pool[fit[i]].clone()
    }
    fn any(&mut self) -> E {
        let i = self.r.below(self.pool.len());
        self.pool[i].clone()
    }
    fn step(&mut self) {
        let w = self.any().w;
        let op = self.r.below(24);
        let z = |f: &dyn Fn(u128, u128) -> u128, x: &E, y: &E, w: u16| -> Vec<u128> { x.vals.iter().zip(&y.vals).map(|(p, q)| f(*p, *q) & mask(w)).collect() };
        match op {
            0..=14 => {
                let (x, y) = (self.of(w), self.of(w));
                let ww = w as u128;
                let (name, t, vals): (&str, T, Vec<u128>) = match op {
                    0 => ("bvadd", self.a.add(x.t, y.t), z(&|p, q| p.wrapping_add(q), &x, &y, w)),
                    1 => ("bvsub", self.a.sub(x.t, y.t), z(&|p, q| p.wrapping_sub(q), &x, &y, w)),
                    2 => ("bvmul", self.a.mul(x.t, y.t), z(&|p, q| p.wrapping_mul(q), &x, &y, w)),
                    3 => ("bvand", self.a.and(x.t, y.t), z(&|p, q| p & q, &x, &y, w)),
                    4 => ("bvor", self.a.or(x.t, y.t), z(&|p, q| p | q, &x, &y, w)),
                    5 => ("bvxor", self.a.xor(x.t, y.t), z(&|p, q| p ^ q, &x, &y, w)),
                    6 => ("bvshl", self.a.shl(x.t, y.t), z(&|p, q| if q >= ww { 0 } else { p << q }, &x, &y, w)),
                    7 => ("bvlshr", self.a.lshr(x.t, y.t), z(&|p, q| if q >= ww { 0 } else { p >> q }, &x, &y, w)),
                    8 => ("bvashr", self.a.ashr(x.t, y.t), z(&|p, q| (sx(p, w) >> q.min(ww - 1).min(127)) as u128, &x, &y, w)),
                    9 => ("bvudiv", self.a.udiv(x.t, y.t), z(&|p, q| p.checked_div(q).unwrap_or(mask(w)), &x, &y, w)),
                    10 => ("bvurem", self.a.urem(x.t, y.t), z(&|p, q| p.checked_rem(q).unwrap_or(p), &x, &y, w)),
                    11 => ("bvsdiv", self.a.sdiv(x.t, y.t), z(&|p, q| if q == 0 { if sx(p, w) < 0 { 1 } else { mask(w) } } else { sx(p, w).wrapping_div(sx(q, w)) as u128 }, &x, &y, w)),
                    12 => ("bvsrem", self.a.srem(x.t, y.t), z(&|p, q| if q == 0 { p } else { sx(p, w).wrapping_rem(sx(q, w)) as u128 }, &x, &y, w)),
                    13 => ("bvand", self.a.and(x.t, y.t), z(&|p, q| p & q, &x, &y, w)),
                    _ => ("bvor", self.a.or(x.t, y.t), z(&|p, q| p | q, &x, &y, w)),
                };
                self.push(w, format!("({} {} {})", name, x.smt, y.smt), vals, t);
            }
            15 => {
                let (x, y) = (self.any(), self.any());
                if x.w + y.w <= 128 {
                    let t = self.a.cat(vec![x.t, y.t]);
                    let vals = z(&|p, q| p << y.w | q, &x, &y, x.w + y.w);
                    self.push(x.w + y.w, format!("(concat {} {})", x.smt, y.smt), vals, t);
                }
            }
            16 => {
                let x = self.any();
                let n = 1 + self.r.below(x.w as usize) as u16;
                let lo = self.r.below((x.w - n) as usize + 1) as u16;
                let t = self.a.ext(x.t, lo, n);
                let vals = x.vals.iter().map(|v| v >> lo & mask(n)).collect();
                self.push(n, format!("((_ extract {} {}) {})", lo + n - 1, lo, x.smt), vals, t);
            }
            17 | 18 => {
                let x = self.any();
                let k = self.r.below(20) as u16;
                if x.w + k <= 128 {
                    let n = x.w + k;
                    let t = if op == 17 { self.a.zext(x.t, n) } else { self.a.sext(x.t, n) };
                    let vals = x.vals.iter().map(|v| if op == 17 { *v } else { sx(*v, x.w) as u128 & mask(n) }).collect();
                    self.push(n, format!("((_ {} {}) {})", if op == 17 { "zero_extend" } else { "sign_extend" }, k, x.smt), vals, t);
                }
            }
            19 => {
                let x = self.any();
                let s = self.r.below(x.w as usize) as u16;
                let t = self.a.rotl(x.t, s);
                let vals = x.vals.iter().map(|v| if s == 0 { *v } else { (v << s | v >> (x.w - s)) & mask(x.w) }).collect();
                self.push(x.w, format!("((_ rotate_left {}) {})", s, x.smt), vals, t);
            }
            20 | 21 => {
                let c = self.of(1);
                let (x, y) = (self.of(w), self.of(w));
                let t = self.a.ite(c.t, x.t, y.t);
                let vals = (0..SAMPLES).map(|i| if c.vals[i] == 1 { x.vals[i] } else { y.vals[i] }).collect();
                self.push(w, format!("(ite (= {} #b1) {} {})", c.smt, x.smt, y.smt), vals, t);
            }
            _ => {
                let (x, y) = (self.of(w), self.of(w));
                let (name, t, vals): (&str, T, Vec<u128>) = match self.r.below(4) {
                    0 => ("=", self.a.eq(x.t, y.t), z(&|p, q| (p == q) as u128, &x, &y, 1)),
                    1 => ("=", self.a.eq(y.t, x.t), z(&|p, q| (p == q) as u128, &x, &y, 1)),
                    2 => ("bvult", self.a.ult(x.t, y.t), z(&|p, q| (p < q) as u128, &x, &y, 1)),
                    _ => ("bvslt", self.a.slt(x.t, y.t), z(&|p, q| (sx(p, w) < sx(q, w)) as u128, &x, &y, 1)),
                };
                self.push(1, format!("(ite ({} {} {}) #b1 #b0)", name, x.smt, y.smt), vals, t);
            }
        }
    }
}

fn terms(seed: u64, rounds: usize, steps: usize) -> Result<(usize, usize), String> {
    let mut script = String::from("(set-option :timeout 4000)\n");
    let mut asked = 0;
    let mut evaluated = 0;
    let mut what = vec![];
    for k in 0..rounds {
        let mut g = G { a: Arena::new(), r: R(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (k as u64 + 1).wrapping_mul(0xd1b5_4a32_d192_ed03) | 1), defs: String::new(), n: 0, pool: vec![], consts: 0 };
        let widths: &[u16] = [&[1u16, 8][..], &[4, 8], &[1, 5, 7], &[8, 8, 16], &[1, 3, 12], &[1, 32, 64], &[64, 128, 8]][k % 7];
        let mut decl = String::new();
        let mut values: Vec<Vec<u128>> = vec![];
        for i in 0..4 {
            let w = widths[i % widths.len()];
            let name = format!("v{}", i);
            let max = if g.r.below(3) == 0 { g.r.value(w) } else { mask(w) };
            let t = if max == mask(w) { g.a.var(w, &name) } else { g.a.var_max(w, &name, max) };
            let name = g.a.vars.last().unwrap().name.clone();
            decl += &format!("(declare-const {} (_ BitVec {}))\n(assert (bvule {} {}))\n", name, w, name, Arena::konst(w, max));
            let vals: Vec<u128> = (0..SAMPLES).map(|_| { let v = g.r.value(w); if v > max { if max == u128::MAX { v } else { v % (max + 1) } } else { v } }).collect();
            values.push(vals.clone());
            g.pool.push(E { w, smt: name, vals, t });
        }
        for _ in 0..steps {
            g.step();
        }
        // evaluation of every term
        let roots: Vec<T> = g.pool.iter().map(|e| e.t).collect();
        let order = g.a.cone(&roots);
        for s in 0..SAMPLES {
            let mut m: FxMap<T, u128> = Default::default();
            g.a.eval_into(&order, &mut m, &|i| values[i as usize][s], &|_, _, _| None);
            for e in &g.pool {
                evaluated += 1;
                if m.get(&e.t) != Some(&e.vals[s]) {
                    return Err(format!("round {}: term of {} evaluates to {:?}, not {:x}\n{}", k, e.smt, m.get(&e.t), e.vals[s], g.defs));
                }
                if e.vals[s] > g.a.umax[e.t as usize] {
                    return Err(format!("round {}: {} exceeds the bound kept for its term", k, e.smt));
                }
            }
        }
        // (wide ones are only evaluated)
        if widths.iter().any(|w| *w > 16) {
            continue;
        }
        // the last expressions against their plain form
        script += "(push 1)\n";
        script += &decl;
        script += &g.defs;
        for t in &order {
            script += &format!("(define-fun t{} () {} {})\n", t, g.a.sort(*t), g.a.smt(*t, &|x| if let Some(c) = g.a.as_c(x) { Arena::konst(g.a.width(x), c) } else { format!("t{}", x) }));
        }
        for e in g.pool.iter().rev().take(6) {
            script += &format!("(push 1)\n(assert (not (= {} t{})))\n(check-sat)\n(pop 1)\n", e.smt, e.t);
            what.push(format!("round {} {}", k, e.smt));
            asked += 1;
        }
        script += "(pop 1)\n";
    }
    let mut c = Command::new("z3").args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().map_err(|e| e.to_string())?;
    let mut pipe = c.stdin.take().unwrap();
    let w = std::thread::spawn(move || pipe.write_all(script.as_bytes()));
    let out = c.wait_with_output().map_err(|e| e.to_string())?;
    let _ = w.join();
    let out = String::from_utf8_lossy(&out.stdout).into_owned();
    let answers: Vec<&str> = out.lines().collect();
    if answers.len() != asked {
        return Err(format!("{} answers to {} queries: {:?}", answers.len(), asked, answers.iter().find(|a| a.starts_with("(error"))));
    }
    let mut proved = 0;
    for (a, w) in answers.iter().zip(&what) {
        match *a {
            "unsat" => proved += 1,
            "unknown" | "timeout" => {}
            a => return Err(format!("{}: {}", w, a)),
        }
    }
    Ok((proved, evaluated))
}

const P: u128 = (1 << 61) - 1;
fn pw(mut b: u128, mut e: u128) -> u128 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % P;
        }
        b = b * b % P;
        e >>= 1;
    }
    r
}
fn red(x: i128) -> u128 {
    x.rem_euclid(P as i128) as u128
}
fn at(p: &Poly, x: &[u128]) -> u128 {
    let mut s = 0;
    for (m, c) in &p.0 {
        let mut t = red(c.0) * pw(red(c.1), P - 2) % P;
        for (v, e) in m {
            t = t * pw(x[*v as usize], *e as u128) % P;
        }
        s = (s + t) % P;
    }
    s
}
fn polys(seed: u64, rounds: usize) -> Result<usize, String> {
    let mut r = R(seed | 1);
    let mut n = 0;
    for k in 0..rounds {
        let x: Vec<u128> = (0..4).map(|_| r.next() as u128 % P).collect();
        let mut pool: Vec<(Poly, u128)> = (0..4).map(|v| (Poly::var(v), x[v as usize])).collect();
        for c in [(1, 1), (-1, 1), (3, 2), (0, 1), (-7, 5)] {
            pool.push((Poly::constant(c.0, c.1), red(c.0) * pw(red(c.1), P - 2) % P));
        }
        for _ in 0..25 {
            let (i, j) = (r.below(pool.len()), r.below(pool.len()));
            let ((a, va), (b, vb)) = (pool[i].clone(), pool[j].clone());
            let (q, v) = match r.below(6) {
                0 | 1 => (a.add(&b), (va + vb) % P),
                2 => (a.sub(&b), (va + P - vb) % P),
                3 => (a.mul(&b), va * vb % P),
                4 => {
                    // exact quotient of a product, and of what is no multiple
                    if b.0.is_empty() {
                        continue;
                    }
                    if let Some(ab) = a.mul(&b) {
                        match ab.div(&b) {
                            Some(q) if q == a => {}
                            q => return Err(format!("round {}: ({:?} * {:?}) / .. = {:?}", k, a, b, q)),
                        }
                    }
                    match a.div(&b) {
                        Some(q) => (Some(q), va * pw(vb, P - 2) % P),
                        None => continue,
                    }
                }
                _ => {
                    if b.0.is_empty() {
                        continue;
                    }
                    if let Some((p, q)) = Poly::frac(&a, &b) {
                        n += 1;
                        if va * at(&q, &x) % P != vb * at(&p, &x) % P {
                            return Err(format!("round {}: {:?} / {:?} became {:?} / {:?}", k, a, b, p, q));
                        }
                        if let Some(m) = a.monic() {
                            if m.0.is_empty() != a.0.is_empty() || (!m.0.is_empty() && at(&m, &x) * red(a.0[0].1 .0) % P * pw(red(a.0[0].1 .1), P - 2) % P != va) {
                                return Err(format!("round {}: monic({:?})", k, a));
                            }
                        }
                    }
                    continue;
                }
            };
            let q = match q {
                Some(q) => q,
                None => continue,
            };
            n += 1;
            if at(&q, &x) != v {
                return Err(format!("round {}: {:?} and {:?} gave {:?}", k, a, b, q));
            }
            // canonical: no zero coefficients, equal values are equal polynomials
            if q.0.iter().any(|m| m.1 .0 == 0) {
                return Err(format!("round {}: zero coefficient in {:?}", k, q));
            }
            for (o, vo) in &pool {
                if (*vo == v) != (*o == q) {
                    return Err(format!("round {}: {:?} and {:?}: equal values {}, equal forms {}", k, o, q, *vo == v, *o == q));
                }
            }
            if q.0.len() < 60 {
                pool.push((q, v));
            }
        }
    }
    Ok(n)
}

pub fn run(seed: u64, rounds: usize) -> i32 {
    let t = std::time::Instant::now();
    let mut parts = vec![];
    // several solver processes
    for k in 0..8u64 {
        parts.push(std::thread::spawn(move || terms(seed * 8 + k, rounds / 8 + 1, 24)));
    }
    let (mut proved, mut evaluated) = (0, 0);
    for p in parts {
        match p.join().unwrap_or_else(|_| Err("panicked".into())) {
            Ok((p, e)) => {
                proved += p;
                evaluated += e
            }
            Err(e) => {
                println!("selftest: simplifier: {}", e);
                return 1;
            }
        }
    }
    // over the rationals, then over the prime field
    let both = polys(seed + 17, rounds).and_then(|n| {
        crate::poly::set_prime(P as u64);
        let m = polys(seed + 18, rounds);
        crate::poly::set_prime(0);
        m.map(|m| n + m)
    });
    let n = match both {
        Ok(n) => n,
        Err(e) => {
            println!("selftest: polynomials: {}", e);
            return 1;
        }
    };
    println!("selftest: {} expressions proved equal to their plain form, {} evaluations, {} polynomial operations, {:.1} s", proved, evaluated, n, t.elapsed().as_secs_f64());
    0
}
