//! Canonical multivariate polynomials over the rationals, or over one large prime field: the value
//! behind a field element handle.
use crate::term::{Arena, T};
use std::cell::Cell;

thread_local! {
    /// the field's prime (below 2^62), 0 for the rationals
    static PRIME: Cell<i128> = const { Cell::new(0) };
}
pub fn set_prime(p: u64) {
    PRIME.with(|c| c.set(p as i128))
}
pub fn prime() -> i128 {
    PRIME.with(|c| c.get())
}
/// inverse modulo the prime (of what is not a multiple of it)
fn invp(x: i128, p: i128) -> i128 {
    let (mut a, mut b, mut s, mut t) = (p, x.rem_euclid(p), 0i128, 1i128);
    while b != 0 {
        let q = a / b;
        (a, b) = (b, a - q * b);
        (s, t) = (t, s - q * t);
    }
    s.rem_euclid(p)
}

/// variable and exponent, by variable
pub type Mono = Vec<(T, u32)>;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly(pub Vec<(Mono, (i128, i128))>);

type O<X> = Option<X>;

fn gcd(mut a: i128, mut b: i128) -> i128 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t
    }
    a.abs()
}
fn norm(n: i128, d: i128) -> (i128, i128) {
    let p = prime();
    if p != 0 {
        let n = n.rem_euclid(p);
        return if d == 1 { (n, 1) } else { (n * invp(d, p) % p, 1) };
    }
    let g = gcd(n, d);
    if g == 0 {
        return (0, 1);
    }
    let s = if d < 0 { -1 } else { 1 };
    (s * n / g, s * d / g)
}
fn qadd(a: (i128, i128), b: (i128, i128)) -> O<(i128, i128)> {
    if prime() != 0 {
        return Some(norm(a.0 + b.0, 1));
    }
    let g = gcd(a.1, b.1);
    let l = (a.1 / g).checked_mul(b.1)?;
    let x = a.0.checked_mul(b.1 / g)?;
    let y = b.0.checked_mul(a.1 / g)?;
    Some(norm(x.checked_add(y)?, l))
}
fn qmul(a: (i128, i128), b: (i128, i128)) -> O<(i128, i128)> {
    if prime() != 0 {
        return Some(norm(a.0 * b.0, 1));
    }
    let g = gcd(a.0, b.1).max(1);
    let h = gcd(b.0, a.1).max(1);
    Some(norm((a.0 / g).checked_mul(b.0 / h)?, (a.1 / h).checked_mul(b.1 / g)?))
}
fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Mono::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j == b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push(a[i]);
            i += 1
        } else if i == a.len() || b[j].0 < a[i].0 {
            r.push(b[j]);
            j += 1
        } else {
            r.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1
        }
    }
    r
}
/// a / b when b divides a
fn mono_div(a: &Mono, b: &Mono) -> O<Mono> {
    let mut r = a.clone();
    for (v, e) in b {
        let k = r.iter().position(|x| x.0 == *v)?;
        if r[k].1 < *e {
            return None;
        }
        r[k].1 -= e;
        if r[k].1 == 0 {
            r.remove(k);
        }
    }
    Some(r)
}
/// a monomial order (graded, then lexicographic by variables)
fn mono_cmp(a: &Mono, b: &Mono) -> std::cmp::Ordering {
    let (x, y): (u32, u32) = (a.iter().map(|e| e.1).sum(), b.iter().map(|e| e.1).sum());
    x.cmp(&y).then_with(|| {
        // compare exponents of the smallest variable first
        let (mut i, mut j) = (0, 0);
        loop {
            match (a.get(i), b.get(j)) {
                (None, None) => return std::cmp::Ordering::Equal,
                (Some(_), None) => return std::cmp::Ordering::Greater,
                (None, Some(_)) => return std::cmp::Ordering::Less,
                (Some(p), Some(q)) => {
                    if p.0 != q.0 {
                        return q.0.cmp(&p.0);
                    }
                    if p.1 != q.1 {
                        return p.1.cmp(&q.1);
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
    })
}
fn collect(mut v: Vec<(Mono, (i128, i128))>) -> O<Poly> {
    v.sort_by(|a, b| mono_cmp(&b.0, &a.0));
    let mut r: Vec<(Mono, (i128, i128))> = Vec::with_capacity(v.len());
    for (m, c) in v {
        match r.last_mut() {
            Some(l) if l.0 == m => l.1 = qadd(l.1, c)?,
            _ => {
                if let Some(l) = r.last() {
                    if l.1 .0 == 0 {
                        r.pop();
                    }
                }
                r.push((m, c))
            }
        }
    }
    if let Some(l) = r.last() {
        if l.1 .0 == 0 {
            r.pop();
        }
    }
    Some(Poly(r))
}

pub const LIMIT: usize = 60_000;

impl Poly {
    pub fn constant(n: i128, d: i128) -> Poly {
        let c = norm(n, d);
        if c.0 == 0 {
            Poly(vec![])
        } else {
            Poly(vec![(vec![], c)])
        }
    }
    pub fn var(v: T) -> Poly {
        Poly(vec![(vec![(v, 1)], (1, 1))])
    }
    pub fn as_const(&self) -> O<(i128, i128)> {
        match self.0.len() {
            0 => Some((0, 1)),
            1 if self.0[0].0.is_empty() => Some(self.0[0].1),
            _ => None,
        }
    }
    pub fn add(&self, o: &Poly) -> O<Poly> {
        // both are sorted: merge
        let mut r = Vec::with_capacity(self.0.len() + o.0.len());
        let (mut i, mut j) = (0, 0);
        while i < self.0.len() || j < o.0.len() {
            let c = match (self.0.get(i), o.0.get(j)) {
                (Some(a), Some(b)) => mono_cmp(&a.0, &b.0),
                (Some(_), None) => std::cmp::Ordering::Greater,
                _ => std::cmp::Ordering::Less,
            };
            match c {
                std::cmp::Ordering::Greater => {
                    r.push(self.0[i].clone());
                    i += 1
                }
                std::cmp::Ordering::Less => {
                    r.push(o.0[j].clone());
                    j += 1
                }
                _ => {
                    let s = qadd(self.0[i].1, o.0[j].1)?;
                    if s.0 != 0 {
                        r.push((self.0[i].0.clone(), s));
                    }
                    i += 1;
                    j += 1
                }
            }
        }
        Some(Poly(r))
    }
    pub fn neg(&self) -> Poly {
        Poly(self.0.iter().map(|(m, c)| (m.clone(), if prime() != 0 { norm(-c.0, 1) } else { (-c.0, c.1) })).collect())
    }
    pub fn sub(&self, o: &Poly) -> O<Poly> {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Poly) -> O<Poly> {
        if self.0.len().checked_mul(o.0.len())? > LIMIT * 8 {
            return None;
        }
        let mut v = Vec::with_capacity(self.0.len() * o.0.len());
        for (m, c) in &self.0 {
            for (n, d) in &o.0 {
                v.push((mono_mul(m, n), qmul(*c, *d)?));
            }
        }
        let r = collect(v)?;
        if r.0.len() > LIMIT {
            return None;
        }
        Some(r)
    }
    /// exact quotient
    pub fn div(&self, o: &Poly) -> O<Poly> {
        let (lm, lc) = o.0.first()?.clone();
        let inv = norm(lc.1, lc.0);
        let mut rest = self.clone();
        let mut q = vec![];
        while let Some((m, c)) = rest.0.first() {
            let t = (mono_div(m, &lm)?, qmul(*c, inv)?);
            let p = Poly(vec![t.clone()]);
            rest = rest.sub(&p.mul(o)?)?;
            q.push(t);
            if q.len() > 4000 {
                return None;
            }
        }
        collect(q)
    }
    /// n/d in lower terms: common monomials are cancelled, exact quotients found, d made monic
    pub fn frac(n: &Poly, d: &Poly) -> O<(Poly, Poly)> {
        if n.0.is_empty() {
            return Some((n.clone(), Poly::constant(1, 1)));
        }
        if let Some(q) = n.div(d) {
            return Some((q, Poly::constant(1, 1)));
        }
        let (mut n, mut d) = (n.clone(), d.clone());
        if let Some(q) = d.div(&n) {
            n = Poly::constant(1, 1);
            d = q;
        } else {
            // greatest common monomial
            let mut g: Mono = n.0[0].0.clone();
            for (m, _) in n.0.iter().chain(d.0.iter()) {
                g = g.iter().filter_map(|(v, e)| m.iter().find(|x| x.0 == *v).map(|x| (*v, (*e).min(x.1)))).collect();
            }
            if !g.is_empty() {
                let p = Poly(vec![(g, (1, 1))]);
                n = n.div(&p)?;
                d = d.div(&p)?;
            }
        }
        let c = d.0.first()?.1;
        let k = Poly::constant(c.1, c.0);
        Some((n.mul(&k)?, d.mul(&k)?))
    }
    /// the variables that divide it, and the rest
    pub fn split(&self) -> (Vec<T>, Poly) {
        let mut g: Mono = match self.0.first() {
            Some(f) => f.0.clone(),
            None => return (vec![], self.clone()),
        };
        for (m, _) in &self.0 {
            g = g.iter().filter_map(|(v, e)| m.iter().find(|x| x.0 == *v).map(|x| (*v, (*e).min(x.1)))).collect();
        }
        let rest = self.0.iter().map(|(m, c)| (mono_div(m, &g).unwrap_or_default(), *c)).collect();
        (g.into_iter().map(|x| x.0).collect(), Poly(rest))
    }
    /// the arena term of this polynomial
    pub fn term(&self, a: &mut Arena) -> T {
        let mut s = a.rc(0, 1);
        for (m, c) in &self.0 {
            let mut t = a.rc(c.0, c.1);
            for (v, e) in m {
                for _ in 0..*e {
                    t = a.rmul(t, *v);
                }
            }
            s = a.radd(s, t);
        }
        s
    }
    /// primitive form of p = 0: leading coefficient one
    pub fn monic(&self) -> O<Poly> {
        match self.0.first() {
            None => Some(self.clone()),
            Some((_, c)) => self.mul(&Poly::constant(c.1, c.0)),
        }
    }
}
