//! Hash-consed terms over bit-vectors (width 1..=128) and reals (width 0), with the
//! normalising constructors the symbolic executor builds its values from.
//! Every constructor returns a term that denotes the same function of the variables as the
//! operation it is named after; `eval` is the independent semantics used to cross-check models.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct FxHasher(u64);
impl Hasher for FxHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = 0u64;
            for (i, v) in c.iter().enumerate() {
                x |= (*v as u64) << (8 * i)
            }
            self.write_u64(x)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<FxHasher>>;

pub type T = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    C(u128),
    V(u32),
    Sum(u128, Box<[(T, u128)]>),
    Mul(T, T),
    And(Box<[T]>),
    Or(Box<[T]>),
    Xor(u128, Box<[T]>),
    /// most significant part first
    Cat(Box<[T]>),
    Ext(T, u16),
    Shl(T, T),
    Lshr(T, T),
    Ashr(T, T),
    Udiv(T, T),
    Urem(T, T),
    Sdiv(T, T),
    Srem(T, T),
    Sext(T),
    Ite(T, T, T),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Uf(u32, Box<[T]>),
    // real sort (w == 0)
    RC(i128, i128),
    RV(u32),
    RAdd(T, T),
    RMul(T, T),
    RNeg(T),
    REq(T, T),
}

pub struct VarInfo {
    pub name: String,
    pub w: u16,
}

pub struct UfInfo {
    pub name: String,
    pub args: Vec<u16>,
    pub ret: u16,
}

pub struct Arena {
    pub nodes: Vec<N>,
    pub w: Vec<u16>,
    pub umax: Vec<u128>,
    map: FxMap<(u16, N), T>,
    pub vars: Vec<VarInfo>,
    pub ufs: Vec<UfInfo>,
    ufmap: HashMap<String, u32>,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}
fn bits(v: u128) -> u16 {
    (128 - v.leading_zeros()) as u16
}
fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: vec![],
            w: vec![],
            umax: vec![],
            map: Default::default(),
            vars: vec![],
            ufs: vec![],
            ufmap: Default::default(),
        };
        // id 0 is reserved so that 0 can mean "concrete byte"
        a.mk(8, N::C(0), 0);
        a
    }
    pub fn len(&self) -> usize {
        self.nodes.len()
    }
    fn mk(&mut self, w: u16, n: N, umax: u128) -> T {
        if let Some(t) = self.map.get(&(w, n.clone())) {
            return *t;
        }
        let id = self.nodes.len() as T;
        self.nodes.push(n.clone());
        self.w.push(w);
        self.umax.push(umax.min(if w == 0 { u128::MAX } else { mask(w) }));
        self.map.insert((w, n), id);
        id
    }
    pub fn width(&self, t: T) -> u16 {
        self.w[t as usize]
    }
    pub fn node(&self, t: T) -> &N {
        &self.nodes[t as usize]
    }
    pub fn um(&self, t: T) -> u128 {
        self.umax[t as usize]
    }
    pub fn c(&mut self, w: u16, v: u128) -> T {
        let v = v & mask(w);
        self.mk(w, N::C(v), v)
    }
    pub fn as_c(&self, t: T) -> Option<u128> {
        if let N::C(v) = self.nodes[t as usize] {
            Some(v)
        } else {
            None
        }
    }
    pub fn var(&mut self, w: u16, name: &str) -> T {
        let i = self.vars.len() as u32;
        self.vars.push(VarInfo { name: format!("{}_{}", name, i), w });
        if w == 0 {
            self.mk(0, N::RV(i), u128::MAX)
        } else {
            self.mk(w, N::V(i), mask(w))
        }
    }
    /// variable with the invariant value <= max (the caller must assert it as a constraint)
    pub fn var_max(&mut self, w: u16, name: &str, max: u128) -> T {
        let i = self.vars.len() as u32;
        self.vars.push(VarInfo { name: format!("{}_{}", name, i), w });
        self.mk(w, N::V(i), max)
    }
    pub fn uf(&mut self, name: &str, args: Vec<T>, ret: u16) -> T {
        let key = format!("{}/{}/{}", name, args.iter().map(|a| self.width(*a).to_string()).collect::<Vec<_>>().join("_"), ret);
        let id = match self.ufmap.get(&key) {
            Some(i) => *i,
            None => {
                let i = self.ufs.len() as u32;
                let info = UfInfo { name: format!("uf_{}_{}", name, i), args: args.iter().map(|a| self.width(*a)).collect(), ret };
                self.ufs.push(info);
                self.ufmap.insert(key, i);
                i
            }
        };
        self.mk(ret, N::Uf(id, args.into_boxed_slice()), mask(ret))
    }

    // ---------------------------------------------------------------- sums
    fn add_into(&mut self, acc: &mut Vec<(T, u128)>, k: &mut u128, t: T, coef: u128, w: u16) {
        match &self.nodes[t as usize] {
            N::C(v) => *k = k.wrapping_add(v.wrapping_mul(coef)) & mask(w),
            N::Sum(c, ts) => {
                *k = k.wrapping_add(c.wrapping_mul(coef)) & mask(w);
                for (x, cc) in ts.iter() {
                    acc.push((*x, cc.wrapping_mul(coef) & mask(w)))
                }
            }
            // bitwise complement: ~x = -x - 1
            N::Xor(c, ts) if *c == mask(w) && w > 1 && ts.len() == 1 => {
                *k = k.wrapping_sub(coef) & mask(w);
                let m = (0u128.wrapping_sub(coef)) & mask(w);
                self.add_into(acc, k, ts[0], m, w);
            }
            // constant bits of a concatenation
            N::Cat(ps) if ps.iter().any(|p| matches!(self.nodes[*p as usize], N::C(c) if c != 0)) => {
                let mut parts = vec![];
                let mut v = 0u128;
                for p in ps.clone().iter() {
                    let pw = self.width(*p);
                    match self.nodes[*p as usize] {
                        N::C(c) => {
                            v = (v << pw) | c;
                            parts.push(self.c(pw, 0));
                        }
                        _ => {
                            v <<= pw;
                            parts.push(*p);
                        }
                    }
                }
                *k = k.wrapping_add(v.wrapping_mul(coef)) & mask(w);
                let t = self.cat(parts);
                acc.push((t, coef & mask(w)))
            }
            _ => acc.push((t, coef & mask(w))),
        }
    }
    /// the terms whose bits a concatenation rearranges
    fn cat_sources(&self, t: T) -> Vec<T> {
        match &self.nodes[t as usize] {
            N::Cat(ps) => ps
                .iter()
                .filter_map(|p| match self.nodes[*p as usize] {
                    N::C(_) => None,
                    N::Ext(x, _) => Some(x),
                    _ => Some(*p),
                })
                .collect(),
            _ => vec![],
        }
    }
    fn fin_sum(&mut self, w: u16, k: u128, mut acc: Vec<(T, u128)>) -> T {
        acc.sort_by_key(|x| x.0);
        let mut out: Vec<(T, u128)> = vec![];
        for (t, c) in acc {
            if let Some(l) = out.last_mut() {
                if l.0 == t {
                    l.1 = l.1.wrapping_add(c) & mask(w);
                    continue;
                }
            }
            out.push((t, c));
        }
        out.retain(|x| x.1 != 0);
        if out.is_empty() {
            return self.c(w, k);
        }
        if out.len() == 1 && k == 0 {
            if out[0].1 == 1 {
                return out[0].0;
            }
            if out[0].1.is_power_of_two() {
                let s = out[0].1.trailing_zeros() as u16;
                return self.shl_c(out[0].0, s);
            }
        }
        if out.len() == 1 && out[0].1 == mask(w) && k == mask(w) {
            return self.not(out[0].0);
        }
        // halves of one rotated word that were added separately
        if out.len() >= 2 && w > 1 {
            let cats: Vec<T> = out.iter().filter(|x| x.1 == 1 && matches!(self.nodes[x.0 as usize], N::Cat(_))).map(|x| x.0).collect();
            if cats.len() >= 2 {
                let src: Vec<Vec<T>> = cats.iter().map(|t| self.cat_sources(*t)).collect();
                let mut hit = None;
                'o: for i in 0..cats.len() {
                    for j in i + 1..cats.len() {
                        if src[i].iter().any(|x| src[j].contains(x)) {
                            if let Some(t) = self.disjoint(w, &[cats[i], cats[j]]) {
                                hit = Some((cats[i], cats[j], t));
                                break 'o;
                            }
                        }
                    }
                }
                if let Some((x, y, t)) = hit {
                    let mut acc: Vec<(T, u128)> = out.into_iter().filter(|z| z.0 != x && z.0 != y).collect();
                    let mut k = k;
                    self.add_into(&mut acc, &mut k, t, 1, w);
                    return self.fin_sum(w, k, acc);
                }
            }
        }
        // disjoint parts: an addition without carries is a concatenation
        if out.iter().all(|x| x.1 == 1) && out.iter().any(|x| matches!(self.nodes[x.0 as usize], N::Cat(_))) {
            let mut ops: Vec<T> = out.iter().map(|x| x.0).collect();
            if k != 0 {
                ops.push(self.c(w, k));
            }
            if let Some(t) = self.disjoint(w, &ops) {
                return t;
            }
        }
        let mut um: Option<u128> = Some(k);
        for (t, c) in &out {
            um = um.and_then(|u| self.um(*t).checked_mul(*c).and_then(|x| u.checked_add(x)));
        }
        let um = match um {
            Some(u) if u <= mask(w) => u,
            _ => mask(w),
        };
        self.mk(w, N::Sum(k, out.into_boxed_slice()), um)
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if w == 1 {
            return self.xor(a, b);
        }
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            return self.c(w, x.wrapping_add(y));
        }
        let mut k = 0;
        let mut acc = vec![];
        self.add_into(&mut acc, &mut k, a, 1, w);
        self.add_into(&mut acc, &mut k, b, 1, w);
        self.fin_sum(w, k, acc)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        if w == 1 {
            return self.xor(a, b);
        }
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            return self.c(w, x.wrapping_sub(y));
        }
        let mut k = 0;
        let mut acc = vec![];
        self.add_into(&mut acc, &mut k, a, 1, w);
        self.add_into(&mut acc, &mut k, b, mask(w), w);
        let r = self.fin_sum(w, k, acc);
        r
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        if w == 1 {
            return self.and(a, b);
        }
        let (a, b) = if self.as_c(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.as_c(b) {
            if let Some(x) = self.as_c(a) {
                return self.c(w, x.wrapping_mul(y));
            }
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if let N::Ite(c, x, z) = *self.node(a) {
                if self.as_c(x).is_some() || self.as_c(z).is_some() {
                    let l = self.mul(x, b);
                    let r = self.mul(z, b);
                    return self.ite(c, l, r);
                }
            }
            let mut k = 0;
            let mut acc = vec![];
            self.add_into(&mut acc, &mut k, a, y, w);
            return self.fin_sum(w, k, acc);
        }
        let (x, y) = if a <= b { (a, b) } else { (b, a) };
        let um = self.um(x).checked_mul(self.um(y)).filter(|u| *u <= mask(w)).unwrap_or(mask(w));
        // narrow when the product fits in fewer bits
        let nb = bits(um);
        if um < mask(w) && nb + 1 < w && nb > 0 {
            let xl = self.ext(x, 0, nb.max(bits(self.um(x))).max(bits(self.um(y))));
            let nw = self.width(xl);
            let yl = self.ext(y, 0, nw);
            if self.as_c(xl).is_none() && self.as_c(yl).is_none() && nw < w {
                let (xl, yl) = if xl <= yl { (xl, yl) } else { (yl, xl) };
                let m = self.mk(nw, N::Mul(xl, yl), um);
                return self.zext(m, w);
            }
        }
        self.mk(w, N::Mul(x, y), um)
    }
    pub fn neg(&mut self, a: T) -> T {
        let z = self.c(self.width(a), 0);
        self.sub(z, a)
    }

    // ------------------------------------------------------------- bitwise
    pub fn not(&mut self, a: T) -> T {
        let w = self.width(a);
        let m = self.c(w, mask(w));
        self.xor(a, m)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            return self.c(w, x ^ y);
        }
        let mut k = 0u128;
        let mut v: Vec<T> = vec![];
        for t in [a, b] {
            match &self.nodes[t as usize] {
                N::C(c) => k ^= c,
                N::Xor(c, ts) => {
                    k ^= c;
                    v.extend(ts.iter())
                }
                _ => v.push(t),
            }
        }
        v.sort();
        let mut out: Vec<T> = vec![];
        for t in v {
            if out.last() == Some(&t) {
                out.pop();
            } else {
                out.push(t)
            }
        }
        if out.is_empty() {
            return self.c(w, k);
        }
        if k == 0 && out.len() == 1 {
            return out[0];
        }
        if w == 1 && k == 1 && out.len() == 1 {
            // push negation through ite / comparisons for a canonical form
            if let N::Ite(c, x, y) = *self.node(out[0]) {
                let x = self.not(x);
                let y = self.not(y);
                return self.ite(c, x, y);
            }
        }
        if w > 1 && k == 0 || (w > 1 && k != mask(w)) {
            let mut ops = out.clone();
            if k != 0 {
                ops.push(self.c(w, k));
            }
            if let Some(t) = self.disjoint(w, &ops) {
                return t;
            }
        }
        let mut um = k;
        for t in &out {
            um |= mask(bits(self.um(*t)));
        }
        um = mask(bits(um));
        self.mk(w, N::Xor(k, out.into_boxed_slice()), um)
    }
    /// segments of a term as (width, is_zero, term-or-none); most significant first
    fn segs(&self, t: T) -> Vec<(u16, bool)> {
        let w = self.width(t);
        match &self.nodes[t as usize] {
            N::C(v) => {
                let mut r = vec![];
                let mut i = w as i32 - 1;
                while i >= 0 {
                    let z = (v >> i) & 1 == 0;
                    let mut n = 0;
                    while i >= 0 && ((v >> i) & 1 == 0) == z {
                        n += 1;
                        i -= 1;
                    }
                    r.push((n, z));
                }
                r
            }
            N::Cat(ps) => ps.iter().flat_map(|p| if let N::C(_) = self.nodes[*p as usize] { self.segs(*p) } else { vec![(self.width(*p), false)] }).collect(),
            _ => {
                let nb = bits(self.um(t));
                if nb < w {
                    if nb == 0 {
                        vec![(w, true)]
                    } else {
                        vec![(w - nb, true), (nb, false)]
                    }
                } else {
                    vec![(w, false)]
                }
            }
        }
    }
    /// if at most one operand is non-zero at every bit, or/xor/add is a concatenation
    fn disjoint(&mut self, w: u16, ops: &[T]) -> Option<T> {
        if ops.len() < 2 {
            return None;
        }
        let mut owner: Vec<Option<u32>> = vec![None; w as usize]; // index from msb
        for (i, t) in ops.iter().enumerate() {
            let mut pos = 0usize;
            for (n, z) in self.segs(*t) {
                for b in pos..pos + n as usize {
                    if !z {
                        if owner[b].is_some() {
                            return None;
                        }
                        owner[b] = Some(i as u32);
                    }
                }
                pos += n as usize;
            }
        }
        let mut parts = vec![];
        let mut i = 0usize;
        while i < w as usize {
            let o = owner[i];
            let mut j = i;
            while j < w as usize && owner[j] == o {
                j += 1;
            }
            let lo = w - j as u16;
            let n = (j - i) as u16;
            parts.push(match o {
                None => self.c(n, 0),
                Some(k) => self.ext(ops[k as usize], lo, n),
            });
            i = j;
        }
        Some(self.cat(parts))
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let (a, b) = if self.as_c(a).is_some() { (b, a) } else { (a, b) };
        if let Some(m) = self.as_c(b) {
            if let Some(x) = self.as_c(a) {
                return self.c(w, x & m);
            }
            if m == 0 {
                return b;
            }
            if m == mask(w) {
                return a;
            }
            let segs = self.segs(b);
            if segs.len() <= 9 {
                let mut parts = vec![];
                let mut pos = w;
                for (n, z) in segs {
                    pos -= n;
                    parts.push(if z { self.c(n, 0) } else { self.ext(a, pos, n) });
                }
                return self.cat(parts);
            }
        }
        let mut v: Vec<T> = vec![];
        let mut k = mask(w);
        for t in [a, b] {
            match &self.nodes[t as usize] {
                N::C(c) => k &= c,
                N::And(ts) => {
                    for x in ts.iter() {
                        if let N::C(c) = self.nodes[*x as usize] {
                            k &= c
                        } else {
                            v.push(*x)
                        }
                    }
                }
                _ => v.push(t),
            }
        }
        v.sort();
        v.dedup();
        if k == 0 {
            return self.c(w, 0);
        }
        // x & ~x = 0
        for t in v.clone() {
            let n = self.find_not(t);
            if let Some(n) = n {
                if v.binary_search(&n).is_ok() {
                    return self.c(w, 0);
                }
            }
        }
        if v.is_empty() {
            return self.c(w, k);
        }
        if k != mask(w) {
            let c = self.c(w, k);
            v.push(c);
            v.sort();
        }
        if v.len() == 1 {
            return v[0];
        }
        let um = v.iter().map(|t| self.um(*t)).min().unwrap();
        let um = mask(bits(um));
        self.mk(w, N::And(v.into_boxed_slice()), um)
    }
    fn find_not(&self, t: T) -> Option<T> {
        let w = self.width(t);
        if let N::Xor(k, ts) = &self.nodes[t as usize] {
            if *k == mask(w) && ts.len() == 1 {
                return Some(ts[0]);
            }
        }
        self.map.get(&(w, N::Xor(mask(w), vec![t].into_boxed_slice()))).copied()
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            return self.c(w, x | y);
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(m) = self.as_c(y) {
                if m == 0 {
                    return x;
                }
                if m == mask(w) {
                    return y;
                }
                let segs = self.segs(y);
                if segs.len() <= 9 {
                    let mut parts = vec![];
                    let mut pos = w;
                    for (n, z) in segs {
                        pos -= n;
                        parts.push(if z { self.ext(x, pos, n) } else { self.c(n, mask(n)) });
                    }
                    return self.cat(parts);
                }
            }
        }
        let mut v: Vec<T> = vec![];
        for t in [a, b] {
            match &self.nodes[t as usize] {
                N::Or(ts) => v.extend(ts.iter()),
                _ => v.push(t),
            }
        }
        v.sort();
        v.dedup();
        for t in v.clone() {
            if let Some(n) = self.find_not(t) {
                if v.binary_search(&n).is_ok() {
                    return self.c(w, mask(w));
                }
            }
        }
        if v.len() == 1 {
            return v[0];
        }
        if w > 1 {
            if let Some(t) = self.disjoint(w, &v.clone()) {
                return t;
            }
        }
        let mut um = 0;
        for t in &v {
            um |= mask(bits(self.um(*t)));
        }
        self.mk(w, N::Or(v.into_boxed_slice()), um)
    }

    // ------------------------------------------------- concat / extract / shifts
    pub fn cat(&mut self, parts: Vec<T>) -> T {
        // flatten and merge
        let mut out: Vec<T> = vec![];
        for p in parts {
            let subs: Vec<T> = match &self.nodes[p as usize] {
                N::Cat(ps) => ps.to_vec(),
                _ => vec![p],
            };
            for s in subs {
                if self.width(s) == 0 {
                    continue;
                }
                if let Some(&l) = out.last() {
                    if let (Some(x), Some(y)) = (self.as_c(l), self.as_c(s)) {
                        let (wl, ws) = (self.width(l), self.width(s));
                        out.pop();
                        let n = self.c(wl + ws, (x << ws) | y);
                        out.push(n);
                        continue;
                    }
                    let le = match *self.node(l) {
                        N::Ext(t, lo) => Some((t, lo)),
                        _ => None,
                    };
                    let se = match *self.node(s) {
                        N::Ext(t, lo) => (t, lo),
                        _ => (s, 0),
                    };
                    if let Some((t, lo)) = le {
                        let ws = self.width(s);
                        if t == se.0 && lo == se.1 + ws {
                            let wl = self.width(l);
                            out.pop();
                            let n = self.ext(t, se.1, wl + ws);
                            out.push(n);
                            continue;
                        }
                    }
                }
                out.push(s);
            }
        }
        if out.len() == 1 {
            return out[0];
        }
        // leading zero that only restores the width of a narrowed term: keep as is
        let w: u16 = out.iter().map(|t| self.width(*t)).sum();
        let mut um = 0u128;
        for t in &out {
            um = (if self.width(*t) >= 128 { 0 } else { um << self.width(*t) }) | self.um(*t);
        }
        self.mk(w, N::Cat(out.into_boxed_slice()), um)
    }
    pub fn ext(&mut self, t: T, lo: u16, n: u16) -> T {
        let w = self.width(t);
        debug_assert!(n > 0 && lo + n <= w, "ext {} {} of {}", lo, n, w);
        if lo == 0 && n == w {
            return t;
        }
        if self.um(t) >> lo == 0 {
            return self.c(n, 0);
        }
        match self.node(t).clone() {
            N::C(v) => return self.c(n, v >> lo),
            N::Ext(x, l2) => return self.ext(x, l2 + lo, n),
            N::Cat(ps) => {
                let mut parts = vec![];
                let mut pos = w;
                for p in ps.iter() {
                    let pw = self.width(*p);
                    let plo = pos - pw; // this part covers [plo, pos)
                    let a = plo.max(lo);
                    let b = pos.min(lo + n);
                    if a < b {
                        let e = self.ext(*p, a - plo, b - a);
                        parts.push(e);
                    }
                    pos = plo;
                }
                return self.cat(parts);
            }
            N::Ite(c, x, y) => {
                if self.as_c(x).is_some() || self.as_c(y).is_some() {
                    let x = self.ext(x, lo, n);
                    let y = self.ext(y, lo, n);
                    return self.ite(c, x, y);
                }
            }
            N::Sext(x) => {
                let xw = self.width(x);
                if lo + n <= xw {
                    return self.ext(x, lo, n);
                }
                if lo == 0 {
                    return self.sext(x, n);
                }
            }
            // low bits of bitwise operations and sums are the operations on the low bits
            N::Sum(k, ts) if lo == 0 && ts.iter().all(|x| !matches!(self.nodes[x.0 as usize], N::Mul(..) | N::Udiv(..) | N::Urem(..))) && n >= 8 && w > n && ts.iter().all(|x| self.narrowable(x.0, n)) => {
                let mut kk = k & mask(n);
                let mut acc = vec![];
                for (x, c) in ts.iter() {
                    let e = self.ext(*x, 0, n);
                    self.add_into(&mut acc, &mut kk, e, c & mask(n), n);
                }
                return self.fin_sum(n, kk, acc);
            }
            _ => {}
        }
        let um = (self.um(t) >> lo).min(mask(n));
        let um = if bits(self.um(t)) <= lo + n { um } else { mask(n) };
        self.mk(n, N::Ext(t, lo), um)
    }
    /// the low n bits hold the whole value (zero- or sign-extended)
    fn narrowable(&self, t: T, n: u16) -> bool {
        match &self.nodes[t as usize] {
            N::Cat(_) => bits(self.um(t)) <= n,
            N::Sext(x) => self.width(*x) <= n,
            _ => false,
        }
    }
    pub fn zext(&mut self, t: T, w: u16) -> T {
        let tw = self.width(t);
        if tw == w {
            return t;
        }
        let z = self.c(w - tw, 0);
        self.cat(vec![z, t])
    }
    pub fn sext(&mut self, t: T, w: u16) -> T {
        let tw = self.width(t);
        if tw == w {
            return t;
        }
        if let Some(v) = self.as_c(t) {
            return self.c(w, sx(v, tw) as u128);
        }
        if tw > 1 && self.um(t) >> (tw - 1) == 0 {
            return self.zext(t, w);
        }
        if tw == 1 {
            let a = self.c(w, mask(w));
            let b = self.c(w, 0);
            return self.ite(t, a, b);
        }
        if let N::Ite(c, x, y) = *self.node(t) {
            if self.as_c(x).is_some() && self.as_c(y).is_some() {
                let x = self.sext(x, w);
                let y = self.sext(y, w);
                return self.ite(c, x, y);
            }
        }
        let um = mask(w);
        self.mk(w, N::Sext(t), um)
    }
    fn shl_c(&mut self, a: T, s: u16) -> T {
        let w = self.width(a);
        if s == 0 {
            return a;
        }
        if s >= w {
            return self.c(w, 0);
        }
        let hi = self.ext(a, 0, w - s);
        let z = self.c(s, 0);
        self.cat(vec![hi, z])
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        if let Some(s) = self.as_c(b) {
            return self.shl_c(a, s.min(w as u128) as u16);
        }
        if let N::Ite(c, x, y) = *self.node(b) {
            if self.as_c(x).is_some() && self.as_c(y).is_some() {
                let l = self.shl(a, x);
                let r = self.shl(a, y);
                return self.ite(c, l, r);
            }
        }
        self.mk(w, N::Shl(a, b), mask(w))
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        if let Some(s) = self.as_c(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.c(w, 0);
            }
            let s = s as u16;
            let hi = self.ext(a, s, w - s);
            return self.zext(hi, w);
        }
        if let N::Ite(c, x, y) = *self.node(b) {
            if self.as_c(x).is_some() && self.as_c(y).is_some() {
                let l = self.lshr(a, x);
                let r = self.lshr(a, y);
                return self.ite(c, l, r);
            }
        }
        let um = self.um(a);
        self.mk(w, N::Lshr(a, b), mask(bits(um)))
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        if w > 1 && self.um(a) >> (w - 1) == 0 {
            return self.lshr(a, b);
        }
        if let Some(s) = self.as_c(b) {
            if s == 0 {
                return a;
            }
            if let Some(v) = self.as_c(a) {
                return self.c(w, (sx(v, w) >> s.min(127)) as u128);
            }
            let s = s.min(w as u128 - 1) as u16;
            let hi = self.ext(a, s, w - s);
            return self.sext(hi, w);
        }
        self.mk(w, N::Ashr(a, b), mask(w))
    }
    pub fn rotl(&mut self, a: T, s: u16) -> T {
        let w = self.width(a);
        let s = s % w;
        if s == 0 {
            return a;
        }
        let hi = self.ext(a, 0, w - s);
        let lo = self.ext(a, w - s, s);
        self.cat(vec![hi, lo])
    }

    // ------------------------------------------------------------- division
    fn divlike(&mut self, a: T, b: T, rem: bool) -> T {
        let w = self.width(a);
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            let v = if y == 0 {
                if rem {
                    x
                } else {
                    mask(w)
                }
            } else if rem {
                x % y
            } else {
                x / y
            };
            return self.c(w, v);
        }
        if let Some(y) = self.as_c(b) {
            if y == 1 {
                return if rem { self.c(w, 0) } else { a };
            }
            if y != 0 && self.um(a) < y {
                return if rem { a } else { self.c(w, 0) };
            }
            if y.is_power_of_two() {
                let s = y.trailing_zeros() as u16;
                return if rem {
                    let e = self.ext(a, 0, s);
                    self.zext(e, w)
                } else {
                    let sc = self.c(w, s as u128);
                    self.lshr(a, sc)
                };
            }
            if let N::Ite(c, x, z) = *self.node(a) {
                if self.as_c(x).is_some() && self.as_c(z).is_some() {
                    let l = self.divlike(x, b, rem);
                    let r = self.divlike(z, b, rem);
                    return self.ite(c, l, r);
                }
            }
            // (x mod y) mod y
            if rem {
                let mut x = a;
                if let N::Cat(ps) = self.node(a) {
                    if ps.len() == 2 && self.as_c(ps[0]) == Some(0) {
                        x = ps[1];
                    }
                }
                if let N::Urem(_, m) = *self.node(x) {
                    if self.as_c(m) == Some(y) {
                        return a;
                    }
                }
            }
        }
        let nb = bits(self.um(a)).max(bits(self.um(b))).max(1);
        if nb < w && self.as_c(b) != Some(0) {
            // narrow; division by zero gives all-ones in the narrow width too, so only when the
            // divisor is a non-zero constant or the semantics cannot differ (remainder)
            if rem || self.as_c(b).is_some() {
                let x = self.ext(a, 0, nb);
                let y = self.ext(b, 0, nb);
                let r = self.divlike(x, y, rem);
                return self.zext(r, w);
            }
        }
        let um = match (rem, self.as_c(b)) {
            (true, Some(y)) if y > 0 => (y - 1).min(self.um(a)),
            (true, _) => self.um(a),
            (false, Some(y)) if y > 0 => self.um(a) / y,
            _ => mask(w),
        };
        if rem {
            self.mk(w, N::Urem(a, b), um)
        } else {
            self.mk(w, N::Udiv(a, b), um)
        }
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        self.divlike(a, b, false)
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        self.divlike(a, b, true)
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        if self.um(a) >> (w - 1) == 0 && self.um(b) >> (w - 1) == 0 {
            return self.udiv(a, b);
        }
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            if y != 0 {
                return self.c(w, sx(x, w).wrapping_div(sx(y, w)) as u128);
            }
        }
        self.mk(w, N::Sdiv(a, b), mask(w))
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        if self.um(a) >> (w - 1) == 0 && self.um(b) >> (w - 1) == 0 {
            return self.urem(a, b);
        }
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            if y != 0 {
                return self.c(w, sx(x, w).wrapping_rem(sx(y, w)) as u128);
            }
        }
        self.mk(w, N::Srem(a, b), mask(w))
    }

    // ------------------------------------------------------------ predicates
    pub fn bool_c(&mut self, b: bool) -> T {
        self.c(1, b as u128)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        debug_assert_eq!(self.width(c), 1);
        debug_assert_eq!(self.width(a), self.width(b));
        if let Some(v) = self.as_c(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.width(a);
        // canonical polarity: never a negated condition
        if let N::Xor(1, ts) = self.node(c) {
            if ts.len() == 1 {
                let nc = ts[0];
                return self.ite(nc, b, a);
            }
        }
        if w == 1 {
            match (self.as_c(a), self.as_c(b)) {
                (Some(1), Some(_)) => return c,
                (Some(0), Some(_)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        } else if w > 1 {
            match (self.as_c(a), self.as_c(b)) {
                (Some(1), Some(0)) => return self.zext(c, w),
                (Some(0), Some(1)) => {
                    let n = self.not(c);
                    return self.zext(n, w);
                }
                _ => {}
            }
        }
        // nested with the same condition
        let a = match *self.node(a) {
            N::Ite(c2, x, _) if c2 == c => x,
            _ => a,
        };
        let b = match *self.node(b) {
            N::Ite(c2, _, y) if c2 == c => y,
            _ => b,
        };
        if a == b {
            return a;
        }
        let um = if w == 0 { u128::MAX } else { self.um(a).max(self.um(b)) };
        self.mk(w, N::Ite(c, a, b), um)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        debug_assert_eq!(self.width(a), self.width(b));
        if a == b {
            return self.bool_c(true);
        }
        let w = self.width(a);
        let (a, b) = if self.as_c(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.as_c(b) {
            if self.as_c(a).is_some() {
                return self.bool_c(false);
            }
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            if self.um(a) < y {
                return self.bool_c(false);
            }
            match self.node(a).clone() {
                N::Sum(k, ts) => {
                    if k != 0 {
                        let t = self.fin_sum(w, 0, ts.to_vec());
                        let c = self.c(w, y.wrapping_sub(k));
                        // keep range information: t + k == y
                        return self.eq(t, c);
                    }
                    if ts.len() == 1 && ts[0].1 == mask(w) {
                        let c = self.c(w, 0u128.wrapping_sub(y));
                        return self.eq(ts[0].0, c);
                    }
                }
                N::Xor(k, ts) if k != 0 => {
                    let mut t = ts[0];
                    for x in ts[1..].iter() {
                        t = self.xor(t, *x)
                    }
                    let c = self.c(w, y ^ k);
                    return self.eq(t, c);
                }
                N::Cat(ps) => {
                    let mut r = self.bool_c(true);
                    let mut pos = w;
                    for p in ps.iter() {
                        let pw = self.width(*p);
                        pos -= pw;
                        let c = self.c(pw, y >> pos);
                        let e = self.eq(*p, c);
                        r = self.and(r, e);
                        if self.as_c(r) == Some(0) {
                            return r;
                        }
                    }
                    return r;
                }
                N::Ite(c, x, z) => {
                    let (xc, zc) = (self.as_c(x), self.as_c(z));
                    if xc.is_some() || zc.is_some() {
                        let l = self.eq(x, b);
                        let r = self.eq(z, b);
                        return self.ite(c, l, r);
                    }
                }
                N::Sext(x) => {
                    let xw = self.width(x);
                    let lo = y & mask(xw);
                    return if sx(lo, xw) as u128 & mask(w) == y {
                        let c = self.c(xw, lo);
                        self.eq(x, c)
                    } else {
                        self.bool_c(false)
                    };
                }
                _ => {}
            }
        } else {
            // equal zero-extended prefixes
            if let (N::Cat(p), N::Cat(q)) = (self.node(a).clone(), self.node(b).clone()) {
                if p.len() == q.len() && p.iter().zip(q.iter()).all(|(x, y)| self.width(*x) == self.width(*y)) {
                    let mut r = self.bool_c(true);
                    for (x, y) in p.iter().zip(q.iter()) {
                        let e = self.eq(*x, *y);
                        r = self.and(r, e);
                    }
                    return r;
                }
            }
            if w > 1 {
                if let (N::Sum(..), _) | (_, N::Sum(..)) = (self.node(a), self.node(b)) {
                    // a == b  <=>  a - b == 0, if that makes terms cancel
                    let d = self.sub(a, b);
                    if self.as_c(d).is_some() {
                        let z = self.c(w, 0);
                        return self.eq(d, z);
                    }
                }
            }
        }
        let (a, b) = if self.as_c(b).is_some() || a <= b { (a, b) } else { (b, a) };
        self.mk(1, N::Eq(a, b), 1)
    }
    pub fn ne(&mut self, a: T, b: T) -> T {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if a == b {
            return self.bool_c(false);
        }
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            return self.bool_c(x < y);
        }
        if let Some(y) = self.as_c(b) {
            if self.um(a) < y {
                return self.bool_c(true);
            }
            if y == 0 {
                return self.bool_c(false);
            }
            if y == 1 {
                let z = self.c(w, 0);
                return self.eq(a, z);
            }
            if let N::Ite(c, x, z) = *self.node(a) {
                if self.as_c(x).is_some() || self.as_c(z).is_some() {
                    let l = self.ult(x, b);
                    let r = self.ult(z, b);
                    return self.ite(c, l, r);
                }
            }
        }
        if let Some(x) = self.as_c(a) {
            if self.um(b) <= x {
                return self.bool_c(false);
            }
            if x == 0 {
                let e = self.eq(b, a);
                return self.not(e);
            }
            if let N::Ite(c, y, z) = *self.node(b) {
                if self.as_c(y).is_some() || self.as_c(z).is_some() {
                    let l = self.ult(a, y);
                    let r = self.ult(a, z);
                    return self.ite(c, l, r);
                }
            }
        }
        // strip common zero prefixes
        let nb = bits(self.um(a)).max(bits(self.um(b))).max(1);
        if nb < w {
            let x = self.ext(a, 0, nb);
            let y = self.ext(b, 0, nb);
            return self.ult(x, y);
        }
        self.mk(1, N::Ult(a, b), 1)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        if a == b {
            return self.bool_c(false);
        }
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            return self.bool_c(sx(x, w) < sx(y, w));
        }
        if w > 1 && self.um(a) >> (w - 1) == 0 && self.um(b) >> (w - 1) == 0 {
            return self.ult(a, b);
        }
        if self.as_c(b) == Some(0) {
            return self.ext(a, w - 1, 1);
        }
        if let N::Ite(c, x, z) = *self.node(a) {
            if self.as_c(b).is_some() && (self.as_c(x).is_some() || self.as_c(z).is_some()) {
                let l = self.slt(x, b);
                let r = self.slt(z, b);
                return self.ite(c, l, r);
            }
        }
        self.mk(1, N::Slt(a, b), 1)
    }

    // ----------------------------------------------------------------- reals
    pub fn rc(&mut self, n: i128, d: i128) -> T {
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        self.mk(0, N::RC(s * n / g, s * d / g), u128::MAX)
    }
    pub fn as_rc(&self, t: T) -> Option<(i128, i128)> {
        if let N::RC(n, d) = self.nodes[t as usize] {
            Some((n, d))
        } else {
            None
        }
    }
    pub fn radd(&mut self, a: T, b: T) -> T {
        match (self.as_rc(a), self.as_rc(b)) {
            (Some((n, d)), Some((n2, d2))) => {
                if let (Some(x), Some(y), Some(z)) = (n.checked_mul(d2), n2.checked_mul(d), d.checked_mul(d2)) {
                    if let Some(s) = x.checked_add(y) {
                        return self.rc(s, z);
                    }
                }
            }
            (Some((0, _)), _) => return b,
            (_, Some((0, _))) => return a,
            _ => {}
        }
        let (x, y) = if a <= b { (a, b) } else { (b, a) };
        self.mk(0, N::RAdd(x, y), u128::MAX)
    }
    pub fn rmul(&mut self, a: T, b: T) -> T {
        match (self.as_rc(a), self.as_rc(b)) {
            (Some((n, d)), Some((n2, d2))) => {
                if let (Some(x), Some(y)) = (n.checked_mul(n2), d.checked_mul(d2)) {
                    return self.rc(x, y);
                }
            }
            (Some((0, _)), _) => return a,
            (_, Some((0, _))) => return b,
            (Some((1, 1)), _) => return b,
            (_, Some((1, 1))) => return a,
            _ => {}
        }
        let (x, y) = if a <= b { (a, b) } else { (b, a) };
        self.mk(0, N::RMul(x, y), u128::MAX)
    }
    pub fn rneg(&mut self, a: T) -> T {
        if let Some((n, d)) = self.as_rc(a) {
            return self.rc(-n, d);
        }
        if let N::RNeg(x) = *self.node(a) {
            return x;
        }
        self.mk(0, N::RNeg(a), u128::MAX)
    }
    pub fn req(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.bool_c(true);
        }
        if let (Some(x), Some(y)) = (self.as_rc(a), self.as_rc(b)) {
            return self.bool_c(x == y);
        }
        let (x, y) = if a <= b { (a, b) } else { (b, a) };
        self.mk(1, N::REq(x, y), 1)
    }

    // ------------------------------------------------------------- traversal
    pub fn children(&self, t: T, out: &mut Vec<T>) {
        match &self.nodes[t as usize] {
            N::C(_) | N::V(_) | N::RC(..) | N::RV(_) => {}
            N::Sum(_, ts) => out.extend(ts.iter().map(|x| x.0)),
            N::And(ts) | N::Or(ts) | N::Cat(ts) | N::Xor(_, ts) | N::Uf(_, ts) => out.extend(ts.iter()),
            N::Ext(a, _) | N::Sext(a) | N::RNeg(a) => out.push(*a),
            N::Mul(a, b)
            | N::Shl(a, b)
            | N::Lshr(a, b)
            | N::Ashr(a, b)
            | N::Udiv(a, b)
            | N::Urem(a, b)
            | N::Sdiv(a, b)
            | N::Srem(a, b)
            | N::Eq(a, b)
            | N::Ult(a, b)
            | N::Slt(a, b)
            | N::RAdd(a, b)
            | N::RMul(a, b)
            | N::REq(a, b) => {
                out.push(*a);
                out.push(*b)
            }
            N::Ite(a, b, c) => {
                out.push(*a);
                out.push(*b);
                out.push(*c)
            }
        }
    }
    /// all nodes reachable from `roots`, in increasing (hence topological) order
    pub fn cone(&self, roots: &[T]) -> Vec<T> {
        let mut seen: FxMap<T, ()> = Default::default();
        let mut st: Vec<T> = roots.to_vec();
        let mut ch = vec![];
        while let Some(t) = st.pop() {
            if seen.insert(t, ()).is_some() {
                continue;
            }
            ch.clear();
            self.children(t, &mut ch);
            st.extend(ch.iter());
        }
        let mut v: Vec<T> = seen.keys().copied().collect();
        v.sort();
        v
    }
    /// rebuild a node with other children
    pub fn rebuild(&mut self, t: T, f: &dyn Fn(T) -> T) -> T {
        let w = self.width(t);
        match self.node(t).clone() {
            N::C(_) | N::V(_) | N::RC(..) | N::RV(_) => t,
            N::Sum(k, ts) => {
                let mut kk = k;
                let mut acc = vec![];
                for (x, c) in ts.iter() {
                    self.add_into(&mut acc, &mut kk, f(*x), *c, w);
                }
                self.fin_sum(w, kk, acc)
            }
            N::And(ts) => {
                let mut r = f(ts[0]);
                for x in ts[1..].iter() {
                    r = self.and(r, f(*x))
                }
                r
            }
            N::Or(ts) => {
                let mut r = f(ts[0]);
                for x in ts[1..].iter() {
                    r = self.or(r, f(*x))
                }
                r
            }
            N::Xor(k, ts) => {
                let mut r = self.c(w, k);
                for x in ts.iter() {
                    r = self.xor(r, f(*x))
                }
                r
            }
            N::Cat(ts) => {
                let v = ts.iter().map(|x| f(*x)).collect();
                self.cat(v)
            }
            N::Uf(i, ts) => {
                let v: Vec<T> = ts.iter().map(|x| f(*x)).collect();
                self.mk(w, N::Uf(i, v.into_boxed_slice()), mask(w))
            }
            N::Ext(a, lo) => self.ext(f(a), lo, w),
            N::Sext(a) => self.sext(f(a), w),
            N::Mul(a, b) => self.mul(f(a), f(b)),
            N::Shl(a, b) => self.shl(f(a), f(b)),
            N::Lshr(a, b) => self.lshr(f(a), f(b)),
            N::Ashr(a, b) => self.ashr(f(a), f(b)),
            N::Udiv(a, b) => self.udiv(f(a), f(b)),
            N::Urem(a, b) => self.urem(f(a), f(b)),
            N::Sdiv(a, b) => self.sdiv(f(a), f(b)),
            N::Srem(a, b) => self.srem(f(a), f(b)),
            N::Eq(a, b) => self.eq(f(a), f(b)),
            N::Ult(a, b) => self.ult(f(a), f(b)),
            N::Slt(a, b) => self.slt(f(a), f(b)),
            N::Ite(a, b, c) => self.ite(f(a), f(b), f(c)),
            N::RAdd(a, b) => self.radd(f(a), f(b)),
            N::RMul(a, b) => self.rmul(f(a), f(b)),
            N::RNeg(a) => self.rneg(f(a)),
            N::REq(a, b) => self.req(f(a), f(b)),
        }
    }

    // ------------------------------------------------------------ evaluation
    /// Evaluate `order` (topologically sorted) under an assignment of bit-vector variables into
    /// `m`. Uninterpreted functions are interpreted by `uf`; nodes without a value (reals,
    /// applications `uf` declines, and what depends on them) are left out.
    pub fn eval_into(&self, order: &[T], m: &mut FxMap<T, u128>, vars: &dyn Fn(u32) -> u128, uf: &dyn Fn(u32, &[u128], u16) -> Option<u128>) {
        for &t in order {
            let w = self.width(t);
            let g = |x: &T| -> Option<u128> { m.get(x).copied() };
            let v: Option<u128> = (|| {
                Some(match &self.nodes[t as usize] {
                    N::C(v) => *v,
                    N::V(i) => vars(*i),
                    N::Sum(k, ts) => {
                        let mut s = *k;
                        for (x, c) in ts.iter() {
                            s = s.wrapping_add(g(x)?.wrapping_mul(*c))
                        }
                        s
                    }
                    N::Mul(a, b) => g(a)?.wrapping_mul(g(b)?),
                    N::And(ts) => {
                        let mut s = u128::MAX;
                        for x in ts.iter() {
                            s &= g(x)?
                        }
                        s
                    }
                    N::Or(ts) => {
                        let mut s = 0;
                        for x in ts.iter() {
                            s |= g(x)?
                        }
                        s
                    }
                    N::Xor(k, ts) => {
                        let mut s = *k;
                        for x in ts.iter() {
                            s ^= g(x)?
                        }
                        s
                    }
                    N::Cat(ts) => {
                        let mut s: u128 = 0;
                        for x in ts.iter() {
                            let xw = self.width(*x);
                            s = if xw >= 128 { g(x)? } else { (s << xw) | g(x)? };
                        }
                        s
                    }
                    N::Ext(a, lo) => g(a)? >> lo,
                    N::Shl(a, b) => {
                        let s = g(b)?;
                        if s >= w as u128 {
                            0
                        } else {
                            g(a)? << s
                        }
                    }
                    N::Lshr(a, b) => {
                        let s = g(b)?;
                        if s >= w as u128 {
                            0
                        } else {
                            g(a)? >> s
                        }
                    }
                    N::Ashr(a, b) => {
                        let s = g(b)?.min(w as u128 - 1);
                        (sx(g(a)?, w) >> s) as u128
                    }
                    N::Udiv(a, b) => {
                        let y = g(b)?;
                        if y == 0 {
                            mask(w)
                        } else {
                            g(a)? / y
                        }
                    }
                    N::Urem(a, b) => {
                        let y = g(b)?;
                        if y == 0 {
                            g(a)?
                        } else {
                            g(a)? % y
                        }
                    }
                    N::Sdiv(a, b) => {
                        let (x, y) = (sx(g(a)?, w), sx(g(b)?, w));
                        if y == 0 {
                            if x < 0 {
                                1
                            } else {
                                mask(w)
                            }
                        } else {
                            x.wrapping_div(y) as u128
                        }
                    }
                    N::Srem(a, b) => {
                        let (x, y) = (sx(g(a)?, w), sx(g(b)?, w));
                        if y == 0 {
                            x as u128
                        } else {
                            x.wrapping_rem(y) as u128
                        }
                    }
                    N::Sext(a) => sx(g(a)?, self.width(*a)) as u128,
                    N::Ite(c, a, b) => {
                        if g(c)? == 1 {
                            g(a)?
                        } else {
                            g(b)?
                        }
                    }
                    N::Eq(a, b) => (g(a)? == g(b)?) as u128,
                    N::Ult(a, b) => (g(a)? < g(b)?) as u128,
                    N::Slt(a, b) => {
                        let aw = self.width(*a);
                        (sx(g(a)?, aw) < sx(g(b)?, aw)) as u128
                    }
                    N::Uf(i, ts) => {
                        let mut v = vec![];
                        for x in ts.iter() {
                            v.push(g(x)?)
                        }
                        uf(*i, &v, w)?
                    }
                    N::RC(..) | N::RV(_) | N::RAdd(..) | N::RMul(..) | N::RNeg(_) | N::REq(..) => return None,
                })
            })();
            if let Some(v) = v {
                m.insert(t, v & mask(w));
            }
        }
    }
    /// does the cone of `t` have more than `n` nodes?
    pub fn cone_exceeds(&self, t: T, n: usize) -> bool {
        self.cone_limited(t, n + 1).len() > n
    }
    /// up to `n` nodes of the cone of `t`, nearest first
    pub fn cone_limited(&self, t: T, n: usize) -> FxMap<T, ()> {
        let mut seen: FxMap<T, ()> = Default::default();
        let mut q: std::collections::VecDeque<T> = Default::default();
        q.push_back(t);
        let mut wide: std::collections::VecDeque<T> = Default::default();
        let mut ch = vec![];
        loop {
            let Some(x) = q.pop_front() else {
                // wide nodes (long sums) are expanded last: they would use up the limit
                let Some(x) = wide.pop_front() else { break };
                ch.clear();
                self.children(x, &mut ch);
                q.extend(ch.iter());
                continue;
            };
            if seen.len() >= n {
                break;
            }
            if seen.insert(x, ()).is_some() {
                continue;
            }
            ch.clear();
            self.children(x, &mut ch);
            if ch.len() > 24 {
                wide.push_back(x);
            } else {
                q.extend(ch.iter());
            }
        }
        seen
    }
    /// v <= k as a term the constructors have not simplified with v's declared maximum
    pub fn raw_ule(&mut self, v: T, k: T) -> Option<T> {
        let w = self.width(v);
        if self.as_c(k) == Some(mask(w)) {
            return None;
        }
        let lt = self.mk(1, N::Ult(k, v), 1);
        Some(self.mk(1, N::Xor(1, vec![lt].into_boxed_slice()), 1))
    }

    // -------------------------------------------------------------- SMT text
    pub fn sort(&self, t: T) -> String {
        let w = self.width(t);
        if w == 0 {
            "Real".into()
        } else {
            format!("(_ BitVec {})", w)
        }
    }
    pub fn konst(w: u16, v: u128) -> String {
        if w % 4 == 0 {
            format!("#x{:0>1$x}", v, (w / 4) as usize)
        } else {
            format!("#b{:0>1$b}", v, w as usize)
        }
    }
    /// SMT-LIB expression of a node over the names of its children
    pub fn smt(&self, t: T, name: &dyn Fn(T) -> String) -> String {
        let w = self.width(t);
        let nary = |op: &str, ts: &[T]| -> String {
            let mut s = name(ts[0]);
            for x in &ts[1..] {
                s = format!("({} {} {})", op, s, name(*x));
            }
            s
        };
        let b2 = |op: &str, a: &T, b: &T| format!("({} {} {})", op, name(*a), name(*b));
        let p2 = |op: &str, a: &T, b: &T| format!("(ite ({} {} {}) #b1 #b0)", op, name(*a), name(*b));
        match &self.nodes[t as usize] {
            N::C(v) => Self::konst(w, *v),
            N::V(i) | N::RV(i) => self.vars[*i as usize].name.clone(),
            N::Sum(k, ts) => {
                let mut parts: Vec<String> = vec![];
                let mut negs: Vec<String> = vec![];
                for (x, c) in ts.iter() {
                    if *c == 1 {
                        parts.push(name(*x))
                    } else if *c == mask(w) {
                        negs.push(name(*x))
                    } else if *c > mask(w) / 2 {
                        negs.push(format!("(bvmul {} {})", Self::konst(w, 0u128.wrapping_sub(*c) & mask(w)), name(*x)))
                    } else {
                        parts.push(format!("(bvmul {} {})", Self::konst(w, *c), name(*x)))
                    }
                }
                if *k != 0 || parts.is_empty() {
                    parts.push(Self::konst(w, *k))
                }
                let mut s = parts[0].clone();
                for p in &parts[1..] {
                    s = format!("(bvadd {} {})", s, p)
                }
                for p in negs {
                    s = format!("(bvsub {} {})", s, p)
                }
                s
            }
            N::Mul(a, b) => b2("bvmul", a, b),
            N::And(ts) => nary("bvand", ts),
            N::Or(ts) => nary("bvor", ts),
            N::Xor(k, ts) => {
                let s = nary("bvxor", ts);
                if *k == 0 {
                    s
                } else if *k == mask(w) {
                    format!("(bvnot {})", s)
                } else {
                    format!("(bvxor {} {})", s, Self::konst(w, *k))
                }
            }
            N::Cat(ts) => nary("concat", ts),
            N::Ext(a, lo) => format!("((_ extract {} {}) {})", lo + w - 1, lo, name(*a)),
            N::Shl(a, b) => b2("bvshl", a, b),
            N::Lshr(a, b) => b2("bvlshr", a, b),
            N::Ashr(a, b) => b2("bvashr", a, b),
            N::Udiv(a, b) => b2("bvudiv", a, b),
            N::Urem(a, b) => b2("bvurem", a, b),
            N::Sdiv(a, b) => b2("bvsdiv", a, b),
            N::Srem(a, b) => b2("bvsrem", a, b),
            N::Sext(a) => format!("((_ sign_extend {}) {})", w - self.width(*a), name(*a)),
            N::Ite(c, a, b) => format!("(ite (= {} #b1) {} {})", name(*c), name(*a), name(*b)),
            N::Eq(a, b) => p2("=", a, b),
            N::Ult(a, b) => p2("bvult", a, b),
            N::Slt(a, b) => p2("bvslt", a, b),
            N::Uf(i, ts) => format!("({} {})", self.ufs[*i as usize].name, ts.iter().map(|x| name(*x)).collect::<Vec<_>>().join(" ")),
            N::RC(n, d) => {
                let f = |x: i128| if x < 0 { format!("(- {}.0)", -x) } else { format!("{}.0", x) };
                if *d == 1 {
                    f(*n)
                } else {
                    format!("(/ {} {})", f(*n), f(*d))
                }
            }
            N::RAdd(a, b) => b2("+", a, b),
            N::RMul(a, b) => b2("*", a, b),
            N::RNeg(a) => format!("(- {})", name(*a)),
            N::REq(a, b) => p2("=", a, b),
        }
    }
}
