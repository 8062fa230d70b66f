//! Equivalence of large term graphs by word-level sweeping: random simulation proposes equal
//! nodes, the solver proves each proposal over a local cut, proven nodes are merged bottom-up,
//! and what remains of the goal is one final query. A merge is only made on an `unsat` answer.
use crate::solver::*;
use crate::term::*;
use std::time::Instant;

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub calls: u64,
    pub lemmas: u64,
    pub merged: u64,
    pub refuted: u64,
    pub gave_up: u64,
    pub nodes: u64,
}

pub enum Out {
    Valid,
    Cex(Model),
    Unknown(String),
}

const K: usize = 48;

fn rnd(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

fn value(var: u32, k: usize, w: u16, max: u128) -> u128 {
    let mut s = (var as u64) << 20 ^ (k as u64) << 8 ^ 0x5eed;
    let r = ((rnd(&mut s) as u128) << 64) | rnd(&mut s) as u128;
    let m = mask(w);
    let v = match k {
        0 => 0,
        1 => m,
        2 => 1,
        3 => 1u128 << (w - 1),
        4..=7 => {
            // sparse
            if r & 7 == 0 {
                (r >> 8) & m
            } else {
                0
            }
        }
        _ => r & m,
    };
    if v > max {
        if max == u128::MAX {
            v
        } else {
            v % (max + 1)
        }
    } else {
        v
    }
}

fn ufval(i: u32, a: &[u128], w: u16) -> u128 {
    let mut s = i as u64 ^ 0xabcdef;
    for x in a {
        s = s.rotate_left(7) ^ *x as u64 ^ (*x >> 64) as u64;
        rnd(&mut s);
    }
    (((rnd(&mut s) as u128) << 64) | rnd(&mut s) as u128) & mask(w)
}

pub fn prove(a: &mut Arena, s: &mut Solver, pc: &[T], goal: T, base: &FxMap<u32, u128>, stats: &mut Stats, t0: Instant, time_ms: u64) -> Out {
    stats.calls += 1;
    let mut roots = pc.to_vec();
    roots.push(goal);
    let order = a.cone(&roots);
    if order.iter().any(|t| a.width(*t) == 0) {
        return Out::Unknown("reals".into());
    }
    stats.nodes += order.len() as u64;
    let has_uf = order.iter().any(|t| matches!(a.node(*t), N::Uf(..)));
    // simulation
    let mut vals: Vec<Vec<u128>> = vec![Vec::with_capacity(K); order.len()];
    let mut idx: FxMap<T, usize> = Default::default();
    for (i, t) in order.iter().enumerate() {
        idx.insert(*t, i);
    }
    let mut varmax: FxMap<u32, (u16, u128)> = Default::default();
    for t in &order {
        if let N::V(i) = a.node(*t) {
            varmax.insert(*i, (a.width(*t), a.um(*t)));
        }
    }
    let mut used = 0;
    // inputs the path condition talks about take the values of a known model in most vectors
    let mut inpc: FxMap<u32, ()> = Default::default();
    if !pc.is_empty() {
        for t in a.cone(pc) {
            if let N::V(i) = a.node(t) {
                inpc.insert(*i, ());
            }
        }
    }
    let pick = |i: u32, k: usize| -> u128 {
        let (w, m) = varmax[&i];
        if inpc.contains_key(&i) {
            if k >= 16 {
                return base.get(&i).copied().unwrap_or(0);
            }
            if k >= 8 && w > 8 {
                // close to the model
                let b = base.get(&i).copied().unwrap_or(0);
                let v = b ^ (value(i, k, w, m) & 3);
                return if v <= m { v } else { b };
            }
        }
        value(i, k, w, m)
    };
    for k in 0..K {
        let mut memo: FxMap<T, u128> = Default::default();
        a.eval_into(
            &order,
            &mut memo,
            &|i| pick(i, k),
            &|i, x, w| Some(ufval(i, x, w)),
        );
        if pc.iter().any(|p| memo.get(p) != Some(&1)) {
            continue;
        }
        used += 1;
        if memo.get(&goal) == Some(&0) && !has_uf {
            let mut m: Model = Default::default();
            for i in varmax.keys() {
                m.insert(*i, Mv::B(pick(*i, k)));
            }
            return Out::Cex(m);
        }
        for (i, t) in order.iter().enumerate() {
            vals[i].push(memo[t]);
        }
    }
    if used < 8 {
        return Out::Unknown("no simulation vector satisfies the path condition".into());
    }
    // sweep
    let gcone = a.cone(&[goal]);
    let mut rep: FxMap<T, T> = Default::default();
    let mut class: FxMap<(u16, u64), Vec<T>> = Default::default();
    let mut budget_fail = 4000i64;
    for t in gcone {
        if t0.elapsed().as_millis() as u64 > time_ms {
            return Out::Unknown("time".into());
        }
        let n = {
            let r = &rep;
            let rr = |x: T| r.get(&x).copied().unwrap_or(x);
            let mut ch = vec![];
            a.children(t, &mut ch);
            if ch.iter().all(|c| rr(*c) == *c) {
                t
            } else {
                let reps: FxMap<T, T> = ch.iter().map(|c| (*c, rr(*c))).collect();
                a.rebuild(t, &|x| reps[&x])
            }
        };
        let sig = &vals[idx[&t]];
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for v in sig {
            for p in [*v as u64, (*v >> 64) as u64] {
                h = (h ^ p).wrapping_mul(0x1000_0000_01b3).rotate_left(17);
            }
        }
        let w = a.width(t);
        if a.as_c(n).is_some() || matches!(a.node(n), N::V(_)) {
            rep.insert(t, n);
            let e = class.entry((w, h)).or_default();
            if !e.contains(&n) {
                e.push(n)
            }
            continue;
        }
        let mut merged = None;
        let cands: Vec<T> = class.get(&(w, h)).cloned().unwrap_or_default();
        let mut list = cands.clone();
        if sig.iter().all(|v| *v == sig[0]) && !list.iter().any(|c| a.as_c(*c).is_some()) {
            let c = a.c(w, sig[0]);
            list.push(c);
        }
        for c in list.iter().rev() {
            if *c == n {
                merged = Some(n);
                break;
            }
        }
        if merged.is_none() && budget_fail > 0 {
            for c in list.iter().rev().take(4) {
                match lemma(a, s, n, *c, stats, if w == 1 { 2 } else { 6 }) {
                    Some(true) => {
                        merged = Some(*c);
                        stats.merged += 1;
                        break;
                    }
                    _ => budget_fail -= 1,
                }
            }
        }
        let r = merged.unwrap_or(n);
        rep.insert(t, r);
        let e = class.entry((w, h)).or_default();
        if !e.contains(&r) {
            e.push(r)
        }
    }
    let g = rep[&goal];
    match a.as_c(g) {
        Some(1) => return Out::Valid,
        _ => {}
    }
    let ng = a.not(g);
    // the remaining goal is equivalent to the original one
    match s.check(a, pc, &[ng]) {
        Res::Unsat => Out::Valid,
        Res::Sat(m) => Out::Cex(m),
        Res::Unknown(e) => Out::Unknown(e),
    }
}

/// Some(true): proved equal. Some(false): not equal (or not provable by the deepest cut tried).
fn lemma(a: &Arena, s: &mut Solver, x: T, y: T, stats: &mut Stats, levels: u32) -> Option<bool> {
    stats.lemmas += 1;
    let cx = a.cone_limited(x, 1500);
    let cy = a.cone_limited(y, 1500);
    // shared[n] = levels of expansion already granted
    let mut ch = vec![];
    for lv in 0..levels {
        let extra = [0u32, 2, 4, 8, 16, 40][lv as usize];
        let mut cut: FxMap<T, ()> = Default::default();
        let mut seen: FxMap<T, u32> = Default::default();
        let mut q: std::collections::VecDeque<(T, u32)> = Default::default();
        q.push_back((x, extra));
        q.push_back((y, extra));
        let mut hit = false;
        let mut size = 0;
        while let Some((t, b)) = q.pop_front() {
            if let Some(o) = seen.get(&t) {
                if *o >= b {
                    continue;
                }
            }
            seen.insert(t, b);
            let shared = t != x && t != y && cx.contains_key(&t) && cy.contains_key(&t);
            let b2 = if shared {
                if b == 0 {
                    if !matches!(a.node(t), N::C(_) | N::V(_)) {
                        hit = true;
                    }
                    cut.insert(t, ());
                    continue;
                }
                b - 1
            } else {
                b
            };
            cut.remove(&t);
            size += 1;
            if size > 900 {
                if !matches!(a.node(t), N::C(_) | N::V(_)) {
                    hit = true;
                }
                cut.insert(t, ());
                continue;
            }
            ch.clear();
            a.children(t, &mut ch);
            for c in &ch {
                q.push_back((*c, b2));
            }
        }
        match s.lemma(a, x, y, &cut, 3000) {
            Res::Unsat => return Some(true),
            Res::Sat(_) => {
                if !hit {
                    stats.refuted += 1;
                    return Some(false);
                }
            }
            Res::Unknown(_) => {
                stats.gave_up += 1;
                return None;
            }
        }
    }
    Some(false)
}
