//! Harness for jester_sharing (C20..C29).
#![recursion_limit = "512"]
mod field;
mod net;
mod one;
mod stub;
use field::*;
use jester_sharing::shamir_secret_sharing::ShamirSecretSharingScheme;
use jester_sharing::*;
use net::*;
use one::*;
use std::task::{Context, Poll};
use num::{BigUint, ToPrimitive};
use rand::{CryptoRng, RngCore};
use std::future::Future;
use std::pin::Pin;
use sym::*;

type Boxed<'a, O> = Pin<Box<dyn Future<Output = O> + 'a>>;
type Shamir<T> = Node<T>;

fn pick(n: usize) -> usize {
    conc(below(n as u64)) as usize
}
/// runs the body with the field the first parameter names
macro_rules! fields {
    ($f:ident) => {
        match param(0) {
            0 => $f::<Q>(),
            61 => {
                real_field((1 << 61) - 1);
                $f::<Q>()
            }
            3 => $f::<G<3>>(),
            5 => $f::<G<5>>(),
            7 => $f::<G<7>>(),
            11 => $f::<G<11>>(),
            13 => $f::<G<13>>(),
            105 => $f::<L5>(),
            107 => $f::<L7>(),
            111 => $f::<L11>(),
            _ => fail("no such field"),
        }
    };
}
/// random words for fields that draw through `gen_biguint_below`: always below the prime
struct Below {
    prime: u64,
    words: usize,
}
impl RngCore for Below {
    fn next_u32(&mut self) -> u32 {
        self.words += 1;
        let bits = 64 - self.prime.leading_zeros();
        (fixed(self.prime).unwrap_or_else(|| below(self.prime)) as u32) << (32 - bits)
    }
    fn next_u64(&mut self) -> u64 {
        self.next_u32() as u64
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(4) {
            let w = self.next_u32().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Below {}

fn generate<T: Field>(secret: &T, n: usize, t: usize) -> Vec<Share<T>> {
    if T::FREE {
        Shamir::<T>::generate_shares(&mut Rng { party: 77, count: 0 }, secret, n, t)
    } else {
        let prime = param(0) as u64 - 100;
        Shamir::<T>::generate_shares(&mut Below { prime, words: 0 }, secret, n, t)
    }
}

// ---------------------------------------------------------------- C20
/// params: field, n, t, 0 for every ordered choice of at least t shares, else one rotation and its reverse
fn reconstruct<T: Field>() {
    let (n, t) = (param(1), param(2));
    let secret = T::any();
    let shares = generate(&secret, n, t);
    check(shares.len() == n, "n shares");
    for (i, s) in shares.iter().enumerate() {
        check(shares.iter().filter(|o| o.0 == i + 1).count() == 1, "the indices are 1..n");
        s.1.show();
    }
    let mut chosen = Vec::new();
    if param(3) == 0 {
        let k = t + pick(n - t + 1);
        let mut rest: Vec<usize> = (0..n).collect();
        for _ in 0..k {
            let i = pick(rest.len());
            chosen.push(shares[rest.remove(i)].clone());
        }
    } else {
        let k = if pick(2) == 0 { t } else { n };
        let from = [0, n / 2, n - 1][pick(3)];
        for i in 0..k {
            chosen.push(shares[(from + i) % n].clone());
        }
        if pick(2) == 0 {
            chosen.reverse();
        }
    }
    let r = Shamir::<T>::reconstruct_secret(&chosen, t);
    r.show();
    check(r.same(&secret), "the shares reconstruct the secret");
}
#[no_mangle]
pub extern "C" fn s_reconstruct() {
    fields!(reconstruct)
}

/// params: field, t, the indices of the shares (at least t); every rotation of them and its reverse
fn far<T: Field>() {
    let t = param(1);
    let k = nparams() - 2;
    let c: Vec<T> = (0..t).map(|_| T::any()).collect();
    let shares: Vec<Share<T>> = (0..k)
        .map(|i| {
            let x = param(2 + i);
            (x, c.iter().rev().fold(T::int(0), |a, b| a * T::int(x as i64) + b.clone()))
        })
        .collect();
    let from = pick(k);
    let mut chosen: Vec<_> = (0..k).map(|i| shares[(from + i) % k].clone()).collect();
    if pick(2) == 0 {
        chosen.reverse();
    }
    let r = Shamir::<T>::reconstruct_secret(&chosen, t);
    r.show();
    check(r.same(&c[0]), "shares of any indices reconstruct the secret");
}
#[no_mangle]
pub extern "C" fn s_far() {
    fields!(far)
}
/// params: field, n, t: as dealt, the shares of the largest indices
fn many<T: Field>() {
    let (n, t) = (param(1), param(2));
    let secret = T::any();
    let shares = generate(&secret, n, t);
    check(shares.len() == n, "n shares");
    for i in [0, 1, n / 2, n - 1] {
        check(shares[i].0 == i + 1, "the indices are 1..n");
    }
    let r = Shamir::<T>::reconstruct_secret(&shares[n - t..], t);
    r.show();
    check(r.same(&secret), "the last shares reconstruct the secret");
    let mut two = vec![shares[n - 1].clone()];
    two.extend(shares[..t - 1].iter().cloned());
    check(Shamir::<T>::reconstruct_secret(&two, t).same(&secret), "the first and the last shares reconstruct the secret");
}
#[no_mangle]
pub extern "C" fn s_many() {
    fields!(many)
}

// ---------------------------------------------------------------- C21
/// params: field, n, t. Two choices of the polynomial for one secret agree on t - 1 shares only if they are the same.
fn privacy<T: Field>() {
    let (n, t) = (param(1), param(2));
    let secret = T::any();
    drawn().clear();
    unsafe { LIMIT = [t - 1, 0] };
    let a = generate(&secret, n, t);
    unsafe { LIMIT = [2 * (t - 1), 0] };
    let k = drawn().len();
    check(k == t - 1, "t - 1 fresh coefficients");
    let b = generate(&secret, n, t);
    check(drawn().len() == 2 * k, "t - 1 fresh coefficients");
    let mut rest: Vec<usize> = (0..n).collect();
    let mut low = 0;
    for i in 0..t - 1 {
        // an increasing choice
        let j = low + pick(rest.len() - low - (t - 2 - i));
        let x = rest.remove(j);
        low = j;
        let same = a.iter().find(|s| s.0 == x + 1).and_then(|s| b.iter().find(|q| q.0 == x + 1).map(|q| s.1.same(&q.1)));
        match same {
            Some(c) => assume(c),
            None => fail("the indices are 1..n"),
        }
    }
    for i in 0..k {
        check(member::<T>(i).same(&member::<T>(k + i)), "one polynomial explains t - 1 shares");
    }
}
/// the i-th member drawn
fn member<T: Field>(i: usize) -> T {
    T::recall(drawn()[i].1)
}
#[no_mangle]
pub extern "C" fn s_privacy() {
    fields!(privacy)
}

/// params: field (over polynomials), n, t. The shares are an affine function of the draws, and any t - 1 neighbouring
/// ones determine the draws.
fn rank<T: Field>() {
    let (n, t) = (param(1), param(2));
    let secret = T::any();
    drawn().clear();
    let a = generate(&secret, n, t);
    check(drawn().len() == t - 1, "t - 1 fresh coefficients");
    let given = |v: Vec<i64>, s: i64| {
        unsafe { GIVEN = v };
        let r = generate(&T::int(s), n, t);
        check(unsafe { &*std::ptr::addr_of!(GIVEN) }.is_empty(), "the draws do not depend on the secret");
        r
    };
    // the shares for one draw that is one, the others zero
    let columns: Vec<_> = (0..t - 1).map(|j| given((0..t - 1).rev().map(|i| (i == j) as i64).collect(), 0)).collect();
    let of_secret = given(vec![0; t - 1], 1);
    for i in 0..n {
        let mut v = secret.clone() * of_secret[i].1.clone();
        for (j, c) in columns.iter().enumerate() {
            check(c[i].0 == a[i].0, "the indices are 1..n");
            v = v + member::<T>(j) * c[i].1.clone();
        }
        check(v.same(&a[i].1), "the shares are linear in the secret and the draws");
    }
    for from in [0, (n + 1 - t) / 2, n + 1 - t] {
        let mut m: Vec<Vec<T>> = (from..from + t - 1).map(|i| columns.iter().map(|c| c[i].1.clone()).collect()).collect();
        for k in 0..t - 1 {
            match (k..t - 1).find(|r| !m[*r][k].zero_()) {
                Some(r) => m.swap(k, r),
                None => return fail("one polynomial explains t - 1 shares"),
            }
            let inv = m[k][k].inverse();
            for r in k + 1..t - 1 {
                let f = m[r][k].clone() * inv.clone();
                for c in k + 1..t - 1 {
                    m[r][c] = m[r][c].clone() - f.clone() * m[k][c].clone();
                }
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn s_rank() {
    fields!(rank)
}

/// params: field (over polynomials), n, t, 1 for the draws alone: large thresholds. As many draws as the degree, and
/// every one (of six) on its own changes each of the shares.
fn draws<T: Field>() {
    let (n, t) = (param(1), param(2));
    let secret = T::any();
    drawn().clear();
    let a = generate(&secret, n, t);
    check(drawn().len() == t - 1, "t - 1 fresh coefficients");
    check(a.len() == n, "n shares");
    if param(3) == 1 {
        return;
    }
    let given = |v: Vec<i64>| {
        unsafe { GIVEN = v };
        let r = generate(&T::int(0), n, t);
        check(unsafe { &*std::ptr::addr_of!(GIVEN) }.is_empty(), "the draws do not depend on the secret");
        r
    };
    let mut columns: Vec<Vec<Share<T>>> = vec![];
    let at = [0, 1, t / 4, t / 2, t - 3, t - 2];
    for j in at {
        let c = given((0..t - 1).map(|i| (t - 2 - i == j) as i64).collect());
        for i in 0..n {
            check(!c[i].1.zero_(), "every draw is in every share");
        }
        for (k, o) in columns.iter().enumerate() {
            check(!(c[1].1.clone() * o[0].1.clone()).same(&(c[0].1.clone() * o[1].1.clone())) || at[k] == j, "no two draws are the same coefficient");
        }
        columns.push(c);
    }
}
#[no_mangle]
pub extern "C" fn s_draws() {
    fields!(draws)
}

// ---------------------------------------------------------------- C22
/// params: field, n, t, number of sharings summed
fn linear<T: Field>() {
    let (n, t, k) = (param(1), param(2), param(3));
    let (x, y, z) = (T::any(), T::any(), T::any());
    let (a, b) = (deal(&x, n, t), deal(&y, n, t));
    let zip = |f: fn(&Share<T>, &Share<T>) -> Share<T>| a.iter().zip(&b).map(|(l, r)| f(l, r)).collect::<Vec<_>>();
    shares_of(n, t, &zip(Shamir::<T>::add_shares), &(x.clone() + y.clone()), "sum of two shares");
    shares_of(n, t, &zip(Shamir::<T>::sub_shares), &(x.clone() - y.clone()), "difference of two shares");
    let each = |f: fn(&Share<T>, &T) -> Share<T>| a.iter().map(|l| f(l, &z)).collect::<Vec<_>>();
    shares_of(n, t, &each(Shamir::<T>::add_scalar), &(x.clone() + z.clone()), "share plus scalar");
    shares_of(n, t, &each(Shamir::<T>::sub_scalar), &(x.clone() - z.clone()), "share minus scalar");
    shares_of(n, t, &each(Shamir::<T>::multiply_scalar), &(x.clone() * z.clone()), "share times scalar");
    for (l, r) in a.iter().zip(&each(Shamir::<T>::add_scalar)) {
        l.1.show();
        r.1.show();
    }
    let secrets: Vec<T> = (0..k).map(|_| T::any()).collect();
    let dealt: Vec<_> = secrets.iter().map(|s| deal(s, n, t)).collect();
    if k == 0 {
        check(Shamir::<T>::sum_shares(&[]).is_none(), "the sum of no shares is nothing");
        return;
    }
    let mut sums = vec![];
    for p in 0..n {
        let mine: Vec<_> = dealt.iter().map(|d| d[p].clone()).collect();
        match Shamir::<T>::sum_shares(&mine) {
            Some(s) => sums.push(s),
            None => fail("the sum of shares is a share"),
        }
    }
    shares_of(n, t, &sums, &secrets.iter().fold(T::int(0), |a, s| a + s.clone()), "sum of shares");
}
#[no_mangle]
pub extern "C" fn s_linear() {
    fields!(linear)
}
/// params: field, operation (0 add, 1 subtract, 2 sum), number of shares: any indices up to 2^32
fn mixed<T: Field>() {
    let (op, k) = (param(1), param(2));
    let s: Vec<Share<T>> = (0..k).map(|_| (word32() as usize, T::any())).collect();
    let same = s.iter().fold(true, |a, x| and(a, x.0 == s[0].0));
    allow_panic(!same);
    let r = match op {
        0 => Shamir::<T>::add_shares(&s[0], &s[1]),
        1 => Shamir::<T>::sub_shares(&s[0], &s[1]),
        _ => match Shamir::<T>::sum_shares(&s) {
            Some(r) => r,
            None => {
                fail("the sum of shares is a share");
                return;
            }
        },
    };
    check(same, "shares of different indices are not combined");
    check(r.0 == s[0].0, "the result has the index of the operands");
    allow_panic(false);
}
#[no_mangle]
pub extern "C" fn s_mixed() {
    fields!(mixed)
}

// ---------------------------------------------------------------- the joint protocols
fn each<'a, T: Field, O, F: Future<Output = O> + 'a>(net: *mut Net<T>, nodes: &'a mut [Node<T>], rngs: &'a mut [Rng], f: impl Fn(usize, &'a mut Node<T>, &'a mut Rng) -> F) -> Vec<O> {
    let futures: Vec<Boxed<'a, O>> = nodes.iter_mut().zip(rngs.iter_mut()).enumerate().map(|(p, (node, rng))| Box::pin(f(p, node, rng)) as Boxed<'a, O>).collect();
    run(net, futures)
}
/// the parties' shares of result i
fn column<S: Clone>(out: &[Vec<S>], i: usize) -> Vec<S> {
    out.iter().map(|o| o[i].clone()).collect()
}
/// `choices`: the deliveries whose order is free, plus 100 for every earlier round that is delivered together
fn setup<T: Field>(choices: usize, first: usize) -> Nodes<T> {
    let mut k = nodes::<T>(param(1), param(2));
    k.net.choices = choices % 100;
    k.net.skip = choices / 100;
    k.net.first = first;
    k
}

// C23
/// params: field, n, t, pairs, how (0 at once, 1 one by one), free choices of the schedule, first share handed out
fn multiply<T: Field>() {
    let (n, t, count, how) = (param(1), param(2), param(3), param(4));
    let mut k = setup::<T>(param(5), param(6));
    let secrets: Vec<(T, T)> = (0..count).map(|_| (T::any(), T::any())).collect();
    let dealt: Vec<_> = secrets.iter().map(|(x, y)| (deal(x, n, t), deal(y, n, t))).collect();
    let pairs: Vec<Vec<_>> = (0..n).map(|p| dealt.iter().map(|(x, y)| (x[p].clone(), y[p].clone())).collect()).collect();
    let net: *mut Net<T> = &mut *k.net;
    let out = each(net, &mut k.nodes, &mut k.rngs, |p, node, _| {
        let pairs = &pairs[p];
        async move {
            if how == 0 {
                return <Node<T> as UnboundedMultiplicationScheme<T, Share<T>, Node<T>>>::unbounded_multiply(node, pairs).await;
            }
            let mut r = vec![];
            for (x, y) in pairs {
                r.push(<Node<T> as MultiplicationScheme<T, Share<T>, Node<T>>>::multiply(node, x, y).await);
            }
            r
        }
    });
    for o in &out {
        check(o.len() == count, "one product per pair");
    }
    for (i, (x, y)) in secrets.iter().enumerate() {
        shares_of(n, t, &column(&out, i), &(x.clone() * y.clone()), "shares of the product");
    }
}
#[no_mangle]
pub extern "C" fn s_multiply() {
    fields!(multiply)
}

// C24
/// params: field, n, t, free choices of the schedule, first share handed out, selections
fn selection<T: Field>() {
    let (n, t) = (param(1), param(2));
    let mut k = setup::<T>(param(3), param(4));
    let count = param(5).max(1);
    let all: Vec<(usize, T, T)> = (0..count).map(|_| (pick(2), T::any(), T::any())).collect();
    let dealt: Vec<_> = all.iter().map(|(c, x, y)| (deal(&T::int(*c as i64), n, t), deal(x, n, t), deal(y, n, t))).collect();
    let net: *mut Net<T> = &mut *k.net;
    let out = each(net, &mut k.nodes, &mut k.rngs, |p, node, _| {
        let dealt = &dealt;
        async move {
            let mut r = vec![];
            for (c, x, y) in dealt {
                r.push(<Node<T> as ConditionalSelectionScheme<T, Share<T>, Node<T>>>::joint_conditional_selection(node, &c[p], &x[p], &y[p]).await);
            }
            r
        }
    });
    for (i, (c, x, y)) in all.iter().enumerate() {
        shares_of(n, t, &column(&out, i), if *c == 1 { x } else { y }, "shares of the operand the condition selects");
    }
}
#[no_mangle]
pub extern "C" fn s_select() {
    fields!(selection)
}

// C25
/// params: field, n, t, values, how (0 at once, 1 one by one, 2 both on the same values), free choices of the schedule, first share handed out
fn inversion<T: Field>() {
    let (n, t, count, how) = (param(1), param(2), param(3), param(4));
    let mut k = setup::<T>(param(5), param(6));
    k.net.nonzero = true;
    let secrets: Vec<T> = (0..count).map(|_| T::any()).collect();
    for s in &secrets {
        assume(!s.zero_());
    }
    let dealt: Vec<_> = secrets.iter().map(|x| deal(x, n, t)).collect();
    let mine: Vec<Vec<_>> = (0..n).map(|p| column(&dealt, p)).collect();
    let net: *mut Net<T> = &mut *k.net;
    let out = each(net, &mut k.nodes, &mut k.rngs, |p, node, rng| {
        let mine = &mine[p];
        async move {
            let mut r = vec![];
            if how != 1 {
                r.extend(<Node<T> as UnboundedInversionScheme<T, Share<T>, Node<T>>>::unbounded_inverse(rng, node, mine).await);
            }
            if how != 0 {
                for x in mine {
                    r.push(<Node<T> as InversionScheme<T, Share<T>, Node<T>>>::inverse(rng, node, x).await);
                }
            }
            r
        }
    });
    for o in &out {
        check(o.len() == if how == 2 { 2 * count } else { count }, "one inverse per value");
    }
    for i in 0..out[0].len() {
        // the inverse by its definition
        let c = column(&out, i);
        let v = interpolate(&c[..t]);
        check((v.clone() * secrets[i % count].clone()).same(&T::int(1)), "the product of value and inverse is one");
        shares_of(n, t, &c, &v, "shares of the inverse");
    }
}
#[no_mangle]
pub extern "C" fn s_inverse() {
    fields!(inversion)
}

// C26
/// params: field, n, t, free choices of the schedule, first share handed out, then the numbers of bits of the evaluations made one after the other (0: the function of one bit)
fn or_function<T: Field>() {
    let (n, t) = (param(1), param(2));
    let mut k = setup::<T>(param(3), param(4));
    k.net.nonzero = true;
    for e in 5..nparams() {
        let l = param(e);
        let bits: Vec<usize> = (0..l.max(1)).map(|_| pick(2)).collect();
        let dealt: Vec<_> = bits.iter().map(|b| deal(&T::int(*b as i64), n, t)).collect();
        let mine: Vec<Vec<_>> = (0..n).map(|p| column(&dealt, p)).collect();
        let net: *mut Net<T> = &mut *k.net;
        let out = each(net, &mut k.nodes, &mut k.rngs, |p, node, rng| {
            let mine = &mine[p];
            async move {
                if l == 0 {
                    <Node<T> as OrFunctionScheme<T, Share<T>, Node<T>>>::shared_or(rng, node, &mine[0]).await
                } else {
                    <Node<T> as UnboundedOrFunctionScheme<T, Share<T>, Node<T>>>::unbounded_shared_or(rng, node, mine).await
                }
            }
        });
        let any = bits.iter().any(|b| *b == 1) as i64;
        shares_of(n, t, &out, &T::int(any), "shares of the disjunction");
    }
}
#[no_mangle]
pub extern "C" fn s_or() {
    fields!(or_function)
}
/// the generators of the library's own fields and of the harness's
enum Any {
    Numbered(Rng),
    Words(Below),
}
impl RngCore for Any {
    fn next_u32(&mut self) -> u32 {
        match self {
            Any::Numbered(r) => r.next_u32(),
            Any::Words(r) => r.next_u32(),
        }
    }
    fn next_u64(&mut self) -> u64 {
        self.next_u32() as u64
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        match self {
            Any::Numbered(r) => r.fill_bytes(d),
            Any::Words(r) => r.fill_bytes(d),
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Any {}
fn generator<T: Field>() -> Any {
    if T::FREE {
        Any::Numbered(Rng { party: 0, count: 0 })
    } else {
        Any::Words(Below { prime: T::field_prime().as_uint().to_u64().unwrap(), words: 0 })
    }
}
/// runs a protocol of one party
fn alone<O>(mut f: Boxed<'_, O>) -> O {
    let woken: *mut bool = Box::leak(Box::new(true));
    let w = flagged(woken);
    let mut cx = Context::from_waker(&w);
    // nothing is awaited but what is ready, or has woken the party
    while unsafe { std::ptr::replace(woken, false) } {
        if let Poll::Ready(o) = f.as_mut().poll(&mut cx) {
            return o;
        }
    }
    fail("the party waits forever");
    unreachable!()
}
/// one evaluation over plain values, the bits given by `ones` (which of them are 1)
fn or_values<T: Field>(l: usize, one_bits: &dyn Fn(usize) -> bool) {
    let mut p = Lone::<T>::new(true);
    let mut rng = generator::<T>();
    let bits: Vec<bool> = (0..l).map(|i| one_bits(i)).collect();
    let vals: Vec<Val<T>> = bits.iter().map(|b| Val(T::int(*b as i64))).collect();
    let r = alone(<Lone<T> as UnboundedOrFunctionScheme<T, Val<T>, Lone<T>>>::unbounded_shared_or(&mut rng, &mut p, &vals)).0;
    check(r.same(&T::int(bits.iter().any(|b| *b) as i64)), "the disjunction");
}
/// params: field, then numbers of bits: over plain values. Bits: none, one anywhere, all, or from anywhere on
/// (of more than 20 bits: none, the last, all)
fn or_large<T: Field>() {
    for e in 1..nparams() {
        let l = param(e);
        let how = pick(3);
        let at = match l {
            0..=8 => pick(l),
            9..=20 => [0, l / 2, l - 1][pick(3)],
            _ if how == 1 => l - 1,
            _ => 0,
        };
        or_values::<T>(l, &|i| match how {
            0 => false,
            1 => i == at,
            _ => i >= at,
        });
    }
}
#[no_mangle]
pub extern "C" fn s_or_large() {
    fields!(or_large)
}
/// params: pairs of field and number of bits: evaluations over several fields in one process, all bits free
/// (the randomness of the library's own fields is fixed)
#[no_mangle]
pub extern "C" fn s_or_fields() {
    unsafe { FIXED = 1 };
    for e in (0..nparams()).step_by(2) {
        let l = param(e + 1);
        let b = pick(1 << l);
        let f = |i: usize| b >> i & 1 == 1;
        match param(e) {
            0 => or_values::<Q>(l, &f),
            3 => or_values::<G<3>>(l, &f),
            5 => or_values::<G<5>>(l, &f),
            7 => or_values::<G<7>>(l, &f),
            11 => or_values::<G<11>>(l, &f),
            105 => or_values::<L5>(l, &f),
            107 => or_values::<L7>(l, &f),
            111 => or_values::<L11>(l, &f),
            _ => fail("no such field"),
        }
    }
}

// C27
/// params: field, n, t, numbers in flight, free choices of the schedule, first share handed out
fn random<T: Field>() {
    let (n, t, count) = (param(1), param(2), param(3));
    let mut k = setup::<T>(param(4), param(5));
    unsafe { LIMIT = [count, n * count * (t - 1)] };
    let net: *mut Net<T> = &mut *k.net;
    let out = each(net, &mut k.nodes, &mut k.rngs, |_, node, rng| {
        let f: Vec<_> = (0..count).map(|_| <Node<T> as RandomNumberGenerationScheme<T, Share<T>, Node<T>>>::generate_random_number_sharing(rng, node)).collect();
        async move { futures::future::join_all(f).await }
    });
    check(k.net.deals.len() == count, "one dealing per number");
    for p in 0..n {
        let mine: Vec<T> = drawn().iter().filter(|d| d.0 == p as u32).map(|d| T::recall(d.1)).collect();
        check(mine.len() == count, "every party draws once per number");
        check(k.rngs[p].count as usize == count, "every party draws once per number");
        for i in 0..count {
            match k.net.deals[i][p].as_ref() {
                Some(d) => check(d.0.same(&mine[i]), "the party deals what it drew"),
                None => fail("every party deals"),
            }
        }
    }
    check(k.net.reveals.is_empty(), "nothing is opened");
    for i in 0..count {
        let v = (0..n).fold(T::int(0), |a, p| a + k.net.deals[i][p].as_ref().unwrap().0.clone());
        shares_of(n, t, &column(&out, i), &v, "shares of the sum of the contributions");
    }
}
#[no_mangle]
pub extern "C" fn s_random() {
    fields!(random)
}

// ---------------------------------------------------------------- C29
/// one run: what was opened, and the randomness (drawn members, then triples)
fn openings<T: Field>(what: usize, secrets: &[T]) -> (Vec<T>, Vec<T>) {
    let mut p = Lone::<T>::new(what >= 2);
    let mut rng = generator::<T>();
    let v: Vec<Val<T>> = secrets.iter().map(|s| Val(s.clone())).collect();
    match what {
        0 => {
            let pairs: Vec<_> = v.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect();
            alone(<Lone<T> as UnboundedMultiplicationScheme<T, Val<T>, Lone<T>>>::unbounded_multiply(&mut p, &pairs));
        }
        1 => {
            for c in v.chunks(3) {
                if c.len() == 3 {
                    alone(<Lone<T> as ConditionalSelectionScheme<T, Val<T>, Lone<T>>>::joint_conditional_selection(&mut p, &c[0], &c[1], &c[2]));
                } else {
                    alone(<Lone<T> as MultiplicationScheme<T, Val<T>, Lone<T>>>::multiply(&mut p, &c[0], &c[1]));
                }
            }
        }
        2 => {
            alone(<Lone<T> as UnboundedInversionScheme<T, Val<T>, Lone<T>>>::unbounded_inverse(&mut rng, &mut p, &v));
        }
        3 => {
            for x in &v {
                alone(<Lone<T> as InversionScheme<T, Val<T>, Lone<T>>>::inverse(&mut rng, &mut p, x));
            }
        }
        _ => {
            alone(<Lone<T> as UnboundedOrFunctionScheme<T, Val<T>, Lone<T>>>::unbounded_shared_or(&mut rng, &mut p, &v));
        }
    }
    let mut r = p.drawn;
    for (a, b) in p.triples {
        r.push(a);
        r.push(b);
    }
    (p.opened, r)
}
/// params: field, protocol (0 batch of products, 1 selections and a product, 2 batch of inverses, 3 inverses one by one, 4 disjunction), size
fn masks<T: Field>() {
    let (what, size) = (param(1), param(2));
    let secrets: Vec<T> = match what {
        0 => (0..2 * size).map(|_| T::any()).collect(),
        1 => (0..3 * size + 2).map(|_| T::any()).collect(),
        2 | 3 => (0..size).map(|_| T::any()).collect(),
        _ => (0..size).map(|_| T::int(pick(2) as i64)).collect(),
    };
    if what == 2 || what == 3 {
        for s in &secrets {
            assume(!s.zero_());
        }
    }
    let (o1, r1) = openings(what, &secrets);
    let (o2, r2) = openings(what, &secrets);
    check(o1.len() == r1.len() && o2.len() == r2.len() && o1.len() == o2.len(), "one opening for every random value");
    for (a, b) in o1.iter().zip(&o2) {
        assume(a.same(b));
    }
    for (a, b) in r1.iter().zip(&r2) {
        let same = a.same(b);
        check(same, "the openings determine the randomness");
        assume(same);
    }
}
#[no_mangle]
pub extern "C" fn s_masks() {
    fields!(masks)
}
// ---------------------------------------------------------------- C36, C37
/// one run of a protocol on free secrets: (0 batch of products, 1 single products and a selection, 2 batch of inverses,
/// 3 inverses one by one, 4 disjunction, 5 random numbers); every party's calls and the rounds
fn observed<T: Field>(what: usize, n: usize, t: usize, size: usize, choices: usize) -> (Vec<Vec<(Kind, usize)>>, usize) {
    let mut k = nodes::<T>(n, t);
    k.net.choices = choices % 100;
    k.net.skip = choices / 100;
    k.net.nonzero = what >= 2 && what != 5;
    let secrets: Vec<T> = match what {
        0 => (0..2 * size).map(|_| T::any()).collect(),
        1 => (0..3 * size).map(|i| if i % 3 == 0 { T::int(pick(2) as i64) } else { T::any() }).collect(),
        2 | 3 => (0..size).map(|_| T::any()).collect(),
        4 => {
            // (bits after the third repeat them)
            let free: Vec<usize> = (0..size.min(3)).map(|_| pick(2)).collect();
            (0..size).map(|i| T::int(free[i % 3] as i64)).collect()
        }
        _ => vec![],
    };
    if what == 2 || what == 3 {
        for s in &secrets {
            assume(!s.zero_());
        }
    }
    let dealt: Vec<_> = secrets.iter().map(|x| deal(x, n, t)).collect();
    let mine: Vec<Vec<_>> = (0..n).map(|p| column(&dealt, p)).collect();
    let net: *mut Net<T> = &mut *k.net;
    each(net, &mut k.nodes, &mut k.rngs, |p, node, rng| {
        let v = &mine[p];
        async move {
            match what {
                0 => {
                    let pairs: Vec<_> = v.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect();
                    <Node<T> as UnboundedMultiplicationScheme<T, Share<T>, Node<T>>>::unbounded_multiply(node, &pairs).await;
                }
                1 => {
                    for c in v.chunks(3) {
                        let m = <Node<T> as MultiplicationScheme<T, Share<T>, Node<T>>>::multiply(node, &c[1], &c[2]).await;
                        <Node<T> as ConditionalSelectionScheme<T, Share<T>, Node<T>>>::joint_conditional_selection(node, &c[0], &m, &c[2]).await;
                    }
                }
                2 => {
                    <Node<T> as UnboundedInversionScheme<T, Share<T>, Node<T>>>::unbounded_inverse(rng, node, v).await;
                }
                3 => {
                    for x in v {
                        <Node<T> as InversionScheme<T, Share<T>, Node<T>>>::inverse(rng, node, x).await;
                    }
                }
                4 => {
                    <Node<T> as UnboundedOrFunctionScheme<T, Share<T>, Node<T>>>::unbounded_shared_or(rng, node, v).await;
                }
                _ => {
                    let f: Vec<_> = (0..size).map(|_| <Node<T> as RandomNumberGenerationScheme<T, Share<T>, Node<T>>>::generate_random_number_sharing(rng, node)).collect();
                    futures::future::join_all(f).await;
                }
            }
        }
    });
    (std::mem::take(&mut k.net.calls), k.net.rounds)
}
/// C36: params: field, protocol, n, t, size, free choices of the first run's schedule
fn pattern<T: Field>() {
    let (what, n, t, size) = (param(1), param(2), param(3), param(4));
    let (one, _) = observed::<T>(what, n, t, size, param(5));
    let (two, _) = observed::<T>(what, n, t, size, 0);
    check(!one[0].is_empty(), "the protocol communicates");
    for p in 0..n {
        check(one[p] == one[0], "all parties make the same calls in the same order");
        check(two[p] == one[p], "the calls do not depend on secrets, randomness or schedule");
    }
}
#[no_mangle]
pub extern "C" fn s_pattern() {
    fields!(pattern)
}
/// C37: params: field, protocol, n, t, small size, large size
fn rounds<T: Field>() {
    let (what, n, t) = (param(1), param(2), param(3));
    let (_, small) = observed::<T>(what, n, t, param(4), 0);
    let (_, large) = observed::<T>(what, n, t, param(5), 0);
    check(small > 0, "the protocol communicates");
    check(large <= small, "a larger batch takes no more rounds");
}
#[no_mangle]
pub extern "C" fn s_rounds() {
    fields!(rounds)
}
entries!(s_pattern, s_rounds, s_draws, s_rank, s_reconstruct, s_far, s_many, s_privacy, s_linear, s_mixed, s_multiply, s_select, s_inverse, s_or, s_or_large, s_or_fields, s_random, s_masks, s_delegate);
pub use stub::s_delegate;
