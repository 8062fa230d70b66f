//! C28: every delegatable protocol with an implementation that records how it is called.
use crate::field::*;
use crate::net::flagged;
use jester_sharing::*;
use std::future::{ready, Future};
use std::pin::Pin;
use std::task::{Context, Poll};
use sym::*;

type T = G<13>;
#[derive(Clone, Debug)]
pub struct S(u64);

/// a protocol type that delegates everything to `To`, or (OWN) implements everything under its own marker
pub struct Party<const OWN: bool> {
    number: u64,
    calls: Vec<u64>,
}
pub struct To;
pub struct Mine;

struct Words {
    state: u64,
    count: u64,
}
impl RngCore for Words {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.count += 1;
        self.state.wrapping_add(self.count)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = self.next_u64() as u8
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Words {}

impl<const O: bool> ThresholdSecretSharingScheme<T, S> for Party<O> {
    fn generate_shares<R: RngCore + CryptoRng>(_: &mut R, _: &T, _: usize, _: usize) -> Vec<S> {
        panic!("not used")
    }
    fn reconstruct_secret(_: &[S], _: usize) -> T {
        panic!("not used")
    }
}
impl<const O: bool> LinearSharingScheme<T, S> for Party<O> {
    fn add_shares(_: &S, _: &S) -> S {
        panic!("not used")
    }
    fn sub_shares(_: &S, _: &S) -> S {
        panic!("not used")
    }
    fn add_scalar(_: &S, _: &T) -> S {
        panic!("not used")
    }
    fn sub_scalar(_: &S, _: &T) -> S {
        panic!("not used")
    }
    fn multiply_scalar(_: &S, _: &T) -> S {
        panic!("not used")
    }
    fn sum_shares(_: &[S]) -> Option<S> {
        panic!("not used")
    }
}
impl<const O: bool> CliqueCommunicationScheme<T, S> for Party<O> {
    fn reveal_shares(&mut self, _: S) -> Pin<Box<dyn Future<Output = T> + Send>> {
        panic!("not used")
    }
    fn distribute_secret(&mut self, _: T) -> Pin<Box<dyn Future<Output = Vec<S>> + Send>> {
        panic!("not used")
    }
}
/// records a call and answers with a word that depends on every argument and its place
fn call<const O: bool>(p: &mut Party<O>, method: u64, args: &[&S], draw: u64) -> S {
    p.calls.push(method);
    p.calls.push(p.number);
    p.calls.push(args.len() as u64);
    for a in args {
        p.calls.push(a.0);
    }
    p.calls.push(draw);
    let mut r = method ^ draw;
    for (i, a) in args.iter().enumerate() {
        r = r.rotate_left(7).wrapping_add(a.0 ^ i as u64);
    }
    S(r)
}
/// the answer comes with the second poll, which is recorded as well
struct Later<O>(Option<O>, bool);
impl<O: Unpin> Future for Later<O> {
    type Output = O;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<O> {
        if !self.1 {
            self.1 = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        match self.0.take() {
            Some(o) => Poll::Ready(o),
            None => panic!("polled after completion"),
        }
    }
}
fn later<O: Unpin>(o: O) -> Later<O> {
    Later(Some(o), false)
}

macro_rules! to { ($own:literal) => {
impl MultiplicationScheme<T, S, Party<$own>> for To {
    fn multiply<'a>(p: &'a mut Party<$own>, l: &S, r: &S) -> Pin<Box<dyn Future<Output = S> + Send + 'a>> {
        Box::pin(later(call(p, 1, &[l, r], 0)))
    }
}
impl UnboundedMultiplicationScheme<T, S, Party<$own>> for To {
    fn unbounded_multiply<'a>(p: &'a mut Party<$own>, pairs: &[(S, S)]) -> Pin<Box<dyn Future<Output = Vec<S>> + Send + 'a>> {
        let v: Vec<S> = pairs.iter().map(|(l, r)| call(p, 2, &[l, r], 0)).collect();
        Box::pin(later(v))
    }
}
impl RandomNumberGenerationScheme<T, S, Party<$own>> for To {
    fn generate_random_number_sharing<R: RngCore + CryptoRng>(rng: &mut R, p: &mut Party<$own>) -> Pin<Box<dyn Future<Output = S> + Send>> {
        Box::pin(ready(call(p, 3, &[], rng.next_u64())))
    }
}
impl RandomBitGenerationScheme<T, S, Party<$own>> for To {
    fn generate_random_bit<'a, R: RngCore + CryptoRng>(rng: &mut R, p: &'a mut Party<$own>) -> Pin<Box<dyn Future<Output = S> + Send + 'a>> {
        Box::pin(later(call(p, 4, &[], rng.next_u64())))
    }
}
impl InversionScheme<T, S, Party<$own>> for To {
    fn inverse<'a, R: RngCore + CryptoRng>(rng: &'a mut R, p: &'a mut Party<$own>, s: &S) -> Pin<Box<dyn Future<Output = S> + 'a>> {
        Box::pin(later(call(p, 5, &[s], rng.next_u64())))
    }
}
impl UnboundedInversionScheme<T, S, Party<$own>> for To {
    fn unbounded_inverse<'a, R: RngCore + CryptoRng>(rng: &'a mut R, p: &'a mut Party<$own>, s: &[S]) -> Pin<Box<dyn Future<Output = Vec<S>> + 'a>> {
        let v: Vec<S> = s.iter().map(|x| call(p, 6, &[x], rng.next_u64())).collect();
        Box::pin(later(v))
    }
}
impl ConditionalSelectionScheme<T, S, Party<$own>> for To {
    fn joint_conditional_selection<'a>(p: &'a mut Party<$own>, c: &S, l: &S, r: &S) -> Pin<Box<dyn Future<Output = S> + 'a>> {
        Box::pin(later(call(p, 7, &[c, l, r], 0)))
    }
}
impl OrFunctionScheme<T, S, Party<$own>> for To {
    fn shared_or<'a, R: RngCore + CryptoRng>(rng: &'a mut R, p: &'a mut Party<$own>, b: &S) -> Pin<Box<dyn Future<Output = S> + 'a>> {
        Box::pin(later(call(p, 8, &[b], rng.next_u64())))
    }
}
impl UnboundedOrFunctionScheme<T, S, Party<$own>> for To {
    fn unbounded_shared_or<'a, R: RngCore + CryptoRng>(rng: &'a mut R, p: &'a mut Party<$own>, b: &[S]) -> Pin<Box<dyn Future<Output = S> + 'a>> {
        let v: Vec<&S> = b.iter().collect();
        Box::pin(later(call(p, 9, &v, rng.next_u64())))
    }
}
} }
to!(false);
to!(true);
macro_rules! delegate {
    ($($scheme:ident $marker:ident),*) => { $(
        impl $marker for Party<false> {
            type Marker = Delegate;
        }
        impl $scheme<T, S, Party<false>> for Party<false> {
            type Delegate = To;
        }
    )* };
}
delegate!(
    MultiplicationSchemeDelegate MultiplicationSchemeMarker,
    UnboundedMultiplicationSchemeDelegate UnboundedMultiplicationSchemeMarker,
    RandomNumberGenerationSchemeDelegate RandomNumberGenerationSchemeMarker,
    RandomBitGenerationSchemeDelegate RandomBitGenerationSchemeMarker,
    InversionSchemeDelegate InversionSchemeMarker,
    UnboundedInversionSchemeDelegate UnboundedInversionSchemeMarker,
    ConditionalSelectionSchemeDelegate ConditionalSelectionSchemeMarker,
    OrFunctionSchemeDelegate OrFunctionSchemeMarker,
    UnboundedOrFunctionSchemeDelegate UnboundedOrFunctionSchemeMarker
);
impl MultiplicationSchemeMarker for Party<true> {
    type Marker = Mine;
}
impl MultiplicationSchemeImpl<T, S, Party<true>, Mine> for Party<true> {
    fn multiply<'a>(p: &'a mut Party<true>, l: &S, r: &S) -> Pin<Box<dyn Future<Output = S> + Send + 'a>> {
        <To as MultiplicationScheme<T, S, Party<true>>>::multiply(p, l, r)
    }
}
impl UnboundedMultiplicationSchemeMarker for Party<true> {
    type Marker = Mine;
}
impl UnboundedMultiplicationSchemeImpl<T, S, Party<true>, Mine> for Party<true> {
    fn unbounded_multiply<'a>(p: &'a mut Party<true>, pairs: &[(S, S)]) -> Pin<Box<dyn Future<Output = Vec<S>> + Send + 'a>> {
        <To as UnboundedMultiplicationScheme<T, S, Party<true>>>::unbounded_multiply(p, pairs)
    }
}
impl RandomNumberGenerationSchemeMarker for Party<true> {
    type Marker = Mine;
}
impl RandomNumberGenerationSchemeImpl<T, S, Party<true>, Mine> for Party<true> {
    fn generate_random_number_sharing<R: RngCore + CryptoRng>(rng: &mut R, p: &mut Party<true>) -> Pin<Box<dyn Future<Output = S> + Send>> {
        <To as RandomNumberGenerationScheme<T, S, Party<true>>>::generate_random_number_sharing(rng, p)
    }
}
impl RandomBitGenerationSchemeMarker for Party<true> {
    type Marker = Mine;
}
impl RandomBitGenerationSchemeImpl<T, S, Party<true>, Mine> for Party<true> {
    fn generate_random_bit<'a, R: RngCore + CryptoRng>(rng: &mut R, p: &'a mut Party<true>) -> Pin<Box<dyn Future<Output = S> + Send + 'a>> {
        <To as RandomBitGenerationScheme<T, S, Party<true>>>::generate_random_bit(rng, p)
    }
}
impl InversionSchemeMarker for Party<true> {
    type Marker = Mine;
}
impl InversionSchemeImpl<T, S, Party<true>, Mine> for Party<true> {
    fn inverse<'a, R: RngCore + CryptoRng>(rng: &'a mut R, p: &'a mut Party<true>, s: &S) -> Pin<Box<dyn Future<Output = S> + 'a>> {
        <To as InversionScheme<T, S, Party<true>>>::inverse(rng, p, s)
    }
}
impl UnboundedInversionSchemeMarker for Party<true> {
    type Marker = Mine;
}
impl UnboundedInversionSchemeImpl<T, S, Party<true>, Mine> for Party<true> {
    fn unbounded_inverse<'a, R: RngCore + CryptoRng>(rng: &'a mut R, p: &'a mut Party<true>, s: &[S]) -> Pin<Box<dyn Future<Output = Vec<S>> + 'a>> {
        <To as UnboundedInversionScheme<T, S, Party<true>>>::unbounded_inverse(rng, p, s)
    }
}
impl ConditionalSelectionSchemeMarker for Party<true> {
    type Marker = Mine;
}
impl ConditionalSelectionSchemeImpl<T, S, Party<true>, Mine> for Party<true> {
    fn joint_conditional_selection<'a>(p: &'a mut Party<true>, c: &S, l: &S, r: &S) -> Pin<Box<dyn Future<Output = S> + 'a>> {
        <To as ConditionalSelectionScheme<T, S, Party<true>>>::joint_conditional_selection(p, c, l, r)
    }
}
impl OrFunctionSchemeMarker for Party<true> {
    type Marker = Mine;
}
impl OrFunctionSchemeImpl<T, S, Party<true>, Mine> for Party<true> {
    fn shared_or<'a, R: RngCore + CryptoRng>(rng: &'a mut R, p: &'a mut Party<true>, b: &S) -> Pin<Box<dyn Future<Output = S> + 'a>> {
        <To as OrFunctionScheme<T, S, Party<true>>>::shared_or(rng, p, b)
    }
}
impl UnboundedOrFunctionSchemeMarker for Party<true> {
    type Marker = Mine;
}
impl UnboundedOrFunctionSchemeImpl<T, S, Party<true>, Mine> for Party<true> {
    fn unbounded_shared_or<'a, R: RngCore + CryptoRng>(rng: &'a mut R, p: &'a mut Party<true>, b: &[S]) -> Pin<Box<dyn Future<Output = S> + 'a>> {
        <To as UnboundedOrFunctionScheme<T, S, Party<true>>>::unbounded_shared_or(rng, p, b)
    }
}

fn poll<O>(mut f: Pin<Box<dyn Future<Output = O> + '_>>, polls: &mut u64) -> O {
    let w = flagged(Box::leak(Box::new(true)));
    let mut cx = Context::from_waker(&w);
    loop {
        *polls += 1;
        if let Poll::Ready(o) = f.as_mut().poll(&mut cx) {
            return o;
        }
        if *polls > 100 {
            fail("the protocol does not end");
        }
    }
}
/// every method once through the protocol type `$p`
macro_rules! calls {
    ($p:ty, $own:expr, $args:expr, $state:expr) => {{
        let a: &[S] = $args;
        let pairs: Vec<(S, S)> = a.chunks(2).map(|c| (c[0].clone(), c[c.len() - 1].clone())).collect();
        let mut party = Party::<$own> { number: 77, calls: vec![] };
        let p = &mut party;
        let mut rng = Words { state: $state, count: 0 };
        let g = &mut rng;
        let mut n = 0u64;
        let mut out: Vec<S> = vec![];
        out.push(poll(<$p as MultiplicationScheme<T, S, Party<$own>>>::multiply(p, &a[0], &a[1]), &mut n));
        out.extend(poll(<$p as UnboundedMultiplicationScheme<T, S, Party<$own>>>::unbounded_multiply(p, &pairs), &mut n));
        out.push(poll(<$p as RandomNumberGenerationScheme<T, S, Party<$own>>>::generate_random_number_sharing(g, p), &mut n));
        out.push(poll(<$p as RandomBitGenerationScheme<T, S, Party<$own>>>::generate_random_bit(g, p), &mut n));
        out.push(poll(<$p as InversionScheme<T, S, Party<$own>>>::inverse(g, p, &a[0]), &mut n));
        out.extend(poll(<$p as UnboundedInversionScheme<T, S, Party<$own>>>::unbounded_inverse(g, p, a), &mut n));
        out.push(poll(<$p as ConditionalSelectionScheme<T, S, Party<$own>>>::joint_conditional_selection(p, &a[0], &a[1], &a[2]), &mut n));
        out.push(poll(<$p as OrFunctionScheme<T, S, Party<$own>>>::shared_or(g, p, &a[1]), &mut n));
        out.push(poll(<$p as UnboundedOrFunctionScheme<T, S, Party<$own>>>::unbounded_shared_or(g, p, a), &mut n));
        (party.calls, out, rng.count, n)
    }};
}
fn compare(direct: (Vec<u64>, Vec<S>, u64, u64), through: (Vec<u64>, Vec<S>, u64, u64)) {
    check(direct.0.len() == through.0.len(), "the same calls");
    for (a, b) in direct.0.iter().zip(&through.0) {
        check(a == b, "the same calls with the same arguments");
        trace(*b);
    }
    check(direct.1.len() == through.1.len(), "the same results");
    for (a, b) in direct.1.iter().zip(&through.1) {
        check(a.0 == b.0, "the same results");
        trace(b.0);
    }
    check(direct.2 == through.2, "the same random draws");
    check(direct.3 == through.3, "the same polls");
}
/// params: number of arguments of the batch methods
#[no_mangle]
pub extern "C" fn s_delegate() {
    let args: Vec<S> = (0..param(0)).map(|_| S(word64())).collect();
    let state = word64();
    compare(calls!(To, false, &args, state), calls!(Party<false>, false, &args, state));
    compare(calls!(To, true, &args, state), calls!(Party<true>, true, &args, state));
    outside::run(&args, state);
}

/// protocols declared outside the library
mod outside {
    use super::*;
    use jester_sharing_proc::delegatable_protocol;

    /// several methods; arguments of the same type, so that whatever order a call passes them in compiles
    #[delegatable_protocol]
    pub trait Several<T, S, P>
    where
        T: PrimeField,
    {
        fn first<'a>(protocol: &'a mut P, left: &S, right: &S, other: &S, last: &S) -> Pin<Box<dyn Future<Output = Vec<S>> + 'a>>;
        fn second<R: RngCore + CryptoRng>(rng: &mut R, by: u64, from: u64) -> u64;
        fn third(x: T, y: T) -> T;
        fn fifth(values: Vec<S>, by: Vec<S>) -> Vec<S>;
        fn fourth() -> u64;
    }
    /// other type parameters, trailing commas
    #[delegatable_protocol]
    pub trait Other<P, A,>
    where
        P: Send,
        A: Clone,
    {
        fn first(a: A, b: A, c: A) -> (A, A)
        where
            A: Send;
    }
    pub struct There;
    impl Several<T, S, Party<false>> for There {
        fn first<'a>(p: &'a mut Party<false>, l: &S, r: &S, o: &S, e: &S) -> Pin<Box<dyn Future<Output = Vec<S>> + 'a>> {
            let v = vec![call(p, 21, &[l, r, o, e], 0), call(p, 22, &[e, l], 0)];
            Box::pin(later(v))
        }
        fn second<R: RngCore + CryptoRng>(rng: &mut R, by: u64, from: u64) -> u64 {
            from.wrapping_sub(by) ^ rng.next_u64()
        }
        fn third(x: T, y: T) -> T {
            x - y
        }
        fn fifth(values: Vec<S>, by: Vec<S>) -> Vec<S> {
            values.into_iter().rev().chain(by).collect()
        }
        fn fourth() -> u64 {
            99
        }
    }
    impl Other<Party<false>, u32> for There {
        fn first(a: u32, b: u32, c: u32) -> (u32, u32) {
            (a, b.wrapping_sub(c))
        }
    }
    impl SeveralMarker for Party<false> {
        type Marker = Delegate;
    }
    impl SeveralDelegate<T, S, Party<false>> for Party<false> {
        type Delegate = There;
    }
    impl OtherMarker for Party<false> {
        type Marker = Delegate;
    }
    impl OtherDelegate<Party<false>, u32> for Party<false> {
        type Delegate = There;
    }
    macro_rules! calls {
        ($p:ty, $args:expr, $state:expr) => {{
            let a: &[S] = $args;
            let mut party = Party::<false> { number: 78, calls: vec![] };
            let mut rng = Words { state: $state, count: 0 };
            let mut n = 0u64;
            let mut out = poll(<$p as Several<T, S, Party<false>>>::first(&mut party, &a[0], &a[1], &a[2], &a[0]), &mut n);
            let x = <$p as Several<T, S, Party<false>>>::second(&mut rng, a[0].0, a[2].0);
            let d = <$p as Several<T, S, Party<false>>>::third(G(3), G(9));
            let v = <$p as Several<T, S, Party<false>>>::fifth(a.to_vec(), a[1..].to_vec());
            let (p, q) = <$p as Other<Party<false>, u32>>::first(a[0].0 as u32, a[1].0 as u32, a[2].0 as u32);
            out.push(S(x));
            out.extend(v);
            out.extend([S(d.0 as u64), S(<$p as Several<T, S, Party<false>>>::fourth()), S(p as u64), S(q as u64)]);
            (party.calls, out, rng.count, n)
        }};
    }
    pub fn run(args: &[S], state: u64) {
        compare(calls!(There, args, state), calls!(Party<false>, args, state));
    }
}
