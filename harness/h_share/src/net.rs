//! n parties in one process: their network, whose schedule is chosen by the harness, and the executor.
use crate::field::*;
use jester_sharing::beaver_randomization_multiplication::*;
use jester_sharing::joint_conditional_selection::JointConditionalSelection;
use jester_sharing::joint_unbounded_or::JointUnboundedOrFunction;
use jester_sharing::shamir_secret_sharing::ShamirSecretSharingScheme;
use jester_sharing::sum_random_number_generation::SumRandomNumberGeneration;
use jester_sharing::unbounded_inversion::JointUnboundedInversion;
use jester_sharing::*;
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use sym::*;

pub type Share<T> = (usize, T);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Reveal,
    Deal,
    Triples,
}
/// one party waits for one round
struct Event {
    kind: Kind,
    round: usize,
    party: usize,
    delivered: bool,
    waker: Option<Waker>,
}
pub struct Net<T: Field> {
    pub n: usize,
    pub t: usize,
    /// rounds: what every party put in
    pub reveals: Vec<Vec<Option<Share<T>>>>,
    pub deals: Vec<Vec<Option<(T, Vec<Share<T>>)>>>,
    /// triples: everybody's shares of a, b, c
    pub triples: Vec<Vec<(Share<T>, Share<T>, Share<T>)>>,
    asked: Vec<(usize, usize)>,
    used: [Vec<usize>; 3],
    events: Vec<Event>,
    /// draws for dealing are made here
    rng: Rng,
    /// rounds in which everything is delivered before the free choices begin
    pub skip: usize,
    /// first choice points left for the schedule
    pub choices: usize,
    /// shares are handed out starting with this party's
    pub first: usize,
    /// the sums of what was dealt are not zero
    pub nonzero: bool,
    /// every party's calls in their order: kind and count
    pub calls: Vec<Vec<(Kind, usize)>>,
    /// how often the parties had to wait for deliveries
    pub rounds: usize,
}
/// the harness's own dealer: shares of `secret` on a polynomial of free coefficients
pub fn deal<T: Field>(secret: &T, n: usize, t: usize) -> Vec<Share<T>> {
    let c: Vec<T> = (1..t).map(|_| T::any()).collect();
    (1..=n).map(|x| (x, (c.iter().rev().fold(T::int(0), |a, b| (a + b.clone()) * T::int(x as i64))) + secret.clone())).collect()
}
/// the value at 0 of the polynomial through the points
pub fn interpolate<T: Field>(s: &[Share<T>]) -> T {
    let mut r = T::int(0);
    for (i, y) in s {
        let (mut p, mut q) = (T::int(1), T::int(1));
        for (j, _) in s {
            if i != j {
                p = p * T::int(*j as i64);
                q = q * T::int(*j as i64 - *i as i64);
            }
        }
        r = r + y.clone() * p * q.inverse();
    }
    r
}

impl<T: Field> Net<T> {
    pub fn new(n: usize, t: usize) -> Net<T> {
        drawn().clear();
        unsafe { PARTIES = n as u32 };
        Net {
            n,
            t,
            reveals: vec![],
            deals: vec![],
            triples: vec![],
            asked: vec![],
            used: [vec![0; n], vec![0; n], vec![0; n]],
            events: vec![],
            rng: Rng { party: 1000, count: 0 },
            skip: 0,
            choices: 0,
            first: 0,
            nonzero: false,
            calls: vec![vec![]; n],
            rounds: 0,
        }
    }
    fn wait(&mut self, kind: Kind, round: usize, party: usize) -> usize {
        self.events.push(Event { kind, round, party, delivered: false, waker: None });
        self.events.len() - 1
    }
    fn complete(&self, e: &Event) -> bool {
        match e.kind {
            Kind::Reveal => self.reveals[e.round].iter().all(|x| x.is_some()),
            Kind::Deal => self.deals[e.round].iter().all(|x| x.is_some()),
            Kind::Triples => true,
        }
    }
    fn deliver(&mut self, i: usize) {
        self.events[i].delivered = true;
        if let Some(w) = self.events[i].waker.take() {
            w.wake()
        }
    }
    fn deliverable(&self) -> Vec<usize> {
        (0..self.events.len()).filter(|i| !self.events[*i].delivered && self.complete(&self.events[*i])).collect()
    }
    /// parties' shares beginning with party `first`
    fn order(&self) -> Vec<usize> {
        (0..self.n).map(|i| (i + self.first) % self.n).collect()
    }
}

pub struct Node<T: Field> {
    pub id: usize,
    pub net: *mut Net<T>,
}
unsafe impl<T: Field> Send for Node<T> {}
unsafe impl<T: Field> Sync for Node<T> {}
impl<T: Field> Node<T> {
    pub fn net(&self) -> &'static mut Net<T> {
        unsafe { &mut *self.net }
    }
}

struct Wait<T: Field, O> {
    net: *mut Net<T>,
    event: usize,
    result: fn(&mut Net<T>, usize, usize) -> O,
}
unsafe impl<T: Field, O> Send for Wait<T, O> {}
impl<T: Field, O> Future for Wait<T, O> {
    type Output = O;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<O> {
        let at: *mut Net<T> = self.net;
        let net = unsafe { &mut *at };
        let e = &mut net.events[self.event];
        if !e.delivered {
            e.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let (r, p) = (e.round, e.party);
        Poll::Ready((self.result)(net, r, p))
    }
}

impl<T: Field> ShamirSecretSharingScheme<T> for Node<T> {}

impl<T: Field> CliqueCommunicationScheme<T, Share<T>> for Node<T> {
    fn reveal_shares(&mut self, share: Share<T>) -> Pin<Box<dyn Future<Output = T> + Send>> {
        let net = self.net();
        check(share.0 == self.id + 1, "a party reveals its own share");
        net.calls[self.id].push((Kind::Reveal, 1));
        let round = net.used[0][self.id];
        net.used[0][self.id] += 1;
        if net.reveals.len() == round {
            net.reveals.push(vec![None; net.n]);
        }
        net.reveals[round][self.id] = Some(share);
        let event = net.wait(Kind::Reveal, round, self.id);
        Box::pin(Wait {
            net: self.net,
            event,
            result: |net, r, _| {
                let s: Vec<Share<T>> = net.order().into_iter().map(|p| net.reveals[r][p].clone().unwrap()).collect();
                <Node<T> as ThresholdSecretSharingScheme<T, Share<T>>>::reconstruct_secret(&s, net.t)
            },
        })
    }
    fn distribute_secret(&mut self, secret: T) -> Pin<Box<dyn Future<Output = Vec<Share<T>>> + Send>> {
        let net = self.net();
        net.calls[self.id].push((Kind::Deal, 1));
        let round = net.used[1][self.id];
        net.used[1][self.id] += 1;
        if net.deals.len() == round {
            net.deals.push(vec![None; net.n]);
        }
        let shares = <Node<T> as ThresholdSecretSharingScheme<T, Share<T>>>::generate_shares(&mut net.rng, &secret, net.n, net.t);
        net.deals[round][self.id] = Some((secret, shares));
        if net.nonzero && net.deals[round].iter().all(|x| x.is_some()) {
            let s = net.deals[round].iter().fold(T::int(0), |a, x| a + x.as_ref().unwrap().0.clone());
            assume(!s.zero_());
        }
        let event = net.wait(Kind::Deal, round, self.id);
        Box::pin(Wait { net: self.net, event, result: |net, r, p| net.order().into_iter().map(|q| net.deals[r][q].as_ref().unwrap().1[p].clone()).collect() })
    }
}

impl<T: Field> BeaverCommunicationScheme<Share<T>> for Node<T> {
    fn get_reconstruction_threshold(&self) -> usize {
        self.net().t
    }
    fn obtain_beaver_triples<'a>(&'a mut self, count: usize) -> Pin<Box<dyn Future<Output = Vec<(Share<T>, Share<T>, Share<T>)>> + Send + 'a>> {
        let net = self.net();
        net.calls[self.id].push((Kind::Triples, count));
        let from = net.used[2][self.id];
        net.used[2][self.id] += count;
        while net.triples.len() < from + count {
            let (a, b) = (T::any(), T::any());
            let c = a.clone() * b.clone();
            let (a, b, c) = (deal(&a, net.n, net.t), deal(&b, net.n, net.t), deal(&c, net.n, net.t));
            net.triples.push((0..net.n).map(|p| (a[p].clone(), b[p].clone(), c[p].clone())).collect());
        }
        net.asked.push((from, count));
        let round = net.asked.len() - 1;
        let event = net.wait(Kind::Triples, round, self.id);
        Box::pin(Wait {
            net: self.net,
            event,
            result: |net, r, p| {
                let (from, count) = net.asked[r];
                (from..from + count).map(|k| net.triples[k][p].clone()).collect()
            },
        })
    }
}

// ---------------------------------------------------------------- the implementations a node selects
macro_rules! delegate {
    ($scheme:ident, $marker:ident, $to:ident) => {
        impl<T: Field> $marker for Node<T> {
            type Marker = Delegate;
        }
        impl<T: Field> $scheme<T, Share<T>, Node<T>> for Node<T> {
            type Delegate = $to<T, Share<T>, Node<T>>;
        }
    };
}
delegate!(MultiplicationSchemeDelegate, MultiplicationSchemeMarker, BeaverRerandomizationMultiplication);
delegate!(UnboundedMultiplicationSchemeDelegate, UnboundedMultiplicationSchemeMarker, BeaverRerandomizationMultiplication);
delegate!(RandomNumberGenerationSchemeDelegate, RandomNumberGenerationSchemeMarker, SumRandomNumberGeneration);
delegate!(InversionSchemeDelegate, InversionSchemeMarker, JointUnboundedInversion);
delegate!(UnboundedInversionSchemeDelegate, UnboundedInversionSchemeMarker, JointUnboundedInversion);
delegate!(ConditionalSelectionSchemeDelegate, ConditionalSelectionSchemeMarker, JointConditionalSelection);
delegate!(OrFunctionSchemeDelegate, OrFunctionSchemeMarker, JointUnboundedOrFunction);
delegate!(UnboundedOrFunctionSchemeDelegate, UnboundedOrFunctionSchemeMarker, JointUnboundedOrFunction);

// ---------------------------------------------------------------- executor
fn raw(flag: *const ()) -> RawWaker {
    fn wake(p: *const ()) {
        unsafe { *(p as *mut bool) = true }
    }
    fn nop(_: *const ()) {}
    static V: RawWakerVTable = RawWakerVTable::new(raw, wake, wake, nop);
    RawWaker::new(flag, &V)
}
/// a waker that sets the flag
pub fn flagged(flag: *mut bool) -> Waker {
    unsafe { Waker::from_raw(raw(flag as *const ())) }
}

/// what every party computes; a party is only polled when it was woken
pub fn run<T: Field, O>(net: *mut Net<T>, mut f: Vec<Pin<Box<dyn Future<Output = O> + '_>>>) -> Vec<O> {
    let n = f.len();
    let mut out: Vec<Option<O>> = (0..n).map(|_| None).collect();
    // (wakers may outlive the run: the flags stay)
    let woken: *mut bool = Box::leak(vec![true; n].into_boxed_slice()).as_mut_ptr();
    loop {
        let mut finished = false;
        for p in 0..n {
            let flag = unsafe { woken.add(p) };
            if out[p].is_none() && unsafe { std::ptr::replace(flag, false) } {
                let w = flagged(flag);
                let mut cx = Context::from_waker(&w);
                if let Poll::Ready(o) = f[p].as_mut().poll(&mut cx) {
                    out[p] = Some(o);
                }
                // (others may wait for what it did)
                finished = true;
            }
        }
        if out.iter().all(|o| o.is_some()) {
            break;
        }
        let net = unsafe { &mut *net };
        let d = net.deliverable();
        if d.is_empty() {
            if finished {
                continue;
            }
            fail("the parties wait forever");
        }
        net.rounds += 1;
        if net.skip > 0 {
            net.skip -= 1;
            for i in d {
                net.deliver(i);
            }
        } else if net.choices > 0 && d.len() > 1 {
            net.choices -= 1;
            let i = d[conc(below(d.len() as u64)) as usize];
            net.deliver(i);
        } else {
            for i in d {
                net.deliver(i);
            }
        }
    }
    out.into_iter().map(|o| o.unwrap()).collect()
}

/// the outputs are the parties' shares of the value
pub fn shares_of<T: Field>(n: usize, t: usize, s: &[Share<T>], v: &T, msg: &str) {
    check(s.len() == n, "every party obtains a share");
    for (p, x) in s.iter().enumerate() {
        check(x.0 == p + 1, "a party obtains its own share");
    }
    // every window of t parties (all of them lie on one polynomial)
    for i in 0..=n - t {
        check(interpolate(&s[i..i + t]).same(v), msg);
    }
    if t < n {
        let mut q = s[1..t].to_vec();
        q.push(s[n - 1].clone());
        check(interpolate(&q).same(v), msg);
    }
}
pub struct Nodes<T: Field> {
    pub net: Box<Net<T>>,
    pub nodes: Vec<Node<T>>,
    pub rngs: Vec<Rng>,
    data: PhantomData<T>,
}
pub fn nodes<T: Field>(n: usize, t: usize) -> Nodes<T> {
    let mut net = Box::new(Net::new(n, t));
    let p: *mut Net<T> = &mut *net;
    Nodes { net, nodes: (0..n).map(|id| Node { id, net: p }).collect(), rngs: (0..n as u32).map(|party| Rng { party, count: 0 }).collect(), data: PhantomData }
}
