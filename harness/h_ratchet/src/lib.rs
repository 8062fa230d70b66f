//! Harness for jester_double_ratchet (C16..C19, C32, C33): the protocol runs over ideal components (a free
//! term algebra), the network schedule is symbolic, the plaintexts are symbolic.
use jester_double_ratchet::state::{Established, Initiator};
use jester_double_ratchet::*;
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
use jester_encryption::SymmetricalEncryptionScheme;
use rand::{CryptoRng, RngCore};
use std::ptr::addr_of_mut;
use sym::*;

// ---------------------------------------------------------------- ideal components
/// free terms, interned: equal terms have equal numbers
static mut TERMS: Vec<(u32, u32, u32)> = Vec::new();
/// the terms by their first argument (modulo the number of lists)
static mut INDEX: Vec<Vec<u32>> = Vec::new();
/// message keys in the order of their use for encryption
static mut USED: Vec<u32> = Vec::new();
/// uses of a term as a message key
static mut USES: Vec<u32> = Vec::new();
/// (party, public key) in the order of generation
static mut GENERATED: Vec<(u32, u32)> = Vec::new();

fn terms() -> &'static mut Vec<(u32, u32, u32)> {
    unsafe { &mut *addr_of_mut!(TERMS) }
}
fn used() -> &'static mut Vec<u32> {
    unsafe { &mut *addr_of_mut!(USED) }
}
fn uses() -> &'static mut Vec<u32> {
    unsafe { &mut *addr_of_mut!(USES) }
}
const LISTS: usize = 8191;
fn generated() -> &'static mut Vec<(u32, u32)> {
    unsafe { &mut *addr_of_mut!(GENERATED) }
}
fn term(tag: u32, a: u32, b: u32) -> u32 {
    let t = terms();
    let list = &mut unsafe { &mut *addr_of_mut!(INDEX) }[a as usize % LISTS];
    for i in list.iter() {
        if t[*i as usize] == (tag, a, b) {
            return *i;
        }
    }
    list.push(t.len() as u32);
    t.push((tag, a, b));
    uses().push(0);
    t.len() as u32 - 1
}

const ATOM: u32 = 0;
const ROOT_CHAIN: u32 = 1;
const ROOT_OUT: u32 = 2;
const MSG_CHAIN: u32 = 3;
const MSG_OUT: u32 = 4;
const POWER: u32 = 5;
const SHARED: u32 = 6;

const PAIR: u32 = 7;

#[derive(Clone, PartialEq, Eq, Hash)]
struct Public(u32);

/// the secrets that exist, by the party whose state or call made them: serial number and term (private keys: the draw
/// and a mark)
static mut HELD: [Vec<(u32, u32)>; 2] = [Vec::new(), Vec::new()];
const DRAWN: u32 = 1 << 31;
/// the party whose turn it is, when secrets are followed
static mut ACTS: usize = 0;
static mut FOLLOW: bool = false;
static mut SERIAL: u32 = 0;
fn held(s: usize) -> &'static mut Vec<(u32, u32)> {
    unsafe { &mut (&mut *addr_of_mut!(HELD))[s] }
}
fn hold(t: u32) -> (usize, u32) {
    unsafe {
        if FOLLOW {
            SERIAL += 1;
            held(ACTS).push((SERIAL, t));
        }
        (ACTS, SERIAL)
    }
}
/// the keys as the library sees them: opaque, and followed while they live
macro_rules! secrets {
    ($($name:ident $mark:expr),*) => {$(
        struct $name {
            t: u32,
            id: (usize, u32),
        }
        #[allow(non_snake_case)]
        fn $name(t: u32) -> $name {
            $name { t, id: hold(t | $mark) }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                $name(self.t)
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                self.t == o.t
            }
        }
        impl Eq for $name {}
        impl Drop for $name {
            fn drop(&mut self) {
                if unsafe { FOLLOW } {
                    let h = held(self.id.0);
                    if let Some(i) = h.iter().rposition(|x| x.0 == self.id.1) {
                        h.swap_remove(i);
                    }
                }
            }
        }
    )*};
}
secrets!(Private DRAWN, Shared 0, RootKey 0, ChainKey 0, MessageKey 0);

/// every draw of a party is a fresh atom that names the party
struct Rng {
    party: u32,
    drawn: u32,
}
impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.drawn += 1;
        self.party * 0x10000 + self.drawn
    }
    fn next_u64(&mut self) -> u64 {
        self.next_u32() as u64
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = self.next_u32() as u8
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Rng {}

struct Dh;
impl DiffieHellmanKeyExchangeScheme for Dh {
    type PublicKey = Public;
    type PrivateKey = Private;
    type SharedKey = Shared;
    fn generate_asymmetrical_key_pair<R: RngCore + CryptoRng>(rng: &mut R, generator: &Public) -> (Private, Public) {
        let secret = rng.next_u32();
        // shared secrets stay symmetric for the common generator only
        let public = term(POWER, generator.0, secret);
        generated().push((secret / 0x10000, public));
        (Private(secret), Public(public))
    }
    fn generate_shared_secret(private: &Private, public: &Public) -> Shared {
        let (tag, g, other) = terms()[public.0 as usize];
        if tag != POWER {
            return Shared(term(SHARED, private.t, public.0));
        }
        let base = term(ATOM, g, 0);
        let pair = if private.t < other { term(PAIR, private.t, other) } else { term(PAIR, other, private.t) };
        Shared(term(SHARED, base, pair))
    }
}

struct RootKdf;
impl KeyDerivationFunction for RootKdf {
    type ChainKey = RootKey;
    type Input = Shared;
    type OutputKey = ChainKey;
    fn derive_key(k: RootKey, i: Shared) -> (RootKey, ChainKey) {
        (RootKey(term(ROOT_CHAIN, k.t, i.t)), ChainKey(term(ROOT_OUT, k.t, i.t)))
    }
}
struct MessageKdf;
impl KeyDerivationFunction for MessageKdf {
    type ChainKey = ChainKey;
    type Input = u32;
    type OutputKey = MessageKey;
    fn derive_key(k: ChainKey, i: u32) -> (ChainKey, MessageKey) {
        (ChainKey(term(MSG_CHAIN, k.t, i)), MessageKey(term(MSG_OUT, k.t, i)))
    }
}
impl ConstantInputKeyRatchet for MessageKdf {
    const INPUT: u32 = 77;
}

/// decrypts only under the very key and otherwise to something of the wrong length
struct Cipher;
impl SymmetricalEncryptionScheme for Cipher {
    type Key = MessageKey;
    fn generate_key<R: RngCore + CryptoRng>(rng: &mut R) -> MessageKey {
        MessageKey(term(ATOM, rng.next_u32(), 1))
    }
    fn encrypt_message(key: &MessageKey, message: &[u8]) -> Vec<u8> {
        used().push(key.t);
        uses()[key.t as usize] += 1;
        let mut c = key.t.to_le_bytes().to_vec();
        c.extend_from_slice(message);
        c
    }
    fn decrypt_message(key: &MessageKey, cipher: &[u8]) -> Vec<u8> {
        if cipher.len() >= 4 && cipher[..4] == key.t.to_le_bytes() {
            cipher[4..].to_vec()
        } else {
            vec![0xee; cipher.len() + 1]
        }
    }
}

type Party<S> = DoubleRatchetProtocol<Dh, Cipher, RootKdf, MessageKdf, Public, Private, Shared, RootKey, ChainKey, MessageKey, S>;
type Message = DoubleRatchetAlgorithmMessage<Public, Vec<u8>>;

enum Side {
    Waiting(Party<Initiator>),
    Ready(Party<Established>),
    Gone,
}

// ---------------------------------------------------------------- the world
struct Sent {
    message: Message,
    text: Vec<u8>,
    key: u32,
    number: usize,
    delivered: bool,
    /// the message key, and the moments of sending and delivery
    secret: u32,
    at: usize,
    arrived: usize,
    /// the sender's turn
    turn: usize,
}
/// what the specification says about a party
#[derive(Default)]
struct Model {
    /// messages in the current sending chain, and in the one before
    position: usize,
    previous: usize,
    /// partner keys seen (the last one is the current one)
    seen: Vec<u32>,
    /// messages of the current receiving chain up to the latest one received
    received: usize,
    /// highest index delivered of the partner's messages, plus one
    latest: usize,
    key: u32,
    generated: usize,
}
struct World {
    side: [Side; 2],
    rng: [Rng; 2],
    /// what each party sent
    sent: [Vec<Sent>; 2],
    model: [Model; 2],
    strict: bool,
    keys: bool,
    /// 0, or which secrecy is checked at the end (3 of the past, 4 of the future)
    secrecy: usize,
    /// after every step, the secrets the parties hold
    states: Vec<[Vec<u32>; 2]>,
    /// the turns of each party as they should be: the moment it began, and the partner's turn that was answered
    turns: [Vec<(usize, Option<usize>)>; 2],
    /// the latest turn of the partner that was heard of
    heard: [Option<usize>; 2],
}

fn header(m: &mut Message) -> (u32, usize, usize) {
    let (k, n, p, _) = m.jester_verif_parts();
    (k.0, *n, *p)
}
fn keys_of(party: u32) -> Vec<u32> {
    generated().iter().filter(|g| g.0 == party).map(|g| g.1).collect()
}

impl World {
    /// mode: 0 delivery, 1 keys and headers, 2 delivery with replays, 3 secrecy of the past, 4 secrecy of the future
    fn new(mode: usize) -> World {
        let keys = mode == 1;
        let secrecy = if mode >= 3 { mode } else { 0 };
        for s in 0..2 {
            held(s).clear();
        }
        unsafe {
            FOLLOW = secrecy > 0;
            ACTS = 0;
        }
        terms().clear();
        uses().clear();
        unsafe { INDEX = vec![Vec::new(); LISTS] };
        used().clear();
        generated().clear();
        let g = term(ATOM, 1000, 0);
        let root = term(ATOM, 2000, 0);
        let mut rng = [Rng { party: 1, drawn: 0 }, Rng { party: 2, drawn: 0 }];
        let (a, mut opening) = Party::<Initiator>::initialize_sending(&mut rng[0], Public(g), RootKey(root));
        let (k, n, p, m) = opening.jester_verif_parts();
        check(*n == 0 && *p == 0 && m.is_none(), "opening message");
        let first = k.0;
        unsafe { ACTS = 1 };
        let b = Party::<Established>::initialize_receiving(&mut rng[1], Public(g), k.clone(), RootKey(root));
        let mut w = World { side: [Side::Waiting(a), Side::Ready(b)], rng, sent: [Vec::new(), Vec::new()], model: [Model::default(), Model::default()], strict: true, keys, secrecy, states: Vec::new(), turns: [vec![(0, None)], vec![(0, Some(0))]], heard: [None, Some(0)] };
        w.model[1].seen.push(first);
        for s in 0..2 {
            let own = keys_of(s as u32 + 1);
            if keys {
                check(own.len() == 1, "one key pair each at the start");
                check(s == 1 || own[0] == first, "opening message carries the initiator's ratchet key");
            }
            w.model[s].generated = own.len();
            w.model[s].key = *own.last().unwrap_or(&0);
        }
        w.note();
        w
    }

    /// a step is done: what the parties hold now
    fn note(&mut self) {
        if self.secrecy == 0 {
            return;
        }
        self.states.push([0, 1].map(|s| held(s).iter().map(|h| h.1).collect()));
    }
    /// the terms that can be computed from secrets and everything public
    fn reach(&self, from: &[&[u32]]) -> Vec<bool> {
        let has = |t: u32| from.iter().any(|f| f.contains(&t));
        let mut known: Vec<bool> = Vec::with_capacity(terms().len());
        for (i, (tag, a, b)) in terms().iter().enumerate() {
            let k = has(i as u32)
                || match *tag {
                    ROOT_CHAIN | ROOT_OUT => known[*a as usize] && known[*b as usize],
                    MSG_CHAIN | MSG_OUT => known[*a as usize],
                    // (a shared key with something that is no public key)
                    SHARED if *a >= 0x10000 => has(*a | DRAWN),
                    SHARED => known[*b as usize],
                    PAIR => has(*a | DRAWN) || has(*b | DRAWN),
                    _ => false,
                };
            known.push(k);
        }
        known
    }
    /// No state, of one party or of both, gives a key of a message that was dealt with; no state gives a key of a
    /// message of a later turn, of the same party, or of the other's in answer to such a turn.
    fn finish(&mut self) {
        for at in 0..self.states.len() {
            let [a, b] = &self.states[at];
            if self.secrecy == 3 {
                let known = [self.reach(&[a]), self.reach(&[b]), self.reach(&[a, b])];
                for s in 0..2 {
                    for m in &self.sent[s] {
                        let k = m.secret as usize;
                        check(m.at > at || !known[s][k], "the sender's state does not give the key of a message it has sent");
                        check(!m.delivered || m.arrived > at || !known[1 - s][k], "the receiver's state does not give the key of a message it has read");
                        check(!m.delivered || m.arrived > at || !known[2][k], "both states do not give the key of a message that was read");
                    }
                }
            }
            if self.secrecy == 4 {
                for (p, state) in [a, b].into_iter().enumerate() {
                    let known = self.reach(&[state]);
                    // turns that party p began later
                    let fresh = |turn: usize| self.turns[p][turn].0 > at;
                    for m in &self.sent[p] {
                        check(!fresh(m.turn) || !known[m.secret as usize], "a state does not give the keys of later turns");
                    }
                    for m in &self.sent[1 - p] {
                        let answers = self.turns[1 - p][m.turn].1.map_or(false, fresh);
                        check(!answers || !known[m.secret as usize], "a state does not give the keys of answers to later turns");
                    }
                }
            }
        }
        for s in 0..2 {
            for m in &self.sent[s] {
                trace(m.at as u64 * 1000 + m.arrived as u64);
            }
        }
        // (the states are dropped without being followed)
        if self.secrecy > 0 {
            trace(self.states.len() as u64);
            unsafe { FOLLOW = false };
        }
    }

    fn ready(&self, s: usize) -> bool {
        matches!(self.side[s], Side::Ready(_))
    }

    fn send(&mut self, s: usize) {
        // lengths of 0 to 4 bytes
        let text = bytes((self.sent[s].len() * 2 + s + 2) % 5);
        let before = used().len();
        unsafe { ACTS = s };
        let mut m = match &mut self.side[s] {
            Side::Ready(p) => p.encrypt_message(&text),
            _ => return,
        };
        let (key, number, previous) = header(&mut m);
        trace(((key as u64) << 32) + ((number as u64) << 8) + previous as u64);
        if self.keys {
            check(used().len() == before + 1, "one encryption per message");
            let k = *used().last().unwrap();
            check(uses()[k as usize] == 1, "fresh message key");
            let d = &self.model[s];
            check(key == d.key, "header carries the current ratchet key");
            check(number == d.position, "header carries the position in the chain");
            check(previous == d.previous, "header carries the previous chain's length");
        }
        self.model[s].position += 1;
        let secret = *used().last().unwrap_or(&0);
        let at = self.states.len();
        let turn = self.turns[s].len() - 1;
        self.sent[s].push(Sent { message: m, text, key, number, delivered: false, secret, at, arrived: 0, turn });
        self.note();
    }

    /// decryption by party r: (kind, plaintext); kind 0 delivered, 1 out of order, 2 refused
    fn decrypt(&mut self, r: usize, m: Message) -> (u8, Vec<u8>) {
        unsafe { ACTS = r };
        match std::mem::replace(&mut self.side[r], Side::Gone) {
            Side::Waiting(p) => {
                let (p, t) = p.decrypt_first_message(&mut self.rng[r], m);
                self.side[r] = Side::Ready(p);
                (0, t)
            }
            Side::Ready(mut p) => {
                let o = p.decrypt_message(&mut self.rng[r], m);
                self.side[r] = Side::Ready(p);
                match o {
                    Ok(t) => (0, t),
                    Err(DecryptionException::OutOfOrderMessage { decrypted_message }) => (1, decrypted_message),
                    Err(_) => (2, Vec::new()),
                }
            }
            Side::Gone => (3, Vec::new()),
        }
    }

    /// the i-th message of party s arrives
    fn deliver(&mut self, s: usize, i: usize) {
        let r = 1 - s;
        let m = self.sent[s][i].message.clone();
        let (kind, text) = self.decrypt(r, m);
        trace(kind as u64);
        trace_bytes(&text);
        let late = i < self.model[r].latest;
        if !self.keys && self.secrecy == 0 {
            check_eq(&text, &self.sent[s][i].text, "the plaintext arrives");
            if self.strict {
                check(kind == late as u8, "overtaken messages are reported as out of order, others are delivered");
            }
        }
        let (key, number) = (self.sent[s][i].key, self.sent[s][i].number);
        self.sent[s][i].delivered = true;
        self.sent[s][i].arrived = self.states.len();
        let turn = self.sent[s][i].turn;
        if self.heard[r].map_or(true, |t| turn > t) {
            self.heard[r] = Some(turn);
            self.turns[r].push((self.states.len(), Some(turn)));
        }
        self.note();
        let d = &mut self.model[r];
        if !d.seen.contains(&key) {
            d.seen.push(key);
            d.received = 0;
            d.generated += 1;
            // the initiator's first chain has no predecessor: its chain before is empty
            d.previous = d.position;
            d.position = 0;
        }
        if d.seen.last() == Some(&key) && number >= d.received {
            d.received = number + 1;
        }
        if i >= d.latest {
            d.latest = i + 1;
        }
        let own = keys_of(r as u32 + 1);
        if self.keys {
            check(own.len() == d.generated, "a new key pair exactly when the partner's key changes");
        }
        d.key = *own.last().unwrap_or(&0);
    }

    /// party s's i-th message arrives once more
    fn replay(&mut self, s: usize, i: usize) {
        let m = self.sent[s][i].message.clone();
        let (kind, text) = self.decrypt(1 - s, m);
        trace(100 + kind as u64);
        trace_bytes(&text);
        check(kind == 2, "a replayed message is refused");
    }

    /// party s's i-th message arrives with a header that reports too short a previous chain
    fn forge(&mut self, s: usize, i: usize) {
        let r = 1 - s;
        let mut m = self.sent[s][i].message.clone();
        let short = below(self.model[r].received as u64) as usize;
        *m.jester_verif_parts().2 = short;
        let (kind, text) = self.decrypt(r, m);
        trace(200 + kind as u64);
        trace_bytes(&text);
        check(kind == 2, "a header that reports too short a previous chain is refused");
    }

    fn pending(&self, s: usize) -> Vec<usize> {
        (0..self.sent[s].len()).filter(|i| !self.sent[s][*i].delivered).collect()
    }
    /// can a message of s with a new key be given an inconsistent header?
    fn forgeable(&self, s: usize, i: usize) -> bool {
        let d = &self.model[1 - s];
        self.ready(1 - s) && d.received > 0 && !d.seen.contains(&self.sent[s][i].key)
    }
    /// what is in flight arrives
    fn drain(&mut self, reverse: bool) {
        for s in [1, 0] {
            let mut p = self.pending(s);
            if reverse {
                p.reverse()
            }
            for i in p {
                self.deliver(s, i)
            }
        }
    }
}

#[derive(Clone, Copy)]
enum Action {
    Send(usize),
    Deliver(usize, usize),
    Replay(usize, usize),
    Forge(usize, usize),
}

fn perform(w: &mut World, a: Action) {
    match a {
        Action::Send(s) => w.send(s),
        Action::Deliver(s, i) => w.deliver(s, i),
        Action::Replay(s, i) => w.replay(s, i),
        Action::Forge(s, i) => w.forge(s, i),
    }
}
static mut CHOSEN: usize = 0;
/// one of n; parameters from the fifth on fix the first choices (to split the work)
fn pick(n: usize) -> usize {
    let i = unsafe {
        CHOSEN += 1;
        CHOSEN + 3
    };
    if i < nparams() {
        assume(param(i) < n);
        return param(i);
    }
    conc(below(n as u64)) as usize
}
fn choose(o: &[Action]) -> Action {
    o[pick(o.len())]
}

/// params: steps. Every interleaving of sends and in-order deliveries, then everything arrives.
#[no_mangle]
pub extern "C" fn r_inorder() {
    let mut w = World::new(0);
    for _ in 0..param(0) {
        let mut o = vec![Action::Send(1)];
        if w.ready(0) {
            o.push(Action::Send(0));
        }
        for s in 0..2 {
            if let Some(i) = w.pending(s).first() {
                o.push(Action::Deliver(s, *i));
            }
        }
        let a = choose(&o);
        perform(&mut w, a);
    }
    w.drain(false);
}

/// params: direction changes, largest burst, mode. Bursts of symbolic length in turn.
#[no_mangle]
pub extern "C" fn r_turns() {
    let mut w = World::new(param(2));
    let mut s = 1;
    for _ in 0..param(0) {
        let n = 1 + pick(param(1));
        for _ in 0..n {
            w.send(s);
        }
        for i in w.pending(s) {
            w.deliver(s, i);
        }
        s = 1 - s;
    }
    w.finish();
}

/// params: steps, most messages in total, 1 to deliver the rest in reverse at the end, mode.
/// Any message in flight may arrive next, or never.
#[no_mangle]
pub extern "C" fn r_net() {
    let mut w = World::new(param(3));
    for _ in 0..param(0) {
        let mut o = Vec::new();
        if w.sent[0].len() + w.sent[1].len() < param(1) {
            o.push(Action::Send(1));
            if w.ready(0) {
                o.push(Action::Send(0));
            }
        }
        for s in 0..2 {
            for i in w.pending(s) {
                o.push(Action::Deliver(s, i));
            }
        }
        if o.is_empty() {
            break;
        }
        let a = choose(&o);
        perform(&mut w, a);
    }
    if param(2) < 2 {
        w.drain(param(2) == 1);
    }
    w.finish();
}

/// params: rounds, largest burst, mode. In turns, each party sends a burst of which
/// any subset arrives at once, in order or reversed; the rest arrives at the very end.
#[no_mangle]
pub extern "C" fn r_lossy() {
    let mut w = World::new(param(2));
    let mut s = 1;
    for _ in 0..param(0) {
        let n = 1 + pick(param(1));
        for _ in 0..n {
            w.send(s);
        }
        let mut p = w.pending(s);
        if p.len() > 2 && pick(2) == 1 {
            p.reverse();
        }
        let mut any = false;
        let last = p.len() - 1;
        for (j, i) in p.into_iter().enumerate() {
            // at least one message of every burst arrives
            if (j == last && !any) || pick(2) == 1 {
                w.deliver(s, i);
                any = true;
            }
        }
        s = 1 - s;
    }
    w.drain(false);
    w.finish();
}

/// params: steps, most messages in total, 1 to deliver the rest in reverse. As r_net, with replays of delivered messages and
/// forged headers at any point.
#[no_mangle]
pub extern "C" fn r_replay() {
    let mut w = World::new(0);
    w.strict = false;
    let mut attacks = 0;
    for _ in 0..param(0) {
        let mut o = Vec::new();
        if w.sent[0].len() + w.sent[1].len() < param(1) {
            o.push(Action::Send(1));
            if w.ready(0) {
                o.push(Action::Send(0));
            }
        }
        for s in 0..2 {
            for i in 0..w.sent[s].len() {
                if !w.sent[s][i].delivered {
                    o.push(Action::Deliver(s, i));
                    if attacks < param(3) && w.forgeable(s, i) {
                        o.push(Action::Forge(s, i));
                    }
                } else if attacks < param(3) {
                    o.push(Action::Replay(s, i));
                }
            }
        }
        if o.is_empty() {
            break;
        }
        let a = choose(&o);
        if let Action::Replay(..) | Action::Forge(..) = a {
            attacks += 1
        }
        perform(&mut w, a);
    }
    w.drain(param(2) == 1);
    // by now everything was decrypted once
    for s in 0..2 {
        for i in 0..w.sent[s].len() {
            w.replay(s, i);
        }
    }
}

/// params: rounds, burst, mode. Of every burst one message arrives at
/// once, any one; the others arrive long after, latest first.
#[no_mangle]
pub extern "C" fn r_gap() {
    let mode = param(2);
    let mut w = World::new(mode);
    w.strict = mode == 0;
    let mut s = 1;
    for _ in 0..param(0) {
        for _ in 0..param(1) {
            w.send(s);
        }
        let n = w.sent[s].len();
        let i = n - param(1) + pick(param(1));
        w.deliver(s, i);
        if mode == 2 {
            w.replay(s, i);
        }
        s = 1 - s;
    }
    w.drain(true);
    if mode == 2 {
        for s in 0..2 {
            for i in 0..w.sent[s].len() {
                w.replay(s, i);
            }
            w.send(s);
            w.deliver(s, w.sent[s].len() - 1);
        }
    }
    w.finish();
}

/// params: mode (see `World::new`; plus 10 to decide once for all bursts, plus 100
/// for each decision when it is given: 1 all, 2 the last, 3 the first, 4 both), then the lengths of the bursts sent in turns. Of every burst
/// all messages arrive at once, or only the last, or only the first, or the first and the last; the others
/// arrive at the end, forwards or in reverse.
#[no_mangle]
pub extern "C" fn r_far() {
    let (mode, once) = (param(0) % 10, param(0) % 100 >= 10 || param(0) >= 100);
    let mut w = World::new(mode);
    w.strict = mode == 0;
    let mut s = 1;
    let given = param(0) as u64 / 100;
    let all = if given > 0 { given - 1 } else if once { conc(below(4)) } else { 0 };
    for round in 1..nparams() {
        let (n, from) = (param(round), w.sent[s].len());
        for _ in 0..n {
            w.send(s);
        }
        let how = if once { all } else { conc(below(if n < 2 { 1 } else if n < 3 { 3 } else { 4 })) };
        for j in 0..n {
            if how == 0 || (how & 1 == 1 && j + 1 == n) || (how & 2 == 2 && j == 0) {
                w.deliver(s, from + j);
            }
        }
        s = 1 - s;
    }
    w.drain(if given > 0 { given % 2 == 0 } else { conc(below(2)) == 1 });
    if mode == 2 {
        for s in 0..2 {
            for i in 0..w.sent[s].len() {
                w.replay(s, i);
            }
        }
    }
    for s in [1, 0] {
        if w.ready(s) {
            w.send(s);
            w.deliver(s, w.sent[s].len() - 1);
        }
    }
    w.finish();
}

entries!(r_far, r_gap, r_inorder, r_turns, r_net, r_lossy, r_replay);
