//! Harness for jester_hashes (C01..C08).
pub mod spec;
use jester_hashes::blake::blake2b::{Blake2b, Blake2bContext};
use jester_hashes::blake::blake2s::{Blake2s, Blake2sContext};
use jester_hashes::hmac::hmac;
use jester_hashes::kdf::hkdf_derive_key;
use jester_hashes::md5::MD5Hash;
use jester_hashes::sha1::SHA1Hash;
use jester_hashes::{BlockHashFunction, HashFunction, HashValue};
use spec::{alg, Alg};

fn b2b(out: usize, key: &[u8]) -> Blake2bContext {
    Blake2bContext { output_len: out, key: key.to_vec() }
}
fn b2s(out: usize, key: &[u8]) -> Blake2sContext {
    Blake2sContext { output_len: out, key: key.to_vec() }
}

/// call a generic function with the hash the job names
macro_rules! with_hash {
    ($alg:expr, $out:expr, $key:expr, $f:ident ( $($a:expr),* )) => {
        match $alg {
            Alg::Md5 => $f::<MD5Hash>(&(), $($a),*),
            Alg::Sha1 => $f::<SHA1Hash>(&(), $($a),*),
            Alg::B2b => $f::<Blake2b>(&b2b($out, $key), $($a),*),
            Alg::B2s => $f::<Blake2s>(&b2s($out, $key), $($a),*),
        }
    };
}

fn one_shot<H: HashFunction>(ctx: &H::Context, msg: &[u8]) -> Vec<u8> {
    H::digest_message(ctx, msg).raw()
}
fn out_len(a: Alg, p: usize) -> usize {
    if p == 0 {
        a.full_output()
    } else {
        p
    }
}

/// n bytes, the last `free` of them symbolic (0: all, `FIXED` and more: none), the others different numbers
fn mixed(n: usize, free: usize) -> Vec<u8> {
    const FIXED: usize = 1_000_000;
    let fixed = if free == 0 { 0 } else if free >= FIXED { n } else { n - free.min(n) };
    let mut v: Vec<u8> = (0..fixed).map(|i| (i * 7 + i / 256 + 1) as u8).collect();
    v.extend(sym::bytes(n - fixed));
    v
}
/// C01..C04: p = algorithm, message length, output length (0: full), key length, free bytes of the message (see `mixed`)
#[no_mangle]
pub extern "C" fn h_digest() {
    let a = alg(sym::param(0));
    let n = sym::param(1);
    let out = out_len(a, sym::param(2));
    let key = sym::bytes(sym::param(3));
    let msg = mixed(n, sym::param(4));
    let got = with_hash!(a, out, &key, one_shot(&msg));
    let want = spec::digest(a, out, &key, &msg);
    sym::trace_bytes(&got);
    sym::check(got.len() == out, "digest has the requested length");
    sym::check_eq(&got, &want, "digest equals the specified digest");
}

fn stream<H: HashFunction>(ctx: &H::Context, pieces: &[&[u8]]) -> Vec<u8> {
    let mut st = H::init_hash(ctx);
    for p in pieces {
        H::update_hash(&mut st, ctx, p);
    }
    H::finish_hash(&mut st, ctx).raw()
}

/// C05: p = algorithm, length, key length, number of cuts, cut range (lo, hi); the cut positions are
/// symbolic in the range
#[no_mangle]
pub extern "C" fn h_stream() {
    let a = alg(sym::param(0));
    let n = sym::param(1);
    let key = sym::bytes(sym::param(2));
    let cuts = sym::param(3);
    let msg = sym::bytes(n);
    let mut pos = vec![0usize];
    for i in 0..cuts {
        let lo = sym::param(4 + 2 * i);
        let hi = sym::param(5 + 2 * i);
        let c = lo + sym::conc(sym::below((hi - lo + 1) as u64)) as usize;
        sym::assume(c >= pos[i]);
        pos.push(c);
    }
    pos.push(n);
    let pieces: Vec<&[u8]> = (0..=cuts).map(|i| &msg[pos[i]..pos[i + 1]]).collect();
    let out = a.full_output();
    let got = with_hash!(a, out, &key, stream(&pieces));
    let want = with_hash!(a, out, &key, one_shot(&msg));
    sym::trace_bytes(&got);
    sym::check_eq(&got, &want, "streamed digest equals the one-shot digest");
}

/// C05: p = algorithm, key length, then pairs of piece length and number of such pieces
#[no_mangle]
pub extern "C" fn h_steps() {
    steps(2, 0)
}
/// C05: p = algorithm, key length, free bytes of the message (see `mixed`), then pairs as for h_steps
#[no_mangle]
pub extern "C" fn h_long() {
    steps(3, sym::param(2))
}
fn steps(first: usize, free: usize) {
    let a = alg(sym::param(0));
    let key = mixed(sym::param(1), if free == 0 { 0 } else { 1_000_000 });
    let lens: Vec<usize> = (first..sym::nparams()).step_by(2).flat_map(|i| std::iter::repeat(sym::param(i)).take(sym::param(i + 1))).collect();
    let msg = mixed(lens.iter().sum(), free);
    let mut pieces: Vec<&[u8]> = vec![];
    let mut at = 0;
    for l in lens {
        pieces.push(&msg[at..at + l]);
        at += l;
    }
    let out = a.full_output();
    let got = with_hash!(a, out, &key, stream(&pieces));
    let want = with_hash!(a, out, &key, one_shot(&msg));
    sym::trace_bytes(&got);
    sym::check_eq(&got, &want, "streamed digest equals the one-shot digest");
}

fn two<H: HashFunction>(ctx: &H::Context, m: [&[u8]; 2], step: [usize; 2]) -> [Vec<u8>; 2] {
    let mut st = [H::init_hash(ctx), H::init_hash(ctx)];
    let mut at = [0usize; 2];
    while (0..2).any(|i| at[i] < m[i].len()) {
        for i in 0..2 {
            let e = m[i].len().min(at[i] + step[i]);
            if e > at[i] {
                H::update_hash(&mut st[i], ctx, &m[i][at[i]..e]);
            }
            at[i] = e;
        }
    }
    let a = H::finish_hash(&mut st[0], ctx).raw();
    let b = H::finish_hash(&mut st[1], ctx).raw();
    [a, b]
}

/// C05: p = algorithm, key length, and for each of two states message length and length of a piece;
/// the pieces are fed in turn
#[no_mangle]
pub extern "C" fn h_two() {
    let a = alg(sym::param(0));
    let key = sym::bytes(sym::param(1));
    let m = [sym::bytes(sym::param(2)), sym::bytes(sym::param(4))];
    let out = a.full_output();
    let got = with_hash!(a, out, &key, two([&m[0], &m[1]], [sym::param(3), sym::param(5)]));
    for i in 0..2 {
        let want = with_hash!(a, out, &key, one_shot(&m[i]));
        sym::trace_bytes(&got[i]);
        sym::check_eq(&got[i], &want, "each of two states fed in turn gives the one-shot digest of its message");
    }
}

/// the value of the word of `w` bytes at offset o of a state
fn peek<S>(s: &S, o: usize, w: usize) -> u128 {
    let p = s as *const S as *const u8;
    let mut v = 0u128;
    for i in (0..w).rev() {
        v = v << 8 | unsafe { std::ptr::read_volatile(p.add(o + i)) } as u128;
    }
    v
}

/// where a state keeps the amount of data it has consumed: offset and units per byte
fn find_counter<H: HashFunction>(ctx: &H::Context, block: usize, w: usize) -> Option<(usize, u128)> {
    let size = std::mem::size_of::<H::HashState>();
    let zero = vec![0u8; 5 * block];
    // (blocks in one piece after so many single ones: what follows the pieces is not the counter)
    let states: Vec<H::HashState> = [(0, 1), (0, 2), (0, 3), (0, 2), (1, 1), (2, 1), (1, 4), (4, 1)]
        .iter()
        .map(|(single, n)| {
            let mut s = H::init_hash(ctx);
            for _ in 0..*single {
                H::update_hash(&mut s, ctx, &zero[..block]);
            }
            H::update_hash(&mut s, ctx, &zero[..*n * block]);
            s
        })
        .collect();
    let total = [1u128, 2, 3, 2, 2, 3, 5, 5];
    let mut found = None;
    let mut o = 0;
    while o + w <= size {
        let v: Vec<u128> = states.iter().map(|s| peek(s, o, w)).collect();
        for (unit, d) in [(1, block as u128), (8, 8 * block as u128), (0, 1)] {
            // (unit 0: the word counts blocks)
            if v[0] <= d && (1..8).all(|i| v[i] == v[0].wrapping_add((total[i] - 1) * d)) {
                if found.is_some() {
                    return None;
                }
                found = Some((o, unit));
            }
        }
        o += w / 2;
    }
    found
}

fn big<H: HashFunction>(ctx: &H::Context, a: Alg, key: &[u8], w: usize, lo: u128, tail: &[u8], early: usize) -> (bool, Vec<u8>, Vec<u8>) {
    let block = a.block();
    let found = find_counter::<H>(ctx, block, w);
    if found.is_none() {
        // no jump then: the totals of the first blocks only
        sym::reach("the length counter of this state was not located");
    }
    let mut st = H::init_hash(ctx);
    let head: Vec<u8> = (0..2 * block).map(|i| i as u8).collect();
    H::update_hash(&mut st, ctx, &head);
    H::update_hash(&mut st, ctx, &tail[..early]);
    let mut sp = spec::init(a, a.full_output(), key);
    spec::update(&mut sp, &head);
    spec::update(&mut sp, &tail[..early]);
    if let Some((off, unit)) = found {
        // advance both by `delta` whole blocks that the compression function has not seen
        let delta: u128 = lo * block as u128;
        let now = peek(&st, off, w);
        let add = if unit == 0 { lo } else { delta.wrapping_mul(unit) };
        let new = now.wrapping_add(add);
        let p = &mut st as *mut H::HashState as *mut u8;
        for i in 0..w {
            unsafe { std::ptr::write_volatile(p.add(off + i), (new >> (8 * i)) as u8) };
        }
        sp.total = sp.total.wrapping_add(delta);
    }
    H::update_hash(&mut st, ctx, &tail[early..]);
    let got = H::finish_hash(&mut st, ctx).raw();
    spec::update(&mut sp, &tail[early..]);
    (found.is_some(), got, spec::finish(sp))
}

/// C06: p = algorithm, tail length, early (part of the tail fed before the jump), key length.
/// The number of blocks hashed before the tail is symbolic over its whole range.
#[no_mangle]
pub extern "C" fn h_length() {
    let a = alg(sym::param(0));
    let tail = sym::bytes(sym::param(1));
    let early = sym::param(2);
    // (fixed: locating the counter compares states)
    let key: Vec<u8> = (0..sym::param(3)).map(|i| i as u8 + 1).collect();
    let block = a.block() as u128;
    let fed = 2 * block + tail.len() as u128 + if key.len() > 0 { block } else { 0 };
    // all jumps for which the counter before the tail is still encodable
    let (w, blocks): (usize, u128) = match a {
        // bits in 64 bits
        Alg::Md5 | Alg::Sha1 => {
            let k = sym::below((1u64 << 55) - 2 - (early / 64) as u64);
            (8, k as u128)
        }
        Alg::B2s => {
            let k = sym::below((1u64 << 58) - 4 - (early / 64) as u64);
            (8, k as u128)
        }
        Alg::B2b => {
            let hi = sym::below((1u64 << 57) - 1);
            let lo = sym::word64();
            (16, (hi as u128) << 64 | lo as u128)
        }
    };
    let total = fed.wrapping_add(blocks.wrapping_mul(block)); // < 2^128 by the assumption
    let too_long = match a {
        Alg::Md5 | Alg::Sha1 => total >= 1u128 << 61,
        Alg::B2s => total >= 1u128 << 64,
        Alg::B2b => false,
    };
    sym::allow_panic(too_long);
    let out = a.full_output();
    let (ran, got, want) = match a {
        Alg::Md5 => big::<MD5Hash>(&(), a, &key, w, blocks, &tail, early),
        Alg::Sha1 => big::<SHA1Hash>(&(), a, &key, w, blocks, &tail, early),
        Alg::B2b => big::<Blake2b>(&b2b(out, &key), a, &key, w, blocks, &tail, early),
        Alg::B2s => big::<Blake2s>(&b2s(out, &key), a, &key, w, blocks, &tail, early),
    };
    if !ran {
        sym::check_eq(&got, &want, "the encoded length is the amount of data fed");
    } else {
        sym::check(!too_long, "a total that cannot be encoded is refused");
        sym::check_eq(&got, &want, "the encoded length is the amount of data fed");
    }
}

fn mac<H: BlockHashFunction>(ctx: &H::Context, key: &[u8], msg: &[u8]) -> Vec<u8> {
    hmac::<H, H::Context>(ctx, key, msg)
}
/// C07: p = algorithm, key length, message length, output length, BLAKE2 context key length
#[no_mangle]
pub extern "C" fn h_hmac() {
    let a = alg(sym::param(0));
    let out = out_len(a, sym::param(3));
    let hkey = sym::bytes(sym::param(4));
    let key = mixed(sym::param(1), sym::param(5));
    let msg = mixed(sym::param(2), sym::param(6));
    let got = with_hash!(a, out, &hkey, mac(&key, &msg));
    let want = spec::hmac(a, out, &hkey, &key, &msg);
    sym::trace_bytes(&got);
    sym::check_eq(&got, &want, "the code is RFC 2104 HMAC");
}

fn kdf<H: BlockHashFunction>(ctx: &H::Context, salt: &[u8], ikm: &[u8], len: usize, info: &[u8]) -> Vec<u8> {
    hkdf_derive_key::<H, H::Context>(ctx, salt, ikm, len, info)
}
/// C08: p = algorithm, salt length, key material length, output length, info length, hash output length, free bytes of salt,
/// key material and info (see `mixed`)
#[no_mangle]
pub extern "C" fn h_hkdf() {
    let a = alg(sym::param(0));
    let out = out_len(a, sym::param(5));
    let salt = mixed(sym::param(1), sym::param(6));
    let ikm = mixed(sym::param(2), sym::param(7));
    let info = mixed(sym::param(4), sym::param(8));
    let len = sym::param(3);
    let got = with_hash!(a, out, &[], kdf(&salt, &ikm, len, &info));
    let want = spec::hkdf(a, out, &[], &salt, &ikm, len, &info);
    sym::trace_bytes(&got);
    sym::check(got.len() == len, "the derived key has the requested length");
    sym::check_eq(&got, &want, "the derived key is RFC 5869 output");
}

fn sizes<H: BlockHashFunction>(ctx: &H::Context, msg: &[u8]) -> (usize, usize, usize, Vec<u8>) {
    let (b, o) = (H::block_size(ctx), H::output_size(ctx));
    let d = one_shot::<H>(ctx, msg);
    // (hashing does not change what the context declares)
    sym::check(b == H::block_size(ctx) && o == H::output_size(ctx), "the declared sizes do not change");
    let streamed = stream::<H>(ctx, &[msg]);
    sym::check(streamed.len() == d.len(), "streamed and one-shot digests are equally long");
    (b, o, d.len(), d)
}
/// C34: p = algorithm, message length, key length, smallest and largest output length (BLAKE2; the length is symbolic
/// in between)
#[no_mangle]
pub extern "C" fn h_sizes() {
    let a = alg(sym::param(0));
    let msg = sym::bytes(sym::param(1));
    let key = sym::bytes(sym::param(2));
    let (lo, hi) = (sym::param(3), sym::param(4));
    let out = match a {
        Alg::Md5 | Alg::Sha1 => a.full_output(),
        _ => lo + sym::conc(sym::below((hi - lo + 1) as u64)) as usize,
    };
    let (block, declared, len, digest) = with_hash!(a, out, &key, sizes(&msg));
    sym::trace_bytes(&digest);
    sym::check(block == a.block(), "the declared block size is the one of the specification");
    sym::check(declared == out, "the declared output size is the requested one");
    sym::check(len == declared, "a digest is as long as declared");
}

sym::entries!(h_sizes, h_digest, h_stream, h_steps, h_long, h_two, h_length, h_hmac, h_hkdf);
