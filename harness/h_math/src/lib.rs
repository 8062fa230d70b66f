//! Harness for jester_maths and jester_encryption (C09..C15).
#![recursion_limit = "512"]
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
use jester_encryption::rsa::{RSACryptoSystem, RSAPrivateKey, RSAPublicKey};
use jester_encryption::AsymmetricalEncryptionScheme;
use jester_maths::prime::*;
use jester_maths::prime_fields;
use mashup::*;
use num::{BigUint, FromPrimitive, Num, One, ToPrimitive, Zero};
use rand::{CryptoRng, RngCore};
use std::hash::{Hash, Hasher};

prime_fields!(
    pub F2("2", 10),
    pub F5("5", 10),
    pub F11("11", 10),
    pub F13("13", 10),
    pub F251("251", 10),
    pub F257("257", 10),
    pub F65537("65537", 10),
    pub FBelow32("4294967291", 10),
    pub FAbove32("4294967311", 10),
    pub FBelow64("18446744073709551557", 10),
    pub FAbove64("18446744073709551629", 10),
    pub FBelow96("79228162514264337593543950319", 10)
);

/// the primes of the fields below (0: not representable in 128 bits)
pub const PRIMES: [u128; 26] = [
    3,
    7,
    31,
    8191,
    131071,
    524287,
    (1 << 31) - 1,
    (1 << 61) - 1,
    (1 << 89) - 1,
    (1 << 107) - 1,
    (1 << 127) - 1,
    0,
    0,
    0,
    2,
    5,
    11,
    13,
    251,
    257,
    65537,
    4294967291,
    4294967311,
    18446744073709551557,
    18446744073709551629,
    79228162514264337593543950319,
];

macro_rules! with_field {
    ($f:ident) => {
        match sym::param(0) {
            0 => $f::<Mersenne2>(),
            1 => $f::<Mersenne3>(),
            2 => $f::<Mersenne5>(),
            3 => $f::<Mersenne13>(),
            4 => $f::<Mersenne17>(),
            5 => $f::<Mersenne19>(),
            6 => $f::<Mersenne31>(),
            7 => $f::<Mersenne61>(),
            8 => $f::<Mersenne89>(),
            9 => $f::<Mersenne107>(),
            10 => $f::<Mersenne127>(),
            11 => $f::<IetfGroup1>(),
            12 => $f::<IetfGroup2>(),
            13 => $f::<IetfGroup3>(),
            14 => $f::<F2>(),
            15 => $f::<F5>(),
            16 => $f::<F11>(),
            17 => $f::<F13>(),
            18 => $f::<F251>(),
            19 => $f::<F257>(),
            20 => $f::<F65537>(),
            21 => $f::<FBelow32>(),
            22 => $f::<FAbove32>(),
            23 => $f::<FBelow64>(),
            24 => $f::<FAbove64>(),
            25 => $f::<FBelow96>(),
            _ => sym::fail("no such field"),
        }
    };
}

trait Field: PrimeField + PartialEq + PartialOrd + Hash {}
impl<T: PrimeField + PartialEq + PartialOrd + Hash> Field for T {}

fn prime() -> u128 {
    PRIMES[sym::param(0)]
}

/// a number below n
fn below(n: u128) -> u128 {
    if n <= 1 << 32 {
        sym::below(n as u64) as u128
    } else if n <= 1 << 64 {
        let hi = sym::below(((n - 1) >> 32) as u64 + 1) as u128;
        let v = hi << 32 | sym::word32() as u128;
        sym::assume(v < n);
        v
    } else {
        let hi = sym::below(((n - 1) >> 64) as u64 + 1) as u128;
        let v = hi << 64 | sym::word64() as u128;
        sym::assume(v < n);
        v
    }
}
fn big(v: u128) -> BigUint {
    BigUint::new(vec![v as u32, (v >> 32) as u32, (v >> 64) as u32, (v >> 96) as u32])
}
/// the integer a member stands for
fn val<T: Field>(x: &T) -> u128 {
    match x.as_uint().to_u128() {
        Some(v) => v,
        None => {
            sym::fail("a member exceeds 128 bits");
            0
        }
    }
}
fn addmod(a: u128, b: u128, p: u128) -> u128 {
    let (s, o) = a.overflowing_add(b);
    sel(sym::or(o, s >= p), s.wrapping_sub(p), s)
}
fn sel(c: bool, a: u128, b: u128) -> u128 {
    let lo = sym::select(c, a as u64, b as u64);
    let hi = sym::select(c, (a >> 64) as u64, (b >> 64) as u64);
    (hi as u128) << 64 | lo as u128
}
fn submod(a: u128, b: u128, p: u128) -> u128 {
    sel(a >= b, a.wrapping_sub(b), a.wrapping_sub(b).wrapping_add(p))
}
/// product modulo p < 2^64
fn mulmod(a: u128, b: u128, p: u128) -> u128 {
    a.wrapping_mul(b) % p
}
/// product modulo p for a second factor of few bits
fn mulmod_small(a: u128, b: u128, bits: usize, p: u128) -> u128 {
    let mut r = 0;
    for i in (0..bits).rev() {
        r = addmod(r, r, p);
        r = sel(b >> i & 1 == 1, addmod(r, a, p), r);
    }
    r
}
fn expect<T: Field>(x: &T, v: u128, msg: &str) {
    let x = val(x);
    sym::trace(x as u64);
    sym::check(x == v, msg)
}

/// C09 addition, subtraction and equality; p = field, operation (0 all, 1 addition, 2 subtraction, 3
/// equality)
#[no_mangle]
pub extern "C" fn m_add() {
    with_field!(add_sub)
}
fn add_sub<T: Field>() {
    let p = prime();
    let (x, y) = (below(p), below(p));
    let (a, b): (T, T) = (big(x).into(), big(y).into());
    let op = sym::param(1);
    if op == 0 || op == 1 {
        expect(&(a.clone() + b.clone()), addmod(x, y, p), "a + b is the sum modulo p");
    }
    if op == 0 || op == 2 {
        expect(&(a.clone() - b.clone()), submod(x, y, p), "a - b is the difference modulo p");
    }
    if op == 1 || op == 2 {
        return;
    }
    sym::check((a == b) == (x == y), "two members are equal exactly when their residues are");
    sym::check(a.is_zero() == (x == 0), "is_zero holds exactly for the residue zero");
    sym::check(a.is_one() == (x == 1), "is_one holds exactly for the residue one");
    expect(&T::zero(), 0, "zero is the residue zero");
    expect(&T::one(), 1, "one is the residue one");
}

/// everything a member tells a hasher
struct Told(Vec<u8>);
impl Hasher for Told {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn told<T: Field>(x: &T) -> Vec<u8> {
    let mut h = Told(vec![]);
    x.hash(&mut h);
    h.0
}
/// the member is the same key as the one made from the integer v
fn same_key<T: Field>(x: &T, v: u128) {
    let c: T = big(v).into();
    sym::check(*x == c && c == *x, "a result equals the member of its residue");
    let (h, k) = (told(x), told(&c));
    sym::check(h.len() == k.len(), "equal members hash alike");
    sym::check_eq(&h, &k, "equal members hash alike");
}
/// C35; p = field, what (0 order, 1 sums, 2 differences, 3 products with a factor of two bits, 4 byte strings and
/// integers, 5 copies, 6 quotients and remainders by two-bit numbers)
#[no_mangle]
pub extern "C" fn m_key() {
    with_field!(key)
}
fn key<T: Field>() {
    let p = prime();
    let x = below(p);
    let a: T = big(x).into();
    match sym::param(1) {
        0 => {
            let y = below(p);
            let b: T = big(y).into();
            let less = a.partial_cmp(&b) == Some(std::cmp::Ordering::Less);
            let greater = a.partial_cmp(&b) == Some(std::cmp::Ordering::Greater);
            let equal = a.partial_cmp(&b) == Some(std::cmp::Ordering::Equal);
            sym::check(less == (x < y) && greater == (x > y) && equal == (x == y), "members are ordered like their residues");
            sym::check((a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "the comparison operators agree with the order");
            sym::check((a != b) == (x != y), "the comparison operators agree with equality");
        }
        1 => {
            let y = below(p);
            same_key(&(a + big(y).into()), addmod(x, y, p))
        }
        2 => {
            let y = below(p);
            same_key(&(a - big(y).into()), submod(x, y, p))
        }
        3 => {
            let y = below(4.min(p));
            same_key(&(a * big(y).into()), mulmod_small(x, y, 2, p))
        }
        4 => {
            let n = sym::param(2);
            match T::from_bytes_le(&(0..n).map(|i| if i < 16 { (x >> (8 * i)) as u8 } else { 0 }).collect::<Vec<u8>>()) {
                Some(y) => same_key(&y, x),
                None => sym::fail("the encoding of a member is refused"),
            }
            let w = sym::word64();
            same_key(&T::from_u64(w).unwrap(), w as u128 % p);
            same_key(&T::from(BigUint::new(vec![w as u32, (w >> 32) as u32, 0, 0])), w as u128 % p);
        }
        5 => {
            same_key(&a.clone(), x);
            same_key(&T::from(a.as_uint()), x);
            let z: T = a.clone() - a;
            same_key(&z, 0);
            same_key(&T::zero(), 0);
            same_key(&T::one(), 1);
        }
        _ => {
            let y = 1 + below(3.min(p - 1));
            same_key(&(a.clone() / big(y).into()), x / y);
            same_key(&(a % big(y).into()), x % y);
        }
    }
}

/// C09 multiplication; p = field, bits of one factor (0: a full member), 1: it comes first
#[no_mangle]
pub extern "C" fn m_mul() {
    with_field!(mul)
}
fn mul<T: Field>() {
    let p = prime();
    let x = below(p);
    let n = sym::param(1);
    let y = if n == 0 { below(p) } else { below(1 << n) };
    let (a, b): (T, T) = (big(x).into(), big(y).into());
    let got = if sym::param(2) == 1 { b * a } else { a * b };
    let want = if n == 0 { mulmod(x, y, p) } else { mulmod_small(x, y, n, p) };
    expect(&got, want, "a * b is the product modulo p");
}

/// C09 multiplication by 2^k in the field of 2^n - 1 rotates the bits; p = field, n, k
#[no_mangle]
pub extern "C" fn m_rot() {
    with_field!(rot)
}
fn rot<T: Field>() {
    let p = prime();
    let (n, k) = (sym::param(1), sym::param(2));
    let x = below(p);
    let a: T = big(x).into();
    let b: T = (BigUint::one() << k).into();
    let want = (x << k | x >> (n - k)) & p;
    let got = if sym::param(3) == 1 { b * a } else { a * b };
    expect(&got, want, "multiplying by 2^k rotates a residue modulo 2^n - 1");
}

/// C09 sums and products of sequences; p = field, length
#[no_mangle]
pub extern "C" fn m_seq() {
    with_field!(seq)
}
fn seq<T: Field>() {
    let p = prime();
    let n = sym::param(1);
    let v: Vec<u128> = (0..n).map(|_| below(p)).collect();
    let m: Vec<T> = v.iter().map(|x| big(*x).into()).collect();
    let s: T = m.iter().cloned().sum();
    let want = v.iter().fold(0, |a, b| addmod(a, *b, p));
    expect(&s, want, "sum() is the sum of the sequence modulo p");
    if sym::param(2) == 1 {
        let q: T = m.iter().cloned().product();
        let want = v.iter().fold(1 % p, |a, b| mulmod(a, *b, p));
        expect(&q, want, "product() is the product of the sequence modulo p");
    }
}

/// C10 inverse; p = field, first value, number of values (0: up to p - 1), 1 to split by the value, 2 (or 3) to count down from p
#[no_mangle]
pub extern "C" fn m_inv() {
    with_field!(inv)
}
fn inv<T: Field>() {
    let p = prime();
    let lo = (sym::param(1) as u128).max(1);
    let mut x = below(if sym::param(2) == 0 { p - lo } else { sym::param(2) as u128 });
    if sym::param(3) & 1 != 0 {
        // one path per value
        x = sym::conc(x as u64) as u128;
    }
    x = if sym::param(3) & 2 != 0 { p - lo - x } else { lo + x };
    let a: T = big(x).into();
    let i = val(&a.inverse());
    sym::trace(i as u64);
    sym::check(i < p, "an inverse is a member");
    let one = if p >> 64 != 0 { mulmod_small(x, i, 127, p) } else { mulmod(x, i, p) };
    sym::check(one == 1, "a times its inverse is one");
}

/// C10 extended Euclid; p = field
#[no_mangle]
pub extern "C" fn m_egcd() {
    with_field!(egcd)
}
fn egcd<T: Field>() {
    let p = prime();
    let (x, y) = (below(p), below(p));
    let (a, b): (T, T) = (big(x).into(), big(y).into());
    let (g, s, t) = T::extended_greatest_common_divisor(&a, &b);
    let (g, s, t) = (val(&g), val(&s), val(&t));
    sym::check(addmod(mulmod(s, x, p), mulmod(t, y, p), p) == g % p, "the Bezout coefficients hold modulo p");
    if x == 0 || y == 0 {
        sym::check(g == x + y, "gcd(a, 0) is a");
        return;
    }
    sym::check(g > 0 && x % g == 0, "the gcd divides the first argument");
    sym::check(y % g == 0, "the gcd divides the second argument");
    // no larger common divisor: for every d
    let d = 1 + below(p - 1);
    sym::check(!sym::and(sym::and(x % d == 0, y % d == 0), d > g), "no larger number divides both");
}

/// C10 integer quotient and remainder; p = field
#[no_mangle]
pub extern "C" fn m_divrem() {
    with_field!(divrem)
}
fn divrem<T: Field>() {
    let p = prime();
    let x = below(p);
    let n = sym::param(1);
    let y = if n == 0 { 1 + below(p - 1) } else { 1 + below((1 << n) - 1) };
    let (a, b): (T, T) = (big(x).into(), big(y).into());
    let q = val(&(a.clone() / b.clone()));
    let r = val(&(a % b));
    sym::check(r < y, "the remainder is below the divisor");
    sym::check(q <= x && q.wrapping_mul(y).wrapping_add(r) == x, "a = q*b + r");
}

fn powmod(b: u128, e: u128, bits: usize, m: u128) -> u128 {
    let mut r = 1 % m;
    for i in (0..bits).rev() {
        r = mulmod(r, r, m);
        r = sel(e >> i & 1 == 1, mulmod(r, b, m), r);
    }
    r
}
/// C10 powers; p = field, exponent bound (0: every member), base bound (0: every member)
#[no_mangle]
pub extern "C" fn m_pow() {
    with_field!(pow)
}
fn cap(bound: usize, p: u128) -> u128 {
    if bound == 0 {
        p
    } else {
        (bound as u128).min(p)
    }
}
fn pow<T: Field>() {
    let p = prime();
    let x = below(cap(sym::param(2), p));
    let ecap = cap(sym::param(1), p);
    let e = below(ecap);
    let (a, k): (T, T) = (big(x).into(), big(e).into());
    let got = a.pow(&k);
    let bits = 128 - (ecap - 1).leading_zeros() as usize;
    expect(&got, powmod(x, e, bits, p), "pow is the power modulo p");
}
/// C10 powers modulo an explicit modulus; p = field, exponent bound, base bound, modulus bound
#[no_mangle]
pub extern "C" fn m_modpow() {
    with_field!(modpow)
}
fn modpow<T: Field>() {
    let p = prime();
    let x = below(cap(sym::param(2), p));
    let ecap = cap(sym::param(1), p);
    let e = below(ecap);
    let m = 1 + below(cap(sym::param(3), p) - 1);
    // 0^0 and the modulus one are conventions, not properties
    sym::assume(m > 1);
    let (a, k, n): (T, T, T) = (big(x).into(), big(e).into(), big(m).into());
    let got = a.modpow(&k, &n);
    let bits = 128 - (ecap - 1).leading_zeros() as usize;
    expect(&got, powmod(x % m, e, bits, m), "modpow is the power modulo the given modulus");
}

fn number(bytes: &[u8], le: bool) -> (u128, bool) {
    // (value of the low 16 bytes, the rest is zero)
    let n = bytes.len();
    let mut v = 0u128;
    let mut rest = 0u8;
    for i in 0..n {
        let b = if le { bytes[i] } else { bytes[n - 1 - i] };
        if i < 16 {
            v |= (b as u128) << (8 * i);
        } else {
            rest |= b;
        }
    }
    (v, rest == 0)
}
/// C11 byte strings; p = field, length, 1: little endian
#[no_mangle]
pub extern "C" fn m_bytes() {
    with_field!(bytes_)
}
fn bytes_<T: Field>() {
    let p = prime();
    let le = sym::param(2) == 1;
    let b = sym::bytes(sym::param(1));
    let (v, small) = number(&b, le);
    let m = if le { T::from_bytes_le(&b) } else { T::from_bytes_be(&b) };
    match m {
        Some(x) => {
            sym::check(sym::and(small, v < p), "only encodings of integers below p are accepted");
            expect(&x, v, "the member is the encoded integer");
        }
        None => sym::check(!sym::and(small, v < p), "every encoding of an integer below p is accepted"),
    }
}
/// C11 member to bytes and back; p = field
#[no_mangle]
pub extern "C" fn m_round() {
    with_field!(round)
}
fn round<T: Field>() {
    let p = prime();
    let v = below(p);
    let x: T = big(v).into();
    let (l, b) = (x.as_bytes_le(), x.as_bytes_be());
    let (lv, lr) = number(&l, true);
    let (bv, br) = number(&b, false);
    sym::check(sym::and(lr, lv == v), "as_bytes_le encodes the integer in little endian order");
    sym::check(sym::and(br, bv == v), "as_bytes_be encodes the integer in big endian order");
    match T::from_bytes_le(&l) {
        Some(y) => sym::check(y == x, "bytes_le round trip"),
        None => sym::fail("from_bytes_le refuses the encoding of a member"),
    }
    match T::from_bytes_be(&b) {
        Some(y) => sym::check(y == x, "bytes_be round trip"),
        None => sym::fail("from_bytes_be refuses the encoding of a member"),
    }
}
/// C11 machine integers; p = field, kind (0 i64, 1 u64, 2 usize, 3 i32, 4 big integer of 64 bits)
#[no_mangle]
pub extern "C" fn m_int() {
    with_field!(int)
}
fn int<T: Field>() {
    let p = prime();
    let w = sym::word64();
    let (got, want) = match sym::param(1) {
        0 => {
            let n = w as i64;
            let m = n.unsigned_abs() as u128 % p;
            (T::from_i64(n), sel(n < 0, sel(m == 0, 0, p.wrapping_sub(m)), m))
        }
        1 => (T::from_u64(w), w as u128 % p),
        2 => (T::from_usize(w as usize), w as u128 % p),
        3 => {
            let n = w as u32 as i32;
            let m = n.unsigned_abs() as u128 % p;
            (T::from_i32(n), sel(n < 0, sel(m == 0, 0, p.wrapping_sub(m)), m))
        }
        _ => (Some(big(w as u128).into()), w as u128 % p),
    };
    match got {
        Some(x) => expect(&x, want, "an integer becomes its residue modulo p"),
        None => sym::fail("every machine integer has a residue"),
    }
}
/// C11 big integers near a multiple of p: p = field, k; the integer k*p + d with d symbolic
#[no_mangle]
pub extern "C" fn m_wide() {
    with_field!(wide)
}
fn wide<T: Field>() {
    let p = T::field_prime().as_uint();
    let d = sym::word32();
    let d = if p.bits() <= 32 { (sym::below(p.to_u64().unwrap())) as u32 } else { d };
    let n = p * BigUint::from(sym::param(1)) + BigUint::from(d);
    let x: T = n.into();
    sym::check(x.as_uint() == BigUint::from(d), "a big integer becomes its residue modulo p");
}
/// C11 digit strings; p = field, digits, radix
#[no_mangle]
pub extern "C" fn m_text() {
    with_field!(text)
}
fn text<T: Field>() {
    let p = prime();
    let n = sym::param(1);
    let radix = sym::param(2) as u32;
    let mut s = Vec::new();
    let mut v = 0u128;
    for _ in 0..n {
        let d = sym::below(radix as u64) as u8;
        v = v * radix as u128 + d as u128;
        s.push(sym::select(d < 10, (b'0' + d) as u64, (b'a' + d).wrapping_sub(10) as u64) as u8);
    }
    let s = unsafe { String::from_utf8_unchecked(s) };
    match T::from_str_radix(&s, radix) {
        Ok(x) => expect(&x, v % p, "a digit string becomes the residue of its number"),
        Err(_) => sym::fail("every digit string is accepted"),
    }
}

/// random number generator that delivers the given bytes
struct Tape {
    b: Vec<u8>,
    i: usize,
    /// ran out: the rest is not examined
    over: bool,
}
impl Tape {
    fn new(b: Vec<u8>) -> Tape {
        Tape { b, i: 0, over: false }
    }
}
impl CryptoRng for Tape {}
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest.iter_mut() {
            if self.i < self.b.len() {
                *d = self.b[self.i];
            } else {
                // an always acceptable end: zeros
                *d = 0;
                self.over = true;
            }
            self.i += 1;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// C12 range and termination; p = field, bytes the generator delivers before it turns to zeros
#[no_mangle]
pub extern "C" fn m_rnd() {
    with_field!(rnd)
}
fn rnd<T: Field>() {
    let n = sym::param(1);
    let mut r = Tape::new(sym::bytes(n));
    let x = T::generate_random_member(&mut r);
    sym::check(x.as_uint() < T::field_prime().as_uint(), "a random member lies in the field");
    sym::check(r.i > 0, "a random member is drawn from the generator");
    sym::check(r.i <= n + 2 * (T::field_prime().as_uint().bits() / 32 + 1) * 4, "an acceptable output ends the drawing");
}

/// C12 uniformity; p = field, window: position of the first bit, number of bits. For every value of
/// the other bits of the first output, each member is drawn for equally many values of the window
#[no_mangle]
pub extern "C" fn m_uniform() {
    with_field!(uniform)
}
fn uniform<T: Field>() {
    let p = prime() as usize;
    let (pos, w) = (sym::param(1), sym::param(2));
    let rest = sym::word32();
    let mut count = vec![0u64; p];
    for k in 0..1u32 << w {
        let word = rest & !(((1 << w) - 1) << pos) | k << pos;
        let mut r = Tape::new(word.to_le_bytes().to_vec());
        let x = val(&T::generate_random_member(&mut r)) as u64;
        for (m, c) in count.iter_mut().enumerate() {
            *c += sym::select(sym::and(x == m as u64, !r.over), 1, 0);
        }
    }
    for c in &count[1..] {
        sym::check(*c == count[0], "every member is drawn for equally many generator outputs");
    }
    sym::check(count[0] > 0, "every member can be drawn");
}

/// Confirms a failed certificate of m_uniform on the real code (native only): the members' frequencies
/// over many outputs of a good generator; p = field
#[no_mangle]
pub extern "C" fn m_chi() {
    with_field!(chi)
}
struct Mix(u64);
impl CryptoRng for Mix {}
impl RngCore for Mix {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let z = (self.0 ^ self.0 >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        let z = (z ^ z >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ z >> 31
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            d.copy_from_slice(&w[..d.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
fn chi<T: Field>() {
    if !sym::native() {
        return sym::check(true, "native only");
    }
    let p = prime() as usize;
    let n = 20_000_000u64;
    let mut count = vec![0u64; p];
    let mut r = Mix(1);
    for _ in 0..n {
        let x = T::generate_random_member(&mut r).as_uint().to_u64().unwrap() as usize;
        sym::check(x < p, "a random member lies in the field");
        count[x] += 1;
    }
    // ten standard deviations
    let e = n as f64 / p as f64;
    for c in count {
        sym::check((c as f64 - e).abs() < 10.0 * e.sqrt(), "every member is drawn equally often");
    }
}

/// C13; p = field index 0..10
#[no_mangle]
pub extern "C" fn m_mersenne() {
    with_field!(mersenne)
}
fn mersenne<T: Field>() {
    let k = [2usize, 3, 5, 13, 17, 19, 31, 61, 89, 107, 127][sym::param(0)];
    let p = T::field_prime().as_uint();
    sym::check(p == (BigUint::one() << k) - BigUint::one(), "the prime is 2^k - 1");
    modulus::<T>(&p)
}
/// the arithmetic of the field works modulo p
fn modulus<T: Field>(p: &BigUint) {
    let d = if p.bits() <= 32 { sym::below(p.to_u64().unwrap()) as u32 } else { sym::word32() };
    let m1: T = (p - BigUint::one()).into();
    sym::check(m1.as_uint() == p - BigUint::one(), "p - 1 is a member");
    let x: T = BigUint::from(d).into();
    let two: T = BigUint::from(2u32 % p).into();
    sym::check((x.clone() + m1.clone() + T::one()).as_uint() == BigUint::from(d), "x + (p - 1) + 1 = x");
    sym::check((x.clone() - m1.clone()).as_uint() == (BigUint::from(d) + BigUint::one()) % p, "x - (p - 1) = x + 1");
    sym::check((m1.clone() * m1.clone()).is_one(), "(p - 1)^2 = 1");
    sym::check((m1.clone() * two.clone() + two).is_zero(), "2 (p - 1) + 2 = 0");
}
/// C13; p = 11..13
#[no_mangle]
pub extern "C" fn m_ietf() {
    with_field!(ietf)
}
// RFC 5114 sections 2.1, 2.2, 2.3: p and q, 32-bit words, most significant first
const P1: &str = "b10b8f96a080e01dde92de5eae5d54ec52c99fbcfb06a3c69a6a9dca52d23b616073e28675a23d189838ef1e2ee652c013ecb4aea906112324975c3cd49b83bfaccbdd7d90c4bd7098488e9c219a73724effd6fae5644738faa31a4ff55bccc0a151af5f0dc8b4bd45bf37df365c1a65e68cfda76d4da708df1fb2bc2e4a4371";
const Q1: &str = "f518aa8781a8df278aba4e7d64b7cb9d49462353";
const P2: &str = "ad107e1e9123a9d0d660faa79559c51fa20d64e5683b9fd1b54b1597b61d0a75e6fa141df95a56dbaf9a3c407ba1df15eb3d688a309c180e1de6b85a1274a0a66d3f8152ad6ac2129037c9edefda4df8d91e8fef55b7394b7ad5b7d0b6c12207c9f98d11ed34dbf6c6ba0b2c8bbc27be6a00e0a0b9c49708b3bf8a317091883681286130bc8985db1602e714415d9330278273c7de31efdc7310f7121fd5a07415987d9adc0a486dcdf93acc44328387315d75e198c641a480cd86a1b9e587e8be60e69cc928b2b9c52172e413042e9b23f10b0e16e79763c9b53dcf4ba80a29e3fb73c16b8e75b97ef363e2ffa31f71cf9de5384e71b81c0ac4dffe0c10e64f";
const Q2: &str = "801c0d34c58d93fe997177101f80535a4738cebcbf389a99b36371eb";
const P3: &str = "87a8e61db4b6663cffbbd19c651959998ceef608660dd0f25d2ceed4435e3b00e00df8f1d61957d4faf7df4561b2aa3016c3d91134096faa3bf4296d830e9a7c209e0c6497517abd5a8a9d306bcf67ed91f9e6725b4758c022e0b1ef4275bf7b6c5bfc11d45f9088b941f54eb1e59bb8bc39a0bf12307f5c4fdb70c581b23f76b63acae1caa6b7902d52526735488a0ef13c6d9a51bfa4ab3ad8347796524d8ef6a167b5a41825d967e144e5140564251ccacb83e6b486f6b3ca3f7971506026c0b857f689962856ded4010abd0be621c3a3960a54e710c375f26375d7014103a4b54330c198af126116d2276e11715f693877fad7ef09cadb094ae91e1a1597";
const Q3: &str = "8cf83642a709a097b447997640129da299b1a47d1eb3750ba308b0fe64f5fbd3";
fn hex(s: &str) -> BigUint {
    BigUint::from_str_radix(s, 16).unwrap()
}
fn ietf<T: Field>() {
    let (p, q, bits) = match sym::param(0) {
        11 => (hex(P1), hex(Q1), 1024),
        12 => (hex(P2), hex(Q2), 2048),
        _ => (hex(P3), hex(Q3), 2048),
    };
    sym::check(T::field_prime().as_uint() == p, "the prime is the one RFC 5114 gives");
    sym::check(p.bits() == bits && ((&p - BigUint::one()) % q).is_zero(), "size and subgroup order agree with RFC 5114");
    modulus::<T>(&p)
}

/// C14; p = field, bytes per party, generator bound
#[no_mangle]
pub extern "C" fn e_dh() {
    with_field!(dh)
}
fn dh<T: Field>() {
    let p = prime();
    let n = sym::param(1);
    let g = below(cap(sym::param(2), p));
    let gen: T = big(g).into();
    let (b1, b2) = (sym::bytes(n), sym::bytes(n));
    let (mut r1, mut r2, mut r0) = (Tape::new(b1.clone()), Tape::new(b2), Tape::new(b1));
    let (s1, p1) = T::generate_asymmetrical_key_pair(&mut r1, &gen);
    let (s2, p2) = T::generate_asymmetrical_key_pair(&mut r2, &gen);
    let (x1, x2) = (val(&s1), val(&s2));
    let bits = 128 - (p - 1).leading_zeros() as usize;
    expect(&p1, powmod(g, x1, bits, p), "the public key is generator^private");
    expect(&p2, powmod(g, x2, bits, p), "the public key is generator^private");
    sym::check(s1 == T::generate_random_member(&mut r0), "the private key is a random member");
    let (k1, k2) = (T::generate_shared_secret(&s1, &p2), T::generate_shared_secret(&s2, &p1));
    sym::check(k1 == k2, "both parties derive the same secret");
    expect(&k1, powmod(val(&p2), x1, bits, p), "the secret is partner^private");
}
/// C14, the shared secret of any pair of keys; p = field, exponent bound, base bound
#[no_mangle]
pub extern "C" fn e_secret() {
    with_field!(secret)
}
fn secret<T: Field>() {
    let p = prime();
    let ecap = cap(sym::param(1), p);
    let (x, e) = (below(cap(sym::param(2), p)), below(ecap));
    let (a, k): (T, T) = (big(x).into(), big(e).into());
    let bits = 128 - (ecap - 1).leading_zeros() as usize;
    let got = T::generate_shared_secret(&k, &a);
    expect(&got, powmod(x, e, bits, p), "the secret is partner^private");
}

/// C15; p = field, modulus n, its group order, message length, exponent bound, and, if the last is not 0,
/// the smallest message and the number of messages
#[no_mangle]
pub extern "C" fn e_rsa() {
    with_field!(rsa)
}
fn rsa<T: Field>() {
    let p = prime();
    let n = sym::param(1) as u128;
    let order = sym::param(2) as u128;
    let len = sym::param(3);
    let ecap = cap(sym::param(4), p);
    let (e, d) = (1 + below(ecap - 1), 1 + below(ecap - 1));
    sym::assume(e * d % order == 1);
    let window = sym::param(6);
    let msg = if window == 0 {
        sym::bytes(len)
    } else {
        let v = sym::param(5) as u128 + below(window as u128);
        (0..len).map(|i| (v >> (8 * i)) as u8).collect()
    };
    let (m, small) = number(&msg, true);
    sym::allow_panic(!sym::and(small, m < p));
    let public = RSAPublicKey::<T> { e: big(e).into(), n: big(n).into() };
    let private = RSAPrivateKey::<T> { d: big(d).into(), n: big(n).into() };
    let c = RSACryptoSystem::<T>::encrypt_message(&public, &msg);
    sym::check(sym::and(small, m < p), "a message that does not fit the field is refused");
    let bits = 128 - (ecap - 1).leading_zeros() as usize;
    let (cv, cs) = number(&c, true);
    sym::check(cs && cv == powmod(m % n, e, bits, n), "the cipher is m^e mod n, little endian");
    let back = RSACryptoSystem::<T>::decrypt_message(&private, &c);
    let (bv, bs) = number(&back, true);
    sym::check(bs && bv == powmod(cv, d, bits, n), "the plain text is c^d mod n, little endian");
    if m < n {
        sym::check(bv == m, "decryption returns the message's integer");
        let k = back.len();
        sym::check(k == 1 || back[k - 1] != 0, "without trailing zero bytes");
    }
}

sym::entries!(
    m_key, m_add, m_mul, m_rot, m_seq, m_inv, m_egcd, m_divrem, m_pow, m_modpow, m_bytes, m_round, m_int, m_wide, m_text, m_rnd, m_uniform, m_chi, m_mersenne, m_ietf, e_dh, e_secret, e_rsa
);
