//! The fields the protocols run over: an unspecified large one (symbolic identities), small ones as
//! bit vectors, and the library's own.
use jester_maths::prime::*;
use jester_maths::prime_fields;
use mashup::*;
use num::{BigUint, FromPrimitive, Num, One, ToPrimitive, Zero};
use num_bigint::RandBigInt;
use rand::{CryptoRng, RngCore};
use std::iter::{Product, Sum};
use std::ops::*;
use sym::*;

prime_fields!(
    pub L5("5", 10),
    pub L7("7", 10),
    pub L11("11", 10)
);

/// what the harness needs of a field
pub trait Field: PrimeField + Send + Sync + 'static {
    /// any member
    fn any() -> Self;
    fn int(v: i64) -> Self;
    fn same(&self, o: &Self) -> bool;
    fn zero_(&self) -> bool {
        self.same(&Self::int(0))
    }
    fn show(&self);
    /// a member from the list of draws
    fn recall(v: [u32; 2]) -> Self;
    /// random members come from a sequence of free variables; this one replaces the next
    const FREE: bool;
}

/// draws made through `generate_random_member`: (party, value)
pub static mut DRAWN: Vec<(u32, [u32; 2])> = Vec::new();
pub fn drawn() -> &'static mut Vec<(u32, [u32; 2])> {
    unsafe { &mut *std::ptr::addr_of_mut!(DRAWN) }
}
/// when not 0: as many members every party (first) and the dealers of the network (second) may draw
pub static mut LIMIT: [usize; 2] = [0; 2];
fn within_limit(party: u32) {
    let limit = unsafe { LIMIT[(party >= 1000) as usize] };
    if limit > 0 && drawn().iter().filter(|d| d.0 == party).count() >= limit {
        fail("more random members are drawn than the scheme uses");
    }
}
/// the members drawn next, last first
pub static mut GIVEN: Vec<i64> = Vec::new();
/// parties whose draws are expressed through the sum of everybody's draws
pub static mut PARTIES: u32 = 0;

/// when not 0: members of the library's own fields are a fixed sequence of non-zero ones
pub static mut FIXED: u64 = 0;
pub fn fixed(p: u64) -> Option<u64> {
    unsafe {
        if FIXED == 0 {
            return None;
        }
        FIXED += 1;
        Some(FIXED * FIXED % (p - 1) + 1)
    }
}

/// the generators of the harness name the drawing party in the upper half
pub struct Rng {
    pub party: u32,
    pub count: u32,
}
impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.count += 1;
        self.party * 0x10000 + self.count
    }
    fn next_u64(&mut self) -> u64 {
        self.next_u32() as u64
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = self.next_u32() as u8
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Rng {}

macro_rules! num_traits {
    ($t:ty, [$($g:tt)*]) => {
        impl<$($g)*> Zero for $t {
            fn zero() -> Self { Self::int(0) }
            fn is_zero(&self) -> bool { self.zero_() }
        }
        impl<$($g)*> One for $t {
            fn one() -> Self { Self::int(1) }
        }
        impl<$($g)*> PartialEq for $t {
            fn eq(&self, o: &Self) -> bool { self.same(o) }
        }
        impl<$($g)*> Div for $t {
            type Output = Self;
            fn div(self, _: Self) -> Self { panic!("integer division is not a field operation") }
        }
        impl<$($g)*> Rem for $t {
            type Output = Self;
            fn rem(self, _: Self) -> Self { panic!("remainder is not a field operation") }
        }
        impl<$($g)*> Num for $t {
            type FromStrRadixErr = ();
            fn from_str_radix(s: &str, r: u32) -> Result<Self, ()> {
                i64::from_str_radix(s, r).map(Self::int).map_err(|_| ())
            }
        }
        impl<$($g)*> Sum for $t {
            fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::int(0), |a, b| a + b) }
        }
        impl<$($g)*> Product for $t {
            fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::int(1), |a, b| a * b) }
        }
        impl<$($g)*> FromPrimitive for $t {
            fn from_i64(v: i64) -> Option<Self> { Some(Self::int(v)) }
            fn from_u64(v: u64) -> Option<Self> { Some(BigUint::from(v).into()) }
        }
        impl<$($g)*> From<BigUint> for $t {
            fn from(v: BigUint) -> Self {
                match v.to_i64() {
                    Some(i) => Self::int(i),
                    None => v.to_bytes_be().into_iter().fold(Self::int(0), |a, c| a * Self::int(256) + Self::int(c as i64)),
                }
            }
        }
        impl<$($g)*> AddAssign for $t { fn add_assign(&mut self, o: Self) { *self = self.clone() + o } }
        impl<$($g)*> SubAssign for $t { fn sub_assign(&mut self, o: Self) { *self = self.clone() - o } }
        impl<$($g)*> MulAssign for $t { fn mul_assign(&mut self, o: Self) { *self = self.clone() * o } }
    };
}

// ---------------------------------------------------------------- an unspecified large field
/// numerator, denominator (known not to be zero), the value when it is a small integer constant
#[derive(Clone, Debug)]
pub struct Q {
    pub n: Real,
    pub d: Real,
    int: Option<i64>,
}
fn one() -> Real {
    Real::int(1)
}
impl Q {
    pub fn of(n: Real) -> Q {
        Q { n, d: one(), int: None }
    }
    fn frac(n: Real, d: Real) -> Q {
        if d.0 == one().0 {
            return Q { n, d, int: None };
        }
        let (n, d) = n.frac(d);
        Q { n, d, int: None }
    }
}
impl Add for Q {
    type Output = Q;
    fn add(self, o: Q) -> Q {
        let mut r = if self.d.0 == o.d.0 { Q::frac(self.n.add(o.n), self.d) } else { Q::frac(self.n.mul(o.d).add(o.n.mul(self.d)), self.d.mul(o.d)) };
        r.int = self.int.and_then(|a| o.int.and_then(|b| a.checked_add(b)));
        r
    }
}
impl Sub for Q {
    type Output = Q;
    fn sub(self, o: Q) -> Q {
        let mut r = if self.d.0 == o.d.0 { Q::frac(self.n.sub(o.n), self.d) } else { Q::frac(self.n.mul(o.d).sub(o.n.mul(self.d)), self.d.mul(o.d)) };
        r.int = self.int.and_then(|a| o.int.and_then(|b| a.checked_sub(b)));
        r
    }
}
impl Mul for Q {
    type Output = Q;
    fn mul(self, o: Q) -> Q {
        let mut r = Q::frac(self.n.mul(o.n), self.d.mul(o.d));
        r.int = self.int.and_then(|a| o.int.and_then(|b| a.checked_mul(b)));
        r
    }
}
impl Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        Q::int(0) - self
    }
}
impl Field for Q {
    fn any() -> Q {
        Q::of(Real::var())
    }
    fn int(v: i64) -> Q {
        Q { n: Real::int(v), d: one(), int: Some(v) }
    }
    fn same(&self, o: &Q) -> bool {
        if self.d.0 == o.d.0 {
            self.n.eq(o.n)
        } else {
            self.n.mul(o.d).eq(o.n.mul(self.d))
        }
    }
    fn recall(v: [u32; 2]) -> Q {
        Q::of(Real(v[0]))
    }
    fn show(&self) {
        // observations over different fields are not comparable
    }
    const FREE: bool = true;
}
num_traits!(Q, []);
impl PrimeField for Q {
    fn field_prime() -> Q {
        panic!("the field is not specified")
    }
    fn as_uint(&self) -> BigUint {
        match self.int {
            Some(v) if v >= 0 => BigUint::from(v as u64),
            _ => panic!("the integer representation is not specified"),
        }
    }
    fn pow(&self, e: &Q) -> Q {
        let mut r = Q::int(1);
        for _ in 0..e.as_uint().to_u64().unwrap() {
            r = r * self.clone();
        }
        r
    }
    fn inverse(&self) -> Q {
        if self.zero_() {
            // as the extended euclidean algorithm has it
            return Q::int(0);
        }
        if self.n.is_const() {
            return Q { n: self.d.mul(self.n.inv()), d: one(), int: if self.int == Some(1) { Some(1) } else { None } };
        }
        Q::frac(self.d, self.n)
    }
    fn generate_random_member<R: RngCore + CryptoRng + RandBigInt>(rng: &mut R) -> Q {
        let party = rng.next_u32() / 0x10000;
        within_limit(party);
        if let Some(v) = unsafe { &mut *std::ptr::addr_of_mut!(GIVEN) }.pop() {
            return Q::int(v);
        }
        let parties = unsafe { PARTIES };
        let mut v = Real::var();
        // the last party's k-th draw is written as (any sum) - (the others' k-th draws)
        if parties > 0 && party + 1 == parties {
            let k = drawn().iter().filter(|d| d.0 == party).count();
            for p in 0..party {
                if let Some(d) = drawn().iter().filter(|d| d.0 == p).nth(k) {
                    v = v.sub(Real(d.1[0]));
                }
            }
        }
        drawn().push((party, [v.0, 0]));
        Q::of(v)
    }
}

// ---------------------------------------------------------------- a small field of bit vectors
#[derive(Clone, Debug)]
pub struct G<const P: u16>(pub u16);
impl<const P: u16> Add for G<P> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        let s = self.0 + o.0;
        G(select(s >= P, (s as u64).wrapping_sub(P as u64), s as u64) as u16)
    }
}
impl<const P: u16> Sub for G<P> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        let s = self.0 + (P - o.0);
        G(select(s >= P, (s as u64).wrapping_sub(P as u64), s as u64) as u16)
    }
}
impl<const P: u16> Mul for G<P> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        // sum of shifted multiples, reduced as it goes
        let mut r = G(0);
        let mut b = 1 << (15 - P.leading_zeros());
        while b > 0 {
            r = r.clone() + r;
            let t = r.clone() + self.clone();
            r = G(select(o.0 & b != 0, t.0 as u64, r.0 as u64) as u16);
            b >>= 1;
        }
        r
    }
}
impl<const P: u16> Neg for G<P> {
    type Output = Self;
    fn neg(self) -> Self {
        G(0) - self
    }
}
impl<const P: u16> Field for G<P> {
    fn any() -> Self {
        G(below(P as u64) as u16)
    }
    fn int(v: i64) -> Self {
        G(v.rem_euclid(P as i64) as u16)
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn recall(v: [u32; 2]) -> Self {
        G(v[0] as u16)
    }
    fn show(&self) {
        trace(self.0 as u64)
    }
    const FREE: bool = true;
}
num_traits!(G<P>, [const P: u16]);
impl<const P: u16> PrimeField for G<P> {
    fn field_prime() -> Self {
        G(P)
    }
    fn as_uint(&self) -> BigUint {
        BigUint::from(self.0)
    }
    fn inverse(&self) -> Self {
        // x^(P-2)
        let mut r = G(1);
        let mut b = 1u16 << (15 - (P - 2).leading_zeros());
        while b > 0 {
            r = r.clone() * r;
            if (P - 2) & b != 0 {
                r = r * self.clone();
            }
            b >>= 1;
        }
        r
    }
    fn generate_random_member<R: RngCore + CryptoRng + RandBigInt>(rng: &mut R) -> Self {
        let party = rng.next_u32() / 0x10000;
        within_limit(party);
        let v = Self::any();
        drawn().push((party, [v.0 as u32, 0]));
        v
    }
}

// ---------------------------------------------------------------- the library's own fields
macro_rules! own {
    ($t:ident, $p:expr) => {
        impl Field for $t {
            fn any() -> Self {
                BigUint::from(fixed($p).unwrap_or_else(|| below($p)) as u32).into()
            }
            fn int(v: i64) -> Self {
                BigUint::from(v.rem_euclid($p) as u64).into()
            }
            fn same(&self, o: &Self) -> bool {
                self.as_uint() == o.as_uint()
            }
            fn recall(_: [u32; 2]) -> Self {
                panic!("draws are not recorded")
            }
            fn show(&self) {
                trace(self.as_uint().to_u64().unwrap())
            }
            const FREE: bool = false;
        }
    };
}
own!(L5, 5);
own!(L7, 7);
own!(L11, 11);
