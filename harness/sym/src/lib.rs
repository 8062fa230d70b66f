//! Interface between the harnesses and whoever runs them: the symbolic executor (which gives
//! these functions their symbolic meaning) or the native runner (which replays one concrete input).
extern "C" {
    fn jsym_u8() -> u8;
    fn jsym_u16() -> u16;
    fn jsym_u32() -> u32;
    fn jsym_u64() -> u64;
    fn jsym_below(n: u64) -> u64;
    fn jsym_assume(c: bool);
    fn jsym_assert(c: bool, msg: *const u8, len: usize);
    fn jsym_eq(a: *const u8, b: *const u8, len: usize, msg: *const u8, mlen: usize);
    fn jsym_same(a: *const u8, b: *const u8, len: usize) -> bool;
    fn jsym_param(i: usize) -> u64;
    fn jsym_nparams() -> usize;
    fn jsym_native() -> bool;
    fn jsym_expect_panic(c: bool);
    fn jsym_conc(v: u64) -> u64;
    fn jsym_and(a: bool, b: bool) -> bool;
    fn jsym_or(a: bool, b: bool) -> bool;
    fn jsym_select(c: bool, a: u64, b: u64) -> u64;
    fn jsym_reach(msg: *const u8, len: usize);
    fn jsym_trace(v: u64);
    fn jsym_fail(msg: *const u8, len: usize);
    fn jsym_hash(tag: u64, inp: *const u8, len: usize, out: *mut u8, outlen: usize);
    fn jsym_real_field(p: u64);
    fn jsym_real_var() -> u32;
    fn jsym_real_const(v: i64) -> u32;
    fn jsym_real_add(a: u32, b: u32) -> u32;
    fn jsym_real_sub(a: u32, b: u32) -> u32;
    fn jsym_real_mul(a: u32, b: u32) -> u32;
    fn jsym_real_inv(a: u32) -> u32;
    fn jsym_real_frac(a: u32, b: u32, part: u32) -> u32;
    fn jsym_real_eq(a: u32, b: u32) -> bool;
    fn jsym_real_is_const(a: u32) -> bool;
}

/// an unconstrained input byte
pub fn byte() -> u8 {
    unsafe { jsym_u8() }
}
pub fn word16() -> u16 {
    unsafe { jsym_u16() }
}
pub fn word32() -> u32 {
    unsafe { jsym_u32() }
}
pub fn word64() -> u64 {
    unsafe { jsym_u64() }
}
/// any value in 0..n
pub fn below(n: u64) -> u64 {
    unsafe { jsym_below(n) }
}
pub fn flag() -> bool {
    below(2) == 1
}
pub fn bytes(n: usize) -> Vec<u8> {
    (0..n).map(|_| byte()).collect()
}
pub fn assume(c: bool) {
    unsafe { jsym_assume(c) }
}
pub fn check(c: bool, msg: &str) {
    unsafe { jsym_assert(c, msg.as_ptr(), msg.len()) }
}
/// assert that two byte strings are equal
pub fn check_eq(a: &[u8], b: &[u8], msg: &str) {
    if a.len() != b.len() {
        fail(msg)
    }
    unsafe { jsym_eq(a.as_ptr(), b.as_ptr(), a.len(), msg.as_ptr(), msg.len()) }
}
/// equality of byte strings as one (possibly symbolic) truth value
pub fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { jsym_same(a.as_ptr(), b.as_ptr(), a.len()) }
}
pub fn fail(msg: &str) {
    unsafe { jsym_fail(msg.as_ptr(), msg.len()) }
}
/// i-th parameter of the job (0 when not given)
pub fn param(i: usize) -> usize {
    unsafe { jsym_param(i) as usize }
}
pub fn nparams() -> usize {
    unsafe { jsym_nparams() }
}
pub fn native() -> bool {
    unsafe { jsym_native() }
}
/// from now on a panic is acceptable exactly when c holds
pub fn allow_panic(c: bool) {
    unsafe { jsym_expect_panic(c) }
}
/// case split: one concrete value per path
pub fn conc(v: u64) -> u64 {
    unsafe { jsym_conc(v) }
}
pub fn and(a: bool, b: bool) -> bool {
    unsafe { jsym_and(a, b) }
}
pub fn or(a: bool, b: bool) -> bool {
    unsafe { jsym_or(a, b) }
}
pub fn select(c: bool, a: u64, b: u64) -> u64 {
    unsafe { jsym_select(c, a, b) }
}
pub fn reach(msg: &str) {
    unsafe { jsym_reach(msg.as_ptr(), msg.len()) }
}
/// record a value (compared between the executor's concrete mode and the native run)
pub fn trace(v: u64) {
    unsafe { jsym_trace(v) }
}
pub fn trace_bytes(b: &[u8]) {
    for x in b {
        trace(*x as u64)
    }
}
/// uninterpreted function of a byte string
pub fn hash(tag: u64, inp: &[u8], outlen: usize) -> Vec<u8> {
    let mut o = vec![0u8; outlen];
    unsafe { jsym_hash(tag, inp.as_ptr(), inp.len(), o.as_mut_ptr(), outlen) };
    o
}

/// an element of an unspecified field (symbolically: the rationals, as terms; natively: GF(2^127-1))
/// (or of the field of the prime below 2^62 given here before any element is made)
pub fn real_field(p: u64) {
    unsafe { jsym_real_field(p) }
}
#[derive(Clone, Copy, Debug)]
pub struct Real(pub u32);
impl Real {
    pub fn var() -> Real {
        Real(unsafe { jsym_real_var() })
    }
    pub fn int(v: i64) -> Real {
        Real(unsafe { jsym_real_const(v) })
    }
    pub fn add(self, o: Real) -> Real {
        Real(unsafe { jsym_real_add(self.0, o.0) })
    }
    pub fn sub(self, o: Real) -> Real {
        Real(unsafe { jsym_real_sub(self.0, o.0) })
    }
    pub fn mul(self, o: Real) -> Real {
        Real(unsafe { jsym_real_mul(self.0, o.0) })
    }
    pub fn eq(self, o: Real) -> bool {
        unsafe { jsym_real_eq(self.0, o.0) }
    }
    /// inverse of a constant (0 for 0)
    pub fn inv(self) -> Real {
        Real(unsafe { jsym_real_inv(self.0) })
    }
    /// the fraction self / o (o not zero) in lower terms
    pub fn frac(self, o: Real) -> (Real, Real) {
        unsafe { (Real(jsym_real_frac(self.0, o.0, 0)), Real(jsym_real_frac(self.0, o.0, 1))) }
    }
    pub fn is_const(self) -> bool {
        unsafe { jsym_real_is_const(self.0) }
    }
}

/// declares the entry points of a harness crate
#[macro_export]
macro_rules! entries {
    ($($name:ident),* $(,)?) => {
        pub fn entries() -> Vec<(&'static str, extern "C" fn())> {
            vec![$((stringify!($name), $name as extern "C" fn())),*]
        }
    };
}
