//! Runs one harness natively on one concrete input. Exit code: 0 fine, 3 assertion failed,
//! 4 panic that was not allowed, 5 assumption violated (the input is not one the harness admits),
//! 6 panic that was allowed.
use std::cell::RefCell;

/// the prime of the field elements
static PRIME: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn prime() -> u128 {
    match PRIME.load(std::sync::atomic::Ordering::Relaxed) {
        0 => (1u128 << 127) - 1,
        p => p as u128,
    }
}

#[derive(Default)]
struct Ctx {
    params: Vec<u64>,
    inputs: Vec<String>,
    next: usize,
    allow: bool,
    reals: Vec<u128>,
    trace: Vec<u64>,
}
thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}

fn mulp(a: u128, b: u128) -> u128 {
    let (mut r, mut a, mut b) = (0u128, a, b);
    while b > 0 {
        if b & 1 == 1 {
            r = (r + a) % prime();
        }
        a = (a + a) % prime();
        b >>= 1;
    }
    r
}
fn powp(a: u128, mut e: u128) -> u128 {
    let (mut r, mut b) = (1u128, a);
    while e > 0 {
        if e & 1 == 1 {
            r = mulp(r, b);
        }
        b = mulp(b, b);
        e >>= 1;
    }
    r
}
fn dec(s: &str) -> u128 {
    // decimal string modulo prime(), sign allowed
    let (neg, d) = match s.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, s),
    };
    let mut r = 0u128;
    for c in d.bytes() {
        r = (mulp(r, 10) + (c - b'0') as u128) % prime();
    }
    if neg {
        (prime() - r) % prime()
    } else {
        r
    }
}
fn input() -> u128 {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let i = c.next;
        c.next += 1;
        c.inputs.get(i).and_then(|s| s.parse().ok()).unwrap_or(0)
    })
}
fn real(v: u128) -> u32 {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.reals.push(v);
        c.reals.len() as u32
    })
}
fn rv(h: u32) -> u128 {
    CTX.with(|c| {
        let c = c.borrow();
        match c.reals.get((h as usize).wrapping_sub(1)) {
            Some(v) => *v,
            None => {
                println!("JSYM invalid field element handle");
                std::process::exit(3)
            }
        }
    })
}
unsafe fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
fn end(code: i32, msg: &str) -> ! {
    CTX.with(|c| {
        let c = c.borrow();
        println!("JSYM-TRACE {}", c.trace.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    });
    println!("JSYM-END {} {}", code, msg);
    std::process::exit(code)
}
#[no_mangle]
extern "C" fn jsym_u8() -> u8 {
    input() as u8
}
#[no_mangle]
extern "C" fn jsym_u16() -> u16 {
    input() as u16
}
#[no_mangle]
extern "C" fn jsym_u32() -> u32 {
    input() as u32
}
#[no_mangle]
extern "C" fn jsym_u64() -> u64 {
    input() as u64
}
#[no_mangle]
extern "C" fn jsym_below(n: u64) -> u64 {
    let v = input() as u64;
    if v >= n {
        end(5, "input outside its range")
    }
    v
}
#[no_mangle]
extern "C" fn jsym_assume(c: bool) {
    if !c {
        end(5, "assumption violated")
    }
}
#[no_mangle]
unsafe extern "C" fn jsym_assert(c: bool, m: *const u8, n: usize) {
    if !c {
        end(3, &text(m, n))
    }
}
#[no_mangle]
unsafe extern "C" fn jsym_eq(a: *const u8, b: *const u8, n: usize, m: *const u8, k: usize) {
    if std::slice::from_raw_parts(a, n) != std::slice::from_raw_parts(b, n) {
        end(3, &text(m, k))
    }
}
#[no_mangle]
unsafe extern "C" fn jsym_same(a: *const u8, b: *const u8, n: usize) -> bool {
    std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, n)
}
#[no_mangle]
extern "C" fn jsym_param(i: usize) -> u64 {
    CTX.with(|c| c.borrow().params.get(i).copied().unwrap_or(0))
}
#[no_mangle]
extern "C" fn jsym_nparams() -> usize {
    CTX.with(|c| c.borrow().params.len())
}
#[no_mangle]
extern "C" fn jsym_native() -> bool {
    true
}
#[no_mangle]
extern "C" fn jsym_expect_panic(c: bool) {
    CTX.with(|x| x.borrow_mut().allow = c)
}
#[no_mangle]
extern "C" fn jsym_conc(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn jsym_and(a: bool, b: bool) -> bool {
    a & b
}
#[no_mangle]
extern "C" fn jsym_or(a: bool, b: bool) -> bool {
    a | b
}
#[no_mangle]
extern "C" fn jsym_select(c: bool, a: u64, b: u64) -> u64 {
    if c {
        a
    } else {
        b
    }
}
#[no_mangle]
unsafe extern "C" fn jsym_reach(_m: *const u8, _n: usize) {}
#[no_mangle]
extern "C" fn jsym_trace(v: u64) {
    CTX.with(|c| c.borrow_mut().trace.push(v))
}
#[no_mangle]
unsafe extern "C" fn jsym_fail(m: *const u8, n: usize) {
    end(3, &text(m, n))
}
#[no_mangle]
unsafe extern "C" fn jsym_hash(tag: u64, p: *const u8, n: usize, o: *mut u8, k: usize) {
    // some fixed function that behaves like a random one
    let mut s = tag ^ 0x9e37_79b9_7f4a_7c15;
    let mut mix = |x: u64| {
        s = (s ^ x).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        s ^= s >> 29;
        s = s.wrapping_mul(0x94d0_49bb_1331_11eb);
        s ^= s >> 32;
        s
    };
    for b in std::slice::from_raw_parts(p, n) {
        mix(*b as u64 + 1);
    }
    for i in 0..k {
        *o.add(i) = mix(i as u64 + 1000) as u8;
    }
}
#[no_mangle]
extern "C" fn jsym_real_field(p: u64) {
    PRIME.store(p, std::sync::atomic::Ordering::Relaxed)
}
#[no_mangle]
extern "C" fn jsym_real_var() -> u32 {
    let s = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let i = c.next;
        c.next += 1;
        c.inputs.get(i).cloned().unwrap_or("0".into())
    });
    let v = match s.split_once('/') {
        Some((n, d)) => mulp(dec(n), powp(dec(d), prime() - 2)),
        None => dec(&s),
    };
    real(v)
}
#[no_mangle]
extern "C" fn jsym_real_const(v: i64) -> u32 {
    real(if v < 0 { prime() - (v as i128).unsigned_abs() % prime() } else { v as u128 } % prime())
}
#[no_mangle]
extern "C" fn jsym_real_add(a: u32, b: u32) -> u32 {
    real((rv(a) + rv(b)) % prime())
}
#[no_mangle]
extern "C" fn jsym_real_sub(a: u32, b: u32) -> u32 {
    real((rv(a) + prime() - rv(b)) % prime())
}
#[no_mangle]
extern "C" fn jsym_real_mul(a: u32, b: u32) -> u32 {
    real(mulp(rv(a), rv(b)))
}
#[no_mangle]
extern "C" fn jsym_real_inv(a: u32) -> u32 {
    real(powp(rv(a), prime() - 2))
}
#[no_mangle]
extern "C" fn jsym_real_frac(a: u32, b: u32, part: u32) -> u32 {
    if part == 0 {
        real(mulp(rv(a), powp(rv(b), prime() - 2)))
    } else {
        real(1)
    }
}
#[no_mangle]
extern "C" fn jsym_real_eq(a: u32, b: u32) -> bool {
    rv(a) == rv(b)
}
#[no_mangle]
extern "C" fn jsym_real_is_const(_a: u32) -> bool {
    true
}

fn main() {
    // native ENTRY params(comma separated or -) inputs(comma separated or -)
    let a: Vec<String> = std::env::args().collect();
    let list = |s: &str| -> Vec<String> {
        if s == "-" {
            vec![]
        } else {
            s.split(',').map(|x| x.to_string()).collect()
        }
    };
    let inputs = if let Some(f) = a[3].strip_prefix('@') { std::fs::read_to_string(f).unwrap().trim().to_string() } else { a[3].clone() };
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.params = list(&a[2]).iter().map(|x| x.parse().unwrap()).collect();
        c.inputs = list(&inputs);
    });
    let mut all: Vec<(&'static str, extern "C" fn())> = vec![];
    #[cfg(feature = "h_hash")]
    all.extend(h_hash::entries());
    #[cfg(feature = "h_math")]
    all.extend(h_math::entries());
    #[cfg(feature = "h_ratchet")]
    all.extend(h_ratchet::entries());
    #[cfg(feature = "h_share")]
    all.extend(h_share::entries());
    let f = match all.iter().find(|e| e.0 == a[1]) {
        Some(f) => f.1,
        None => end(9, "no such entry"),
    };
    std::panic::set_hook(Box::new(|i| {
        println!("JSYM-PANIC {}", i);
        let allow = CTX.with(|c| c.try_borrow().map(|c| c.allow).unwrap_or(false));
        if allow {
            end(6, "allowed panic")
        } else {
            end(4, &format!("{}", i).replace('\n', " "))
        }
    }));
    f();
    end(0, "ok")
}
