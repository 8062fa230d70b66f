//! Reference hash functions, written from RFC 1321, FIPS 180-4, RFC 7693, RFC 2104 and RFC 5869.
//! They stream block by block so that a state can be continued at any total length.

const T: [u32; 64] = [0xd76aa478, 0xe8c7b756, 0x242070db, 0xc1bdceee, 0xf57c0faf, 0x4787c62a, 0xa8304613, 0xfd469501, 0x698098d8, 0x8b44f7af, 0xffff5bb1, 0x895cd7be, 0x6b901122, 0xfd987193, 0xa679438e, 0x49b40821, 0xf61e2562, 0xc040b340, 0x265e5a51, 0xe9b6c7aa, 0xd62f105d, 0x2441453, 0xd8a1e681, 0xe7d3fbc8, 0x21e1cde6, 0xc33707d6, 0xf4d50d87, 0x455a14ed, 0xa9e3e905, 0xfcefa3f8, 0x676f02d9, 0x8d2a4c8a, 0xfffa3942, 0x8771f681, 0x6d9d6122, 0xfde5380c, 0xa4beea44, 0x4bdecfa9, 0xf6bb4b60, 0xbebfbc70, 0x289b7ec6, 0xeaa127fa, 0xd4ef3085, 0x4881d05, 0xd9d4d039, 0xe6db99e5, 0x1fa27cf8, 0xc4ac5665, 0xf4292244, 0x432aff97, 0xab9423a7, 0xfc93a039, 0x655b59c3, 0x8f0ccc92, 0xffeff47d, 0x85845dd1, 0x6fa87e4f, 0xfe2ce6e0, 0xa3014314, 0x4e0811a1, 0xf7537e82, 0xbd3af235, 0x2ad7d2bb, 0xeb86d391];
const S: [u32; 64] = [7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21];

const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
const IV64: [u64; 8] = [0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179];
const IV32: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];

#[derive(Clone, Copy, PartialEq)]
pub enum Alg {
    Md5,
    Sha1,
    B2b,
    B2s,
}
use Alg::*;

pub fn alg(i: usize) -> Alg {
    match i {
        0 => Md5,
        1 => Sha1,
        2 => B2b,
        _ => B2s,
    }
}

impl Alg {
    pub fn block(self) -> usize {
        if self == B2b {
            128
        } else {
            64
        }
    }
    pub fn full_output(self) -> usize {
        match self {
            Md5 => 16,
            Sha1 => 20,
            B2b => 64,
            B2s => 32,
        }
    }
}

fn md5_block(h: &mut [u32], b: &[u8]) {
    let mut x = [0u32; 16];
    for i in 0..16 {
        x[i] = b[4 * i] as u32 | (b[4 * i + 1] as u32) << 8 | (b[4 * i + 2] as u32) << 16 | (b[4 * i + 3] as u32) << 24;
    }
    let (mut a, mut bb, mut c, mut d) = (h[0], h[1], h[2], h[3]);
    for i in 0..64 {
        let (f, g) = if i < 16 {
            ((bb & c) | (!bb & d), i)
        } else if i < 32 {
            ((bb & d) | (c & !d), (5 * i + 1) % 16)
        } else if i < 48 {
            (bb ^ c ^ d, (3 * i + 5) % 16)
        } else {
            (c ^ (bb | !d), (7 * i) % 16)
        };
        let s = a.wrapping_add(f).wrapping_add(x[g]).wrapping_add(T[i]);
        let n = bb.wrapping_add(s << S[i] | s >> (32 - S[i]));
        a = d;
        d = c;
        c = bb;
        bb = n;
    }
    h[0] = h[0].wrapping_add(a);
    h[1] = h[1].wrapping_add(bb);
    h[2] = h[2].wrapping_add(c);
    h[3] = h[3].wrapping_add(d);
}

fn sha1_block(h: &mut [u32], b: &[u8]) {
    let mut w = [0u32; 80];
    for i in 0..16 {
        w[i] = (b[4 * i] as u32) << 24 | (b[4 * i + 1] as u32) << 16 | (b[4 * i + 2] as u32) << 8 | b[4 * i + 3] as u32;
    }
    for i in 16..80 {
        let x = w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16];
        w[i] = x << 1 | x >> 31;
    }
    let (mut a, mut bb, mut c, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
    for i in 0..80 {
        let (f, k) = if i < 20 {
            ((bb & c) ^ (!bb & d), 0x5a827999)
        } else if i < 40 {
            (bb ^ c ^ d, 0x6ed9eba1)
        } else if i < 60 {
            ((bb & c) ^ (bb & d) ^ (c & d), 0x8f1bbcdcu32)
        } else {
            (bb ^ c ^ d, 0xca62c1d6)
        };
        let t = (a << 5 | a >> 27).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[i]);
        e = d;
        d = c;
        c = bb << 30 | bb >> 2;
        bb = a;
        a = t;
    }
    h[0] = h[0].wrapping_add(a);
    h[1] = h[1].wrapping_add(bb);
    h[2] = h[2].wrapping_add(c);
    h[3] = h[3].wrapping_add(d);
    h[4] = h[4].wrapping_add(e);
}

macro_rules! blake {
    ($name:ident, $w:ty, $bytes:expr, $rounds:expr, $r1:expr, $r2:expr, $r3:expr, $r4:expr, $iv:ident, $tt:ty) => {
        fn $name(h: &mut [$w], b: &[u8], t: $tt, last: bool) {
            let bits = 8 * $bytes;
            let mut m: [$w; 16] = [0; 16];
            for i in 0..16 {
                for j in 0..$bytes {
                    m[i] |= (b[i * $bytes + j] as $w) << (8 * j);
                }
            }
            let mut v: [$w; 16] = [0; 16];
            for i in 0..8 {
                v[i] = h[i];
                v[i + 8] = $iv[i];
            }
            v[12] ^= t as $w;
            v[13] ^= (t >> bits) as $w;
            if last {
                v[14] = !v[14];
            }
            for r in 0..$rounds {
                let s = &SIGMA[r % 10];
                for k in 0..8 {
                    // columns first, then diagonals
                    let q = k % 4;
                    let o = if k < 4 { 0 } else { 1 };
                    let ia = q;
                    let ib = 4 + (q + o) % 4;
                    let ic = 8 + (q + 2 * o) % 4;
                    let id = 12 + (q + 3 * o) % 4;
                    let (x, y) = (m[s[2 * k]], m[s[2 * k + 1]]);
                    v[ia] = v[ia].wrapping_add(v[ib]).wrapping_add(x);
                    v[id] = (v[id] ^ v[ia]).rotate_right($r1);
                    v[ic] = v[ic].wrapping_add(v[id]);
                    v[ib] = (v[ib] ^ v[ic]).rotate_right($r2);
                    v[ia] = v[ia].wrapping_add(v[ib]).wrapping_add(y);
                    v[id] = (v[id] ^ v[ia]).rotate_right($r3);
                    v[ic] = v[ic].wrapping_add(v[id]);
                    v[ib] = (v[ib] ^ v[ic]).rotate_right($r4);
                }
            }
            for i in 0..8 {
                h[i] ^= v[i] ^ v[i + 8];
            }
        }
    };
}
blake!(b2b_block, u64, 8, 12, 32, 24, 16, 63, IV64, u128);
blake!(b2s_block, u32, 4, 10, 16, 12, 8, 7, IV32, u64);

/// A hash computation in progress. `total` counts bytes (for BLAKE2 the key block included).
#[derive(Clone)]
pub struct St {
    pub a: Alg,
    h32: [u32; 8],
    h64: [u64; 8],
    /// bytes that went through the compression function
    pub total: u128,
    buf: Vec<u8>,
    out: usize,
}

pub fn init(a: Alg, out: usize, key: &[u8]) -> St {
    let mut s = St { a, h32: [0; 8], h64: [0; 8], total: 0, buf: vec![], out };
    match a {
        Md5 => s.h32[..4].copy_from_slice(&[0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476]),
        Sha1 => s.h32[..5].copy_from_slice(&[0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]),
        B2b => {
            s.h64 = IV64;
            s.h64[0] ^= 0x01010000 ^ ((key.len() as u64) << 8) ^ out as u64;
        }
        B2s => {
            s.h32 = IV32;
            s.h32[0] ^= 0x01010000 ^ ((key.len() as u32) << 8) ^ out as u32;
        }
    }
    if matches!(a, B2b | B2s) && key.len() > 0 {
        let mut k = key.to_vec();
        while k.len() < a.block() {
            k.push(0);
        }
        update(&mut s, &k);
    }
    s
}

fn compress(s: &mut St, b: &[u8], counted: usize, last: bool) {
    s.total = s.total.wrapping_add(counted as u128);
    match s.a {
        Md5 => md5_block(&mut s.h32, b),
        Sha1 => sha1_block(&mut s.h32, b),
        B2b => b2b_block(&mut s.h64, b, s.total, last),
        B2s => b2s_block(&mut s.h32, b, s.total as u64, last),
    }
}

pub fn update(s: &mut St, data: &[u8]) {
    let n = s.a.block();
    for x in data {
        // BLAKE2 keeps a full block back, it may be the last one
        if s.buf.len() == n {
            let b = std::mem::replace(&mut s.buf, vec![]);
            compress(s, &b, n, false);
        }
        s.buf.push(*x);
        if s.buf.len() == n && matches!(s.a, Md5 | Sha1) {
            let b = std::mem::replace(&mut s.buf, vec![]);
            compress(s, &b, n, false);
        }
    }
}

pub fn finish(mut s: St) -> Vec<u8> {
    let n = s.a.block();
    let mut b = std::mem::replace(&mut s.buf, vec![]);
    let mut out = vec![];
    match s.a {
        Md5 | Sha1 => {
            let bits = s.total.wrapping_add(b.len() as u128).wrapping_mul(8) as u64;
            b.push(0x80);
            while b.len() % 64 != 56 {
                b.push(0);
            }
            for i in 0..8 {
                b.push((bits >> if s.a == Md5 { 8 * i } else { 56 - 8 * i }) as u8);
            }
            for c in b.chunks(64) {
                compress(&mut s, c, 0, false);
            }
            for i in 0..s.a.full_output() {
                let w = s.h32[i / 4];
                out.push((w >> if s.a == Md5 { 8 * (i % 4) } else { 24 - 8 * (i % 4) }) as u8);
            }
        }
        B2b | B2s => {
            let l = b.len();
            while b.len() < n {
                b.push(0);
            }
            compress(&mut s, &b, l, true);
            for i in 0..s.out {
                out.push(if s.a == B2b { (s.h64[i / 8] >> (8 * (i % 8))) as u8 } else { (s.h32[i / 4] >> (8 * (i % 4))) as u8 });
            }
        }
    }
    out
}

pub fn digest(a: Alg, out: usize, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut s = init(a, out, key);
    update(&mut s, msg);
    finish(s)
}

pub fn hmac(a: Alg, out: usize, hkey: &[u8], key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > a.block() { digest(a, out, hkey, key) } else { key.to_vec() };
    while k.len() < a.block() {
        k.push(0);
    }
    let mut i = init(a, out, hkey);
    update(&mut i, &k.iter().map(|x| x ^ 0x36).collect::<Vec<u8>>());
    update(&mut i, msg);
    let mut o = init(a, out, hkey);
    update(&mut o, &k.iter().map(|x| x ^ 0x5c).collect::<Vec<u8>>());
    update(&mut o, &finish(i));
    finish(o)
}

pub fn hkdf(a: Alg, out: usize, hkey: &[u8], salt: &[u8], ikm: &[u8], len: usize, info: &[u8]) -> Vec<u8> {
    let prk = hmac(a, out, hkey, salt, ikm);
    let mut okm: Vec<u8> = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 0u8;
    while okm.len() < len {
        i += 1;
        let mut m = t.clone();
        m.extend_from_slice(info);
        m.push(i);
        t = hmac(a, out, hkey, &prk, &m);
        okm.extend_from_slice(&t);
    }
    okm.truncate(len);
    okm
}

