//! Evaluates the hash specification of the harness on the lines of standard input
//! (tools/spec_check.py compares the answers with Python's hashlib).
#[path = "h_hash/src/spec.rs"]
#[allow(dead_code)]
mod spec;
use std::io::BufRead;

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn main() {
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        // what, algorithm, output length, then the byte strings and numbers
        let f: Vec<&str> = l.split(',').collect();
        let a = spec::alg(f[1].parse().unwrap());
        let out = f[2].parse().unwrap();
        let b = |i: usize| unhex(f[i]);
        let r = match f[0] {
            "digest" => spec::digest(a, out, &b(3), &b(4)),
            "hmac" => spec::hmac(a, out, &b(3), &b(4), &b(5)),
            _ => spec::hkdf(a, out, &b(3), &b(4), &b(5), f[6].parse().unwrap(), &b(7)),
        };
        println!("{}", r.iter().map(|x| format!("{:02x}", x)).collect::<String>());
    }
}
