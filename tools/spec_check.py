#!/usr/bin/env python3
"""Compares the harness's hash specification (harness/h_hash/src/spec.rs) with Python's hashlib and
hmac, and the published primes of C13 with an independent primality and subgroup test."""
import hashlib, hmac, os, random, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIN = os.path.join(HERE, "build", "spec_check")


def new(alg, out, key=b"", data=b""):
    if alg == 0:
        return hashlib.md5(data, usedforsecurity=False)
    if alg == 1:
        return hashlib.sha1(data, usedforsecurity=False)
    f = hashlib.blake2b if alg == 2 else hashlib.blake2s
    return f(data, digest_size=out, key=key)


def mac(alg, out, hkey, key, msg):
    block = 128 if alg == 2 else 64
    k = new(alg, out, hkey, key).digest() if len(key) > block else key
    k = k.ljust(block, b"\0")
    inner = new(alg, out, hkey, bytes(x ^ 0x36 for x in k) + msg).digest()
    r = new(alg, out, hkey, bytes(x ^ 0x5c for x in k) + inner).digest()
    if alg < 2:
        assert r == hmac.new(key, msg, ("md5", "sha1")[alg]).digest()
    return r


def hkdf(alg, out, hkey, salt, ikm, n, info):
    prk = mac(alg, out, hkey, salt, ikm)
    t, okm, i = b"", b"", 0
    while len(okm) < n:
        i += 1
        t = mac(alg, out, hkey, prk, t + info + bytes([i]))
        okm += t
    return okm[:n]


def main():
    os.makedirs(os.path.dirname(BIN), exist_ok=True)
    subprocess.run(["rustc", "-O", "--edition", "2021", "-A", "warnings", "-o", BIN, os.path.join(HERE, "harness", "spec_check.rs")], check=True)
    r = random.Random(1)
    lines, want = [], []
    full = (16, 20, 64, 32)
    for alg in range(4):
        b = 128 if alg == 2 else 64
        lens = list(range(0, 3 * b + 2)) + [r.randrange(4000) for _ in range(20)]
        for n in lens:
            out = full[alg] if alg < 2 or n % 3 else r.randrange(1, full[alg] + 1)
            key = b"" if alg < 2 or n % 2 else r.randbytes(r.randrange(full[alg] + 1))
            m = r.randbytes(n)
            lines.append("digest,%d,%d,%s,%s" % (alg, out, key.hex(), m.hex()))
            want.append(new(alg, out, key, m).digest())
        for n in range(0, 3 * b, 3):
            k, m = r.randbytes(n), r.randbytes(r.randrange(200))
            hk = b"" if alg < 2 or n % 2 else r.randbytes(5)
            lines.append("hmac,%d,%d,%s,%s,%s" % (alg, full[alg], hk.hex(), k.hex(), m.hex()))
            want.append(mac(alg, full[alg], hk, k, m))
        for n in (0, 1, full[alg], full[alg] + 1, 5 * full[alg], 255 * full[alg]):
            s, i, f = (r.randbytes(r.randrange(2 * b)) for _ in range(3))
            lines.append("hkdf,%d,%d,,%s,%s,%d,%s" % (alg, full[alg], s.hex(), i.hex(), n, f.hex()))
            want.append(hkdf(alg, full[alg], b"", s, i, n, f))
    got = subprocess.run([BIN], input="\n".join(lines), text=True, stdout=subprocess.PIPE, check=True).stdout.split("\n")
    for l, g, w in zip(lines, got, want):
        if g != w.hex():
            print("spec_check: the specification is wrong for", l)
            return 1
    print("spec_check: %d values agree with hashlib" % len(want))
    return 0


if __name__ == "__main__":
    sys.exit(main())
