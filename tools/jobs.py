"""What each check runs: jobs of the symbolic executor, their bounds and assumptions."""


class J:
    """one harness entry with its parameters (bounds)"""

    def __init__(self, crate, entry, *p, time=400, cost=1, alt=(), optional=False, certificate=False, validate=True, may_be_empty=False, **opts):
        self.crate, self.entry, self.p = crate, entry, [int(x) for x in p]
        self.time, self.cost, self.alt = time, cost, list(alt)
        self.optional, self.certificate, self.validate, self.may_be_empty = optional, certificate, validate, may_be_empty
        self.confirm = None
        self.opts = opts

    def __str__(self):
        return "%s(%s)" % (self.entry, ",".join(map(str, self.p)))


PROPS = {}
COMMON = [
    "rustc's translation to LLVM IR (opt-level 1, overflow checks on) and the executor's IR semantics; cross-checked by replaying the models of explored paths natively and comparing observations",
    "z3's unsat answers and the executor's term rewriting (see `jsym selftest`)",
]


def prop(pid, quick, thorough, bounds, outside, assumptions=()):
    PROPS[pid] = dict(quick=quick, thorough=thorough, bounds=bounds, outside=outside, assumptions=COMMON + list(assumptions))


# ------------------------------------------------------------------ hashes
def H(e, *p, **k):
    return J("h_hash", e, *p, **k)


MD5, SHA1, B2B, B2S = 0, 1, 2, 3
SPEC = ["the harness's own transcription of the standard (checked against Python's hashlib by tools/spec_check.py)"]

# lengths around powers of two, for counts and lengths that are kept in too few bits
LONG = (8192, 16400, 32768, 65535, 65536, 65537, 70000, 131073, 140000, 300000)
VERY = (262144, 524289, 1048576, 2100000)
FIXED = 1000000  # no free byte
for pid, alg, name in (("C01", MD5, "MD5"), ("C02", SHA1, "SHA-1")):
    near = sorted(set(range(0, 131)) | {183, 184, 191, 192, 193, 247, 248, 255, 256, 257, 320})
    prop(pid,
         [H("h_digest", alg, n, cost=1 + n // 64) for n in near + [512, 1000, 2048, 4151]] + [H("h_digest", alg, n, 0, 0, 100, cost=n // 60000) for n in LONG],
         [H("h_digest", alg, n, cost=1 + n // 64) for n in range(0, 1025) if n not in near] + [H("h_digest", alg, n, cost=100) for n in (4096, 4152)] + [H("h_digest", alg, n, 0, 0, 100, cost=n // 60000) for n in VERY],
         "all contents of every message of 0..130 bytes and of selected lengths up to 4151 bytes; messages of 8192 to 300000 bytes whose last 100 bytes are symbolic (thorough: every length to 1024 and selected ones to 4152, fixed but for 100 bytes to 2100000)",
         "longer messages (each further block repeats the same code; C06 covers the length encoding at every magnitude)", SPEC)

q3 = [H("h_digest", B2B, n, 0, k) for n in (0, 1, 127, 128, 129, 255, 256, 257, 300, 384, 385) for k in (0, 1, 63, 64)]
q3 += [H("h_digest", B2B, n, 0, 0) for n in range(2, 270) if n not in (127, 128, 129, 255, 256, 257)]
q3 += [H("h_digest", B2B, n, o, k) for o in range(1, 65) for n, k in ((3, 0), (130, 7))]
q3 += [H("h_digest", B2B, 5, 0, k) for k in range(2, 63)]
q3 += [H("h_digest", B2B, n, 0, k) for n in (512, 1000, 1024, 4096, 4300, 20000) for k in (0, 11)]
q3.append(H("h_digest", B2B, 66000, 0, 0, cost=300))
q3 += [H("h_digest", B2B, n, 0, k, 100, cost=n // 60000) for n in LONG for k in ((0, 11) if n < 70000 else (0,))]
t3 = [H("h_digest", B2B, n, 0, 0, 100, cost=n // 60000) for n in VERY] + [H("h_digest", B2B, n, o, k) for n in (0, 128, 256, 1000) for k in range(0, 65, 3) for o in range(1, 65, 3)]
t3 += [H("h_digest", B2B, n, 0, k) for n in range(270, 1100, 1) for k in (0, 64)]
prop("C03", q3, t3,
     "all contents of messages of 0..270 bytes unkeyed and of boundary lengths to 385 keyed, selected lengths to 20000 (66000 unkeyed) and to 300000 with the last 100 bytes symbolic, every key length 0..64 and every output length 1..64 at selected message lengths (thorough: lengths to 1099, the product of key and output lengths in steps of 3)",
     "longer messages; keys over 64 bytes and output lengths outside 1..64 (RFC 7693 defines none)", SPEC)
q4 = [H("h_digest", B2S, n, 0, k) for n in (0, 1, 63, 64, 65, 127, 128, 129, 150, 192, 193) for k in (0, 1, 31, 32)]
q4 += [H("h_digest", B2S, n, 0, 0) for n in range(2, 200) if n not in (63, 64, 65, 127, 128, 129, 150, 192, 193)]
q4 += [H("h_digest", B2S, n, o, k) for o in range(1, 33) for n, k in ((3, 0), (66, 7))]
q4 += [H("h_digest", B2S, 5, 0, k) for k in range(2, 31)]
q4 += [H("h_digest", B2S, n, 0, k) for n in (256, 512, 1000, 4096, 4300, 20000) for k in (0, 11)]
q4.append(H("h_digest", B2S, 66000, 0, 0, cost=300))
q4 += [H("h_digest", B2S, n, 0, k, 100, cost=n // 60000) for n in LONG for k in ((0, 11) if n < 70000 else (0,))]
t4 = [H("h_digest", B2S, n, 0, 0, 100, cost=n // 60000) for n in VERY] + [H("h_digest", B2S, n, o, k) for n in (0, 64, 128, 500) for k in range(0, 33, 2) for o in range(1, 33, 2)]
t4 += [H("h_digest", B2S, n, 0, k) for n in range(200, 700) for k in (0, 32)]
prop("C04", q4, t4,
     "all contents of messages of 0..199 bytes unkeyed and of boundary lengths to 193 keyed, selected lengths to 20000 (66000 unkeyed) and to 300000 with the last 100 bytes symbolic, every key length 0..32 and every output length 1..32 at selected message lengths (thorough: lengths to 699, the product of key and output lengths in steps of 2)",
     "longer messages; keys over 32 bytes and output lengths outside 1..32 (RFC 7693 defines none)", SPEC)

q5, t5 = [], []
for alg, b in ((MD5, 64), (SHA1, 64), (B2B, 128), (B2S, 64)):
    keys = (0,) if alg in (MD5, SHA1) else (0, 5)
    for k in keys:
        # one cut anywhere
        for n in (0, 1, b - 1, b, b + 1, 2 * b - 9, 2 * b, 2 * b + 1, 3 * b):
            q5.append(H("h_stream", alg, n, k, 1, 0, n, cost=n // 16))
        # two cuts around the block boundaries
        for lo, hi in (((0, 3), (b - 2, b + 2)), ((b - 2, b + 1), (b - 1, b + 2)), ((b - 1, b + 1), (2 * b - 2, 2 * b + 1)), ((5, 9), (2 * b - 1, 2 * b + 1)), ((1, 2), (b + 1, 2 * b - 1))):
            q5.append(H("h_stream", alg, 2 * b + 2, k, 2, *lo, *hi, cost=20))
        # four cuts, small pieces and whole blocks
        q5.append(H("h_stream", alg, 3 * b + 1, k, 4, 1, 2, b - 1, b + 1, b, b + 1, 2 * b - 1, 2 * b, cost=30))
        q5.append(H("h_stream", alg, 2 * b, k, 5, 0, 0, 0, 1, b - 1, b, b, b, 2 * b - 1, 2 * b, cost=30))
        # many pieces: bytes, odd lengths, whole blocks
        for steps in ((1, b + 1), (1, 2 * b + 1), (7, 30), (b - 1, 5), (b + 1, 5), (b, 6, 1, 3), (3, 1, b, 3, 2, 1, 2 * b, 2, 0, 1, 5, 1), (1000, 3), (300, 1, 1, 1, 2 * b, 1), (3 * b + 5, 2), (2 * b, 3)):
            q5.append(H("h_steps", alg, k, *steps, cost=sum(steps[i] * steps[i + 1] for i in range(0, len(steps), 2)) // 16))
        for x in ((2 * b + 3, 9, b + 5, 20), (b, b, b, b), (3 * b, b + 1, 5, 5), (b - 1, 1, 2 * b, b)):
            q5.append(H("h_two", alg, k, *x, cost=30))
        for steps in ((1000, 70), (70000, 1, 40, 1, 1, 1), (30, 1, 66000, 1, 100, 1), (65536, 2, 5, 1), (b, 1030, 3, 1), (1, 5000), (65535, 1, 1, 1, 20, 1)):
            q5.append(H("h_long", alg, k, 90, *steps, cost=3))
    for k in keys:
        for n in range(0, 4 * b + 2):
            t5.append(H("h_stream", alg, n, k, 1, 0, n, cost=n // 16))
        for m in range(0, 2 * b, 8):
            t5.append(H("h_stream", alg, 2 * b + 3, k, 2, m, m + 7, 0, 2 * b + 3, cost=100, time=3000))
        t5.append(H("h_stream", alg, 3 * b + 1, k, 3, 0, 5, b - 4, b + 4, 2 * b - 4, 2 * b + 4, cost=100, time=3000))
        t5.append(H("h_stream", alg, b + 1, k, b + 1, *sum([[i, i] for i in range(1, b + 2)], []), cost=10))
prop("C05", q5, t5,
     "all contents and one cut at every position for lengths around 0..3 blocks; two, four and five cuts at positions around block boundaries, empty pieces included; byte-wise feeding to two blocks and pieces of fixed lengths, up to 3000 bytes, and up to 140000 bytes with the last 90 symbolic; two states fed in turn (thorough: one cut at every position for every length to 4 blocks, two cuts at every pair of positions for one length)",
     "other divisions into many pieces; longer messages")

q6 = []
for alg, b in ((MD5, 64), (SHA1, 64), (B2B, 128), (B2S, 64)):
    keys = (0,) if alg in (MD5, SHA1) else (0, 9)
    for k in keys:
        for t, e in ((0, 0), (1, 0), (b - 9, 0), (b - 8, 5), (b - 1, 0), (b, 0), (b, b - 1), (b + 1, 3), (2 * b - 9, 0), (2 * b, b), (2 * b + 5, b + 1)):
            q6.append(H("h_length", alg, t, e, k, cost=2))
t6 = [H("h_length", alg, t, e, k, cost=4) for alg, b in ((MD5, 64), (SHA1, 64), (B2B, 128), (B2S, 64)) for t in range(0, 4 * b, 5) for e in sorted({0, t // 2, t}) for k in ((0,) if alg < 2 else (0, 3, 32))]
prop("C06", q6, t6,
     "the number of blocks already consumed is symbolic over the algorithm's whole range (2^55 blocks for MD5/SHA-1, 2^58 for BLAKE2s, 2^121 for BLAKE2b), with tails of 0..2 blocks fed in two pieces; all tail contents",
     "the state's counter is located by observation and then set; a state without such a counter word is only checked by C01-C05 (the run notes it)", SPEC)

q7 = [H("h_hmac", a, k, m, cost=4 if a < 2 else 1) for a, b in ((MD5, 64), (SHA1, 64), (B2B, 128), (B2S, 64)) for k in (0, 1, b // 4, b - 1, b, b + 1, b + b // 4, 2 * b) for m in (0, 3, b - 8)]
q7 += [H("h_hmac", a, k, 5, o, hk) for a, b in ((B2B, 128), (B2S, 64)) for k in (3, b, b + 1) for o, hk in ((1, 0), (20, 7), (0, 9))]
q7 += [H("h_hmac", a, k, m, cost=20 if a < 2 else 1) for a, b in ((MD5, 64), (SHA1, 64), (B2B, 128), (B2S, 64)) for k, m in ((5, 1000), (1000, 5), (b, 300), (5 * b + 1, 2 * b))]
q7 += [H("h_hmac", a, *x, cost=4) for a in (MD5, SHA1, B2B, B2S) for x in ((20, 70000, 0, 0, FIXED, 70), (70000, 5, 0, 0, 30, 0), (65536 + 40, 65536, 0, 0, FIXED, 20), (300, 66000, 0, 0, FIXED, 130))]
t7 = [H("h_hmac", a, k, m, cost=4) for a, b in ((MD5, 64), (SHA1, 64), (B2B, 128), (B2S, 64)) for k in range(0, 3 * b, 3) for m in (0, 1, 70, 200)]
prop("C07", q7, t7,
     "all contents of keys of 0..2 blocks (eight lengths around the block size) and messages of 0, 3 and one block less 8 bytes, selected keys and messages to 1000 bytes and to 70000 bytes with a symbolic end, for all four hashes and for BLAKE2 with short outputs and keyed contexts (thorough: every third key length to 3 blocks, messages to 200 bytes)",
     "longer keys and messages", SPEC)

q8 = []
for a, b, h in ((MD5, 64, 16), (SHA1, 64, 20), (B2B, 128, 64), (B2S, 64, 32)):
    for L in (0, 1, h - 1, h, h + 1, 2 * h, 2 * h + 3, 3 * h):
        q8.append(H("h_hkdf", a, 4, 5, L, 3, cost=6 if a < 2 else 1))
    q8 += [H("h_hkdf", a, s, m, h + 2, i, cost=6 if a < 2 else 1) for s, m, i in ((0, 0, 0), (0, 7, 0), (b, 1, 10), (b + 1, 3, 0), (3, b + 3, 2), (1, 1, b))]
    q8.append(H("h_hkdf", a, 0, 0, 255 * h if a != B2B else 130 * h, 0, cost=20))
    q8 += [H("h_hkdf", a, *x, cost=8) for x in ((70000, 7, h, 3, 0, 10, 0, 0), (5, 70000, h + 3, 3, 0, FIXED, 40, FIXED), (5, 9, h, 70000, 0, FIXED, FIXED, 40))]
    q8 += [H("h_hkdf", a, s, m, L, i, cost=30 if a < 2 else 1) for s, m, L, i in ((300, 5, h, 3), (3, 500, h + 1, 300), (2, 3, 9 * h + 1, 1))]
for a, h in ((B2B, 64), (B2S, 32)):
    q8 += [H("h_hkdf", a, 3, 3, 30, 2, o) for o in (1, 7, 16, h - 1)]
t8 = [H("h_hkdf", a, s, 9, L, i, cost=6) for a, b, h in ((MD5, 64, 16), (SHA1, 64, 20), (B2B, 128, 64), (B2S, 64, 32)) for s in (0, 5, b + 1) for i in (0, 4, b + 1) for L in range(0, 5 * h, 3)]
t8 += [H("h_hkdf", B2B, 0, 3, 255 * 64, 0, cost=100), H("h_hkdf", MD5, 0, 3, 600, 0, cost=50)]
prop("C08", q8, t8,
     "all contents of salts, key material and info strings of selected lengths around 0 and the block size, output lengths 0..3 hash outputs, and selected ones to 500 bytes and 10 outputs, single inputs to 70000 bytes with a symbolic end (thorough: 0..5 in steps of 3 bytes), and the maximum of 255 outputs for empty (hence concrete) inputs",
     "requests over 255 hash outputs (RFC 5869 defines none); longer inputs", SPEC)

prop("C34",
     [H("h_sizes", a, n, 0) for a in (MD5, SHA1) for n in (0, 1, 63, 64, 65, 200)]
     + [H("h_sizes", a, n, k, 1, m, cost=3) for a, m, b in ((B2B, 64, 128), (B2S, 32, 64)) for n in (0, 3, b, b + 1) for k in (0, 1, m // 2, m)],
     [H("h_sizes", a, n, k, 1, m, cost=3) for a, m, b in ((B2B, 64, 128), (B2S, 32, 64)) for n in range(0, 3 * b, 7) for k in range(0, m + 1, 3)] + [H("h_sizes", a, n, 0) for a in (MD5, SHA1) for n in range(0, 300)],
     "every output length of BLAKE2b (1..64) and BLAKE2s (1..32) as a symbolic parameter, keys of four lengths, all contents of messages of selected lengths around the block size, both ways of hashing",
     "longer messages; contexts RFC 7693 does not define", SPEC)

# ------------------------------------------------------------------ fields


def M(e, *p, **k):
    return J("h_math", e, *p, **k)


(M2, M3, M5, M13, M17, M19, M31, M61, M89, M107, M127, I1, I2, I3, F2, F5, F11, F13, F251, F257, F65537, B32, A32, B64, A64, B96) = range(26)
q9 = [M("m_add", f, 0, cost=c) for f, c in ((M2, 1), (M3, 1), (M5, 1), (M13, 1), (M17, 1), (M19, 1), (M31, 2), (M61, 17), (F2, 1), (F5, 1), (F251, 1), (F65537, 1), (B32, 2), (A32, 2), (B64, 21), (A64, 22))]
q9 += [M("m_add", f, 3) for f in (M89, M107, M127, B96)] + [M("m_add", M89, 1, cost=25)]
q9 += [M("m_mul", f, 0, s, cost=5) for f in (M2, M3, M5, F2, F5, F11, F13, F251, F257) for s in (0, 1)]
q9 += [M("m_mul", M13, 4, 0, cost=16), M("m_mul", M31, 2, 0, cost=10), M("m_mul", M61, 2, 1, cost=20), M("m_mul", A32, 2, 0, cost=2), M("m_mul", B32, 2, 1, cost=20)]
q9 += [M("m_rot", f, n, k, s, cost=1) for f, n in ((M5, 5), (M13, 13), (M17, 17), (M19, 19), (M31, 31)) for k in (1, n // 2, n - 1) for s in (0, 1)]
q9 += [M("m_rot", f, n, k, s, cost=2) for f, n in ((M61, 61), (M89, 89), (M107, 107), (M127, 127)) for k, s in ((1, 0), (3, 1))]
q9 += [M("m_seq", M2, 6, 1, cost=8), M("m_seq", M3, 3, 1), M("m_seq", M5, 3, 1, cost=4), M("m_seq", M31, 2, 0), M("m_seq", F2, 5, 1), M("m_seq", M3, 0, 1), M("m_seq", M5, 1, 1), M("m_seq", M61, 2, 0, cost=10)]
t9 = [M("m_add", f, o, cost=100, time=2000, quick=300) for f in (M89, M107, M127, B96) for o in (1, 2)]
t9 += [M("m_mul", M127, 2, 0, cost=100, time=2000), M("m_mul", M31, 3, 0, cost=20), M("m_mul", B32, 3, 0, cost=50), M("m_mul", F65537, 4, 0, cost=50), M("m_mul", A64, 2, 0, cost=50, time=2000), M("m_mul", B64, 2, 1, cost=50, time=2000), M("m_mul", M89, 2, 1, cost=100, time=2000)]
t9 += [M("m_rot", f, n, k, s, cost=3) for f, n in ((M5, 5), (M13, 13), (M17, 17), (M19, 19), (M31, 31)) for k in range(n) for s in (0, 1)]
t9 += [M("m_rot", f, n, k, s, cost=10) for f, n in ((M61, 61), (M89, 89), (M107, 107), (M127, 127)) for k in range(9) for s in (0, 1)]
t9 += [M("m_seq", M2, 7, 1, cost=20), M("m_seq", M3, 5, 1, cost=40, time=2000), M("m_seq", M31, 3, 0, cost=5), M("m_seq", M61, 3, 0, cost=40, time=2000, optional=True)]
prop("C09", q9, t9,
     "every pair of members: +, -, ==, is_zero, is_one, zero, one for 2, 3, 5, 7, 31, 251, 2^13-1 .. 2^61-1, 65537 and primes next to 2^32 and 2^64 (+ also 2^89-1, == to 2^127-1); * for every pair below 258 and, above, for every member times 2^k (Mersenne) and times factors of 2..4 bits; sums and products of up to 6 members of small fields",
     "products of two full-size members of primes above 257 (bit-vector multiplication and division of that width are beyond the solver); + - for the IETF groups (the same monomorphised code over longer digit vectors; C13 exercises it)",
     ["num-bigint is executed as is, not modelled"])
SMALL = (M2, M3, M5, F2, F5, F11, F13)
q35 = [M("m_key", f, w, cost=1) for f in range(26) if f not in (I1, I2, I3) for w in (0, 5)]
q35 += [M("m_key", f, w, cost=c) for f, c in ((M2, 1), (M3, 1), (M5, 1), (M13, 1), (M31, 1), (F2, 1), (F5, 1), (F11, 1), (F251, 1), (F257, 1), (F65537, 1), (B32, 1), (A32, 1), (M61, 15), (B64, 18), (A64, 15)) for w in (1, 2)]
q35 += [M("m_key", f, 3, cost=c) for f, c in ((M2, 1), (M3, 1), (M5, 1), (M13, 2), (M31, 5), (F2, 1), (F5, 1), (F11, 1), (F251, 1), (F257, 1), (F65537, 3), (B32, 10))]
q35 += [M("m_key", f, 4, n, cost=c) for f, n, c in ((F2, 1, 1), (M61, 8, 20), (M107, 20, 1), (M127, 16, 1), (M127, 40, 1))]
q35 += [M("m_key", f, 6, cost=c) for f, c in ((M2, 12), (F2, 1))]
prop("C35", q35,
     [M("m_key", f, w, cost=50, time=2000) for f in (M89, M107, M127, B96) for w in (1, 2)] + [M("m_key", f, 3, cost=50, time=2000) for f in (A32, M61, B64, A64)] + [M("m_key", F251, 6, cost=50, time=2000), M("m_key", F251, 4, 1, cost=50, time=2000)],
     "order: every pair of members of 23 fields up to 2^127-1; hashing: every sum and difference of two members of 16 fields up to 2^64, products with 0..3 in 12, copies and conversions of every member of 23, byte strings (with trailing zeros) and 64-bit integers in 4, compared with the member made from the residue",
     "the IETF groups; results of longer computations (each returns such a member); hashers that look at more than what is written to them", ["num-bigint is executed as is, not modelled"])
q10 = [M("m_inv", f, cost=c) for f, c in ((M2, 1), (M3, 1), (M5, 18), (F2, 1), (F5, 1), (F11, 5), (F13, 7))]
# (an implementation by exponentiation is only decided value by value)
q10 += [M("m_inv", f, lo, n, cost=c, time=80, alt=[M("m_inv", f, lo, n, 1)]) for f, lo, n, c in ((F251, 1, 15, 9), (F251, 236, 15, 14), (M13, 1, 7, 1), (M31, 1, 3, 1), (M61, 1, 3, 1))]
q10 += [M("m_inv", f, 1, 40, d, cost=2) for f in (F251, F257, F65537, M13, M17, M19, M31, A32, B32, M61, A64, B64, M89, B96, M107, M127) for d in (1, 3)]
q10 += [M("m_egcd", f, cost=c) for f, c in ((M2, 1), (M3, 3), (F5, 1), (F11, 12), (F13, 24))]
q10 += [M("m_divrem", f, b, cost=c) for f, b, c in ((M2, 0, 1), (M3, 0, 1), (M5, 0, 1), (F13, 0, 1), (F251, 0, 8), (M13, 3, 6))]
q10 += [M("m_pow", f, e, b, cost=c) for f, e, b, c in ((M2, 0, 0, 1), (M3, 0, 0, 1), (F2, 0, 0, 1), (F5, 0, 0, 1), (F11, 0, 0, 7), (F13, 0, 0, 13), (M61, 8, 8, 2), (M127, 4, 4, 1))]
q10 += [M("m_modpow", f, *a, cost=c) for f, a, c in ((M2, (0, 0, 0), 1), (F5, (0, 0, 0), 10), (M3, (0, 0, 0), 26), (M61, (4, 4, 4), 7))]
t10 = [M("m_inv", F251, lo, 25, cost=20, time=2000) for lo in range(1, 250 - 24, 25)] + [M("m_egcd", M5, cost=200, time=4000, optional=True), M("m_pow", M5, cost=200, time=4000, optional=True), M("m_modpow", F13, 4, 4, 8, cost=30), M("m_modpow", M5, 4, 0, 16, cost=200, time=4000, optional=True), M("m_divrem", M61, 2, cost=70, time=2000)]
prop("C10", q10, t10,
     "every member (pair, triple) of the fields of 2, 3, 5, 7, 11, 13 (inverse also 31, and the 40 smallest and largest members of 16 larger fields up to 2^127-1, value by value; quotient and remainder also 31, 251); bounded operands in the fields of 251, 2^13-1, 2^31-1, 2^61-1, 2^127-1",
     "full-size operands in large fields (non-linear reasoning of that width is beyond the solver); 0^0 and modulus 1 are conventions", ["num-bigint's modular exponentiation is executed as is"])
q11 = [M("m_bytes", f, n, le) for f, ns in ((M2, (0, 1, 2, 5)), (M3, (1, 2, 3)), (F2, (1, 2)), (M13, (1, 2, 3)), (F251, (1, 2)), (F257, (2, 3)), (M31, (3, 4, 5, 9)), (A32, (4, 5, 6)), (B32, (4, 5, 9)), (M61, (7, 8, 9)), (B64, (8, 9, 12)), (A64, (8, 9, 10)), (M89, (11, 12, 13)), (M127, (15, 16, 17))) for n in ns for le in (0, 1)]
q11 += [M("m_round", f) for f in (M2, M3, M13, F2, F251, F257, M31, B32, A32, M61, B64, A64, B96, M127)]
q11 += [M("m_int", f, k, cost=c) for f, k, c in ((M2, 0, 9), (M2, 1, 9), (M2, 3, 1), (M3, 3, 1), (F2, 0, 1), (F2, 1, 1), (F5, 2, 7), (F11, 3, 1), (F13, 3, 1), (M61, 0, 3), (M61, 1, 3), (B64, 0, 1), (B64, 1, 1), (B64, 2, 1), (A64, 0, 1), (A64, 1, 1), (M127, 0, 1), (M127, 1, 1), (M127, 2, 1), (M127, 3, 1), (M127, 4, 1), (M89, 0, 1), (B96, 3, 1))]
q11 += [M("m_wide", f, k) for f in (M2, M31, M61, M127, I1, I2, I3, A64) for k in (0, 1, 3, 1 << 40)]
q11 += [M("m_text", f, n, r, cost=c) for f, n, r, c in ((M3, 3, 16, 2), (M3, 3, 10, 2), (M13, 3, 2, 1), (M13, 3, 10, 15), (M5, 2, 36, 3), (F2, 2, 3, 1), (M127, 2, 10, 3))]
t11 = [M("m_int", M3, 0, cost=24), M("m_int", M5, 1, cost=40), M("m_text", M127, 3, 10, cost=20), M("m_text", M13, 4, 10, cost=40), M("m_text", M3, 5, 8, cost=40, optional=True)]
t11 += [M("m_bytes", f, n, le) for f in (M2, M3, M5, M13, M17, M19, M31, M61, M89, M107, M127, F2, F251, F257, F65537, B32, A32, B64, A64, B96) for n in range(0, 20) for le in (0, 1)]
prop("C11", q11, t11,
     "all byte strings of up to 17 bytes (lengths around each prime's size), all members for the round trips, all values of i64, u64, usize and i32 for the listed fields, all digit strings of up to 3 digits in bases 2..36, big integers k*p + d for symbolic d",
     "64-bit integers modulo mid-size primes such as 8191 (division beyond the solver); longer digit strings; byte strings of the IETF groups")
q12 = [M("m_rnd", f, n) for f, n in ((M2, 16), (M3, 16), (M5, 16), (F2, 16), (F5, 16), (F251, 16), (F257, 16), (M31, 16), (B32, 16), (A32, 16), (M61, 24), (A64, 36), (B64, 24), (M89, 24), (M127, 32), (I1, 130))]
U = dict(certificate=True, optional=True)


def uniform(f, k):
    """windows of k bits at both ends of the generator's word; one certificate suffices"""
    first = M("m_uniform", f, 32 - k, k, **U)
    first.alt = [M("m_uniform", f, p, w, **U) for p, w in ((0, k), (0, 8), (24, 8), (32 - k - 1, k + 1))]
    first.confirm = "m_chi"
    return first


q12 += [uniform(M2, 2), uniform(M3, 3), uniform(M5, 5), uniform(F2, 2), uniform(F5, 3), uniform(F11, 4), uniform(F13, 4)]
t12 = [M("m_rnd", f, n, cost=5) for f, n in ((M2, 64), (M13, 32), (M107, 40), (I2, 300), (I3, 300))]
prop("C12", q12, t12,
     "all outputs of a generator that delivers up to 36 arbitrary bytes (130 for the 1024-bit group) before it settles on zeros; uniformity for the fields of 2, 3, 5, 7, 11, 13, 31 over every value of a window of the generator's first word, for all values of its other bits",
     "generators that never deliver an acceptable value; the uniformity count for larger primes")
prop("C13",
     [M("m_mersenne", f) for f in range(11)] + [M("m_ietf", f) for f in (I1, I2, I3)], [],
     "the primes are compared in full; the arithmetic modulo them for every 32-bit operand next to the modulus",
     "primality of the IETF moduli is RFC 5114's claim (the harness checks q | p - 1; DESIGN.md reports a Fermat and subgroup test)")
q14 = [M("e_dh", M2, 4, 0, cost=2), M("e_dh", F5, 4, 0, cost=22), M("e_dh", M3, 4, 4, cost=32), M("e_secret", M3), M("e_secret", F5), M("e_secret", F11, cost=7), M("e_secret", F13, cost=13), M("e_secret", M61, 8, 8, cost=2), M("e_secret", M127, 4, 4)]
t14 = [M("e_dh", M3, 4, 0, cost=100, time=2000), M("e_dh", F11, 4, 3, cost=300, time=4000, optional=True), M("e_secret", M5, cost=300, time=4000, optional=True)]
prop("C14", q14, t14,
     "all generators and all outputs of the random number generator (one word per party) for the fields of 3 and 5, generators below 4 in the field of 7; the shared secret of all keys for 5, 7, 11, 13 and of bounded keys for 2^61-1 and 2^127-1",
     "large groups with full-size exponents (modular exponentiation of that width is beyond the solver; the code is the same generic instance)")
q15 = [M("e_rsa", M13, 15, 4, 1, 8, cost=21), M("e_rsa", M5, 10, 4, 1, 8, cost=4), M("e_rsa", M13, 15, 4, 2, 8, cost=27), M("e_rsa", F13, 6, 2, 1, 0, cost=6), M("e_rsa", M5, 21, 6, 1, 6, cost=13), M("e_rsa", A32, 15, 4, 3, 4, cost=5), M("e_rsa", F251, 33, 10, 1, 4, cost=10)]
q15 += [M("e_rsa", F65537, 2730, 12, 2, 8, 2714, 16, cost=20), M("e_rsa", M61, 2730, 12, 2, 8, 248, 16, cost=35), M("e_rsa", A32, 2730, 12, 4, 8, 1000, 16, cost=50), M("e_rsa", M13, 2730, 12, 2, 6, 2700, 30, cost=43)]
t15 = [M("e_rsa", M13, 2730, 12, 1, 8, cost=100, time=2000), M("e_rsa", F65537, 2730, 12, 1, 8, cost=100, time=2000), M("e_rsa", M127, (1 << 40) + 15, 7, 5, 2, (1 << 40) - 76, 64, cost=70, time=2000), M("e_rsa", M13, 273, 12, 1, 8, cost=270, time=3000), M("e_rsa", F251, 33, 10, 1, 8, cost=50), M("e_rsa", M5, 15, 4, 1, 16, cost=200, time=4000), M("e_rsa", M3, 6, 2, 2, 0, cost=50, time=2000)]
prop("C15", q15, t15,
     "moduli 6, 10, 15, 21, 33 in fields of 5 to 33 bits, all messages of 1 to 3 bytes; modulus 2730 (two-byte ciphers) in fields of 13, 17, 33 and 61 bits, windows of 16 to 30 messages; all exponents below 4 to 16 that match modulo the group order",
     "large moduli (as C14); key generation (C31)")


# ------------------------------------------------------------------ double ratchet
def R(e, *p, **k):
    return J("h_ratchet", e, *p, **k)


def split(e, p, digits, **k):
    """the same exploration, split by its first choices"""
    import itertools
    p = list(p) + [0] * (4 - len(p))
    return [R(e, *p, *d, may_be_empty=True, **k) for d in itertools.product(*[range(x) for x in digits])]


IDEAL = ["ideal components: key derivation and Diffie-Hellman as a free term algebra (no two different derivations collide), a cipher that decrypts under the very key only; private keys of different draws differ",
         "std's HashMap is executed with fixed hash keys (its results do not depend on them)"]
prop("C16",
     [R("r_inorder", 10, cost=30), R("r_turns", 8, 3, cost=20), R("r_turns", 5, 5, cost=8), R("r_turns", 11, 2, cost=8), R("r_turns", 60, 1), R("r_turns", 300, 1, cost=4), R("r_turns", 2, 24), R("r_far", 100, 300, 1, 300, 2, cost=3), R("r_far", 100, 66000, 1, cost=50)],
     split("r_inorder", (13,), (1, 2, 3, 4, 4), time=3000) + [R("r_turns", 10, 3, time=3000), R("r_turns", 13, 2, time=2000)],
     "every interleaving of 10 sends and in-order deliveries of both parties (crossing messages included; thorough: 13), 8 turns with bursts of 1..3, 5 of 1..5, 11 of 1..2 and 300 single-message turns, chains of 300 and of 66000 messages; all message contents of 0 to 4 bytes",
     "longer sessions and messages; real ciphers and hash functions inside the ratchet (their own properties are C01..C08, C14)", IDEAL)
prop("C17",
     [R("r_net", 9, 6, 0, cost=30), R("r_net", 9, 6, 1, cost=30), R("r_net", 10, 5, 2, cost=12), R("r_gap", 4, 6, cost=10), R("r_gap", 7, 3, cost=15), R("r_gap", 10, 2, cost=8), R("r_gap", 2, 25), R("r_far", 0, 2100, cost=20), R("r_far", 0, 300, 3, 300, cost=35), R("r_far", 10, *[3] * 70, cost=5)]
     + split("r_lossy", (5, 2), (2, 1, 2), cost=25),
     [R("r_far", 200, 66000, cost=200), R("r_far", 0, 40, 1100, 3, 1100, cost=200, time=3000), R("r_far", 10, *[20] * 100, cost=20)] + split("r_net", (11, 7, 0), (1, 2, 3, 4), time=3000) + split("r_net", (11, 7, 1), (1, 2, 3, 4), time=3000) + split("r_lossy", (4, 3), (3, 2, 2), time=3000) + split("r_lossy", (6, 2), (2, 2, 2), time=3000),
     "every schedule of 9 sends and deliveries of up to 6 messages with any message in flight next, the rest arriving forwards, in reverse or never; 5 rounds of bursts of 1..2 with every subset lost until the end; bursts with one arrival (any) and the rest after up to 10 turns in reverse; bursts of 300 and of 2100 and 70 bursts of 3, all or only the first or last arriving at once, the rest forwards or in reverse at the end; all message contents of 0 to 4 bytes",
     "longer histories; forged messages; a limit on stored keys (the code has none)", IDEAL)
prop("C18",
     [R("r_replay", 8, 4, 1, 3, cost=16), R("r_replay", 8, 5, 0, 1, cost=17), R("r_replay", 7, 5, 1, 2, cost=6), R("r_gap", 4, 4, 2, cost=5), R("r_gap", 6, 3, 2, cost=10), R("r_gap", 9, 2, 2, cost=5), R("r_far", 2, 1100, cost=12), R("r_far", 12, 300, 3, 300, 2, cost=12), R("r_far", 12, *[3] * 70, cost=5)],
     [R("r_far", 202, 66000, cost=200), R("r_far", 2, 300, 2, 300, time=3000)] + [R("r_replay", 9, 6, m, 2, time=3000) for m in (0, 1)] + [R("r_replay", 10, 4, m, 3, time=3000) for m in (0, 1)] + [R("r_gap", 8, 3, 2, time=3000)],
     "every schedule of up to 8 sends, deliveries in any order, and up to 3 replays of delivered messages or headers with too short a previous chain (every shorter length), then delivery of all the rest and a replay of every message; replays after up to 9 turns and, in sessions with bursts of up to 1100 or with 70 turns, of every message at the end",
     "other forgeries (a header with an invented ratchet key or an absurd message number is not detectable without authentication, which the library leaves to the cipher)", IDEAL)
prop("C19",
     [R("r_net", 9, 6, 0, 1, cost=30), R("r_net", 9, 6, 1, 1, cost=30), R("r_turns", 7, 3, 1, cost=8), R("r_turns", 10, 2, 1, cost=6), R("r_turns", 300, 1, 1, cost=4), R("r_gap", 4, 6, 1, cost=10), R("r_gap", 7, 3, 1, cost=15), R("r_far", 1, 300, 3, 300, cost=35), R("r_far", 11, *[3] * 70, cost=5), R("r_far", 101, 66000, 1, cost=50)]
     + split("r_lossy", (4, 2, 1), (2,), cost=25),
     split("r_net", (11, 7, 0, 1), (1, 2, 3, 4), time=3000) + split("r_lossy", (4, 3, 1), (3, 2, 2), time=3000),
     "schedules as of C16 and C17 (chains of 66000 included) with the keys used for encryption, the headers and the key pair generations compared with the specification",
     "longer histories; collisions of the key derivation functions themselves", IDEAL)


SECRETS = ["the harness's keys are opaque values that are counted while they live; what a state holds is the keys made on its party's behalf and not dropped (public keys and headers are public)",
           "what can be computed is closed under the key derivations and Diffie-Hellman only"]
for pid, mode, what in (("C32", 3, "no state gives the key of a message already sent or read"), ("C33", 4, "no state gives the keys of later turns and of answers to them")):
    prop(pid,
         [R("r_net", 8, 5, 0, mode, cost=18), R("r_net", 8, 5, 1, mode, cost=18), R("r_net", 9, 5, 2, mode, cost=25), R("r_turns", 6, 3, mode, cost=18), R("r_turns", 9, 2, mode, cost=20), R("r_turns", 100, 1, mode, cost=3), R("r_gap", 4, 4, mode, cost=10),
          R("r_gap", 5, 3, mode, cost=8), R("r_gap", 8, 2, mode, cost=14), R("r_lossy", 4, 2, mode, cost=19), R("r_far", mode, 24, 2, 24, cost=10), R("r_far", 10 + mode, *[3] * 18, cost=5)],
         split("r_net", (10, 6, 0, mode), (1, 2, 3, 4), time=3000) + split("r_lossy", (5, 2, mode), (2, 1, 2), time=3000) + [R("r_turns", 8, 3, mode, time=3000), R("r_gap", 7, 3, mode, time=3000), R("r_far", mode, 40, 2, 40, cost=50)],
         "%s, after every step of every schedule of 8 sends and deliveries of up to 5 messages (9 without the rest arriving), 6 turns with bursts of 1..3, 9 of 1..2, 100 single-message turns, lost and late messages in up to 18 turns and in bursts of up to 24" % what,
         "longer sessions; what the caller keeps (messages, the generator); memory that was freed but not overwritten", IDEAL + SECRETS)


# ------------------------------------------------------------------ secret sharing
def S(e, *p, **k):
    return J("h_share", e, *p, **k)


Q, Z = 0, 61  # the unspecified field and that of 2^61 - 1; 5, 7: small fields of the harness; 105, 107, 111: the library's fields of 5, 7, 11
FIELD = ["an unspecified field is represented by the rational numbers: an identity decided over them holds in every prime field in which the constant denominators (differences of share indices, factorials up to the batch size) are not zero, i.e. within the quantifier; branches on field elements are followed when they are possible over the reals",
         "polynomial identities are decided by the executor's canonical form of polynomials over the rationals (backed by `jsym selftest`), everything else by z3"]
NET = ["the harness's network: synchronous rounds, every opening and dealing reaches every party complete and unaltered; deliveries to single parties happen in the chosen order"]
prop("C20",
     [S("s_reconstruct", Q, n, t) for n, t in ((2, 2), (3, 2), (3, 3), (4, 2), (4, 3), (4, 4), (5, 2), (5, 3), (5, 4), (5, 5))]
     + [S("s_reconstruct", Q, 6, 2, cost=3)] + [S("s_reconstruct", Q, n, t, 1) for n, t in ((8, 5), (12, 8), (17, 17), (20, 20), (25, 10), (40, 5), (64, 3))]
     + [S("s_reconstruct", 3, 2, 2), S("s_reconstruct", 5, 3, 2, cost=3), S("s_reconstruct", 5, 4, 2, cost=9), S("s_reconstruct", 105, 2, 2), S("s_reconstruct", 107, 3, 2, 1, cost=4)]
     + [S("s_far", Q, *a) for a in ((2, 32768, 32767, 65536), (3, 1, 256, 65537, 70000), (2, 2**40, 1, 2**63 - 1, 2**32, 2**31), (4, 127, 128, 129, 255, 256, 257), (3, 2**31 - 1, 2**31, 2**31 + 1))]
     + [S("s_far", 105, 2, 70001, 2**32 + 1), S("s_far", 7, 2, 255, 256, 257, 65536)] + [S("s_many", Q, 300, 7), S("s_many", Q, 70000, 2, cost=3)]
     + [S("s_reconstruct", Z, 70, 66, 1, cost=5), S("s_many", Z, 140, 130, cost=45), S("s_reconstruct", Z, 40, 33, 1), S("s_far", Z, 20, *[2 ** (3 * i) + i for i in range(20)])],
     [S("s_reconstruct", Q, 6, t, cost=20, time=2000) for t in (3, 4, 5, 6)] + [S("s_reconstruct", Q, n, t, 1) for n in range(2, 41) for t in range(2, min(n, 20) + 1)]
     + [S("s_reconstruct", 5, 3, 3, cost=50, time=2000, optional=True), S("s_reconstruct", 105, 3, 2, cost=50, time=2000, optional=True), S("s_reconstruct", 111, 3, 2, 1, cost=100, time=3000, optional=True), S("s_far", 107, 3, 255, 256, 257, 258, cost=50), S("s_many", Q, 70000, 4, cost=10), S("s_many", Q, 300000, 2, cost=15), S("s_many", Z, 300, 257, cost=400, time=3000, steps=4 * 10**9, total=4 * 10**9)],
     "every secret and coefficients in any field; every ordered choice of at least t shares up to n = 5 (6 for t = 2), selected n and t up to n = 64 and t = 20 with rotations and reversals of t and n shares; all members of GF(3), GF(5) and, through the library's own field type, GF(5) and GF(7) for 2 to 4 shares; thresholds of 33 to 130 in the field of 2^61 - 1; shares of chosen indices around the powers of two up to 2^63; 300 (t = 7) and 70000 (t = 2) shares as dealt",
     "larger n and t; fewer than t shares, shares of repeated index and t below 2 (the code refuses the last)", FIELD)
prop("C21",
     [S("s_privacy", Q, n, t) for n, t in ((2, 2), (4, 2), (4, 3), (6, 4), (8, 4), (10, 4), (5, 5), (7, 6), (9, 9), (12, 12), (20, 20), (27, 27), (40, 3), (300, 2))]
     + [S("s_privacy", 3, 2, 2), S("s_privacy", 5, 4, 2), S("s_privacy", 5, 4, 3, cost=5), S("s_privacy", 7, 4, 2, cost=3), S("s_rank", Z, 34, 33, cost=16), S("s_rank", Z, 20, 15), S("s_draws", Z, 70, 66, 0, cost=24), S("s_draws", Z, 130, 130, 1, cost=20)],
     [S("s_privacy", Q, n, t, cost=5) for n in range(2, 13) for t in range(2, n + 1)] + [S("s_privacy", 11, 6, 3, cost=100, time=2000, optional=True), S("s_privacy", 7, 4, 4, cost=100, time=2000, optional=True), S("s_rank", Z, 67, 66, cost=200, time=3000, steps=4 * 10**9, total=4 * 10**9), S("s_draws", Z, 260, 257, 1, cost=140, time=3000, steps=4 * 10**9, total=4 * 10**9)],
     "every secret and coefficients in any field, every choice of t - 1 of up to 12 shares: the coefficients are exactly t - 1 fresh draws and the shares determine them, so for every secret there is exactly one polynomial for every observation (for thresholds up to 27; for 33 the rank of the draws in runs of t - 1 neighbouring shares, for 66 that each of six draws alone is in every share, for 130 the number of draws, in the field of 2^61 - 1); also over all members of GF(3), GF(5), GF(7)",
     "the distribution of a single draw (C12); larger n and t", FIELD)
prop("C22",
     [S("s_linear", Q, n, t, k) for n, t, k in ((2, 2, 0), (2, 2, 1), (3, 2, 2), (3, 3, 3), (5, 3, 5), (6, 3, 4), (10, 7, 8), (4, 2, 40))] + [S("s_linear", 3, 2, 2, 1), S("s_linear", 5, 2, 2, 2, cost=9)]
     + [S("s_linear", Z, 40, 33, 3), S("s_linear", Z, 300, 2, 300, cost=9), S("s_linear", Q, 3, 2, 1100), S("s_linear", Q, 70, 2, 70)] + [S("s_mixed", f, o, k) for f in (Q, 7) for o, k in ((0, 2), (1, 2), (2, 1), (2, 2), (2, 3), (2, 5))],
     [S("s_linear", Q, n, t, k) for n in range(2, 13) for t in range(2, n + 1) for k in (1, 2, 3, 7)] + [S("s_mixed", Q, 2, k) for k in (4, 6, 8, 10)],
     "all secrets, polynomials and scalars in any field for up to 10 parties and sums of up to 40 sharings (1100 of 3 parties, 70 of 70; 300 parties, 300 sharings and t = 33 in the field of 2^61 - 1); all 32-bit share indices of up to 5 shares (mixed ones must panic)",
     "more parties", FIELD)
prop("C23",
     [S("s_multiply", Q, n, t, k, how, ch, fi, cost=c) for n, t, k, how, ch, fi, c in (
         (2, 2, 1, 0, 0, 0, 1), (2, 2, 1, 1, 4, 0, 1), (3, 2, 2, 0, 4, 1, 3), (3, 2, 2, 1, 6, 1, 10), (3, 3, 3, 0, 3, 0, 3), (3, 2, 1, 0, 9, 2, 5), (5, 3, 4, 0, 0, 0, 1), (10, 5, 6, 0, 0, 3, 1), (2, 2, 40, 0, 0, 0, 1),
         (2, 2, 12, 1, 0, 1, 1), (4, 2, 0, 0, 0, 0, 1), (2, 2, 2, 0, 6, 0, 20), (3, 2, 2, 0, 103, 0, 4), (3, 2, 2, 1, 206, 0, 4), (2, 2, 4, 0, 102, 0, 10), (3, 2, 300, 0, 0, 0, 5), (3, 2, 1100, 0, 0, 0, 3), (70, 2, 2, 1, 0, 0, 1), (270, 2, 2, 0, 0, 0, 2))] + [S("s_multiply", Z, 30, 20, 2, 0, 0, 0)],
     [S("s_multiply", Q, 2, 2, 2, 0, 8, 0, cost=170, time=2000), S("s_multiply", Q, 2, 2, 2, 0, 108, 1, cost=70, time=2000), S("s_multiply", Q, 2, 2, 4, 0, 104, 0, cost=140, time=2000), S("s_multiply", 3, 2, 2, 1, 0, 0, 0, cost=54, time=2000), S("s_multiply", Q, 3, 2, 3, 0, 5, 1, cost=60, time=3000), S("s_multiply", Q, 3, 2, 3, 1, 8, 1, cost=60, time=3000), S("s_multiply", Q, 4, 3, 2, 0, 5, 2, cost=60, time=3000), S("s_multiply", 5, 2, 2, 1, 0, 0, 0, cost=200, time=3000, optional=True)],
     "all secrets, triples and polynomials in any field, up to 10 parties, batches of up to 40 pairs (270 parties with t = 2; batches of 300 and 1100 of 3 parties); every delivery order of the first 4 to 9 deliveries (2 to 4 parties), or of 3 to 6 after the triples, the rest delivered together",
     "longer free schedules, dishonest parties and wrong triples", FIELD + NET)
prop("C24",
     [S("s_select", Z, 20, 10, 0, 5, 2)] + [S("s_select", Q, *a, cost=c) for *a, c in ((2, 2, 4, 0, 1, 1), (3, 2, 0, 0, 3, 1), (3, 2, 6, 1, 1, 2), (5, 3, 3, 1, 2, 2), (3, 3, 4, 2, 2, 2), (8, 4, 0, 5, 3, 1), (3, 2, 106, 0, 1, 3), (3, 2, 206, 0, 2, 16), (270, 2, 0, 0, 1, 2), (3, 2, 0, 0, 6, 2))],
     [S("s_select", 3, 2, 2, 0, 0, 1, cost=100, time=2000, optional=True), S("s_select", Q, 3, 2, 9, 1, 2, cost=60, time=3000), S("s_select", Q, 4, 3, 6, 0, 2, cost=60, time=3000)],
     "both conditions, all operands, triples and polynomials in any field, up to 8 parties (270 with t = 2), up to 6 selections one after the other, every order of the first 3 to 6 deliveries",
     "longer free schedules; conditions other than 0 and 1 (undefined by the documentation)", FIELD + NET)
prop("C25",
     [S("s_inverse", Q, *a, cost=c) for *a, c in ((2, 2, 1, 0, 6, 0, 2), (2, 2, 2, 1, 4, 1, 2), (3, 2, 1, 2, 0, 0, 1), (3, 2, 3, 0, 2, 1, 1), (3, 2, 2, 2, 3, 0, 3), (5, 3, 3, 0, 0, 1, 1), (3, 3, 40, 0, 0, 1, 1), (7, 4, 5, 2, 0, 0, 1), (2, 2, 0, 0, 0, 0, 1),
                                      (2, 2, 2, 0, 104, 0, 3), (3, 2, 2, 0, 203, 0, 6), (2, 2, 2, 0, 306, 0, 1), (3, 2, 300, 0, 0, 1, 8), (2, 2, 3, 0, 306, 0, 3), (3, 2, 2, 0, 304, 1, 2), (70, 2, 2, 2, 0, 0, 2), (270, 2, 1, 2, 0, 0, 17), (2, 2, 600, 0, 0, 0, 25))] + [S("s_inverse", Z, 20, 10, 2, 0, 0, 0, cost=2)],
     [S("s_inverse", Q, 2, 2, 2, 0, 106, 0, cost=50, time=2000), S("s_inverse", Q, 2, 2, 2, 0, 206, 0, cost=60, time=2000), S("s_inverse", Q, 3, 2, 2, 0, 204, 0, cost=60, time=2000), S("s_inverse", Q, 3, 2, 2, 0, 5, 1, cost=60, time=3000), S("s_inverse", Q, 3, 2, 2, 1, 7, 1, cost=60, time=3000), S("s_inverse", 3, 2, 2, 1, 0, 0, 0, cost=300, time=3000, optional=True)],
     "all non-zero secrets, contributions with non-zero sum, triples and polynomials in any field; batches of up to 40 (600 of 2 parties), single and batch form on the same values; up to 7 parties (270 with t = 2); every order of the first 2 to 6 deliveries, and of 3 to 6 in each later round",
     "the inverse of zero (undefined by the documentation); joint randomness zero (documented to fail)", FIELD + NET)
prop("C26",
     [S("s_or", Q, *a, cost=c) for *a, c in ((2, 2, 0, 0, 1, 0, 2, 1, 2), (3, 2, 0, 0, 2, 1, 0, 1), (3, 2, 0, 0, 4, 2), (2, 2, 4, 0, 2, 3), (3, 2, 2, 0, 2, 3), (5, 3, 0, 1, 3, 1, 2, 10), (2, 2, 0, 0, 3, 2, 2, 10), (3, 3, 0, 1, 1, 3, 5))]
     + [S("s_or", Q, 2, 2, 100 * k + 2, 0, 3, cost=4) for k in range(1, 10)]
     + [S("s_or", Z, 8, 5, 0, 0, 3, cost=4), S("s_or_large", Z, 34, cost=50), S("s_or", Q, 40, 2, 0, 0, 2, cost=5), S("s_or", Q, 70, 2, 0, 0, 1)] + [S("s_or_large", Q, *a, cost=c) for *a, c in ((10, 3), (16, 10), (3, 7, 35), (7, 3, 35), (5, 5, 20))]
     + [S("s_or_fields", *a, cost=c) for *a, c in ((107, 3, Q, 3, 10), (Q, 4, 105, 2, 15), (111, 3, 107, 2, 10), (107, 2, 111, 3, 10))],
     [S("s_or", Q, 3, 2, 100 * k + 3, 0, 2, cost=30, time=2000) for k in range(1, 10)] + [S("s_or", Q, 2, 2, 100 * k + 4, 0, 2, cost=30, time=2000) for k in range(1, 10)] + [S("s_or_fields", 107, 3, Q, 3, 107, 4, cost=90, time=2000), S("s_or_fields", 105, 2, 111, 6, 107, 3, Q, 2, cost=300, time=4000), S("s_or", Q, 3, 2, 0, 0, 3, 3, 2, 0, 1, cost=60, time=2000), S("s_or", Q, 3, 2, 4, 0, 2, cost=60, time=3000), S("s_or_large", Z, 66, cost=400, time=3000, steps=4 * 10**9, total=4 * 10**9), S("s_or_large", Q, 12, 5, cost=100, time=3000)],
     "all bit vectors of up to 5 bits (and, of up to 16, those with no, one, or all later bits set), all randomness with non-zero joint draws, triples and polynomials in any field, up to 5 parties; every order of 2 to 4 deliveries in each of the first ten rounds; sequences of 2 to 4 evaluations of different sizes, also over several fields in one process (there with fixed randomness in the library's own fields)",
     "larger batches; several evaluations in flight at once", FIELD + NET)
prop("C27",
     [S("s_random", Q, *a, cost=c) for *a, c in ((1, 2, 2, 0, 0, 1), (2, 2, 1, 4, 0, 1), (3, 2, 2, 6, 1, 2), (2, 2, 3, 6, 0, 1), (4, 3, 2, 4, 1, 4), (3, 2, 3, 4, 1, 10), (5, 3, 3, 2, 0, 1), (5, 3, 33, 0, 0, 1), (10, 6, 2, 0, 3, 1), (70, 2, 3, 0, 0, 2), (300, 2, 1, 0, 0, 11), (3, 2, 1000, 0, 0, 16))][1:] + [S("s_random", Z, 30, 20, 2, 0, 0, cost=13)] + [S("s_random", 3, 2, 2, 1, 2, 0, cost=20)],
     [S("s_random", 5, 2, 2, 1, 2, 0, cost=60, time=2000, optional=True), S("s_random", Q, 3, 2, 2, 6, 1, cost=60, time=3000), S("s_random", Q, 4, 3, 2, 5, 1, cost=60, time=3000), S("s_random", Q, 20, 10, 2, 0, 1)],
     "all contributions and polynomials in any field, up to 10 parties (300 with t = 2), up to 33 numbers in flight (1000 of 3 parties), every order of the first 2 to 6 deliveries",
     "dishonest dealers; the distribution of a single draw (C12)", FIELD + NET)
prop("C28",
     [S("s_delegate", k) for k in (3, 4, 5, 8, 20)], [S("s_delegate", k) for k in range(3, 64)],
     "all nine delegatable protocols, delegating or implemented under the type's own marker, and two protocol traits declared outside the library (several methods, owned and borrowed arguments, other type parameters); all 64-bit arguments, all generator states, batches of up to 20 values",
     "other shapes of trait declarations (the macro rejects most)", ["the delegate is a recording implementation of the harness; C23 to C27 run the library's own implementations through the delegation"])
prop("C29",
     [S("s_masks", Q, *a, cost=c) for *a, c in ((0, 1, 1), (0, 2, 1), (0, 10, 1), (1, 0, 1), (1, 1, 1), (1, 6, 1), (2, 1, 1), (2, 2, 1), (2, 10, 1), (3, 1, 1), (3, 10, 1), (4, 1, 1), (4, 2, 1), (4, 3, 52), (0, 40, 1), (1, 40, 1), (2, 40, 1), (3, 40, 1), (0, 300, 6), (2, 140, 10))]
     + [S("s_masks", 5, 0, 1, cost=2), S("s_masks", 5, 2, 1, cost=10), S("s_masks", 3, 4, 1, cost=14)],
     [S("s_masks", 5, 4, 1, cost=60, time=2000), S("s_masks", Q, 4, 4, cost=500, time=6000, optional=True), S("s_masks", Q, 2, 300, cost=44), S("s_masks", Q, 0, 520, cost=19)],
     "products of up to 300 pairs, up to 40 selections, batches of up to 140 inverses, disjunctions of up to 3 bits: for all secrets and randomness in any field the openings are as many as the random values and determine them, so the map is a bijection; also over all members of GF(3) and GF(5)",
     "which polynomial carries an opened value (only the opened values are compared, not single shares)", FIELD + ["one party whose share is the value; triples and contributions are uniform (C12, C27)"])

prop("C36",
     [S("s_pattern", Q, *a, cost=c) for *a, c in ((0, 3, 2, 3, 3, 3), (0, 2, 2, 40, 0, 1), (0, 5, 3, 10, 0, 1), (0, 3, 2, 2, 103, 2), (1, 3, 2, 1, 3, 2), (1, 2, 2, 3, 0, 3), (2, 3, 2, 2, 2, 2), (2, 2, 2, 2, 203, 2), (2, 5, 3, 10, 0, 1), (2, 3, 2, 40, 0, 2), (3, 3, 2, 2, 2, 1), (3, 2, 2, 5, 0, 1),
                                      (4, 2, 2, 1, 2, 1), (4, 3, 2, 1, 0, 1), (4, 2, 2, 2, 2, 5), (4, 2, 2, 3, 0, 8), (4, 3, 2, 2, 0, 2), (4, 2, 2, 2, 102, 5), (4, 2, 2, 2, 302, 5), (4, 2, 2, 2, 502, 5), (4, 2, 2, 2, 702, 5), (4, 2, 2, 10, 0, 20), (5, 3, 2, 2, 3, 2), (5, 3, 2, 33, 0, 1))],
     [S("s_pattern", Q, *a, cost=c, time=3000) for *a, c in ((4, 3, 2, 2, 3, 60), (4, 3, 2, 3, 0, 20), (4, 2, 2, 2, 4, 60), (2, 3, 2, 2, 203, 40), (0, 3, 2, 4, 5, 40), (1, 3, 2, 2, 4, 40), (2, 3, 2, 3, 4, 40), (0, 3, 2, 300, 0, 5))] + [S("s_pattern", 5, 0, 2, 2, 1, 0, cost=57, time=2000, optional=True), S("s_pattern", 3, 2, 2, 2, 1, 0, cost=50, time=2000, optional=True)],
     "two runs on unrelated free secrets, triples, draws and polynomials in any field, one with a free schedule of the first 2 to 3 deliveries (or of later ones) and one without: products in batches of up to 40 and one by one, selections, inverses in batches of up to 40 and one by one, disjunctions of up to 10 bits, up to 33 random numbers, 2 to 5 parties",
     "larger batches, longer free schedules; joint randomness zero", FIELD + NET)
prop("C37",
     [S("s_rounds", Q, *a, cost=c) for *a, c in ((0, 2, 2, 1, 2, 1), (0, 3, 2, 1, 10, 1), (0, 3, 2, 1, 100, 1), (0, 2, 2, 1, 600, 5), (0, 5, 3, 2, 33, 1), (2, 2, 2, 1, 2, 1), (2, 3, 2, 1, 10, 1), (2, 3, 2, 1, 100, 1), (2, 2, 2, 1, 300, 8), (2, 5, 3, 2, 33, 1),
                                     (4, 2, 2, 2, 3, 5), (4, 2, 2, 2, 4, 6), (4, 3, 2, 2, 5, 7), (4, 2, 2, 2, 7, 10), (4, 2, 2, 2, 12, 46), (5, 3, 2, 1, 2, 1), (5, 3, 2, 1, 100, 3))],
     [S("s_rounds", Q, 4, 2, 2, 2, 17, cost=150, time=3000), S("s_rounds", Q, 4, 3, 2, 2, 10, cost=60, time=3000), S("s_rounds", Q, 2, 2, 2, 1, 600, cost=40, time=3000), S("s_rounds", Q, 0, 3, 2, 1, 1100, cost=30, time=3000)],
     "products in batches of up to 600, inverses of up to 300, disjunctions of up to 12 bits, up to 100 random numbers, for all secrets (of the bits three are free, the others repeat them), triples, draws and polynomials in any field: a larger batch takes no more rounds than one of one or two",
     "larger batches; networks that deliver openings of one round at different times (C23 to C27 leave the order free)", FIELD + NET)

# Jobs that only enlarge others: whatever else a rewritten implementation costs, the check still
# decides the property within the smaller bounds (the evidence names what stayed undecided).
SMALLER = {("r_inorder", (10,)): (7,), ("r_net", (9, 6)): (7, 5), ("r_net", (10, 5)): (7, 4), ("r_replay", (8, 4)): (6, 3), ("r_replay", (8, 5)): (6, 4), ("r_replay", (7, 5)): (6, 4),
           ("r_turns", (8, 3)): (5, 3), ("s_or_large", (Z, 34)): (Z, 9), ("s_or_large", (Q, 16)): (Q, 7)}
for _pid, _p in PROPS.items():
    for _j in _p["quick"]:
        for (_e, _a), _b in SMALLER.items():
            if _j.entry == _e and tuple(_j.p[:len(_a)]) == _a:
                _j.time = min(_j.time, 250)
                _j.alt = _j.alt or [J(_j.crate, _e, *_b, *_j.p[len(_a):], cost=_j.cost, time=250)]
        if _j.entry in ("r_far", "r_lossy", "s_many", "s_rank", "s_draws", "s_or_large") or (_j.crate == "h_share" and (max(_j.p[1:3] + [0]) >= 20 or (_j.entry in ("s_linear", "s_multiply", "s_inverse", "s_random") and _j.p[3] >= 100))) or (_j.entry == "s_pattern" and _j.p[4] >= 10) or (_j.entry == "s_rounds" and _j.p[5] >= 7) or (_j.entry == "h_digest" and _j.p[1] > 400) or _j.entry == "h_long" or (_j.entry in ("h_hmac", "h_hkdf") and max(_j.p[1:5]) >= 60000):
            _j.time, _j.optional = min(_j.time, 250), True
