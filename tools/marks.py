"""Calls whose true value is a number of the format, for the specification to judge by its landmarks."""
import math, random, struct
import hard
FM = {32: (23, 8), 64: (52, 11)}
def enc(w, s, m, e):
    """s*m*2^e as bits if it is a normal or subnormal number of the format"""
    mb, eb = FM[w]; bias = (1 << (eb - 1)) - 1
    if m == 0: return s << (w - 1)
    while m & 1 == 0: m >>= 1; e += 1
    L = m.bit_length()
    if L > mb + 1 or e + L - 1 > bias or e < 1 - bias - mb: return None
    x = e + L - 1
    if x < 1 - bias: return s << (w - 1) | m << (e - (1 - bias - mb))
    return s << (w - 1) | (x + bias) << mb | ((m << (mb + 1 - L)) & ((1 << mb) - 1))
def intbits(w, n): return enc(w, int(n < 0), abs(n), 0)
def unary(w):
    """every landmark of the functions of one argument"""
    mb, eb = FM[w]; bias = (1 << (eb - 1)) - 1; suf = "f" if w == 32 else ""; out = []
    def put(op, b):
        if b is not None: out.append((op + suf if not op.endswith("_r") else ("lgammaf_r" if w == 32 else "lgamma_r"), (b, 0, 0)))
    for n in range(-bias - mb - 2, bias + 3): put("exp2", intbits(w, n)); put("log2", enc(w, 0, 1, n))
    for n in range(0, 45): put("exp10", intbits(w, n)); put("log10", enc(w, 0, 10 ** n, 0) if n < 45 else None)
    for n in range(1, 16): put("exp10", intbits(w, -n))
    for n in range(1, 45): put("tgamma", intbits(w, n))
    for n in (1, 2): put("lgamma", intbits(w, n)); put("lgamma_r", intbits(w, n))
    for op in ("log", "acosh", "acos"): put(op, intbits(w, 1))
    return out
def power(w, r):
    mb, eb = FM[w]; suf = "f" if w == 32 else ""; p = mb + 1; bias = (1 << (eb - 1)) - 1
    k = r.randrange(8)
    if k == 0:                       # powers of two, results anywhere in range including subnormals
        n = r.choice([r.randint(-64, 64), r.randint(-bias * 2, bias * 2), r.choice([-1, 1, 2, 3])]) or 1
        t = r.choice([r.randint(1 - bias - mb, bias), 1 - bias - mb, bias, 1 - bias, -bias]); e = t // n
        return enc(w, r.randrange(2), 1, e), intbits(w, n)
    if k == 1:                       # y = n/2^j with an exact root
        j = r.randint(1, 3); n = r.choice([1, 3, 5, 7, 9, 11]) if j else 1
        m = r.randrange(1, 1 << max(1, p // (n if n > 1 << j else 1 << j))) | 1
        e = r.randint(-bias // (1 << j) // n, bias // (1 << j) // n) if r.randrange(2) else r.randint(-4, 4)
        if m == 1 and r.randrange(2): n = -n
        return enc(w, 0, m ** (1 << j), e << j), enc(w, int(n < 0), abs(n), -j)
    if k == 2: return enc(w, r.randrange(2), r.randrange(1, 1 << p), r.randint(-bias, bias)), intbits(w, 1)
    n = r.randint(2, max(2, r.choice([3, 5, 12, 34 if w == 64 else 15])))
    m = r.randrange(1, max(2, 1 << (p // n) + r.randrange(2))) | 1
    while (m ** n).bit_length() > p: m = max(1, (m >> 1) | 1)
    lim = bias // n
    e = r.choice([0, 0, r.randint(-3, 3), r.randint(-lim, lim), (bias + 1 - (m ** n).bit_length()) // n, -((bias + mb - 1) // n), -((bias - 1 + (m ** n).bit_length()) // n)])
    return enc(w, r.randrange(2), m, e), intbits(w, n)
def triple(w, r):
    mb, eb = FM[w]; p = mb + 1; bias = (1 << (eb - 1)) - 1
    h = r.randint(2, p // 2)
    u, v = r.getrandbits(h) | 1, r.getrandbits(r.randint(1, h)) | 1
    if u < v: u, v = v, u
    if r.randrange(4) == 0: v = r.randint(1, 3)
    if u == v: u += 1
    x, y = u * u - v * v, 2 * u * v
    k = r.randint(1, 5)
    if max(x * k, y * k, (u * u + v * v) * k).bit_length() <= p: x *= k; y *= k
    e = r.choice([0, r.randint(-20, 20), r.randint(-bias - mb, bias - p), -bias - mb + 1, -bias + 1 - p, bias - p, -bias // 2, bias // 2, -p, -bias // 2 - p])
    a, b = enc(w, r.randrange(2), x, e), enc(w, r.randrange(2), y, e)
    if a is None or b is None: return None, None
    return (a, b) if r.randrange(2) else (b, a)
def calls(npow, nhyp, seed):
    r = random.Random(seed); out = []
    for w in (32, 64):
        out += unary(w)
        for op, gen, n in (("pow", power, npow), ("hypot", triple, nhyp)):
            k = 0
            while k < n:
                a, b = gen(w, r)
                if a is None or b is None: continue
                out.append((op + ("f" if w == 32 else ""), (a, b, 0))); k += 1
    return out
