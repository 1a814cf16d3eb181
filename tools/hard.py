"""Arguments whose reduction modulo pi/2 (and modulo other periods) is hardest: by continued fractions."""
def pi_digits(bits):
    def atan_inv(k):
        t = (1 << bits) // k; s = 0; i = 0
        while t:
            s += t // (2 * i + 1) * (1 if i % 2 == 0 else -1); t //= k * k; i += 1
        return s
    return 16 * atan_inv(5) - 4 * atan_inv(239)
def encode(m, e, mb, eb):
    bias = (1 << (eb - 1)) - 1
    L = m.bit_length()
    if L > mb + 1: return None
    x = e + L - 1
    if x > bias: return None
    if x < 1 - bias: return None
    return ((x + bias) << mb) | ((m << (mb + 1 - L)) & ((1 << mb) - 1))
def near_multiples(mb, eb, per=2):
    """numbers m*2^e, m < 2^(mb+1), closest to a nonzero multiple of pi/2, for every e"""
    B = 2600; pi2 = pi_digits(B) >> 1         # pi/2 * 2^B
    out = set(); bias = (1 << (eb - 1)) - 1
    for e in range(-mb, bias - mb + 1):
        # m * 2^e ~ k * pi/2  <=>  m/k ~ pi2 / 2^(B+e)
        num, den = (pi2, 1 << (B + e)) if B + e >= 0 else (pi2 << -(B + e), 1)
        p0, q0, p1, q1 = 0, 1, 1, 0; found = []
        for _ in range(400):
            if den == 0: break
            a = num // den; num, den = den, num - a * den
            if p1 and p1.bit_length() <= mb + 1:
                # intermediate convergents near the end
                for t in (a // 2, a - 1, a):
                    p, q = t * p1 + p0, t * q1 + q0
                    if 0 < p < (1 << (mb + 1)) and q: found.append(p)
            p0, p1 = p1, a * p1 + p0; q0, q1 = q1, a * q1 + q0
            if p1.bit_length() > mb + 1: break
            found.append(p1)
        for m in found[-per * 2:]:
            k = 1
            while (m * k).bit_length() <= mb + 1 and k <= 3:
                b = encode(m * k, e, mb, eb)
                if b is not None: out.add(b)
                k += 1
    return out
def near_ties_sqrt(mb, per=40):
    """(X, k): X*2^k has a root next to a rounding boundary n/2, n odd of mb+2 bits: n*n = X*2^s + r, r small"""
    p = mb + 1; out = []
    for r in [s * (8 * j + 1) for j in range(per) for s in (1, -1)] + [s * (8 * j + 5) for j in range(4) for s in (1, -1)] + [s * (8 * j + 7) for j in range(per) for s in (1, -1)]:
        for sh in (p + 1, p + 2):
            K = sh; M = 1 << K
            if r % 8 != 1: continue
            n = 1                                   # 2-adic square root of r, bit by bit
            for b in range(3, K + 2):
                if (n * n - r) % (1 << b): n += 1 << (b - 2)
            n %= 1 << (K - 1)
            for c in {n, (1 << (K - 1)) - n, n + (1 << (K - 1)), (1 << K) - n}:
                if c.bit_length() != p + 1 or (c * c - r) % M: continue
                X = (c * c - r) >> sh
                if X.bit_length() == p: out.append((X, sh))
    return out
def squares(mb, r, per=60):
    """numbers next to squares of representable numbers"""
    p = mb + 1; out = []
    for _ in range(per):
        n = r.getrandbits(p) | 1 << (p - 1); q = n * n; L = q.bit_length(); s = L - p
        for d in (-1, 0, 1, 2): out.append(((q >> s) + d, s))
    return out
def roots():
    import os, random
    r = random.Random(5); out = {16: set(), 32: set(), 64: set(), 128: set()}
    for w, mb, eb in ((16, 10, 5), (32, 23, 8), (64, 52, 11), (128, 112, 15)):
        bias = (1 << (eb - 1)) - 1
        for X, k in near_ties_sqrt(mb) + squares(mb, r):
            for e in (k % 2 - 2 * (X.bit_length() // 2), k % 2, bias - X.bit_length() - (bias - X.bit_length() - k) % 2, 2 - bias + (k - 2 + bias) % 2):
                b = encode(X, e, mb, eb)
                if b is not None: out[w].add(b)
    for l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "hard_cbrt.txt")):
        x, k = l.split()
        for e in (int(k) - 54, int(k) - 1074 + 3 * 60, int(k) + 900): 
            b = encode(int(x, 16), e, 52, 11)
            if b is not None: out[64].add(b)
    return out
def write(path, kind="reduction"):
    with open(path, "w") as f:
        for w, mb, eb in ((16, 10, 5), (32, 23, 8), (64, 52, 11), (128, 112, 15)):
            if kind == "roots": l = roots()[w]
            else: l = near_multiples(mb, eb) if w in (32, 64) else []
            for b in sorted(l):
                for s in (0, 1): f.write("%d %x\n" % (w, b | s << (w - 1)))
if __name__ == "__main__":
    import sys; write(*sys.argv[1:])
