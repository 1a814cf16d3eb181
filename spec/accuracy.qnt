// -*- mode: bluespec -*-
// What libm promises for the functions that are not exactly determined: the values C Annex F fixes on
// special data, and otherwise a bound in units of the last place around the true real value.
module accuracy {
  import ieee.* from "./ieee"
  import exact.* from "./exact"
  import reals.* from "./reals"
  import special.* from "./special"
  import profile.* from "./profile"
  export special.*
  export exact.*

  // 40 acos 41 acosh 42 asin 43 asinh 44 atan 45 atanh 46 cos 47 cosh 48 erf 49 erfc 50 exp 51 exp10 52 exp2
  // 53 expm1 54 log 55 log10 56 log1p 57 log2 58 sin 59 sinh 60 tan 61 tanh 62 tgamma 63 lgamma 64 lgamma_r
  // 65 atan2 66 hypot 67 pow 68 sincos 69 j0 70 j1 71 y0 72 y1 73 jn 74 yn

  // k = 0: the datum b (any NaN if b is a NaN); k = 1: a number within the ball; k = 2: not decided here;
  // k = 3: b or any NaN (signalling NaN operands)
  type Want = { k: int, b: int, x: Ball }
  pure val Z: Ball = { c: 0, r: 0, e: 0 }
  pure def wBits(b: int): Want = { k: 0, b: b, x: Z }
  pure def wBall(x: Ball): Want = { k: 1, b: 0, x: x }
  pure val wOpen: Want = { k: 2, b: 0, x: Z }
  pure def wEither(b: int): Want = { k: 3, b: b, x: Z }
  pure def signed(s: int, x: Ball): Ball = if (s == 1) bneg(x) else x

  pure def oneBits(f: Fmt): int = f.bias * f.one
  pure def fromRat(f: Fmt, n: int): int = roundSigned(f, n, 0, RNE)

  // pi multiples used on special data of atan2, acos: correctly rounded
  pure def piTimes(f: Fmt, s: int, num: int, den: int): Ball = signed(s, bdiv(P, bmulInt(P, piB(P + 8), num), exactB(den, 0)))

  // ---- unary functions on a finite argument v (never NaN/inf here) ---------------------------
  pure def odd0(f: Fmt, b: int, v: Val, x: Ball): Want = if (v.m == 0) wBits(b) else wBall(signed(v.s, x))
  pure def vb(v: Val): Ball = exactB(v.m, v.e)
  pure def sv(v: Val): Ball = exactB(if (v.s == 1) -v.m else v.m, v.e)
  // |x| compared with 1: -1, 0, 1
  pure def cmp1(v: Val): int = {
    val l = bitlen(v.m) + v.e
    if (v.m == 0 or l < 1) -1 else if (v.m == 2^(l - 1 - v.e) and l == 1) 0 else 1
  }
  pure def oneMinusSq(v: Val): Ball = {                 // (1-x)(1+x), |x| < 1
    val d = 2^(-v.e)
    exactB((d - v.m) * (d + v.m), 2 * v.e)
  }

  pure def unary(fam: int, f: Fmt, b: int): Want = {
    val v = decode(f, b)
    if (v.c == 2) wBits(f.qnan)
    else if (v.c == 1) atInf(fam, f, v.s)
    else if (fam <= 45) {
      if (fam == 40) {                                   // acos
        val c = cmp1(v)
        if (c > 0) wBits(f.qnan)
        else if (c == 0) (if (v.s == 0) wBits(0) else wBall(piB(P)))
        else if (v.m == 0 or bitlen(v.m) + v.e < -100) wBall({ c: PI_C / 2^(CW - 99), r: 4, e: -100 })
        else wBall(bangle(P, bsqrt(P + 12, oneMinusSq(v)), sv(v)))
      } else if (fam == 41) {                            // acosh
        if (v.s == 1 or cmp1(v) < 0) wBits(f.qnan)
        else if (cmp1(v) == 0) wBits(0)
        else {
          val t = badd(P + 1200, vb(v), exactB(-1, 0))
          if (bitlen(v.m) + v.e > 200) wBall(badd(P, blog(P + 8, vb(v)), ln2B(P + 8)))
          else wBall(blog1p(P, badd(P + 16, t, bsqrt(P + 16, bmul(P + 1200, t, baddInt(P + 1200, t, 2))))))
        }
      } else if (fam == 42) {                            // asin
        val c = cmp1(v)
        if (c > 0) wBits(f.qnan)
        else if (c == 0) wBall(signed(v.s, bshl(piB(P), -1)))
        else if (bitlen(v.m) + v.e < -70) odd0(f, b, v, bmul(P, vb(v), { c: 2^130, r: 1, e: -130 }))
        else odd0(f, b, v, bangle(P, vb(v), bsqrt(P + 12, oneMinusSq(v))))
      } else if (fam == 43) {                            // asinh
        if (v.m == 0) wBits(b)
        else if (bitlen(v.m) + v.e < -70) wBall(signed(v.s, bmul(P, vb(v), { c: 2^130, r: 1, e: -130 })))
        else if (bitlen(v.m) + v.e > 200) wBall(signed(v.s, badd(P, blog(P + 8, vb(v)), ln2B(P + 8))))
        else {
          val x2 = bmul(P + 16, vb(v), vb(v))
          // x + x^2 / (1 + sqrt(1 + x^2))
          val u = badd(P + 16, vb(v), bdiv(P + 16, x2, baddInt(P + 16, bsqrt(P + 16, baddInt(P + 400, x2, 1)), 1)))
          wBall(signed(v.s, blog1p(P, u)))
        }
      } else if (fam == 44) odd0(f, b, v, bangle(P, vb(v), exactB(1, 0)))
      else {                                             // atanh
        val c = cmp1(v)
        if (c > 0) wBits(f.qnan)
        else if (c == 0) wBits(withSign(f, v.s, f.inf))
        else if (v.m == 0) wBits(b)
        else { // log1p(2x/(1-x))/2
          val d = 2^(-v.e)
          if (bitlen(v.m) + v.e < -70) wBall(signed(v.s, bmul(P, vb(v), { c: 2^130, r: 1, e: -130 })))
          else wBall(signed(v.s, bshl(blog1p(P, bdiv(P + 16, exactB(2 * v.m, 0), exactB(d - v.m, 0))), -1)))
        }
      }
    } else if (fam <= 53) {
      if (fam == 46) { if (v.m == 0) wBits(oneBits(f)) else wBall(bsincos(v.m, v.e)._2) }
      else if (fam == 47) { if (v.m == 0) wBits(oneBits(f)) else wBall(bcosh(P, v.m, v.e)) }
      else if (fam == 48) odd0(f, b, v, berf(v.m, v.e))
      else if (fam == 49) {
        if (v.m == 0) wBits(oneBits(f)) else if (v.s == 0) wBall(berfc(v.m, v.e))
        else wBall(badd(P, exactB(1, 0), berf(v.m, v.e)))
      }
      else if (fam == 50) { if (v.m == 0) wBits(oneBits(f)) else wBall(bexp(P, sv(v))) }
      else if (fam == 51) { if (v.m == 0) wBits(oneBits(f)) else wBall(bexp(P, bmul(P + 40, sv(v), ln10B(P + 48)))) }
      else if (fam == 52) { if (v.m == 0) wBits(oneBits(f)) else wBall(bexp(P, bmul(P + 40, sv(v), ln2B(P + 48)))) }
      else { if (v.m == 0) wBits(b) else wBall(bexpm1(P, sv(v))) }
    } else if (fam <= 57) {
      if (fam == 56) {                                   // log1p
        if (v.m == 0) wBits(b)
        else if (v.s == 1 and cmp1(v) == 0) wBits(withSign(f, 1, f.inf))
        else if (v.s == 1 and cmp1(v) > 0) wBits(f.qnan)
        else wBall(blog1p(P, sv(v)))
      }
      else if (v.m == 0) wBits(withSign(f, 1, f.inf))
      else if (v.s == 1) wBits(f.qnan)
      else if (cmp1(v) == 0) wBits(0)
      else if (fam == 54) wBall(blog(P, vb(v)))
      else if (fam == 55) wBall(bdiv(P, blog(P + 8, vb(v)), ln10B(P + 8)))
      else wBall(bdiv(P, blog(P + 8, vb(v)), ln2B(P + 8)))
    } else if (fam <= 61) {
      if (fam == 58) odd0(f, b, v, bsincos(v.m, v.e)._1)
      else if (fam == 59) odd0(f, b, v, bsinh(P, v.m, v.e))
      else if (fam == 60) { if (v.m == 0) wBits(b) else { val t = bsincos(v.m, v.e)
                                                         wBall(signed(v.s, bdiv(P, t._1, t._2))) } }
      else odd0(f, b, v, btanh(P, v.m, v.e))
    } else if (fam == 62) {                              // tgamma
      if (v.m == 0) wBits(withSign(f, v.s, f.inf))
      else if (v.s == 0) wBall(bgammaPos(P, v.m, v.e))
      else if (isInt(v)) wBits(f.qnan)
      else wBall(bgammaNeg(P, v.m, v.e))
    } else if (fam <= 64) {                              // lgamma
      if (v.m == 0) wBits(f.inf)
      else if (v.s == 0) {
        if (cmpVal(v, { c: 0, s: 0, m: 1, e: 0 }) == 0 or cmpVal(v, { c: 0, s: 0, m: 2, e: 0 }) == 0) wBits(0)
        else wBall(blgammaPos(P, v.m, v.e))
      }
      else if (isInt(v)) wBits(f.inf)
      else wBall(blgammaNeg(P, v.m, v.e))
    } else {                                             // Bessel
      val odd = fam == 70
      if (fam <= 70) {
        if (v.m == 0) wBits(if (odd) b else oneBits(f))
        else wBall(signed(if (odd) v.s else 0, bj(if (odd) 1 else 0, v.m, v.e)))
      }
      else if (v.m == 0) wBits(withSign(f, 1, f.inf))
      else if (v.s == 1) wBits(f.qnan)
      else wBall(by(if (fam == 72) 1 else 0, v.m, v.e))
    }
  }
  // value at +-infinity
  pure def atInf(fam: int, f: Fmt, s: int): Want =
    if (fam == 44) wBall(piTimes(f, s, 1, 2))
    else if (fam == 48 or fam == 61) wBits(withSign(f, s, oneBits(f)))
    else if (fam == 43 or fam == 59) wBits(withSign(f, s, f.inf))
    else if (fam == 47) wBits(f.inf)
    else if (fam == 49) wBits(if (s == 0) 0 else fromRat(f, 2))
    else if (fam == 50 or fam == 51 or fam == 52) wBits(if (s == 0) f.inf else 0)
    else if (fam == 53) wBits(if (s == 0) f.inf else withSign(f, 1, oneBits(f)))
    else if (fam == 41 or (fam >= 54 and fam <= 57) or fam == 62) wBits(if (s == 0) f.inf else f.qnan)
    else if (fam == 63 or fam == 64) wBits(f.inf)
    else if (fam == 69 or fam == 70) { k: 4, b: 0, x: Z }          // a zero of either sign
    else if (fam == 71 or fam == 72) (if (s == 0) { k: 4, b: 0, x: Z } else wBits(f.qnan))
    else wBits(f.qnan)

  // sign handed back by lgamma_r: that of Gamma(x)
  pure def gammaSign(v: Val): int =
    if (v.c == 2 or v.s == 0) 1
    else if (v.c == 1) 0                                   // unspecified
    else if (v.m == 0) -1
    else if (isInt(v)) 0                                   // unspecified
    else if (v.e >= 0) 1
    else if ((v.m / 2^(-v.e)) % 2 == 0) -1 else 1

  // ---- two arguments -------------------------------------------------------------------------
  pure def atan2W(f: Fmt, y: int, x: int): Want = {
    val a = decode(f, y)
    val b = decode(f, x)
    if (a.c == 2 or b.c == 2) wBits(f.qnan)
    else if (a.c == 0 and a.m == 0) { if (b.s == 0) wBits(y) else wBall(piTimes(f, a.s, 1, 1)) }
    else if (b.c == 1) {
      if (a.c == 1) wBall(piTimes(f, a.s, if (b.s == 0) 1 else 3, 4))
      else if (b.s == 0) wBits(withSign(f, a.s, 0)) else wBall(piTimes(f, a.s, 1, 1))
    }
    else if (a.c == 1 or b.m == 0) wBall(piTimes(f, a.s, 1, 2))
    else wBall(signed(a.s, bangle(P, vb(a), sv(b))))
  }
  pure def hypotW(f: Fmt, x: int, y: int): Want = {
    val a = decode(f, x)
    val b = decode(f, y)
    if (a.c == 1 or b.c == 1) { if (isSnan(f, x) or isSnan(f, y)) wEither(f.inf) else wBits(f.inf) }
    else if (a.c == 2 or b.c == 2) wBits(f.qnan)
    else if (a.m == 0) wBits(magOf(f, y))
    else if (b.m == 0) wBits(magOf(f, x))
    else wBall(bsqrt(P, badd(2 * P + 2200, exactB(a.m * a.m, 2 * a.e), exactB(b.m * b.m, 2 * b.e))))
  }
  pure def powW(f: Fmt, x: int, y: int): Want = {
    val a = decode(f, x)
    val b = decode(f, y)
    val one = oneBits(f)
    if (b.c == 0 and b.m == 0) { if (isSnan(f, x)) wEither(one) else wBits(one) }
    else if (x == one) { if (isSnan(f, y)) wEither(one) else wBits(one) }
    else if (a.c == 2 or b.c == 2) wBits(f.qnan)
    else {
      val odd = isOdd(b)
      val rs = if (a.s == 1 and odd) 1 else 0
      if (b.c == 1) {
        val c = if (a.c == 1) 1 else cmp1(a)
        if (c == 0) wBits(one)                             // (-1)^(+-inf)
        else if ((c > 0) == (b.s == 0)) wBits(f.inf) else wBits(0)
      }
      else if (a.c == 1 or a.m == 0) {
        val big = (a.c == 1) == (b.s == 0)
        wBits(withSign(f, rs, if (big) f.inf else 0))
      }
      else if (a.s == 1 and not(isInt(b))) wBits(f.qnan)
      else if (cmp1(a) == 0) wBits(withSign(f, rs, one))   // (-1)^n
      else wBall(signed(rs, bexp(P, bmul(P + 40, blog(P + 48, vb(a)), sv(b)))))
    }
  }

  // ---- Bessel functions of order n (i32) -----------------------------------------------------
  pure def jnW(f: Fmt, n0: int, x: int): Want = {
    val v = decode(f, x)
    val n = iabs(n0)
    // J_-n = (-1)^n J_n ; J_n(-x) = (-1)^n J_n(x)
    val s = if (n % 2 == 1 and ((n0 < 0) != (v.s == 1))) 1 else 0
    if (v.c == 2) wBits(f.qnan)
    else if (n == 0) unary(69, f, x)
    else if (v.c == 1) { k: 4, b: 0, x: Z }
    else if (v.m == 0) { k: 4, b: 0, x: Z }
    else if (n == 1) wBall(signed(s, bj(1, v.m, v.e)))
    else if (bitlen(v.m) + v.e > 9 or n > 1200) wOpen
    else if (bitlen(v.m) + v.e < -1000 or n * (bitlen(v.m) + v.e) < -3000) wBall({ c: if (s == 1) -1 else 1, r: 1, e: -1500 })
    else wBall(signed(s, bjn(n, v.m, v.e)))
  }
  pure def ynW(f: Fmt, n0: int, x: int): Want = {
    val v = decode(f, x)
    val n = iabs(n0)
    val s = if (n % 2 == 1 and n0 < 0) 1 else 0
    if (v.c == 2) wBits(f.qnan)
    else if (v.c == 0 and v.m == 0) wBits(withSign(f, 1 - s, f.inf))
    else if (v.s == 1) wBits(f.qnan)
    else if (v.c == 1) { k: 4, b: 0, x: Z }
    else if (n <= 1) wBall(signed(s, by(n, v.m, v.e)))
    else if (bitlen(v.m) + v.e > 7 or n > 400) wOpen
    else wBall(signed(s, byn(n, v.m, v.e)))
  }

  // ---- bounds --------------------------------------------------------------------------------
  // number of data the result may be away from the correctly rounded one (the repository's own table
  // for comparison against exact results, crates/libm-test/src/precision.rs)
  pure def bound(fam: int, f: Fmt, a: int): int =
    if (fam >= 73) 64 + 4 * iabs(i32of(a))
    else if (fam == 41) 4 else if (fam == 43 or fam == 45 or fam == 59 or fam == 61 or fam == 65) 2
    else if (fam == 49) 4 else if (fam == 51) 6
    else if (fam == 62) (if (f.w == 32) 1 else 20)
    else if (fam == 63 or fam == 64) 16
    else if (fam >= 69) 8
    else 1

  // Functions with zeros at irrational points are only as accurate, near those, as their own scale:
  // the error is counted in units of the last place of the larger of the value and an envelope.
  // Returns the exponent E such that the envelope lies in [2^E, 2^(E+1)), or -1000000 for none.
  pure def envelope(fam: int, f: Fmt, a: int, b: int): int =
    if (fam == 63 or fam == 64) (if (sgnBit(f, a) == 1) 0 else -1000000)
    else if (fam >= 69) {
      val v = decode(f, if (fam >= 73) b else a)
      val n = if (fam >= 73) iabs(i32of(a)) else 1
      val l = bitlen(v.m) + v.e                            // x in [2^(l-1), 2^l)
      // sqrt(2/(pi x)) >= 2^-(l+1)/2 ; relevant once x is past the first zeros
      if (l < 0 or (n > 1 and cmpVal({ c: 0, s: 0, m: v.m, e: v.e }, { c: 0, s: 0, m: n, e: 0 }) < 0)) -1000000 else fdiv(-l, 2)
    }
    else -1000000
  // units allowed around the envelope
  pure def envUnits(fam: int, f: Fmt, a: int): int =
    if (fam == 63 or fam == 64) 64
    else if (fam >= 73) 64 + 4 * iabs(i32of(a)) else 16

  pure def inBall(f: Fmt, n: int, x: Ball, r: int): bool = {
    val lo = x.c - x.r
    val hi = x.c + x.r
    if (isNan(f, r)) false
    else if (lo > 0 and sgnBit(f, r) == 1) false
    else if (hi < 0 and sgnBit(f, r) == 0) false
    else ord(f, r) >= ord(f, roundSigned(f, lo, x.e, RNE)) - n and ord(f, r) <= ord(f, roundSigned(f, hi, x.e, RNE)) + n
  }
  // |r - x| <= units * ulp(2^E)
  pure def inEnvelope(f: Fmt, E: int, units: int, x: Ball, r: int): bool =
    if (not(isFin(f, r)) or E < -900000) false
    else {
      val v = decode(f, r)
      val d = babs(bsub(2 * P, sv(v), x))
      val t = imax(E - f.mb, f.qmin)
      // d.c - d.r <= units * 2^(t - d.e)
      if (t >= d.e) d.c - d.r <= units * 2^(t - d.e) else (d.c - d.r) * 2^(d.e - t) <= units
    }
  // Overflow to infinity and underflow to zero happen exactly where they happen to the rounded value.
  // (One-argument functions only: hypot and pow may be one step off here too, tgamma and erfc more.)
  pure val OVER = Set(47, 50, 51, 52, 53, 59)
  pure val UNDER = Set(50, 51, 52)
  pure def edgeOk(fam: int, f: Fmt, x: Ball, r: int): bool = {
    val a = magOf(f, roundSigned(f, x.c - x.r, x.e, RNE))
    val b = magOf(f, roundSigned(f, x.c + x.r, x.e, RNE))
    val g = magOf(f, r)
    a == b implies ((OVER.contains(fam) implies ((g == f.inf) == (a == f.inf))) and (UNDER.contains(fam) implies ((g == 0) == (a == 0))))
  }
  pure def acceptWant(fam: int, f: Fmt, a: int, b: int, w: Want, r: int): bool =
    if (w.k == 0) sameF(f, r, w.b)
    else if (w.k == 1) (inBall(f, bound(fam, f, a), w.x, r) and edgeOk(fam, f, w.x, r)) or inEnvelope(f, envelope(fam, f, a, b), envUnits(fam, f, a), w.x, r)
    else if (w.k == 3) r == w.b or isNan(f, r)
    else if (w.k == 4) isZero(f, r)
    else true

  pure def want(fam: int, f: Fmt, a: int, b: int): Want =
    if (fam == 65) atan2W(f, a, b) else if (fam == 66) hypotW(f, a, b) else if (fam == 67) powW(f, a, b)
    else if (fam == 73) jnW(f, i32of(a), b) else if (fam == 74) ynW(f, i32of(a), b)
    else unary(fam, f, a)

  pure def acceptApprox(fam: int, f: Fmt, a: int, b: int, r0: int, r1: int): bool =
    if (fam == 68) acceptWant(58, f, a, b, want(58, f, a, b), r0) and acceptWant(46, f, a, b, want(46, f, a, b), r1)
    else if (fam == 64) {
      val s = gammaSign(decode(f, a))
      acceptWant(64, f, a, b, want(64, f, a, b), r0) and (s == 0 or r1 == u32of(s))
    }
    else acceptWant(fam, f, a, b, want(fam, f, a, b), r0)

  // ---- error profiles ------------------------------------------------------------------------
  // How accurate this library is, part of the domain by part: a function's profile gives, for each part, the
  // error allowed there in eighths of a unit in the last place of the true value (255: nothing beyond the
  // contract).  Parts: quarter binades of |x|, 2^-32 to 2^24 (the rest with the first and last), by sign, for one
  // argument; the difference of the exponents for hypot; that of y to x and the sign of x for atan2; the
  // exponent of y and the side of 1 for pow.
  pure def clamp(x: int, lo: int, hi: int): int = imax(lo, imin(hi, x))
  pure def part(fam: int, f: Fmt, a: int, b: int): int = {
    val ea = magOf(f, a) / f.one
    val eb = magOf(f, b) / f.one
    if (fam == 65) clamp(eb - ea + 64, 0, 127) + 128 * sgnBit(f, b)
    else if (fam == 66) imin(iabs(ea - eb), 63)
    else if (fam == 67) clamp(eb - f.bias + 32, 0, 63) + (if (ea < f.bias) 64 else 0)
    else clamp(magOf(f, a) / (f.one / 4) - (f.bias - 32) * 4 + 1, 0, 225) + 226 * sgnBit(f, a)
  }
  // the error of r, in eighths of a unit in the last place of x, is at most n
  pure def within(f: Fmt, E: int, n: int, x: Ball, r: int): bool = {
    val v = decode(f, r)
    val d = babs(bsub(2 * P, sv(v), x))
    val t = imax(imax(E, bitlen(iabs(x.c) + x.r) + x.e - 1) - f.mb, f.qmin)
    if (t >= d.e) 8 * (d.c - d.r) <= n * 2^(t - d.e) else 8 * (d.c - d.r) * 2^(d.e - t) <= n
  }
  pure def profiled(fam: int, f: Fmt, a: int, b: int, w: Want, r: int): bool = {
    val n = allowed(fam, f.w, part(fam, f, a, b))
    acceptWant(fam, f, a, b, w, r) and (w.k != 1 or n == 255 or not(isFin(f, r)) or within(f, envelope(fam, f, a, b), n, w.x, r))
  }
  pure def asAccurate(fam: int, f: Fmt, a: int, b: int, r0: int, r1: int): bool =
    if (fam == 68) profiled(58, f, a, b, want(58, f, a, b), r0) and profiled(46, f, a, b, want(46, f, a, b), r1)
    else if (fam == 64) {
      val s = gammaSign(decode(f, a))
      profiled(63, f, a, b, want(63, f, a, b), r0) and (s == 0 or r1 == u32of(s))
    }
    else profiled(fam, f, a, b, want(fam, f, a, b), r0)

  // ---- correct rounding ----------------------------------------------------------------------
  // What is asked of the repository's multiple-precision oracle: the number nearest to the true value, ties to
  // even, in subnormal results and at overflow as everywhere.
  pure def nearestTo(f: Fmt, w: Want, r: int): bool =
    if (w.k == 0) sameF(f, r, w.b)
    else if (w.k == 1) inBall(f, 0, w.x, r)
    else if (w.k == 3) r == w.b or isNan(f, r)
    else if (w.k == 4) isZero(f, r)
    else true
  pure def roundedRight(fam: int, f: Fmt, a: int, b: int, c: int, r0: int, r1: int): bool =
    if (fam == 68) nearestTo(f, want(58, f, a, b), r0) and nearestTo(f, want(46, f, a, b), r1)
    else if (fam == 64) {
      val s = gammaSign(decode(f, a))
      nearestTo(f, want(64, f, a, b), r0) and (s == 0 or r1 == u32of(s))
    }
    // MPFR has no logarithm of a negative number, and its NaN no sign
    else if (fam == 63 and isNan(f, r0) and isFin(f, a) and gammaSign(decode(f, a)) == -1) true
    else if (fam < 40)
      if ((fam == 10 and (isNan(f, a) or isNan(f, b))) or (fam == 7 and isNan(f, a))) (isNan(f, a) and isNan(f, r0)) or magOf(f, r0) == magOf(f, a)
      else acceptExact(fam, f, a, b, c, r0, r1)
    else nearestTo(f, want(fam, f, a, b), r0)

  // ---- the contract of one call --------------------------------------------------------------
  pure def accept(fam: int, f: Fmt, a: int, b: int, c: int, r0: int, r1: int): bool =
    if (fam < 40) acceptExact(fam, f, a, b, c, r0, r1) else acceptApprox(fam, f, a, b, r0, r1)
}
