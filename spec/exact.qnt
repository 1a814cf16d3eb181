// -*- mode: bluespec -*-
// The functions of libm whose results are fully determined by their definition over the reals
// (or by IEEE 754 / C Annex F on special data): one definition per function, no algorithm.
module exact {
  import ieee.* from "./ieee"
  export ieee.*

  // ---- integers in registers -----------------------------------------------------------
  pure def i32of(u: int): int = if (u >= 2^31) u - 2^32 else u
  pure def u32of(i: int): int = if (i < 0) i + 2^32 else i
  pure val I32MIN = -(2^31)
  pure val I32MAX = 2^31 - 1

  // A result together with how literally it is to be taken.
  type Out = { r0: int, r1: int }
  pure def o1(b: int): Out = { r0: b, r1: 0 }
  pure def sameF(f: Fmt, x: int, y: int): bool = x == y or (isNan(f, x) and isNan(f, y))

  // ---- rounding to an integral value in the same format --------------------------------
  pure def roundTo(f: Fmt, b: int, mode: int): int = {
    val v = decode(f, b)
    if (v.c == 2) f.qnan
    else if (v.c == 1 or v.e >= 0) b
    else withSign(f, v.s, magOf(f, roundInt(f, v.s, roundDiv(v.s, v.m, 2^(-v.e), mode), 0, RNE)))
  }

  // ---- sign manipulation ---------------------------------------------------------------
  pure def copysignB(f: Fmt, x: int, y: int): int = withSign(f, sgnBit(f, y), magOf(f, x))

  // ---- comparison selection ------------------------------------------------------------
  // kind 0: fmax/fmin (2008 maxNum: NaN loses, order of zeros free)
  // kind 1: maximum/minimum (2019: NaN wins, -0 < +0); kind 2: maximumNumber (NaN loses, -0 < +0)
  pure def pickMax(f: Fmt, x: int, y: int): int =
    if (isZero(f, x) and isZero(f, y)) imin(x, y)
    else if (cmpBits(f, x, y) >= 0) x else y
  pure def pickMin(f: Fmt, x: int, y: int): int =
    if (isZero(f, x) and isZero(f, y)) imax(x, y)
    else if (cmpBits(f, x, y) <= 0) x else y
  pure def minmax(f: Fmt, kind: int, isMax: bool, x: int, y: int): int =
    if (isNan(f, x) or isNan(f, y)) {
      if (kind == 1 or (isNan(f, x) and isNan(f, y))) f.qnan
      else if (isNan(f, x)) y else x
    } else if (isMax) pickMax(f, x, y) else pickMin(f, x, y)

  // ---- positive difference -------------------------------------------------------------
  pure def subB(f: Fmt, x: int, y: int): int = {  // x - y for finite x > y
    val a = decode(f, x)
    val b = decode(f, y)
    val e = imin(a.e, b.e)
    roundSigned(f, (if (a.s == 1) -a.m else a.m) * 2^(a.e - e) - (if (b.s == 1) -b.m else b.m) * 2^(b.e - e), e, RNE)
  }
  pure def fdimB(f: Fmt, x: int, y: int): int =
    if (isNan(f, x) or isNan(f, y)) f.qnan
    else if (cmpBits(f, x, y) <= 0) 0
    else if (isInf(f, x) or isInf(f, y)) f.inf
    else subB(f, x, y)

  // ---- remainders ----------------------------------------------------------------------
  pure def fmodB(f: Fmt, x: int, y: int): int = {
    val a = decode(f, x)
    val b = decode(f, y)
    if (a.c != 0 or b.c == 2 or (b.c == 0 and b.m == 0)) f.qnan
    else if (b.c == 1 or a.m == 0) x
    else {
      val e = imin(a.e, b.e)
      withSign(f, a.s, magOf(f, roundInt(f, 0, (a.m * 2^(a.e - e)) % (b.m * 2^(b.e - e)), e, RNE)))
    }
  }
  // IEEE remainder and the integral quotient (nearest, ties to even) as a signed number
  pure def remB(f: Fmt, x: int, y: int): { r: int, q: int, bad: bool } = {
    val a = decode(f, x)
    val b = decode(f, y)
    if (a.c != 0 or b.c == 2 or (b.c == 0 and b.m == 0)) { r: f.qnan, q: 0, bad: true }
    else if (b.c == 1 or a.m == 0) { r: x, q: 0, bad: false }
    else {
      val e = imin(a.e, b.e)
      val n = a.m * 2^(a.e - e)
      val d = b.m * 2^(b.e - e)
      val q = roundDiv(0, n, d, RNE)
      val r = n - q * d
      val s = if (r < 0) 1 - a.s else a.s
      { r: withSign(f, s, magOf(f, roundInt(f, 0, iabs(r), e, RNE))),
        q: if (a.s == b.s) q else -q, bad: false }
    }
  }
  // the integer libm hands back: sign of the quotient, low 31 bits of its magnitude
  pure def quo31(q: int): int = if (q >= 0) q % 2^31 else u32of(-((-q) % 2^31))

  // ---- neighbours ----------------------------------------------------------------------
  pure def nextB(f: Fmt, x: int, y: int): int =
    if (isNan(f, x) or isNan(f, y)) f.qnan
    else if (cmpBits(f, x, y) == 0) y
    else if (isZero(f, x)) withSign(f, sgnBit(f, y), 1)
    else if ((cmpBits(f, x, y) < 0) == (sgnBit(f, x) == 0)) x + 1 else x - 1

  // ---- roots ---------------------------------------------------------------------------
  pure val NEWTON = 1.to(14).fold([], (l, i) => l.append(i))
  pure def isqrt(n: int): int =   // floor of the square root
    if (n == 0) 0 else {
      val x0 = 2^((bitlen(n) + 1) / 2)
      NEWTON.foldl((x0, false), (a, i) => if (a._2) a else {
        val y = (a._1 + n / a._1) / 2
        if (y >= a._1) (a._1, true) else (y, false)
      })._1
    }
  pure def sqrtB(f: Fmt, b: int): int = {
    val v = decode(f, b)
    if (v.c == 2) f.qnan
    else if (v.c == 0 and v.m == 0) b
    else if (v.s == 1) f.qnan
    else if (v.c == 1) b
    else {
      val g = 2 * f.mb + 6
      val e0 = v.e - g
      val e = if (e0 % 2 == 0) e0 else e0 - 1
      val n = v.m * 2^(v.e - e)
      val r = isqrt(n)
      // the sticky digit below keeps the rounding exact
      roundInt(f, 0, 2 * r + (if (r * r == n) 0 else 1), e / 2 - 1, RNE)
    }
  }
  // r is the correctly rounded k-th root of x (k odd or x >= 0), stated without computing a root:
  // x lies between the k-th powers of the two rounding boundaries of r.
  pure def isRootRN(f: Fmt, k: int, x: int, r: int): bool = {
    val v = decode(f, x)
    if (v.c == 2) isNan(f, r)
    else if (v.c == 1 or v.m == 0) r == x
    else if (not(isFin(f, r)) or isZero(f, r) or sgnBit(f, r) != v.s) false
    else {
      val g = magOf(f, r)
      val a = decode(f, g)
      val p = decode(f, g - 1)
      val n = decode(f, imin(g + 1, f.inf - 1))
      val e = imin(imin(a.e, p.e), v.e / k - 2) - 1
      // twice the boundaries
      val lo = a.m * 2^(a.e - e) + p.m * 2^(p.e - e)
      val hi = a.m * 2^(a.e - e) + n.m * 2^(n.e - e)
      val t = v.m * 2^(v.e - k * e + k)
      (lo^k < t and t < hi^k) or (lo^k == t and g % 2 == 0) or (hi^k == t and g % 2 == 0)
    }
  }

  // ---- fused multiply-add --------------------------------------------------------------
  pure def fmaB(f: Fmt, x: int, y: int, z: int, mode: int): int = {
    val a = decode(f, x)
    val b = decode(f, y)
    val c = decode(f, z)
    val ps = (a.s + b.s) % 2
    if (a.c == 2 or b.c == 2 or c.c == 2) f.qnan
    else if (a.c == 1 or b.c == 1) {
      if ((a.c == 0 and a.m == 0) or (b.c == 0 and b.m == 0)) f.qnan
      else if (c.c == 1 and c.s != ps) f.qnan
      else withSign(f, ps, f.inf)
    } else if (c.c == 1) z
    else {
      val pe = a.e + b.e
      val e = if (c.m == 0) pe else if (a.m * b.m == 0) c.e else imin(pe, c.e)
      val pm = if (a.m * b.m == 0) 0 else a.m * b.m * 2^(pe - e)
      val cm = if (c.m == 0) 0 else c.m * 2^(c.e - e)
      val n = (if (ps == 1) -pm else pm) + (if (c.s == 1) -cm else cm)
      if (n != 0) roundSigned(f, n, e, mode)
      else if (ps == c.s) withSign(f, ps, 0)
      else if (mode == RDN) withSign(f, 1, 0) else 0
    }
  }

  // ---- exponents -----------------------------------------------------------------------
  pure def scalbnB(f: Fmt, x: int, n: int): int = {
    val v = decode(f, x)
    if (v.c == 2) f.qnan else if (v.c == 1 or v.m == 0) x
    else roundInt(f, v.s, v.m, v.e + n, RNE)
  }
  pure def ilogbB(f: Fmt, x: int): int = {
    val v = decode(f, x)
    if (v.c == 2) I32MIN else if (v.c == 1) I32MAX else if (v.m == 0) I32MIN
    else v.e + bitlen(v.m) - 1
  }
  pure def frexpB(f: Fmt, x: int): Out = {
    val v = decode(f, x)
    if (v.c != 0 or v.m == 0) { r0: x, r1: 0 }
    else { r0: roundInt(f, v.s, v.m, -bitlen(v.m), RNE), r1: u32of(v.e + bitlen(v.m)) }
  }
  pure def modfB(f: Fmt, x: int): Out = {
    val v = decode(f, x)
    if (v.c == 2) { r0: f.qnan, r1: f.qnan }
    else if (v.c == 1) { r0: withSign(f, v.s, 0), r1: x }
    else {
      val t = roundTo(f, x, RTZ)
      if (v.e >= 0) { r0: withSign(f, v.s, 0), r1: x }
      else { r0: withSign(f, v.s, magOf(f, roundInt(f, 0, v.m % 2^(-v.e), v.e, RNE))), r1: t }
    }
  }

  // ---- the families --------------------------------------------------------------------
  // 1 ceil 2 floor 3 trunc 4 round 5 roundeven 6 rint 7 fabs 8 sqrt 9 cbrt 10 copysign 11 fdim
  // 12 fmax 13 fmin 14 fmaximum 15 fminimum 16 fmaximum_num 17 fminimum_num 18 fmod 19 remainder
  // 20 nextafter 21 fma 22 scalbn/ldexp 23 ilogb 24 frexp 25 modf 26 remquo
  // The result the definitions demand (for cbrt see isRootRN).
  pure def expected(fam: int, f: Fmt, a: int, b: int, c: int): Out =
    if (fam <= 6) o1(roundTo(f, a, if (fam == 1) RUP else if (fam == 2) RDN else if (fam == 3) RTZ else if (fam == 4) RNA else RNE))
    else if (fam <= 13) {
      if (fam == 7) o1(magOf(f, a))
      else if (fam == 8) o1(sqrtB(f, a))
      else if (fam == 10) o1(copysignB(f, a, b))
      else if (fam == 11) o1(fdimB(f, a, b))
      else o1(minmax(f, 0, fam == 12, a, b))
    } else if (fam <= 20) {
      if (fam <= 15) o1(minmax(f, 1, fam == 14, a, b))
      else if (fam <= 17) o1(minmax(f, 2, fam == 16, a, b))
      else if (fam == 18) o1(fmodB(f, a, b))
      else if (fam == 19) o1(remB(f, a, b).r)
      else o1(nextB(f, a, b))
    }
    else if (fam == 21) o1(fmaB(f, a, b, c, RNE))
    else if (fam == 22) o1(scalbnB(f, a, i32of(b)))
    else if (fam == 23) o1(u32of(ilogbB(f, a)))
    else if (fam == 24) frexpB(f, a)
    else if (fam == 25) modfB(f, a)
    else { val q = remB(f, a, b)
           { r0: q.r, r1: quo31(q.q) } }

  // Is (r0, r1) an allowed outcome?
  pure def acceptExact(fam: int, f: Fmt, a: int, b: int, c: int, r0: int, r1: int): bool =
    if (fam == 9) isRootRN(f, 3, a, r0)
    else {
      val w = expected(fam, f, a, b, c)
      if (fam == 7 or fam == 10) r0 == w.r0                              // bit operations, NaN included
      else if (fam == 12 or fam == 13)
        sameF(f, r0, w.r0) or (isZero(f, a) and isZero(f, b) and isZero(f, r0))
          or ((isSnan(f, a) or isSnan(f, b)) and isNan(f, r0))           // signalling NaN: C leaves it open
      else if (fam == 16 or fam == 17)
        sameF(f, r0, w.r0) or ((isSnan(f, a) or isSnan(f, b)) and isNan(f, r0))
      else if (fam == 23) r0 == w.r0
      else if (fam == 24) sameF(f, r0, w.r0) and (r1 == w.r1 or not(isFin(f, a)))
      else if (fam == 25) sameF(f, r0, w.r0) and sameF(f, r1, w.r1)
      else if (fam == 26) sameF(f, r0, w.r0) and (r1 == w.r1 or isNan(f, w.r0))
      else sameF(f, r0, w.r0)
    }
}
