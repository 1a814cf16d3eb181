// -*- mode: bluespec -*-
// Two more rules a call can be judged by, besides its own contract (accuracy.qnt):
//   exactly  - where the true value is a number of the format at a recognisable place (a power of two, a
//              factorial, an integral power, a Pythagorean triple ...), that number is returned
//   inRange  - the result is within the range of the function and on the right side of elementary bounds
// Neither follows from an error bound of one unit or more in the last place.
module landmarks {
  import ieee.* from "./ieee"
  import exact.* from "./exact"
  import reals.* from "./reals"
  import accuracy.* from "./accuracy"

  // (known, bits)
  type Mark = { k: bool, b: int }
  pure val NONE: Mark = { k: false, b: 0 }
  pure def at(b: int): Mark = { k: true, b: b }

  // n*2^e as a datum, if it is one
  pure def same(m1: int, e1: int, m2: int, e2: int): bool = {
    val e = imin(e1, e2)
    m1 * 2^(e1 - e) == m2 * 2^(e2 - e)
  }
  pure def datum(f: Fmt, s: int, n: int, e: int): Mark = {
    val l = bitlen(n) + e
    if (n == 0 or l > f.bias + 1 or l < f.qmin) NONE
    else {
      val b = roundInt(f, s, n, e, RNE)
      val d = decode(f, b)
      if (d.c == 0 and same(d.m, d.e, n, e)) at(b) else NONE
    }
  }
  // odd part and exponent of n > 0
  pure def oddPart(n: int): (int, int) = SH_S.foldl((n, 0), (a, k) => if (a._1 % 2^k == 0) (a._1 / 2^k, a._2 + k) else a)
  // value of a finite datum if it is an integer of modest size, else -1000000
  pure val NOINT = -1000000
  pure def small(v: Val): int =
    if (not(isInt(v)) or bitlen(v.m) + v.e > 17) NOINT
    else { val n = if (v.e >= 0) v.m * 2^v.e else v.m / 2^(-v.e)
           if (v.s == 1) -n else n }
  // the exponent n if v = base^n for n in 0..40, else -1
  pure val UPTO40: List[int] = range(0, 41)
  pure def logExact(v: Val, base: int): int =
    if (v.s == 1 or not(isInt(v)) or bitlen(v.m) + v.e > 140) -1
    else { val n = if (v.e >= 0) v.m * 2^v.e else v.m / 2^(-v.e)
           UPTO40.foldl(-1, (a, k) => if (base^k == n) k else a) }
  pure def factorial(n: int): int = range(1, n + 1).foldl(1, (a, k) => a * k)

  pure val HALVES: List[int] = range(0, 4)
  pure def powMark(f: Fmt, a: int, b: int): Mark = {
    val x = decode(f, a)
    val y = decode(f, b)
    if (x.c != 0 or y.c != 0 or x.m == 0 or y.m == 0) NONE
    else {
      val p = oddPart(x.m)
      val m = p._1
      val e = x.e + p._2
      if (isInt(y)) {
        val n = small(y)
        val s = if (x.s == 1 and isOdd(y)) 1 else 0
        if (n == NOINT) NONE
        else if (m == 1) (if (iabs(e * n) > 40000) NONE else datum(f, s, 1, e * n))
        else if (n < 0 or bitlen(m) * n > 300) NONE
        else datum(f, s, m^n, e * n)
      }
      else {
        // y = n / 2^j: exact if the 2^j-th root of x is
        val q = oddPart(y.m)
        val j = -(y.e + q._2)
        if (x.s == 1 or j > 3 or bitlen(q._1) > 6) NONE
        else {
          val r = HALVES.foldl((m, e, true), (t, i) =>
            if (i >= j or not(t._3)) t
            else { val h = isqrt(t._1)
                   if (h * h == t._1 and t._2 % 2 == 0) (h, t._2 / 2, true) else (t._1, t._2, false) })
          if (not(r._3)) NONE
          else if (y.s == 1) (if (r._1 != 1) NONE else datum(f, 0, 1, -(r._2 * q._1)))
          else if (bitlen(r._1) * q._1 > 300) NONE else datum(f, 0, r._1^q._1, r._2 * q._1)
        }
      }
    }
  }
  pure def hypotMark(f: Fmt, a: int, b: int): Mark = {
    val x = decode(f, a)
    val y = decode(f, b)
    if (x.c != 0 or y.c != 0 or x.m == 0 or y.m == 0 or iabs(x.e - y.e) > 300) NONE
    else {
      val e = imin(x.e, y.e)
      val s = (x.m * 2^(x.e - e))^2 + (y.m * 2^(y.e - e))^2
      val r = isqrt(s)
      if (r * r == s) datum(f, 0, r, e) else NONE
    }
  }
  pure def mark(fam: int, f: Fmt, a: int, b: int): Mark =
    if (fam == 67) powMark(f, a, b)
    else if (fam == 66) hypotMark(f, a, b)
    else {
      val v = decode(f, a)
      val n = if (v.c == 0) small(v) else NOINT
      if (v.c != 0 or v.m == 0) NONE
      else if (fam == 52) (if (n == NOINT) NONE else datum(f, 0, 1, n))
      else if (fam == 51) {
        // 10^-n, n a small integer: the datum nearest to it (a sticky bit stands for the rest of the quotient)
        if (n < 0 and n >= (if (f.w == 32) -7 else -15)) at(roundInt(f, 0, 2 * (2^300 / 10^(-n)) + 1, -301, RNE))
        else if (n < 0 or n > 60) NONE else datum(f, 0, 5^n, n)
      }
      else if (fam == 57) { if (v.s == 1 or oddPart(v.m)._1 != 1) NONE
                            else { val k = v.e + oddPart(v.m)._2
                                   if (k == 0) at(0) else datum(f, if (k < 0) 1 else 0, iabs(k), 0) } }
      else if (fam == 55) { val k = logExact(v, 10)
                            if (k < 0) NONE else if (k == 0) at(0) else datum(f, 0, k, 0) }
      else if (fam == 62) (if (n < 1 or n > 60) NONE else datum(f, 0, factorial(n - 1), 0))
      else if (fam == 63 or fam == 64) (if (n == 1 or n == 2) at(0) else NONE)
      else if (fam == 54 or fam == 41 or fam == 40) (if (n == 1) at(0) else NONE)
      else NONE
    }
  pure def exactlyOk(fam: int, f: Fmt, a: int, b: int, r: int): bool = {
    val w = mark(fam, f, a, b)
    not(w.k) or r == w.b
  }

  // ---- ranges --------------------------------------------------------------------------------
  pure def PI(f: Fmt, s: int, den: int): int = roundSigned(f, (if (s == 1) -1 else 1) * PI_C, -(CW) - (if (den == 2) 1 else 0), RNE)
  pure def le(f: Fmt, x: int, y: int): bool = ord(f, x) <= ord(f, y)          // no NaN
  pure def plus(f: Fmt, x: int, k: int): int = {                              // x + k rounded
    val v = decode(f, x)
    val e = imin(v.e, 0)
    if (bitlen(v.m) + v.e > 300) x else if (bitlen(v.m) + v.e < -300) fromRat(f, k)
    else roundSigned(f, (if (v.s == 1) -v.m else v.m) * 2^(v.e - e) + k * 2^(-e), e, RNE)
  }
  pure def sum(f: Fmt, x: int, y: int): int = {                               // rounded up
    val v = decode(f, x)
    val w = decode(f, y)
    val e = imin(v.e, w.e)
    roundSigned(f, v.m * 2^(v.e - e) + w.m * 2^(w.e - e), e, RUP)
  }
  pure def unaryRange(fam: int, f: Fmt, a: int, r: int): bool = {
    val one = oneBits(f)
    val m = magOf(f, a)
    val g = magOf(f, r)
    val sa = sgnBit(f, a)
    val keepsSign = sgnBit(f, r) == sa
    if (fam == 58) g <= one and (m > one or (keepsSign and g <= m))
    else if (fam == 46) g <= one
    else if (fam == 60) m > one or (keepsSign and g >= m)
    else if (fam == 61 or fam == 48) keepsSign and g <= one
    else if (fam == 42) keepsSign and g >= m and g <= PI(f, 0, 2)
    else if (fam == 44) keepsSign and g <= m and g <= PI(f, 0, 2)
    else if (fam == 43) keepsSign and g <= m
    else if (fam == 59) keepsSign and g >= m
    else if (fam == 45) keepsSign
    else if (fam == 40) sgnBit(f, r) == 0 and r <= PI(f, 0, 1) and (if (sa == 0) r <= PI(f, 0, 2) else r + 1 >= PI(f, 0, 2))
    else if (fam == 47) le(f, one, r)
    else if (fam == 41) le(f, 0, r)
    else if (fam == 50) sgnBit(f, r) == 0 and (if (sa == 0) le(f, one, r) else le(f, r, one)) and (isInf(f, a) or le(f, plus(f, a, 1), r))
    else if (fam == 51 or fam == 52) sgnBit(f, r) == 0 and (if (sa == 0) le(f, one, r) else le(f, r, one))
    else if (fam == 53) keepsSign and le(f, neg(f, one), r) and le(f, a, r)
    else if (fam == 54) (isInf(f, a) or isInf(f, r) or le(f, r, plus(f, a, -1))) and (if (m >= one) le(f, 0, r) else le(f, r, 0))
    else if (fam == 55 or fam == 57) (if (m >= one) le(f, 0, r) else le(f, r, 0))
    else if (fam == 56) keepsSign and le(f, r, a)
    else if (fam == 49) sgnBit(f, r) == 0 and (if (sa == 0) le(f, r, one) else le(f, one, r) and le(f, r, 2 * f.one + one - f.one))
    else if (fam == 69 or fam == 70) g <= one
    else if (fam == 62) sa == 1 or sgnBit(f, r) == 0
    else if (fam == 63 or fam == 64) sa == 1 or isZero(f, r) or ((sgnBit(f, r) == 1) == (m > one and m < one + f.one))
    else true
  }
  pure def inRange(fam: int, f: Fmt, a: int, b: int, r0: int, r1: int): bool = {
    val one = oneBits(f)
    if (isNan(f, r0) or isNan(f, a) or (fam >= 65 and fam <= 67 and isNan(f, b))) true
    else if (fam == 68) unaryRange(58, f, a, r0) and unaryRange(46, f, a, r1)
    else if (fam == 65) sgnBit(f, r0) == sgnBit(f, a) and magOf(f, r0) <= PI(f, 0, 1) and (sgnBit(f, b) == 1 or magOf(f, r0) <= PI(f, 0, 2)) and (sgnBit(f, b) == 0 or magOf(f, r0) + 1 >= PI(f, 0, 2))
    else if (fam == 66) sgnBit(f, r0) == 0 and magOf(f, a) <= r0 and magOf(f, b) <= r0 and (isInf(f, a) or isInf(f, b) or isInf(f, r0) or r0 <= sum(f, magOf(f, a), magOf(f, b)))
    else if (fam == 67) {
      if (sgnBit(f, a) == 1) true
      else sgnBit(f, r0) == 0 and (if ((magOf(f, a) >= one) == (sgnBit(f, b) == 0)) le(f, one, r0) or magOf(f, a) == one or isZero(f, b) else le(f, r0, one) or magOf(f, a) == one or isZero(f, b))
    }
    else unaryRange(fam, f, a, r0)
  }
  // the rule a trace is judged by: 0 contract, 1 landmarks, 2 ranges, 3 contract and error profile, 4 correct rounding
  pure def obeys(rule: int, fam: int, f: Fmt, a: int, b: int, c: int, r0: int, r1: int): bool =
    if (rule == 1) exactlyOk(fam, f, a, b, r0)
    else if (rule == 2) inRange(fam, f, a, b, r0, r1)
    else if (rule == 3 and fam >= 40) asAccurate(fam, f, a, b, r0, r1)
    else if (rule == 4) roundedRight(fam, f, a, b, c, r0, r1)
    else accept(fam, f, a, b, c, r0, r1)
}
