// -*- mode: bluespec -*-
// A float as sign, biased exponent and fraction: what the accessors, constructors and constants deliver.
module fields {
  import ieee.* from "./ieee"
  import wide.* from "./wide"
  import exact.* from "./exact"

  pure def expField(f: Fmt, b: int): int = magOf(f, b) / f.one
  pure def u32(n: int): int = umod(n, 32)
  // constants, in the order the recorder numbers them; -1: judged otherwise
  pure def constant(f: Fmt, k: int): int =
    if (k == 0) 0
    else if (k == 1) f.sgn
    else if (k == 2) f.bias * f.one
    else if (k == 3) f.sgn + f.bias * f.one
    else if (k == 4) f.inf
    else if (k == 5) f.sgn + f.inf
    else if (k == 8) maxFin(f)
    else if (k == 9) f.sgn + maxFin(f)
    else if (k == 10) (f.bias - f.mb) * f.one
    else if (k == 11) piNear(f, 0)
    else if (k == 12) f.sgn + piNear(f, 0)
    else if (k == 13) piNear(f, -1)
    else if (k == 14) f.one
    else if (k == 15) f.w
    else if (k == 16) f.mb
    else if (k == 17) f.eb
    else if (k == 18) 2^f.eb - 1
    else if (k == 19) f.bias
    else if (k == 20) f.bias
    else if (k == 21) u32(1 - f.bias)
    else if (k == 22) u32(1 - f.bias - f.mb)
    else if (k == 23) f.sgn
    else if (k == 24) f.one - 1
    else if (k == 25) f.inf
    else if (k == 26) f.one
    else -1
  pure val PI_BITS = 200
  pure def piNear(f: Fmt, k: int): int = roundInt(f, 0, PI_FLOOR, k - PI_BITS, RNE)
  // floor(pi * 2^200)
  pure val PI_FLOOR = 5048344754617993871973410141242436836214643421488662971535368

  pure def viewOk(op: int, f: Fmt, a: int, b: int, c: int, r0: int, r1: int): bool =
    if (op == 40) r0 == bool01(isNan(f, a)) + 2 * bool01(isInf(f, a)) + 4 * sgnBit(f, a) + 8 * (1 - sgnBit(f, a)) + 16 * bool01(expField(f, a) == 0)
    else if (op == 41) r0 == expField(f, a) and r1 == u32(expField(f, a) - f.bias)
    else if (op == 42) r0 == magOf(f, a) % f.one
    else if (op == 43) r0 == (a % 2) * f.sgn + (b % 2^f.eb) * f.one + c % f.one
    else if (op == 44) {
      val k = sval(r0, 32)                 // a * 2^qmin = r1 * 2^(qmin + k - 1), r1 with its leading bit in place
      r1 >= f.one and r1 < 2 * f.one and k <= 1 and r1 == a * 2^(1 - k)
    }
    else if (op == 45) if (isNan(f, a)) isNan(f, r0) else r0 == withSign(f, sgnBit(f, a), f.bias * f.one)
    else if (op == 46) r0 == bool01(a == b) + 2 * bool01(a == b or (isNan(f, a) and isNan(f, b)))
    else if (op == 47) r0 == magOf(f, a) and r1 == withSign(f, sgnBit(f, b), magOf(f, a))
    else if (op == 48) r0 == a and r1 == a
    else if (op == 49) acceptExact(21, f, a, b, c, r0, 0)
    else if (op == 50) {
      if (b == 6) isNan(f, r0)
      else if (b == 7) isNan(f, r0) and sgnBit(f, r0) == 1
      else r0 == constant(f, b)
    }
    else if (op == 51) convertOk(f, fmtOf(2 * f.w), a, r0)
    else if (op == 52) convertOk(f, fmtOf(f.w / 2), a, r0)
    else if (op >= 54 and op <= 57) flagsOk(op, f, a, b, c, r0, r1)
    else false

  // ---- status flags: 1 invalid, 16 underflow, 32 inexact (bits of r1) -----------------------------
  pure val INVALID = 2^100
  // the exact x*y + z of numbers, as an integer and the exponent of its unit
  pure def sumOf(f: Fmt, x: int, y: int, z: int): { n: int, e: int } = {
    val a = decode(f, x)
    val b = decode(f, y)
    val c = decode(f, z)
    val e = imin(a.e + b.e, c.e)
    val pm = a.m * b.m * 2^(a.e + b.e - e)
    val cm = c.m * 2^(c.e - e)
    { n: (if (a.s != b.s) -pm else pm) + (if (c.s == 1) -cm else cm), e: e }
  }
  // a number below the smallest normal one in magnitude that has no representation
  pure def lostBelow(f: Fmt, n: int, e: int): bool =
    n != 0 and below(iabs(n), e, 1, 1 - f.bias) and e < f.qmin and n % 2^(f.qmin - e) != 0
  // m * 2^e < k * 2^q
  pure def below(m: int, e: int, k: int, q: int): bool = if (e >= q) m * 2^(e - q) < k else m < k * 2^(q - e)
  pure def flagsOk(op: int, f: Fmt, a: int, b: int, c: int, r0: int, r1: int): bool =
    if (op == 54) acceptExact(b, f, a, 0, 0, r0, 0) and (isNan(f, a) or r1 == (if (r0 == a) 0 else 32))
    else if (op == 55) acceptExact(8, f, a, 0, 0, r0, 0) and (isNan(f, a) or r1 == (if (sgnBit(f, a) == 1 and not(isZero(f, a))) INVALID else 0))
    else acceptExact(21, f, a, b, c, r0, 0) and {
      val s = sumOf(f, a, b, c)
      r1 == 0 or (op == 56 and r1 == 16 and isFin(f, a) and isFin(f, b) and isFin(f, c) and lostBelow(f, s.n, s.e))
    }
  pure def convertOk(f: Fmt, g: Fmt, a: int, r: int): bool =
    if (isNan(f, a)) isNan(g, r)
    else if (isInf(f, a)) r == withSign(g, sgnBit(f, a), g.inf)
    else { val v = decode(f, a)
           r == roundInt(g, v.s, v.m, v.e, RNE) }
}
