// -*- mode: bluespec -*-
// Fixed-width two's complement integers over unbounded ones, and what the crate's integer operations deliver.
module wide {
  import ieee.* from "./ieee"

  pure def umod(x: int, w: int): int = { val k = 2^w
                                         val m = x % k
                                         if (m < 0) m + k else m }
  pure def sval(x: int, w: int): int = if (x >= 2^(w - 1)) x - 2^w else x
  pure def val_(s: bool, x: int, w: int): int = if (s) sval(x, w) else x
  pure def minOf(s: bool, w: int): int = if (s) -(2^(w - 1)) else 0
  pure def maxOf(s: bool, w: int): int = if (s) 2^(w - 1) - 1 else 2^w - 1
  pure def fits(s: bool, v: int, w: int): bool = v >= minOf(s, w) and v <= maxOf(s, w)
  pure def bool01(b: bool): int = if (b) 1 else 0
  // bitwise or, 32 bits at a time by bits (w <= 256)
  pure def orBits(a: int, b: int, w: int): int =
    range(0, w).foldl(0, (acc, i) => if ((a / 2^i) % 2 == 1 or (b / 2^i) % 2 == 1) acc + 2^i else acc)

  // outcome (r0, r1) of operation op on type of width w, signed s; -1 in a place: anything
  pure def intWant(op: int, w: int, s: bool, a: int, b: int): (int, int) = {
    val x = val_(s, a, w)
    val y = val_(s, b, w)
    if (op == 1) (umod(x, 2 * w), 0)                                       // widen
    else if (op == 2) (a, 0)                                               // zero_widen
    else if (op == 3) (umod(x * 2^w, 2 * w), 0)                            // widen_hi
    else if (op == 4) (umod(x * y, 2 * w), 0)                              // widen_mul
    else if (op == 5) (a * b, 0)                                           // zero_widen_mul
    else if (op == 6) (a % 2^w, a / 2^w)                                   // lo_hi of the double width
    else if (op == 7) (b * 2^w + a, 0)                                     // from_lo_hi
    else if (op == 8) (umod(a + b, w), 0)                                  // add (wide, wrapping)
    else if (op == 9) (a / 2^b, 0)                                         // shr (wide)
    else if (op == 10) (if (x < y) 0 else if (x == y) 1 else 2, bool01(a == b))
    else if (op == 11) (orBits(a, b, w), 0)
    else if (op == 12) (2^w - 1 - a, 0)
    else if (op == 13)
      (if (b == 0) 0 else if (b == 1) 1 else if (b == 2) umod(minOf(s, w), w) else if (b == 3) maxOf(s, w) else if (b == 4) w else bool01(s), 0)
    else if (op == 14) (a, a)                                              // same bits under the other sign
    else if (op == 15) (2^w - 1, 0)
    else if (op == 20) (iabs(x - y), 0)
    else if (op == 21) (a / 2^(b % w), 0)
    else if (op == 22) (umod(a + b, w), 0)
    else if (op == 23) (umod(a - b, w), 0)
    else if (op == 24) (umod(a * b, w), 0)
    else if (op == 25) (umod(-a, w), 0)
    else if (op == 26) (umod(a * 2^(b % w), w), 0)
    else if (op == 27) (umod(fdiv(x, 2^(b % w)), w), 0)
    else if (op == 28) { val k = b % w
                         (umod(a * 2^k, w) + a / 2^(w - k), 0) }
    else if (op == 29) (umod(x + y, w), bool01(not(fits(s, x + y, w))))
    else if (op == 30) (umod(x - y, w), bool01(not(fits(s, x - y, w))))
    else if (op == 31) (if (fits(s, x + y, w)) umod(x + y, w) else 0, bool01(fits(s, x + y, w)))
    else if (op == 32) (if (fits(s, x - y, w)) umod(x - y, w) else 0, bool01(fits(s, x - y, w)))
    else if (op == 33) (w - bitlen(a), 0)
    else if (op == 34) (bitlen(a) - 1, 0)
    else if (op == 35) (bool01(a == 0), b % 2)
    else if (op == 36) (a, a)
    else if (op == 37) {                                                     // lossy casts: truncate or extend
      val k = 8 * 2^(b % 5)
      (umod(x, k), 0)
    }
    else (-2, -2)
  }
  pure def intOk(op: int, w: int, s: bool, a: int, b: int, r0: int, r1: int): bool = intWant(op, w, s, a, b) == (r0, r1)
}
