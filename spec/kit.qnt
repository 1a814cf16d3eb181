// -*- mode: bluespec -*-
// The repository's verification kit: the machinery that decides, for every test, which arguments are tried and
// which results pass.  Floats are points of a line of integers (their ordinals), where one step is one unit of the
// last place and both zeros lie at 0; generators are sequences over that line; the comparison is a predicate.
module kit {
  import ieee.* from "./ieee"
  import wide.* from "./wide"
  import fields.* from "./fields"

  pure val F8: Fmt = mkFmt(4, 3)
  pure def kitFmt(w: int): Fmt = if (w == 8) F8 else fmtOf(w)

  // ---- the line of floats -----------------------------------------------------------------------
  // the datum at ordinal o; at 0 the zero of the given sign
  pure def at(f: Fmt, o: int, s: int): int = {
    val k = imax(-f.inf, imin(f.inf, o))
    if (k > 0) k else if (k < 0) f.sgn - k else s * f.sgn
  }
  // n steps up (d = 1) or down (d = -1): NaNs stay, infinities are walls, and a walk that ends exactly on zero
  // arrives there with the sign it set out with
  pure def walk(f: Fmt, b: int, n: int, d: int): int =
    if (isNan(f, b) or n == 0) b else at(f, ord(f, b) + d * n, sgnBit(f, b))
  pure def nanConst(f: Fmt, k: int): int = {
    val half = 2^(f.mb - 1)
    if (k == 0) f.inf + half
    else if (k == 1) f.sgn + f.inf + half
    else if (k == 2) f.inf + f.one - 1
    else if (k == 3) f.inf + 1
    else if (k == 4) f.inf + half - 1
    else if (k == 5) f.sgn + f.inf + f.one - 1
    else if (k == 6) f.sgn + f.inf + 1
    else f.sgn + f.inf + half - 1
  }
  pure def cmp8(a: int, b: int): int =
    if (isNan(F8, a) or isNan(F8, b)) 3
    else if (ord(F8, a) < ord(F8, b)) 0 else if (ord(F8, a) == ord(F8, b)) 1 else 2

  // ---- evenly spaced sequences ------------------------------------------------------------------
  // from one end towards the other in steps - 1 equal strides of at least 1, as many as fit
  pure def stride(between: int, steps: int): int = imax(1, between / (steps - 1))
  pure def len(between: int, steps: int): int = imin(steps - 1, between) + 1
  pure def floatItem(f: Fmt, a: int, b: int, steps: int, k: int): int = walk(f, a, k * stride(ord(f, b) - ord(f, a), steps), 1)
  pure def floatLen(f: Fmt, a: int, b: int, steps: int): int = len(ord(f, b) - ord(f, a), steps)

  // ---- the comparison ---------------------------------------------------------------------------
  // list: the arguments were listed explicitly; basis: 0 the listed outcome itself, 1 multiprecision, 2 musl
  pure def passes(f: Fmt, got: int, want: int, tol: int, list: bool, basis: int): bool =
    if (isNan(f, got) and isNan(f, want)) not(list and basis == 0) or got == want
    else if (isNan(f, got) or isNan(f, want)) false
    else sgnBit(f, got) == sgnBit(f, want) and isInf(f, got) == isInf(f, want) and iabs(got - want) <= tol
  // the absolute value of a NaN is that NaN, bit for bit, whenever the reference can tell
  pure def passesAbsNan(f: Fmt, got: int, want: int, tol: int, list: bool, basis: int): bool =
    if (basis == 1 or (list and basis == 0)) passes(f, got, want, tol, list, basis) else got == want
  // the largest tolerance a function may be compared with: none for what is exactly determined
  pure def tolerance(fam: int, w: int, basis: int): int =
    if (fam == 0) -1
    else if (fam < 40) (if (basis == 2 and (fam == 9 or fam == 11)) 2 else 0)
    else if (fam >= 69) 8000000
    else if (basis == 2 and (fam == 63 or fam == 64)) 400
    else if (basis == 2 and fam == 68) 500
    else if (basis == 2 and fam == 62) 20
    else if (fam == 41 or fam == 49 or (basis == 2 and fam == 61)) 4
    else if (fam == 43 or fam == 45 or fam == 59 or fam == 61 or fam == 65 or (basis == 2 and fam == 47)) 2
    else if (fam == 51) 6
    else if (fam == 62) (if (w == 64) 20 else 1)
    else if (fam == 63 or fam == 64) 16
    else 1

  pure def unit(f: Fmt): int = f.bias * f.one
  // ---- exceptions -------------------------------------------------------------------------------
  // What the comparison is told to overlook.  0 nothing, 1 the result is known to be wrong and has to be, 2 whatever
  // the result, 3 a tolerance of a million.  b: reference, x and y: the data of the arguments (the first is an
  // integer for jn and yn), g and t: the result and the one wanted.
  pure val F80_32 = 0x42a00000                          // 80
  pure val F4E36_32 = 0x7c4097ce                        // 4e36
  pure val F1E34_32 = 0x77f684df                        // 1e34
  pure val F1E300_64 = 0x7e37e43c8800759c               // 1e300
  pure def overlooked(fam: int, w: int, b: int, x: int, y: int, g: int, t: int): int = {
    val f = fmtOf(w)
    val xn = isNan(f, x)
    val small = w == 32 or w == 64
    if (fam == 22 or fam == 21 or (not(small) and (fam < 10 or fam > 20))) 0
    else if (fam >= 73) {
      val n = sval(x, 32)
      if (w == 32 and b == 1 and fam == 74 and n > 200 and not(isInf(f, t)) and isInf(f, g)) 1
      else if (b == 1 and y == f.sgn + f.inf and ord(f, g) == 0 and ord(f, t) == 0 and not(isNan(f, g)) and not(isNan(f, t))) 1
      else if (b == 2 and w == 32 and fam == 74 and not(isInf(f, t)) and isInf(f, g) and iabs(g % f.sgn - t % f.sgn) < 10000000) 2
      else if (b == 2 and n > 4000) 2
      else if (b == 2 and n > 100) 3
      else 0
    }
    else if ((fam >= 10 and fam <= 20) or (fam >= 65 and fam <= 67)) {
      val yn = isNan(f, y)
      if (b == 1 and ((xn and isNan(f, g) and isNan(f, t)) or yn)) 2
      else if (fam == 13 and x == f.sgn and y == 0 and t == f.sgn and g == 0) 1
      else if (fam == 12 and x == f.sgn and y == 0 and t == 0 and g == f.sgn) 1
      else if ((fam == 12 or fam == 13) and b == 2 and xn != yn and isNan(f, t)) 1
      else 0
    }
    else if (fam == 26) (if (b == 1 and ((xn and isNan(f, g) and isNan(f, t)) or isNan(f, y))) 2 else 0)
    else if (fam == 53 and w == 32 and not(xn) and x > F80_32 and x < f.inf and isInf(f, g) and not(isInf(f, t))) (if (b == 2) 2 else 1)
    else if (fam == 59 and w == 32 and not(xn) and x % f.sgn > F80_32 and isNan(f, g)) (if (b == 2) 2 else 1)
    else if (w == 32 and (fam == 63 or fam == 64) and x > F4E36_32 and x <= f.inf and isInf(f, t) and not(isInf(f, g))) 2
    else if (fam == 69 and not(xn) and sgnBit(f, x) == 1 and x % f.sgn > (if (w == 32) F1E34_32 else F1E300_64)) 2
    else if (fam == 41 and not(xn) and ord(f, x) < -unit(f) and not(isNan(f, g) and isNan(f, t))) (if (b == 2) 2 else 1)
    else if ((fam == 63 or fam == 64) and not(xn) and ord(f, x) < 0 and not(isInf(f, x))) 2
    else 0
  }
  pure def passesWith(f: Fmt, act: int, g: int, t: int, tol: int, list: bool, b: int): bool = {
    val plain = passes(f, g, t, if (act == 3) 1000000 else tol, list, b)
    if (list and b != 2) passes(f, g, t, tol, list, b) else if (act == 1) not(plain) else act == 2 or plain
  }
  // an exception may be withdrawn, none may be added
  pure def floatVerdict(fam: int, w: int, x: int, y: int, g: int, t: int, tol: int, list: bool, b: int, ok: bool): bool = {
    val f = fmtOf(w)
    if (fam == 7 and (w == 32 or w == 64) and isNan(f, x)) ok == passesAbsNan(f, g, t, tol, list, b)
    else ok == passesWith(f, overlooked(fam, w, b, x, y, g, t), g, t, tol, list, b) or ok == passesWith(f, 0, g, t, tol, list, b)
  }
  pure def intVerdict(fam: int, w: int, x: int, g: int, t: int, list: bool, b: int, ok: bool): bool =
    if (fam == 64 and b == 1 and not(list) and x == fmtOf(w).sgn + fmtOf(w).inf and (g == t or g + t == 2^32)) true
    else ok == (g == t)
  pure def verdictOk(fam: int, w: int, x: int, y: int, g: (int, int), t: (int, int), tol: int, list: bool, b: int, ok: bool): bool = {
    val both = Set(true, false)
    // the kinds of the two results
    if (fam == 23) intVerdict(fam, w, x, g._1, t._1, list, b, ok)
    else if (fam == 24 or fam == 26 or fam == 64)
      both.exists(p => both.exists(q => floatVerdict(fam, w, x, y, g._1, t._1, tol, list, b, p) and intVerdict(fam, w, x, g._2, t._2, list, b, q) and ok == (p and q)))
    else if (fam == 25 or fam == 68)
      both.exists(p => both.exists(q => floatVerdict(fam, w, x, y, g._1, t._1, tol, list, b, p) and floatVerdict(fam, w, x, y, g._2, t._2, tol, list, b, q) and ok == (p and q)))
    else floatVerdict(fam, w, x, y, g._1, t._1, tol, list, b, ok)
  }

  // ---- the generators ---------------------------------------------------------------------------
  pure def first(fam: int, f: Fmt): int =
    if (fam == 40 or fam == 42) f.sgn + unit(f)
    else if (fam == 41) unit(f)
    else if (fam == 45 or fam == 56) f.sgn + unit(f) - 1
    else if (fam == 54 or fam == 55 or fam == 57 or fam == 63 or fam == 64) 1
    else if (fam == 8) 0
    else f.sgn + f.inf
  pure def last(fam: int, f: Fmt): int =
    if (fam == 40 or fam == 42) unit(f) else if (fam == 45) unit(f) - 1 else f.inf
  // where functions are delicate: around these the nearest data on both sides have to be tried
  pure def notable(fam: int, f: Fmt): List[int] = {
    val common = [0, f.sgn, unit(f), f.sgn + unit(f), f.one - 1, f.sgn + f.one - 1, f.inf, f.sgn + f.inf, first(fam, f), last(fam, f)]
    if (fam == 46 or fam == 58 or fam == 60 or fam == 68)
      common.concat([piNear(f, 0), f.sgn + piNear(f, 0), piNear(f, -1), f.sgn + piNear(f, -1)])
    else if (fam == 62) common.concat([f.sgn + (f.bias + 1) * f.one, f.sgn + (f.bias + 1) * f.one + f.one / 2])
    else common
  }
  pure val NEAR = 7
  pure def needed(fam: int, f: Fmt, b: int): bool =
    if (isNan(f, b)) 0.to(7).exists(k => nanConst(f, k) == b)
    else notable(fam, f).indices().exists(i => iabs(ord(f, b) - ord(f, notable(fam, f)[i])) <= NEAR)
  // nothing needed lies between two consecutive items
  pure def gapOk(fam: int, f: Fmt, a: int, b: int): bool =
    a < b and (b == a + 1 or (not(needed(fam, f, a + 1)) and not(needed(fam, f, b - 1))
      and notable(fam, f).indices().forall(i => { val q = notable(fam, f)[i]
                                                  q <= a or q >= b })
      and 0.to(7).forall(k => nanConst(f, k) <= a or nanConst(f, k) >= b)))
  // integers: the ends, zero, and for scaling the exponents where results change their nature
  pure def notableInt(fam: int, f: Fmt): List[int] = {
    val common = [-(2^31), 2^31 - 1, 0]
    val lo = 1 - f.bias
    if (fam == 22) common.concat([f.bias, lo, f.qmin, -f.qmin, f.bias - lo, lo - f.bias, f.bias - f.qmin, f.qmin - f.bias]) else common
  }
  pure def neededInt(fam: int, f: Fmt, x: int): bool = notableInt(fam, f).indices().exists(i => iabs(x - notableInt(fam, f)[i]) <= NEAR)
  pure def gapIntOk(fam: int, f: Fmt, a: int, b: int): bool =
    a < b and (b == a + 1 or (not(neededInt(fam, f, a + 1)) and not(neededInt(fam, f, b - 1))
      and notableInt(fam, f).indices().forall(i => { val q = notableInt(fam, f)[i]
                                                     q <= a or q >= b })))
  // so many steps per argument that their product reaches n
  pure def perArg(n: int, nargs: int): int =
    if (nargs == 1) n
    else range(0, 17).foldl(0, (m, i) => {
      val t = m + 2^(16 - i)
      if ((if (nargs == 2) t * t else t * t * t) < n) t else m
    }) + 1
  pure def arity(fam: int): int =
    if (fam == 21) 3
    else if ((fam >= 10 and fam <= 20) or fam == 22 or fam == 26 or (fam >= 65 and fam <= 67) or fam >= 73) 2 else 1
  // names: the width's suffix goes after the name of the function, before a final "_r"
  pure def len8(t: int): int = (bitlen(t) + 7) / 8
  pure def suffixed(b: int, w: int): int = {
    val s = if (w == 32) (0x66, 1) else if (w == 16) (0x663136, 3) else if (w == 128) (0x66313238, 4) else (0, 0)
    if (b % 65536 == 0x5f72) ((b / 65536) * 256^s._2 + s._1) * 65536 + 0x5f72
    else b * 256^s._2 + s._1
  }
  // text: 1, name, space, base
  pure def nameOk(t: int, w: int): bool = {
    val cut = range(1, len8(t)).foldl(0, (acc, i) => if (acc == 0 and (t / 256^i) % 256 == 32) i else acc)
    val b = t % 256^cut
    cut > 0 and t == (256^len8(suffixed(b, w)) + suffixed(b, w)) * 256^(cut + 1) + 32 * 256^cut + b
  }

  // ---- the table of functions --------------------------------------------------------------------
  // kinds of values, one digit each, the first the lowest: 1 the function's float, 2 an integer, 3 and 4 places for them
  pure def second(fam: int): int = if (fam == 24 or fam == 26 or fam == 64) 2 else if (fam == 25 or fam == 68) 1 else 0
  pure def argKinds(fam: int): int = if (fam == 22) 0x21 else if (fam >= 73) 0x12 else if (arity(fam) == 3) 0x111 else if (arity(fam) == 2) 0x11 else 1
  pure def resKinds(fam: int): int = if (fam == 23) 2 else 1 + 16 * second(fam)
  // in C a second result goes where a last argument points, and both of sincos do
  pure def cArgKinds(fam: int): int =
    if (fam == 68) 0x331 else if (second(fam) == 0) argKinds(fam) else argKinds(fam) + (second(fam) + 2) * 16^arity(fam)
  pure def cResKinds(fam: int): int = if (fam == 68) 0 else if (fam == 23) 2 else 1
  // which functions there are: both names of scaling count
  pure def functions(fam: int, w: int): int =
    if (w == 32 or w == 64) (if (fam == 22) 2 else if (fam <= 26 or fam >= 40) 1 else 0)
    else if (fam == 22) 2
    else if (fam == 9 or fam == 19 or fam == 20 or fam > 22) 0
    else if (fam == 21) (if (w == 128) 1 else 0) else 1
  pure val ALLFUNCTIONS = range(1, 75).foldl(0, (n, k) => n + functions(k, 16) + functions(k, 32) + functions(k, 64) + functions(k, 128))

  // ---- how much is tried -------------------------------------------------------------------------
  // kinds: 0 evenly spaced, 1 random, 2 extensive (asked: the number asked for, or 0)
  pure def planned(fam: int, w: int, kind: int, asked: int): int = {
    val start = if (kind == 0) 4000000 else if (kind == 1) 40000 else if (asked > 0) asked else 2^32
    val big = if (w >= 64 and kind < 2) 4 * start else start
    val wide = big * 2^(arity(fam) - 1)
    val fused = if (fam == 21) 3 * wide / 2 else wide
    // the remainder of binary128 numbers takes thousands of steps
    imax(10000, if (fam == 18 and w == 128 and kind != 1 and (kind != 2 or asked == 0)) fused / 50 else fused)
  }
  // the spaced values of one argument when m are wanted: all there are, if not more
  pure def spread(fam: int, f: Fmt, k: int, m: int): int = {
    val isInt = (fam == 22 and k == 1) or (fam >= 73 and k == 0)
    if (isInt and fam >= 73) imin(m, 65536 + 255)
    else if (isInt) imin(m, 2^32)
    else if (2^f.w <= m) 2^f.w
    else imin(m, floatLen(f, first(fam, f), last(fam, f), m))
  }
  pure def announced(fam: int, f: Fmt, kind: int, asked: int): int = {
    val m = perArg(planned(fam, f.w, kind, asked), arity(fam))
    if (kind == 1) m^arity(fam) else range(0, arity(fam)).foldl(1, (n, k) => n * spread(fam, f, k, m))
  }
  // Extensive tests: a list of names, "all", or "all_" and a float type, separated by commas
  pure def everyOf(w: int): int = if (w == 16) 0x616c6c5f663136 else if (w == 32) 0x616c6c5f663332 else if (w == 64) 0x616c6c5f663634 else 0x616c6c5f66313238
  // text: 1, list, space, name
  pure def selected(t: int, w: int): bool = {
    val cut = range(1, len8(t)).foldl(0, (acc, i) => if (acc == 0 and (t / 256^i) % 256 == 32) i else acc)
    val name = t % 256^cut
    val list = t / 256^(cut + 1)
    val n = len8(list)
    // item so far, found so far; the list's leading 1 is dropped, and a comma ends the last item
    val end = range(0, n).foldl((0, false), (acc, i) => {
      val ch = if (i == n - 1) 0x2c else (list / 256^(n - 2 - i)) % 256
      if (ch == 0x2c) (0, acc._2 or acc._1 == name or acc._1 == 0x616c6c or acc._1 == everyOf(w))
      else (acc._1 * 256 + ch, acc._2)
    })
    end._2
  }

  pure val H = 2^128
  pure def lo(x: int): int = x % H
  pure def hi(x: int): int = x / H
  // op: what was observed (kit/src)
  pure def kitOk(op: int, w: int, fam: int, a: int, b: int, c: int, r0: int, r1: int, text: int): bool = {
    val f = kitFmt(w)
    if (op == 70) r0 == walk(f, a, 1, 1)
    else if (op == 71) r0 == walk(f, a, 1, -1)
    else if (op == 72) r0 == walk(f, a, b, 1)
    else if (op == 73) r0 == walk(f, a, b, -1)
    else if (op == 74) r0 == nanConst(f, b)
    else if (op == 75) r0 == cmp8(a, b) and r1 == bool01(cmp8(a, b) == 1)
    else if (op == 76) r0 == (if (b < 120) f.sgn + f.inf - 1 - b else b - 120)
    else if (op == 77) r0 == neg(f, a)
    else if (op == 80) r0 == floatLen(f, a, b, lo(c)) and r1 == r0
    else if (op == 81) (if (hi(c) < floatLen(f, a, b, lo(c))) r1 == 0 and r0 == floatItem(f, a, b, lo(c), hi(c)) else r1 == 1)
    else if (op == 82) r0 == len(sval(b, 32) - sval(a, 32), lo(c)) and r1 == r0
    else if (op == 83) {
      val n = sval(b, 32) - sval(a, 32)
      if (hi(c) < len(n, lo(c))) r1 == 0 and r0 == umod(sval(a, 32) + hi(c) * stride(n, lo(c)), 32) else r1 == 1
    }
    else if (op == 84) r0 == b - c and r1 == (if (a == b) a - c else 2^64 - 1)
    else if (op == 85) r0 == bool01(passes(f, a, b, lo(c), hi(c) % 2 == 1, hi(c) / 2))
    else if (op == 86) r0 == bool01(passes(f, lo(a), lo(b), lo(c), hi(c) % 2 == 1, hi(c) / 2) and hi(a) == hi(b))
    else if (op == 87) r0 == bool01(passes(f, lo(a), lo(b), lo(c), hi(c) % 2 == 1, hi(c) / 2) and passes(f, hi(a), hi(b), lo(c), hi(c) % 2 == 1, hi(c) / 2))
    else if (op == 88) r0 == bool01(passesAbsNan(f, a, b, lo(c), hi(c) % 2 == 1, hi(c) / 2))
    else if (op == 89) r0 <= tolerance(fam, w, hi(c) / 2)
    else if (op == 90) gapOk(fam, f, a, b)
    else if (op == 91) a == 0 and b == 2^w - 1
    else if (op == 92) gapIntOk(fam, f, sval(a, 32), sval(b, 32))
    else if (op == 93) sval(a, 32) == -(2^31) and sval(b, 32) == 2^31 - 1
    else if (op == 94 or op == 96) {
      val m = perArg(c % 2^64, (c / 2^68) % 4)
      val isInt = (c / 2^72) % 2 == 1
      if (isInt and fam >= 73) (if (op == 96) r0 >= 2 else hi(c) == 0 or sval(a, 32) < sval(r0, 32))
      else if (isInt) (if (op == 96) r0 == len(2^32 - 1, m) else r0 == umod(hi(c) * stride(2^32 - 1, m) - 2^31, 32))
      else if (2^w <= m) (if (op == 96) r0 == 2^w else r0 == hi(c))
      else if (op == 96) r0 == floatLen(f, first(fam, f), last(fam, f), m)
      else r0 == floatItem(f, first(fam, f), last(fam, f), m, hi(c))
    }
    else if (op == 95) a == b and b == c and r0 == 0
    else if (op == 97) fam < 73 or iabs(sval(a, 32)) <= 2^20
    else if (op == 98) a == perArg(c % 2^64, (c / 2^68) % 4)^((c / 2^68) % 4) and a == b and r0 == 1
    else if (op == 100) verdictOk(fam, w, lo(a), hi(a), (lo(b), hi(b)), (lo(c), hi(c)), hi(r1) % 2^32, (hi(r1) / 2^32) % 2 == 1, hi(r1) / 2^33, r0 == 1)
    else if (op == 99) r0 == w and fam > 0 and r1 == arity(fam) and nameOk(text, w)
    else if (op == 101) a == argKinds(fam) and b == resKinds(fam) and c == cArgKinds(fam) and r0 == cResKinds(fam) and r1 == 1
    else if (op == 102) r0 == functions(fam, w)
    else if (op == 103) a == ALLFUNCTIONS and b == ALLFUNCTIONS and r0 == ALLFUNCTIONS
    else if (op == 104) r0 >= announced(fam, f, a, c)
    else if (op == 105) r0 == bool01(selected(text, w))
    else if (op == 106) r0 >= 5000000
    else false
  }
}
