// -*- mode: bluespec -*-
// The specification checked against itself.  On a format of six bits (64 data, values k/16 up to 14) every operation is
// defined a second time, by search over the data instead of by arithmetic on significands, and the machine visits
// every pair of operands.  In each state the two definitions agree, exactly the allowed results are accepted, and
// the facts that all results yield never contradict each other (laws.qnt is implied by exact.qnt).
module mini {
  import ieee.* from "./ieee"
  import exact.* from "./exact"
  import laws.* from "./laws"

  const START: int
  const STRIDE: int

  pure val M: Fmt = mkFmt(3, 2)
  pure val INF = 28
  // magnitudes 0..27 in units of 1/16, written down by counting: the step doubles every four data; 28 is where infinity begins
  pure val T: List[int] = range(1, 29).foldl([0], (l, g) => l.append(l[g - 1] + (if (g <= 8) 1 else 2^((g - 5) / 4))))
  pure val MAGS: List[int] = range(0, 29)
  pure val DATA: List[int] = range(0, 64)
  pure def mag(b: int): int = b % 32
  pure def sg(b: int): int = b / 32
  pure def nan(b: int): bool = mag(b) > INF
  pure def inf(b: int): bool = mag(b) == INF
  pure def units(b: int): int = if (sg(b) == 1) -T[mag(b)] else T[mag(b)]           // finite b
  pure val NAN = 30
  // nearest datum to n/d units (n, d >= 0), ties to even
  pure def near(n: int, d: int): int = MAGS.foldl(0, (best, g) => {
    val x = iabs(n - T[best] * d)
    val y = iabs(n - T[g] * d)
    if (y < x or (y == x and g % 2 == 0)) g else best
  })
  pure def big(n: int, d: int): int = if (n >= T[28] * d) INF else near(n, d)
  pure def signed(n: int, d: int, zs: int): int = if (n == 0) 32 * zs else if (n < 0) 32 + big(-n, d) else big(n, d)

  // ---- the second definitions -----------------------------------------------------------------
  pure def fma2(a: int, b: int, c: int): int = {
    val ps = (sg(a) + sg(b)) % 2
    if (nan(a) or nan(b) or nan(c)) NAN
    else if ((inf(a) and mag(b) == 0) or (inf(b) and mag(a) == 0)) NAN
    else if (inf(a) or inf(b)) (if (inf(c) and sg(c) != ps) NAN else 32 * ps + INF)
    else if (inf(c)) c
    else signed(units(a) * units(b) + 16 * units(c), 16, if (ps == 1 and sg(c) == 1) 1 else 0)
  }
  // to an integral value: the candidates are 0 .. 14, in direction d
  pure val INTS: List[int] = range(0, 16)
  pure def toInt(b: int, d: int): int =
    if (nan(b)) NAN else if (inf(b)) b
    else {
      val x = T[mag(b)]
      val k = INTS.foldl(0, (best, i) =>
        if (d == RNE) (if (iabs(x - 16 * i) < iabs(x - 16 * best) or (iabs(x - 16 * i) == iabs(x - 16 * best) and i % 2 == 0)) i else best)
        else if (d == RNA) (if (iabs(x - 16 * i) <= iabs(x - 16 * best)) i else best)
        else if (d == RTZ or (d == RDN and sg(b) == 0) or (d == RUP and sg(b) == 1)) (if (16 * i <= x) i else best)
        else (if (16 * best < x) i else best))
      32 * sg(b) + near(16 * k, 1)
    }
  pure def sqrt2(b: int): int =
    if (nan(b)) NAN else if (mag(b) == 0) b else if (sg(b) == 1) NAN else if (inf(b)) b
    else range(0, 28).foldl(0, (n, g) => if (64 * T[mag(b)] > (T[g] + T[g + 1]) ^ 2) n + 1 else n)
  pure def cbrt2(b: int): int =
    if (nan(b)) NAN else if (mag(b) == 0 or inf(b)) b
    else 32 * sg(b) + range(0, 28).foldl(0, (n, g) => if (8 * 256 * T[mag(b)] > (T[g] + T[g + 1]) ^ 3 or (8 * 256 * T[mag(b)] == (T[g] + T[g + 1]) ^ 3 and g % 2 == 1)) n + 1 else n)
  pure def fmod2(a: int, b: int): int =
    if (nan(a) or nan(b) or inf(a) or mag(b) == 0) NAN
    else if (inf(b)) a
    else 32 * sg(a) + near(range(0, 230).foldl(T[mag(a)], (x, i) => if (x >= T[mag(b)]) x - T[mag(b)] else x), 1)
  // (remainder, quotient)
  pure def rem2(a: int, b: int): (int, int) =
    if (nan(a) or nan(b) or inf(a) or mag(b) == 0) (NAN, 0)
    else if (inf(b)) (a, 0)
    else {
      val x = T[mag(a)]
      val y = T[mag(b)]
      val q = range(0, 230).foldl(0, (best, i) => {
        val d0 = iabs(x - best * y)
        val d1 = iabs(x - i * y)
        if (d1 < d0 or (d1 == d0 and i % 2 == 0)) i else best
      })
      val r = x - q * y
      (if (r == 0) 32 * sg(a) else if ((r < 0) != (sg(a) == 1)) 32 + near(iabs(r), 1) else near(iabs(r), 1),
       if (sg(a) == sg(b)) q else -q)
    }
  pure def under(a: int, b: int): bool = {                        // a < b, not NaN, zeros equal
    val x = if (inf(a)) (if (sg(a) == 1) -1000 else 1000) else units(a)
    val y = if (inf(b)) (if (sg(b) == 1) -1000 else 1000) else units(b)
    x < y
  }
  pure def next2(a: int, b: int): int =
    if (nan(a) or nan(b)) NAN
    else if (not(under(a, b)) and not(under(b, a))) b
    else {
      // the datum beyond a, towards b, that no other datum lies before
      val up = under(a, b)
      val n = DATA.foldl(-1, (best, d) =>
        if (nan(d) or not(if (up) under(a, d) else under(d, a))) best
        else if (best == -1 or (if (up) under(d, best) else under(best, d))) d else best)
      if (mag(n) == 0) 32 * sg(a) else n                           // a zero keeps the sign it was reached with
    }
  pure def pick2(isMax: bool, kind: int, a: int, b: int): int =
    if (nan(a) and nan(b)) NAN
    else if (nan(a) or nan(b)) (if (kind == 1) NAN else if (nan(a)) b else a)
    else if (mag(a) == 0 and mag(b) == 0) (if (isMax) (if (sg(a) == 0) a else b) else (if (sg(a) == 1) a else b))
    else if (isMax == under(a, b)) b else a
  pure def fdim2(a: int, b: int): int =
    if (nan(a) or nan(b)) NAN
    else if (not(under(b, a))) 0
    else if (inf(a) or inf(b)) INF
    else signed(units(a) - units(b), 1, 0)
  pure def scale2(a: int, n: int): int =
    if (nan(a)) NAN else if (inf(a) or mag(a) == 0) a
    else 32 * sg(a) + (if (n >= 0) big(T[mag(a)] * 2^n, 1) else big(T[mag(a)], 2^(-n)))
  // the exponent e with 2^e <= |a| < 2^(e+1)
  pure def exp2(a: int): int = range(-4, 4).foldl(-9, (best, e) => if (T[mag(a)] * 16 >= 2^(e + 8)) e else best)

  // ---- agreement --------------------------------------------------------------------------------
  pure def agree(fam: int, a: int, b: int, c: int, r: int): bool = {
    val w = expected(fam, M, a, b, c)
    acceptExact(fam, M, a, b, c, w.r0, w.r1) and (w.r0 == r or (nan(w.r0) and nan(r)))
  }
  pure def unaryOk(a: int): bool = and {
    agree(1, a, 0, 0, toInt(a, RUP)), agree(2, a, 0, 0, toInt(a, RDN)), agree(3, a, 0, 0, toInt(a, RTZ)), agree(4, a, 0, 0, toInt(a, RNA)),
    agree(5, a, 0, 0, toInt(a, RNE)), agree(8, a, 0, 0, sqrt2(a)),
    DATA.foldl(true, (ok, r) => ok and (isRootRN(M, 3, a, r) == (r == cbrt2(a) or (nan(a) and nan(r))))),
    DATA.foldl(true, (ok, r) => ok and (nan(a) or isRootRN(M, 2, if (sg(a) == 1) 0 else a, r) == (r == sqrt2(if (sg(a) == 1) 0 else a)))),
    nan(a) or inf(a) or mag(a) == 0 or (i32of(expected(23, M, a, 0, 0).r0) == exp2(a) and {
      val fr = expected(24, M, a, 0, 0)
      fr.r0 == scale2(a, -exp2(a) - 1) and i32of(fr.r1) == exp2(a) + 1 }),
    nan(a) or { val m = expected(25, M, a, 0, 0)
      m.r1 == toInt(a, RTZ) and (if (inf(a)) m.r0 == 32 * sg(a) else sg(m.r0) == sg(a) and units(m.r0) + units(m.r1) == units(a)) }
  }
  pure def pairOk(a: int, b: int): bool = and {
    agree(11, a, b, 0, fdim2(a, b)),
    agree(12, a, b, 0, pick2(true, 0, a, b)), agree(13, a, b, 0, pick2(false, 0, a, b)),
    agree(14, a, b, 0, pick2(true, 1, a, b)), agree(15, a, b, 0, pick2(false, 1, a, b)),
    agree(16, a, b, 0, pick2(true, 2, a, b)), agree(17, a, b, 0, pick2(false, 2, a, b)),
    agree(18, a, b, 0, fmod2(a, b)), agree(19, a, b, 0, rem2(a, b)._1), agree(20, a, b, 0, next2(a, b)),
    agree(26, a, b, 0, rem2(a, b)._1) and (nan(rem2(a, b)._1) or expected(26, M, a, b, 0).r1 == quo31(rem2(a, b)._2)),
    agree(22, a, u32of(b - 32), 0, scale2(a, b - 32)),
    // the position on the line orders data as their values do
    nan(a) or nan(b) or ((cmpBits(M, a, b) < 0) == under(a, b))
  }
  pure def fusedOk(a: int, b: int): bool = DATA.foldl(true, (ok, c) => ok and agree(21, a, b, c, fma2(a, b, c)))

  // all five rounding directions of n/d units
  pure def dir2(s: int, n: int, d: int, mode: int): int =
    if (mode == RNE) 32 * s + big(n, d)
    else if (mode == RNA) 32 * s + (if (n >= T[28] * d) INF else MAGS.foldl(0, (best, g) => if (iabs(n - T[g] * d) <= iabs(n - T[best] * d)) g else best))
    else if (mode == RTZ or (mode == RDN and s == 0) or (mode == RUP and s == 1)) 32 * s + range(0, 28).foldl(0, (best, g) => if (T[g] * d <= n) g else best)
    else 32 * s + range(0, 28).foldl(0, (k, g) => if (T[g] * d < n) g + 1 else k)
  pure def roundOk(n: int): bool = [1, 2, 3, 5, 7, 8, 12].foldl(true, (ok, d) => [RNE, RDN, RUP, RTZ, RNA].foldl(ok, (k, mode) =>
    k and roundRat(M, 0, n, d, -4, mode) == dir2(0, n, d, mode) and roundRat(M, 1, n, d, -4, mode) == dir2(1, n, d, mode)))
  pure val SPECIAL: List[int] = [0, 32, 28, 60, 30, 62, 27, 59, 1, 41]

  // ---- the machine --------------------------------------------------------------------------------
  var at: int
  var holds: bool
  var known: Key -> int
  pure val FAMS1 = [1, 2, 3, 4, 5, 6, 7, 8, 23, 24, 25]
  pure val FAMS2 = [10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 22, 26]
  pure def factsOf(fam: int, a: int, b: int, c: int): List[Fact] = {
    val w = expected(fam, M, a, b, c)
    if (fam == 26 and isNan(M, w.r0)) [] else facts(fam, M, a, b, c, w.r0, w.r1)
  }
  pure def learn(k: Key -> int, fs: List[Fact]): (bool, Key -> int) = fs.foldl((true, k), (acc, x) =>
    if (acc._2.keys().contains(x.k)) (acc._1 and acc._2.get(x.k) == x.v, acc._2) else (acc._1, acc._2.put(x.k, x.v)))
  // the pair met in this state, and its mirror images and exchange
  pure def all8(a: int, b: int): List[(int, int)] = [(a, b), (b, a), (neg(M, a), b), (a, neg(M, b)), (neg(M, a), neg(M, b)), (neg(M, b), neg(M, a))]
  pure def lawsOf(a: int, b: int): bool = {
    val l1 = FAMS1.foldl((true, Map()), (acc, fam) => [a, neg(M, a)].foldl(acc, (q, x) => {
      val l = learn(q._2, factsOf(fam, x, 0, 0))
      (q._1 and l._1, l._2) }))
    val l2 = FAMS2.foldl((l1._1, Map()), (acc, fam) => all8(a, b).foldl(acc, (q, x) => {
      val l = learn(q._2, factsOf(fam, x._1, if (fam == 22) u32of(b - 32) else x._2, 0))
      (q._1 and l._1, l._2) }))
    [0, 1, 9, 27, 28, 33, 41, 60].foldl(l2, (acc, c) => all8(a, b).foldl(acc, (q, x) => {
      val k = if (sg(x._1) + sg(x._2) == 1) neg(M, c) else c
      val l = learn(q._2, factsOf(21, x._1, x._2, k))
      (q._1 and l._1, l._2) }))._1
  }
  action init = all { at' = START, holds' = true, known' = Map() }
  action visit = all {
    at < 4096,
    at' = at + STRIDE,
    val a = at / 64
    val b = at % 64
    holds' = ((b % 16 != 3 or unaryOk(a)) and pairOk(a, b) and fusedOk(a, b) and lawsOf(a, b)
      and pairOk(SPECIAL[at % 10], SPECIAL[at / 10 % 10]) and fusedOk(SPECIAL[at % 10], SPECIAL[at / 10 % 10]) and roundOk(at)),
    known' = known
  }
  action finished = all { at >= 4096, at' = at, holds' = holds, known' = known }
  action step = any { visit, finished }
  val sound = holds
}
