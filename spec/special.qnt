// -*- mode: bluespec -*-
// Enclosures of the error function, gamma function and Bessel functions.
module special {
  import ieee.* from "./ieee"
  import exact.* from "./exact"
  import reals.* from "./reals"
  export reals.*

  // ---- error function, x = m*2^e > 0 -------------------------------------------------------
  // erf x = 2/sqrt(pi) x e^(-x^2) sum_k (2x^2)^k / (2k+1)!!
  pure def erfSeries(p: int, m: int, e: int): Ball = {
    val x2 = toFix(p + 12, exactB(m * m, 2 * e))
    val w = p + 12
    val t = 2 * x2._1                                    // 2x^2
    // terms until far below 2^-w: at least 3*(2x^2) + w/4
    val n = 3 * (t / 2^w) + w / 3 + 8
    val s = upto(n).foldl((2^w, 2^w), (a, i) => { val q = a._2 * t / (2^w * (2 * i + 3))
                                                  (a._1 + q, q) })._1
    // rounding downward throughout: the sum is short by at most n units of the largest partial term
    val sb = { c: s, r: 4 * n + 4 * n * (s / 2^w), e: -w }
    val g = bexp(p + 8, exactB(-(m * m), 2 * e))
    bmul(p, bmul(p + 8, bmul(p + 8, exactB(m, e + 1), g), sb), binv(p + 8, bsqrt(p + 12, piB(p + 24))))
  }
  // erfc x for x >= 8 from the asymptotic series (alternating, error below the first omitted term)
  pure def erfcAsym(p: int, m: int, e: int): Ball = {
    val inv = bdiv(p + 8, exactB(1, 0), exactB(m * m, 2 * e + 1))     // 1/(2x^2)
    val w = p + 8
    val u = toFix(w, inv)._1
    val a = upto(61).foldl((2^w, 2^w), (a, i) => { val q = a._2 * u / 2^w * (2 * i + 1)
                                                   (if (i % 2 == 0) a._1 - q else a._1 + q, q) })
    val sb = { c: a._1, r: a._2 + 2^14, e: -w }
    val g = bexp(p + 8, exactB(-(m * m), 2 * e))
    bdiv(p, bmul(p + 8, g, sb), bmul(p + 8, exactB(m, e), bsqrt(p + 12, piB(p + 24))))
  }
  pure def berf(m: int, e: int): Ball = {
    val l = bitlen(m) + e
    if (l < -70) bmul(P, bdiv(P + 8, exactB(m, e + 1), bsqrt(P + 12, piB(P + 24))), { c: 2^130, r: 1, e: -130 })
    else if (l > 4) { c: 2^P, r: 1, e: -P }                            // 1 - erf(8) < 2^-96
    else if (l == 4) { c: 2^90, r: 1, e: -90 }
    else erfSeries(P, m, e)
  }
  pure def berfc(m: int, e: int): Ball = {                             // x > 0
    val l = bitlen(m) + e
    if (l < -70) { c: 2^P, r: 2^90, e: -P }
    else if (l > 13) { c: 1, r: 1, e: -100000 }
    else if (l >= 4) erfcAsym(P, m, e)
    else bsub(P, exactB(1, 0), erfSeries(P + 110, m, e))
  }

  // ---- gamma -------------------------------------------------------------------------------
  // Bernoulli numbers B_2 .. B_44 as fractions
  pure val BERN: List[(int, int)] = [(1, 6), (-1, 30), (1, 42), (-1, 30), (5, 66), (-691, 2730), (7, 6), (-3617, 510),
    (43867, 798), (-174611, 330), (854513, 138), (-236364091, 2730), (8553103, 6), (-23749461029, 870),
    (8615841276005, 14322), (-7709321041217, 510), (2577687858367, 6), (-26315271553053477373, 1919190),
    (2929993913841559, 6), (-261082718496449122051, 13530), (1520097643918070802691, 1806), (-27833269579301024235023, 690)]
  // log Gamma(z) for z = m*2^e >= 32: Stirling, error below the first omitted term
  pure def stirling(p: int, m: int, e: int): Ball = {
    val z = exactB(m, e)
    val lz = blog(p + 16, z)
    val main = bsub(p + 16, bmul(p + 16, badd(p + 1200, z, exactB(-1, -1)), lz), z)
    val c = bshl(blog(p + 16, bshl(piB(p + 24), 1)), -1)
    if (bitlen(m) + e > p + 8) { c: norm(p, main.c, main.r, main.e).c, r: norm(p, main.c, main.r, main.e).r + 4, e: norm(p, main.c, main.r, main.e).e }
    else {
      val w = p + 72                                     // B_42/(42*41) has 48 digits
      val iz = bdiv(p + 76, exactB(1, 0), z)
      val i1 = toFix(w, iz)._1
      val i2 = i1 * i1 / 2^w
      // sum B_2k / (2k(2k-1)) z^(1-2k), k = 1..21
      val s = upto(21).foldl((0, i1), (a, i) => { val b = BERN[i]
                                                 (a._1 + fdiv(a._2 * b._1, b._2 * (2 * i + 2) * (2 * i + 1)), a._2 * i2 / 2^w) })
      val rem = iabs(s._2 * BERN[21]._1) / (BERN[21]._2 * 44 * 43) + 2^56
      badd(p, badd(p + 16, main, c), { c: s._1, r: rem, e: -w })
    }
  }
  // (log Gamma(x + n) with x + n >= 32, product of x .. x+n-1) for x = m*2^e > 0
  pure def shifted(p: int, m: int, e: int): { lg: Ball, prod: Ball, n: int } = {
    val e1 = imin(e, 0)
    val m1 = m * 2^(e - e1)
    val fl = m1 / 2^(-e1)
    val n = if (fl >= 40) 0 else 40 - fl
    val prod = upto(n).foldl(exactB(1, 0), (a, i) => bmul(p + 16, a, exactB(m1 + i * 2^(-e1), e1)))
    { lg: stirling(p, m1 + n * 2^(-e1), e1), prod: prod, n: n }
  }
  pure def bgammaPos(p: int, m: int, e: int): Ball = {
    val l = bitlen(m) + e
    if (l > 12) exactB(1, 100000)
    else {
      val s = shifted(p + 16, m, e)
      val g = bexp(p + 8, s.lg)
      if (s.n == 0) g else bdiv(p, g, s.prod)
    }
  }
  // log Gamma(x), x > 0
  pure def blgammaPos(p: int, m: int, e: int): Ball =
    if (bitlen(m) + e > 40) stirling(p, m, e)
    else {
      val s = shifted(p, m, e)
      if (s.n == 0) s.lg else bsub(p, s.lg, blog(p + 8, s.prod))
    }
  // x = -m*2^e < 0, not an integer: 1 - x = 1 + m*2^e
  pure def onePlus(m: int, e: int): (int, int) = if (e >= 0) (m * 2^e + 1, 0) else (m + 2^(-e), e)
  // Gamma(-y) = -pi / (y sin(pi y) Gamma(y)) ; sign is that of the result
  pure def bgammaNeg(p: int, m: int, e: int): Ball = {
    val y = onePlus(m, e)
    val s = bsincospi(p + 8, m, e)._1           // sin(pi y); sin(pi x) = -sin(pi y)
    if (bitlen(m) + e > 12) { c: if (s.c > 0) -1 else 1, r: 0, e: -100000 }
    else bneg(bdiv(p, piB(p + 16), bmul(p + 8, s, bgammaPos(p + 8, y._1, y._2))))
  }
  // log |Gamma(-y)|
  pure def blgammaNeg(p: int, m: int, e: int): Ball = {
    val y = onePlus(m, e)
    val s = babs(bsincospi(p + 8, m, e)._1)
    val a = blog(p + 8, bdiv(p + 16, piB(p + 24), s))
    bsub(p, a, blgammaPos(p + 8, y._1, y._2))
  }

  // ---- Bessel functions of integer order n >= 0 at x = m*2^e > 0 ---------------------------
  // Power series.  xi: integer part of x (bounded by the caller), so |terms| < e^x.
  // J_n(x) = (x/2)^n / n! * sum_k (-1)^k (x^2/4)^k / (k! (n+1)...(n+k))
  pure def jSeriesSum(w: int, u: int, n: int, terms: int): int =
    upto(terms).foldl((2^w, 2^w), (a, i) => { val q = a._2 * u / (2^w * (i + 1) * (n + i + 1))
                                              (if (i % 2 == 0) a._1 - q else a._1 + q, q) })._1
  pure def halfPow(p: int, m: int, e: int, n: int): Ball =   // (x/2)^n / n!
    upto(n).foldl(exactB(1, 0), (a, i) => bdiv(p, bmul(p, a, exactB(m, e - 1)), exactB(i + 1, 0)))
  pure def intPart(m: int, e: int): int = if (e >= 0) m * 2^e else m / 2^(-e)
  // fixed point precision w such that the sum is good to p digits below max(1, ...): extra 1.5 x digits
  pure def jSeries(p: int, m: int, e: int, n: int): Ball = {
    val xi = intPart(m, e) + 1
    val w = p + 3 * xi / 2 + 16
    val u = toFix(w, exactB(m * m, 2 * e - 2))._1
    val terms = 2 * xi + w / 4 + 8
    val s = { c: jSeriesSum(w, u, n, terms), r: terms * 4 * 2^(3 * xi / 2 + 4), e: -w }
    if (n == 0) s else bmul(p + 8, s, halfPow(p + 16, m, e, n))
  }
  // Y_0 = 2/pi [ (ln(x/2)+g) J_0 + sum_{k>=1} (-1)^(k+1) H_k (x^2/4)^k / k!^2 ]
  pure def y0Series(p: int, m: int, e: int): Ball = {
    val xi = intPart(m, e) + 1
    val w = p + 3 * xi / 2 + 40
    val u = toFix(w, exactB(m * m, 2 * e - 2))._1
    val terms = 2 * xi + w / 4 + 8
    val s = upto(terms).foldl((0, 2^w, 0), (a, i) => {
      val q = a._2 * u / (2^w * (i + 1) * (i + 1))
      val h = a._3 + 2^w / (i + 1)
      (if (i % 2 == 0) a._1 + q * h / 2^w else a._1 - q * h / 2^w, q, h) })._1
    val sb = { c: s, r: terms * 64 * 2^(3 * xi / 2 + 8), e: -w }
    val lg = badd(p + 16 + 3 * xi / 2, blog(p + 24 + 3 * xi / 2, exactB(m, e - 1)), eulerB(p + 24 + 3 * xi / 2))
    bmul(p + 8, bshl(binv(p + 16, piB(p + 24)), 1), badd(p + 16 + 3 * xi / 2, bmul(p + 16 + 3 * xi / 2, lg, jSeries(p + 16, m, e, 0)), sb))
  }
  // Y_1 = -2/(pi x) + 2/pi ln(x/2) J_1 - (x/2)/pi sum_k (-1)^k [psi(k+1)+psi(k+2)] (x^2/4)^k / (k!(k+1)!)
  pure def y1Series(p: int, m: int, e: int): Ball = {
    val xi = intPart(m, e) + 1
    val pp = p + 3 * xi / 2 + 16
    val w = pp + 24
    val u = toFix(w, exactB(m * m, 2 * e - 2))._1
    val terms = 2 * xi + w / 4 + 8
    val g = EULER_C / 2^(CW - w)
    // psi(k+1) + psi(k+2) = -2g + H_k + H_{k+1}
    val s = upto(terms).foldl((0, 2^w, 0), (a, i) => {
      val h1 = a._3 + 2^w / (i + 1)
      val c = a._3 + h1 - 2 * g
      (if (i % 2 == 0) a._1 + fdiv(a._2 * c, 2^w) else a._1 - fdiv(a._2 * c, 2^w), a._2 * u / (2^w * (i + 1) * (i + 2)), h1) })._1
    val sb = { c: s, r: terms * 64 * 2^(3 * xi / 2 + 8), e: -w }
    val a1 = bshl(bmul(pp, blog(pp + 8, exactB(m, e - 1)), jSeries(p + 16, m, e, 1)), 1)
    val a2 = bmul(pp, exactB(m, e - 1), sb)
    val a3 = bdiv(pp, exactB(2, 0), exactB(m, e))
    bmul(p + 8, binv(pp, piB(pp + 8)), bsub(pp, bsub(pp, a1, a2), a3))
  }
  // Hankel's expansion for x >= 50 and order nu in {0, 1}: returns (J, Y); the remainders of both series
  // are below their first omitted terms (real argument, order below the number of terms).
  pure def hankel(p: int, m: int, e: int, nu: int): (Ball, Ball) = {
    val w = p + 12
    val ix = toFix(w, bdiv(p + 16, exactB(1, 0), exactB(m, e + 3)))._1      // 1/(8x)
    val a = upto(48).foldl((0, 0, 2^w), (a, i) => {
      val k = i + 1
      val nxt = fdiv(a._3 * (4 * nu * nu - (2 * k - 1) * (2 * k - 1)) * ix, 2^w * k)
      // term i contributes to P (even) or Q (odd) with alternating sign
      if (i % 4 == 0) (a._1 + a._3, a._2, nxt) else if (i % 4 == 1) (a._1, a._2 + a._3, nxt)
      else if (i % 4 == 2) (a._1 - a._3, a._2, nxt) else (a._1, a._2 - a._3, nxt) })
    val rem = 2 * iabs(a._3) + 2^14
    val pb = { c: a._1, r: rem, e: -w }
    val qb = { c: a._2, r: rem, e: -w }
    val sc = bsincos(m, e)
    // chi = x - (nu/2 + 1/4) pi ; cos chi, sin chi up to 1/sqrt 2
    val r2 = binv(p + 12, bsqrt(p + 16, exactB(2, 0)))
    val cm = bmul(p + 12, badd(p + 16, sc._2, sc._1), r2)     // cos(x - pi/4)
    val sm = bmul(p + 12, bsub(p + 16, sc._1, sc._2), r2)     // sin(x - pi/4)
    val c = if (nu == 0) cm else sm                           // cos(x - 3pi/4) = sin(x - pi/4)
    val s = if (nu == 0) sm else bneg(cm)                     // sin(x - 3pi/4) = -cos(x - pi/4)
    val amp = bsqrt(p + 12, bdiv(p + 16, exactB(2, 0), bmul(p + 20, piB(p + 24), exactB(m, e))))
    (bmul(p, amp, bsub(p + 8, bmul(p + 8, pb, c), bmul(p + 8, qb, s))),
     bmul(p, amp, badd(p + 8, bmul(p + 8, pb, s), bmul(p + 8, qb, c))))
  }
  pure val PBES = 120
  pure def bj(n: int, m: int, e: int): Ball =     // n in {0, 1}
    if (bitlen(m) + e < -70) { if (n == 0) { c: 2^120, r: 1, e: -120 } else bmul(P, exactB(m, e - 1), { c: 2^120, r: 1, e: -120 }) }
    else if (bitlen(m) + e <= 6) jSeries(PBES + 70, m, e, n) else hankel(PBES, m, e, n)._1
  pure def by(n: int, m: int, e: int): Ball =
    if (bitlen(m) + e <= 6) { if (n == 0) y0Series(PBES + 70, m, e) else y1Series(PBES + 70, m, e) } else hankel(PBES, m, e, n)._2
  // order n >= 2 with x < 1024 by the power series; (x/2)^n/n! vanishes when n is far above x
  pure def bjn(n: int, m: int, e: int): Ball =
    if (n <= 1) bj(n, m, e)
    else if (n * (bitlen(m) + e + 2 - bitlen(n)) < -1300)   // |J_n| <= (ex/2n)^n
      { c: 0, r: 1, e: -1300 }
    else jSeries(PBES, m, e, n)
  // Y_n by upward recurrence (all intervals, so precision grows with n)
  pure def byn(n: int, m: int, e: int): Ball =
    if (n <= 1) by(n, m, e)
    else {
      val pp = PBES + 2 * imin(n, intPart(m, e) + 1) + 40
      val a0 = y0Series(pp, m, e)
      val a1 = y1Series(pp, m, e)
      val ix = bdiv(pp + 16, exactB(2, 0), exactB(m, e))
      upto(n - 1).foldl((a0, a1), (a, i) => (a._2, bsub(pp + 16, bmul(pp + 16, bmulInt(pp + 16, ix, i + 1), a._2), a._1)))._2
    }
}
