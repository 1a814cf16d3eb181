// -*- mode: bluespec -*-
// Certified real arithmetic over unbounded integers.
// A Ball {c, r, e} stands for the set of reals x with |x - c*2^e| <= r*2^e.  Every operation returns a
// ball that contains the exact result for every choice of points in its operands, so a verdict drawn
// from an enclosure is sound however wide the enclosure happens to be.
module reals {
  import ieee.* from "./ieee"
  export ieee.*
  import exact.* from "./exact"

  type Ball = { c: int, r: int, e: int }
  pure val P = 150                       // working precision of the elementary functions, in bits

  pure def exactB(c: int, e: int): Ball = { c: c, r: 0, e: e }
  // keep at most p digits (plus slack) of the centre
  pure def norm(p: int, c: int, r: int, e: int): Ball = {
    val k = bitlen(iabs(c)) - p
    if (k <= 8) { c: c, r: r, e: e }
    else { c: fdiv(c, 2^k), r: r / 2^k + 2, e: e + k }
  }
  pure def bneg(a: Ball): Ball = { c: -a.c, r: a.r, e: a.e }
  pure def babs(a: Ball): Ball = { c: iabs(a.c), r: a.r, e: a.e }
  pure def bshl(a: Ball, k: int): Ball = { c: a.c, r: a.r, e: a.e + k }
  pure def bmul(p: int, a: Ball, b: Ball): Ball =
    norm(p, a.c * b.c, iabs(a.c) * b.r + iabs(b.c) * a.r + a.r * b.r, a.e + b.e)
  pure def bmulInt(p: int, a: Ball, k: int): Ball = norm(p, a.c * k, a.r * iabs(k), a.e)
  pure def badd(p: int, a: Ball, b: Ball): Ball = {
    val hi = if (a.e >= b.e) a else b
    val lo = if (a.e >= b.e) b else a
    val d = hi.e - lo.e
    if (d <= 6000) norm(p, hi.c * 2^d + lo.c, hi.r * 2^d + lo.r, lo.e)
    else if (hi.c == 0 and hi.r == 0) lo
    else {                               // lo is far below one unit of hi unless its centre is huge
      val l = bitlen(iabs(lo.c) + lo.r)
      if (l + p < d) { c: hi.c * 2^p, r: hi.r * 2^p + 1, e: hi.e - p }
      else norm(p, hi.c * 2^d + lo.c, hi.r * 2^d + lo.r, lo.e)
    }
  }
  pure def bsub(p: int, a: Ball, b: Ball): Ball = badd(p, a, bneg(b))
  pure def baddInt(p: int, a: Ball, k: int): Ball = badd(p, a, exactB(k, 0))
  // b must not contain zero
  pure def bdiv(p: int, a: Ball, b: Ball): Ball = {
    val bc = iabs(b.c)
    val k = imax(0, p + 4 + bitlen(bc) - bitlen(iabs(a.c) + a.r))
    val num = if (b.c < 0) -a.c else a.c
    val q = fdiv(num * 2^k, bc)
    // |a/b - ac/bc| <= (|ac| br + bc ar) / (bc (bc - br))
    val er = if (a.r == 0 and b.r == 0) 0 else ((iabs(a.c) * b.r + bc * a.r) * 2^k) / (bc * (bc - b.r)) + 1
    { c: q, r: er + 1, e: a.e - b.e - k }
  }
  pure def binv(p: int, b: Ball): Ball = bdiv(p, exactB(1, 0), b)
  // square root of a ball with a positive centre and radius far below it
  pure def bsqrt(p: int, a: Ball): Ball = {
    val k0 = imax(0, 2 * p + 4 - bitlen(a.c))
    val k = if ((a.e - k0) % 2 == 0) k0 else k0 + 1
    val n = a.c * 2^k
    val s = isqrt(n)
    // |sqrt(x) - sqrt(c)| <= r / sqrt(c) for r <= c
    { c: s, r: (a.r * 2^k) / imax(1, s) + 2, e: (a.e - k) / 2 }
  }
  pure def bpos(a: Ball): bool = a.c - a.r > 0
  pure def bnegv(a: Ball): bool = a.c + a.r < 0
  // fixed point with w fraction digits: (value, error in units)
  pure def toFix(w: int, a: Ball): (int, int) = {
    val k = a.e + w
    if (k >= 0) (a.c * 2^k, a.r * 2^k) else (fdiv(a.c, 2^(-k)), a.r / 2^(-k) + 2)
  }
  pure def fromFix(w: int, v: int, err: int): Ball = { c: v, r: err, e: -w }

  // ---- constants, from their defining series ---------------------------------------------
  pure val IDX: List[int] = range(0, 2600)
  pure def upto(n: int): List[int] = IDX.slice(0, n)
  // atan(1/k) and atanh(1/k) with w fraction digits, error below 2n units
  pure def atanInv(k: int, w: int): int = {
    val n = w / (2 * (bitlen(k) - 1)) + 2
    upto(n).foldl((0, 2^w / k), (a, i) => (if (i % 2 == 0) a._1 + a._2 / (2 * i + 1) else a._1 - a._2 / (2 * i + 1), a._2 / (k * k)))._1
  }
  pure def atanhInv(k: int, w: int): int = {
    val n = w / (2 * (bitlen(k) - 1)) + 2
    upto(n).foldl((0, 2^w / k), (a, i) => (a._1 + a._2 / (2 * i + 1), a._2 / (k * k)))._1
  }
  pure val CW = 2400                      // digits kept of the constants (computed with 40 more)
  pure val PI_C: int = (16 * atanInv(5, CW + 40) - 4 * atanInv(239, CW + 40)) / 2^40
  pure val LN2_C: int = (18 * atanhInv(26, CW + 40) - 2 * atanhInv(4801, CW + 40) + 8 * atanhInv(8749, CW + 40)) / 2^40
  pure val LN10_C: int = (46 * atanhInv(31, CW + 40) + 34 * atanhInv(49, CW + 40) + 20 * atanhInv(161, CW + 40)) / 2^40
  // Euler's constant (checked against its Brent-McMillan expansion by the specification's own tests)
  pure val EULER_C: int = 171130611548667216977511318774837169314131583065415971865342594458525011026398403998214458463326660551261852484016959909188519748710118798722108586408990532302551562688928751764756691591763213950835631651849876149648716818039209157809347997277213286191898988937464533494567930264106139068627613711436867332318378546149777705806323347316192346547721399893874623806942535906656087009653343433391999198050069232994725741365740917281776864184189342507986571567981319589061421284691343502605883805987420940110339202213759384642687952410400497333064573042267086379148757932358783827239078605273097423154891589942319533055809282343193130673048236034442400027071217963443018178426576774657207883408982657466246337984857098870634814
  // w <= CW - 8: value with error at most 2 units
  pure def piFix(w: int): int = PI_C / 2^(CW - w)
  pure def ln2Fix(w: int): int = LN2_C / 2^(CW - w)
  pure def constB(p: int, v: int): Ball = { c: v / 2^(CW - p - 8), r: 2, e: -(p + 8) }
  pure def piB(p: int): Ball = constB(p, PI_C)
  pure def ln2B(p: int): Ball = constB(p, LN2_C)
  pure def ln10B(p: int): Ball = constB(p, LN10_C)
  pure def eulerB(p: int): Ball = constB(p, EULER_C)

  // ---- exponential -----------------------------------------------------------------------
  // e^x for x = v*2^-w, 0 <= |x| < 0.36, fixed point in and out; error below 2^12 units beyond 2*err(v)
  pure def expKernel(w: int, v: int): int = {
    val x = fdiv(v, 256)
    val n = w / 10 + 3
    val t = upto(n).foldl(2^w, (s, i) => 2^w + fdiv(x * s, (n - i) * 2^w))
    upto(8).foldl(t, (s, i) => s * s / 2^w)
  }
  pure def bexp(p: int, a: Ball): Ball = {
    val w = p + 24
    val mag = bitlen(iabs(a.c) + a.r) + a.e
    // far outside the range of every format: any number beyond the largest finite one, resp. below the least, will do
    if (mag > 18) { if (a.c > 0) exactB(1, 100000) else { c: 1, r: 1, e: -100000 } }
    else {
      val fx = toFix(w, a)
      val l2 = ln2Fix(w)
      val k = fdiv(2 * fx._1 + l2, 2 * l2)
      val v = fx._1 - k * l2
      val err = fx._2 + 3 * iabs(k) + 3
      { c: expKernel(w, v), r: 2^12 + 2 * err, e: k - w }
    }
  }
  // e^x - 1 with relative accuracy
  pure def bexpm1(p: int, a: Ball): Ball = {
    val mag = bitlen(iabs(a.c)) + a.e
    if (mag > 18 and a.c > 0) bexp(p, a)
    else if (mag > -3) baddInt(p, bexp(p + 8, a), -1)
    else if (mag < -p) bmul(p, a, { c: 2^p, r: 1, e: -p })      // x (1 + h), |h| <= |x|
    else {
      val w = p + 8
      val x = toFix(w, a)._1
      val n = w / 3 + 2
      // (e^x - 1)/x = 1 + x/2 (1 + x/3 (...))
      val t = upto(n).foldl(2^w, (s, i) => 2^w + fdiv(x * s, (n + 1 - i) * 2^w))
      bmul(p, a, { c: t, r: 2^7 + toFix(w, a)._2, e: -w })
    }
  }

  // ---- logarithm -------------------------------------------------------------------------
  // sum of w^j/(2j+1) (sign = 1) or (-w)^j/(2j+1) (sign = -1), 0 <= w <= 2^-5 in fixed point
  pure def atanSum(w: int, u: int, sign: int): int = {
    val n = w / 5 + 2
    upto(n).foldl(0, (s, i) => 2^w / (2 * (n - 1 - i) + 1) + sign * (u * s / 2^w))
  }
  // 2 atanh(z), |z| < 0.176
  pure def twoAtanh(p: int, z: Ball): Ball = {
    val w = p + 12
    val zf = toFix(w, bmul(p + 12, z, z))
    val s = atanSum(w, imax(0, zf._1), 1)
    bshl(bmul(p, z, { c: s, r: w + zf._2 + 8, e: -w }), 1)
  }
  // natural logarithm of a positive ball
  pure def blog(p: int, a: Ball): Ball = {
    val l = bitlen(a.c)
    val q = if (2 * a.c * a.c < 2^(2 * l)) l - 1 else l
    val k = a.e + q
    val z = bdiv(p + 8, { c: a.c - 2^q, r: a.r, e: 0 }, { c: a.c + 2^q, r: a.r, e: 0 })
    val y = if (a.c == 2^q and a.r == 0) exactB(0, 0) else twoAtanh(p, z)
    if (k == 0) y else badd(p, y, bmulInt(p + 8, ln2B(p + 24), k))
  }
  // log(1 + u) with relative accuracy, u > -1
  pure def blog1p(p: int, u: Ball): Ball =
    if (u.c == 0 and u.r == 0) u
    else if (bitlen(iabs(u.c)) + u.e < -p) bmul(p, u, { c: 2^p, r: 1, e: -p })
    else if (bitlen(iabs(u.c)) + u.e <= -2) twoAtanh(p, bdiv(p + 8, u, badd(p + 16, u, exactB(2, 0))))
    else blog(p, badd(p + 1100, u, exactB(1, 0)))

  // ---- arc tangent -----------------------------------------------------------------------
  pure val AW = 700
  pure def atanRat(n: int, d: int): int = {   // atan(n/d), n/d < 0.4, with AW digits
    val u = 2^AW * n * n / (d * d)
    val m = AW / 2
    val s = upto(m).foldl(0, (s, i) => 2^AW / (2 * (m - 1 - i) + 1) - u * s / 2^AW)
    s * n / d
  }
  pure val ATAN_T: List[int] = {
    val q = PI_C / 2^(CW - AW + 2)
    [0, atanRat(1, 8), atanRat(1, 4), atanRat(3, 8), q - atanRat(1, 3), q - atanRat(3, 13), q - atanRat(1, 7), q - atanRat(1, 15), q]
  }
  // atan of t, 0 <= t <= 1 (up to its radius)
  pure def batan01(p: int, t: Ball): Ball = {
    val k = imin(8, imax(0, fdiv(2 * toFix(20, t)._1 * 8 + 2^20, 2^21)))
    if (k == 0 and bitlen(t.c) + t.e < -p) bmul(p, t, { c: 2^p, r: 1, e: -p })
    else {
      val u = if (k == 0) t else bdiv(p + 8, badd(p + 1100, bmulInt(p + 1100, t, 8), exactB(-k, 0)), badd(p + 16, bmulInt(p + 16, t, k), exactB(8, 0)))
      val w = p + 12
      val zf = toFix(w, bmul(p + 12, u, u))
      val s = atanSum(w, imax(0, zf._1), -1)
      val y = bmul(p, u, { c: s, r: w + zf._2 + 8, e: -w })
      if (k == 0) y else badd(p, y, { c: ATAN_T[k] / 2^(AW - p - 16), r: 2, e: -(p + 16) })
    }
  }
  // angle of the point (x, y), y >= 0 and both exact or relatively accurate, not both zero
  pure def bangle(p: int, y: Ball, x: Ball): Ball = {
    val ax = babs(x)
    // compare y and |x|
    val e = imax(bitlen(y.c) + y.e, bitlen(ax.c) + ax.e)
    val big = bsub(60, { c: shl(y.c, y.e - e + 80), r: 1, e: 0 }, { c: shl(ax.c, ax.e - e + 80), r: 1, e: 0 }).c > 0
    if (not(big)) {
      if (x.c > 0) batan01(p, bdiv(p + 8, y, ax)) else bsub(p, piB(p + 16), batan01(p, bdiv(p + 8, y, ax)))
    } else {
      val t = if (x.c == 0) exactB(0, 0) else batan01(p, bdiv(p + 8, ax, y))
      val h = bshl(piB(p + 16), -1)
      if (x.c >= 0) bsub(p, h, t) else badd(p, h, t)
    }
  }

  // ---- circular functions of an exact number m*2^e (m >= 0) --------------------------------
  pure def sinKernel(w: int, r: int): int = {
    val u = r * r / 2^w
    val n = w / 8 + 4
    r * upto(n).foldl(2^w, (s, i) => { val k = n - i
                                       2^w - u * s / (2^w * (2 * k) * (2 * k + 1)) }) / 2^w
  }
  pure def cosKernel(w: int, r: int): int = {
    val u = r * r / 2^w
    val n = w / 8 + 4
    upto(n).foldl(2^w, (s, i) => { val k = n - i
                                   2^w - u * s / (2^w * (2 * k) * (2 * k - 1)) })
  }
  pure def sgnMul(s: int, v: int): int = if (s < 0) -v else v
  // (sin, cos) of r*2^-w in quadrant q; err = error of r in units
  pure def quadrant(w: int, q: int, r: int, err: int): (Ball, Ball) = {
    val a = iabs(r)
    val s = { c: sgnMul(r, sinKernel(w, a)), r: 2^7 + err, e: -w }
    val c = { c: cosKernel(w, a), r: 2^7 + err, e: -w }
    if (q == 0) (s, c) else if (q == 1) (c, bneg(s)) else if (q == 2) (bneg(s), bneg(c)) else (bneg(c), s)
  }
  pure def bsincosW(w: int, m: int, e: int): (Ball, Ball) = {
    val l = bitlen(m) + e
    if (l < -(w / 2) - 10) (bmul(w, exactB(m, e), { c: 2^w, r: 1, e: -w }), { c: 2^w, r: 1, e: -w })
    else {
      val ww = w + imax(0, l) + 12
      val x = shl(m, e + ww)
      val h2 = PI_C / 2^(CW - ww + 1)
      val k = fdiv(2 * x + h2, 2 * h2)
      val r = x - k * h2
      // error: k units of 2^-ww from pi, one from x
      val r2 = fdiv(r, 2^(ww - w))
      quadrant(w, k % 4, r2, 4)
    }
  }
  // relative accuracy also next to the zeros: the distance of a double from a nonzero multiple of pi/2
  // exceeds 2^-62, so 70 extra digits leave more than P
  pure def bsincos(m: int, e: int): (Ball, Ball) = bsincosW(P + 70, m, e)
  // (sin, cos)(pi*x) for x = m*2^e >= 0
  pure def bsincospi(p: int, m: int, e: int): (Ball, Ball) =
    if (e >= 1) (exactB(0, 0), exactB(1, 0))
    else {
      val d = 2^(-e)                       // x = m/d
      val k = fdiv(4 * m + d, 2 * d)       // nearest multiple of 1/2
      val n = 2 * m - k * d                // pi*x = (k + n/d) pi/2, |n/d| <= 1/2
      val w = p + 70
      val r = fdiv(piFix(w + 8) * n, d * 2^9)
      if (n == 0) quadrant(w, k % 4, 0, 0) else {
        val a = iabs(n)
        if (bitlen(a) + e < -60) {         // relative accuracy for tiny arguments
          val y = bmul(p, bshl(piB(p + 8), -1), exactB(n, e))
          val s = bmul(p, y, { c: 2^110, r: 1, e: -110 })
          val c = { c: 2^110, r: 1, e: -110 }
          val q = k % 4
          if (q == 0) (s, c) else if (q == 1) (c, bneg(s)) else if (q == 2) (bneg(s), bneg(c)) else (bneg(c), s)
        } else quadrant(w, k % 4, r, 4)
      }
    }

  // ---- hyperbolic functions ----------------------------------------------------------------
  pure def bsinh(p: int, m: int, e: int): Ball = {   // m >= 0
    val l = bitlen(m) + e
    if (l < -p / 2 - 5) bmul(p, exactB(m, e), { c: 2^p, r: 1, e: -p })
    else if (l < -1) {
      val w = p + 8
      val x = shl(m, e + w)
      val u = x * x / 2^w
      val n = w / 8 + 4
      val s = upto(n).foldl(2^w, (s, i) => { val k = n - i
                                             2^w + u * s / (2^w * (2 * k) * (2 * k + 1)) })
      bmul(p, exactB(m, e), { c: s, r: 2^7, e: -w })
    } else {
      val t = bexp(p + 8, exactB(m, e))
      if (t.e > 90000) t else bshl(bsub(p, t, binv(p + 8, t)), -1)
    }
  }
  pure def bcosh(p: int, m: int, e: int): Ball =
    if (bitlen(m) + e < -p / 2 - 5) { c: 2^p, r: 1, e: -p }
    else {
      val t = bexp(p + 8, exactB(m, e))
      if (t.e > 90000) t else bshl(badd(p, t, binv(p + 8, t)), -1)
    }
  pure def btanh(p: int, m: int, e: int): Ball =
    if (bitlen(m) + e > 8) { c: 2^p, r: 1, e: -p }
    else bdiv(p, bsinh(p + 8, m, e), bcosh(p + 8, m, e))
}
