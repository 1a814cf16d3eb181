// -*- mode: bluespec -*-
// A register machine whose instructions are libm's exact functions.  Its random behaviours (quint run) are
// programs with all intermediate results; the real library executes the same programs on its own registers,
// feeding its own results forward, and must go through the same states.  After an instruction the machine may
// have to execute follow-ups that recompose, undo or repeat it; the law each follow-up must satisfy is an
// invariant of the machine, so it is checked here on the model and, by the replay, on the code.
module calc {
  import ieee.* from "./ieee"
  import exact.* from "./exact"

  const W: int
  pure val f: Fmt = fmtOf(W)

  // source registers, bits of neg: operands entering with their sign flipped (8: the integer operand),
  // d destination of a number (d2 of a second one), k integer register read or written
  type Act = { fam: int, s0: int, s1: int, s2: int, neg: int, d: int, d2: int, k: int }
  type Todo = { act: Act, expect: int }
  type Mach = { regs: List[int], ints: List[int] }

  var regs: List[int]      // 0..5 data, 6 the constant one, 7 the constant zero
  var ints: List[int]
  var act: Act             // what led here; fam 0: a load
  var todo: List[Todo]
  var lawful: bool

  pure val NOP: Act = { fam: 0, s0: 0, s1: 0, s2: 0, neg: 0, d: 0, d2: 0, k: 0 }
  pure val ONE = f.bias * f.one
  pure val UNARY = Set(1, 2, 3, 4, 5, 6, 7, 8)
  // instructions by weight; narrow and quad formats have fewer functions
  pure val SMALL = [1, 2, 3, 4, 5, 6, 8, 8, 10, 11, 11, 12, 13, 14, 15, 16, 17, 18, 18, 18, 22, 22, 22]
  pure val FULL = SMALL.concat([19, 19, 20, 20, 21, 21, 21, 21, 23, 24, 24, 25, 25, 26, 26])
  pure val FAMS = if (W == 16) SMALL else if (W == 128) SMALL.concat([21, 21, 21, 21]) else FULL

  pure def canon(fam: int, b: int): int = if (isNan(f, b) and fam != 7 and fam != 10) f.qnan else b
  pure def bit(x: int, i: int): bool = (x / 2^i) % 2 == 1
  pure def operand(m: Mach, a: Act, i: int): int = {
    val x = m.regs[if (i == 0) a.s0 else if (i == 1) a.s1 else a.s2]
    if (bit(a.neg, i)) neg(f, x) else x
  }
  pure def intOperand(m: Mach, a: Act): int = {
    val n = i32of(m.ints[a.k])
    u32of(if (bit(a.neg, 3) and n > I32MIN) -n else n)
  }
  pure def defined(m: Mach, a: Act): bool = {
    val x = operand(m, a, 0)
    val y = operand(m, a, 1)
    if (a.fam == 12 or a.fam == 13) not(isZero(f, x) and isZero(f, y))     // sign left open
    else if (a.fam == 24) isFin(f, x)                                      // exponent left open
    else if (a.fam == 26) isFin(f, x) and not(isNan(f, y)) and not(isZero(f, y))
    else true
  }
  pure def results(m: Mach, a: Act): Out =
    expected(a.fam, f, operand(m, a, 0), if (a.fam == 22) intOperand(m, a) else operand(m, a, 1), operand(m, a, 2))
  pure def exec(m: Mach, a: Act): Mach = {
    val o = results(m, a)
    if (a.fam == 23) { regs: m.regs, ints: m.ints.replaceAt(a.k, o.r0) }
    else {
      val r = m.regs.replaceAt(a.d, canon(a.fam, o.r0))
      if (a.fam == 25) { regs: r.replaceAt(a.d2, canon(25, o.r1)), ints: m.ints }
      else if (a.fam == 24 or a.fam == 26) { regs: r, ints: m.ints.replaceAt(a.k, o.r1) }
      else { regs: r, ints: m.ints }
    }
  }
  // what is to be executed after a, and what it must give
  pure def follow(m: Mach, a: Act, n: Mach): List[Todo] = {
    val x = operand(m, a, 0)
    val y = operand(m, a, 1)
    val r = n.regs[a.d]
    val kept = a.d != a.s0 and a.d2 != a.s0                     // the operands are still in their registers
    val kept2 = kept and a.d != a.s1
    val kept3 = kept2 and a.d != a.s2
    // recompose
    if (a.fam == 24) [{ act: { ...a, fam: 22, s0: a.d, neg: 0 }, expect: x }]
    else if (a.fam == 25) [{ act: { ...a, fam: 21, s0: a.d2, s1: 6, s2: a.d, neg: 0 }, expect: canon(25, x) }]
    // undo
    else if (a.fam == 20 and kept and not(isZero(f, x)) and not(isNan(f, r)) and isFin(f, x)) [{ act: { ...a, s0: a.d, s1: a.s0, neg: if (bit(a.neg, 0)) 2 else 0 }, expect: x }]
    else if (a.fam == 22 and i32of(n.ints[a.k]) > I32MIN)
      [{ act: { ...a, s0: a.d, neg: if (bit(a.neg, 3)) 0 else 8 }, expect: if (isFin(f, r) and magOf(f, r) >= f.one and isFin(f, x)) x else -1 }]
    // repeat
    else if (a.fam <= 6) [{ act: { ...a, s0: a.d, neg: 0 }, expect: r }]
    else if ((a.fam == 18 or a.fam == 19) and a.d != a.s1) [{ act: { ...a, s0: a.d, neg: a.neg - a.neg % 2 }, expect: r }]
    // exchange
    else if (a.fam >= 12 and a.fam <= 17 and kept2) [{ act: { ...a, s0: a.s1, s1: a.s0, neg: (a.neg / 2) % 2 + 2 * (a.neg % 2) }, expect: r }]
    else if (a.fam == 21 and kept3) [{ act: { ...a, s2: a.d, neg: a.neg % 4 + 4, d: (a.d + 1) % 6 }, expect: -1 }]    // the rounding error
    else if (a.fam == 8 and kept) [{ act: { ...a, fam: if (FAMS.indices().exists(i => FAMS[i] == 21)) 21 else 18, s0: a.d, s1: a.d, s2: a.s0, neg: 4, d: (a.d + 1) % 6 }, expect: -1 }]
    else []
  }
  // bounds between operands and results that need no formula
  pure def inBounds(m: Mach, a: Act): bool = {
    val x = operand(m, a, 0)
    val y = operand(m, a, 1)
    val r = results(m, a).r0
    if (isNan(f, r) or a.fam == 23) true
    else if (a.fam == 1) ord(f, r) >= ord(f, x)
    else if (a.fam == 2) ord(f, r) <= ord(f, x)
    else if (a.fam == 3) magOf(f, r) <= magOf(f, x)
    else if (a.fam == 18) magOf(f, r) <= magOf(f, x) and (isInf(f, y) or magOf(f, r) < magOf(f, y))
    else if (a.fam == 19 or a.fam == 26) magOf(f, r) <= magOf(f, x) and magOf(f, r) <= magOf(f, y)
    else if (a.fam == 11) sgnBit(f, r) == 0
    else if (a.fam == 14 or a.fam == 16) isNan(f, x) or isNan(f, y) or (ord(f, r) >= ord(f, x) and ord(f, r) >= ord(f, y))
    else if (a.fam == 15 or a.fam == 17) isNan(f, x) or isNan(f, y) or (ord(f, r) <= ord(f, x) and ord(f, r) <= ord(f, y))
    else if (a.fam == 24) isZero(f, x) or (magOf(f, r) >= ONE - f.one and magOf(f, r) < ONE)
    else if (a.fam == 25) magOf(f, r) < ONE
    else if (a.fam == 8) isRootRN(f, 2, x, r)
    else true
  }

  // ---- data to load: related to what is already in a register -------------------------
  pure def clampMag(n: int): int = imax(0, imin(n, f.inf))
  pure def datum(kind: int, s: int, near: int, rnd: int, j: int): int = {
    val e = imin(2^f.eb - 2, imax(0, magOf(f, near) / f.one + (j % 7 - 3)))
    val m = rnd % f.one
    val p = 2^(j % f.mb)
    val mant = if (kind % 4 == 0) m else if (kind % 4 == 1) p else if (kind % 4 == 2) f.one - p else (m / p) * p
    if (kind < 4) withSign(f, s, e * f.one + mant % f.one)                                                   // of similar size
    else if (kind < 6) withSign(f, s, clampMag(magOf(f, near) + j % 9 - 4))                                  // a neighbour
    else if (kind < 8) roundInt(f, s, rnd % 2^(1 + j % 12), -(j % 3), RNE)                                   // a small multiple of 1, 1/2, 1/4
    else if (kind == 8) withSign(f, s, rnd % f.one)                                                          // subnormal
    else if (kind == 9) withSign(f, s, clampMag(f.inf - (rnd % 2^(j % (f.mb + 2)))))                         // huge or infinite
    else if (kind < 14) withSign(f, s, imin(2^f.eb - 2, imax(0, f.bias + j % (2 * f.mb + 9) - f.mb - 4)) * f.one + mant % f.one)
    else if (kind == 14) withSign(f, s, imin(rnd % (2^(f.w - 1)), f.inf))                                    // anything but NaN
    else if (j % 8 == 0) f.qnan else withSign(f, s, 0)
  }
  pure def newInt(kind: int, rnd: int, j: int): int =
    if (kind < 6) u32of(j % 81 - 40)
    else if (kind < 10) u32of((j % 9 - 4) + (if (rnd % 2 == 0) f.bias else -f.bias) * (rnd % 3))
    else if (kind < 14) u32of(rnd % (2 * f.bias + 2 * f.mb) - f.bias - f.mb)
    else rnd % 2^32
  pure def dull(b: int): bool = not(isFin(f, b)) or isZero(f, b)

  action init = all {
    regs' = [ONE, neg(f, ONE), ONE + 1, f.one, f.inf - 1, ONE + f.one / 2, ONE, 0], ints' = [0, 1], act' = NOP, todo' = [], lawful' = true
  }
  action load = {
    nondet kind = 0.to(15).oneOf()
    nondet ikind = 0.to(15).oneOf()
    nondet s = 0.to(1).oneOf()
    nondet near = 0.to(5).oneOf()
    nondet at = 0.to(5).oneOf()
    nondet rnd = 0.to(2^128 - 1).oneOf()
    nondet j = 0.to(1000).oneOf()
    // dull registers are refilled first
    val d = 0.to(5).fold(-1, (a, i) => if (dull(regs[i]) and (a < 0 or i == at)) i else a)
    val dst = if (d < 0) at else d
    all {
      todo.length() == 0,
      regs' = regs.replaceAt(dst, datum(kind, s, regs[near], rnd, j)),
      ints' = ints.replaceAt(j % 2, newInt(ikind, rnd, j)),
      act' = { ...NOP, d: dst }, todo' = [], lawful' = true
    }
  }
  action compute = {
    nondet i = FAMS.indices().oneOf()
    nondet s0 = 0.to(5).oneOf()
    nondet s1 = 0.to(7).oneOf()
    nondet s2 = 0.to(7).oneOf()
    nondet ng = 0.to(15).oneOf()
    nondet d = 0.to(5).oneOf()
    nondet k = 0.to(1).oneOf()
    val m = { regs: regs, ints: ints }
    val a0 = { fam: FAMS[i], s0: s0, s1: s1, s2: s2, neg: ng, d: d, d2: (d + 1) % 6, k: k }
    val a = if (defined(m, a0)) a0 else { ...a0, fam: 7 }
    val n = exec(m, a)
    all {
      todo.length() == 0,
      regs' = n.regs, ints' = n.ints, act' = a,
      todo' = follow(m, a, n).select(t => defined(n, t.act)),
      lawful' = inBounds(m, a)
    }
  }
  action resume = all {
    todo.length() > 0,
    val m = { regs: regs, ints: ints }
    val t = todo[0]
    val n = exec(m, t.act)
    all {
      regs' = n.regs, ints' = n.ints, act' = t.act, todo' = todo.tail(),
      lawful' = inBounds(m, t.act) and (t.expect == -1 or n.regs[t.act.d] == t.expect)
    }
  }
  action step = if (todo.length() > 0) resume else any { load, compute, compute }
}
