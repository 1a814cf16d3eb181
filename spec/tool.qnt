// -*- mode: bluespec -*-
// The command-line tool of crates/util: `util eval BASIS OPERATION ARGUMENT...`.  A run reads texts, applies a function
// and writes texts; nothing else.  A run is a path through  Reading -> Applying -> Written,  or it ends in Refused:
// a text that denotes nothing, a wrong number of arguments, an unknown function or an unknown basis must be refused, and
// nothing else may be.  What was written has to denote, in both notations, one result the function's contract allows
// for the arguments that the texts denote.
module tool {
  import ieee.* from "./ieee"
  import hexfloat.* from "./hexfloat"
  import landmarks.* from "./landmarks"

  // fam 0: no such function.  basis 0: the library, 1: the multiple-precision oracle, 2: none of the bases built in
  type Run = { fam: int, w: int, basis: int, printed: bool, args: List[int], out: int }
  const RUNS: List[Run]
  type Rej = { i: int, why: int }
  var pos: int
  var rejected: List[Rej]

  pure def chars(t: int): List[int] = {
    val n = textLen(t)
    range(0, n).foldl([], (l, i) => l.append(charAt(t, i, n)))
  }
  pure def text(l: List[int]): int = l.foldl(1, (x, c) => x * 256 + c)
  pure def ith(l: List[int], i: int): int = if (i < l.length()) l[i] else 0
  pure def has(l: List[int], c: int): bool = l.foldl(false, (h, x) => h or x == c)
  pure def rest(l: List[int], n: int): List[int] = l.slice(imin(n, l.length()), l.length())

  // ---- decimal texts -----------------------------------------------------------------------------------
  type Dec = { st: int, neg: bool, n: int, ten: int, digits: int, eneg: bool, e: int, word: int }
  // st 0: start, 1: after the sign, 2: integer part, 3: after the point, 4: e seen, 5: sign of the exponent seen,
  // 6: exponent, 7: a word, 8: not a number
  pure val DEC: Dec = { st: 0, neg: false, n: 0, ten: 0, digits: 0, eneg: false, e: 0, word: 1 }
  pure def digit(c: int): bool = c >= 48 and c <= 57
  pure def decChar(d: Dec, c: int): Dec =
    if (d.st == 8) d
    else if (d.st == 7) { ...d, word: d.word * 256 + lower(c) }
    else if (d.st >= 4) (
      if (digit(c)) { ...d, st: 6, e: d.e * 10 + c - 48 }
      else if (d.st == 4 and (c == 45 or c == 43)) { ...d, st: 5, eneg: c == 45 }
      else { ...d, st: 8 })
    else if (digit(c)) { ...d, st: if (d.st == 3) 3 else 2, n: d.n * 10 + c - 48, ten: if (d.st == 3) d.ten - 1 else 0, digits: d.digits + 1 }
    else if (c == 46 and d.st < 3) { ...d, st: 3 }
    else if (d.st == 0 and (c == 45 or c == 43)) { ...d, st: 1, neg: c == 45 }
    else if (lower(c) == 101 and d.digits > 0) { ...d, st: 4 }
    else if (d.st < 2) { ...d, st: 7, word: 256 + lower(c) }
    else { ...d, st: 8 }
  // kind 0: nothing, 1: (-1)^neg * n * 10^ten, 2: infinity, 3: NaN
  type Number = { kind: int, neg: bool, n: int, ten: int }
  pure def decimal(l: List[int]): Number = {
    val d = l.foldl(DEC, decChar)
    val kind =
      if (d.st == 7) (if (d.word == text([105, 110, 102]) or d.word == text([105, 110, 102, 105, 110, 105, 116, 121])) 2 else if (d.word == text([110, 97, 110])) 3 else 0)
      else if (d.digits > 0 and (d.st == 2 or d.st == 3 or d.st == 6)) 1 else 0
    { kind: kind, neg: d.neg, n: d.n, ten: d.ten + (if (d.eneg) -d.e else d.e) }
  }
  // digits in a radix, nothing else: the number, or -1
  pure def digits(l: List[int], radix: int): int =
    if (l.length() == 0) -1
    else l.foldl(0, (x, c) => { val v = hexVal(c) if (x < 0 or v < 0 or v >= radix) -1 else x * radix + v })

  // ---- what an argument denotes: the datum, or -1 ---------------------------------------------------------
  pure def nearest(f: Fmt, neg: bool, n: int, ten: int): int = {
    val s = if (neg) 1 else 0
    if (ten >= 0) roundRat(f, s, n * 10^ten, 1, 0, RNE) else roundRat(f, s, n, 10^(-ten), 0, RNE)
  }
  pure def floatOf(f: Fmt, l: List[int]): int = {
    val neg = ith(l, 0) == 45
    val body = if (neg) rest(l, 1) else l
    if (ith(body, 0) == 48 and ith(body, 1) == 120) (
      if (has(body, 112)) {
        val m = meaning(text(l))
        if (m.kind != 1) -1
        else { val d = delivered(f, m, RNE) if (d._2 == 0) d._1 else -1 }
      }
      else if (neg) -1
      else { val b = digits(rest(body, 2), 16) if (b >= 2^f.w) -1 else b })
    else if (not(neg) and ith(body, 0) == 48 and ith(body, 1) == 98) { val b = digits(rest(body, 2), 2) if (b >= 2^f.w) -1 else b }
    else {
      val d = decimal(l)
      if (d.kind == 1) nearest(f, d.neg, d.n, d.ten)
      else if (d.kind == 2) withSign(f, if (d.neg) 1 else 0, f.inf)
      else if (d.kind == 3) f.qnan
      else -1
    }
  }
  // a 32-bit integer, as its pattern
  pure def intOf(l: List[int]): int = {
    val hex = ith(l, 0) == 48 and ith(l, 1) == 120
    val bin = ith(l, 0) == 48 and ith(l, 1) == 98
    val signed = ith(l, 0) == 45 or ith(l, 0) == 43
    if (hex or bin) { val v = digits(rest(l, 2), if (hex) 16 else 2) if (v >= 2^31) -1 else v }
    else {
      val v = digits(if (signed) rest(l, 1) else l, 10)
      if (v < 0) -1
      else if (ith(l, 0) == 45) (if (v > 2^31) -1 else if (v == 0) 0 else 2^32 - v)
      else if (v >= 2^31) -1 else v
    }
  }

  // ---- signatures, by family (tools/trace.py) ---------------------------------------------------------------
  pure def arity(fam: int): int = if (fam == 21) 3 else if (fam >= 10 and fam <= 20 or fam == 22 or fam == 26 or fam >= 65 and fam <= 67 or fam == 73 or fam == 74) 2 else 1
  pure def intArg(fam: int, i: int): bool = fam == 22 and i == 1 or fam >= 73 and i == 0
  pure def results(fam: int): int = if (fam >= 24 and fam <= 26 or fam == 64 or fam == 68) 2 else 1
  pure def intResult(fam: int, i: int): bool = fam == 23 or (fam == 24 or fam == 26 or fam == 64) and i == 1
  pure def argOf(r: Run, i: int): int =
    if (i >= r.args.length()) 0 else if (intArg(r.fam, i)) intOf(chars(r.args[i])) else floatOf(fmtOf(r.w), chars(r.args[i]))

  // ---- what was written -------------------------------------------------------------------------------------
  pure def split(l: List[int], c: int): List[List[int]] = {
    val p = l.foldl(([], []), (s, x) => if (x == c) (s._1.append(s._2), []) else (s._1, s._2.append(x)))
    p._1.append(p._2)
  }
  // a result in its two notations: the datum, or -1 where they are not two notations of one datum
  pure def written(f: Fmt, d: List[int], h: List[int]): int =
    if (f.w == 16 or f.w == 128) {
      val b = if (ith(d, 0) == 48 and ith(d, 1) == 120 and d.length() == 2 + f.w / 4) digits(rest(d, 2), 16) else -1
      if (b >= 0 and formatOk(f, b, text(h))) b else -1
    } else {
      val m = meaning(text(h))
      val s = if (m.neg) 1 else 0
      val x = decimal(d)
      if (m.kind == 2) (if (x.kind == 2 and x.neg == m.neg) withSign(f, s, f.inf) else -1)
      else if (m.kind == 3) (if (x.kind == 3) withSign(f, s, f.qnan) else -1)
      else if (m.kind == 1 and x.kind == 1) {
        val b = delivered(f, m, RNE)
        if (b._2 == 0 and b._1 == nearest(f, x.neg, x.n, x.ten)) b._1 else -1
      } else -1
    }
  pure def writtenInt(d: List[int], h: List[int]): int = {
    val v = intOf(d)
    if (v >= 0 and not(has(d, 120)) and digits(h, 16) == v) v else -1
  }
  pure def one(r: Run, i: int, d: List[int], h: List[int]): int = if (intResult(r.fam, i)) writtenInt(d, h) else written(fmtOf(r.w), d, h)
  pure def bare(l: List[int], open: bool): List[int] = if (open) rest(l, 1).slice(0, imax(l.length() - 2, 0)) else l.slice(0, imax(l.length() - 1, 0))
  pure def endsIn(l: List[int], c: int): bool = l.length() > 1 and l[l.length() - 1] == c
  // the results a line shows: (a, b), -1 where it shows none
  pure def shown(r: Run): (int, int) = {
    val l = chars(r.out)
    val lines = split(l, 10)
    val w = split(lines[0], 32)
    if (lines.length() != 2 or lines[1].length() > 0) (-1, -1)
    else if (results(r.fam) == 1) (if (w.length() == 2) (one(r, 0, w[0], w[1]), 0) else (-1, -1))
    else if (w.length() != 4) (-1, -1)
    else if (ith(w[0], 0) != 40 or ith(w[2], 0) != 40 or not(endsIn(w[0], 44)) or not(endsIn(w[2], 44)) or not(endsIn(w[1], 41)) or not(endsIn(w[3], 41))) (-1, -1)
    else (one(r, 0, bare(w[0], true), bare(w[2], true)), one(r, 1, bare(w[1], false), bare(w[3], false)))
  }

  // ---- one run ------------------------------------------------------------------------------------------------
  type Phase = Reading | Applying(List[int]) | Written | Refused
  pure def reading(r: Run): Phase =
    if (r.fam == 0 or r.basis == 2 or r.args.length() != arity(r.fam)) Refused
    else {
      val a = [0, 1, 2].foldl([], (l, i) => l.append(argOf(r, i)))
      if (a[0] < 0 or a[1] < 0 or a[2] < 0) Refused else Applying(a)
    }
  // why: 0 allowed, 1 refused though it denotes a call, 2 printed though it denotes none, 3 the line shows no result,
  // 4 a result the function does not have
  pure def verdict(r: Run): int = match reading(r) {
    | Refused => if (r.printed) 2 else 0
    | Applying(a) => {
        if (not(r.printed)) 1
        else {
          val s = shown(r)
          if (s._1 < 0 or s._2 < 0) 3
          else if (obeys(if (r.basis == 1) 4 else 0, r.fam, fmtOf(r.w), a[0], a[1], a[2], s._1, s._2)) 0 else 4
        }
      }
    | _ => 0
  }

  pure val BATCH = 16
  action init = all { pos' = 0, rejected' = [] }
  action runs = all {
    pos < RUNS.length(),
    val upto = imin(pos + BATCH, RUNS.length())
    val out = range(pos, upto).foldl(rejected, (rej, i) => { val w = verdict(RUNS[i]) if (w == 0) rej else rej.append({ i: i, why: w }) })
    all { pos' = upto, rejected' = out }
  }
  action done = all { pos >= RUNS.length(), pos' = pos, rejected' = rejected }
  action step = any { runs, done }
  val accepted = rejected.length() == 0
}
