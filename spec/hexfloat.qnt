// -*- mode: bluespec -*-
// Hexadecimal floating-point text: a reader as a state machine over characters, and what it must deliver.
module hexfloat {
  import ieee.* from "./ieee"

  // Stages of the reader.  Numbers are read as sig * 2^exp with unbounded integers.
  type Stage = S0 | SSign | SZero | SInt | SFrac | SExp | SExpSign | SExpNum | SWord | SBad
  type Reader = { st: Stage, neg: bool, sig: int, exp: int, digits: int, pneg: bool, pexp: int, word: int, wlen: int }
  pure val READER: Reader = { st: S0, neg: false, sig: 0, exp: 0, digits: 0, pneg: false, pexp: 0, word: 0, wlen: 0 }

  pure def hexVal(c: int): int =
    if (c >= 48 and c <= 57) c - 48 else if (c >= 97 and c <= 102) c - 87 else if (c >= 65 and c <= 70) c - 55 else -1
  pure def lower(c: int): int = if (c >= 65 and c <= 90) c + 32 else c
  pure def isP(c: int): bool = c == 112 or c == 80
  pure def isX(c: int): bool = c == 120 or c == 88
  pure def bad(r: Reader): Reader = { ...r, st: SBad }

  pure def begin(r: Reader, c: int): Reader =
    if (c == 48) { ...r, st: SZero } else { ...r, st: SWord, word: lower(c), wlen: 1 }
  // one character
  pure def readChar(r: Reader, c: int): Reader = match r.st {
    | S0 => if (c == 45) { ...r, st: SSign, neg: true } else if (c == 43) { ...r, st: SSign } else begin(r, c)
    | SSign => begin(r, c)
    | SZero => if (isX(c)) { ...r, st: SInt } else bad(r)
    | SWord => { ...r, word: r.word * 256 + lower(c), wlen: r.wlen + 1 }
    | SInt => if (c == 46) { ...r, st: SFrac } else if (isP(c)) { ...r, st: SExp }
              else if (hexVal(c) >= 0) { ...r, sig: r.sig * 16 + hexVal(c), digits: r.digits + 1 } else bad(r)
    | SFrac => if (isP(c)) { ...r, st: SExp }
               else if (hexVal(c) >= 0) { ...r, sig: r.sig * 16 + hexVal(c), exp: r.exp - 4, digits: r.digits + 1 } else bad(r)
    | SExp => if (c == 45) { ...r, st: SExpSign, pneg: true } else if (c == 43) { ...r, st: SExpSign }
              else if (c >= 48 and c <= 57) { ...r, st: SExpNum, pexp: c - 48 } else bad(r)
    | SExpSign => if (c >= 48 and c <= 57) { ...r, st: SExpNum, pexp: c - 48 } else bad(r)
    | SExpNum => if (c >= 48 and c <= 57) { ...r, pexp: r.pexp * 10 + c - 48 } else bad(r)
    | SBad => r
  }
  // text as one integer, most significant character first, below a leading 1
  pure def textLen(t: int): int = (bitlen(t) - 1) / 8
  pure def charAt(t: int, i: int, n: int): int = (t / 256^(n - 1 - i)) % 256
  pure def read(t: int): Reader = {
    val n = textLen(t)
    range(0, n).foldl(READER, (r, i) => readChar(r, charAt(t, i, n)))
  }
  pure val W_INF = 6909542      // "inf"
  pure val W_NAN = 7233902      // "nan"

  // What a text denotes.  kind 0: not a number, 1: finite, 2: infinity, 3: NaN
  type Meaning = { kind: int, neg: bool, sig: int, e: int }
  pure def meaning(t: int): Meaning = {
    val r = read(t)
    match r.st {
    | SExpNum => if (r.digits > 0) { kind: 1, neg: r.neg, sig: r.sig, e: r.exp + (if (r.pneg) -r.pexp else r.pexp) } else { kind: 0, neg: r.neg, sig: 0, e: 0 }
    | SWord => { kind: if (r.wlen == 3 and r.word == W_INF) 2 else if (r.wlen == 3 and r.word == W_NAN) 3 else 0, neg: r.neg, sig: 0, e: 0 }
    | _ => { kind: 0, neg: r.neg, sig: 0, e: 0 }
    }
  }

  // status flags, as the code numbers them
  pure val UNDERFLOW = 16
  pure val OVERFLOW = 8
  pure val INEXACT = 32

  // does the magnitude of datum b equal sig * 2^e (sig > 0)?
  pure def equals(f: Fmt, b: int, sig: int, e: int): bool = {
    val v = decode(f, b)
    if (v.c != 0 or v.m == 0) false
    else if (bitlen(v.m) + v.e != bitlen(sig) + e) false
    else if (v.e >= e) v.m * 2^(v.e - e) == sig else v.m == sig * 2^(e - v.e)
  }
  // overflow: the result rounded with unbounded exponent lies beyond the largest finite number
  pure def overflows(f: Fmt, s: int, sig: int, e: int, mode: int): bool = {
    val k = bitlen(sig) + e            // 2^(k-1) <= value < 2^k
    if (k > f.bias + 1) true
    else if (k < f.bias + 1) false
    else {
      val sh = bitlen(sig) - (f.mb + 1)
      if (sh <= 0) false else roundDiv(s, sig, 2^sh, mode) == 2^(f.mb + 1)
    }
  }
  // the pair (bits, status) of reading a finite number into a format in a rounding direction
  pure def delivered(f: Fmt, m: Meaning, mode: int): (int, int) = {
    val s = if (m.neg) 1 else 0
    if (m.sig == 0) (withSign(f, s, 0), 0)
    else {
      val b = roundInt(f, s, m.sig, m.e, mode)
      if (overflows(f, s, m.sig, m.e, mode)) (b, OVERFLOW + INEXACT)
      else if (equals(f, b, m.sig, m.e)) (b, 0)
      else (b, INEXACT + (if (magOf(f, b) < f.one) UNDERFLOW else 0))
    }
  }
  // reading with rounding: result ok flag, bits, status
  pure def parseOk(f: Fmt, t: int, mode: int, ok: bool, bits: int, status: int): bool = {
    val m = meaning(t)
    if (m.kind == 0) not(ok)
    else if (m.kind == 2) ok and bits == withSign(f, if (m.neg) 1 else 0, f.inf) and status == 0
    else if (m.kind == 3) ok and isNan(f, bits) and sgnBit(f, bits) == (if (m.neg) 1 else 0) and status == 0
    else {
      val d = delivered(f, m, mode)
      ok and bits == d._1 and status == d._2
    }
  }
  // reading that refuses what it cannot represent
  pure def exactOk(f: Fmt, t: int, ok: bool, bits: int): bool = {
    val m = meaning(t)
    if (m.kind == 0) not(ok)
    else if (m.kind == 2) ok and bits == withSign(f, if (m.neg) 1 else 0, f.inf)
    else if (m.kind == 3) ok and isNan(f, bits) and sgnBit(f, bits) == (if (m.neg) 1 else 0)
    else {
      val d = delivered(f, m, RNE)
      if (d._2 == 0) ok and bits == d._1 else not(ok)
    }
  }
  // writing: the text denotes exactly the number
  pure def formatOk(f: Fmt, bits: int, t: int): bool = {
    val m = meaning(t)
    val s = m.neg == (sgnBit(f, bits) == 1)
    if (isNan(f, bits)) m.kind == 3 and s
    else if (isInf(f, bits)) m.kind == 2 and s
    else if (isZero(f, bits)) m.kind == 1 and m.sig == 0 and s
    else m.kind == 1 and s and m.sig > 0 and equals(f, bits, m.sig, m.e)
  }
  // two numbers written as "(A, B)": take the text apart at the comma
  pure def pairOk(f: Fmt, x: int, y: int, t: int): bool = {
    val n = textLen(t)
    val cut = range(0, n).foldl(-1, (k, i) => if (k < 0 and charAt(t, i, n) == 44) i else k)
    if (cut < 2 or n < cut + 4 or charAt(t, 0, n) != 40 or charAt(t, n - 1, n) != 41 or charAt(t, cut + 1, n) != 32) false
    else {
      val left = range(1, cut).foldl(1, (acc, i) => acc * 256 + charAt(t, i, n))
      val right = range(cut + 2, n - 1).foldl(1, (acc, i) => acc * 256 + charAt(t, i, n))
      formatOk(f, x, left) and formatOk(f, y, right)
    }
  }
}
