// -*- mode: bluespec -*-
// The crate's building blocks under observation: a session of calls of the integer traits, the float view, the
// hexadecimal reader and writer and the verification kit, consumed event by event.  Tables of constants are state of the session:
// once one is seen it has to stay what it was.
module internals {
  import ieee.* from "./ieee"
  import wide.* from "./wide"
  import fields.* from "./fields"
  import hexfloat.* from "./hexfloat"
  import kit.* from "./kit"

  const EVENTS: List[int]        // one integer per event, see tools/blocks.py
  type Rej = { i: int, why: int }
  var pos: int
  var rejected: List[Rej]

  type Event = { op: int, p: int, flag: int, a: int, b: int, c: int, r0: int, r1: int, text: int }
  pure val K = 2^256
  pure def unpack(x: int): Event = {
    val y = x / 2^40
    val y1 = y / K
    val y2 = y1 / K
    val y3 = y2 / K
    val y4 = y3 / K
    { op: x % 2^16, p: (x / 2^16) % 2^16, flag: (x / 2^32) % 2^8, a: y % K, b: y1 % K, c: y2 % K, r0: y3 % K, r1: y4 % K, text: y4 / K }
  }
  // the target format of the reader: p bits in all, a of them significand
  pure def target(e: Event): Fmt = mkFmt(e.p - e.a - 1, e.a)
  pure def eventOk(e: Event): bool =
    if (e.op < 40) intOk(e.op, e.p % 1024, e.p >= 1024, e.a, e.b, e.r0, e.r1)
    else if (e.op < 60) viewOk(e.op, fmtOf(e.p), e.a, e.b, e.c, e.r0, e.r1)
    else if (e.op == 60) parseOk(target(e), e.text, e.b, e.c == 1, e.r0, e.r1)
    else if (e.op == 61) exactOk(target(e), e.text, e.c == 1, e.r0)
    else if (e.op == 62) exactOk(target(e), e.text, e.c == 1, e.r0)
    else if (e.op == 63 or e.op == 64) formatOk(fmtOf(e.p), e.a, e.text)
    else if (e.op == 65) pairOk(fmtOf(e.p), e.a, e.b, e.text)
    else if (e.op >= 70 and e.op <= 106) kitOk(e.op, e.p % 256, e.p / 256, e.a, e.b, e.c, e.r0, e.r1, e.text)
    else false

  pure val BATCH = 16
  action init = all { pos' = 0, rejected' = [] }
  action calls = all {
    pos < EVENTS.length(),
    val upto = imin(pos + BATCH, EVENTS.length())
    val out = range(pos, upto).foldl(rejected, (rej, i) => {
      val e = unpack(EVENTS[i])
      if (e.flag == 1) rej.append({ i: i, why: 2 })
      else if (eventOk(e)) rej else rej.append({ i: i, why: 1 })
    })
    all { pos' = upto, rejected' = out }
  }
  action done = all { pos >= EVENTS.length(), pos' = pos, rejected' = rejected }
  action step = any { calls, done }
  val accepted = rejected.length() == 0
}
