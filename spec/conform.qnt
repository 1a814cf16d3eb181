// -*- mode: bluespec -*-
// The system: a library under observation.  A session is a sequence of calls; every call is one atomic
// step (the public function's return is its linearisation point).  The library has no state of its own,
// so a behaviour is allowed iff every call returns, and returns an outcome the rule accepts (the function's
// contract, its landmarks or its range).  Relations between calls are history.qnt's subject.
//
// A trace recorded from the real code is packed into integers (see tools/trace.py) and consumed chunk by
// chunk; a call the specification does not allow is added to `rejected` and the session goes on, so that
// the whole trace is judged.
module conform {
  import ieee.* from "./ieee"
  import landmarks.* from "./landmarks"

  const CHUNKS: List[int]        // packed events, the first event in the low digits
  const EVENTS: int              // number of events in the trace
  const RULE: int                // 0 contract, 1 landmarks, 2 ranges, 3 contract and error profile, 4 correct rounding

  type Event = { fam: int, w: int, flag: int, a: int, b: int, c: int, r0: int, r1: int }
  type Rej = { i: int, why: int }            // why: 1 outcome, 2 panic, 3 no return

  var pos: int                               // next chunk
  var seen: int                              // events judged
  var rejected: List[Rej]

  pure def fieldW(w: int): int = if (w < 32) 32 else w
  // one event off the low end: (event, rest)
  pure def take(x: int): (Event, int) = {
    val fam = x % 128
    val wc = (x / 128) % 4
    val flag = (x / 512) % 4
    val w = if (wc == 0) 16 else if (wc == 1) 32 else if (wc == 2) 64 else 128
    val k = 2^fieldW(w)
    val y1 = x / 2048
    val y2 = y1 / k
    val y3 = y2 / k
    val y4 = y3 / k
    val y5 = y4 / k
    ({ fam: fam, w: w, flag: flag, a: y1 % k, b: y2 % k, c: y3 % k, r0: y4 % k, r1: y5 % k }, y5 / k)
  }

  // The contract of a single call
  pure def returned(ev: Event): bool = ev.flag == 0
  pure def callOk(ev: Event): bool = obeys(RULE, ev.fam, fmtOf(ev.w), ev.a, ev.b, ev.c, ev.r0, ev.r1)

  type Acc = { rest: int, i: int, rej: List[Rej] }

  pure def judge(acc: Acc): Acc = {
    val t = take(acc.rest)
    val ev = t._1
    val why =
      if (ev.flag == 1) 2
      else if (ev.flag == 2) 3
      else if (not(callOk(ev))) 1
      else 0
    { rest: t._2, i: acc.i + 1,
      rej: if (why == 0) acc.rej else acc.rej.append({ i: acc.i, why: why }) }
  }

  pure val PER_CHUNK = 16
  pure val SLOTS: List[int] = range(0, PER_CHUNK)

  action init = all {
    pos' = 0, seen' = 0, rejected' = []
  }

  // consume the next chunk: PER_CHUNK calls of the session
  action calls = all {
    pos < CHUNKS.length(),
    val out = SLOTS.foldl({ rest: CHUNKS[pos], i: seen, rej: rejected },
                (acc, k) => if (acc.i >= EVENTS) acc else judge(acc))
    all { pos' = pos + 1, seen' = out.i, rejected' = out.rej }
  }
  action done = all {
    pos >= CHUNKS.length(),
    pos' = pos, seen' = seen, rejected' = rejected
  }
  action step = any { calls, done }

  val accepted = rejected.length() == 0
  val allRead = seen == EVENTS
}
