// -*- mode: bluespec -*-
// A library shared by threads, builds and entry points, seen as a history of calls.  State: everything learnt
// so far about the one function the library computes.  A call is an atomic step at its return; it is allowed
// iff it returned and each fact it yields agrees with what is known.  A library with hidden state, a race, a
// build-dependent path or an asymmetric branch produces a history with two different values for one key.
// An event of family 0 ends a history: the next one starts with nothing known.
module history {
  import ieee.* from "./ieee"
  import laws.* from "./laws"

  const CHUNKS: List[int]
  const EVENTS: int

  type Event = { fam: int, w: int, flag: int, a: int, b: int, c: int, r0: int, r1: int }
  type Rej = { i: int, why: int }
  type Acc = { rest: int, i: int, rej: List[Rej], known: Key -> int }

  var pos: int
  var seen: int
  var rejected: List[Rej]
  var known: Key -> int

  pure def fieldW(w: int): int = if (w < 32) 32 else w
  pure def take(x: int): (Event, int) = {
    val wc = (x / 128) % 4
    val w = if (wc == 0) 16 else if (wc == 1) 32 else if (wc == 2) 64 else 128
    val k = 2^fieldW(w)
    val y1 = x / 2048
    val y2 = y1 / k
    val y3 = y2 / k
    val y4 = y3 / k
    val y5 = y4 / k
    ({ fam: x % 128, w: w, flag: (x / 512) % 4, a: y1 % k, b: y2 % k, c: y3 % k, r0: y4 % k, r1: y5 % k }, y5 / k)
  }
  pure def learn(known: Key -> int, fs: List[Fact]): (bool, Key -> int) =
    fs.foldl((true, known), (acc, x) =>
      if (acc._2.keys().contains(x.k)) (acc._1 and acc._2.get(x.k) == x.v, acc._2)
      else (acc._1, acc._2.put(x.k, x.v)))

  pure def judge(acc: Acc): Acc = {
    val t = take(acc.rest)
    val ev = t._1
    if (ev.fam == 0) { rest: t._2, i: acc.i + 1, rej: acc.rej, known: Map() }
    else if (ev.flag != 0) { rest: t._2, i: acc.i + 1, rej: acc.rej.append({ i: acc.i, why: ev.flag + 1 }), known: acc.known }
    else {
      val l = learn(acc.known, facts(ev.fam, fmtOf(ev.w), ev.a, ev.b, ev.c, ev.r0, ev.r1))
      { rest: t._2, i: acc.i + 1, rej: if (l._1) acc.rej else acc.rej.append({ i: acc.i, why: 4 }), known: l._2 }
    }
  }
  pure val PER_CHUNK = 16
  pure val SLOTS: List[int] = range(0, PER_CHUNK)

  action init = all { pos' = 0, seen' = 0, rejected' = [], known' = Map() }
  action calls = all {
    pos < CHUNKS.length(),
    val out = SLOTS.foldl({ rest: CHUNKS[pos], i: seen, rej: rejected, known: known },
                (acc, k) => if (acc.i >= EVENTS) acc else judge(acc))
    all { pos' = pos + 1, seen' = out.i, rejected' = out.rej, known' = out.known }
  }
  action done = all { pos >= CHUNKS.length(), pos' = pos, seen' = seen, rejected' = rejected, known' = known }
  action step = any { calls, done }
  val accepted = rejected.length() == 0
}
