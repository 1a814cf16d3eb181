// -*- mode: bluespec -*-
// The procedural macro for_each_function! of crates/libm-macros as a function of its invocation.  The table of functions
// is the state of the world; an invocation selects, per function, what the callback gets - or is refused.  A session is a
// sequence of invocations, each compiled by the real macro; what its callback got is compared call by call.
module macros {
  import ieee.* from "./ieee"
  import kit.* from "./kit"

  // Texts are integers: the characters, first one most significant, below a leading 1.
  // Templates are lists of tokens; k 0: the text v, 1: the function's name, 2: its base name, 3: an unknown MACRO_ identifier.
  type Token = { k: int, v: int }
  type Template = List[Token]
  type Attr = { metas: List[int], names: List[int] }
  type Arm = { names: List[int], body: Template }        // no names: the default arm
  // opt fields are lists of at most one element; emit: 0 FTy 1 CFn 2 CArgs 3 CRet 4 RustFn 5 RustArgs 6 RustRet 7 all 8 unknown
  // odd: 1 the callback is missing, 2 there is an unknown field, 3 a field is given twice, 4 fn_extra matches on something else, 5 an arm has a guard, 6 an arm has an attribute, 7 fn_extra is no match
  type Invocation = { emit: List[int], skip: List[int], only: List[List[int]], attrs: List[Attr], extra: List[Template], arms: List[List[Arm]], odd: int }
  type Got = { name: int, types: List[int], attrs: List[int], extra: List[int], fnExtra: List[int] }
  type Obs = { inv: Invocation, refused: bool, got: List[Got] }

  const SESSION: List[Obs]
  const NAMES: List[int]            // base names by family, first 0 (tools/trace.py)
  const LDEXP: int                  // the second name of family 22
  const LGAMMA_R: int               // the one name whose suffix goes inside
  const LGAMMAF_R: int
  type Rej = { i: int, why: int }
  var pos: int
  var rejected: List[Rej]

  pure def tlen(t: int): int = (bitlen(t) - 1) / 8
  pure def cat(a: int, b: int): int = { val n = 256^tlen(b) a * n + b - n }
  pure def chr(c: int): int = 256 + c
  pure def catAll(l: List[int]): int = l.foldl(1, cat)
  pure val COMMA = chr(44)
  pure val COMMASP = catAll([COMMA, chr(32)])
  pure def join(l: List[int], sep: int): int = l.foldl((1, true), (s, t) => (if (s._2) t else cat(cat(s._1, sep), t), false))._1

  // ---- the table ---------------------------------------------------------------------------------------------
  type Func = { name: int, base: int, fam: int, w: int }
  pure val F_F = chr(102)
  pure val F_16 = catAll([chr(102), chr(49), chr(54)])
  pure val F_128 = catAll([chr(102), chr(49), chr(50), chr(56)])
  pure def named(b: int, w: int): int =
    if (w == 64) b else if (w == 32) (if (b == LGAMMA_R) LGAMMAF_R else cat(b, F_F)) else cat(b, if (w == 16) F_16 else F_128)
  pure val TABLE: List[Func] = range(1, NAMES.length()).foldl([], (l, fam) =>
    [16, 32, 64, 128].foldl(l, (m, w) =>
      if (functions(fam, w) == 0) m
      else {
        val one = m.append({ name: named(NAMES[fam], w), base: NAMES[fam], fam: fam, w: w })
        if (functions(fam, w) == 2) one.append({ name: named(LDEXP, w), base: LDEXP, fam: fam, w: w }) else one
      }))
  pure def among(l: List[int], x: int): bool = l.foldl(false, (h, y) => h or x == y)
  pure val ALLNAMES: Set[int] = TABLE.foldl(Set(), (s, f) => s.union(Set(f.name)))

  // ---- types, as the compiler names them --------------------------------------------------------------------------
  pure val AMPMUT = catAll([chr(38), chr(109), chr(117), chr(116), chr(32)])
  pure val I32T = catAll([chr(105), chr(51), chr(50)])
  pure def fty(w: int): int = if (w == 16) F_16 else if (w == 32) catAll([chr(102), chr(51), chr(50)]) else if (w == 64) catAll([chr(102), chr(54), chr(52)]) else F_128
  pure def kindText(w: int, k: int): int = if (k == 1) fty(w) else if (k == 2) I32T else if (k == 3) cat(AMPMUT, fty(w)) else cat(AMPMUT, I32T)
  pure def kinds(x: int): List[int] = range(0, 4).foldl([], (l, i) => { val d = (x / 16^i) % 16 if (d == 0) l else l.append(d) })
  pure def kindTexts(w: int, x: int): List[int] = kinds(x).foldl([], (l, k) => l.append(kindText(w, k)))
  pure def parens(t: int): int = catAll([chr(40), t, chr(41)])
  pure def tupleOf(l: List[int]): int = if (l.length() == 1) parens(cat(l[0], COMMA)) else parens(join(l, COMMASP))
  pure def retOf(l: List[int]): int = if (l.length() == 1) l[0] else parens(join(l, COMMASP))
  pure def fnOf(args: List[int], ret: List[int]): int = {
    val f = catAll([chr(102), chr(110), parens(join(args, COMMASP))])
    if (ret.length() == 0) f else catAll([f, chr(32), chr(45), chr(62), chr(32), retOf(ret)])
  }
  // arguments come in order, the first in the lowest digit
  pure def typeText(f: Func, ty: int): int = {
    val ra = kindTexts(f.w, argKinds(f.fam))
    val rr = kindTexts(f.w, resKinds(f.fam))
    val ca = kindTexts(f.w, cArgKinds(f.fam))
    val cr = kindTexts(f.w, cResKinds(f.fam))
    if (ty == 0) fty(f.w) else if (ty == 1) fnOf(ca, cr) else if (ty == 2) tupleOf(ca) else if (ty == 3) retOf(cr)
    else if (ty == 4) fnOf(ra, rr) else if (ty == 5) tupleOf(ra) else retOf(rr)
  }

  pure val TYPETEXTS: int -> List[int] = TABLE.foldl(Map(), (m, f) => m.put(f.name, range(0, 7).foldl([], (l, ty) => l.append(typeText(f, ty)))))
  pure val BYNAME: int -> Func = TABLE.foldl(Map(), (m, f) => m.put(f.name, f))

  // ---- what an invocation means ---------------------------------------------------------------------------------
  pure def chosen(v: Invocation): List[Func] =
    TABLE.select(f => (v.only.length() == 0 or among(v.only[0], f.name)) and not(among(v.skip, f.name)))
  pure def armsOf(v: Invocation): List[Arm] = if (v.arms.length() == 0) [] else v.arms[0]
  pure def armFor(v: Invocation, name: int): List[Arm] = {
    val direct = armsOf(v).select(a => among(a.names, name))
    if (direct.length() > 0) direct else armsOf(v).select(a => a.names.length() == 0)
  }
  pure def mentioned(v: Invocation): List[int] = {
    val a = v.attrs.foldl(v.skip, (l, x) => l.concat(x.names))
    val b = armsOf(v).foldl(a, (l, x) => l.concat(x.names))
    if (v.only.length() == 0) b else b.concat(v.only[0])
  }
  pure def unknownToken(t: Template): bool = t.foldl(false, (h, x) => h or x.k == 3)
  pure def repeated(l: List[int]): bool = l.foldl((Set(), false), (s, x) => (s._1.union(Set(x)), s._2 or s._1.contains(x)))._2
  pure def refusedBy(v: Invocation): bool = {
    val sel = chosen(v)
    val armNames = armsOf(v).foldl([], (l, x) => if (x.names.length() == 0) l.append(0) else l.concat(x.names))
    or {
      v.odd != 0,
      mentioned(v).foldl(false, (h, n) => h or not(ALLNAMES.contains(n))),
      v.skip.length() > 0 and v.only.length() > 0,
      among(v.emit, 8),
      among(v.emit, 7) and v.emit.length() > 1,
      repeated(armNames),
      v.arms.length() > 0 and sel.foldl(false, (h, f) => h or armFor(v, f.name).length() == 0),
      v.extra.length() > 0 and sel.length() > 0 and unknownToken(v.extra[0]),
      sel.foldl(false, (h, f) => h or armFor(v, f.name).foldl(false, (g, a) => g or unknownToken(a.body)))
    }
  }
  // an unknown identifier in a text no callback gets may be reported as well
  pure def mayRefuse(v: Invocation): bool =
    refusedBy(v) or v.extra.foldl(false, (h, t) => h or unknownToken(t)) or armsOf(v).foldl(false, (h, a) => h or unknownToken(a.body))
  pure def filled(f: Func, t: Template): int = t.foldl(1, (x, tok) => cat(x, if (tok.k == 1) f.name else if (tok.k == 2) f.base else tok.v))
  pure val CFG = catAll([chr(99), chr(102), chr(103), chr(40)])
  pure val ENABLED = catAll([chr(95), chr(101), chr(110), chr(97), chr(98), chr(108), chr(101), chr(100), chr(41)])
  pure def gate(w: int): int = catAll([CFG, fty(w), ENABLED])
  pure def same(a: List[int], b: List[int]): bool = a == b
  pure def callOk(v: Invocation, f: Func, g: Got): bool = {
    val types = if (among(v.emit, 7)) range(0, 7) else v.emit
    val metas = v.attrs.foldl([], (l, a) => if (among(a.names, f.name)) l.concat(a.metas) else l)
    val gated = f.w == 16 or f.w == 128
    val rest = g.attrs.select(x => x != gate(f.w))
    and {
      same(g.types, types.foldl([], (l, ty) => l.append(TYPETEXTS.get(f.name)[ty]))),
      same(if (gated) rest else g.attrs, metas),
      g.attrs.length() - rest.length() == (if (gated) 1 else 0),
      same(g.extra, v.extra.foldl([], (l, t) => l.append(filled(f, t)))),
      same(g.fnExtra, if (v.arms.length() == 0) [] else [filled(f, armFor(v, f.name)[0].body)])
    }
  }
  // why: 0 allowed, 1 refused though it means something, 2 expanded though it must be refused, 3 the wrong functions,
  // 4 a callback got something else
  pure def verdict(o: Obs): int =
    if (refusedBy(o.inv)) (if (o.refused) 0 else 2)
    else if (o.refused) (if (mayRefuse(o.inv)) 0 else 1)
    else {
      val sel = chosen(o.inv)
      val names = o.got.foldl(Set(), (s, g) => s.union(Set(g.name)))
      if (o.got.length() != sel.length() or names != sel.foldl(Set(), (s, f) => s.union(Set(f.name)))) 3
      else if (o.got.foldl(true, (ok, g) => ok and callOk(o.inv, BYNAME.get(g.name), g))) 0 else 4
    }

  action init = all { pos' = 0, rejected' = [] }
  action invoke = all {
    pos < SESSION.length(),
    val w = verdict(SESSION[pos])
    all { pos' = pos + 1, rejected' = if (w == 0) rejected else rejected.append({ i: pos, why: w }) }
  }
  action done = all { pos >= SESSION.length(), pos' = pos, rejected' = rejected }
  action step = any { invoke, done }
  val accepted = rejected.length() == 0
}
