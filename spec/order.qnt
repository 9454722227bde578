// -*- mode: Bluespec; -*-
/// C08 - comparison, equality, hashing and ordered collections.
module order {
  import base.* from "./base"

  pure def cmp(a: int, b: int): int = if (a < b) -1 else if (a == b) 0 else 1

  pure def insert(l: List[int], x: int): List[int] =
    l.select(y => y <= x).append(x).concat(l.select(y => y > x))
  pure def sorted(l: List[int]): List[int] = l.foldl([], insert)
  pure def distinct(l: List[int]): List[int] =
    sorted(l).foldl([], (acc, x) => if (length(acc) > 0 and acc[length(acc) - 1] == x) acc else acc.append(x))
  /// Number of elements of l below x: where a search in sorted l ends.
  pure def rank(l: List[int], x: int): int = length(l.select(y => y < x))

  pure def pairs(a: int, b: int): List[Obs] = [
    ("op", "eq", retB(a == b)), ("op", "ne", retB(a != b)),
    ("op", "lt", retB(a < b)), ("op", "le", retB(a <= b)),
    ("op", "gt", retB(a > b)), ("op", "ge", retB(a >= b)),
    ("const", "eq", retB(a == b)), ("branched", "eq", retB(a == b)),
    ("const", "lt", retB(a < b)), ("const", "le", retB(a <= b)),
    ("const", "gt", retB(a > b)), ("const", "ge", retB(a >= b)),
    ("const", "cmp", ret(cmp(a, b))), ("op", "cmp", ret(cmp(a, b))), ("op", "partial_cmp", ret(cmp(a, b))),
    ("op", "min", ret(min(a, b))), ("op", "max", ret(max(a, b)))
  ]

  pure def observe(l: List[int]): List[Obs] = {
    val a = l[0]
    val b = l[1]
    val c = l[2]
    pairs(a, b).concat([
      ("op", "clamp", if (b > c) Panic else ret(if (a < b) b else if (a > c) c else a)),
      // the same value obtained in another way is equal and hashes equally
      ("roundabout", "eq", retB(true)),
      ("roundabout", "hash", retB(true)),
      ("hash", "agrees with eq", retB(true)),
      ("collection", "sort", V(sorted(l))),
      ("collection", "sort_desc", V(rev(sorted(l)))),
      ("collection", "btree", V(distinct(l))),
      ("collection", "hashset", ret(length(distinct(l)))),
      ("collection", "min", ret(sorted(l)[0])),
      ("collection", "max", ret(sorted(l)[length(l) - 1])),
      ("collection", "rank", ret(rank(l, a)))
    ])
  }

  var s: Step
  var acc: List[int]

  /// Values that agree in most limbs: the order is decided in one place only.
  pure def near(t: Ty, a: int, e: int): int = {
    val k = e % 10
    val r = e / 10
    val p = pat(t, a)
    if (k == 0) a
    else if (k == 1) -1 - a
    else if (k <= 4) {
      // change one 32-bit piece
      val w = 2^(32 * (r % (t.bits / 32)))
      val old = (p / w) % 2^32
      val q = [0, 1, 2^31, 2^32 - 1, (old + 1) % 2^32, (old + 2^32 - 1) % 2^32, (old + 2^31) % 2^32][(r / 32) % 7]
      wrap(t, p + w * (q - old))
    }
    else if (k == 5) wrap(t, a + 2^(r % t.bits))
    else if (k == 6) wrap(t, a - 2^(r % t.bits))
    else if (k == 7) wrap(t, p + 2^(t.bits - 1))
    else genRel(t, a, r)
  }

  pure def draw(prev: List[int], e: int): Step = {
    val t = pickTy(e)
    val k = (e / 40) % 8
    val a = if (k == 0 and length(prev) > 0) wrap(t, prev[0]) else genVal(t, e / 2^9)
    val b = near(t, a, e / 2^1330)
    val c = near(t, b, e / 2^1500)
    val d = near(t, if (k % 2 == 0) a else b, e / 2^1700)
    val f = if (k < 4) near(t, c, e / 2^1900) else genVal(t, e / 2^1350)
    val l = [a, wrap(t, b), wrap(t, c), wrap(t, d), wrap(t, f)]
    { ty: t, args: l, obs: observe(l) }
  }

  action init = all { s' = noStep, acc' = [] }
  action step = {
    nondet e = 0.to(ENT).oneOf()
    val n = draw(acc, e)
    all { s' = n, acc' = sorted(n.args) }
  }

  val inv =
    length(s.args) == 0 or {
      val l = s.args
      and {
        l.indices().forall(i => fits(s.ty, l[i])),
        // total order on the drawn values
        l.indices().forall(i => l.indices().forall(j => cmp(l[i], l[j]) == -cmp(l[j], l[i]))),
        l.indices().forall(i => l.indices().forall(j => l.indices().forall(k =>
          (cmp(l[i], l[j]) <= 0 and cmp(l[j], l[k]) <= 0) implies cmp(l[i], l[k]) <= 0))),
        length(sorted(l)) == length(l),
        range(1, length(l)).indices().forall(i => sorted(l)[i] <= sorted(l)[i + 1]),
        l.indices().forall(i => length(l.select(x => x == l[i])) == length(sorted(l).select(x => x == l[i])))
      }
    }
}
