// -*- mode: Bluespec; -*-
/// C07, systematically: every corner value with the extreme scalars of every
/// scalar type; values around every limb boundary, where adding or subtracting
/// a scalar runs through all limbs below; and for every place of a quotient digit,
/// dividends that have the largest remainder left when that digit is due.
module grid_scalar {
  import base.* from "./base"
  import scalar as f from "./scalar"

  pure def scalars(c: Ty): List[int] = {
    val w = c.bits
    if (c.sg) [0, 1, 0 - 1, 2, 0 - 2, 10, hi(c), hi(c) - 1, lo(c), lo(c) + 1, 2^(w / 2), 0 - 2^(w / 2)]
    else [0, 1, 2, 3, 10, hi(c), hi(c) - 1, 2^(w - 1), 2^(w - 1) - 1, 2^(w - 1) + 1, 2^(w / 2), 2^(w / 2) - 1]
  }
  /// Scalar types of an unsigned type, then of a signed one.
  pure val KINDS: List[(bool, int, bool)] = [(false, 32, false), (false, 64, false), (false, 128, false), (true, 32, false),
    (true, 64, false), (true, 128, false), (true, 32, true), (true, 64, true), (true, 128, true)]

  pure val CORNERED: int = 20736
  pure def cornered(k: int): Step = {
    val q = KINDS[k % 9]
    val t = { bits: [256, 384, 512, 1024][(k / 9) % 4], sg: q._1 }
    val c = { bits: q._2, sg: q._3 }
    val a = corner(t, (k / 36) % CORNERS)
    val x = scalars(c)[k / (36 * CORNERS)]
    look(t, c, a, x)
  }
  pure def look(t: Ty, c: Ty, a: int, x: int): Step = { ty: t, args: [a, x, f::code(c)], obs: f::observe(t, c, a, x) }

  /// The limb boundaries of all widths, in units of 32 bits.
  pure val EDGES: int = 68
  pure def edge(j: int): { bits: int, at: int } =
    if (j < 8) { bits: 256, at: 32 * j }
    else if (j < 20) { bits: 384, at: 32 * (j - 8) }
    else if (j < 36) { bits: 512, at: 32 * (j - 20) }
    else { bits: 1024, at: 32 * (j - 36) }

  pure val EDGED: int = 12240
  pure def edged(k: int): Step = {
    val q = KINDS[k % 9]
    val e = edge((k / 9) % EDGES)
    val j = k / (9 * EDGES)
    val t = { bits: e.bits, sg: q._1 }
    val c = { bits: q._2, sg: q._3 }
    val x = [1, hi(c), if (c.sg) 0 - 1 else hi(c) - 1, if (c.sg) lo(c) else 2^(c.bits - 1)][j % 4]
    val m = 2^t.bits
    val p = 2^e.at
    look(t, c, unpat(t, [p - 1, p, m - p, m - p - 1, m / 2 - p][j / 4]), x)
  }

  pure val DUE: int = 6120
  pure def due(k: int): Step = {
    val q = KINDS[k % 9]
    val e = edge((k / 9) % EDGES)
    val j = k / (9 * EDGES)
    val t = { bits: e.bits, sg: q._1 }
    val c = { bits: q._2, sg: q._3 }
    val w = c.bits
    val v0 = [2^w - 1, 2^(w - 1), 2^(w - 1) + 1, 2^(w / 2) + 1, 3][j % 5]
    val v = if (c.sg) wrap(c, v0) else v0
    // the remainder v - 1 above place e.at, ones or nothing below
    val p = 2^e.at
    val a = (abs(v) - 1) * p + (if (j / 5 == 0) p - 1 else p / 2)
    val over = a >= 2^t.bits
    look(t, c, wrap(t, if (over) a / 2^(bitlen(a) - t.bits) else if (t.sg and k % 2 == 0) -a else a), v)
  }

  pure val SIZE: int = 39096
  pure def point(k: int): Step =
    if (k < CORNERED) cornered(k) else if (k < CORNERED + EDGED) edged(k - CORNERED) else due(k - CORNERED - EDGED)

  var s: Step
  var at: int
  action from(k: int): bool = all { at' = k, s' = point(k % SIZE) }
  action init = from(0)
  action step = from(at + 1)
}
