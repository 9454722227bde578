// -*- mode: Bluespec; -*-
/// C01, systematically: all pairs of corner values, and every sequence of
/// carries and of borrows through up to eight limbs.
module grid_addsub {
  import base.* from "./base"
  import addsub as f from "./addsub"

  /// Pairs of corners.
  pure val PAIRS: int = 18432
  pure def pair(k: int): Step = {
    val t = TYPES[k % 8]
    val i = (k / 8) % CORNERS
    val j = k / (8 * CORNERS)
    look(t, corner(t, i), corner(t, j), (i + j + k % 8) % 2, corner(otherSign(t), j))
  }

  /// One limb of either operand for each thing a limb can do: a sum stops,
  /// passes on or makes a carry; a difference likewise.
  pure def chain(n: int, w: int, k: int, sub: bool): (int, int) = {
    val m = 2^w - 1
    val r = range(0, n).foldl({ a: 0, b: 0, w: 1, k: k }, (z, i) => {
      val d = z.k % 3
      val x = if (sub) [1, 0, 0][d] else [0, m, m][d]
      val y = [0, 0, 1][d]
      { a: z.a + z.w * x, b: z.b + z.w * y, w: z.w * 2^w, k: z.k / 3 }
    })
    (r.a, r.b)
  }
  pure val CHAINS: int = 13932
  /// Chains of four, six and eight 64-bit limbs, then of eight 32-bit limbs.
  pure def chained(k: int, sub: bool, sg: bool): Step = {
    val t = { bits: if (k < 81) 256 else if (k < 810) 384 else if (k < 7371) 512 else 256, sg: sg }
    val p =
      if (k < 81) chain(4, 64, k, sub)
      else if (k < 810) chain(6, 64, k - 81, sub)
      else if (k < 7371) chain(8, 64, k - 810, sub)
      else chain(8, 32, k - 7371, sub)
    val a = unpat(t, p._1)
    val b = unpat(t, p._2)
    look(t, a, b, (k / 7) % 2, wrap(otherSign(t), b))
  }

  pure def look(t: Ty, a: int, b: int, c: int, m: int): Step =
    { ty: t, args: [a, b, c, m], obs: f::observe(t, a, b, c, m) }

  pure val SIZE: int = 74160
  pure def point(k: int): Step =
    if (k < PAIRS) pair(k)
    else {
      val j = k - PAIRS
      chained(j / 4, j % 2 == 0, (j / 2) % 2 == 0)
    }

  var s: Step
  var at: int
  action from(k: int): bool = all { at' = k, s' = point(k % SIZE) }
  action init = from(0)
  action step = from(at + 1)
}
