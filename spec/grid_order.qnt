// -*- mode: Bluespec; -*-
/// C08, systematically: all pairs of corner values, and every pair of values
/// that differ in exactly one bit.
module grid_order {
  import base.* from "./base"
  import order as f from "./order"

  pure val PAIRS: int = 18432
  pure val SIZE: int = 27136
  pure def point(k: int): Step =
    if (k < PAIRS) {
      val t = TYPES[k % 8]
      val i = (k / 8) % CORNERS
      val j = k / (8 * CORNERS)
      val l = [corner(t, i), corner(t, j), corner(t, i + 1), corner(t, j + 7), corner(t, i)]
      { ty: t, args: l, obs: f::observe(l) }
    } else {
      val z = spot((k - PAIRS) / 2)
      val base = cornerPat(z.t.bits, if (k % 2 == 0) 47 else 43)
      val p = if ((base / 2^z.i) % 2 == 0) base + 2^z.i else base - 2^z.i
      val a = unpat(z.t, base)
      val b = unpat(z.t, p)
      val l = if (z.i % 2 == 0) [a, b, a, wrap(z.t, -a), b] else [b, a, wrap(z.t, -b), b, a]
      { ty: z.t, args: l, obs: f::observe(l) }
    }

  var s: Step
  var at: int
  action from(k: int): bool = all { at' = k, s' = point(k % SIZE) }
  action init = from(0)
  action step = from(at + 1)
}
