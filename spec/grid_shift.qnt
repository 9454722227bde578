// -*- mode: Bluespec; -*-
/// C05, systematically: every distance from zero to past every width, on five
/// patterns of every type.
module grid_shift {
  import base.* from "./base"
  import shift as f from "./shift"

  pure val SIZE: int = 43520
  pure def point(k: int): Step = {
    val t = TYPES[k % 8]
    val v = (k / 8) % 5
    val n = k / 40
    val w = t.bits
    val p = [
      cornerPat(w, 47) + 2^(w - 1), 2^(w - 1) + 1, 2^(w - 1) - 1,
      // every other limb empty; only the lowest and the highest limb
      (2^w - 1) / (2^128 - 1) * (2^64 - 1), 2^w - 2^(w - 32) + 2^32 - 1
    ][v]
    val a = unpat(t, p)
    // distances of other types: a quarter of them negative
    val d = if (n % 4 == 3) 0 - n / 4 else n
    { ty: t, args: [a, n, d], obs: f::observe(t, a, n, d) }
  }

  var s: Step
  var at: int
  action from(k: int): bool = all { at' = k, s' = point(k % SIZE) }
  action init = from(0)
  action step = from(at + 1)
}
