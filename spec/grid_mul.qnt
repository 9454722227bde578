// -*- mode: Bluespec; -*-
/// C02, systematically: all pairs of corner values, and all pairs of four-limb
/// values with limbs zero, one and all ones.
module grid_mul {
  import base.* from "./base"
  import mul as f from "./mul"

  pure val PAIRS: int = 18432
  pure def look(t: Ty, a: int, b: int, c: int): Step = { ty: t, args: [a, b, c], obs: f::observe(t, a, b, c) }
  pure def pair(k: int): Step = {
    val t = TYPES[k % 8]
    val i = (k / 8) % CORNERS
    val j = k / (8 * CORNERS)
    look(t, corner(t, i), corner(t, j), corner(t, i + 5 * j))
  }
  pure def limbs(k: int): int = undigits(2^64, digits(4, 3, k).foldl([], (l, d) => l.append([0, 1, 2^64 - 1][d])))

  pure val SIZE: int = 31554
  pure def point(k: int): Step =
    if (k < PAIRS) pair(k)
    else {
      val j = (k - PAIRS) / 2
      val t = { bits: 256, sg: k % 2 == 0 }
      look(t, unpat(t, limbs(j % 81)), unpat(t, limbs(j / 81)), unpat(t, limbs((j / 7) % 81)))
    }

  var s: Step
  var at: int
  action from(k: int): bool = all { at' = k, s' = point(k % SIZE) }
  action init = from(0)
  action step = from(at + 1)
}
