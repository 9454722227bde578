// -*- mode: Bluespec; -*-
/// C03, systematically: all pairs of corner values, and all pairs of four-limb
/// values with limbs zero, the top bit and all ones.
module grid_divrem {
  import base.* from "./base"
  import divrem as f from "./divrem"

  pure val PAIRS: int = 18432
  pure def look(t: Ty, a: int, b: int): Step = { ty: t, args: [a, b], obs: f::observe(t, a, b) }
  pure def pair(k: int): Step = {
    val t = TYPES[k % 8]
    look(t, corner(t, (k / 8) % CORNERS), corner(t, k / (8 * CORNERS)))
  }
  pure def limbs(k: int): int =
    undigits(2^64, digits(4, 3, k).foldl([], (l, d) => l.append([0, 2^63, 2^64 - 1][d])))

  pure val SIZE: int = 31554
  pure def point(k: int): Step =
    if (k < PAIRS) pair(k)
    else {
      val j = (k - PAIRS) / 2
      val t = { bits: 256, sg: k % 2 == 0 }
      look(t, unpat(t, limbs(j % 81)), unpat(t, limbs(j / 81)))
    }

  var s: Step
  var at: int
  action from(k: int): bool = all { at' = k, s' = point(k % SIZE) }
  action init = from(0)
  action step = from(at + 1)
}
