// -*- mode: Bluespec; -*-
/// C13, systematically: all pairs of corner values and a share of the pairs that
/// take the cases of long arithmetic, every distance type with distances at
/// and around the width, and a range of exponents.
module grid_operators {
  import base.* from "./base"
  import operators as f from "./operators"
  import pairs as p from "./pairs"

  pure def d(t: Ty, i: int): int = [0, 1, t.bits - 1, t.bits, t.bits + 1, 0 - 1, 31, 32, 63, 64, 2 * t.bits, 127][i % 12]
  pure val PAIRS: int = 18432
  pure val SIZE: int = 32740
  pure def point(k: int): Step = {
    val i = (k / 8) % CORNERS
    val j = k / (8 * CORNERS)
    val q = if (k < PAIRS) { t: TYPES[k % 8], a: corner(TYPES[k % 8], i), b: corner(TYPES[k % 8], j) } else p::pairAt(4, k - PAIRS)
    val t = q.t
    val code = f::codes[(i + j) % 14]
    val dist = wrap(f::distTy(t, code), d(t, i + 5 * j))
    val n = [0, 1, 2, 3, 4, 8, 255, t.bits - 1, t.bits][(3 * i + j) % 9]
    { ty: t, args: [q.a, q.b, dist, code, n], obs: f::observe(t, q.a, q.b, dist, code, n) }
  }

  var s: Step
  var at: int
  action from(k: int): bool = all { at' = k, s' = point(k % SIZE) }
  action init = from(0)
  action step = from(at + 1)
}
