// -*- mode: Bluespec; -*-
/// C14, systematically: pairs of corner values and a share of the pairs that take
/// the cases of long arithmetic, with the extreme values of every machine integer.
module grid_numtraits {
  import base.* from "./base"
  import numtraits as f from "./numtraits"
  import pairs as p from "./pairs"
  import conv as v from "./conv"
  import grid_conv as g from "./grid_conv"

  pure val PAIRS: int = 6144
  pure val SIZE: int = 9720
  pure def point(k: int): Step = {
    val i = (k / 8) % CORNERS
    val j = k / (8 * CORNERS)
    val q = if (k < PAIRS) { t: TYPES[k % 8], a: corner(TYPES[k % 8], i), b: corner(TYPES[k % 8], 3 * j + i % 3) }
            else p::pairAt(16, k - PAIRS)
    val t = q.t
    val a = q.a
    val ps = range(0, 10).foldl([], (l, z) => l.append(g::extreme(v::prims[z].ty, i + j + 3 * z)))
    val args = [a].concat(ps).concat([k % 2, g::CHARS[k % 11], q.b, corner(t, i + 5 * j + 1),
      [0, 1, t.bits - 1, t.bits, t.bits + 1, 63, 64, 2^32 - 1][(i + j) % 8],
      [0, 1, 2, 3, 8, 255, t.bits, 2^32 - 1][(3 * i + j) % 8],
      [hi(t), hi(t) + 1, lo(t), lo(t) - 1, a, 0][(i + j) % 6]])
    { ty: t, args: args, obs: f::observe(t, args) }
  }

  var s: Step
  var at: int
  action from(k: int): bool = all { at' = k, s' = point(k % SIZE) }
  action init = from(0)
  action step = from(at + 1)
}
