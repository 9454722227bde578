// -*- mode: Bluespec; -*-
/// C09, systematically: values on either side of every power of two of either
/// sign, with the extreme values of every machine integer.
module grid_conv {
  import base.* from "./base"
  import conv as f from "./conv"

  pure def extreme(c: Ty, i: int): int = {
    val l = if (c.sg) [lo(c), hi(c), 0 - 1, 0, 1, lo(c) + 1, hi(c) - 1, 2^(c.bits / 2), 0 - 2^(c.bits / 2), 2^(c.bits / 2 - 1)]
            else [0, hi(c), 1, 2^(c.bits - 1), 2^(c.bits - 1) - 1, hi(c) - 1, 2^(c.bits / 2), 2^(c.bits / 2) - 1, 2, 10]
    l[i % 10]
  }
  pure val CHARS: List[int] = [0, 65, 127, 128, 255, 256, 55295, 57344, 65535, 65536, 1114111]

  pure val SIZE: int = 13056
  pure def point(k: int): Step = {
    val z = spot(k / 3)
    val a = wrap(z.t, if (k % 3 == 0) 2^z.i else if (k % 3 == 1) 2^z.i - 1 else if (z.i % 2 == 0) 0 - 2^z.i else 0 - 2^z.i - 1)
    val p = range(0, 10).foldl([], (l, i) => l.append(extreme(f::prims[i].ty, k + k / 10 + 3 * i)))
    val args = [a].concat(p).concat([k % 2, CHARS[k % 11]])
    { ty: z.t, args: args, obs: f::observe(z.t, args) }
  }

  var s: Step
  var at: int
  action from(k: int): bool = all { at' = k, s' = point(k % SIZE) }
  action init = from(0)
  action step = from(at + 1)
}
