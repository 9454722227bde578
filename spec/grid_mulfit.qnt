// -*- mode: Bluespec; -*-
/// C02, systematically: for every bit length of one factor, the largest other
/// factor whose product still fits and the smallest whose product does not, in
/// every combination of signs.
module grid_mulfit {
  import base.* from "./base"
  import mul as f from "./mul"

  /// A factor whose leading bit is bit i: alone, with all bits below it, or
  /// with some of them.
  pure def factor(i: int, shape: int): int =
    if (shape == 0) 2^i
    else if (shape == 1) 2^(i + 1) - 1
    else if (shape == 2) 2^i + (2^i - 1) / 3
    else 2^i + 1

  pure val SIZE: int = 34816
  pure def point(k: int): Step = {
    val p = spot(k / 8)
    val t = p.t
    val shape = k % 4
    val over = (k / 4) % 2
    val x = min(factor(p.i, shape), if (t.sg) 2^(t.bits - 1) else hi(t))
    val sx = t.sg and (p.i + shape) % 2 == 1
    val sy = t.sg and ((p.i + shape) / 2) % 2 == 1
    val most = if (sx != sy) abs(lo(t)) else hi(t)
    val y = most / x + over
    val a = wrap(t, if (sx) -x else x)
    val b = wrap(t, if (sy) -y else y)
    { ty: t, args: [a, b, wrap(t, most - (a * b) % 97)], obs: f::observe(t, a, b, wrap(t, most - (a * b) % 97)) }
  }

  var s: Step
  var at: int
  action from(k: int): bool = all { at' = k, s' = point(k % SIZE) }
  action init = from(0)
  action step = from(at + 1)
}
