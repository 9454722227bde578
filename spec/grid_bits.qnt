// -*- mode: Bluespec; -*-
/// C06, systematically: every single bit, every block of low ones and every
/// block of high ones, of every type.
module grid_bits {
  import base.* from "./base"
  import bits as f from "./bits"

  pure val SIZE: int = 13056
  pure def point(k: int): Step = {
    val z = spot(k / 3)
    val n = z.t.bits
    val p = if (k % 3 == 0) 2^z.i else if (k % 3 == 1) 2^z.i - 1 else 2^n - 2^z.i
    val a = unpat(z.t, p)
    val b = corner(z.t, z.i)
    val i = z.i / 32
    { ty: z.t, args: [a, b, i], obs: f::observe(z.t, a, b, i) }
  }

  var s: Step
  var at: int
  action from(k: int): bool = all { at' = k, s' = point(k % SIZE) }
  action init = from(0)
  action step = from(at + 1)
}
