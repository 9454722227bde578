// -*- mode: Bluespec; -*-
/// C10, systematically: every single byte, alone and missing, of every type.
module grid_encode {
  import base.* from "./base"
  import encode as f from "./encode"

  pure val SIZE: int = 544
  pure def point(k: int): Step = {
    val z = spot(16 * (k / 2) + k % 2)
    val n = z.t.bits
    val p = 2^z.i * (1 + (z.i / 8) % 255)
    val a = unpat(z.t, p)
    val b = unpat(z.t, 2^n - 1 - p)
    { ty: z.t, args: [a, b], obs: f::observe(z.t, a, b) }
  }

  var s: Step
  var at: int
  action from(k: int): bool = all { at' = k, s' = point(k % SIZE) }
  action init = from(0)
  action step = from(at + 1)
}
