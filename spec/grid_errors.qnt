// -*- mode: Bluespec; -*-
/// C18, systematically: the texts of the systematic exploration of parsing that
/// are refused, or one in so many of them, with values at the ends of what the
/// other signedness has.
module grid_errors {
  import base.* from "./base"
  import errors as f from "./errors"
  import grid_parse as g from "./grid_parse"

  /// Texts that standard integers refuse, or just not.
  pure def bounds(k: int): List[int] = {
    val t = f::ty([64, 128][k % 2], (k / 2) % 2 == 0)
    val v = [hi(t), hi(t) + 1, lo(t), lo(t) - 1, 0, hi(t) * 10, hi(t) - 9, lo(t) - 10][(k / 4) % 8]
    g::text(t, 10, v)
  }
  pure val EXACT: List[List[int]] = [
    [], [43], [45], [43, 43], [45, 45], [43, 45], [45, 43], [32], [48], [43, 48], [45, 48], [48, 48], [49, 45], [49, 43],
    [43, 49], [45, 49], [45, 33], [33, 45], [95], [49, 95, 48], [48, 120, 49], [46], [49, 46, 48], [233], [49, 233]
  ]

  pure val SIZE: int = 8008
  pure def point(k: int): Step = {
    val j = k / 8
    val t = TYPES[k % 8]
    val x = [0, hi(t), lo(t), hi(t) / 2, hi(t) / 2 + 1, wrap(t, 0 - 1), wrap(t, 1), lo(t) / 2, wrap(t, 2^200), hi(t) - 1, lo(t) + 1][j % 11]
    if (j < 25) { ty: t, args: [x, 10].concat(EXACT[j]), obs: f::observe(t, x, 10, EXACT[j]) }
    else if (j < 57) {
      val l = bounds(j - 25)
      { ty: t, args: [x, 10].concat(l), obs: f::observe(t, x, 10, l) }
    }
    else if (j < 92) {
      // nothing but a sign, in every radix
      val radix = j - 55
      val l = EXACT[(j + k) % 5]
      { ty: t, args: [x, radix].concat(l), obs: f::observe(t, x, radix, l) }
    }
    else {
      val p = g::point((k * 7919) % g::SIZE)
      val y = wrap(p.ty, x)
      { ty: p.ty, args: [y].concat(p.args), obs: f::observe(p.ty, y, p.args[0], p.args.slice(1, length(p.args))) }
    }
  }

  var s: Step
  var at: int
  action from(k: int): bool = all { at' = k, s' = point(k % SIZE) }
  action init = from(0)
  action step = from(at + 1)
}
