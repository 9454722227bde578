// -*- mode: Bluespec; -*-
/// C04, systematically: corner bases with every kind of exponent; bases at the
/// exact limit of every exponent up to 64, and of larger ones; logarithms at
/// every power of several bases and just below.
module grid_powlog {
  import base.* from "./base"
  import powlog as f from "./powlog"
  import powering as m from "./powering"

  pure val EXPS: List[int] = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 383, 384, 511, 512,
    1023, 1024, 2^31, 2^32 - 1]
  pure def look(t: Ty, a: int, b: int, n: int): Step = { ty: t, args: [a, b, n], obs: f::observe(t, a, b, n) }

  /// Small bases of either sign, then corners.
  pure def bases(t: Ty, i: int): int = if (i < 24) wrap(t, i - 12) else corner(t, i - 24)
  pure val POWERS: int = 16128
  pure def power(k: int): Step = {
    val t = TYPES[k % 8]
    val i = (k / 8) % 72
    val n = k / 576
    look(t, bases(t, i), bases(t, 10 + (i + n) % 62), EXPS[n])
  }

  /// The largest base whose n-th power fits, the next, and their negatives.
  pure val LIMITS: int = 12256
  pure def limit(k: int): Step = {
    val t = TYPES[k % 8]
    val j = (k / 8) % 4
    val i = k / 32
    val n = if (i < 63) 2 + i else 65 + (3 * (i - 63)) % (t.bits - 63)
    val r = f::root(if (j < 2) hi(t) else -lo(t), n) + j % 2
    look(t, wrap(t, if (j < 2) r else -r), wrap(t, n), n)
  }

  /// Logarithms: base, number of powers that fit 1024 bits.
  pure val LOGS: List[(int, int)] = [(2, 1024), (3, 647), (10, 309), (16, 256), (36, 199), (1000, 103), (2^32, 32), (2^32 - 1, 33),
    (2^64 - 1, 17), (2^64, 16), (2^64 + 1, 16), (2^128, 8), (2^128 + 1, 8)]
  pure def logAt(i: int, t: Ty, d: int): Step = {
    val z = LOGS.foldl({ i: i, b: 0, m: 0 }, (z, p) =>
      if (z.b > 0) z else if (z.i < p._2) { i: 0, b: p._1, m: z.i } else { i: z.i - p._2, b: 0, m: 0 })
    // past the type's range: wrap the exponent around the powers that fit
    val top = 1 + f::logFloor(hi(t), z.b)
    look(t, wrap(t, z.b^(z.m % top) + d), z.b, z.m % 7)
  }

  pure val SIZE: int = 71072
  pure def point(k: int): Step =
    if (k < POWERS) power(k)
    else if (k < POWERS + LIMITS) limit(k - POWERS)
    else {
      val j = k - POWERS - LIMITS
      logAt(j / 16, TYPES[j % 8], 0 - (j / 8) % 2)
    }

  /// How the power comes to fit or not.
  type Ev = { cause: str, sg: bool }
  pure def event(s: Step): Ev = { cause: m::cause(m::power(s.ty, s.args[0], s.args[2])), sg: s.ty.sg }

  var s: Step
  var ev: Ev
  var at: int
  action from(k: int): bool = {
    val p = point(k % SIZE)
    all { at' = k, s' = p, ev' = event(p) }
  }
  action init = from(0)
  action step = from(at + 1)
}
