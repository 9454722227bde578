// -*- mode: Bluespec; -*-
/// C02 - multiplication: full-width, widening, high half, with carry.
module mul {
  import base.* from "./base"

  pure def observe(t: Ty, a: int, b: int, c: int): List[Obs] = {
    val p = a * b
    val m = 2^t.bits
    [
      ("wrapping", "mul", wrapping(t, p)),
      ("overflowing", "mul", overflowing(t, p)),
      ("checked", "mul", checked(t, p)),
      ("saturating", "mul", saturating(t, p)),
      ("strict", "mul", strict(t, p))
    ].concat(if (fits(t, p)) [("unchecked", "mul", ret(p))] else [])
     .concat(if (t.sg) [] else [
      ("plain", "widening_mul", ret2(p % m, p / m)),
      ("plain", "carrying_mul", ret2((p + c) % m, (p + c) / m)),
      ("plain", "high_mul", ret(p / m))
    ])
  }

  /// A factor b for a such that a*b falls near a boundary of the range, or
  /// whose length complements that of a.
  pure def genFactor(t: Ty, a: int, e: int): int = {
    val k = e % 10
    val r = e / 10
    val d = r % 4 - 1
    val x =
      if (a == 0 or k >= 6) genVal(t, r)
      else if (k == 0) tdiv(hi(t), a) + d
      else if (k == 1) tdiv(lo(t), a) - d
      else if (k == 2) {
        // exact length complement: as many bits as the range has left
        val n = max(0, t.bits - bitlen(abs(a)) - r % 3)
        val y = (r / 4) % 2^(n + 1)
        if ((r / 2^1030) % 2 == 0) y else -y
      }
      else if (k == 3) (if (r % 2 == 0) a else -a)
      else if (k == 4) shortPat(t.bits, r)
      else -shortPat(t.bits, r)
    wrap(t, x)
  }

  var s: Step
  var acc: int

  pure def draw(prev: int, e: int): Step = {
    val t = pickTy(e)
    val e1 = e / 40
    val k = e1 % 8
    val a = if (k == 0) wrap(t, prev)
            else if (k <= 3) wrap(t, shortPat(t.bits, e1 / 8))
            else genVal(t, e1 / 8)
    val b = genFactor(t, a, e / 2^1100)
    val c = genVal(t, e / 2^1200)
    { ty: t, args: [a, b, c], obs: observe(t, a, b, c) }
  }

  action init = all { s' = noStep, acc' = 0 }
  action step = {
    nondet e = 0.to(ENT).oneOf()
    val n = draw(acc, e)
    all { s' = n, acc' = wrap(n.ty, n.args[0] * n.args[1]) }
  }

  val inv =
    length(s.args) == 0 or {
      val a = s.args[0]
      val b = s.args[1]
      val t = s.ty
      and {
        fits(t, a), fits(t, b), fits(t, s.args[2]), agree(t, FORMS, s.obs),
        wrap(t, a * b) == wrap(t, wrap(t, a * (b - 1)) + a),
        wrap(t, a * b) == wrap(t, pat(t, a) * pat(t, b)),
        // a product fits iff the magnitude test without multiplication says so
        a != 0 implies (fits(t, a * b) ==
          (if (a > 0) (b <= fdiv(hi(t), a) and b >= -fdiv(-lo(t), a))
           else (b >= -fdiv(hi(t), -a) and b <= fdiv(-lo(t), -a))))
      }
    }
}
