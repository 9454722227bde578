// -*- mode: Bluespec; -*-
/// C07 - arithmetic between a value and a machine integer. A scalar operand x
/// of a scalar type is the integer x: every result is that of the same
/// operation on integers, brought back to the type of the value.
module scalar {
  import base.* from "./base"

  /// How the forms are called for one way of naming the scalar type:
  /// wrapping, overflowing, checked, plain with and without overflow checks.
  type Forms = { w: str, o: str, c: str, on: str, off: str }
  pure val STD: Forms = { w: "wrapping", o: "overflowing", c: "checked", on: "plain@on", off: "plain@off" }
  pure val LIMB64: Forms = { w: "wrapping/limb@64", o: "overflowing/limb@64", c: "checked/limb@64",
                             on: "plain/limb@on@64", off: "plain/limb@off@64" }
  pure val LIMB32: Forms = { w: "wrapping/limb@32", o: "overflowing/limb@32", c: "checked/limb@32",
                             on: "plain/limb@on@32", off: "plain/limb@off@32" }
  pure val WIDE64: Forms = { w: "wrapping/wide@64", o: "overflowing/wide@64", c: "checked/wide@64",
                             on: "plain/wide@on@64", off: "plain/wide@off@64" }
  pure val WIDE32: Forms = { w: "wrapping/wide@32", o: "overflowing/wide@32", c: "checked/wide@32",
                             on: "plain/wide@on@32", off: "plain/wide@off@32" }
  /// The names under which a scalar type of n bits is available.
  pure def namings(n: int): List[Forms] =
    if (n == 32) [STD, LIMB32] else if (n == 64) [STD, LIMB64, WIDE32] else [STD, WIDE64]

  /// A signed value over an unsigned scalar rounds towards minus infinity; in
  /// all other cases the quotient is rounded towards zero.
  pure def quot(t: Ty, c: Ty, a: int, x: int): int = if (c.sg) tdiv(a, x) else fdiv(a, x)
  pure def remd(t: Ty, c: Ty, a: int, x: int): int = a - x * quot(t, c, a, x)

  pure def arith(f: Forms, t: Ty, op: str, r: int): List[Obs] = [
    (f.w, op, wrapping(t, r)), (f.o, op, overflowing(t, r)), (f.c, op, checked(t, r)),
    (f.on, op, strict(t, r)), (f.off, op, wrapping(t, r))
  ]
  pure def division(f: Forms, t: Ty, c: Ty, a: int, x: int): List[Obs] =
    if (x == 0) ["div_rem", "div", "rem"].foldl([], (l, op) => l.concat([
      (f.w, op, Panic), (f.o, op, Panic), (f.c, op, Nothing), (f.on, op, Panic), (f.off, op, Panic)
    ]))
    else {
      val q = quot(t, c, a, x)
      val r = remd(t, c, a, x)
      val over = not(fits(t, q))
      [
        (f.w, "div_rem", ret2(wrap(t, q), r)),
        (f.o, "div_rem", V([wrap(t, q), r, b2i(over)])),
        (f.c, "div_rem", if (over) Nothing else ret2(q, r)),
        (f.on, "div_rem", if (over) Panic else ret2(q, r)),
        (f.off, "div_rem", ret2(wrap(t, q), r)),
        (f.w, "div", ret(wrap(t, q))),
        (f.o, "div", ret2(wrap(t, q), b2i(over))),
        (f.c, "div", if (over) Nothing else ret(q)),
        (f.on, "div", if (over) Panic else ret(q)),
        (f.off, "div", ret(wrap(t, q))),
        (f.w, "rem", ret(r)),
        (f.o, "rem", ret2(r, b2i(over))),
        (f.c, "rem", if (over) Nothing else ret(r)),
        (f.on, "rem", if (over) Panic else ret(r)),
        (f.off, "rem", ret(r))
      ]
    }

  pure def observe(t: Ty, c: Ty, a: int, x: int): List[Obs] =
    namings(c.bits).foldl([], (l, f) =>
      l.concat(arith(f, t, "add", a + x)).concat(arith(f, t, "sub", a - x))
       .concat(arith(f, t, "mul", a * x)).concat(division(f, t, c, a, x)))

  pure def code(c: Ty): int = if (c.sg) -(c.bits) else c.bits

  /// A scalar: extreme, small, a power of two or its neighbour, limb patterns,
  /// anything.
  pure def genScalar(c: Ty, e: int): int = {
    val k = e % 12
    val r = e / 12
    val m = 2^c.bits
    val p =
      if (k == 0) r % 4
      else if (k == 1) m - 1 - r % 4
      else if (k == 2) m / 2 + r % 5 - 2
      else if (k == 3) umod(2^(r % c.bits) + (r / 128) % 3 - 1, m)
      else if (k == 4) m - 2^(r % c.bits)
      else if (k <= 6) limbPat(c.bits / 32, 32, r)
      else if (k == 7 and c.bits >= 64) limbPat(c.bits / 64, 64, r)
      else if (k == 8) (r / 128) % 2^(1 + r % c.bits)
      else r % m
    unpat(c, p)
  }

  /// A value for scalar x: anything, or where x times it leaves the range, or
  /// where adding or subtracting x does, or a multiple of x plus or minus a
  /// little, with quotients made of extreme limbs.
  pure def genFor(t: Ty, x: int, e: int): int = {
    val k = e % 16
    val r = e / 16
    val d = r % 5 - 2
    val z = if (x == 0) 1 else x
    if (k <= 4) genVal(t, r)
    else if (k == 5) wrap(t, tdiv(hi(t), z) + d)
    else if (k == 6) wrap(t, tdiv(lo(t), z) + d)
    else if (k == 7) wrap(t, hi(t) - x + d)
    else if (k == 8) wrap(t, lo(t) - x + d)
    else if (k == 9) wrap(t, x + d)
    else if (k == 10) wrap(t, -x + d)
    else if (k == 11) wrap(t, tdiv(2^t.bits, z) + d)
    else if (k == 12) (if (r % 2 == 0) lo(t) else hi(t))
    else {
      val q = shortPat(t.bits, r / 8) % max(1, 2^t.bits / abs(z))
      wrap(t, (if ((r / 2^1200) % 2 == 0) q * z else -(q * z)) + d)
    }
  }

  var s: Step
  var acc: int

  pure def draw(prev: int, e: int): Step = {
    val t = pickTy(e)
    val k = (e / 40) % 6
    val c0 = { bits: [32, 64, 64, 128, 128, 128][k], sg: t.sg and (e / 2^9) % 2 == 1 }
    val x = if ((e / 2^10) % 40 == 0) 0 else if (c0.sg and (e / 2^10) % 40 == 1) -1 else genScalar(c0, e / 2^16)
    val a = if ((e / 2^10) % 40 == 2) wrap(t, prev) else genFor(t, x, e / 2^420)
    { ty: t, args: [a, x, code(c0)], obs: observe(t, c0, a, x) }
  }

  action init = all { s' = noStep, acc' = 0 }
  action step = {
    nondet e = 0.to(ENT).oneOf()
    val n = draw(acc, e)
    all { s' = n, acc' = n.args[0] * n.args[1] }
  }

  val inv =
    length(s.args) == 0 or {
      val t = s.ty
      val a = s.args[0]
      val x = s.args[1]
      val c = { bits: abs(s.args[2]), sg: s.args[2] < 0 }
      and {
        fits(t, a), fits(c, x),
        namings(c.bits).indices().forall(i => {
          val f = namings(c.bits)[i]
          agree(t, { w: f.w, o: f.o, c: f.c, st: "", sa: "", on: f.on, off: f.off }, s.obs)
        }),
        x == 0 or and {
          quot(t, c, a, x) * x + remd(t, c, a, x) == a,
          abs(remd(t, c, a, x)) < abs(x),
          not(c.sg) implies remd(t, c, a, x) >= 0,
          fits(c, remd(t, c, a, x)),
          not(fits(t, quot(t, c, a, x))) == (t.sg and c.sg and a == lo(t) and x == -1)
        }
      }
    }
}
