// -*- mode: Bluespec; -*-
/// C01 - addition, subtraction, negation, absolute value and their kin.
module addsub {
  import base.* from "./base"

  /// Everything observable about a (+/-) b with carry c, plus the unary
  /// operations on a. b is of type t; m of the other signedness.
  pure def both(t: Ty, a: int, b: int, c: int): List[Obs] = {
    val s = a + b
    val d = a - b
    val sc = a + b + c
    val dc = a - b - c
    [
      ("wrapping", "add", wrapping(t, s)),
      ("overflowing", "add", overflowing(t, s)),
      ("checked", "add", checked(t, s)),
      ("saturating", "add", saturating(t, s)),
      ("strict", "add", strict(t, s)),
      ("wrapping", "sub", wrapping(t, d)),
      ("overflowing", "sub", overflowing(t, d)),
      ("checked", "sub", checked(t, d)),
      ("saturating", "sub", saturating(t, d)),
      ("strict", "sub", strict(t, d)),
      ("plain", "carrying_add", overflowing(t, sc)),
      ("plain", "borrowing_sub", overflowing(t, dc)),
      ("plain", "abs_diff", ret(abs(d))),
      ("plain", "midpoint", ret(tdiv(s, 2)))
    ].concat(if (fits(t, s)) [("unchecked", "add", ret(s))] else [])
     .concat(if (fits(t, d)) [("unchecked", "sub", ret(d))] else [])
     .concat(if (t.sg) [] else
        [("checked", "signed_diff", checked(signedOf(t), d))])
  }

  pure def unary(t: Ty, a: int): List[Obs] =
    [
      ("wrapping", "neg", wrapping(t, -a)),
      ("checked", "neg", checked(t, -a)),
      ("strict", "neg", strict(t, -a))
    ].concat(if (t.sg) [
      ("overflowing", "neg", overflowing(t, -a)),
      ("saturating", "neg", saturating(t, -a)),
      ("wrapping", "abs", wrapping(t, abs(a))),
      ("overflowing", "abs", overflowing(t, abs(a))),
      ("checked", "abs", checked(t, abs(a))),
      ("saturating", "abs", saturating(t, abs(a))),
      ("strict", "abs", strict(t, abs(a))),
      ("plain", "abs", strict(t, abs(a))),
      ("plain", "unsigned_abs", ret(abs(a))),
      ("plain", "signum", ret(sgn(a)))
    ].concat(if (a != lo(t)) [("unchecked", "neg", ret(-a))] else [])
    else [])

  /// Mixed signedness: m is a value of the opposite signedness.
  pure def mixed(t: Ty, a: int, m: int): List[Obs] =
    if (t.sg) [
      ("wrapping", "sub_unsigned", wrapping(t, a - m)),
      ("overflowing", "add_unsigned", overflowing(t, a + m)),
      ("overflowing", "sub_unsigned", overflowing(t, a - m)),
      ("checked", "add_unsigned", checked(t, a + m)),
      ("checked", "sub_unsigned", checked(t, a - m)),
      ("saturating", "add_unsigned", saturating(t, a + m)),
      ("saturating", "sub_unsigned", saturating(t, a - m)),
      ("strict", "add_unsigned", strict(t, a + m)),
      ("strict", "sub_unsigned", strict(t, a - m))
    ] else [
      ("wrapping", "add_signed", wrapping(t, a + m)),
      ("overflowing", "add_signed", overflowing(t, a + m)),
      ("overflowing", "sub_signed", overflowing(t, a - m)),
      ("checked", "add_signed", checked(t, a + m)),
      ("saturating", "add_signed", saturating(t, a + m)),
      ("strict", "add_signed", strict(t, a + m))
    ]

  pure def observe(t: Ty, a: int, b: int, c: int, m: int): List[Obs] =
    both(t, a, b, c).concat(unary(t, a)).concat(mixed(t, a, m))

  // ---------------------------------------------------------------- machine
  // acc is the result of the previous step: results feed later operands.

  var s: Step
  var acc: int

  pure def draw(prev: int, e: int): Step = {
    val t = pickTy(e)
    val e1 = e / 40
    val a = if (e1 % 8 == 0) wrap(t, prev) else genVal(t, e1 / 8)
    val e2 = e / 2^1100
    val b = genRel(t, a, e2)
    val m = if (e2 % 7 == 0) wrap(otherSign(t), b)
            else genRel(otherSign(t), a, e / 2^1150)
    val c = (e / 2^1095) % 2
    { ty: t, args: [a, b, c, m], obs: observe(t, a, b, c, m) }
  }

  action init = all { s' = noStep, acc' = 0 }
  action step = {
    nondet e = 0.to(ENT).oneOf()
    val n = draw(acc, e)
    all { s' = n, acc' = wrap(n.ty, n.args[0] + n.args[1]) }
  }

  // ------------------------------------------------------------------- laws

  val A = s.args[0]
  val B = s.args[1]
  /// Laws of modular arithmetic, stated without the operators used above.
  val inv =
    length(s.args) == 0 or and {
      fits(s.ty, A), fits(s.ty, B), fits(otherSign(s.ty), s.args[3]),
      agree(s.ty, FORMS, s.obs),
      wrap(s.ty, wrap(s.ty, A + B) - B) == A,
      wrap(s.ty, A + B) == wrap(s.ty, B + A),
      (clamp(s.ty, A + B) == A + B) == (wrap(s.ty, A + B) == A + B),
      // same-sign signed operands overflow iff the result changes sign
      s.ty.sg implies ((not(fits(s.ty, A + B))) ==
        ((A < 0) == (B < 0) and (wrap(s.ty, A + B) < 0) != (A < 0))),
      // unsigned operands overflow iff the wrapped sum is below an operand
      not(s.ty.sg) implies (not(fits(s.ty, A + B)) == (wrap(s.ty, A + B) < A)),
      2 * abs(tdiv(A + B, 2)) <= abs(A + B),
      fits(s.ty, tdiv(A + B, 2))
    }
}
