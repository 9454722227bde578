// -*- mode: Bluespec; -*-
/// C03 - division and remainder in every rounding mode, zero divisors, and the
/// one signed quotient that does not fit.
module divrem {
  import base.* from "./base"

  pure def floorDiv(a: int, b: int): int =
    if (trem(a, b) != 0 and ((a < 0) != (b < 0))) tdiv(a, b) - 1 else tdiv(a, b)
  pure def ceilDiv(a: int, b: int): int =
    if (trem(a, b) != 0 and ((a < 0) == (b < 0))) tdiv(a, b) + 1 else tdiv(a, b)
  pure def eucRem(a: int, b: int): int = umod(a, abs(b))
  pure def eucDiv(a: int, b: int): int = tdiv(a - eucRem(a, b), b)
  /// The multiple of b nearest to a from above (b > 0) or below (b < 0).
  pure def nextMultiple(a: int, b: int): int = ceilDiv(a, b) * b

  /// Every form panics, except those that can say "nothing".
  pure def byZero(t: Ty, a: int): List[Obs] =
    [
      ("wrapping", "div_rem", Panic), ("overflowing", "div_rem", Panic),
      ("checked", "div_rem", Nothing), ("plain", "div_rem", Panic),
      ("wrapping", "div", Panic), ("overflowing", "div", Panic),
      ("checked", "div", Nothing), ("strict", "div", Panic), ("saturating", "div", Panic),
      ("wrapping", "rem", Panic), ("overflowing", "rem", Panic),
      ("checked", "rem", Nothing), ("strict", "rem", Panic),
      ("wrapping", "div_euclid", Panic), ("overflowing", "div_euclid", Panic),
      ("checked", "div_euclid", Nothing), ("strict", "div_euclid", Panic), ("plain", "div_euclid", Panic),
      ("wrapping", "rem_euclid", Panic), ("overflowing", "rem_euclid", Panic),
      ("checked", "rem_euclid", Nothing), ("strict", "rem_euclid", Panic), ("plain", "rem_euclid", Panic),
      ("plain", "div_floor", Panic), ("plain", "div_ceil", Panic),
      ("plain", "next_multiple_of", Panic), ("checked", "next_multiple_of", Nothing)
    ].concat(if (t.sg) [] else [("plain", "is_multiple_of", retB(a == 0))])

  /// The remainder of an overflowing quotient is zero; forms that report
  /// overflow of the quotient report it for the remainder as well.
  pure def over(t: Ty, a: int, b: int): bool = not(fits(t, tdiv(a, b)))
  pure def remOverflowing(t: Ty, a: int, b: int, r: int): Out = ret2(r, b2i(over(t, a, b)))
  pure def remChecked(t: Ty, a: int, b: int, r: int): Out = if (over(t, a, b)) Nothing else ret(r)
  pure def remStrict(t: Ty, a: int, b: int, r: int): Out = if (over(t, a, b)) Panic else ret(r)

  pure def byNonZero(t: Ty, a: int, b: int): List[Obs] = {
    val q = tdiv(a, b)
    val r = a - q * b
    val dq = eucDiv(a, b)
    val de = eucRem(a, b)
    val nm = nextMultiple(a, b)
    [
      ("wrapping", "div_rem", ret2(wrap(t, q), r)),
      ("overflowing", "div_rem", V([wrap(t, q), r, b2i(over(t, a, b))])),
      ("checked", "div_rem", if (over(t, a, b)) Nothing else ret2(q, r)),
      ("plain@on", "div_rem", if (over(t, a, b)) Panic else ret2(q, r)),
      ("plain@off", "div_rem", ret2(wrap(t, q), r)),
      ("wrapping", "div", wrapping(t, q)),
      ("overflowing", "div", overflowing(t, q)),
      ("checked", "div", checked(t, q)),
      ("strict", "div", strict(t, q)),
      ("saturating", "div", saturating(t, q)),
      ("wrapping", "rem", ret(r)),
      ("overflowing", "rem", remOverflowing(t, a, b, r)),
      ("checked", "rem", remChecked(t, a, b, r)),
      ("strict", "rem", remStrict(t, a, b, r)),
      ("wrapping", "div_euclid", wrapping(t, dq)),
      ("overflowing", "div_euclid", overflowing(t, dq)),
      ("checked", "div_euclid", checked(t, dq)),
      ("strict", "div_euclid", strict(t, dq)),
      ("plain", "div_euclid", strict(t, dq)),
      ("wrapping", "rem_euclid", ret(de)),
      ("overflowing", "rem_euclid", remOverflowing(t, a, b, de)),
      ("checked", "rem_euclid", remChecked(t, a, b, de)),
      ("strict", "rem_euclid", remStrict(t, a, b, de)),
      ("plain", "rem_euclid", remStrict(t, a, b, de)),
      ("plain", "div_floor", strict(t, floorDiv(a, b))),
      ("plain", "div_ceil", strict(t, ceilDiv(a, b))),
      ("plain@on", "next_multiple_of", strict(t, nm)),
      ("plain@off", "next_multiple_of", wrapping(t, nm)),
      ("checked", "next_multiple_of", checked(t, nm))
    ].concat(if (t.sg) [] else [("plain", "is_multiple_of", retB(r == 0))])
  }

  pure def observe(t: Ty, a: int, b: int): List[Obs] =
    if (b == 0) byZero(t, a) else byNonZero(t, a, b)

  /// A divisor of any length: one to all limbs, then possibly shifted so that
  /// its top limb is not normalised.
  pure def genDivisor(t: Ty, e: int): int = {
    val k = e % 8
    val r = e / 8
    val p = if (k <= 4) shortPat(t.bits, r) else genPat(t.bits, r)
    val q = if (k % 2 == 0) p else p / 2^((r / 2^1060) % 64)
    if (t.sg and (r / 2^1070) % 2 == 0) wrap(t, -q) else wrap(t, q)
  }

  /// A dividend for b: unrelated, or q*b + r for a quotient of limb patterns
  /// and a remainder at either end of its range. q*b - 1 and q*b + (b-1) are
  /// where the estimate of a quotient digit is most likely to be too large.
  pure def genDividend(t: Ty, b: int, e: int): int = {
    val k = e % 8
    val r = e / 8
    if (b == 0 or k == 0) genVal(t, r)
    else if (k == 1) wrap(t, shortPat(t.bits, r))
    else {
      val m = abs(b)
      val top = if ((r / 2^1100) % 2 == 0) hi(t) else abs(lo(t))
      val qmax = max(1, top / m)
      val q = if (k <= 4) shortPat(t.bits, r) % (qmax + 1) else qmax - genPat(256, r) % (qmax + 1)
      val j = (r / 2^1101) % 5
      val rem = if (j == 0) 0 else if (j == 1) 1 else if (j == 2) m - 1 else if (j == 3) -1
                else (r / 2^40) % m
      val x = q * m + rem
      wrap(t, if (t.sg and (r / 2^1110) % 2 == 0) -x else x)
    }
  }

  var s: Step
  var acc: int

  pure def draw(prev: int, e: int): Step = {
    val t = pickTy(e)
    val k = (e / 40) % 32
    val e1 = e / 2^11
    val b = if (k == 0) 0
            else if (k == 1) wrap(t, -1)
            else if (k == 2) wrap(t, prev)
            else genDivisor(t, e1)
    val a = if (k == 3) wrap(t, prev)
            else if (k == 0 and e1 % 4 == 0) 0
            else if (k == 1 and e1 % 2 == 0) lo(t)
            else genDividend(t, b, e / 2^1200)
    { ty: t, args: [a, b], obs: observe(t, a, b) }
  }

  action init = all { s' = noStep, acc' = 0 }
  action step = {
    nondet e = 0.to(ENT).oneOf()
    val n = draw(acc, e)
    all { s' = n, acc' = if (n.args[1] == 0) n.args[0] else trem(n.args[0], n.args[1]) }
  }

  val inv =
    length(s.args) == 0 or {
      val a = s.args[0]
      val b = s.args[1]
      and {
        fits(s.ty, a), fits(s.ty, b), agree(s.ty, FORMS, s.obs),
        b == 0 or and {
          tdiv(a, b) * b + trem(a, b) == a,
          abs(trem(a, b)) < abs(b),
          trem(a, b) == 0 or (trem(a, b) < 0) == (a < 0),
          eucDiv(a, b) * b + eucRem(a, b) == a,
          0 <= eucRem(a, b) and eucRem(a, b) < abs(b),
          floorDiv(a, b) <= ceilDiv(a, b) and ceilDiv(a, b) <= floorDiv(a, b) + 1,
          if (b > 0) floorDiv(a, b) * b <= a and a <= ceilDiv(a, b) * b
          else floorDiv(a, b) * b >= a and a >= ceilDiv(a, b) * b,
          if (b > 0) nextMultiple(a, b) >= a and nextMultiple(a, b) - a < b
          else nextMultiple(a, b) <= a and a - nextMultiple(a, b) < -b,
          over(s.ty, a, b) == (a == lo(s.ty) and b == -1)
        }
      }
    }
}
