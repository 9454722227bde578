// -*- mode: Bluespec; -*-
/// C04 - powers, integer logarithms and power-of-two queries.
module powlog {
  import base.* from "./base"

  /// x to the n modulo 2^bits, for any n below 2^32 (square and multiply).
  pure def powMod(t: Ty, x: int, n: int): int = {
    val m = 2^t.bits
    val r = range(0, 32).foldl({ acc: 1, sq: umod(x, m), n: n }, (st, i) =>
      if (st.n == 0) st else {
        acc: if (st.n % 2 == 1) (st.acc * st.sq) % m else st.acc,
        sq: (st.sq * st.sq) % m, n: st.n / 2
      })
    unpat(t, r.acc)
  }

  /// Does x to the n exceed every value of type t in magnitude for sure? Then
  /// the exact power need not be written down.
  pure def powHuge(t: Ty, x: int, n: int): bool =
    abs(x) > 1 and (bitlen(abs(x)) - 1) * n > t.bits
  pure def powSmall(x: int, n: int): int =
    if (x == 0) (if (n == 0) 1 else 0)
    else if (x == 1) 1
    else if (x == -1) (if (n % 2 == 0) 1 else -1)
    else x^n
  pure def powFits(t: Ty, x: int, n: int): bool =
    not(powHuge(t, x, n)) and fits(t, powSmall(x, n))
  pure def powClamp(t: Ty, x: int, n: int): int =
    if (not(powHuge(t, x, n))) clamp(t, powSmall(x, n))
    else if (x < 0 and n % 2 == 1) lo(t) else hi(t)

  /// The greatest n with b^n <= x, for x >= 1 and b >= 2.
  pure def logFloor(x: int, b: int): int = {
    // b^(2^i) for as long as it does not exceed x, largest first
    val sq = range(0, 11).foldl({ l: [], p: b }, (st, i) =>
      if (st.p > x) st else { l: [st.p].concat(st.l), p: st.p * st.p }).l
    sq.foldl({ n: 0, acc: 1 }, (st, p) =>
      if (st.acc * p <= x) { n: 2 * st.n + 1, acc: st.acc * p } else { n: 2 * st.n, acc: st.acc }).n
  }

  /// The smallest power of two not below x.
  pure def nextPow2(x: int): int = if (x <= 1) 1 else 2^bitlen(x - 1)

  /// The greatest r >= 0 with r^k <= x, by bisection on its bits.
  pure def root(x: int, k: int): int =
    rev(range(0, bitlen(x) / k + 1)).foldl(0, (r, i) => if ((r + 2^i)^k <= x) r + 2^i else r)

  pure def observe(t: Ty, a: int, b: int, n: int): List[Obs] = {
    val w = powMod(t, a, n)
    val ok = powFits(t, a, n)
    [
      ("wrapping", "pow", ret(w)),
      ("overflowing", "pow", ret2(w, b2i(not(ok)))),
      ("checked", "pow", if (ok) ret(w) else Nothing),
      ("strict", "pow", if (ok) ret(w) else Panic),
      ("saturating", "pow", ret(powClamp(t, a, n))),
      ("plain@on", "pow", if (ok) ret(w) else Panic),
      ("plain@off", "pow", ret(w)),
      ("checked", "ilog", if (a <= 0 or b < 2) Nothing else ret(logFloor(a, b))),
      ("plain", "ilog", if (a <= 0 or b < 2) Panic else ret(logFloor(a, b))),
      ("checked", "ilog2", if (a <= 0) Nothing else ret(bitlen(a) - 1)),
      ("plain", "ilog2", if (a <= 0) Panic else ret(bitlen(a) - 1))
    ].concat(if (t.sg) [] else [
      ("plain", "is_power_of_two", retB(a > 0 and a == 2^(bitlen(a) - 1))),
      ("checked", "next_power_of_two", checked(t, nextPow2(a))),
      ("wrapping", "next_power_of_two", wrapping(t, nextPow2(a))),
      ("plain@on", "next_power_of_two", strict(t, nextPow2(a))),
      ("plain@off", "next_power_of_two", wrapping(t, nextPow2(a)))
    ])
  }

  pure def genExp(e: int): int = {
    val k = e % 8
    val r = e / 8
    if (k <= 2) r % 12
    else if (k == 3) r % 300
    else if (k == 4) r % 1100
    else if (k == 5) 2^(r % 32)
    else if (k == 6) 2^(r % 33) - 1
    else r % 2^32
  }

  var s: Step
  var acc: int

  pure def draw(prev: int, e: int): Step = {
    val t = pickTy(e)
    val k = (e / 40) % 16
    val e1 = e / 2^10
    val n = if (k == 0 or k == 1) 2 + e1 % 40 else if (k == 2) 2 + e1 % (t.bits - 2) else genExp(e1)
    val d = (e1 / 2^40) % 5 - 2
    // bases at the exact boundary of the n-th power, of either sign; small bases; anything
    val a0 =
      if (k == 0) root(hi(t), n) + d
      else if (k == 1 or k == 2) -(root(hi(t), n) + d)
      else if (k == 3) (e1 / 2^45) % 40 - 20
      else if (k == 4) (e1 / 2^45) % 2^(1 + (e1 / 2^110) % 60)
      else if (k == 5) -((e1 / 2^45) % 2^(1 + (e1 / 2^110) % 60))
      else if (k == 6) prev
      else if (k <= 9) {
        // next to a power of a base: where logarithms change
        val b = 2 + (e1 / 2^45) % 2^(1 + (e1 / 2^110) % (t.bits - 4))
        val m = (e1 / 2^200) % (1 + logFloor(hi(t), min(b, hi(t))))
        b^m + d
      }
      else genVal(t, e / 2^400)
    val a = wrap(t, a0)
    val b0 =
      if (7 <= k and k <= 9) 2 + (e1 / 2^45) % 2^(1 + (e1 / 2^110) % (t.bits - 4))
      else if (k % 2 == 0) (e1 / 2^45) % 20 - 2
      else if (k == 3 or k == 5) genRel(t, a, e / 2^420)
      else if (k == 11) a
      else genVal(t, e / 2^1500)
    val b = wrap(t, b0)
    { ty: t, args: [a, b, n], obs: observe(t, a, b, n) }
  }

  action init = all { s' = noStep, acc' = 0 }
  action step = {
    nondet e = 0.to(ENT).oneOf()
    val n = draw(acc, e)
    all { s' = n, acc' = n.args[0] }
  }

  val inv =
    length(s.args) == 0 or {
      val t = s.ty
      val a = s.args[0]
      val b = s.args[1]
      val n = s.args[2]
      and {
        fits(t, a), fits(t, b), 0 <= n and n < 2^32, agree(t, FORMS, s.obs),
        // the modular power is the exact power reduced
        powHuge(t, a, n) or powMod(t, a, n) == wrap(t, powSmall(a, n)),
        powFits(t, a, n) implies powClamp(t, a, n) == powMod(t, a, n),
        // x^(n+1) = x^n * x modulo the width
        powMod(t, a, (n + 1) % 2^32) == wrap(t, powMod(t, a, n) * a) or n == 2^32 - 1,
        a <= 0 or b < 2 or {
          val g = logFloor(a, b)
          b^g <= a and a < b^(g + 1)
        },
        a <= 0 or logFloor(a, 2) == bitlen(a) - 1,
        t.sg or {
          val p = nextPow2(a)
          p >= a and (p == 1 or p / 2 < a) and p == 2^(bitlen(p) - 1)
        }
      }
    }
}
