// -*- mode: Bluespec; -*-
/// C13 - operators in their by-value, by-reference and assigning forms, and
/// the plain methods that follow the overflow-check setting of the build.
///
/// Arguments of a step: two values, a shift distance, the code of the type the
/// distance is given in, and an exponent.
module operators {
  import base.* from "./base"
  import divrem as d from "./divrem"
  import powlog as p from "./powlog"
  import shift as h from "./shift"
  import mul as m from "./mul"

  /// Result x of type t: exact, or what overflow gives in either build.
  pure def both(on: str, off: str, t: Ty, op: str, x: int): List[Obs] =
    [(on, op, strict(t, x)), (off, op, wrapping(t, x))]

  pure val binaryForms: List[(str, str)] = [
    ("value@on", "value@off"), ("ref@on", "ref@off"), ("assign@on", "assign@off"), ("assign ref@on", "assign ref@off")
  ]

  pure def binary(t: Ty, a: int, b: int): List[Obs] =
    binaryForms.foldl([], (l, f) =>
      l.concat(both(f._1, f._2, t, "+", a + b))
       .concat(both(f._1, f._2, t, "-", a - b))
       .concat(both(f._1, f._2, t, "*", a * b))
       .concat(if (b == 0)
          [(f._1, "/", Panic), (f._2, "/", Panic), (f._1, "%", Panic), (f._2, "%", Panic)]
        else
          both(f._1, f._2, t, "/", tdiv(a, b))
            .concat([(f._1, "%", d::remStrict(t, a, b, trem(a, b))), (f._2, "%", ret(trem(a, b)))])))

  /// Negation exists for signed types only.
  pure def negation(t: Ty, a: int): List[Obs] =
    if (t.sg) both("value@on", "value@off", t, "neg", -a).concat(both("ref@on", "ref@off", t, "neg", -a)) else []

  /// An out-of-range distance panics with checks; without, its low 32 bits are
  /// reduced modulo the width.
  pure def shifts(t: Ty, a: int, dist: int, code: int): List[Obs] = {
    val ok = 0 <= dist and dist < t.bits
    val k = umod(dist, 2^32) % t.bits
    val l = ret(h::shlBits(t, a, k))
    val r = ret(h::shrBits(t, a, k))
    val same = code == (if (t.sg) -1000 else 1000)
    // a distance of the very type shifted has no assigning operator, but one
    // between two references
    val forms = if (same) [("value@on", "value@off"), ("ref@on", "ref@off"), ("both ref@on", "both ref@off")] else binaryForms
    forms.foldl([], (acc2, f) => acc2.concat([
      (f._1, "<<", if (ok) l else Panic), (f._2, "<<", l),
      (f._1, ">>", if (ok) r else Panic), (f._2, ">>", r)
    ]))
  }

  /// Plain methods that wrap or panic according to the build.
  pure def methods(t: Ty, a: int, b: int, n: int): List[Obs] =
    [
      ("method@on", "pow", if (p::powFits(t, a, n)) ret(p::powMod(t, a, n)) else Panic),
      ("method@off", "pow", ret(p::powMod(t, a, n)))
    ].concat(if (b == 0) [("method", "div_rem", Panic), ("method", "next_multiple_of", Panic)] else [
      ("method@on", "div_rem", if (d::over(t, a, b)) Panic else ret2(tdiv(a, b), trem(a, b))),
      ("method@off", "div_rem", ret2(wrap(t, tdiv(a, b)), trem(a, b))),
      ("method@on", "next_multiple_of", strict(t, d::nextMultiple(a, b))),
      ("method@off", "next_multiple_of", wrapping(t, d::nextMultiple(a, b)))
    ]).concat(if (t.sg) [] else both("method@on", "method@off", t, "next_power_of_two", p::nextPow2(a)))

  pure def observe(t: Ty, a: int, b: int, dist: int, code: int, n: int): List[Obs] =
    binary(t, a, b).concat(negation(t, a)).concat(shifts(t, a, dist, code)).concat(methods(t, a, b, n))

  /// Codes of the distance types: width, negative for signed; 63 is the
  /// pointer-sized type and 1000 the type of the same width.
  pure val codes: List[int] = [8, -8, 16, -16, 32, -32, 64, -64, 128, -128, 63, -63, 1000, -1000]
  pure def distTy(t: Ty, code: int): Ty = {
    val w = abs(code)
    { bits: if (w == 63) 64 else if (w == 1000) t.bits else w, sg: code < 0 }
  }

  var s: Step
  var acc: int

  pure def draw(prev: int, e: int): Step = {
    val t = pickTy(e)
    val k = (e / 40) % 32
    val e1 = e / 2^11
    val a0 = if (k <= 1) wrap(t, prev) else if (k == 2) lo(t) else genVal(t, e1)
    // b first for divisions, a first for sums and products
    val b = if (k == 2) (if ((e1 / 2^1200) % 3 == 0) 0 else wrap(t, -1))
            else if (k == 3) 0
            else if (k <= 12) genRel(t, a0, e / 2^1300)
            else if (k <= 20) m::genFactor(t, a0, e / 2^1300)
            else d::genDivisor(t, e / 2^1300)
    val a = if (k > 20) d::genDividend(t, b, e1 / 2^40) else a0
    val code = codes[(e / 2^2400) % 14]
    val c = distTy(t, code)
    val dist0 = if ((e / 2^2404) % 2 == 0) h::genDist(t, e / 2^2405) else h::genOpDist(t, e / 2^2405)
    val dist = if (fits(c, dist0)) dist0 else wrap(c, dist0)
    // an exponent at which the power just fits or just does not, or any
    val n0 = p::genExp(e / 2^2500)
    val n = if ((e / 2^2550) % 2 == 0 or abs(a) < 2) n0 else max(0, t.bits / bitlen(abs(a)) + (e / 2^2551) % 3 - 1)
    { ty: t, args: [a, b, dist, code, n], obs: observe(t, a, b, dist, code, n) }
  }

  action init = all { s' = noStep, acc' = 0 }
  action step = {
    nondet e = 0.to(ENT).oneOf()
    val n = draw(acc, e)
    all { s' = n, acc' = wrap(n.ty, n.args[0] + n.args[1]) }
  }

  val inv =
    length(s.args) == 0 or {
      val t = s.ty
      val a = s.args[0]
      val b = s.args[1]
      and {
        fits(t, a), fits(t, b), fits(distTy(t, s.args[3]), s.args[2]),
        // the build with checks answers as the other one or not at all
        switched(binaryForms.concat([("both ref@on", "both ref@off"), ("method@on", "method@off")]), s.obs),
        // all forms of one operator answer alike
        binaryForms.concat([("both ref@on", "both ref@off")]).indices().forall(i => i == 0 or {
          val f = binaryForms.concat([("both ref@on", "both ref@off")])[i]
          alike("value@on", f._1, s.obs) and alike("value@off", f._2, s.obs)
        }),
        a == 0 or fits(t, tdiv(b, a)) or (b == lo(t) and a == -1)
      }
    }
}
