// -*- mode: Bluespec; -*-
/// C14 - the integers used only through the generic numeric traits.
///
/// Arguments of a step: 0 a value; 1 to 12 one source value per machine type,
/// a boolean and a character (as for conversions); 13 and 14 two more values;
/// 15 a shift distance; 16 an exponent; 17 any integer, to be read from text.
module numtraits {
  import base.* from "./base"
  import conv as v from "./conv"
  import divrem as d from "./divrem"
  import mul as m from "./mul"
  import powlog as p from "./powlog"
  import shift as h from "./shift"
  import bits as w from "./bits"

  pure def identities(t: Ty, a: int): List[Obs] = [
    ("Zero", "zero", ret(0)), ("Zero", "is_zero", retB(a == 0)), ("Zero", "set_zero", ret(0)),
    ("One", "one", ret(1)), ("One", "is_one", retB(a == 1)), ("One", "set_one", ret(1)),
    ("ConstZero", "ZERO", ret(0)), ("ConstOne", "ONE", ret(1)),
    ("Bounded", "min_value", ret(lo(t))), ("Bounded", "max_value", ret(hi(t)))
  ]

  pure def arithmetic(t: Ty, a: int, b: int): List[Obs] = [
    ("SaturatingAdd", "saturating_add", saturating(t, a + b)),
    ("SaturatingSub", "saturating_sub", saturating(t, a - b)),
    ("SaturatingMul", "saturating_mul", saturating(t, a * b)),
    ("Saturating", "saturating_add", saturating(t, a + b)),
    ("Saturating", "saturating_sub", saturating(t, a - b)),
    ("WrappingAdd", "wrapping_add", wrapping(t, a + b)),
    ("WrappingSub", "wrapping_sub", wrapping(t, a - b)),
    ("WrappingMul", "wrapping_mul", wrapping(t, a * b)),
    ("CheckedAdd", "checked_add", checked(t, a + b)),
    ("CheckedSub", "checked_sub", checked(t, a - b)),
    ("CheckedMul", "checked_mul", checked(t, a * b)),
    ("WrappingNeg", "wrapping_neg", wrapping(t, -a)),
    ("CheckedNeg", "checked_neg", checked(t, -a))
  ]

  pure def division(t: Ty, a: int, b: int): List[Obs] =
    if (b == 0) [
      ("CheckedDiv", "checked_div", Nothing), ("CheckedRem", "checked_rem", Nothing),
      ("CheckedEuclid", "checked_div_euclid", Nothing), ("CheckedEuclid", "checked_rem_euclid", Nothing),
      ("CheckedEuclid", "checked_div_rem_euclid", Nothing),
      ("Euclid", "div_euclid", Panic), ("Euclid", "rem_euclid", Panic), ("Euclid", "div_rem_euclid", Panic)
    ] else {
      val q = d::eucDiv(a, b)
      val r = d::eucRem(a, b)
      val over = d::over(t, a, b)
      [
        ("CheckedDiv", "checked_div", checked(t, tdiv(a, b))),
        ("CheckedRem", "checked_rem", d::remChecked(t, a, b, trem(a, b))),
        ("CheckedEuclid", "checked_div_euclid", checked(t, q)),
        ("CheckedEuclid", "checked_rem_euclid", d::remChecked(t, a, b, r)),
        ("CheckedEuclid", "checked_div_rem_euclid", if (over) Nothing else ret2(q, r)),
        ("Euclid", "div_euclid", strict(t, q)),
        ("Euclid", "rem_euclid", d::remStrict(t, a, b, r)),
        ("Euclid", "div_rem_euclid", if (over) Panic else ret2(q, r))
      ]
    }

  /// Product and sum by the operators. Whether a product that leaves the range
  /// only to be brought back by the sum panics with checks is not specified.
  pure def mulAdd(t: Ty, pr: int, sum: int): List[Obs] =
    (if (fits(t, pr)) [("MulAdd@on", "mul_add", strict(t, sum)), ("MulAddAssign@on", "mul_add_assign", strict(t, sum))]
     else if (not(fits(t, sum))) [("MulAdd@on", "mul_add", Panic), ("MulAddAssign@on", "mul_add_assign", Panic)]
     else []).concat([("MulAdd@off", "mul_add", wrapping(t, sum)), ("MulAddAssign@off", "mul_add_assign", wrapping(t, sum))])

  pure def powers(t: Ty, a: int, n: int): List[Obs] = {
    val ok = p::powFits(t, a, n)
    val x = p::powMod(t, a, n)
    [
      ("Pow@on", "pow", if (ok) ret(x) else Panic), ("Pow@off", "pow", ret(x)),
      ("Pow@on", "pow ref", if (ok) ret(x) else Panic), ("Pow@off", "pow ref", ret(x)),
      ("PrimInt@on", "pow", if (ok) ret(x) else Panic), ("PrimInt@off", "pow", ret(x)),
      // generic exponentiation that only knows multiplication and one
      ("generic@off", "pow", ret(x)),
      ("generic", "checked_pow", if (ok) ret(x) else Nothing)
    ].concat(if (ok) [("generic@on", "pow", ret(x))] else [])
  }

  pure def queries(t: Ty, a: int, n: int): List[Obs] = {
    val q = pat(t, a)
    val k = n % t.bits
    val ok = n < t.bits
    val l = h::shlBits(t, a, k)
    val r = h::shrBits(t, a, k)
    val sr = wrap(t, h::shrBits(signedOf(t), wrap(signedOf(t), a), k))
    val ur = wrap(t, q / 2^k)
    val sw = unpat(t, w::swapBytes(t.bits, q))
    [
      ("WrappingShl", "wrapping_shl", ret(l)), ("WrappingShr", "wrapping_shr", ret(r)),
      ("CheckedShl", "checked_shl", if (ok) ret(l) else Nothing),
      ("CheckedShr", "checked_shr", if (ok) ret(r) else Nothing),
      ("PrimInt@on", "signed_shl", if (ok) ret(l) else Panic), ("PrimInt@off", "signed_shl", ret(l)),
      ("PrimInt@on", "unsigned_shl", if (ok) ret(l) else Panic), ("PrimInt@off", "unsigned_shl", ret(l)),
      ("PrimInt@on", "signed_shr", if (ok) ret(sr) else Panic), ("PrimInt@off", "signed_shr", ret(sr)),
      ("PrimInt@on", "unsigned_shr", if (ok) ret(ur) else Panic), ("PrimInt@off", "unsigned_shr", ret(ur)),
      ("PrimInt", "rotate_left", ret(h::rotl(t, a, k))), ("PrimInt", "rotate_right", ret(h::rotr(t, a, k))),
      ("PrimInt", "count_ones", ret(popcount(t.bits, q))),
      ("PrimInt", "count_zeros", ret(t.bits - popcount(t.bits, q))),
      ("PrimInt", "leading_zeros", ret(w::leadingZeros(t.bits, q))),
      ("PrimInt", "leading_ones", ret(w::leadingZeros(t.bits, w::flip(t.bits, q)))),
      ("PrimInt", "trailing_zeros", ret(w::trailingZeros(t.bits, q))),
      ("PrimInt", "trailing_ones", ret(w::trailingZeros(t.bits, w::flip(t.bits, q)))),
      ("PrimInt", "swap_bytes", ret(sw)),
      ("PrimInt", "from_be", ret(sw)), ("PrimInt", "to_be", ret(sw)),
      ("PrimInt", "from_le", ret(a)), ("PrimInt", "to_le", ret(a)),
      ("PrimInt", "reverse_bits", ret(unpat(t, w::reverseBits(t.bits, q))))
    ]
  }

  pure def signs(t: Ty, a: int, b: int): List[Obs] =
    if (not(t.sg)) [] else [
      ("Signed", "abs", strict(t, abs(a))), ("Signed", "signum", ret(sgn(a))),
      ("Signed", "is_positive", retB(a > 0)), ("Signed", "is_negative", retB(a < 0)),
      ("Signed@on", "abs_sub", if (a <= b) ret(0) else strict(t, a - b)),
      ("Signed@off", "abs_sub", if (a <= b) ret(0) else wrapping(t, a - b))
    ]

  pure def bytes(t: Ty, a: int): List[Obs] = {
    val l = digits(t.bits / 8, 256, pat(t, a))
    [
      ("ToBytes", "to_le_bytes", V(l)), ("ToBytes", "to_ne_bytes", V(l)), ("ToBytes", "to_be_bytes", V(rev(l))),
      ("FromBytes", "from_le_bytes", ret(a)), ("FromBytes", "from_ne_bytes", ret(a)), ("FromBytes", "from_be_bytes", ret(a))
    ]
  }

  pure def some(c: Ty, x: int): Out = if (fits(c, x)) ret(x) else Nothing

  pure def casts(t: Ty, args: List[int]): List[Obs] =
    range(0, 10).foldl([], (l, i) => {
      val q = v::prims[i]
      val x = args[i + 1]
      val a = args[0]
      l.concat([
        ("ToPrimitive", q.name, some(q.ty, a)),
        ("NumCast to", q.name, some(q.ty, a)),
        ("FromPrimitive", q.name, some(t, x)),
        ("NumCast from", q.name, some(t, x)),
        ("AsPrimitive to", q.name, ret(wrap(q.ty, a))),
        ("AsPrimitive from", q.name, ret(wrap(t, x)))
      ])
    }).concat([
      ("ToPrimitive", "usize", some(v::prims[3].ty, args[0])), ("ToPrimitive", "isize", some(v::prims[8].ty, args[0])),
      ("FromPrimitive", "usize", some(t, args[4])), ("FromPrimitive", "isize", some(t, args[9])),
      ("NumCast from", "usize", some(t, args[4])), ("NumCast from", "isize", some(t, args[9])),
      ("AsPrimitive to", "usize", ret(wrap(v::prims[3].ty, args[0]))),
      ("AsPrimitive to", "isize", ret(wrap(v::prims[8].ty, args[0]))),
      ("AsPrimitive from", "usize", ret(wrap(t, args[4]))), ("AsPrimitive from", "isize", ret(wrap(t, args[9]))),
      ("AsPrimitive from", "bool", ret(args[11])), ("AsPrimitive from", "char", ret(args[12]))
    ])

  pure def texts(t: Ty, x: int): List[Obs] =
    [("Num", "from_str_radix 10", if (fits(t, x)) ret(x) else Err("Any")),
     ("Num", "from_str_radix 16", if (fits(t, abs(x))) ret(abs(x)) else Err("Any"))]

  pure def observe(t: Ty, args: List[int]): List[Obs] =
    identities(t, args[0])
      .concat(arithmetic(t, args[0], args[13])).concat(division(t, args[0], args[13]))
      .concat(mulAdd(t, args[0] * args[13], args[0] * args[13] + args[14])).concat(powers(t, args[0], args[16]))
      .concat(queries(t, args[0], args[15])).concat(signs(t, args[0], args[13]))
      .concat(bytes(t, args[0])).concat(casts(t, args)).concat(texts(t, args[17]))

  var s: Step
  var acc: int

  pure def draw(prev: int, e: int): Step = {
    val t = pickTy(e)
    val k = (e / 40) % 16
    val a0 = if (k == 0) wrap(t, prev) else if (k == 1) [lo(t), hi(t), 0, 1][(e / 2^10) % 4]
             else if (k <= 6) v::genAround(t, e / 2^11) else genVal(t, e / 2^11)
    val b = if (k == 2) 0 else if (k == 1) wrap(t, -1)
            else if (k <= 7) genRel(t, a0, e / 2^1300)
            else if (k <= 10) m::genFactor(t, a0, e / 2^1300)
            else d::genDivisor(t, e / 2^1300)
    val a = if (k > 10) d::genDividend(t, b, e / 2^50) else a0
    // a third value, sometimes where product and sum meet the bounds
    val c0 = if (k % 3 == 0) genVal(t, e / 2^900) else (if (k % 3 == 1) hi(t) else lo(t)) - a * b + (e / 2^900) % 5 - 2
    val third = if (fits(t, c0)) c0 else wrap(t, e / 2^700)
    val n = p::genExp(e / 2^2500)
    val n1 = if ((e / 2^2550) % 2 == 0 or abs(a) < 2) n else max(0, t.bits / bitlen(abs(a)) + (e / 2^2551) % 3 - 1)
    val x = [hi(t), lo(t), 0, a, -a, 2 * hi(t), a][(e / 2^2560) % 7] + (e / 2^2570) % 7 - 3
    val args = [a].concat(range(0, 10).foldl([], (l, i) => l.append(v::genPrim(v::prims[i].ty, e / 2^(1200 + 120 * i)))))
                  .concat([(e / 2^9) % 2, v::genChar(e / 2^2600), b, third, h::genDist(t, e / 2^2610), n1, x])
    { ty: t, args: args, obs: observe(t, args) }
  }

  action init = all { s' = noStep, acc' = 0 }
  action step = {
    nondet e = 0.to(ENT).oneOf()
    val n = draw(acc, e)
    all { s' = n, acc' = n.args[0] * n.args[13] }
  }

  val inv =
    length(s.args) == 0 or {
      val t = s.ty
      val a = s.args[0]
      val b = s.args[13]
      and {
        fits(t, a), fits(t, b), fits(t, s.args[14]),
        b == 0 or d::eucDiv(a, b) * b + d::eucRem(a, b) == a,
        switched([("Pow@on", "Pow@off"), ("PrimInt@on", "PrimInt@off"), ("Signed@on", "Signed@off"), ("MulAdd@on", "MulAdd@off"),
          ("MulAddAssign@on", "MulAddAssign@off"), ("generic@on", "generic@off")], s.obs),
        alike("Pow@on", "PrimInt@on", s.obs), alike("MulAdd@off", "MulAddAssign@off", s.obs),
        alike("SaturatingAdd", "Saturating", s.obs), alike("SaturatingSub", "Saturating", s.obs),
        // the two right shifts agree on values without sign bit
        (a >= 0 and fits(signedOf(t), a)) implies
          wrap(t, h::shrBits(signedOf(t), a, s.args[15] % t.bits)) == pat(t, a) / 2^(s.args[15] % t.bits)
      }
    }
}
