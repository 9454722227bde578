// -*- mode: Bluespec; -*-
/// C09 - conversions to and from machine integers, booleans and characters,
/// and between the signed and the unsigned type of one width; constants.
///
/// Arguments of a step: the value, then one source value for each machine
/// type in the order of `prims`, then a boolean and a character.
module conv {
  import base.* from "./base"

  type Prim = { name: str, ty: Ty }
  pure val prims: List[Prim] = [
    { name: "u8", ty: { bits: 8, sg: false } }, { name: "u16", ty: { bits: 16, sg: false } },
    { name: "u32", ty: { bits: 32, sg: false } }, { name: "u64", ty: { bits: 64, sg: false } },
    { name: "u128", ty: { bits: 128, sg: false } },
    { name: "i8", ty: { bits: 8, sg: true } }, { name: "i16", ty: { bits: 16, sg: true } },
    { name: "i32", ty: { bits: 32, sg: true } }, { name: "i64", ty: { bits: 64, sg: true } },
    { name: "i128", ty: { bits: 128, sg: true } }
  ]
  type Alias = { form: str, from: str, name: str, prim: int }
  /// Native limb and double limb: which machine type they are in which build.
  pure val aliases: List[Alias] = [
    { form: "as@64", from: "from@64", name: "ulimb", prim: 3 },
    { form: "as@32", from: "from@32", name: "ulimb", prim: 2 },
    { form: "as@64", from: "from@64", name: "uwide", prim: 4 },
    { form: "as@32", from: "from@32", name: "uwide", prim: 3 },
    { form: "as@64", from: "from@64", name: "ilimb", prim: 8 },
    { form: "as@32", from: "from@32", name: "ilimb", prim: 7 },
    { form: "as@64", from: "from@64", name: "iwide", prim: 9 },
    { form: "as@32", from: "from@32", name: "iwide", prim: 8 }
  ]

  /// Fallible conversion of integer x to type t.
  pure def fallible(t: Ty, x: int): Out = if (fits(t, x)) ret(x) else Err("Any")

  pure def outward(t: Ty, a: int): List[Obs] =
    prims.foldl([], (l, p) => l.append(("as", p.name, ret(wrap(p.ty, a)))))
      .concat(aliases.foldl([], (l, p) => l.append((p.form, p.name, ret(wrap(prims[p.prim].ty, a))))))
      .concat([
        ("as", "unsigned", ret(wrap(unsignedOf(t), a))),
        ("as", "signed", ret(wrap(signedOf(t), a))),
        ("cast", "other", ret(wrap(otherSign(t), a))),
        ("from", "same", ret(a)),
        ("from", "to other", ret(wrap(otherSign(t), a))),
        ("TryFrom", "to other", fallible(otherSign(t), a)),
        ("TryInto", "to other", fallible(otherSign(t), a)),
        ("From", "same", ret(a))
      ])

  /// `from` and `as` reduce; From is for sources that always fit and TryFrom
  /// answers an error for those that do not.
  pure def inward(t: Ty, args: List[int]): List[Obs] =
    range(0, 10).foldl([], (l, i) => {
      val p = prims[i]
      val x = args[i + 1]
      l.concat([
        ("from", p.name, ret(wrap(t, x))),
        ("TryFrom", p.name, fallible(t, x))
      ]).concat(if (p.ty.sg and not(t.sg)) [] else [("From", p.name, ret(x)), ("Into", p.name, ret(x))])
    }).concat(aliases.foldl([], (l, p) => l.append((p.from, p.name, ret(wrap(t, args[p.prim + 1]))))))
      .concat([
        ("From", "bool", ret(args[11])), ("Into", "bool", ret(args[11])),
        ("From", "char", ret(args[12])), ("Into", "char", ret(args[12]))
      ])

  pure def constants(t: Ty): List[Obs] = [
    ("const", "MIN", ret(lo(t))), ("const", "MAX", ret(hi(t))),
    ("const", "min_value", ret(lo(t))), ("const", "max_value", ret(hi(t))),
    ("const", "BITS", ret(t.bits)), ("const", "IS_SIGNED", retB(t.sg)),
    ("const", "default", ret(0)), ("const", "size", ret(t.bits / 8))
  ]

  pure def observe(t: Ty, args: List[int]): List[Obs] =
    outward(t, args[0]).concat(inward(t, args)).concat(constants(t))

  var s: Step
  var acc: int

  /// A source value: extreme, small, a power of two or its neighbour, limb
  /// patterns, anything.
  pure def genPrim(c: Ty, e: int): int = {
    val k = e % 10
    val r = e / 10
    val m = 2^c.bits
    val p =
      if (k == 0) r % 4
      else if (k == 1) m - 1 - r % 4
      else if (k == 2) umod(m / 2 + r % 5 - 2, m)
      else if (k == 3) umod(2^(r % c.bits) + (r / 128) % 3 - 1, m)
      else if (k == 4) m - 2^(r % c.bits)
      else if (k <= 6 and c.bits >= 32) limbPat(c.bits / 32, 32, r)
      else (r / 2^30) % m
    unpat(c, p)
  }

  /// A value that fills all or only the lowest bits, so that every outgoing
  /// conversion sees values at, inside and outside its range.
  pure def genAround(t: Ty, e: int): int = {
    val k = e % 10
    val r = e / 10
    val c = prims[(r / 8) % 10].ty
    val d = (r / 128) % 7 - 3
    if (k <= 4) genVal(t, r)
    else if (k == 5) wrap(t, lo(c) + d)
    else if (k == 6) wrap(t, hi(c) + d)
    else if (k == 7) wrap(t, 2^(r % t.bits) * ((r / 2^20) % 2^16) + genPrim(c, r / 2^40))
    else if (k == 8) (if (t.sg) hi(t) - r % 3 else 2^(t.bits - 1) - 1 + d)
    else wrap(t, genPrim(c, r / 2^20))
  }

  pure def genChar(e: int): int = {
    val k = e % 6
    val r = e / 6
    if (k == 0) r % 128
    else if (k == 1) 55295 - r % 3
    else if (k == 2) 57344 + r % 3
    else if (k == 3) 1114111 - r % 3
    else if (k == 4) r % 55296
    else 57344 + r % 1056768
  }

  pure def draw(prev: int, e: int): Step = {
    val t = pickTy(e)
    val a = if ((e / 40) % 16 == 0) wrap(t, prev) else genAround(t, e / 2^10)
    val p = range(0, 10).foldl([], (l, i) => l.append(genPrim(prims[i].ty, e / 2^(1200 + 120 * i))))
    val args = [a].concat(p).concat([(e / 2^9) % 2, genChar(e / 2^2500)])
    { ty: t, args: args, obs: observe(t, args) }
  }

  action init = all { s' = noStep, acc' = 0 }
  action step = {
    nondet e = 0.to(ENT).oneOf()
    val n = draw(acc, e)
    all { s' = n, acc' = n.args[0] }
  }

  /// Laws of the specification itself.
  val inv =
    length(s.args) == 0 or {
      val t = s.ty
      val a = s.args[0]
      and {
        fits(t, a),
        // to the other signedness and back
        wrap(t, wrap(otherSign(t), a)) == a,
        range(0, 10).indices().forall(i => {
          val c = prims[i].ty
          val x = s.args[i + 1]
          and {
            fits(c, x),
            // into the value and back out
            wrap(c, wrap(t, x)) == x,
            // truncation keeps the low bits
            pat(c, wrap(c, a)) == pat(t, a) % 2^c.bits,
            // what is converted without error is converted exactly
            fits(c, a) implies wrap(c, a) == a
          }
        }),
        s.args[12] < 55296 or (s.args[12] >= 57344 and s.args[12] < 1114112)
      }
    }
}
