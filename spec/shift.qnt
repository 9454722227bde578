// -*- mode: Bluespec; -*-
/// C05 - shifts and rotations, by any distance of any accepted type.
module shift {
  import base.* from "./base"

  pure def shlBits(t: Ty, a: int, k: int): int = wrap(t, a * 2^k)
  /// Arithmetic for signed, logical for unsigned values: both are the quotient
  /// rounded towards minus infinity.
  pure def shrBits(t: Ty, a: int, k: int): int = fdiv(a, 2^k)
  pure def rotl(t: Ty, a: int, k: int): int = {
    val p = pat(t, a)
    val m = 2^(t.bits - k)
    unpat(t, (p % m) * 2^k + p / m)
  }
  pure def rotr(t: Ty, a: int, k: int): int = rotl(t, a, (t.bits - k) % t.bits)

  /// Methods: the distance n is any 32-bit number.
  pure def methods(t: Ty, a: int, n: int): List[Obs] = {
    val k = n % t.bits
    val ok = n < t.bits
    val l = shlBits(t, a, k)
    val r = shrBits(t, a, k)
    [
      ("wrapping", "shl", ret(l)), ("wrapping", "shr", ret(r)),
      ("checked", "shl", if (ok) ret(l) else Nothing), ("checked", "shr", if (ok) ret(r) else Nothing),
      ("strict", "shl", if (ok) ret(l) else Panic), ("strict", "shr", if (ok) ret(r) else Panic),
      ("unbounded", "shl", ret(if (ok) l else 0)), ("unbounded", "shr", ret(if (ok) r else 0)),
      ("plain", "rotate_left", ret(rotl(t, a, k))), ("plain", "rotate_right", ret(rotr(t, a, k)))
    ].concat(if (ok) [("unchecked", "shl", ret(l)), ("unchecked", "shr", ret(r))] else [])
     .concat(if (t.sg) [("overflowing", "shl", ret2(l, b2i(not(ok)))), ("overflowing", "shr", ret2(r, b2i(not(ok))))] else [])
  }

  /// Integer types an operator accepts as its distance.
  pure def distances(t: Ty): List[(str, str, Ty)] = [
    ("shl u8", "shr u8", { bits: 8, sg: false }), ("shl i8", "shr i8", { bits: 8, sg: true }),
    ("shl u16", "shr u16", { bits: 16, sg: false }), ("shl i16", "shr i16", { bits: 16, sg: true }),
    ("shl u32", "shr u32", { bits: 32, sg: false }), ("shl i32", "shr i32", { bits: 32, sg: true }),
    ("shl u64", "shr u64", { bits: 64, sg: false }), ("shl i64", "shr i64", { bits: 64, sg: true }),
    ("shl u128", "shr u128", { bits: 128, sg: false }), ("shl i128", "shr i128", { bits: 128, sg: true }),
    ("shl usize", "shr usize", { bits: 64, sg: false }), ("shl isize", "shr isize", { bits: 64, sg: true }),
    ("shl unsigned", "shr unsigned", unsignedOf(t)), ("shl signed", "shr signed", signedOf(t))
  ]

  /// Operators. A distance out of range panics with overflow checks; without
  /// them its low 32 bits are reduced modulo the width.
  pure def operator(f: (str, str), t: Ty, a: int, d: int): List[Obs] = {
    val ok = 0 <= d and d < t.bits
    val k = umod(d, 2^32) % t.bits
    val l = ret(shlBits(t, a, k))
    val r = ret(shrBits(t, a, k))
    distances(t).foldl([], (acc, c) =>
      if (not(fits(c._3, d))) acc else acc.concat([
        (f._1, c._1, if (ok) l else Panic), (f._2, c._1, l),
        (f._1, c._2, if (ok) r else Panic), (f._2, c._2, r)
      ]))
  }

  pure def observe(t: Ty, a: int, n: int, d: int): List[Obs] =
    methods(t, a, n).concat(operator(("op@on", "op@off"), t, a, d))

  /// Distances in range, next to limb boundaries, next to the width and its
  /// multiples, and anywhere in 32 bits.
  pure def genDist(t: Ty, e: int): int = {
    val k = e % 16
    val r = e / 16
    if (k <= 6) r % t.bits
    else if (k <= 8) (32 * (r % (t.bits / 32 + 1)) + (r / 64) % 3 + 2^32 - 1) % 2^32
    else if (k == 9) t.bits - 1 - r % 3
    else if (k == 10) t.bits + r % 4
    else if (k == 11) t.bits * (r % 2^20) + (r / 2^20) % 3
    else if (k == 12) 2^32 - 1 - r % 4
    else if (k == 13) 2^(r % 32)
    else if (k == 14) r % 130
    else r % 2^32
  }
  /// Distances for operators: as above, negative, and beyond 32 bits.
  pure def genOpDist(t: Ty, e: int): int = {
    val k = e % 16
    val r = e / 16
    if (k <= 8) genDist(t, r)
    else if (k == 9) -(1 + r % 130)
    else if (k == 10) -(genDist(t, r))
    else if (k == 11) 2^(32 + r % 30) + genDist(t, r / 32)
    else if (k == 12) r % 2^64
    else if (k == 13) -(r % 2^63)
    else if (k == 14) (r / 16) % 2^(64 + r % 63)
    else genVal(t, r)
  }

  var s: Step
  var acc: int

  pure def draw(prev: int, e: int): Step = {
    val t = pickTy(e)
    val e1 = e / 40
    val a = if (e1 % 16 == 0) wrap(t, prev) else genVal(t, e1 / 16)
    val e2 = e / 2^1400
    val n = genDist(t, e2)
    val d = genOpDist(t, e2 / 2^100)
    { ty: t, args: [a, n, d], obs: observe(t, a, n, d) }
  }

  action init = all { s' = noStep, acc' = 0 }
  action step = {
    nondet e = 0.to(ENT).oneOf()
    val n = draw(acc, e)
    all { s' = n, acc' = rotl(n.ty, n.args[0], n.args[1] % n.ty.bits) }
  }

  val inv =
    length(s.args) == 0 or {
      val t = s.ty
      val a = s.args[0]
      val k = s.args[1] % t.bits
      and {
        fits(t, a), 0 <= s.args[1] and s.args[1] < 2^32, agree(t, FORMS, s.obs), switched([("op@on", "op@off")], s.obs),
        fits(t, shlBits(t, a, k)), fits(t, shrBits(t, a, k)),
        rotr(t, rotl(t, a, k), k) == a,
        // a rotation is the two shifts put together
        pat(t, rotl(t, a, k)) == umod(shlBits(t, a, k), 2^t.bits)
          + (if (k == 0) 0 else pat(t, a) / 2^(t.bits - k)),
        // shifting out and back loses exactly the bits shifted out
        shlBits(t, shrBits(t, a, k), k) == a - umod(a, 2^k),
        (a < 0) == (shrBits(t, a, k) < 0)
      }
    }
}
