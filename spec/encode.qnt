// -*- mode: Bluespec; -*-
/// C10 - encodings: the digits of the two's-complement pattern in base 2^8,
/// 2^32, 2^64 or the native limb and double-limb base, in little-endian,
/// big-endian or native order (native is little-endian where this runs).
///
/// Arguments of a step: a value to encode, and a value whose digits are given
/// to the decoders.
module encode {
  import base.* from "./base"

  type Names = { be: str, le: str, ne: str, bits: int, to: str, from: str, round: str, dec: str }
  pure val kinds: List[Names] = [
    { be: "be_bytes", le: "le_bytes", ne: "ne_bytes", bits: 8, to: "to", from: "from", round: "round trip", dec: "inverse" },
    { be: "be_u32", le: "le_u32", ne: "ne_u32", bits: 32, to: "to", from: "from", round: "round trip", dec: "inverse" },
    { be: "be_u64", le: "le_u64", ne: "ne_u64", bits: 64, to: "to", from: "from", round: "round trip", dec: "inverse" },
    { be: "be_limbs", le: "le_limbs", ne: "ne_limbs", bits: 64, to: "to@64", from: "from@64", round: "round trip@64", dec: "inverse@64" },
    { be: "be_limbs", le: "le_limbs", ne: "ne_limbs", bits: 32, to: "to@32", from: "from@32", round: "round trip@32", dec: "inverse@32" },
    { be: "be_wide", le: "le_wide", ne: "ne_wide", bits: 128, to: "to@64", from: "from@64", round: "round trip@64", dec: "inverse@64" },
    { be: "be_wide", le: "le_wide", ne: "ne_wide", bits: 64, to: "to@32", from: "from@32", round: "round trip@32", dec: "inverse@32" }
  ]

  pure def little(t: Ty, w: int, x: int): List[int] = digits(t.bits / w, 2^w, pat(t, x))

  pure def swapped(t: Ty, x: int): int = unpat(t, undigits(256, rev(little(t, 8, x))))

  pure def observe(t: Ty, a: int, b: int): List[Obs] =
    kinds.foldl([], (l, k) => {
      val da = little(t, k.bits, a)
      val db = little(t, k.bits, b)
      val vb = unpat(t, undigits(2^k.bits, db))
      l.concat([
        (k.to, k.le, V(da)), (k.to, k.ne, V(da)), (k.to, k.be, V(rev(da))),
        (k.from, k.le, ret(vb)), (k.from, k.ne, ret(vb)), (k.from, k.be, ret(vb)),
        (k.round, k.le, ret(a)), (k.round, k.ne, ret(a)), (k.round, k.be, ret(a)),
        (k.dec, k.le, V(db)), (k.dec, k.ne, V(db)), (k.dec, k.be, V(rev(db)))
      ])
    }).concat([
      ("to", "le", ret(a)), ("to", "be", ret(swapped(t, a))),
      ("from", "le", ret(a)), ("from", "be", ret(swapped(t, a)))
    ])

  var s: Step
  var acc: int

  /// A pattern all of whose bytes are different from their neighbours, so that
  /// no exchange of digits goes unnoticed.
  pure def ladder(t: Ty, e: int): int = {
    val start = e % 256
    val stride = 1 + 2 * ((e / 256) % 128)
    unpat(t, undigits(256, range(0, t.bits / 8).foldl([], (l, i) => l.append((start + stride * i) % 256))))
  }
  pure def genAny(t: Ty, e: int): int =
    if (e % 3 == 0) ladder(t, e / 3) else genVal(t, e / 3)

  pure def draw(prev: int, e: int): Step = {
    val t = pickTy(e)
    val a = if ((e / 40) % 16 == 0) wrap(t, prev) else genAny(t, e / 2^10)
    val b = if ((e / 2^9) % 4 == 0) genRel(t, a, e / 2^1350) else genAny(t, e / 2^1350)
    { ty: t, args: [a, b], obs: observe(t, a, b) }
  }

  action init = all { s' = noStep, acc' = 0 }
  action step = {
    nondet e = 0.to(ENT).oneOf()
    val n = draw(acc, e)
    all { s' = n, acc' = n.args[1] }
  }

  val inv =
    length(s.args) == 0 or {
      val t = s.ty
      val a = s.args[0]
      and {
        fits(t, a), fits(t, s.args[1]),
        swapped(t, swapped(t, a)) == a,
        kinds.indices().forall(i => {
          val w = kinds[i].bits
          val d = little(t, w, a)
          and {
            length(d) * w == t.bits,
            d.indices().forall(j => 0 <= d[j] and d[j] < 2^w),
            unpat(t, undigits(2^w, d)) == a,
            // the top digit carries the sign
            t.sg implies (d[length(d) - 1] >= 2^(w - 1)) == (a < 0)
          }
        })
      }
    }
}
