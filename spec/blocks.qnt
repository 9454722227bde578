// -*- mode: Bluespec; -*-
/// C17 - the arithmetic on arrays of limbs from which the integer types are
/// made, for any number of limbs and both limb sizes.
///
/// An array of k limbs of w bits is modelled by the number it denotes, least
/// significant limb first: a natural number below 2^(k*w) or, for the signed
/// functions, the two's complement reading of it.
module blocks {
  import base.* from "./base"
  import divrem as d from "./divrem"

  /// What an array operation is applied to. Which of the operands an operation
  /// takes is part of its name.
  type In = {
    t: Ty,          // the type the first array stands for: k limbs of w bits
    w: int,         // bits in a limb
    k: int,         // limbs in the first array
    a: int, b: int, // two arrays of k limbs
    c: int, n: int, // an array of n <= k limbs
    ul: int, il: int, uw: int, iw: int, // one limb, two limbs; unsigned and signed
    sh: int, rot: int,                  // a distance below k*w, and any distance
    q: int,                             // 128 bits
    x: int, y: int, ix: int, cy: int    // limbs and a carry
  }

  pure def args(i: In): List[int] =
    [i.a, i.b, i.c, i.n, i.ul, i.il, i.uw, i.iw, i.sh, i.rot, i.q, i.x, i.y, i.ix, i.cy]

  pure def form(w: int): str = if (w == 32) "limbs32" else if (w == 64) "limbs64" else "limbs128"
  /// Division exists for the limb size of the build only.
  pure def divForm(w: int): str = if (w == 32) "limbs32@32" else "limbs64@64"

  pure def both(f: str, t: Ty, x: int, wr: str, ov: str): List[Obs] =
    [(f, wr, wrapping(t, x)), (f, ov, overflowing(t, x))]

  pure def unsignedObs(i: In): List[Obs] = {
    val t = i.t
    val f = form(i.w)
    val limb: Ty = { bits: i.w, sg: false }
    val wide: Ty = { bits: 2 * i.w, sg: false }
    val m = 2^t.bits
    val p = 2^i.w
    both(f, t, i.a + i.b, "add_wrapping", "add_overflowing")
    .concat(both(f, t, i.a - i.b, "sub_wrapping", "sub_overflowing"))
    .concat(both(f, t, i.a + i.ul, "add_limb_wrapping", "add_limb_overflowing"))
    .concat(both(f, t, i.a - i.ul, "sub_limb_wrapping", "sub_limb_overflowing"))
    .concat(both(f, t, i.a * i.ul, "mul_limb_wrapping", "mul_limb_overflowing"))
    .concat(both(f, t, i.a * i.uw, "mul_wide_wrapping", "mul_wide_overflowing"))
    .concat(both(f, t, i.a * i.c, "mul_wrapping", "mul_overflowing"))
    .concat([
      (f, "mul_widening", V([(i.a * i.b) % m, (i.a * i.b) / m])),
      (f, "shl", wrapping(t, i.a * 2^i.sh)),
      (f, "shr", ret(i.a / 2^i.sh)),
      (f, "rotl", ret(rotl(t.bits, i.a, i.rot))),
      (f, "rotr", ret(rotl(t.bits, i.a, t.bits - i.rot % t.bits))),
      (f, "limb_add", overflowing(limb, i.x + i.y + i.cy)),
      (f, "limb_sub", overflowing(limb, i.x - i.y - i.cy)),
      (f, "limb_mul", V([(i.x * i.y + i.ul) % p, (i.x * i.y + i.ul) / p])),
      (f, "limb_mac", V([(i.ul + i.x * i.y + i.uw % p) % p, (i.ul + i.x * i.y + i.uw % p) / p]))
    ])
    // a two-limb addend must be shorter than the array
    .concat(if (i.k < 3) [] else
      both(f, t, i.a + i.uw, "add_wide_wrapping", "add_wide_overflowing")
      .concat(both(f, t, i.a - i.uw, "sub_wide_wrapping", "sub_wide_overflowing")))
    .concat(if (i.n < 2 or i.n >= i.k) [] else
      both(f, t, i.a + i.c, "add_short_wrapping", "add_short_overflowing")
      .concat(both(f, t, i.a - i.c, "sub_short_wrapping", "sub_short_overflowing")))
    .concat([
      (divForm(i.w), "cmp", ret(sgn(i.a - i.c))),
      (divForm(i.w), "div", quotRem(i.a, i.c)),
      (divForm(i.w), "div_limb", quotRem(i.a, i.ul)),
      (divForm(i.w), "div_wide", quotRem(i.a, i.uw))
    ])
    .concat(if (i.w == 64 or i.k < 4) [] else [(divForm(i.w), "div_u128", quotRem(i.a, i.q))])
  }

  pure def quotRem(a: int, b: int): Out = if (b == 0) Panic else ret2(a / b, a % b)
  pure def rotl(bits: int, p: int, n: int): int = {
    val k = n % bits
    (p * 2^k) % 2^bits + p / 2^(bits - k)
  }

  pure def signedObs(i: In): List[Obs] = {
    val t = i.t
    val f = form(i.w)
    val limb: Ty = { bits: i.w, sg: true }
    both(f, t, i.a + i.b, "add_wrapping", "add_overflowing")
    .concat(both(f, t, i.a - i.b, "sub_wrapping", "sub_overflowing"))
    .concat(both(f, t, i.a * i.b, "mul_wrapping", "mul_overflowing"))
    .concat(both(f, t, i.a + i.ul, "add_ulimb_wrapping", "add_ulimb_overflowing"))
    .concat(both(f, t, i.a - i.ul, "sub_ulimb_wrapping", "sub_ulimb_overflowing"))
    .concat(both(f, t, i.a * i.ul, "mul_ulimb_wrapping", "mul_ulimb_overflowing"))
    .concat(both(f, t, i.a + i.il, "add_ilimb_wrapping", "add_ilimb_overflowing"))
    .concat(both(f, t, i.a - i.il, "sub_ilimb_wrapping", "sub_ilimb_overflowing"))
    .concat(both(f, t, i.a * i.il, "mul_ilimb_wrapping", "mul_ilimb_overflowing"))
    .concat(both(f, t, i.a + i.iw, "add_iwide_wrapping", "add_iwide_overflowing"))
    .concat(both(f, t, i.a - i.iw, "sub_iwide_wrapping", "sub_iwide_overflowing"))
    .concat(both(f, t, i.a * i.iw, "mul_iwide_wrapping", "mul_iwide_overflowing"))
    // an unsigned pair of limbs has to be non-negative as an array
    .concat(if (i.k < 3) [] else
      both(f, t, i.a + i.uw, "add_uwide_wrapping", "add_uwide_overflowing")
      .concat(both(f, t, i.a - i.uw, "sub_uwide_wrapping", "sub_uwide_overflowing"))
      .concat(both(f, t, i.a * i.uw, "mul_uwide_wrapping", "mul_uwide_overflowing")))
    .concat([
      (f, "shl", wrapping(t, i.a * 2^i.sh)),
      (f, "shr", ret(fdiv(i.a, 2^i.sh))),
      (f, "limb_add", overflowing(limb, i.il + i.ix + i.cy)),
      (f, "limb_sub", overflowing(limb, i.il - i.ix - i.cy))
    ])
  }

  /// Shifts and rotations exist for limbs of 128 bits too.
  pure def shiftObs(i: In): List[Obs] = {
    val t = i.t
    val f = form(i.w)
    [(f, "shl", wrapping(t, i.a * 2^i.sh)), (f, "shr", ret(fdiv(i.a, 2^i.sh)))]
    .concat(if (t.sg) [] else [
      (f, "rotl", ret(rotl(t.bits, i.a, i.rot))),
      (f, "rotr", ret(rotl(t.bits, i.a, t.bits - i.rot % t.bits)))
    ])
  }

  pure def look(i: In): Step =
    { ty: i.t, args: args(i).append(i.w),
      obs: if (i.w == 128) shiftObs(i) else if (i.t.sg) signedObs(i) else unsignedObs(i) }

  /// Numbers of limbs explored, and for each the lengths of the shorter array.
  pure val LENGTHS: List[int] = [2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 32]
  pure def shorter(k: int): List[int] =
    if (k <= 9) range(1, k + 1)
    else if (k == 12) [1, 2, 3, 6, 11, 12]
    else if (k == 16) [1, 2, 4, 8, 15, 16]
    else [1, 2, 4, 16, 31, 32]

  // ------------------------------------------------------------- exploration

  /// One limb of w bits, extreme more often than not.
  pure def genLimb(w: int, e: int): int = limbPat(1, w, e)
  pure def signedOfPat(w: int, p: int): int = unpat({ bits: w, sg: true }, p)

  pure def genIn(e: int): In = {
    val w = [32, 64, 32, 64, 32, 64, 32, 128][e % 8]
    // 1024 bits at most, or 1152
    val k = LENGTHS[((e / 8) % 2^16) % (if (w == 32) 11 else if (w == 64) 10 else 8)]
    val t: Ty = { bits: k * w, sg: (e / 2^19) % 2 == 1 }
    val e1 = e / 2^20
    val ns = shorter(k)
    val n = ns[(e1 % 64) % length(ns)]
    val c = if ((e1 / 64) % 32 == 0) 0 else limbPat(n, w, e1 / 2^11)
    val e2 = e / 2^700
    val e3 = e / 2^1100
    val a = if (e1 % 3 == 0 and not(t.sg)) d::genDividend(t, c, e2) else genVal(t, e2)
    val u: Ty = { bits: w, sg: false }
    {
      t: t, w: w, k: k, a: a, b: genRel(t, a, e3), c: c, n: n,
      ul: genLimb(w, e3 / 2^41), il: signedOfPat(w, genLimb(w, e3 / 2^161)),
      uw: limbPat(2, w, e3 / 2^251), iw: signedOfPat(2 * w, limbPat(2, w, e3 / 2^401)),
      sh: (e3 / 2^501) % (k * w), rot: (e3 / 2^511) % 2^(1 + (e3 / 2^545) % 32),
      q: limbPat(1 + (e3 / 2^551) % 4, 32, e3 / 2^561),
      x: genLimb(w, e3 / 2^701), y: genLimb(w, e3 / 2^801), ix: signedOfPat(w, genLimb(w, e3 / 2^901)),
      cy: (e3 / 2^1000) % 2
    }
  }

  var s: Step
  var at: In

  action init = {
    nondet e = 0.to(ENT).oneOf()
    all { s' = look(genIn(e)), at' = genIn(e) }
  }
  action step = init

  /// What the array operations promise each other.
  val inv = {
    val i = at
    and {
      fits(i.t, i.a), fits(i.t, i.b), 0 <= i.c, i.c < 2^(i.n * i.w), i.n <= i.k,
      // a carry out of one addition is what is missing from the sum
      i.t.sg or {
        val m = 2^i.t.bits
        wrap(i.t, i.a + i.b) + (if (i.a + i.b >= m) m else 0) == i.a + i.b
      },
      // subtraction undoes addition, rotation right undoes rotation left
      wrap(i.t, wrap(i.t, i.a + i.b) - i.b) == i.a,
      i.t.sg or rotl(i.t.bits, rotl(i.t.bits, i.a, i.rot), i.t.bits - i.rot % i.t.bits) == i.a,
      i.t.sg or i.c == 0 or (i.a / i.c) * i.c + i.a % i.c == i.a,
      // shifting right undoes shifting left when nothing is lost
      not(fits(i.t, i.a * 2^i.sh)) or fdiv(wrap(i.t, i.a * 2^i.sh), 2^i.sh) == i.a
    }
  }
}
