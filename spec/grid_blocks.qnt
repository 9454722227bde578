// -*- mode: Bluespec; -*-
/// C17, systematically: all pairs of three-limb and two-limb arrays with extreme
/// limbs, every distance of a shift for every length of array, and the pairs
/// of operands for each case of division, multiplication, carries and borrows.
module grid_blocks {
  import base.* from "./base"
  import blocks as f from "./blocks"
  import pairs as p from "./pairs"

  /// Extreme limbs of w bits.
  pure def ext(w: int, i: int): int = {
    val m = 2^w
    [0, m - 1, 1, m / 2, m / 2 - 1, m - 2, 2, m / 2 + 1][i % 8]
  }
  pure def array(w: int, k: int, alphabet: int, code: int): int =
    undigits(2^w, digits(k, alphabet, code).foldl([], (l, x) => l.append(ext(w, x))))
  pure def signedPat(bits: int, p: int): int = unpat({ bits: bits, sg: true }, p)

  pure def apply(w: int, k: int, sg: bool, a: int, b: int, n: int, z: int, sh: int): f::In = {
    val t: Ty = { bits: w * k, sg: sg }
    val uw = ext(w, z) + 2^w * ext(w, z / 8)
    {
      t: t, w: w, k: k, a: unpat(t, a), b: unpat(t, b), c: b % 2^(n * w), n: n,
      ul: ext(w, z), il: signedPat(w, ext(w, z / 3)), uw: uw, iw: signedPat(2 * w, uw),
      sh: sh, rot: sh + w * k * (z % 3), q: array(32, 4, 8, z * 37),
      x: ext(w, z), y: ext(w, z / 8), ix: signedPat(w, ext(w, z / 5)), cy: z % 2
    }
  }

  // w and signedness in turn; pairs of arrays of three limbs from four values
  pure val TRIPLES: int = 16384
  pure def triple(k: int): f::In = {
    val j = k / 4
    apply(if (k % 2 == 0) 32 else 64, 3, (k / 2) % 2 == 1, array(if (k % 2 == 0) 32 else 64, 3, 4, j % 64),
      array(if (k % 2 == 0) 32 else 64, 3, 4, j / 64), 1 + (j + j / 64) % 3, j % 64 + (j / 64) % 8, j % 96)
  }
  // pairs of arrays of two limbs from eight values
  pure val DOUBLES: int = 16384
  pure def double(k: int): f::In = {
    val j = k / 4
    apply(if (k % 2 == 0) 32 else 64, 2, (k / 2) % 2 == 1, array(if (k % 2 == 0) 32 else 64, 2, 8, j % 64),
      array(if (k % 2 == 0) 32 else 64, 2, 8, j / 64), 1 + (j + j / 64) % 2, j % 64, (j + j / 64) % 64)
  }
  // every distance for arrays of two to nine limbs
  pure val SHIFTS: int = 8448
  pure def shifts(k: int): f::In = {
    val w = if (k < 2816) 32 else 64
    val j = (if (k < 2816) k else k - 2816) / 2
    // lengths 2, 3, ... take 2w, 3w, ... distances
    val len = 2.to(9).filter(x => (x * (x + 1) / 2 - 1) * w > j and (x * (x - 1) / 2 - 1) * w <= j)
    val n = 2.to(9).fold(0, (acc, x) => if (len.contains(x)) x else acc)
    val sh = j - (n * (n - 1) / 2 - 1) * w
    apply(w, n, k % 2 == 1, array(w, n, 8, sh * 7919 + 9999991 * (1 + sh % 13)), array(w, n, 3, sh * 31 + 17), 1 + sh % n, sh % 64, sh)
  }

  // the same for 128-bit limbs, arrays of two to nine
  pure val WIDE_SHIFTS: int = 11264
  pure def wideShifts(k: int): f::In = {
    val j = k / 2
    val len = 2.to(9).filter(x => (x * (x + 1) / 2 - 1) * 128 > j and (x * (x - 1) / 2 - 1) * 128 <= j)
    val n = 2.to(9).fold(0, (acc, x) => if (len.contains(x)) x else acc)
    val sh = j - (n * (n - 1) / 2 - 1) * 128
    val t: Ty = { bits: 128 * n, sg: k % 2 == 1 }
    { ...apply(32, 2, false, 0, 0, 1, 0, sh), t: t, w: 128, k: n, rot: sh + 128 * n * (sh % 3),
      a: unpat(t, array(128, n, 8, sh * 7919 + 9999991 * (1 + sh % 13))) }
  }
  // every distance for long arrays of smaller limbs; the code has to reach the top
  pure val LONG: int = (1 + 2^25) * (1 + 2^50)
  pure val LONG_SHIFTS: int = 7424
  pure def longShifts(k: int): f::In = {
    val j = k / 2
    // 12, 16 and 32 limbs of 32 bits, 12 and 16 of 64
    val at = [0, 384, 896, 1920, 2688]
    val i = if (j < 384) 0 else if (j < 896) 1 else if (j < 1920) 2 else if (j < 2688) 3 else 4
    val w = if (i < 3) 32 else 64
    val n = [12, 16, 32, 12, 16][i]
    val sh = (j - at[i]) % (n * w)
    val ns = f::shorter(n)
    apply(w, n, k % 2 == 1, array(w, n, 8, (sh * 7919 + 9999991 * (1 + sh % 13)) * LONG), array(w, n, 3, (sh * 31 + 17) * LONG), ns[sh % length(ns)], sh % 64, sh)
  }
  // arrays for the cases of division, multiplication, carries and borrows
  pure val PAIRED: int = 28616
  pure def paired(j: int): f::In = {
    val o = p::pairAt(4, j / 2)
    val w = if (j % 2 == 0) 32 else 64
    val k = o.t.bits / w
    val b = pat(o.t, o.b)
    val ns = f::shorter(k).select(n => b < 2^(n * w))
    apply(w, k, o.t.sg, pat(o.t, o.a), b, if ((j / 2) % 2 == 0) ns[0] else k, j % 64, j % o.t.bits)
  }

  pure val SIZE: int = 88520
  pure def point(k: int): Step = f::look(
    if (k < TRIPLES) triple(k)
    else if (k < TRIPLES + DOUBLES) double(k - TRIPLES)
    else if (k < TRIPLES + DOUBLES + SHIFTS) shifts(k - TRIPLES - DOUBLES)
    else if (k < 41216 + WIDE_SHIFTS) wideShifts(k - 41216)
    else if (k < 41216 + WIDE_SHIFTS + LONG_SHIFTS) longShifts(k - 41216 - WIDE_SHIFTS)
    else paired(k - 41216 - WIDE_SHIFTS - LONG_SHIFTS))

  var s: Step
  var at: int
  action from(k: int): bool = all { at' = k, s' = point(k % SIZE) }
  action init = from(0)
  action step = from(at + 1)
}
