// -*- mode: Bluespec; -*-
/// C12, systematically: every radix with the values at both ends, and at powers
/// of the radix that end or start a digit; the values next to every power of
/// ten; every single digit of the bit pattern in base 2, 8 and 16; numerals of
/// all lengths in every radix; widths around the length of the text.
module grid_format {
  import base.* from "./base"
  import format as f from "./format"

  pure def look(t: Ty, a: int, radix: int, w: int, obs: List[Obs]): Step =
    { ty: t, args: [a, radix, 0, f::short(a, radix), w], obs: obs }

  pure val ENDS: int = 5040
  pure def end(k: int): Step = {
    val t = TYPES[k % 8]
    val radix = 2 + (k / 8) % 35
    val j = k / 280
    val x =
      if (j < 6) [0, 1, radix - 1, radix, hi(t), lo(t)][j]
      else {
        // the m-th power of the radix, at multiples of what fits 32, 64, 128 bits
        val w = [32, 64, 128, 192][(j - 6) / 3]
        val m = w / bitlen(radix - 1) + (if (bitlen(radix) == bitlen(radix - 1)) 1 else 0)
        radix^m + [0 - 1, 0, 1][j % 3]
      }
    val a = wrap(t, if (t.sg and j % 2 == 1 and j > 5) 0 - x else x)
    look(t, a, radix, radix, f::observe(t, a, radix, radix))
  }

  pure def decimal(k: int): Step = {
    val z = spot(k)
    val x = (10^(z.i / 3) + z.i % 3 - 1) % 2^(z.t.bits - b2i(z.t.sg))
    val a = if (z.t.sg and (z.i / 6) % 2 == 1) -x else x
    look(z.t, a, 10, 0, f::decimals(z.t, a))
  }
  pure def digit(k: int): Step = {
    val z = spot(k)
    val a = wrap(z.t, 2^z.i * [1, 3, 5, 7][(z.i / 4) % 4] + (if (z.i % 5 == 0) 1 else 0))
    look(z.t, a, 16, 0, f::patterns(z.t, a))
  }

  /// The largest number of n digits in a radix, or the next, n from one up to
  /// more than fit.
  pure val LENGTHS: int = 17920
  pure def lengthy(k: int): Step = {
    val t = TYPES[k % 8]
    val radix = 2 + (k / 8) % 35
    val j = k / 280
    val most = 1 + t.bits / (bitlen(radix) - 1)
    val n = 1 + (j / 2 + (j / 2) * (most / 32)) % most
    val x = (radix^n - j % 2) % (hi(t) + 1)
    val a = if (t.sg and n % 2 == 0) -x else x
    look(t, a, radix, 0, f::inRadix(t, a, radix))
  }

  /// Widths around the length of the text in base 16, 8 or 2.
  pure val WIDTHS: int = 2016
  pure def width(k: int): Step = {
    val t = TYPES[k % 8]
    val v = (k / 8) % 12
    val r = [16, 8, 2][(k / 96) % 3]
    val d = k / 288 - 2
    val n = t.bits
    val a = unpat(t, [0, 1, 15, 16, 2^31, 2^32, 2^63 - 1, 2^64, 2^128, 2^(n / 2) - 1, 2^(n - 1), 2^n - 1][v])
    val w = max(0, length(f::numeral(r, true, pat(t, a))) + d)
    look(t, a, r, w, f::widthOf(t, a, w))
  }

  pure val SIZE: int = 33680
  pure def point(k: int): Step =
    if (k < ENDS) end(k)
    else if (k < ENDS + SPOTS) decimal(k - ENDS)
    else if (k < ENDS + 2 * SPOTS) digit(k - ENDS - SPOTS)
    else if (k < ENDS + 2 * SPOTS + LENGTHS) lengthy(k - ENDS - 2 * SPOTS)
    else width(k - ENDS - 2 * SPOTS - LENGTHS)

  var s: Step
  var at: int
  action from(k: int): bool = all { at' = k, s' = point(k % SIZE) }
  action init = from(0)
  action step = from(at + 1)
}
