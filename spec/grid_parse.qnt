// -*- mode: Bluespec; -*-
/// C11, systematically: in every radix, the two ends of the range and the values
/// just outside, with and without signs and leading zeros; and numerals of
/// every length up to 50 digits and around the longest that can fit;
/// and texts far longer than that, most of it zeros; every character up to 287,
/// and others, as a digit of every radix; texts of as many digits as are read
/// without testing for overflow, and one more; one digit or one foreign
/// character at every place.
module grid_parse {
  import base.* from "./base"
  import parse as f from "./parse"
  import numerals as m from "./numerals"

  pure val RADICES: List[int] = [2, 3, 4, 7, 8, 10, 11, 16, 31, 32, 36]
  pure def text(t: Ty, radix: int, v: int): List[int] =
    if (v < 0) [45].concat(f::spell(radix, -v, 0)) else f::spell(radix, v, 1)
  pure def look(t: Ty, radix: int, l: List[int]): Step = { ty: t, args: [radix].concat(l), obs: f::observe(t, radix, l) }

  pure val ENDS: int = 4480
  pure def end(k: int): Step = {
    val t = TYPES[k % 8]
    val radix = 2 + (k / 8) % 35
    val j = k / 280
    val v = [hi(t), hi(t) + 1, lo(t), lo(t) - 1, hi(t) * radix, hi(t) - radix, lo(t) * radix - 1, radix - 1][j % 8]
    val l = text(t, radix, v)
    look(t, radix,
      if (j < 8) l
      else if (v < 0) [45].concat(f::zeros(1 + j % 3)).concat(l.slice(1, length(l)))
      else (if (j % 2 == 0) [43] else []).concat(f::zeros(40 * (j % 4))).concat(l))
  }

  /// Numerals of n digits, all the largest or a one and zeros.
  pure val LENGTHS: int = 10208
  pure def lengthy(k: int): Step = {
    val t = TYPES[k % 8]
    val radix = RADICES[(k / 8) % 11]
    val j = k / 88
    val longest = length(f::numeralOf(radix, hi(t)))
    val n = if (j / 2 < 50) 1 + j / 2 else longest - 4 + j / 2 - 50
    val d = f::charFor(radix - 1, k % 3 == 0)
    val body = if (j % 2 == 0) range(0, n).foldl([], (l, i) => l.append(d)) else [49].concat(f::zeros(n - 1))
    look(t, radix, if (t.sg and k % 5 == 0) [45].concat(body) else body)
  }

  /// Numerals after very many zeros, some with a foreign character at the end.
  pure val LONG: int = 96
  pure def longZeros(k: int): Step = {
    val t = TYPES[k % 8]
    val radix = [10, 16, 36][(k / 8) % 3]
    val j = k / 24
    val v = [hi(t), lo(t), hi(t) + 1, 7][j]
    val l = text(t, radix, v)
    val z = f::zeros([300, 1025, 1100, 2049][(k / 3) % 4])
    look(t, radix, if (v < 0) [45].concat(z).concat(l.slice(1, length(l))) else z.concat(l).concat(if (j == 3) [33] else []))
  }

  /// Any character, alone and between two digits.
  pure val FAR: List[int] = [304, 305, 383, 560, 1632, 1776, 2406, 8722, 55295, 57344, 65296, 65313, 65345, 65533, 120782, 1114111]
  pure val CHARS: int = 21280
  pure def character(k: int): Step = {
    val t = TYPES[(k + k / 35) % 8]
    val radix = 2 + k % 35
    val i = (k / 35) % 304
    val c = if (i < 288) i else FAR[i - 288]
    look(t, radix, if (k < 10640) [c] else [49, c, 48])
  }

  /// Around the longest text that is read without tests: the largest and the
  /// smallest digits, signed, with a foreign character.
  pure val THRESHOLDS: int = 5040
  pure def threshold(k: int): Step = {
    val t = TYPES[k % 8]
    val radix = 2 + (k / 8) % 35
    val j = k / 280
    val n = m::safe(t, radix) - 1 + j % 3
    val top = f::charFor(radix - 1, k % 2 == 0)
    val full = range(0, n).foldl([], (l, i) => l.append(top))
    val unit = [49].concat(f::zeros(n - 1))
    look(t, radix, [full, unit, [43].concat(full), (if (t.sg) [45] else []).concat(full), full.replaceAt(n - 1, 33), [47].concat(full)][j / 3])
  }

  /// One digit and zeros.
  pure def single(k: int, radix: int): Step = {
    val z = spot(k)
    val d = [1, radix - 1, radix / 2, radix - 2][z.i % 4]
    val l = [f::charFor(d, z.i % 3 == 0)].concat(f::zeros(z.i / 4))
    look(z.t, radix, if (z.i % 7 == 0) [43].concat(l) else if (z.t.sg and z.i % 2 == 1) [45].concat(l) else l)
  }
  /// A foreign character among ones.
  pure def spoiled(k: int): Step = {
    val z = spot(k)
    val n = z.t.bits / 6 - 1
    val radix = [10, 16, 36, 2, 11, 35][z.i % 6]
    val ones = range(0, n).foldl([], (l, i) => l.append(49))
    look(z.t, radix, ones.replaceAt((z.i / 6) % n, f::FOREIGN[(z.i + z.i / 6) % 24]))
  }

  pure val SIZE: int = 54160
  pure def point(k: int): Step =
    if (k < ENDS) end(k)
    else if (k < ENDS + LENGTHS) lengthy(k - ENDS)
    else if (k < ENDS + LENGTHS + LONG) longZeros(k - ENDS - LENGTHS)
    else {
      val r = k - ENDS - LENGTHS - LONG
      if (r < CHARS) character(r)
      else if (r < CHARS + THRESHOLDS) threshold(r - CHARS)
      else {
        val i = (r - CHARS - THRESHOLDS) % SPOTS
        val j = (r - CHARS - THRESHOLDS) / SPOTS
        if (j == 0) single(i, 10) else if (j == 1) single(i, 16) else spoiled(i)
      }
    }

  var s: Step
  var at: int
  action from(k: int): bool = all { at' = k, s' = point(k % SIZE) }
  action init = from(0)
  action step = from(at + 1)
}
