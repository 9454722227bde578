// -*- mode: Bluespec; -*-
/// C15, systematically: short programs on chosen operands. Each starts from
/// registers holding a pair of operands and computes with what it computed:
/// quotients are multiplied back, sums taken apart again, products divided,
/// values sent through shifts, encodings and texts and compared. The same
/// register is often source and destination, or both sources.
module grid_program {
  import base.* from "./base"
  import program as g from "./program"
  import pairs as p from "./pairs"

  /// Instructions: name, destination, sources. Registers 0 and 1 hold the pair.
  type Line = (str, int, int, int)
  pure val forQuotients: List[List[Line]] = [
    [("/", 2, 0, 1), ("%", 3, 0, 1), ("*=", 2, 0, 1), ("+=", 2, 0, 3), ("-=", 2, 0, 0), ("cmp", 0, 0, 2), ("/=", 0, 0, 1)],
    [("div_rem", 2, 0, 1), ("wrapping_mul", 2, 2, 1), ("wrapping_add", 2, 2, 3), ("abs_diff", 3, 2, 0), ("%=", 0, 0, 1),
     ("/=&", 1, 0, 1), ("via decimal", 0, 0, 0)],
    [("checked_div_rem", 2, 0, 1), ("checked_mul", 2, 2, 1), ("checked_add", 2, 2, 3), ("overflowing_rem", 3, 0, 1),
     ("next_multiple_of", 2, 3, 1), ("overflowing_div", 0, 0, 1), ("saturating_div", 1, 0, 1)],
    [("wrapping_div_euclid", 2, 0, 1), ("wrapping_rem_euclid", 3, 0, 1), ("wrapping_mul", 2, 2, 1), ("wrapping_sub", 2, 0, 2),
     ("cmp", 2, 2, 3), ("checked_next_multiple_of", 2, 0, 1), ("%=&", 0, 0, 1)],
    [("wrapping_div_rem", 2, 0, 1), ("strict_div", 0, 0, 1), ("strict_rem", 1, 0, 1), ("checked_div", 3, 2, 3),
     ("checked_rem_euclid", 2, 2, 1), ("/=", 1, 0, 1), ("%=", 3, 0, 3)],
    [("overflowing_div_euclid", 2, 0, 1), ("checked_div_euclid", 3, 0, 1), ("^=", 2, 0, 3), ("checked_rem", 3, 0, 1),
     ("-=&", 0, 0, 3), ("/=&", 0, 0, 1), ("*=&", 0, 0, 1)],
    [("div_floor", 2, 0, 1), ("div_ceil", 3, 0, 1), ("checked_sub", 3, 3, 2), ("overflowing_div_rem", 2, 0, 1), ("eq", 0, 3, 1),
     ("div_euclid", 3, 0, 1), ("rem_euclid", 0, 0, 1)],
    [("overflowing_rem_euclid", 2, 0, 1), ("strict_div_euclid", 3, 0, 1), ("wrapping_mul", 3, 3, 1), ("wrapping_add", 3, 3, 2),
     ("eq", 0, 3, 0), ("ilog", 2, 0, 1), ("strict_rem_euclid", 1, 0, 1)]
  ]
  pure val forProducts: List[List[Line]] = [
    [("*", 2, 0, 1), ("overflowing_mul", 3, 0, 1), ("^=", 2, 0, 3), ("/=", 3, 0, 0), ("-=", 3, 0, 1), ("*=", 0, 0, 0),
     ("saturating_mul", 2, 1, 1)],
    [("widening_mul", 2, 0, 1), ("carrying_mul", 2, 0, 1), ("wrapping_mul", 0, 0, 0), ("via hex", 2, 2, 0), ("*=&", 1, 0, 1),
     ("checked_mul", 3, 2, 3), ("high", 0, 2, 0)],
    [("checked_mul", 2, 0, 1), ("wrapping_mul", 3, 1, 0), ("wrapping_neg", 0, 0, 0), ("saturating_mul", 2, 0, 1),
     ("strict_mul", 3, 0, 1), ("*=&", 1, 0, 0), ("cmp", 0, 2, 3)],
    [("overflowing_mul", 2, 1, 0), ("wrapping_mul", 3, 0, 1), ("cmp", 0, 2, 3), ("%=", 3, 0, 0), ("*=", 1, 0, 1),
     ("saturating_mul", 0, 0, 0), ("via le bytes", 2, 1, 0)]
  ]
  pure val forSums: List[List[Line]] = [
    [("+", 2, 0, 1), ("-", 3, 0, 1), ("overflowing_add", 2, 0, 1), ("-=", 2, 0, 1), ("^=", 2, 0, 0), ("+=", 0, 0, 0), ("-=", 1, 0, 1)],
    [("carrying_add", 2, 0, 1), ("carrying_add", 3, 2, 1), ("borrowing_sub", 2, 3, 1), ("borrowing_sub", 3, 2, 1),
     ("midpoint", 2, 0, 1), ("abs_diff", 3, 0, 1), ("saturating_add", 0, 0, 1)],
    [("checked_sub", 2, 0, 1), ("saturating_sub", 3, 1, 0), ("overflowing_sub", 2, 1, 0), ("wrapping_sub", 2, 2, 3),
     ("neg", 0, 0, 0), ("strict_add", 3, 0, 1), ("+=&", 1, 0, 1)],
    [("borrowing_sub", 2, 0, 1), ("borrowing_sub", 2, 2, 0), ("carrying_add", 2, 2, 1), ("strict_sub", 3, 0, 1),
     ("wrapping_add", 0, 0, 1), ("checked_add", 0, 0, 0), ("min", 1, 0, 1)],
    [("overflowing_add_other", 2, 0, 0), ("checked_add_other", 3, 0, 2), ("saturating_add_other", 2, 1, 0),
     ("strict_neg", 3, 0, 0), ("as other", 2, 0, 0), ("strict_add_other", 3, 1, 2), ("is_even", 0, 2, 0)]
  ]
  /// Programs with a distance, an exponent, a radix or a scalar.
  pure val others: List[List[Line]] = [
    [("rotate_left", 2, 0, 0), ("rotate_right", 2, 2, 0), ("cmp", 2, 2, 0), ("wrapping_shl", 3, 0, 0), ("wrapping_shr", 3, 3, 0),
     ("<<= u32", 0, 0, 0), (">>= u32", 0, 0, 0)],
    [("checked_shl", 2, 0, 0), ("checked_shr", 2, 2, 0), ("^=&", 2, 0, 0), ("count_ones", 3, 2, 0), ("leading_zeros", 2, 2, 0),
     ("<<= i128", 0, 0, 0), (">>= u64", 1, 0, 0)],
    [("swap_bytes", 2, 0, 0), ("via be bytes", 2, 2, 0), ("swap_bytes", 2, 2, 0), ("reverse_bits", 3, 1, 0), ("trailing_zeros", 3, 3, 0),
     ("leading_ones", 0, 0, 0), ("trailing_ones", 1, 1, 0)],
    [("as other", 2, 0, 0), ("try other", 3, 1, 0), ("via i128", 2, 0, 0), ("via u64", 3, 1, 0), ("<<= reg", 0, 0, 0), (">>= reg", 1, 0, 1),
     ("cast other", 0, 1, 0)],
    [("&", 2, 0, 1), ("|", 3, 0, 1), ("^", 0, 0, 1), ("+=", 0, 0, 2), ("-=", 0, 0, 3), ("!", 1, 1, 0), ("&=&", 1, 0, 1)],
    [("via le limbs", 2, 0, 0), ("via be limbs", 2, 2, 0), ("via le u32", 2, 2, 0), ("via be u64", 2, 2, 0), ("via le wide", 2, 2, 0),
     ("cmp", 0, 2, 0), ("via ne bytes", 1, 1, 0)],
    [("unbounded_shl", 2, 0, 0), ("unbounded_shr", 2, 2, 0), ("strict_shl", 3, 1, 0), ("strict_shr", 3, 3, 0), ("via binary", 2, 2, 0),
     ("via HEX", 3, 3, 0), ("count_zeros", 0, 2, 0)],
    [("via be u32", 2, 0, 0), ("via le u64", 2, 2, 0), ("via be wide", 2, 2, 0), ("eq", 0, 2, 0), ("via i8", 3, 1, 0), ("via i64", 3, 0, 0),
     ("via u32", 1, 1, 0)],
    [("min", 2, 0, 1), ("max", 3, 0, 1), ("sort", 0, 0, 0), ("clamp", 2, 0, 3), ("swap", 0, 0, 3), ("ilog2", 2, 0, 0), ("cmp", 0, 3, 1)]
  ]
  pure val withNumber: List[List[Line]] = [
    [("add_ulimb", 2, 0, 0), ("sub_ulimb", 2, 2, 0), ("wrapping_mul_ulimb", 3, 0, 0), ("div_ulimb", 3, 3, 0), ("rem_ulimb", 0, 0, 0),
     ("mul_ulimb", 1, 1, 0), ("checked_sub_ulimb", 1, 1, 0)],
    [("add_uwide", 2, 0, 0), ("wrapping_sub_uwide", 2, 2, 0), ("wrapping_mul_uwide", 3, 0, 0), ("div_uwide", 3, 3, 0),
     ("rem_uwide", 0, 0, 0), ("mul_uwide", 1, 1, 0), ("checked_add_uwide", 1, 1, 0)]
  ]
  pure def numbers(i: int): int = [1, 2^32 - 1, 2^31, 10, 2, 2^16, 3, 2^32 - 2][i % 8]
  pure def wideNumbers(i: int): int = [2^64 - 1, 2^63, 2^32, 2^32 + 1, 2^64 - 2^32, 7, 10^19, 1][i % 8]

  pure def corners(k: int): p::Pair = {
    val t = TYPES[k % 8]
    { t: t, a: corner(t, (k / 8) % CORNERS), b: corner(t, k / (8 * CORNERS)) }
  }

  /// The program of number q: operands, lines and a number. The type goes with q
  /// modulo 8, the lines with q / 8, the overflow checks with q / 224, so that
  /// each meets each.
  type Plan = { o: p::Pair, l: List[Line], n: int }
  pure def plan(q: int): Plan =
    if (q < 9420) { o: p::forQuotient(q * 7919), l: forQuotients[(q / 8) % 8], n: 0 }
    else if (q < 15153) { o: p::forProduct((q - 9420) * 7919), l: forProducts[(q / 8) % 4], n: 0 }
    else if (q < 19077) { o: p::forSum((q - 15153) * 7919), l: forSums[(q / 8) % 5], n: 0 }
    else {
      // the corner pairs, with each kind of program in turn
      val z = (q - 19077) * 7919 % 18432
      val o = corners(z)
      val r = (q / 8) % 28
      if (r < 8) { o: o, l: forQuotients[r], n: 0 }
      else if (r < 12) { o: o, l: forProducts[r - 8], n: 0 }
      else if (r < 17) { o: o, l: forSums[r - 12], n: 0 }
      else if (r < 26) { o: o, l: others[r - 17], n: (z * 31 + q) % (o.t.bits + 2) }
      else { o: o, l: withNumber[r - 26], n: if (r == 26) numbers(q / 224) else wideNumbers(q / 224) }
    }

  pure def boot(q: int): g::Machine = {
    val o = plan(q).o
    val t = o.t
    val mine = [o.a, o.b, 0, 0]
    val rest = [wrap(otherSign(t), o.b), wrap(otherSign(t), q % (t.bits + 3)), wrap(otherSign(t), o.a), 1]
    { bits: t.bits, checks: (q / 224) % 2 == 0, u: if (t.sg) rest else mine, s: if (t.sg) mine else rest, c: q % 3 == 0 }
  }
  pure def line(q: int, i: int): g::Ins = {
    val z = plan(q)
    val w = z.l[i]
    // products of twice the width, and halves, are of unsigned registers
    val sg = z.o.t.sg and not(w._1.in(Set("widening_mul", "carrying_mul", "high")))
    { op: w._1, sg: sg, d: w._2, x: w._3, y: w._4, n: z.n }
  }

  /// Eight states to a program: the registers at the start, seven instructions.
  pure val SIZE: int = 300072
  var mach: g::Machine
  var ins: g::Ins
  var ans: Out
  var at: int
  action begin(k: int): bool = all {
    at' = k, mach' = boot(k / 8), ins' = { op: "boot", sg: false, d: 0, x: 0, y: 0, n: 0 }, ans' = V([])
  }
  action from(k: int): bool = begin(k)
  action init = begin(0)
  action step = {
    val k = at + 1
    if (k % 8 == 0) begin(k)
    else {
      val i = line(k / 8, k % 8 - 1)
      val e = g::exec(mach, i)
      all { at' = k, mach' = g::apply(mach, e), ins' = i, ans' = e.out }
    }
  }
}
