// -*- mode: Bluespec; -*-
/// C19, systematically: the routines on chosen operands. Pairs that take each
/// case of long division, multiplication, carries and borrows are handed to
/// the routines that divide, multiply, add and subtract, and corner values to
/// all of them. Each is followed for nine lines, or to its end.
module grid_routines {
  import base.* from "./base"
  import program as m from "./program"
  import routines as t from "./routines"
  import pairs as p from "./pairs"

  pure val LINES: int = 9
  /// euclid, bezout, newton, fraction, spelled twice
  pure val DIVIDING: List[int] = [0, 16, 0, 1, 6, 0, 16, 4, 0, 5]
  /// long product, squaring, inverse, factorial, mixing
  pure val MULTIPLYING: List[int] = [9, 11, 9, 14, 9, 3, 9, 18]
  /// long sum and difference, fibonacci, binary gcd, network
  pure val ADDING: List[int] = [7, 8, 7, 8, 2, 7, 8, 10, 7, 8, 17]

  pure def nat(bits: int, v: int): int = umod(v, 2^bits)
  pure def int_(bits: int, v: int): int = wrap({ bits: bits, sg: true }, v)

  /// The registers routine r starts from, given three values.
  pure def registers(r: int, bits: int, x: int, y: int, z: int, q: int): (List[int], List[int]) = {
    val a = nat(bits, x)
    val b = nat(bits, y)
    val c = nat(bits, z)
    val i = int_(bits, x)
    val j = int_(bits, y)
    val none = [0, 0, 0, 0]
    if (r == 0) ([a, max(1, b), 0, 0], none)
    else if (r == 1) (none, [tdiv(i, 4), if (tdiv(j, 4) == 0) 1 else tdiv(j, 4), 0, 1])
    else if (r == 2) ([a, b, 0, 0], none)
    else if (r == 3) ([max(1, a), 0, 0, 0], [[2, 2^32 - 1, 2^31, 2^16, 10][q % 5], 0, 0, 0])
    else if (r <= 5) ([a, 0, 0, 1], none)
    else if (r == 6) { val n = max(1, a) ([n, 2^((bitlen(n) + 1) / 2), 0, 0], none) }
    else if (r == 7) ([a, c, b, 2^bits - 1 - c + (if (c > 0) q % 2 else 0)], none)
    else if (r == 8) ([a, c, b, c - (if (c > 0) q % 2 else 0)], none)
    else if (r == 9) ([a, c, b, 0], none)
    else if (r == 10) ([max(1, a), 2 * (b / 2) + 1, 0, 0], none)
    else if (r == 11) ([1, a, 0, 0], [q % 19, 0, 1, 0])
    else if (r == 12) ([max(2, a), 0, 0, 0], none)
    else if (r == 13) ([max(1, a), 0, 0, 0], none)
    else if (r == 14) ([2 * (a / 2) + 1, 1, 2, 0], none)
    else if (r == 15) ([a, 0, 0, 0], [1, 0, 0, 0])
    else if (r == 16) (none, [i, max(1, abs(j) % 2^(bits - 1)), 0, 0])
    else if (r == 17) (none, [i, j, int_(bits, z), [i, j, int_(bits, z + 1)][q % 3]])
    else ([a, 0, 2 * (b / 2) + 1, 0], [2, 0, 0, 0])
  }

  /// A number below n that goes with q without any pattern, so that routines,
  /// overflow checks and kinds of operands meet in all combinations.
  pure def mixed(q: int, n: int): int = ((q * 2654435761) % 2^32) / 2^12 % n

  type Plan = { r: int, bits: int, u: List[int], s: List[int] }
  pure def plan(q: int): Plan = {
    val k = q * 7919
    val o = if (q < 5652) p::forQuotient(k) else if (q < 9092) p::forProduct(k) else if (q < 11446) p::forSum(k)
            else { t: TYPES[k % 8], a: corner(TYPES[k % 8], (k / 8) % CORNERS), b: corner(TYPES[k % 8], (k / (8 * CORNERS)) % CORNERS) }
    val r = if (q < 5652) DIVIDING[mixed(q, 10)] else if (q < 9092) MULTIPLYING[mixed(q, 8)] else if (q < 11446) ADDING[mixed(q, 11)] else q % t::COUNT
    val z = corner(o.t, q % CORNERS)
    val g = registers(r, o.t.bits, o.a, o.b, z, q / 8)
    { r: r, bits: o.t.bits, u: g._1, s: g._2 }
  }

  /// The state of a routine at the start and after each line.
  pure val SIZE: int = 177660
  var mach: m::Machine
  var ins: m::Ins
  var ans: Out
  var at: int
  var pc: int
  var ev: { routine: str, finished: bool }
  action begin(k: int): bool = {
    val z = plan(k / (LINES + 1))
    all {
      at' = k, mach' = { bits: z.bits, checks: mixed(k / (LINES + 1) + 17, 2) == 0, u: z.u, s: z.s, c: false },
      ins' = { op: "boot", sg: false, d: 0, x: 0, y: 0, n: 0 }, ans' = V([]), pc' = 0,
      ev' = { routine: t::NAMES[z.r], finished: false }
    }
  }
  action from(k: int): bool = begin(k)
  action init = begin(0)
  action step = {
    val k = at + 1
    if (k % (LINES + 1) == 0) begin(k)
    else {
      val z = plan(k / (LINES + 1))
      val l = if (pc == t::END) { i: t::U("mov", 3, 3, 0), to: t::END } else t::fetch(z.r, mach, pc)
      val e = m::exec(mach, l.i)
      all {
        at' = k, mach' = m::apply(mach, e), ins' = l.i, ans' = e.out, pc' = l.to,
        ev' = { routine: t::NAMES[z.r], finished: l.to == t::END and pc != t::END }
      }
    }
  }

  val inv = {
    val z = plan(at / (LINES + 1))
    and {
      ans != Panic,
      ev.finished implies t::computed(z.r, z.u, z.s, mach)
    }
  }
}
