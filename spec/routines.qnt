// -*- mode: Bluespec; -*-
/// C19 - textbook routines.
///
/// Nineteen routines written for the register machine of `program`. The machine
/// starts a routine on operands of its choice, performs it instruction by
/// instruction - loops and branches depend on what the registers hold - and
/// when it is done starts another. The laws say what each routine computes, so
/// that the machine's description itself is tested by what programs mean.
module routines {
  import base.* from "./base"
  import program as m from "./program"
  import powlog as p from "./powlog"
  import divrem as d from "./divrem"

  type Ins = { op: str, sg: bool, d: int, x: int, y: int, n: int }
  type Machine = { bits: int, checks: bool, u: List[int], s: List[int], c: bool }

  /// One instruction and where to continue; past the end means done.
  type Line = { i: Ins, to: int }
  pure val END: int = 1000

  pure def U(op: str, r: int, x: int, y: int): Ins = { op: op, sg: false, d: r, x: x, y: y, n: 0 }
  pure def S(op: str, r: int, x: int, y: int): Ins = { op: op, sg: true, d: r, x: x, y: y, n: 0 }
  pure def UN(op: str, r: int, x: int, n: int): Ins = { op: op, sg: false, d: r, x: x, y: 0, n: n }
  pure def SN(op: str, r: int, x: int, n: int): Ins = { op: op, sg: true, d: r, x: x, y: 0, n: n }
  /// A straight line of code; the last line continues at `after`.
  pure def at(l: List[Ins], pc: int, after: int): Line =
    { i: l[pc], to: if (pc + 1 < length(l)) pc + 1 else after }

  // ------------------------------------------------------------- routines
  // k is the machine before the line is performed.

  /// Greatest common divisor of u0 and u1 by division.
  pure def euclid(k: Machine, pc: int): Line =
    at([U("div_rem", 2, 0, 1), U("mov", 0, 1, 0), U("mov", 1, 3, 0)], pc,
       if (k.u[3] == 0) END else 0)

  /// The same with signed numbers, and the factor of s1 in the divisor found:
  /// s2 and s3 start as 0 and 1, the unsigned registers keep what has no room.
  pure def bezout(k: Machine, pc: int): Line =
    at([S("as other", 0, 2, 0), S("/", 2, 0, 1), S("%", 0, 0, 1), S("swap", 0, 0, 1),
        S("*=", 2, 0, 3), S("as other", 2, 3, 0), U("as other", 3, 0, 0), S("-=", 3, 0, 2), U("as other", 2, 2, 0)],
       pc, if (k.s[1] == 0) END else 0)

  /// Fibonacci numbers in u0, u1 until one does not fit.
  pure def fibonacci(k: Machine, pc: int): Line = {
    val full = k.u[0] + k.u[1] >= 2^k.bits
    if (pc == 0) { i: U("checked_add", 2, 0, 1), to: if (full) END else 1 }
    else at([U("nop", 0, 0, 0), U("mov", 0, 1, 0), U("mov", 1, 2, 0)], pc, 0)
  }

  /// u0 times 2, 3, 4, ... while it fits; s0 counts.
  pure def factorial(k: Machine, pc: int): Line = {
    val n = k.s[0] % 2^32
    if (pc == 0) { i: UN("overflowing_mul_ulimb", 1, 0, n), to: if (k.u[0] * n >= 2^k.bits) END else 1 }
    else at([U("nop", 0, 0, 0), U("mov", 0, 1, 0), SN("add_ulimb", 0, 0, 1)], pc, 0)
  }

  /// The digits of u0 in a base below 2^32, and the number again from its digits:
  /// u1 the digit, u2 the sum, u3 the power.
  pure def spelled(k: Machine, pc: int, base: int): Line =
    if (pc <= 3) at([UN("rem_ulimb", 1, 0, base), UN("div_ulimb", 0, 0, base), U("wrapping_mul", 1, 1, 3), U("wrapping_add", 2, 2, 1)],
                    pc, if (k.u[0] == 0) END else 4)
    else { i: UN("wrapping_mul_ulimb", 3, 3, base), to: 0 }

  /// Square root of u0 > 0 by Newton's method from above in u1.
  pure def newton(k: Machine, pc: int): Line =
    if (pc <= 2) at([U("/", 2, 0, 1), U("midpoint", 2, 2, 1), U("cmp", 0, 2, 1)], pc, if (k.u[2] >= k.u[1]) END else 3)
    else { i: U("mov", 1, 2, 0), to: 0 }

  /// Sum and difference of the two-word numbers u1:u0 and u3:u2. The flag is
  /// cleared by adding zeros.
  pure def longSum(k: Machine, pc: int): Line =
    at([S("carrying_add", 3, 3, 3), U("carrying_add", 0, 0, 2), U("carrying_add", 1, 1, 3)], pc, END)
  pure def longDifference(k: Machine, pc: int): Line =
    at([S("carrying_add", 3, 3, 3), U("borrowing_sub", 0, 0, 2), U("borrowing_sub", 1, 1, 3)], pc, END)

  /// Two-word number u1:u0 times u2, three words u1:u0:u3; u3 starts as 0.
  pure def longProduct(k: Machine, pc: int): Line =
    at([U("carrying_mul", 3, 0, 2), U("carrying_mul", 0, 1, 2)], pc, END)

  /// Odd part and greatest common divisor of u0 and odd u1 by subtraction and shifts.
  pure def binaryGcd(k: Machine, pc: int): Line =
    if (pc <= 2) at([U("trailing_zeros", 2, 0, 0), U("as other", 2, 2, 0), U(">>= reg", 0, 0, 2)], pc, 3)
    else if (pc == 3) { i: U("cmp", 0, 0, 1), to: if (k.u[0] < k.u[1]) 4 else 5 }
    else if (pc == 4) { i: U("swap", 0, 0, 1), to: 5 }
    else { i: U("-=", 0, 0, 1), to: if (k.u[0] == k.u[1]) END else 0 }

  /// u1 to the power s0 by squaring; u0 the result, starts as 1. s1 is s0's lowest bit.
  pure def squaring(k: Machine, pc: int): Line =
    if (pc <= 2) at([S("mov", 1, 0, 0), S("&=", 1, 0, 2), S("cmp", 0, 1, 3)], pc, 3)
    else if (pc == 3) { i: S("cmp", 0, 1, 2), to: if (k.s[1] == 1) 4 else 5 }
    else if (pc == 4) { i: U("wrapping_mul", 0, 0, 1), to: 5 }
    else if (pc == 5) { i: U("wrapping_mul", 1, 1, 1), to: 6 }
    else { i: SN(">> u32", 0, 0, 1), to: if (k.s[0] < 2) END else 0 }

  /// From u0: halved if even, else tripled and one added, while that fits.
  pure def collatz(k: Machine, pc: int): Line =
    if (pc == 0) { i: U("trailing_zeros", 1, 0, 0), to: if (k.u[0] % 2 == 0) 1 else if (3 * k.u[0] + 1 >= 2^k.bits) END else 2 }
    else if (pc == 1) { i: UN(">>= u32", 0, 0, 1), to: if (k.u[0] == 2) END else 0 }
    else if (pc == 2) { i: UN("mul_ulimb", 0, 0, 3), to: 3 }
    else { i: UN("add_ulimb", 0, 0, 1), to: 0 }

  /// Counts the ones of u0 into s0 by clearing the lowest.
  pure def kernighan(k: Machine, pc: int): Line =
    at([UN("sub_ulimb", 1, 0, 1), U("&=", 0, 0, 1), SN("add_ulimb", 0, 0, 1)], pc, if (k.u[0] == 0) END else 0)

  /// The inverse u1 of odd u0 modulo 2^bits, starting right in one bit; u2 is 2.
  pure def inverse(k: Machine, pc: int): Line =
    at([U("wrapping_mul", 3, 0, 1), U("wrapping_sub", 3, 2, 3), U("wrapping_mul", 1, 1, 3)], pc,
       if ((k.u[0] * k.u[1] * k.u[3]) % 2^k.bits == 1) END else 0)

  /// Gray code of u0 and back; s0 is the distance, and starts as 1.
  pure def gray(k: Machine, pc: int): Line =
    if (pc <= 1) at([UN(">> u32", 1, 0, 1), U("^=", 0, 0, 1)], pc, 2)
    else at([U("nop", 0, 0, 0), U("nop", 0, 0, 0), U("mov", 1, 0, 0), U(">>= reg", 1, 0, 0), U("^=", 0, 0, 1), SN("<<= u32", 0, 0, 1)],
            pc, if (k.s[0] * 2 >= k.bits) END else 2)

  /// Continued fraction of s0/s1, s1 > 0, by floored division; s2 the quotient.
  pure def fraction(k: Machine, pc: int): Line =
    at([S("wrapping_div_euclid", 2, 0, 1), S("wrapping_rem_euclid", 0, 0, 1), S("swap", 0, 0, 1)], pc,
       if (k.s[0] == 0) END else 0)

  /// Sorts the signed registers by comparing neighbours.
  pure def network(k: Machine, pc: int): Line = {
    val pair = [(0, 1), (2, 3), (0, 2), (1, 3), (1, 2)][pc]
    { i: S(if (k.s[pair._1] > k.s[pair._2]) "swap" else "cmp", 0, pair._1, pair._2), to: if (pc == 4) END else pc + 1 }
  }

  /// Mixes u0: shifts and exclusive or, multiplication and rotation; s0 rounds left.
  pure def mixing(k: Machine, pc: int): Line =
    at([UN("<< u32", 1, 0, 13), U("^=", 0, 0, 1), UN(">> u32", 1, 0, 7), U("^=", 0, 0, 1), UN("rotate_left", 1, 0, 97),
        U("wrapping_add", 0, 0, 1), U("wrapping_mul", 0, 0, 2), U("swap_bytes", 1, 0, 0), U("^=", 0, 0, 1),
        SN("sub_ulimb", 0, 0, 1)], pc, if (k.s[0] <= 1) END else 0)

  pure def fetch(r: int, k: Machine, pc: int): Line =
    if (r == 0) euclid(k, pc)
    else if (r == 1) bezout(k, pc)
    else if (r == 2) fibonacci(k, pc)
    else if (r == 3) factorial(k, pc)
    else if (r == 4) spelled(k, pc, 1000000000)
    else if (r == 5) spelled(k, pc, 4294967295)
    else if (r == 6) newton(k, pc)
    else if (r == 7) longSum(k, pc)
    else if (r == 8) longDifference(k, pc)
    else if (r == 9) longProduct(k, pc)
    else if (r == 10) binaryGcd(k, pc)
    else if (r == 11) squaring(k, pc)
    else if (r == 12) collatz(k, pc)
    else if (r == 13) kernighan(k, pc)
    else if (r == 14) inverse(k, pc)
    else if (r == 15) gray(k, pc)
    else if (r == 16) fraction(k, pc)
    else if (r == 17) network(k, pc)
    else mixing(k, pc)
  pure val NAMES: List[str] = ["euclid", "bezout", "fibonacci", "factorial", "digits 10^9", "digits 2^32-1", "newton", "long sum",
    "long difference", "long product", "binary gcd", "squaring", "collatz", "kernighan", "inverse", "gray", "fraction", "network",
    "mixing"]
  pure val COUNT: int = 19
  /// Lines after which a routine is given up: most end long before.
  pure def patience(r: int): int = if (r == 2 or r == 3 or r == 10 or r == 12 or r == 13) 150 else 900

  // ------------------------------------------------------------- operands

  /// Registers to load before routine r: (signed?, register, value).
  pure def operands(r: int, bits: int, e: int): List[(bool, int, int)] = {
    val u = { bits: bits, sg: false }
    val s = { bits: bits, sg: true }
    val a = genVal(u, e)
    val b = genVal(u, e / 2^300)
    val x = genVal(s, e)
    val y = genVal(s, e / 2^300)
    val z = (e / 2^600) % 2^30
    if (r == 0) [(false, 0, a), (false, 1, max(1, b))]
    // small enough for the factors to fit
    else if (r == 1) [(true, 0, tdiv(x, 4)), (true, 1, if (tdiv(y, 4) == 0) 1 else tdiv(y, 4)), (true, 2, 0), (true, 3, 1)]
    else if (r == 2) [(false, 0, a / 2^(z % bits)), (false, 1, b / 2^((z / 2048) % bits))]
    else if (r == 3) [(false, 0, max(1, a / 2^(z % bits))), (true, 0, if (z % 3 == 0) 2 else 1 + z)]
    else if (r <= 5) [(false, 0, a), (false, 1, 0), (false, 2, 0), (false, 3, 1)]
    else if (r == 6) {
      val n = max(1, a)
      [(false, 0, n), (false, 1, 2^((bitlen(n) + 1) / 2))]
    }
    else if (r <= 8) [(false, 0, a), (false, 1, b), (false, 2, if (z % 2 == 0) 2^bits - 1 - a else genVal(u, e / 2^600)),
                      (false, 3, if (z % 4 < 2) 2^bits - 1 - b else genVal(u, e / 2^900)), (true, 3, 0)]
    else if (r == 9) [(false, 0, a), (false, 1, b), (false, 2, genVal(u, e / 2^600)), (false, 3, 0)]
    else if (r == 10) [(false, 0, max(1, a)), (false, 1, 2 * (b / 2) + 1)]
    else if (r == 11) [(false, 0, 1), (false, 1, a), (true, 0, z % 2000), (true, 2, 1)]
    else if (r == 12) [(false, 0, max(2, a))]
    else if (r == 13) [(false, 0, if (a == 0) 2^(z % bits) else a), (true, 0, 0)]
    else if (r == 14) [(false, 0, 2 * (a / 2) + 1), (false, 1, 1), (false, 2, 2)]
    else if (r == 15) [(false, 0, a), (true, 0, 1)]
    else if (r == 16) [(true, 0, x), (true, 1, max(1, abs(y) % 2^(bits - 1)))]
    else if (r == 17) [(true, 0, x), (true, 1, y), (true, 2, if (z % 3 == 0) x else genVal(s, e / 2^600)), (true, 3, if (z % 2 == 0) y - (if (y > lo(s)) 1 else 0) else genVal(s, e / 2^900))]
    else [(false, 0, a), (false, 2, 2 * b % 2^bits + 1), (true, 0, 1 + z % 6)]
  }

  var mach: Machine
  var ins: Ins
  var ans: Out
  /// The routine, its next line, the lines performed, the registers it started
  /// from, and what is still to be loaded.
  var job: { r: int, pc: int, n: int, u: List[int], s: List[int], todo: List[(bool, int, int)] }
  /// The routine at work, and whether this step finished it.
  var ev: { routine: str, finished: bool }

  action init = {
    nondet e = 0.to(ENT).oneOf()
    all {
      mach' = m::boot(e), ins' = { op: "boot", sg: false, d: 0, x: 0, y: 0, n: 0 }, ans' = V([]),
      job' = { r: 0, pc: END, n: 0, u: [], s: [], todo: [] }, ev' = { routine: "none", finished: false }
    }
  }

  action perform(i: Ins): bool = {
    val r = m::exec(mach, i)
    all { mach' = m::apply(mach, r), ins' = i, ans' = r.out }
  }

  /// Chooses a routine and loads its first operand.
  action choose = {
    nondet e = 0.to(ENT).oneOf()
    val r = e % COUNT
    val l = operands(r, mach.bits, e / 64)
    all {
      perform({ op: "load", sg: l[0]._1, d: l[0]._2, x: 0, y: 0, n: l[0]._3 }),
      job' = { r: r, pc: 0, n: 0, u: [], s: [], todo: l.slice(1, length(l)) }, ev' = { routine: NAMES[r], finished: false }
    }
  }
  action load = {
    val q = job.todo[0]
    all {
      perform({ op: "load", sg: q._1, d: q._2, x: 0, y: 0, n: q._3 }),
      job' = { ...job, todo: job.todo.slice(1, length(job.todo)) }, ev' = ev
    }
  }
  action line = {
    val l = fetch(job.r, mach, job.pc)
    val begun = if (length(job.u) == 0) { ...job, u: mach.u, s: mach.s } else job
    val tired = job.n >= patience(job.r) and l.to != END
    all {
      perform(l.i),
      job' = { ...begun, pc: if (tired) END else l.to, n: job.n + 1 },
      ev' = { routine: NAMES[job.r], finished: l.to == END }
    }
  }
  action step =
    if (job.pc == END) choose else if (length(job.todo) > 0) load else line

  // ------------------------------------------------------------------ laws

  pure def divides(x: int, y: int): bool = x != 0 and umod(y, abs(x)) == 0

  /// What routine r has computed from the registers u, s.
  pure def computed(r: int, u: List[int], s: List[int], k: Machine): bool = {
    val w = 2^k.bits
    if (r == 0) divides(k.u[0], u[0]) and divides(k.u[0], u[1])
    else if (r == 1) divides(k.s[0], s[0]) and divides(k.s[0], s[1]) and umod(k.s[2] * s[1] - k.s[0], abs(s[0]) + b2i(s[0] == 0)) == 0
    else if (r == 2) k.u[0] + k.u[1] >= w
    else if (r == 3) k.u[0] * k.s[0] >= w and divides(u[0], k.u[0])
    else if (r <= 5) k.u[2] == u[0] and k.u[0] == 0
    else if (r == 6) k.u[1]^2 <= u[0] and u[0] < (k.u[1] + 1)^2
    else if (r == 7) k.u[0] + w * k.u[1] + w * w * b2i(k.c) == u[0] + u[2] + w * (u[1] + u[3])
    else if (r == 8) k.u[0] + w * k.u[1] - w * w * b2i(k.c) == u[0] - u[2] + w * (u[1] - u[3])
    else if (r == 9) k.u[3] + w * k.u[0] + w * w * k.u[1] == (u[0] + w * u[1]) * u[2]
    else if (r == 10) divides(k.u[1], u[0]) and divides(k.u[1], u[1])
    else if (r == 11) k.u[0] == p::powMod({ bits: k.bits, sg: false }, u[1], s[0])
    else if (r == 12) k.u[0] == 1 or 3 * k.u[0] + 1 >= w
    else if (r == 13) k.s[0] == popcount(k.bits, u[0])
    else if (r == 14) (k.u[0] * k.u[1]) % w == 1
    else if (r == 15) k.u[0] == u[0]
    else if (r == 16) divides(k.s[0], s[0]) and divides(k.s[0], s[1])
    else if (r == 17) k.s[0] <= k.s[1] and k.s[1] <= k.s[2] and k.s[2] <= k.s[3] and k.s[0] + k.s[1] + k.s[2] + k.s[3] == s[0] + s[1] + s[2] + s[3]
    else k.s[0] == 0
  }

  val inv = and {
    // no routine meets an overflow or a zero divisor
    ans != Panic,
    ev.finished implies computed(job.r, job.u, job.s, mach)
  }
}
