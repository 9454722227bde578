// -*- mode: Bluespec; -*-
/// C15 - programs over a register machine.
///
/// Four unsigned and four signed registers of one width and a carry flag. An
/// instruction reads registers, an immediate and the flag, answers something,
/// and writes its destination; when it answers Panic or Nothing it writes
/// nothing at all. Whether plain arithmetic panics or wraps on overflow is a
/// property of the build and fixed for a whole program.
module program {
  import base.* from "./base"
  import divrem as d from "./divrem"
  import mul as m from "./mul"
  import powlog as p from "./powlog"
  import shift as h from "./shift"
  import bits as w from "./bits"
  import order as o from "./order"

  /// op: what to do; sg: on which register file; d, x, y: registers; n: immediate.
  type Ins = { op: str, sg: bool, d: int, x: int, y: int, n: int }
  type Machine = { bits: int, checks: bool, u: List[int], s: List[int], c: bool }
  /// Writes are (signed file?, register, value).
  type Effect = { out: Out, writes: List[(bool, int, int)], c: bool }

  // ------------------------------------------------------------ effects

  pure def file(k: Machine, sg: bool): List[int] = if (sg) k.s else k.u
  pure def only(k: Machine, out: Out): Effect = { out: out, writes: [], c: k.c }
  pure def store(k: Machine, i: Ins, v: int): Effect = { out: V([]), writes: [(i.sg, i.d, v)], c: k.c }
  pure def putFlag(k: Machine, i: Ins, v: int, f: bool): Effect =
    { out: retB(f), writes: [(i.sg, i.d, v)], c: k.c }
  pure def put2(k: Machine, i: Ins, v1: int, v2: int): Effect =
    { out: V([]), writes: [(i.sg, i.d, v1), (i.sg, (i.d + 1) % 4, v2)], c: k.c }

  /// The promises about an exact result v, as effects.
  pure def plainE(k: Machine, i: Ins, t: Ty, v: int): Effect =
    if (fits(t, v)) store(k, i, v) else if (k.checks) only(k, Panic) else store(k, i, wrap(t, v))
  pure def wrappingE(k: Machine, i: Ins, t: Ty, v: int): Effect = store(k, i, wrap(t, v))
  pure def overflowingE(k: Machine, i: Ins, t: Ty, v: int): Effect = putFlag(k, i, wrap(t, v), not(fits(t, v)))
  pure def checkedE(k: Machine, i: Ins, t: Ty, v: int): Effect = if (fits(t, v)) store(k, i, v) else only(k, Nothing)
  pure def saturatingE(k: Machine, i: Ins, t: Ty, v: int): Effect = store(k, i, clamp(t, v))
  pure def strictE(k: Machine, i: Ins, t: Ty, v: int): Effect = if (fits(t, v)) store(k, i, v) else only(k, Panic)

  // ------------------------------------------------------- instructions
  // Each group interprets the instructions whose names it lists. a is the
  // value of register x (of register d for assigning forms), b of register y.

  pure val assigns: List[str] = ["+=", "-=", "*=", "/=", "%=", "+=&", "-=&", "*=&", "/=&", "%=&",
    "&=", "|=", "^=", "&=&", "|=&", "^=&"]
  pure def assigning(k: Machine, i: Ins, t: Ty, a: int, b: int): Effect = {
    val c = i.op
    if (c.in(Set("+=", "+=&"))) plainE(k, i, t, a + b)
    else if (c.in(Set("-=", "-=&"))) plainE(k, i, t, a - b)
    else if (c.in(Set("*=", "*=&"))) plainE(k, i, t, a * b)
    else if (c.in(Set("&=", "&=&"))) store(k, i, w::andV(t, a, b))
    else if (c.in(Set("|=", "|=&"))) store(k, i, w::orV(t, a, b))
    else if (c.in(Set("^=", "^=&"))) store(k, i, w::xorV(t, a, b))
    else if (b == 0) only(k, Panic)
    else if (c.in(Set("/=", "/=&"))) plainE(k, i, t, tdiv(a, b))
    else if (d::over(t, a, b) and k.checks) only(k, Panic)
    else store(k, i, trem(a, b))
  }

  pure val operators: List[str] = ["+", "-", "*", "/", "%", "&", "|", "^", "!", "neg", "next_multiple_of", "div_rem"]
  pure def operate(k: Machine, i: Ins, t: Ty, a: int, b: int): Effect = {
    val c = i.op
    if (c == "+") plainE(k, i, t, a + b)
    else if (c == "-") plainE(k, i, t, a - b)
    else if (c == "*") plainE(k, i, t, a * b)
    else if (c == "&") store(k, i, w::andV(t, a, b))
    else if (c == "|") store(k, i, w::orV(t, a, b))
    else if (c == "^") store(k, i, w::xorV(t, a, b))
    else if (c == "!") store(k, i, w::notV(t, a))
    // negation by operator for signed, by method for unsigned registers
    else if (c == "neg") (if (t.sg) plainE(k, i, t, -a) else store(k, i, wrap(t, -a)))
    else if (b == 0) only(k, Panic)
    else if (c == "/") plainE(k, i, t, tdiv(a, b))
    else if (c == "next_multiple_of") plainE(k, i, t, d::nextMultiple(a, b))
    else if (d::over(t, a, b) and k.checks) only(k, Panic)
    else if (c == "%") store(k, i, trem(a, b))
    else put2(k, i, wrap(t, tdiv(a, b)), trem(a, b))
  }

  /// Shifts by an immediate of a machine type, or by a register of the other file.
  pure val shifts: List[str] = ["<<= u32", ">>= u32", "<<= i16", ">>= i16", "<<= u64", ">>= u64", "<<= i128", ">>= i128",
    "<< u32", ">> u32", "<<= reg", ">>= reg"]
  pure def shiftBy(k: Machine, i: Ins, t: Ty, a: int, n: int): Effect =
    if (k.checks and (n < 0 or n >= t.bits)) only(k, Panic)
    else {
      val q = umod(n, 2^32) % t.bits
      store(k, i, if (i.op.in(Set("<<= u32", "<<= i16", "<<= u64", "<<= i128", "<< u32", "<<= reg"))) h::shlBits(t, a, q)
                else h::shrBits(t, a, q))
    }
  pure def distTy(op: str): Ty =
    if (op.in(Set("<<= i16", ">>= i16"))) { bits: 16, sg: true }
    else if (op.in(Set("<<= u64", ">>= u64"))) { bits: 64, sg: false }
    else if (op.in(Set("<<= i128", ">>= i128"))) { bits: 128, sg: true }
    else { bits: 32, sg: false }

  pure val sums: List[str] = ["wrapping_add", "overflowing_add", "checked_add", "saturating_add", "strict_add",
    "wrapping_sub", "overflowing_sub", "checked_sub", "saturating_sub", "strict_sub",
    "wrapping_mul", "overflowing_mul", "checked_mul", "saturating_mul", "strict_mul",
    "wrapping_neg", "checked_neg", "midpoint", "abs_diff", "carrying_add", "borrowing_sub"]
  pure def sum(k: Machine, i: Ins, t: Ty, a: int, b: int): Effect = {
    val c = i.op
    val q = b2i(k.c)
    if (c == "wrapping_add") wrappingE(k, i, t, a + b)
    else if (c == "overflowing_add") overflowingE(k, i, t, a + b)
    else if (c == "checked_add") checkedE(k, i, t, a + b)
    else if (c == "saturating_add") saturatingE(k, i, t, a + b)
    else if (c == "strict_add") strictE(k, i, t, a + b)
    else if (c == "wrapping_sub") wrappingE(k, i, t, a - b)
    else if (c == "overflowing_sub") overflowingE(k, i, t, a - b)
    else if (c == "checked_sub") checkedE(k, i, t, a - b)
    else if (c == "saturating_sub") saturatingE(k, i, t, a - b)
    else if (c == "strict_sub") strictE(k, i, t, a - b)
    else if (c == "wrapping_mul") wrappingE(k, i, t, a * b)
    else if (c == "overflowing_mul") overflowingE(k, i, t, a * b)
    else if (c == "checked_mul") checkedE(k, i, t, a * b)
    else if (c == "saturating_mul") saturatingE(k, i, t, a * b)
    else if (c == "strict_mul") strictE(k, i, t, a * b)
    else if (c == "wrapping_neg") wrappingE(k, i, t, -a)
    else if (c == "checked_neg") checkedE(k, i, t, -a)
    // signed midpoints round towards zero
    else if (c == "midpoint") store(k, i, tdiv(a + b, 2))
    // the distance always fits the unsigned type
    else if (c == "abs_diff") { out: V([]), writes: [(false, i.d, abs(a - b))], c: k.c }
    // the flag is an operand and a result
    else if (c == "carrying_add")
      { out: V([]), writes: [(i.sg, i.d, wrap(t, a + b + q))], c: not(fits(t, a + b + q)) }
    else { out: V([]), writes: [(i.sg, i.d, wrap(t, a - b - q))], c: not(fits(t, a - b - q)) }
  }

  pure val quotients: List[str] = ["wrapping_div", "overflowing_div", "checked_div", "saturating_div", "strict_div",
    "wrapping_rem", "overflowing_rem", "checked_rem", "strict_rem",
    "wrapping_div_euclid", "overflowing_div_euclid", "checked_div_euclid",
    "wrapping_rem_euclid", "checked_rem_euclid", "checked_div_rem", "wrapping_div_rem", "checked_next_multiple_of"]
  pure def quotient(k: Machine, i: Ins, t: Ty, a: int, b: int): Effect = {
    val c = i.op
    if (b == 0) (if (c.in(Set("checked_div", "checked_rem", "checked_div_euclid", "checked_rem_euclid", "checked_div_rem",
        "checked_next_multiple_of"))) only(k, Nothing) else only(k, Panic))
    else if (c == "wrapping_div") wrappingE(k, i, t, tdiv(a, b))
    else if (c == "overflowing_div") overflowingE(k, i, t, tdiv(a, b))
    else if (c == "checked_div") checkedE(k, i, t, tdiv(a, b))
    else if (c == "saturating_div") saturatingE(k, i, t, tdiv(a, b))
    else if (c == "strict_div") strictE(k, i, t, tdiv(a, b))
    else if (c == "wrapping_rem") store(k, i, trem(a, b))
    else if (c == "overflowing_rem") putFlag(k, i, trem(a, b), d::over(t, a, b))
    else if (c == "checked_rem") (if (d::over(t, a, b)) only(k, Nothing) else store(k, i, trem(a, b)))
    else if (c == "strict_rem") (if (d::over(t, a, b)) only(k, Panic) else store(k, i, trem(a, b)))
    else if (c == "wrapping_div_euclid") wrappingE(k, i, t, d::eucDiv(a, b))
    else if (c == "overflowing_div_euclid") overflowingE(k, i, t, d::eucDiv(a, b))
    else if (c == "checked_div_euclid") checkedE(k, i, t, d::eucDiv(a, b))
    else if (c == "wrapping_rem_euclid") store(k, i, d::eucRem(a, b))
    else if (c == "checked_rem_euclid") (if (d::over(t, a, b)) only(k, Nothing) else store(k, i, d::eucRem(a, b)))
    else if (c == "checked_div_rem") (if (d::over(t, a, b)) only(k, Nothing) else put2(k, i, tdiv(a, b), trem(a, b)))
    else if (c == "wrapping_div_rem") put2(k, i, wrap(t, tdiv(a, b)), trem(a, b))
    else checkedE(k, i, t, d::nextMultiple(a, b))
  }

  pure val powers: List[str] = ["pow", "wrapping_pow", "checked_pow", "saturating_pow", "overflowing_pow"]
  pure def power(k: Machine, i: Ins, t: Ty, a: int, n: int): Effect = {
    val ok = p::powFits(t, a, n)
    val v = p::powMod(t, a, n)
    if (i.op == "wrapping_pow") store(k, i, v)
    else if (i.op == "overflowing_pow") putFlag(k, i, v, not(ok))
    else if (i.op == "saturating_pow") store(k, i, p::powClamp(t, a, n))
    else if (i.op == "checked_pow") (if (ok) store(k, i, v) else only(k, Nothing))
    else if (ok or not(k.checks)) store(k, i, v) else only(k, Panic)
  }

  /// Arithmetic with one machine number: a limb, or two.
  pure val scalars: List[str] = ["add_ulimb", "sub_ulimb", "mul_ulimb", "div_ulimb", "rem_ulimb",
    "wrapping_add_ulimb", "wrapping_mul_ulimb", "checked_sub_ulimb", "overflowing_mul_ulimb", "checked_div_ulimb",
    "add_uwide", "sub_uwide", "mul_uwide", "div_uwide", "rem_uwide",
    "wrapping_sub_uwide", "wrapping_mul_uwide", "checked_add_uwide", "overflowing_add_uwide"]
  pure def scalar(k: Machine, i: Ins, t: Ty, a: int, n: int): Effect = {
    val c = i.op
    if (c.in(Set("add_ulimb", "add_uwide"))) plainE(k, i, t, a + n)
    else if (c.in(Set("sub_ulimb", "sub_uwide"))) plainE(k, i, t, a - n)
    else if (c.in(Set("mul_ulimb", "mul_uwide"))) plainE(k, i, t, a * n)
    else if (c == "wrapping_add_ulimb") wrappingE(k, i, t, a + n)
    else if (c.in(Set("wrapping_mul_ulimb", "wrapping_mul_uwide"))) wrappingE(k, i, t, a * n)
    else if (c == "wrapping_sub_uwide") wrappingE(k, i, t, a - n)
    else if (c == "checked_sub_ulimb") checkedE(k, i, t, a - n)
    else if (c == "checked_add_uwide") checkedE(k, i, t, a + n)
    else if (c == "overflowing_mul_ulimb") overflowingE(k, i, t, a * n)
    else if (c == "overflowing_add_uwide") overflowingE(k, i, t, a + n)
    else if (n == 0) (if (c == "checked_div_ulimb") only(k, Nothing) else only(k, Panic))
    else if (c.in(Set("div_ulimb", "div_uwide", "checked_div_ulimb"))) store(k, i, fdiv(a, n))
    else store(k, i, umod(a, n))
  }
  pure def scalarTy(op: str): Ty =
    if (op.in(Set("add_uwide", "sub_uwide", "mul_uwide", "div_uwide", "rem_uwide", "wrapping_sub_uwide",
        "wrapping_mul_uwide", "checked_add_uwide", "overflowing_add_uwide"))) { bits: 64, sg: false }
    else { bits: 32, sg: false }

  /// Moving values about: none of these changes a value it carries over.
  pure val moves: List[str] = ["mov", "swap", "min", "max", "clamp", "via le bytes", "via be bytes", "via ne bytes",
    "via le limbs", "via be limbs", "via le u32", "via be u64", "via le wide", "via decimal", "via radix", "via hex", "via octal",
    "sort"]
  pure def move(k: Machine, i: Ins, t: Ty, a: int, b: int): Effect = {
    val f = file(k, i.sg)
    if (i.op == "swap") { out: V([]), writes: [(i.sg, i.x, b), (i.sg, i.y, a)], c: k.c }
    else if (i.op == "min") store(k, i, min(a, b))
    else if (i.op == "max") store(k, i, max(a, b))
    // the destination register forced between the two others
    else if (i.op == "clamp") (if (a > b) only(k, Panic) else store(k, i, min(max(f[i.d], a), b)))
    else if (i.op == "sort") {
      val l = o::sorted(f)
      { out: V([]), writes: [(i.sg, 0, l[0]), (i.sg, 1, l[1]), (i.sg, 2, l[2]), (i.sg, 3, l[3])], c: k.c }
    }
    else store(k, i, a)
  }

  /// Conversions: to the other file, and through machine types and back.
  pure val conversions: List[str] = ["as other", "cast other", "try other", "via u8", "via u64", "via u128", "via i16", "via i32",
    "via i128", "unsigned_abs", "signum", "low", "high"]
  pure def through(t: Ty, c: Ty, a: int): int = wrap(t, wrap(c, a))
  pure def convert(k: Machine, i: Ins, t: Ty, a: int): Effect = {
    val c = i.op
    val u = otherSign(t)
    if (c.in(Set("as other", "cast other"))) { out: V([]), writes: [(not(i.sg), i.d, wrap(u, a))], c: k.c }
    else if (c == "try other")
      (if (fits(u, a)) { out: V([]), writes: [(not(i.sg), i.d, a)], c: k.c } else only(k, Nothing))
    else if (c == "via u8") store(k, i, through(t, { bits: 8, sg: false }, a))
    else if (c == "via u64") store(k, i, through(t, { bits: 64, sg: false }, a))
    else if (c == "via u128") store(k, i, through(t, { bits: 128, sg: false }, a))
    else if (c == "via i16") store(k, i, through(t, { bits: 16, sg: true }, a))
    else if (c == "via i32") store(k, i, through(t, { bits: 32, sg: true }, a))
    else if (c == "via i128") store(k, i, through(t, { bits: 128, sg: true }, a))
    else if (c == "unsigned_abs") { out: V([]), writes: [(false, i.d, abs(a))], c: k.c }
    else if (c == "signum") store(k, i, sgn(a))
    else if (c == "low") store(k, i, pat(t, a) % 2^(t.bits / 2))
    else store(k, i, wrap(t, pat(t, a) / 2^(t.bits / 2)))
  }

  /// Bits: rotations and reorderings, and counts written back as numbers.
  pure val bitwise: List[str] = ["rotate_left", "rotate_right", "swap_bytes", "reverse_bits", "wrapping_shl", "wrapping_shr",
    "checked_shl", "checked_shr", "count_ones", "leading_zeros", "trailing_zeros", "leading_ones", "trailing_ones",
    "ilog2", "cmp", "is_power_of_two", "checked_next_power_of_two"]
  pure def bitOp(k: Machine, i: Ins, t: Ty, a: int, b: int, n: int): Effect = {
    val c = i.op
    val q = pat(t, a)
    val j = n % t.bits
    if (c == "rotate_left") store(k, i, h::rotl(t, a, j))
    else if (c == "rotate_right") store(k, i, h::rotr(t, a, j))
    else if (c == "swap_bytes") store(k, i, unpat(t, w::swapBytes(t.bits, q)))
    else if (c == "reverse_bits") store(k, i, unpat(t, w::reverseBits(t.bits, q)))
    else if (c == "wrapping_shl") store(k, i, h::shlBits(t, a, j))
    else if (c == "wrapping_shr") store(k, i, h::shrBits(t, a, j))
    else if (c == "checked_shl") (if (n < t.bits) store(k, i, h::shlBits(t, a, j)) else only(k, Nothing))
    else if (c == "checked_shr") (if (n < t.bits) store(k, i, h::shrBits(t, a, j)) else only(k, Nothing))
    else if (c == "count_ones") store(k, i, popcount(t.bits, q))
    else if (c == "leading_zeros") store(k, i, w::leadingZeros(t.bits, q))
    else if (c == "trailing_zeros") store(k, i, w::trailingZeros(t.bits, q))
    else if (c == "leading_ones") store(k, i, w::leadingZeros(t.bits, w::flip(t.bits, q)))
    else if (c == "trailing_ones") store(k, i, w::trailingZeros(t.bits, w::flip(t.bits, q)))
    else if (c == "ilog2") (if (a <= 0) only(k, Nothing) else store(k, i, bitlen(a) - 1))
    else if (c == "cmp") only(k, V([o::cmp(a, b)]))
    else if (c == "is_power_of_two") only(k, retB(popcount(t.bits, q) == 1))
    else checkedE(k, i, t, p::nextPow2(a))
  }

  /// Multiplication to twice the width, unsigned registers only.
  pure val wides: List[str] = ["widening_mul", "carrying_mul"]
  pure def wide(k: Machine, i: Ins, t: Ty, a: int, b: int): Effect = {
    val v = a * b + (if (i.op == "carrying_mul") k.u[i.d] else 0)
    put2(k, i, v % 2^t.bits, v / 2^t.bits)
  }

  /// Further instructions. Some exist for one kind of register only; "other" is
  /// register y of the other file, n a distance, an exponent or a signed scalar.
  pure val onlySigned: List[str] = ["abs", "wrapping_abs", "checked_abs", "saturating_abs", "overflowing_abs", "saturating_neg",
    "overflowing_neg", "wrapping_sub_other", "overflowing_sub_other", "checked_sub_other", "saturating_sub_other",
    "wrapping_add_ilimb", "checked_sub_ilimb", "overflowing_mul_ilimb", "wrapping_div_ilimb", "checked_rem_ilimb",
    "overflowing_div_ilimb", "wrapping_mul_iwide", "checked_add_iwide", "overflowing_sub_iwide", "checked_div_iwide",
    "wrapping_rem_iwide", "overflowing_shl", "overflowing_shr"]
  pure val onlyUnsigned: List[str] = ["is_multiple_of", "wrapping_next_power_of_two", "checked_signed_diff", "next_power_of_two",
    "wrapping_add_other"]
  pure val either: List[str] = ["div_floor", "div_ceil", "div_euclid", "rem_euclid", "overflowing_rem_euclid", "strict_div_euclid",
    "strict_rem_euclid", "overflowing_div_rem", "overflowing_add_other", "checked_add_other",
    "saturating_add_other", "strict_add_other", "strict_neg", "strict_pow", "ilog", "count_zeros", "is_even", "unbounded_shl",
    "unbounded_shr", "strict_shl", "strict_shr", "via binary", "via HEX", "via be u32", "via le u64", "via be wide", "via i8",
    "via u16", "via u32", "via i64", "eq"]
  pure def further(k: Machine, i: Ins, t: Ty, a: int, b: int): Effect = {
    val c = i.op
    val z = file(k, not(i.sg))[i.y]
    val n = i.n
    val j = umod(n, t.bits)
    val near = n < t.bits
    if (c == "abs") strictE(k, i, t, abs(a))
    else if (c == "wrapping_abs") wrappingE(k, i, t, abs(a))
    else if (c == "checked_abs") checkedE(k, i, t, abs(a))
    else if (c == "saturating_abs") saturatingE(k, i, t, abs(a))
    else if (c == "overflowing_abs") overflowingE(k, i, t, abs(a))
    else if (c == "saturating_neg") saturatingE(k, i, t, -a)
    else if (c == "overflowing_neg") overflowingE(k, i, t, -a)
    else if (c == "strict_neg") strictE(k, i, t, -a)
    else if (c == "wrapping_add_other") wrappingE(k, i, t, a + z)
    else if (c == "overflowing_add_other") overflowingE(k, i, t, a + z)
    else if (c == "checked_add_other") checkedE(k, i, t, a + z)
    else if (c == "saturating_add_other") saturatingE(k, i, t, a + z)
    else if (c == "strict_add_other") strictE(k, i, t, a + z)
    else if (c == "wrapping_sub_other") wrappingE(k, i, t, a - z)
    else if (c == "overflowing_sub_other") overflowingE(k, i, t, a - z)
    else if (c == "checked_sub_other") checkedE(k, i, t, a - z)
    else if (c == "saturating_sub_other") saturatingE(k, i, t, a - z)
    else if (c == "checked_signed_diff")
      (if (fits(signedOf(t), a - b)) { out: V([]), writes: [(true, i.d, a - b)], c: k.c } else only(k, Nothing))
    else if (c == "wrapping_add_ilimb") wrappingE(k, i, t, a + n)
    else if (c == "checked_sub_ilimb") checkedE(k, i, t, a - n)
    else if (c == "overflowing_mul_ilimb") overflowingE(k, i, t, a * n)
    else if (c == "wrapping_mul_iwide") wrappingE(k, i, t, a * n)
    else if (c == "checked_add_iwide") checkedE(k, i, t, a + n)
    else if (c == "overflowing_sub_iwide") overflowingE(k, i, t, a - n)
    else if (c.in(Set("wrapping_div_ilimb", "checked_rem_ilimb", "overflowing_div_ilimb", "checked_div_iwide", "wrapping_rem_iwide"))) {
      if (n == 0) only(k, if (c.in(Set("checked_rem_ilimb", "checked_div_iwide"))) Nothing else Panic)
      else if (c == "wrapping_div_ilimb") wrappingE(k, i, t, tdiv(a, n))
      else if (c == "overflowing_div_ilimb") overflowingE(k, i, t, tdiv(a, n))
      else if (c == "checked_div_iwide") checkedE(k, i, t, tdiv(a, n))
      else if (c == "wrapping_rem_iwide") store(k, i, trem(a, n))
      else if (fits(t, tdiv(a, n))) store(k, i, trem(a, n)) else only(k, Nothing)
    }
    else if (c == "is_multiple_of") only(k, retB(if (b == 0) a == 0 else umod(a, b) == 0))
    else if (c == "wrapping_next_power_of_two") wrappingE(k, i, t, p::nextPow2(a))
    else if (c == "next_power_of_two") plainE(k, i, t, p::nextPow2(a))
    else if (c == "ilog") (if (a <= 0 or b < 2) only(k, Nothing) else store(k, i, p::logFloor(a, b)))
    else if (c == "strict_pow") (if (p::powFits(t, a, n)) store(k, i, p::powMod(t, a, n)) else only(k, Panic))
    else if (c == "count_zeros") store(k, i, wrap(t, t.bits - popcount(t.bits, pat(t, a))))
    else if (c == "is_even") only(k, retB(umod(a, 2) == 0))
    else if (c == "eq") only(k, retB(a == b))
    else if (c == "unbounded_shl") store(k, i, if (near) h::shlBits(t, a, j) else 0)
    else if (c == "unbounded_shr") store(k, i, if (near) h::shrBits(t, a, j) else 0)
    else if (c == "strict_shl") (if (near) store(k, i, h::shlBits(t, a, j)) else only(k, Panic))
    else if (c == "strict_shr") (if (near) store(k, i, h::shrBits(t, a, j)) else only(k, Panic))
    else if (c == "overflowing_shl") putFlag(k, i, h::shlBits(t, a, j), not(near))
    else if (c == "overflowing_shr") putFlag(k, i, h::shrBits(t, a, j), not(near))
    else if (c.in(Set("via binary", "via HEX", "via be u32", "via le u64", "via be wide"))) store(k, i, a)
    else if (c == "via i8") store(k, i, through(t, { bits: 8, sg: true }, a))
    else if (c == "via u16") store(k, i, through(t, { bits: 16, sg: false }, a))
    else if (c == "via u32") store(k, i, through(t, { bits: 32, sg: false }, a))
    else if (c == "via i64") store(k, i, through(t, { bits: 64, sg: true }, a))
    else if (b == 0) only(k, Panic)
    else if (c == "div_floor") strictE(k, i, t, d::floorDiv(a, b))
    else if (c == "div_ceil") strictE(k, i, t, d::ceilDiv(a, b))
    else if (c.in(Set("div_euclid", "strict_div_euclid"))) strictE(k, i, t, d::eucDiv(a, b))
    else if (c == "overflowing_rem_euclid") putFlag(k, i, d::eucRem(a, b), d::over(t, a, b))
    else if (c == "overflowing_div_rem")
      { out: retB(d::over(t, a, b)), writes: [(i.sg, i.d, wrap(t, tdiv(a, b))), (i.sg, (i.d + 1) % 4, trem(a, b))], c: k.c }
    else if (d::over(t, a, b)) only(k, Panic)
    else store(k, i, d::eucRem(a, b))
  }
  /// The immediate a further instruction takes.
  pure def furtherImm(t: Ty, op: str, e: int): int =
    if (op == "strict_pow") p::genExp(e)
    else if (op.in(Set("wrapping_add_ilimb", "checked_sub_ilimb", "overflowing_mul_ilimb", "wrapping_div_ilimb", "checked_rem_ilimb",
        "overflowing_div_ilimb"))) genVal({ bits: 32, sg: true }, e)
    else if (op.in(Set("wrapping_mul_iwide", "checked_add_iwide", "overflowing_sub_iwide", "checked_div_iwide", "wrapping_rem_iwide")))
      genVal({ bits: 64, sg: true }, e)
    else h::genDist(t, e)

  pure def among(l: List[str], x: str): bool = l.indices().exists(j => l[j] == x)

  pure def exec(k: Machine, i: Ins): Effect = {
    val t = { bits: k.bits, sg: i.sg }
    val f = file(k, i.sg)
    val a = f[i.x]
    val b = f[i.y]
    if (i.op == "load") store(k, i, i.n)
    else if (among(assigns, i.op)) assigning(k, i, t, f[i.d], b)
    else if (among(operators, i.op)) operate(k, i, t, a, b)
    else if (i.op.in(Set("<<= reg", ">>= reg"))) shiftBy(k, i, t, f[i.d], file(k, not(i.sg))[i.y])
    else if (i.op.in(Set("<< u32", ">> u32"))) shiftBy(k, i, t, a, i.n)
    else if (among(shifts, i.op)) shiftBy(k, i, t, f[i.d], i.n)
    else if (among(sums, i.op)) sum(k, i, t, a, b)
    else if (among(quotients, i.op)) quotient(k, i, t, a, b)
    else if (among(powers, i.op)) power(k, i, t, a, i.n)
    else if (among(scalars, i.op)) scalar(k, i, t, a, i.n)
    else if (among(moves, i.op)) move(k, i, t, a, b)
    else if (among(conversions, i.op)) convert(k, i, t, a)
    else if (among(wides, i.op)) wide(k, i, t, a, b)
    else if (among(bitwise, i.op)) bitOp(k, i, t, a, b, i.n)
    else further(k, i, t, a, b)
  }

  pure def setReg(l: List[int], r: int, v: int): List[int] = l.replaceAt(r, v)
  pure def apply(k: Machine, e: Effect): Machine =
    e.writes.foldl({ ...k, c: e.c }, (n, q) =>
      if (q._1) { ...n, s: setReg(n.s, q._2, q._3) } else { ...n, u: setReg(n.u, q._2, q._3) })

  // ------------------------------------------------------------- drawing

  /// A constant worth loading: anything, or something that makes the next sum,
  /// product or quotient with register x come out at the end of the range.
  pure def constant(t: Ty, a: int, e: int): int =
    if (e % 4 == 0) genVal(t, e / 4)
    else if (e % 4 == 1) genRel(t, a, e / 4)
    else if (e % 4 == 2) m::genFactor(t, a, e / 4)
    else if ((e / 4) % 2 == 0) d::genDivisor(t, e / 8)
    else if (a == 0) 0 else d::genDividend(t, a, e / 8)

  pure def pick(l: List[str], e: int): str = l[e % length(l)]

  pure def decode(k: Machine, e: int): Ins = {
    val sg = e % 2 == 1
    val t = { bits: k.bits, sg: sg }
    val g = (e / 2) % 40
    val r = e / 80
    val d0 = r % 4
    val x = (r / 4) % 4
    val y = (r / 16) % 4
    val e1 = r / 64
    val e2 = e / 2^100
    val n = h::genDist(t, e2)
    if (g <= 7) { op: "load", sg: sg, d: d0, x: x, y: y, n: constant(t, file(k, sg)[x], e2) }
    else if (g <= 11) { op: pick(assigns, e1), sg: sg, d: d0, x: x, y: y, n: 0 }
    else if (g <= 13) { op: pick(operators, e1), sg: sg, d: d0, x: x, y: y, n: 0 }
    else if (g <= 15) {
      val op = pick(shifts, e1)
      { op: op, sg: sg, d: d0, x: x, y: y, n: wrap(distTy(op), h::genOpDist(t, e2)) }
    }
    else if (g <= 18) { op: pick(sums, e1), sg: sg, d: d0, x: x, y: y, n: 0 }
    else if (g <= 21) { op: pick(quotients, e1), sg: sg, d: d0, x: x, y: y, n: 0 }
    else if (g == 22) { op: pick(powers, e1), sg: sg, d: d0, x: x, y: y, n: p::genExp(e2) }
    else if (g <= 24) {
      val op = pick(scalars, e1)
      { op: op, sg: sg, d: d0, x: x, y: y, n: genVal({ bits: 64, sg: false }, e2) % 2^scalarTy(op).bits }
    }
    else if (g <= 26) { op: pick(moves, e1), sg: sg, d: d0, x: x, y: y, n: 2 + e2 % 35 }
    else if (g <= 28) {
      val op = pick(conversions, e1)
      // signs are asked of signed registers, halves taken of unsigned ones
      { op: op, sg: if (op.in(Set("unsigned_abs", "signum"))) true else if (op.in(Set("low", "high"))) false else sg,
        d: d0, x: x, y: y, n: 0 }
    }
    else if (g <= 30) {
      val op = pick(bitwise, e1)
      { op: op, sg: if (op.in(Set("is_power_of_two", "checked_next_power_of_two"))) false else sg, d: d0, x: x, y: y, n: n }
    }
    else if (g == 31) { op: pick(wides, e1), sg: false, d: d0, x: x, y: y, n: 0 }
    else if (g <= 34) {
      val op = pick(onlySigned, e1)
      { op: op, sg: true, d: d0, x: x, y: y, n: furtherImm({ bits: k.bits, sg: true }, op, e2) }
    }
    else if (g == 35) { op: pick(onlyUnsigned, e1), sg: false, d: d0, x: x, y: y, n: 0 }
    else {
      val op = pick(either, e1)
      { op: op, sg: sg, d: d0, x: x, y: y, n: furtherImm(t, op, e2) }
    }
  }

  var mach: Machine
  var ins: Ins
  var ans: Out

  pure def boot(e: int): Machine = {
    val bits = pickTy(e).bits
    val u = { bits: bits, sg: false }
    val sgd = { bits: bits, sg: true }
    val r = e / 64
    { bits: bits, checks: (e / 40) % 2 == 0,
      u: [genVal(u, r), genVal(u, r / 2^200), genVal(u, r / 2^400), 0],
      s: [genVal(sgd, r / 2^600), genVal(sgd, r / 2^800), genVal(sgd, r / 2^1000), 0],
      c: false }
  }

  action init = {
    nondet e = 0.to(ENT).oneOf()
    all { mach' = boot(e), ins' = { op: "boot", sg: false, d: 0, x: 0, y: 0, n: 0 }, ans' = V([]) }
  }
  action step = {
    nondet e = 0.to(ENT).oneOf()
    val n = decode(mach, e)
    val r = exec(mach, n)
    all { mach' = apply(mach, r), ins' = n, ans' = r.out }
  }

  val inv = and {
    length(mach.u) == 4 and length(mach.s) == 4,
    mach.u.indices().forall(j => fits({ bits: mach.bits, sg: false }, mach.u[j])),
    mach.s.indices().forall(j => fits({ bits: mach.bits, sg: true }, mach.s[j])),
    // without checks only division by zero, strict forms and clamping panic
    ans != Panic or mach.checks or ins.op.in(Set("/=", "/=&", "%=", "%=&", "/", "%", "next_multiple_of", "div_rem", "clamp",
      "strict_add", "strict_sub", "strict_mul", "strict_div", "strict_rem", "wrapping_div", "overflowing_div", "saturating_div",
      "wrapping_rem", "overflowing_rem", "wrapping_div_euclid", "overflowing_div_euclid", "wrapping_rem_euclid",
      "wrapping_div_rem", "div_ulimb", "rem_ulimb", "div_uwide", "rem_uwide", "abs", "strict_neg", "strict_add_other",
      "wrapping_div_ilimb", "overflowing_div_ilimb", "wrapping_rem_iwide", "strict_pow", "strict_shl", "strict_shr", "div_floor",
      "div_ceil", "div_euclid", "strict_div_euclid", "overflowing_rem_euclid", "overflowing_div_rem", "rem_euclid",
      "strict_rem_euclid"))
  }
}
