// -*- mode: Bluespec; -*-
/// Vocabulary shared by every module of the specification: what a fixed-width
/// integer is, what an operation may answer, and how operands are drawn.
///
/// The specification is written over unbounded mathematical integers. A value
/// of the implementation is modelled by the integer it represents; its bit
/// pattern is that integer modulo 2^bits. No limb, carry or other
/// representation detail appears here: those belong to the implementation and
/// are only constrained through what a caller can observe.
module base {
  // ------------------------------------------------------------------ types

  /// A fixed-width type: its width in bits, and whether it is signed.
  type Ty = { bits: int, sg: bool }

  /// What a caller observes when an operation is invoked.
  ///   Panic   - the call panics
  ///   Nothing - the call returns `None`
  ///   Err(k)  - the call returns an error of kind k ("Any": some error)
  ///   V(l)    - the call returns; l lists the integers it returns in order
  ///             (booleans as 0/1, orderings as -1/0/1, text as characters)
  type Out = Panic | Nothing | Err(str) | V(List[int])

  /// One observation: form of the operation, operation, answer.
  type Obs = (str, str, Out)

  /// One step of a machine: an operand tuple of a type and everything that
  /// may be observed on it.
  type Step = { ty: Ty, args: List[int], obs: List[Obs] }

  pure val noStep: Step = { ty: { bits: 256, sg: false }, args: [], obs: [] }

  // ------------------------------------------------------------- arithmetic

  pure def lo(t: Ty): int = if (t.sg) -(2^(t.bits - 1)) else 0
  pure def hi(t: Ty): int = if (t.sg) 2^(t.bits - 1) - 1 else 2^t.bits - 1
  pure def fits(t: Ty, x: int): bool = lo(t) <= x and x <= hi(t)

  pure def abs(x: int): int = if (x < 0) -x else x
  pure def min(x: int, y: int): int = if (x < y) x else y
  pure def max(x: int, y: int): int = if (x < y) y else x
  pure def b2i(b: bool): int = if (b) 1 else 0
  pure def sgn(x: int): int = if (x < 0) -1 else if (x > 0) 1 else 0

  /// Non-negative residue of x modulo m > 0.
  pure def umod(x: int, m: int): int =
    if (x >= 0) x % m else {
      val r = (-x) % m
      if (r == 0) 0 else m - r
    }
  /// Quotient rounded towards minus infinity, divisor m > 0.
  pure def fdiv(x: int, m: int): int = (x - umod(x, m)) / m
  /// Quotient rounded towards zero, any divisor other than 0.
  pure def tdiv(x: int, y: int): int = {
    val q = abs(x) / abs(y)
    if ((x < 0) != (y < 0)) -q else q
  }
  pure def trem(x: int, y: int): int = x - y * tdiv(x, y)

  /// The bit pattern of x in type t, as a natural number below 2^bits.
  pure def pat(t: Ty, x: int): int = umod(x, 2^t.bits)
  /// The value of type t with the bit pattern p.
  pure def unpat(t: Ty, p: int): int =
    if (t.sg and p >= 2^(t.bits - 1)) p - 2^t.bits else p
  /// Reduction of any integer to type t.
  pure def wrap(t: Ty, x: int): int =
    if (fits(t, x)) x else unpat(t, pat(t, x))
  pure def clamp(t: Ty, x: int): int =
    if (x < lo(t)) lo(t) else if (x > hi(t)) hi(t) else x

  pure def unsignedOf(t: Ty): Ty = { bits: t.bits, sg: false }
  pure def signedOf(t: Ty): Ty = { bits: t.bits, sg: true }
  pure def otherSign(t: Ty): Ty = { bits: t.bits, sg: not(t.sg) }

  // ---------------------------------------------------------------- answers

  pure def ret(x: int): Out = V([x])
  pure def retB(b: bool): Out = V([b2i(b)])
  pure def ret2(x: int, y: int): Out = V([x, y])

  /// The five promises about a result x that may or may not fit type t.
  pure def wrapping(t: Ty, x: int): Out = V([wrap(t, x)])
  pure def overflowing(t: Ty, x: int): Out =
    if (fits(t, x)) V([x, 0]) else V([wrap(t, x), 1])
  pure def checked(t: Ty, x: int): Out = if (fits(t, x)) V([x]) else Nothing
  pure def saturating(t: Ty, x: int): Out = V([clamp(t, x)])
  pure def strict(t: Ty, x: int): Out = if (fits(t, x)) V([x]) else Panic

  // ------------------------------------------------- agreement of the forms

  /// Names of the forms of one operation: wrapping, overflowing, checked,
  /// strict, saturating, plain with and without overflow checks.
  type FormNames = { w: str, o: str, c: str, st: str, sa: str, on: str, off: str }
  pure val FORMS: FormNames = { w: "wrapping", o: "overflowing", c: "checked", st: "strict", sa: "saturating",
                            on: "plain@on", off: "plain@off" }

  /// The overflowing answer decides all others: without the flag every form
  /// gives the value; with it the checked form gives nothing, the strict form
  /// panics, the saturating form gives a bound. Where
  /// there is no answer at all the checked form gives nothing and the others
  /// panic.
  pure def follows(t: Ty, n: FormNames, o: Out, y: Obs): bool =
    match o {
      | V(l) => {
          val flag = l[length(l) - 1] == 1
          val v = V(l.slice(0, length(l) - 1))
          if (y._1 == n.w or y._1 == n.off) y._3 == v
          else if (y._1 == n.c) y._3 == (if (flag) Nothing else v)
          else if (y._1 == n.st or y._1 == n.on) y._3 == (if (flag) Panic else v)
          else if (y._1 == n.sa) (if (flag) y._3 == ret(lo(t)) or y._3 == ret(hi(t)) else y._3 == v)
          else true
        }
      | Panic =>
          if (y._1 == n.c) y._3 == Nothing
          else not(y._1.in(Set(n.w, n.o, n.st, n.sa, n.on, n.off))) or y._3 == Panic
      | _ => false
    }
  pure def agree(t: Ty, n: FormNames, l: List[Obs]): bool = {
    val flagged = l.select(x => x._1 == n.o)
    flagged.indices().forall(i => {
      val same = l.select(y => y._2 == flagged[i]._2)
      same.indices().forall(j => follows(t, n, flagged[i]._3, same[j]))
    })
  }

  /// Two forms that answer alike wherever both exist.
  pure def alike(f: str, g: str, l: List[Obs]): bool = {
    val x = l.select(o => o._1 == f)
    val y = l.select(o => o._1 == g)
    x.indices().forall(i => y.indices().forall(j => x[i]._2 != y[j]._2 or x[i]._3 == y[j]._3))
  }

  /// With overflow checks an operation answers as without them, or panics. Each
  /// pair names a form with and without.
  pure def switched(pairs: List[(str, str)], l: List[Obs]): bool =
    pairs.indices().forall(i => {
      val on = l.select(x => x._1 == pairs[i]._1)
      val off = l.select(x => x._1 == pairs[i]._2)
      on.indices().forall(j => {
        val o = off.select(y => y._2 == on[j]._2)
        length(o) == 1 and (on[j]._3 == Panic or on[j]._3 == o[0]._3)
      })
    })

  // ----------------------------------------------------------- bit patterns

  /// Bitwise conjunction of two natural numbers below 2^n.
  /// Splits on the base-16 digits; digit conjunction is by two-bit tables.
  pure def bit(p: int, i: int): int = (p / 2^i) % 2

  pure val AND4: List[int] = [
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1,
    0, 0, 2, 2, 0, 0, 2, 2, 0, 0, 2, 2, 0, 0, 2, 2,
    0, 1, 2, 3, 0, 1, 2, 3, 0, 1, 2, 3, 0, 1, 2, 3,
    0, 0, 0, 0, 4, 4, 4, 4, 0, 0, 0, 0, 4, 4, 4, 4,
    0, 1, 0, 1, 4, 5, 4, 5, 0, 1, 0, 1, 4, 5, 4, 5,
    0, 0, 2, 2, 4, 4, 6, 6, 0, 0, 2, 2, 4, 4, 6, 6,
    0, 1, 2, 3, 4, 5, 6, 7, 0, 1, 2, 3, 4, 5, 6, 7,
    0, 0, 0, 0, 0, 0, 0, 0, 8, 8, 8, 8, 8, 8, 8, 8,
    0, 1, 0, 1, 0, 1, 0, 1, 8, 9, 8, 9, 8, 9, 8, 9,
    0, 0, 2, 2, 0, 0, 2, 2, 8, 8, 10, 10, 8, 8, 10, 10,
    0, 1, 2, 3, 0, 1, 2, 3, 8, 9, 10, 11, 8, 9, 10, 11,
    0, 0, 0, 0, 4, 4, 4, 4, 8, 8, 8, 8, 12, 12, 12, 12,
    0, 1, 0, 1, 4, 5, 4, 5, 8, 9, 8, 9, 12, 13, 12, 13,
    0, 0, 2, 2, 4, 4, 6, 6, 8, 8, 10, 10, 12, 12, 14, 14,
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15
  ]

  pure def bitAnd(n: int, p: int, q: int): int =
    range(0, n / 4).foldl({ acc: 0, w: 1, p: p, q: q }, (s, i) => {
      acc: s.acc + s.w * AND4[(s.p % 16) * 16 + s.q % 16],
      w: s.w * 16, p: s.p / 16, q: s.q / 16
    }).acc

  /// The number of one bits among the low n bits of p.
  pure val POP4: List[int] = [0, 1, 1, 2, 1, 2, 2, 3, 1, 2, 2, 3, 2, 3, 3, 4]
  pure def popcount(n: int, p: int): int =
    range(0, n / 4).foldl({ acc: 0, p: p }, (s, i) => {
      acc: s.acc + POP4[s.p % 16], p: s.p / 16
    }).acc

  /// Number of bits needed to write p >= 0 (0 for p = 0); p < 2^2048.
  pure def bitlen(p: int): int =
    [1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1].foldl({ n: 0, p: p }, (s, k) =>
      if (s.p >= 2^k) { n: s.n + k, p: s.p / 2^k } else s
    ).n + b2i(p > 0)

  /// The n low digits of p in base d, least significant first.
  pure def digits(n: int, d: int, p: int): List[int] =
    range(0, n).foldl({ l: [], p: p }, (s, i) => {
      l: s.l.append(s.p % d), p: s.p / d
    }).l
  /// The number whose digits in base d are l, least significant first.
  pure def undigits(d: int, l: List[int]): int =
    l.foldl({ acc: 0, w: 1 }, (s, x) => { acc: s.acc + s.w * x, w: s.w * d }).acc
  pure def rev(l: List[int]): List[int] =
    range(0, length(l)).foldl([], (acc, i) => acc.append(l[length(l) - 1 - i]))

  // --------------------------------------------------------- operand supply
  // Operands are functions of one random integer e ("entropy"), so that the
  // simulator only ever draws uniformly and the bias towards interesting
  // values is itself part of the specification.

  pure val ENT: int = 2^2700 - 1

  pure def pickTy(e: int): Ty = {
    val k = e % 20
    { bits: if (k < 8) 256 else if (k < 13) 384 else if (k < 17) 512 else 1024,
      sg: (e / 20) % 2 == 1 }
  }

  /// n limbs of w bits, each drawn from an alphabet of extreme limbs; the
  /// alphabet itself shrinks at random so that runs of equal limbs are common.
  pure def limbPat(n: int, w: int, e: int): int = {
    val m = 2^w
    val mask = [2, 2, 3, 4, 6, 8][e % 6]
    val rot = (e / 6) % 8
    range(0, n).foldl({ acc: 0, e: e / 48 }, (s, i) => {
      val k = ((s.e % 64) % mask + rot) % 8
      val x =
        if (k == 0) 0
        else if (k == 1) m - 1
        else if (k == 2) 1
        else if (k == 3) m / 2
        else if (k == 4) m - 2
        else if (k == 5) m / 2 - 1
        else if (k == 6) (s.e / 64) % m
        else 2^((s.e / 64) % w)
      { acc: s.acc * m + x, e: s.e / 2^23 }
    }).acc
  }

  /// A bit pattern of n bits (n a multiple of 64).
  pure def genPat(n: int, e: int): int = {
    val k = e % 16
    val r = e / 16
    val m = 2^n
    if (k <= 3) limbPat(n / 64, 64, r)
    else if (k <= 5) limbPat(n / 32, 32, r)
    else if (k == 6) r % 6
    else if (k == 7) m - 1 - r % 6
    else if (k == 8) m / 2 + r % 7 - 3
    else if (k == 9) umod(2^(r % n) + (r / 1024) % 3 - 1, m)
    else if (k == 10) (r / 1024) % 2^(1 + r % n)
    else if (k == 11) umod(2^(r % n) - 2^((r / 1024) % n), m)
    else if (k == 12) umod(2^(r % n) + 2^((r / 1024) % n), m)
    else if (k == 13) (r % 2^(n / 2)) * 2^(n / 2)
    else r % m
  }
  /// A pattern of limbs that fills only some of the low limbs of n bits.
  pure def shortPat(n: int, e: int): int =
    if (e % 2 == 0) limbPat(1 + (e / 2) % (n / 64), 64, e / 64)
    else limbPat(1 + (e / 2) % (n / 32), 32, e / 128)
  pure def genVal(t: Ty, e: int): int = unpat(t, genPat(t.bits, e))

  /// An operand related to a: equal, opposite, complementary, adjacent, at
  /// the distance from a where a sum or difference leaves the range, or equal
  /// up to one bit or one limb.
  pure def genRel(t: Ty, a: int, e: int): int = {
    val k = e % 16
    val r = e / 16
    val d = r % 5 - 2
    val x =
      if (k == 0) a + d
      else if (k == 1) -a + d
      else if (k == 2) hi(t) - a + d
      else if (k == 3) lo(t) - a + d
      else if (k == 4) a - lo(t) + d
      else if (k == 5) a - hi(t) + d
      else if (k == 6) a + 2^(r % t.bits)
      else if (k == 7) a - 2^(r % t.bits)
      else if (k == 8) {
        // replace one 32-bit limb of a
        val w = 2^(32 * (r % (t.bits / 32)))
        val p = pat(t, a)
        val old = (p / w) % 2^32
        p + w * (((r / 64) % 2^32) - old)
      }
      else genVal(t, r)
    wrap(t, x)
  }

  // ------------------------------------------------------ systematic operands
  // Fixed lists of extreme values, for exhaustive products of them.

  pure val TYPES: List[Ty] = [
    { bits: 256, sg: false }, { bits: 256, sg: true }, { bits: 384, sg: false }, { bits: 384, sg: true },
    { bits: 512, sg: false }, { bits: 512, sg: true }, { bits: 1024, sg: false }, { bits: 1024, sg: true }
  ]

  /// The number of corner patterns.
  pure val CORNERS: int = 48
  /// The i-th corner pattern of n bits: values at both ends, around every
  /// width at which an implementation may split a value, and with regular limbs.
  pure def cornerPat(n: int, i: int): int = {
    val m = 2^n
    val edge = [32, 64, 128, n / 2, n - 64, n - 32]
    if (i < 6) [0, 1, 2, 3, 7, 10][i]
    else if (i < 12) m - [1, 2, 3, 4, 10, 16][i - 6]
    else if (i < 16) m / 2 + [0, 0 - 1, 1, 0 - 2][i - 12]
    else if (i < 40) {
      val w = edge[(i - 16) % 6]
      val k = (i - 16) / 6
      if (k == 0) 2^w
      else if (k == 1) 2^w - 1
      else if (k == 2) m - 2^w
      else m - 2^w - 1
    }
    // regular limbs: 64-bit ones and zeros in turn, one in every limb, the top
    // bit of every limb, ones in all but every top bit, the same by 32 bits
    else if (i == 40) ((m - 1) / (2^128 - 1)) * (2^64 - 1)
    else if (i == 41) ((m - 1) / (2^128 - 1)) * (2^64 - 1) * 2^64
    else if (i == 42) (m - 1) / (2^64 - 1)
    else if (i == 43) ((m - 1) / (2^64 - 1)) * 2^63
    else if (i == 44) ((m - 1) / (2^64 - 1)) * (2^63 - 1)
    else if (i == 45) ((m - 1) / (2^64 - 1)) * (2^32 - 1)
    else if (i == 46) ((m - 1) / (2^64 - 1)) * (2^64 - 2^32)
    else ((m - 1) / (2^64 - 1)) * 1311768467463790320
  }
  pure def corner(t: Ty, i: int): int = unpat(t, cornerPat(t.bits, i % CORNERS))

  /// The bit positions of all widths, numbered: position i of type t.
  pure val SPOTS: int = 4352
  pure def spot(j: int): { t: Ty, i: int } = {
    val k = j / 2
    val sg = j % 2 == 1
    if (k < 256) { t: { bits: 256, sg: sg }, i: k }
    else if (k < 640) { t: { bits: 384, sg: sg }, i: k - 256 }
    else if (k < 1152) { t: { bits: 512, sg: sg }, i: k - 640 }
    else { t: { bits: 1024, sg: sg }, i: k - 1152 }
  }
}
