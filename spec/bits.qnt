// -*- mode: Bluespec; -*-
/// C06 - bit logic, counts, reversals, parity, and pieces of the bit string.
module bits {
  import base.* from "./base"

  pure def andV(t: Ty, a: int, b: int): int = unpat(t, bitAnd(t.bits, pat(t, a), pat(t, b)))
  pure def orV(t: Ty, a: int, b: int): int =
    unpat(t, pat(t, a) + pat(t, b) - bitAnd(t.bits, pat(t, a), pat(t, b)))
  pure def xorV(t: Ty, a: int, b: int): int =
    unpat(t, pat(t, a) + pat(t, b) - 2 * bitAnd(t.bits, pat(t, a), pat(t, b)))
  pure def notV(t: Ty, a: int): int = if (t.sg) -1 - a else hi(t) - a

  pure def leadingZeros(n: int, p: int): int = n - bitlen(p)
  pure def trailingZeros(n: int, p: int): int =
    if (p == 0) n else
      [512, 256, 128, 64, 32, 16, 8, 4, 2, 1].foldl({ n: 0, p: p }, (st, k) =>
        if (st.p % 2^k == 0) { n: st.n + k, p: st.p / 2^k } else st).n
  pure def flip(n: int, p: int): int = 2^n - 1 - p

  pure val REV4: List[int] = [0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15]
  pure def reverseBits(n: int, p: int): int =
    digits(n / 4, 16, p).foldl(0, (acc, d) => acc * 16 + REV4[d])
  pure def swapBytes(n: int, p: int): int =
    digits(n / 8, 256, p).foldl(0, (acc, d) => acc * 256 + d)

  /// The i-th piece of w bits, counted from the least significant end.
  pure def piece(t: Ty, a: int, w: int, i: int): Out =
    if (i < t.bits / w) ret((pat(t, a) / 2^(w * i)) % 2^w) else Panic
  pure def top(t: Ty, a: int, w: int): Out = ret(fdiv(a, 2^(t.bits - w)))

  pure def observe(t: Ty, a: int, b: int, i: int): List[Obs] = {
    val n = t.bits
    val p = pat(t, a)
    val c = andV(t, a, b)
    val o = unpat(t, p + pat(t, b) - pat(t, c))
    val x = unpat(t, p + pat(t, b) - 2 * pat(t, c))
    [
      ("const", "and", ret(c)), ("const", "or", ret(o)), ("const", "xor", ret(x)), ("const", "not", ret(notV(t, a))),
      ("op", "and", ret(c)), ("op", "or", ret(o)), ("op", "xor", ret(x)), ("op", "not", ret(notV(t, a))),
      ("op_ref", "and", ret(c)), ("op_ref", "or", ret(o)), ("op_ref", "xor", ret(x)), ("op_ref", "not", ret(notV(t, a))),
      ("op_assign", "and", ret(c)), ("op_assign", "or", ret(o)), ("op_assign", "xor", ret(x)),
      ("op_assign_ref", "and", ret(c)), ("op_assign_ref", "or", ret(o)), ("op_assign_ref", "xor", ret(x)),
      ("plain", "count_ones", ret(popcount(n, p))),
      ("plain", "count_zeros", ret(n - popcount(n, p))),
      ("plain", "leading_zeros", ret(leadingZeros(n, p))),
      ("plain", "leading_ones", ret(leadingZeros(n, flip(n, p)))),
      ("plain", "trailing_zeros", ret(trailingZeros(n, p))),
      ("plain", "trailing_ones", ret(trailingZeros(n, flip(n, p)))),
      ("plain", "reverse_bits", ret(unpat(t, reverseBits(n, p)))),
      ("plain", "swap_bytes", ret(unpat(t, swapBytes(n, p)))),
      ("plain", "is_even", retB(p % 2 == 0)),
      ("plain", "is_odd", retB(p % 2 == 1)),
      ("at@64", "limb", piece(t, a, 64, i)), ("at@32", "limb", piece(t, a, 32, i)),
      ("at@64", "wide", piece(t, a, 128, i)), ("at@32", "wide", piece(t, a, 64, i)),
      ("plain@64", "least_significant_limb", piece(t, a, 64, 0)),
      ("plain@32", "least_significant_limb", piece(t, a, 32, 0)),
      ("plain@64", "most_significant_limb", top(t, a, 64)),
      ("plain@32", "most_significant_limb", top(t, a, 32))
    ].concat(if (t.sg)
      [("plain", "is_negative", retB(a < 0)), ("plain", "is_positive", retB(a > 0))]
    else
      [("plain", "low", ret(p % 2^(n / 2))), ("plain", "high", ret(p / 2^(n / 2)))])
  }

  var s: Step
  var acc: int

  pure def draw(prev: int, e: int): Step = {
    val t = pickTy(e)
    val k = (e / 40) % 16
    val a = if (k == 0) wrap(t, prev) else genVal(t, e / 2^10)
    val b = if (k < 10) genRel(t, a, e / 2^1350) else if (k == 10) notV(t, a) else genVal(t, e / 2^1350)
    val i = (e / 2^2650) % (t.bits / 32 + 2)
    { ty: t, args: [a, b, i], obs: observe(t, a, b, i) }
  }

  action init = all { s' = noStep, acc' = 0 }
  action step = {
    nondet e = 0.to(ENT).oneOf()
    val n = draw(acc, e)
    all { s' = n, acc' = xorV(n.ty, n.args[0], n.args[1]) }
  }

  val inv =
    length(s.args) == 0 or {
      val t = s.ty
      val n = t.bits
      val a = s.args[0]
      val b = s.args[1]
      val p = pat(t, a)
      and {
        fits(t, a), fits(t, b),
        // de Morgan, and exclusive-or as difference of union and intersection
        orV(t, a, b) == notV(t, andV(t, notV(t, a), notV(t, b))),
        pat(t, orV(t, a, b)) == pat(t, andV(t, a, b)) + pat(t, xorV(t, a, b)),
        xorV(t, xorV(t, a, b), b) == a,
        notV(t, notV(t, a)) == a,
        popcount(n, p) + popcount(n, flip(n, p)) == n,
        reverseBits(n, reverseBits(n, p)) == p,
        swapBytes(n, swapBytes(n, p)) == p,
        trailingZeros(n, p) == leadingZeros(n, reverseBits(n, p)),
        popcount(n, reverseBits(n, p)) == popcount(n, p),
        p == 0 or bit(p, n - 1 - leadingZeros(n, p)) == 1,
        p == 0 or (bit(p, trailingZeros(n, p)) == 1 and p % 2^trailingZeros(n, p) == 0)
      }
    }
}
