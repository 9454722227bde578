// -*- mode: Bluespec; -*-
/// Long division, digit by digit: a model of how a quotient of numbers that do
/// not fit a machine word comes about, used for two purposes. Run with a small
/// base on all operands it establishes that the method is right (every
/// estimate is at most one too large after the corrections, and one addition
/// repairs it). Run with the real limb sizes it tells which of the rare cases a
/// pair of operands takes, so that operands can be chosen for every case at
/// every quotient digit, for every length of divisor.
module longdiv {
  import base.* from "./base"

  /// How the digit at one position came about.
  type Digit = {
    q: int,      // the digit
    est: int,    // its first estimate, from two digits by one
    fixes: int,  // how often the estimate was lowered by looking at one more digit
    top: bool,   // the estimate was the largest digit, without a division
    back: bool   // one too large even so: the divisor is added back
  }
  pure val noDigit: Digit = { q: 0, est: 0, fixes: 0, top: false, back: false }

  /// The digit of win / v for win < v*B, where v has n >= 2 digits in base B
  /// and its leading digit is at least B/2.
  pure def digit(B: int, n: int, v: int, win: int): Digit = {
    val p = B^(n - 2)
    val b0 = v / (p * B)
    val b1 = (v / p) % B
    val a0 = win / (p * B^2)
    val a1 = (win / (p * B)) % B
    val a2 = (win / p) % B
    val top = a0 >= b0
    val est = if (top) B - 1 else (a0 * B + a1) / b0
    val rem = a0 * B + a1 - est * b0
    // the estimate is too large when est * b1 exceeds what is left of it
    val low1 = not(top) and est * b1 > rem * B + a2
    val rem1 = rem + b0
    val low2 = low1 and rem1 < B and (est - 1) * b1 > rem1 * B + a2
    val fixed = est - b2i(low1) - b2i(low2)
    val back = fixed * v > win
    { q: fixed - b2i(back), est: est, fixes: b2i(low1) + b2i(low2), top: top, back: back }
  }

  /// The factor that makes the leading digit of v at least B/2, for B a power
  /// of two.
  pure def norm(B: int, n: int, v: int): int = 2^(bitlen(B^n / 2) - bitlen(v))

  /// Quotient and remainder of u by v of n digits, and how each of the len
  /// quotient digits came about, most significant first.
  pure def divide(B: int, n: int, len: int, u: int, v: int): { q: int, r: int, ds: List[Digit] } = {
    val f = norm(B, n, v)
    val vn = v * f
    val un = u * f
    val res = range(0, len).foldl({ q: 0, r: un / B^len, ds: [] }, (st, i) => {
      val win = st.r * B + (un / B^(len - 1 - i)) % B
      val x = digit(B, n, vn, win)
      { q: st.q * B + x.q, r: win - x.q * vn, ds: st.ds.append(x) }
    })
    { q: res.q, r: res.r / f, ds: res.ds }
  }

  /// What the method promises about each digit and about the whole.
  pure def sound(B: int, n: int, len: int, u: int, v: int): bool = {
    val res = divide(B, n, len, u, v)
    and {
      res.q == u / v,
      res.r == u % v,
      range(0, len).foldl(true, (ok, i) => {
        val x = res.ds[i]
        ok and 0 <= x.q and x.q < B
          and x.est - x.q <= 2 and x.est - x.fixes - x.q == b2i(x.back)
          and (n > 2 or not(x.back) or x.top)
      })
    }
  }

  // ------------------------------------------- the method, on all small operands

  /// A case of the method: base, digits of the divisor, digits of the quotient.
  type Case = { base: int, n: int, len: int }
  /// With the number of divisors that have n digits.
  pure val CASES: List[(Case, int)] = [
    ({ base: 2, n: 2, len: 5 }, 2), ({ base: 2, n: 3, len: 4 }, 4), ({ base: 2, n: 4, len: 4 }, 8),
    ({ base: 2, n: 5, len: 3 }, 16), ({ base: 4, n: 2, len: 3 }, 12), ({ base: 4, n: 3, len: 2 }, 48),
    ({ base: 8, n: 2, len: 2 }, 56), ({ base: 16, n: 2, len: 1 }, 240), ({ base: 8, n: 3, len: 1 }, 448)
  ]

  /// The i-th divisor of the cases, in order.
  pure def divisorAt(i: int): { c: Case, v: int, left: int } =
    CASES.foldl({ c: CASES[0]._1, v: 0 - 1, left: i }, (st, x) =>
      if (st.v >= 0) st
      else if (st.left < x._2) { c: x._1, v: x._1.base^(x._1.n - 1) + st.left, left: 0 }
      else { c: st.c, v: 0 - 1, left: st.left - x._2 })

  /// With divisor v, every dividend whose quotient has at most len digits.
  pure def holds(c: Case, v: int): bool =
    0.to(v * c.base^c.len - 1).forall(u => sound(c.base, c.n, c.len, u, v))

  pure val SIZE: int = 834
  var at: int
  action from(k: int): bool = at' = k
  action init = from(0)
  action step = from(at + 1)
  val inv = at >= SIZE or holds(divisorAt(at).c, divisorAt(at).v)
}
