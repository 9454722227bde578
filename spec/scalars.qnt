// -*- mode: Bluespec; -*-
/// Arithmetic with one limb: a model of how a number that does not fit a
/// machine word and one limb, with or without sign, are combined without
/// bringing the limb to the full width. Run with small limbs on all operands it
/// establishes that the limb may be added at the bottom with its sign standing
/// for all limbs above, that the carry out tells overflow without sign and the
/// signs tell it otherwise, that each step of a division by a limb yields one
/// digit, and how quotient and remainder of magnitudes are turned into those of
/// signed numbers.
module scalars {
  import base.* from "./base"

  /// Limbs of a result, least significant first, and what comes out at the top.
  type Run = { l: List[int], c: int }
  pure def value(B: int, r: Run): int = undigits(B, r.l)
  /// Adds a limb at the bottom; s stands in all limbs above.
  pure def plus(B: int, xs: List[int], y: int, s: int): Run =
    range(0, length(xs)).foldl({ l: [], c: 0 }, (st, i) => {
      val v = xs[i] + (if (i == 0) y else s) + st.c
      { l: st.l.append(v % B), c: v / B }
    })
  pure def minus(B: int, xs: List[int], y: int, s: int): Run =
    range(0, length(xs)).foldl({ l: [], c: 0 }, (st, i) => {
      val v = xs[i] - (if (i == 0) y else s) - st.c
      { l: st.l.append(umod(v, B)), c: b2i(v < 0) }
    })
  pure def times(B: int, xs: List[int], y: int): Run =
    range(0, length(xs)).foldl({ l: [], c: 0 }, (st, i) => {
      val v = xs[i] * y + st.c
      { l: st.l.append(v % B), c: v / B }
    })
  /// From the top; ok: each step of two limbs by one gave a single digit.
  type Quo = { q: List[int], r: int, ok: bool }
  pure def over(B: int, xs: List[int], y: int): Quo = {
    val n = length(xs)
    val r = range(0, n).foldl({ q: [], r: 0, ok: true }, (st, j) => {
      val v = st.r * B + xs[n - 1 - j]
      { q: st.q.append(v / y), r: v % y, ok: st.ok and v / y < B }
    })
    { ...r, q: rev(r.q) }
  }

  pure def sound(w: int, n: int, x: int, y: int): bool = {
    val B = 2^w
    val m = B^n
    val xs = digits(n, B, x)
    val u: Ty = { bits: w * n, sg: false }
    val s: Ty = { bits: w * n, sg: true }
    val one: Ty = { bits: w, sg: true }
    // both readings of number and limb
    val sx = unpat(s, x)
    val sy = unpat(one, y)
    val fill = if (sy < 0) B - 1 else 0
    val p = plus(B, xs, y, 0)
    val d = minus(B, xs, y, 0)
    val k = times(B, xs, y)
    val ps = plus(B, xs, y, fill)
    val ds = minus(B, xs, y, fill)
    val sv = unpat(s, value(B, p))
    val dv = unpat(s, value(B, d))
    val psv = unpat(s, value(B, ps))
    val dsv = unpat(s, value(B, ds))
    // by magnitudes
    val mx = digits(n, B, umod(abs(sx), m))
    val ks = times(B, mx, y)
    and {
      value(B, p) == (x + y) % m and (p.c == 1) == (x + y >= m),
      value(B, d) == umod(x - y, m) and (d.c == 1) == (x < y),
      value(B, k) == (x * y) % m and (k.c > 0) == (x * y >= m),
      // a number with sign and a limb without: only upwards can be too far
      sv == wrap(s, sx + y) and (sx >= 0 and sv < 0) == not(fits(s, sx + y)) or n == 1,
      dv == wrap(s, sx - y) and (sx < 0 and dv >= 0) == not(fits(s, sx - y)) or n == 1,
      // both with sign
      psv == wrap(s, sx + sy) and ((sx < 0) == (sy < 0) and (psv < 0) != (sx < 0)) == not(fits(s, sx + sy)),
      dsv == wrap(s, sx - sy) and ((sx < 0) != (sy < 0) and (dsv < 0) != (sx < 0)) == not(fits(s, sx - sy)),
      // products of magnitudes: too far beyond the greatest, or beyond the least
      unpat(s, umod(if (sx < 0) -value(B, ks) else value(B, ks), m)) == wrap(s, sx * y),
      (ks.c > 0 or value(B, ks) > hi(s) + b2i(sx < 0)) == not(fits(s, sx * y)),
      y > 0 implies {
        val q = over(B, xs, y)
        val v = undigits(B, q.q)
        val qm = over(B, mx, y)
        val vm = undigits(B, qm.q)
        and {
          q.ok and qm.ok,
          q.r < y and v * y + q.r == x,
          // rounded down, so that the remainder stays that of a limb without sign
          if (sx < 0 and qm.r != 0) (-vm - 1) * y + (y - qm.r) == sx and fits(s, -vm - 1)
          else (if (sx < 0) -vm else vm) * y + qm.r == sx
        }
      },
      sy != 0 implies {
        val qm = over(B, mx, abs(sy))
        val vm = undigits(B, qm.q)
        val q = if ((sx < 0) != (sy < 0)) -vm else vm
        val r = if (sx < 0) -qm.r else qm.r
        and {
          qm.ok,
          q == tdiv(sx, sy) and r == trem(sx, sy),
          fits(one, r),
          fits(s, q) == not(sx == lo(s) and sy == -1)
        }
      }
    }
  }

  /// Bits of a limb, limbs, number of left operands; all limbs on the right.
  pure val CASES: List[(int, int, int)] = [
    (1, 2, 4), (1, 3, 8), (1, 4, 16), (2, 2, 16), (2, 3, 64), (2, 4, 256), (3, 2, 64), (3, 3, 512), (4, 2, 256)
  ]
  pure def leftAt(i: int): { w: int, n: int, x: int, left: int } =
    CASES.foldl({ w: 1, n: 2, x: 0 - 1, left: i }, (st, k) =>
      if (st.x >= 0) st
      else if (st.left < k._3) { w: k._1, n: k._2, x: st.left, left: 0 }
      else { w: 1, n: 2, x: 0 - 1, left: st.left - k._3 })
  pure def holds(i: int): bool = {
    val k = leftAt(i)
    0.to(2^k.w - 1).forall(y => sound(k.w, k.n, k.x, y))
  }

  pure val SIZE: int = 1196
  var at: int
  action from(k: int): bool = at' = k
  action init = from(0)
  action step = from(at + 1)
  val inv = at >= SIZE or holds(at)
}
