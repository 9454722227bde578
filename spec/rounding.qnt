// -*- mode: Bluespec; -*-
/// Rounding of quotients: a model of how the quotients of all rounding modes
/// are got from one division of magnitudes. Run at small widths on all pairs it
/// establishes the corrections: by one, against or with the sign of the
/// divisor, exactly when the truncated remainder is not zero and has the sign
/// that the mode does not allow. It also establishes where a mode can leave
/// the range: only for the least value by minus one.
module rounding {
  import base.* from "./base"

  type QR = { q: int, r: int }
  /// Magnitudes divided, signs put back.
  pure def truncated(x: int, y: int): QR = {
    val q = abs(x) / abs(y)
    val r = abs(x) % abs(y)
    { q: if ((x < 0) != (y < 0)) -q else q, r: if (x < 0) -r else r }
  }
  pure def euclidean(x: int, y: int): QR = {
    val t = truncated(x, y)
    if (t.r >= 0) t
    else if (y > 0) { q: t.q - 1, r: t.r + y }
    else { q: t.q + 1, r: t.r - y }
  }
  pure def floored(x: int, y: int): QR = {
    val t = truncated(x, y)
    if (t.r != 0 and (x < 0) != (y < 0)) { q: t.q - 1, r: t.r + y } else t
  }
  pure def ceiled(x: int, y: int): QR = {
    val t = truncated(x, y)
    if (t.r != 0 and (x < 0) == (y < 0)) { q: t.q + 1, r: t.r - y } else t
  }
  /// The multiple of y next to x, away from zero if y is positive.
  pure def nextMultiple(x: int, y: int): int = {
    val f = floored(x, y)
    if (f.r == 0) x else x + (y - f.r)
  }

  pure def sound(b: int, sg: bool, x: int, y: int): bool = {
    val t: Ty = { bits: b, sg: sg }
    val d = truncated(x, y)
    val e = euclidean(x, y)
    val f = floored(x, y)
    val c = ceiled(x, y)
    val m = nextMultiple(x, y)
    val least = sg and x == lo(t) and y == -1
    and {
      [d, e, f, c].indices().forall(i => [d, e, f, c][i].q * y + [d, e, f, c][i].r == x),
      abs(d.r) < abs(y) and (d.r == 0 or (d.r < 0) == (x < 0)),
      0 <= e.r and e.r < abs(y),
      f.r == 0 or (f.r < 0) == (y < 0), abs(f.r) < abs(y),
      c.r == 0 or (c.r < 0) != (y < 0), abs(c.r) < abs(y),
      // no integer lies between a rounded quotient and the true one
      if (y > 0) f.q * y <= x and x < (f.q + 1) * y and (c.q - 1) * y < x and x <= c.q * y
      else f.q * y >= x and x > (f.q + 1) * y and (c.q - 1) * y > x and x >= c.q * y,
      c.q - f.q == b2i(d.r != 0),
      // without sign floor, Euclid and truncation are one
      not(sg) implies d == e and d == f,
      y > 0 implies e == f,
      y < 0 implies e.q == c.q,
      // what leaves the range
      fits(t, d.q) == not(least), fits(t, e.q) == not(least), fits(t, f.q) == not(least), fits(t, c.q) == not(least),
      fits(t, d.r) and fits(t, e.r) and fits(t, f.r) and (not(sg) or fits(t, c.r)),
      // corrections made within the width do not lose anything
      t.sg implies wrap(t, wrap(t, d.q) + b2i(c != d)) == wrap(t, c.q),
      t.sg implies wrap(t, wrap(t, d.q) - b2i(f != d)) == wrap(t, f.q),
      // the next multiple
      m % abs(y) == 0 or umod(m, abs(y)) == 0,
      if (y > 0) m >= x and m - x < y else m <= x and x - m < -y,
      (umod(x, abs(y)) == 0) == (m == x)
    }
  }

  /// Widths with the number of dividends; every divisor but zero.
  pure val CASES: List[(int, bool, int)] = [
    (1, false, 2), (2, false, 4), (3, false, 8), (4, false, 16), (5, false, 32), (6, false, 64), (7, false, 128),
    (2, true, 4), (3, true, 8), (4, true, 16), (5, true, 32), (6, true, 64), (7, true, 128), (8, true, 256)
  ]
  pure def leftAt(i: int): { b: int, sg: bool, x: int, left: int } =
    CASES.foldl({ b: 0, sg: false, x: 0, left: i }, (st, k) =>
      if (st.b > 0) st
      else if (st.left < k._3) { b: k._1, sg: k._2, x: unpat({ bits: k._1, sg: k._2 }, st.left), left: 0 }
      else { b: 0, sg: false, x: 0, left: st.left - k._3 })
  pure def holds(i: int): bool = {
    val k = leftAt(i)
    val t: Ty = { bits: k.b, sg: k.sg }
    lo(t).to(hi(t)).forall(y => y == 0 or sound(k.b, k.sg, k.x, y))
  }

  pure val SIZE: int = 762
  var at: int
  action from(k: int): bool = at' = k
  action init = from(0)
  action step = from(at + 1)
  val inv = at >= SIZE or holds(at)
}
