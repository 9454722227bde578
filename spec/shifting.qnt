// -*- mode: Bluespec; -*-
/// Shifting limb by limb: a model of how numbers that do not fit a machine word
/// are shifted and rotated, by whole limbs first and then by bits that pass
/// from each limb to its neighbour. Run with small limbs on all values and all
/// distances it establishes that the bits end where they should, that a
/// distance of whole limbs needs no passing on, and that the limbs left free
/// are those to be filled with zeros or with the sign.
module shifting {
  import base.* from "./base"

  /// Limbs of w bits, least significant first.
  pure def left(w: int, xs: List[int], d: int): List[int] = {
    val B = 2^w
    val n = length(xs)
    val k = d / w
    val b = d % w
    range(0, n).foldl({ l: [], c: 0 }, (st, i) =>
      if (i < k) { l: st.l.append(0), c: 0 }
      else {
        val v = xs[i - k] * 2^b
        { l: st.l.append(v % B + st.c), c: if (b == 0) 0 else xs[i - k] / 2^(w - b) }
      }).l
  }
  pure def right(w: int, xs: List[int], d: int, sg: bool): List[int] = {
    val B = 2^w
    val n = length(xs)
    val k = d / w
    val b = d % w
    val neg = sg and xs[n - 1] >= B / 2
    val fill = if (neg) B - 1 else 0
    // from the top down; the highest limb takes the sign from above
    rev(range(0, n).foldl({ l: [], c: if (neg and b > 0) B - 2^(w - b) else 0 }, (st, j) => {
      val i = n - 1 - j
      if (i + k >= n) { l: st.l.append(fill), c: st.c }
      else {
        val x = xs[i + k]
        { l: st.l.append(x / 2^b + st.c), c: if (b == 0) 0 else (x * 2^(w - b)) % B }
      }
    }).l)
  }
  /// The limbs that go out at one end come in at the other.
  pure def rotated(w: int, xs: List[int], d: int): List[int] = {
    val n = length(xs)
    val B = 2^w
    val k = d / w
    val b = d % w
    range(0, n).foldl([], (l, i) => {
      val here = xs[umod(i - k, n)]
      val below = xs[umod(i - k - 1, n)]
      l.append((here * 2^b) % B + (if (b == 0) 0 else below / 2^(w - b)))
    })
  }

  pure def sound(w: int, n: int, x: int, d: int): bool = {
    val m = 2^(w * n)
    val xs = digits(n, 2^w, x)
    val t: Ty = { bits: w * n, sg: true }
    val r = undigits(2^w, rotated(w, xs, d))
    and {
      undigits(2^w, left(w, xs, d)) == (x * 2^d) % m,
      undigits(2^w, right(w, xs, d, false)) == x / 2^d,
      unpat(t, undigits(2^w, right(w, xs, d, true))) == fdiv(unpat(t, x), 2^d),
      r == (x * 2^d) % m + x / 2^(w * n - d),
      undigits(2^w, rotated(w, digits(n, 2^w, r), (w * n - d) % (w * n))) == x
    }
  }

  /// Bits of a limb, limbs, number of values.
  pure val CASES: List[(int, int, int)] = [
    (1, 2, 4), (1, 3, 8), (1, 5, 32), (1, 8, 256), (2, 2, 16), (2, 3, 64), (2, 4, 256), (2, 5, 1024), (3, 2, 64), (3, 3, 512),
    (4, 2, 256), (5, 2, 1024)
  ]
  pure def valueAt(i: int): { w: int, n: int, x: int, left: int } =
    CASES.foldl({ w: 1, n: 2, x: 0 - 1, left: i }, (st, k) =>
      if (st.x >= 0) st
      else if (st.left < k._3) { w: k._1, n: k._2, x: st.left, left: 0 }
      else { w: 1, n: 2, x: 0 - 1, left: st.left - k._3 })
  pure def holds(i: int): bool = {
    val k = valueAt(i)
    0.to(k.w * k.n - 1).forall(d => sound(k.w, k.n, k.x, d))
  }

  pure val SIZE: int = 3516
  var at: int
  action from(k: int): bool = at' = k
  action init = from(0)
  action step = from(at + 1)
  val inv = at >= SIZE or holds(at)
}
