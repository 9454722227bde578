// -*- mode: Bluespec; -*-
/// Counting and turning limb by limb: a model of how the bits of numbers that
/// do not fit a machine word are counted and reversed. Run with small limbs on
/// all values it establishes that counting from an end may stop at the first
/// limb that is not all zeros, that counts of ones are counts of zeros of the
/// complement, that reversing bits or bytes means reversing the limbs and then
/// each limb, and that half the distance of two patterns makes the midpoint.
module counting {
  import base.* from "./base"

  /// Of one limb of w bits.
  pure def ones1(w: int, x: int): int = range(0, w).foldl(0, (a, i) => a + bit(x, i))
  pure def trail1(w: int, x: int): int = range(0, w).foldl({ n: 0, go: true }, (st, i) =>
    if (st.go and bit(x, i) == 0) { n: st.n + 1, go: true } else { ...st, go: false }).n
  pure def turn1(w: int, x: int): int = undigits(2, rev(digits(w, 2, x)))
  pure def lead1(w: int, x: int): int = trail1(w, turn1(w, x))

  /// Of a number, least significant limb first.
  pure def ones(w: int, xs: List[int]): int = xs.foldl(0, (a, x) => a + ones1(w, x))
  pure def trail(w: int, xs: List[int]): int = range(0, length(xs)).foldl(0, (c, i) =>
    // another limb counts only when all limbs so far counted in full
    if (c == i * w) c + trail1(w, xs[i]) else c)
  pure def lead(w: int, xs: List[int]): int = range(0, length(xs)).foldl(0, (c, i) =>
    if (c == i * w) c + lead1(w, xs[length(xs) - 1 - i]) else c)
  pure def flip(w: int, xs: List[int]): List[int] = xs.foldl([], (l, x) => l.append(2^w - 1 - x))
  pure def turn(w: int, xs: List[int]): List[int] = rev(xs).foldl([], (l, x) => l.append(turn1(w, x)))
  /// Reverses pieces of b bits, limbs being of w = k * b bits.
  pure def swap(w: int, b: int, xs: List[int]): List[int] =
    rev(xs).foldl([], (l, x) => l.append(undigits(2^b, rev(digits(w / b, 2^b, x)))))

  pure def both(w: int, xs: List[int], ys: List[int], f: (int, int) => int): List[int] =
    range(0, length(xs)).foldl([], (l, i) => l.append(undigits(2, range(0, w).foldl([], (m, j) => m.append(f(bit(xs[i], j), bit(ys[i], j)))))))

  pure def sound(w: int, n: int, x: int): bool = {
    val N = w * n
    val xs = digits(n, 2^w, x)
    val bits = digits(N, 2, x)
    val t = undigits(2^w, turn(w, xs))
    val hiBit = bitlen(x)
    val z = trail(w, xs)
    and {
      ones(w, xs) == bits.foldl(0, (a, d) => a + d),
      ones(w, xs) + ones(w, flip(w, xs)) == N,
      undigits(2^w, flip(w, xs)) == 2^N - 1 - x,
      lead(w, xs) == N - hiBit,
      // no greater power of two divides
      x % 2^z == 0 and (z == N or x % 2^(z + 1) != 0),
      lead(w, flip(w, xs)) == trail(w, flip(w, digits(n, 2^w, t))),
      t == undigits(2, rev(bits)),
      turn(w, turn(w, xs)) == xs,
      // parity of the number is that of the lowest limb
      (x % 2 == 1) == (xs[0] % 2 == 1),
      // a power of two has one bit, and taking one away turns what is below it
      (ones(w, xs) == 1) == (x > 0 and both(w, xs, digits(n, 2^w, umod(x - 1, 2^N)), (a, b) => a * b) == digits(n, 2^w, 0)),
      w % 2 == 0 implies and {
        undigits(2^w, swap(w, w / 2, xs)) == undigits(2^(w / 2), rev(digits(2 * n, 2^(w / 2), x))),
        swap(w, w / 2, swap(w, w / 2, xs)) == xs
      }
    }
  }
  pure def sound2(w: int, n: int, x: int, y: int): bool = {
    val N = w * n
    val xs = digits(n, 2^w, x)
    val ys = digits(n, 2^w, y)
    val a = undigits(2^w, both(w, xs, ys, (p, q) => p * q))
    val o = undigits(2^w, both(w, xs, ys, (p, q) => max(p, q)))
    val e = undigits(2^w, both(w, xs, ys, (p, q) => (p + q) % 2))
    val s: Ty = { bits: N, sg: true }
    and {
      a + o == x + y,
      o == a + e,
      e == undigits(2, range(0, N).foldl([], (m, j) => m.append((bit(x, j) + bit(y, j)) % 2))),
      a + e / 2 == (x + y) / 2,
      unpat(s, a) + fdiv(unpat(s, e), 2) == fdiv(unpat(s, x) + unpat(s, y), 2),
      o - e / 2 == (x + y + 1) / 2
    }
  }

  /// Bits of a limb, limbs, number of values, all right operands too.
  pure val CASES: List[(int, int, int)] = [
    (1, 1, 2), (1, 2, 4), (1, 4, 16), (2, 2, 16), (2, 3, 64), (3, 2, 64), (4, 2, 256), (2, 5, 1024), (3, 3, 512)
  ]
  pure def valueAt(i: int): { w: int, n: int, x: int, left: int } =
    CASES.foldl({ w: 1, n: 2, x: 0 - 1, left: i }, (st, k) =>
      if (st.x >= 0) st
      else if (st.left < k._3) { w: k._1, n: k._2, x: st.left, left: 0 }
      else { w: 1, n: 2, x: 0 - 1, left: st.left - k._3 })
  pure def holds(i: int): bool = {
    val k = valueAt(i)
    val m = 2^(k.w * k.n)
    sound(k.w, k.n, k.x) and
    (if (m <= 64) 0.to(m - 1) else Set(0, 1, m - 1, m / 2, k.x, m - 1 - k.x, (k.x * 37 + 11) % m)).forall(y => sound2(k.w, k.n, k.x, y))
  }

  pure val SIZE: int = 1958
  var at: int
  action from(k: int): bool = at' = k
  action init = from(0)
  action step = from(at + 1)
  val inv = at >= SIZE or holds(at)
}
