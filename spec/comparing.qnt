// -*- mode: Bluespec; -*-
/// Comparing limb by limb: a model of how numbers that do not fit a machine
/// word are put in order, from the top limb down until two limbs differ. Run
/// with small limbs on all pairs it establishes that only the top limb carries
/// the sign, that an order with equality needs the equality at the lowest limb
/// only, that the first difference decides whatever is below it, that limbs of
/// twice the size decide alike, and that the order is the borrow of the
/// difference.
module comparing {
  import base.* from "./base"

  pure def order(x: int, y: int): int = if (x < y) -1 else if (x > y) 1 else 0
  /// What limb i of a number of n limbs of w bits stands for in a comparison.
  pure def limb(w: int, xs: List[int], i: int, sg: bool): int =
    if (sg and i == length(xs) - 1) unpat({ bits: w, sg: true }, xs[i]) else xs[i]

  /// The order, and how many limbs had to be looked at.
  type Walk = { o: int, seen: int }
  pure def three(w: int, xs: List[int], ys: List[int], sg: bool): Walk = {
    val n = length(xs)
    range(0, n).foldl({ o: 0, seen: 0 }, (st, j) =>
      if (st.o != 0) st
      else { o: order(limb(w, xs, n - 1 - j, sg), limb(w, ys, n - 1 - j, sg)), seen: j + 1 })
  }
  /// Two answers only: below, with or without equality. The answer of a limb
  /// stands when it is yes or when the limbs differ.
  pure def two(w: int, xs: List[int], ys: List[int], sg: bool, equal: bool): bool = {
    val n = length(xs)
    range(0, n).foldl({ yes: false, go: true }, (st, j) =>
      if (st.yes or not(st.go)) st
      else {
        val i = n - 1 - j
        val x = limb(w, xs, i, sg)
        val y = limb(w, ys, i, sg)
        { yes: if (i == 0 and equal) x <= y else x < y, go: x == y }
      }).yes
  }
  /// Equality looks at all limbs, in any order.
  pure def same(xs: List[int], ys: List[int]): bool = xs.indices().forall(i => xs[i] == ys[i])
  /// The borrow that comes out at the top of a difference.
  pure def borrow(w: int, xs: List[int], ys: List[int]): bool =
    range(0, length(xs)).foldl(0, (b, i) => b2i(xs[i] - ys[i] - b < 0)) == 1
  /// The index of the highest limb at which two numbers differ, or -1.
  pure def apart(xs: List[int], ys: List[int]): int =
    range(0, length(xs)).foldl(0 - 1, (at, i) => if (xs[i] != ys[i]) i else at)

  pure def sound(w: int, n: int, x: int, y: int, sg: bool): bool = {
    val t: Ty = { bits: w * n, sg: sg }
    val xs = digits(n, 2^w, x)
    val ys = digits(n, 2^w, y)
    val o = order(unpat(t, x), unpat(t, y))
    val d = apart(xs, ys)
    val r = three(w, xs, ys, sg)
    and {
      r.o == o,
      r.seen == (if (d < 0) n else n - d),
      three(w, ys, xs, sg).o == -o,
      two(w, xs, ys, sg, false) == (o < 0),
      two(w, xs, ys, sg, true) == (o <= 0),
      same(xs, ys) == (o == 0),
      // what lies below the first difference does not matter
      d >= 0 implies three(w, range(0, n).foldl([], (l, i) => l.append(if (i < d) 2^w - 1 - xs[i] else xs[i])), ys, sg).o == o,
      // without sign the order is a borrow; with it, once the sign bits are turned over
      if (sg) borrow(w, digits(n, 2^w, (x + 2^(w * n - 1)) % 2^(w * n)), digits(n, 2^w, (y + 2^(w * n - 1)) % 2^(w * n))) == (o < 0)
      else borrow(w, xs, ys) == (o < 0),
      n % 2 == 0 implies and {
        three(2 * w, digits(n / 2, 2^(2 * w), x), digits(n / 2, 2^(2 * w), y), sg).o == o,
        two(2 * w, digits(n / 2, 2^(2 * w), x), digits(n / 2, 2^(2 * w), y), sg, true) == (o <= 0)
      }
    }
  }

  /// Bits of a limb, limbs, number of left operands.
  pure val CASES: List[(int, int, int)] = [
    (1, 1, 2), (1, 2, 4), (1, 3, 8), (1, 4, 16), (1, 5, 32), (1, 6, 64), (2, 1, 4), (2, 2, 16), (2, 3, 64), (3, 2, 64), (4, 1, 16)
  ]
  pure def leftAt(i: int): { w: int, n: int, x: int, left: int } =
    CASES.foldl({ w: 1, n: 2, x: 0 - 1, left: i }, (st, k) =>
      if (st.x >= 0) st
      else if (st.left < k._3) { w: k._1, n: k._2, x: st.left, left: 0 }
      else { w: 1, n: 2, x: 0 - 1, left: st.left - k._3 })
  pure def holds(i: int): bool = {
    val k = leftAt(i)
    0.to(2^(k.w * k.n) - 1).forall(y => sound(k.w, k.n, k.x, y, false) and sound(k.w, k.n, k.x, y, true))
  }

  pure val SIZE: int = 290
  var at: int
  action from(k: int): bool = at' = k
  action init = from(0)
  action step = from(at + 1)
  val inv = at >= SIZE or holds(at)
}
