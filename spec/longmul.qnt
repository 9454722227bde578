// -*- mode: Bluespec; -*-
/// Long multiplication, cell by cell: a model of how a product of numbers that
/// do not fit a machine word comes about, cut off at the width of the left
/// factor. Run with small bases on all operands it establishes that no cell
/// outgrows two digits, that the digits are those of the product, and that a
/// product is too large exactly when either two nonzero digits meet above the
/// top or a carry leaves it. With the real limb sizes, factors are chosen for
/// every cell and for both ways of growing too large.
module longmul {
  import base.* from "./base"

  type Prod = {
    r: List[int],   // the digits that are kept
    beyond: bool,   // nonzero digits met above the top
    spill: bool,    // a carry left the top
    most: int       // the largest content of a cell on the way
  }
  /// One row: digit xi at place i times all digits of y.
  pure def row(B: int, xi: int, i: int, ys: List[int], st: Prod): Prod = {
    val m = length(st.r)
    val z = range(0, length(ys)).foldl({ p: st, c: 0 }, (w, j) =>
      if (i + j < m) {
        val v = w.p.r[i + j] + xi * ys[j] + w.c
        { p: { ...w.p, r: w.p.r.replaceAt(i + j, v % B), most: max(w.p.most, v) }, c: v / B }
      }
      else { p: { ...w.p, beyond: w.p.beyond or (xi != 0 and ys[j] != 0) }, c: w.c })
    // the carry of a row goes to the next place, which no row has used yet
    if (i + length(ys) < m) { ...z.p, r: z.p.r.replaceAt(i + length(ys), z.c) }
    else { ...z.p, spill: z.p.spill or z.c > 0 }
  }
  pure def multiply(B: int, xs: List[int], ys: List[int]): Prod =
    range(0, length(xs)).foldl(
      { r: xs.foldl([], (l, x) => l.append(0)), beyond: false, spill: false, most: 0 },
      (st, i) => row(B, xs[i], i, ys, st))

  /// Number of digits without leading zeros.
  pure def len(B: int, k: int, x: int): int = 1.to(k).filter(i => x >= B^(i - 1)).size()

  /// Whether a product is kept, or why not, without multiplying digits.
  pure def cause(B: int, k: int, x: int, y: int): str =
    if (x * y < B^k) "fits" else if (len(B, k, x) + len(B, k, y) > k + 1) "beyond" else "spill"

  pure def sound(B: int, m: int, n: int, x: int, y: int): bool = {
    val p = multiply(B, digits(m, B, x), digits(n, B, y))
    and {
      p.most < B^2,
      undigits(B, p.r) == (x * y) % B^m,
      (p.beyond or p.spill) == (x * y >= B^m),
      p.beyond == (cause(B, m, x, y) == "beyond"),
      cause(B, m, x, y) == "spill" implies p.spill
    }
  }

  /// Base, digits of the left and of the right factor; number of left factors.
  pure val CASES: List[(int, int, int, int)] = [
    (2, 1, 1, 2), (2, 2, 1, 4), (2, 2, 2, 4), (2, 3, 2, 8), (2, 3, 3, 8), (2, 4, 2, 16), (2, 4, 4, 16), (2, 5, 3, 32),
    (2, 5, 5, 32), (3, 2, 1, 9), (3, 2, 2, 9), (3, 3, 2, 27), (3, 3, 3, 27), (4, 2, 1, 16), (4, 2, 2, 16), (4, 3, 1, 64),
    (4, 3, 2, 64), (4, 3, 3, 64), (8, 2, 2, 64), (16, 1, 1, 16), (2, 6, 6, 64), (3, 4, 2, 81)
  ]
  pure def leftAt(i: int): { B: int, m: int, n: int, x: int, left: int } =
    CASES.foldl({ B: 2, m: 1, n: 1, x: 0 - 1, left: i }, (st, k) =>
      if (st.x >= 0) st
      else if (st.left < k._4) { B: k._1, m: k._2, n: k._3, x: st.left, left: 0 }
      else { B: 2, m: 1, n: 1, x: 0 - 1, left: st.left - k._4 })
  pure def holds(i: int): bool = {
    val k = leftAt(i)
    0.to(k.B^k.n - 1).forall(y => sound(k.B, k.m, k.n, k.x, y))
  }

  pure val SIZE: int = 643
  var at: int
  action from(k: int): bool = at' = k
  action init = from(0)
  action step = from(at + 1)
  val inv = at >= SIZE or holds(at)
}
