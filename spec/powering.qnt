// -*- mode: Bluespec; -*-
/// Powers by squaring, and logarithms by a lower bound: models of how powers
/// and logarithms of numbers that do not fit a machine word come about. Run at
/// small widths on all operands they establish that a power is too large
/// exactly when one of the products on the way is, although squares are formed
/// before it is known what they are for, and that the search for a logarithm
/// starts low enough, multiplies few times and never overflows.
module powering {
  import base.* from "./base"

  type Way = {
    acc: int,      // product of the squares taken so far
    sq: int,       // x to the 2^i
    n: int,        // what is left of the exponent
    acc_up: bool,  // a product with a square did not fit
    sq_up: bool,   // a square did not fit
    done: bool
  }
  pure def turn(t: Ty, w: Way): Way =
    if (w.done) w
    else {
      val p = if (w.n % 2 == 1) w.acc * w.sq else w.acc
      val up = w.acc_up or not(fits(t, p))
      if (w.n == 1) { ...w, acc: wrap(t, p), acc_up: up, n: 0, done: true }
      else {
        acc: wrap(t, p), sq: wrap(t, w.sq * w.sq), n: w.n / 2, acc_up: up,
        sq_up: w.sq_up or not(fits(t, w.sq * w.sq)), done: false
      }
    }
  pure def power(t: Ty, x: int, n: int): Way =
    range(0, 32).foldl({ acc: 1, sq: x, n: n, acc_up: false, sq_up: false, done: n == 0 }, (w, i) => turn(t, w))

  /// How a power grows too large: a square already does, or only the last
  /// product of squares.
  pure def cause(w: Way): str = if (w.sq_up) "square" else if (w.acc_up) "product" else "fits"

  /// The search for a logarithm: the exponent to start from, its power, and how
  /// often the power is multiplied.
  type Search = { n: int, r: int, turns: int }
  pure def search(t: Ty, x: int, b: int): Search = {
    val n = (bitlen(x) - 1) / bitlen(b)
    range(0, 2 * t.bits).foldl({ n: n, r: power(t, b, n).acc, turns: 0 }, (s, i) =>
      if (s.r > x / b) s else { n: s.n + 1, r: s.r * b, turns: s.turns + 1 })
  }

  pure def sound(t: Ty, x: int, n: int): bool = {
    val w = power(t, x, n)
    val exact = if (n == 0) 1 else x^n
    and {
      w.done,
      w.acc == wrap(t, exact),
      (w.acc_up or w.sq_up) == not(fits(t, exact))
    }
  }
  pure def soundLog(t: Ty, x: int, b: int): bool =
    x < 1 or b < 2 or x < b or {
      val s = search(t, x, b)
      and {
        cause(power(t, b, (bitlen(x) - 1) / bitlen(b))) == "fits",
        b^s.n <= x and x < b^(s.n + 1),
        s.r == b^s.n,
        fits(t, s.r),
        // few turns: at most one for each bit lost in the estimate
        s.turns <= bitlen(x) / bitlen(b) + 1
      }
    }

  /// Widths, signedness, number of values.
  pure val CASES: List[(int, bool, int)] = [
    (1, false, 2), (2, false, 4), (3, false, 8), (4, false, 16), (5, false, 32), (6, false, 64), (7, false, 128), (8, false, 256),
    (2, true, 4), (3, true, 8), (4, true, 16), (5, true, 32), (6, true, 64), (7, true, 128), (8, true, 256)
  ]
  pure def leftAt(i: int): { bits: int, sg: bool, p: int, left: int } =
    CASES.foldl({ bits: 1, sg: false, p: 0 - 1, left: i }, (st, k) =>
      if (st.p >= 0) st
      else if (st.left < k._3) { bits: k._1, sg: k._2, p: st.left, left: 0 }
      else { bits: 1, sg: false, p: 0 - 1, left: st.left - k._3 })
  pure def holds(i: int): bool = {
    val k = leftAt(i)
    val t: Ty = { bits: k.bits, sg: k.sg }
    val x = unpat(t, k.p)
    and {
      0.to(2 * k.bits + 3).forall(n => sound(t, x, n)),
      2.to(hi(t)).forall(b => soundLog(t, x, b))
    }
  }

  pure val SIZE: int = 1018
  var at: int
  action from(k: int): bool = at' = k
  action init = from(0)
  action step = from(at + 1)
  val inv = at >= SIZE or holds(at)
}
