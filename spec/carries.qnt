// -*- mode: Bluespec; -*-
/// Addition and subtraction digit by digit: a model of how carries and borrows
/// run through numbers that do not fit a machine word. Run with small bases on
/// all operands it establishes that a carry arrives at a digit exactly when
/// some lower digit makes one and all digits between pass it on. With the real
/// limb sizes, operands are chosen for every such run of digits.
module carries {
  import base.* from "./base"

  /// What a digit does to the carry (or the borrow) that comes in.
  type Link = Stop | Pass | Make
  pure def sumLink(B: int, x: int, y: int): Link = if (x + y >= B) Make else if (x + y == B - 1) Pass else Stop
  pure def difLink(B: int, x: int, y: int): Link = if (x < y) Make else if (x == y) Pass else Stop

  /// The digits of a result, least significant first, and what goes into each
  /// digit; the last entry of cs comes out at the top.
  type Run = { r: List[int], cs: List[int] }
  pure def sum(B: int, xs: List[int], ys: List[int], c: int): Run =
    range(0, length(xs)).foldl({ r: [], cs: [c] }, (st, i) => {
      // in two steps, of which at most one carries
      val v = (xs[i] + ys[i]) % B
      val c0 = b2i(xs[i] + ys[i] >= B)
      val c1 = b2i(v + st.cs[i] >= B)
      { r: st.r.append((v + st.cs[i]) % B), cs: st.cs.append(max(c0, c1)) }
    })
  pure def dif(B: int, xs: List[int], ys: List[int], c: int): Run =
    range(0, length(xs)).foldl({ r: [], cs: [c] }, (st, i) => {
      val v = (xs[i] - ys[i] + B) % B
      val b0 = b2i(xs[i] < ys[i])
      val b1 = b2i(v < st.cs[i])
      { r: st.r.append((v - st.cs[i] + B) % B), cs: st.cs.append(max(b0, b1)) }
    })

  /// A carry goes into digit i when some digit below makes one, or one came in
  /// at the bottom, and everything between passes it on.
  pure def arrives(links: List[Link], c: int, i: int): bool =
    range(0, i).foldl(c == 1, (at, j) => match links[j] {
      | Make => true
      | Pass => at
      | Stop => false
    })

  pure def sound(B: int, n: int, x: int, y: int, c: int): bool = {
    val m = B^n
    val xs = digits(n, B, x)
    val ys = digits(n, B, y)
    val p = sum(B, xs, ys, c)
    val d = dif(B, xs, ys, c)
    val pl = range(0, n).foldl([], (l, i) => l.append(sumLink(B, xs[i], ys[i])))
    val dl = range(0, n).foldl([], (l, i) => l.append(difLink(B, xs[i], ys[i])))
    and {
      undigits(B, p.r) == (x + y + c) % m,
      p.cs[n] == b2i(x + y + c >= m),
      undigits(B, d.r) == (x - y - c + 2 * m) % m,
      d.cs[n] == b2i(x < y + c),
      0.to(n).forall(i => (p.cs[i] == 1) == arrives(pl, c, i) and (d.cs[i] == 1) == arrives(dl, c, i)),
      // what overflows as signed: operands of one sign, a result of the other
      B % 2 == 0 implies {
        val t: Ty = { bits: bitlen(m) - 1, sg: true }
        val sx = x >= m / 2
        val sy = y >= m / 2
        and {
          fits(t, unpat(t, x) + unpat(t, y) + c) == not(sx == sy and (undigits(B, p.r) >= m / 2) != sx),
          fits(t, unpat(t, x) - unpat(t, y) - c) == not(sx != sy and (undigits(B, d.r) >= m / 2) != sx)
        }
      }
    }
  }

  /// Bases and lengths, with the number of left operands.
  pure val CASES: List[(int, int, int)] = [
    (2, 1, 2), (2, 2, 4), (2, 3, 8), (2, 4, 16), (2, 5, 32), (3, 1, 3), (3, 2, 9), (3, 3, 27),
    (4, 1, 4), (4, 2, 16), (4, 3, 64), (5, 2, 25), (8, 2, 64), (16, 1, 16)
  ]
  pure def leftAt(i: int): { B: int, n: int, x: int, left: int } =
    CASES.foldl({ B: 2, n: 1, x: 0 - 1, left: i }, (st, k) =>
      if (st.x >= 0) st
      else if (st.left < k._3) { B: k._1, n: k._2, x: st.left, left: 0 }
      else { B: 2, n: 1, x: 0 - 1, left: st.left - k._3 })
  pure def holds(i: int): bool = {
    val k = leftAt(i)
    0.to(k.B^k.n - 1).forall(y => sound(k.B, k.n, k.x, y, 0) and sound(k.B, k.n, k.x, y, 1))
  }

  pure val SIZE: int = 290
  var at: int
  action from(k: int): bool = at' = k
  action init = from(0)
  action step = from(at + 1)
  val inv = at >= SIZE or holds(at)
}
