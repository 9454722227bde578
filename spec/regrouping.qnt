// -*- mode: Bluespec; -*-
/// Regrouping of digits: a model of how one bit string is listed in pieces of
/// different sizes and in either order, lengthened and cut. Run at small widths
/// on all values it establishes that listing in small pieces does not depend on
/// the size of the pieces the value is kept in, that turning the order of the
/// pieces and turning each piece make the order of the smaller pieces turn,
/// that filling with the sign keeps the value, and that a value survives being
/// cut exactly when all that was cut off repeats the sign that is left.
module regrouping {
  import base.* from "./base"

  /// Digits of a bits regrouped into digits of b bits, one a multiple of the other.
  pure def split(a: int, b: int, l: List[int]): List[int] =
    l.foldl([], (acc, x) => acc.concat(digits(a / b, 2^b, x)))
  pure def join(a: int, b: int, l: List[int]): List[int] =
    range(0, length(l) / (b / a)).foldl([], (acc, i) => acc.append(undigits(2^a, l.slice(i * (b / a), (i + 1) * (b / a)))))
  pure def regroup(a: int, b: int, l: List[int]): List[int] = if (a >= b) split(a, b, l) else join(a, b, l)
  /// Turns the small pieces of a big one.
  pure def swapped(a: int, b: int, x: int): int = undigits(2^b, rev(digits(a / b, 2^b, x)))

  pure def sound(n: int, k: int, x: int): bool = {
    // kept in pieces of k bits
    val own = digits(n / k, 2^k, x)
    and {
      Set(1, 2, 4, 8).filter(b => n % b == 0).forall(b => {
        val l = regroup(k, b, own)
        and {
          l == digits(n / b, 2^b, x),
          regroup(b, k, l) == own,
          undigits(2^b, l) == x,
          // big end first is the list turned, whatever the pieces it came from
          rev(l) == digits(n / b, 2^b, undigits(2^b, rev(l))),
          b <= k implies rev(l) == regroup(k, b, rev(own).foldl([], (acc, d) => acc.append(swapped(k, b, d)))),
          b <= k implies regroup(b, k, rev(l)) == rev(own).foldl([], (acc, d) => acc.append(swapped(k, b, d)))
        }
      })
    }
  }

  /// To a wider or narrower type: piece by piece, filled with zeros or the sign.
  pure def resized(k: int, l: List[int], n: int, sg: bool): List[int] = {
    val fill = if (sg and l[length(l) - 1] >= 2^(k - 1)) 2^k - 1 else 0
    range(0, n).foldl([], (acc, i) => acc.append(if (i < length(l)) l[i] else fill))
  }
  /// A cut value may be taken for the whole: what is cut off is all fill.
  pure def survives(k: int, l: List[int], n: int, s0: bool, s1: bool): bool = {
    val top = l[length(l) - 1] >= 2^(k - 1)
    val left = l[n - 1] >= 2^(k - 1)
    if (s0 and top) s1 and left and range(n, length(l)).foldl(true, (ok, i) => ok and l[i] == 2^k - 1)
    else (not(s1) or not(left)) and range(n, length(l)).foldl(true, (ok, i) => ok and l[i] == 0)
  }
  pure def soundSize(k: int, n: int, x: int, m: int, s0: bool, s1: bool): bool = {
    val a: Ty = { bits: k * n, sg: s0 }
    val b: Ty = { bits: k * m, sg: s1 }
    val v = unpat(a, x)
    val l = digits(n, 2^k, x)
    and {
      unpat(b, undigits(2^k, resized(k, l, m, s0))) == wrap(b, v),
      m <= n implies survives(k, l, m, s0, s1) == fits(b, v),
      m > n implies fits(b, v) == (s1 or v >= 0)
    }
  }

  /// Widths, pieces, number of values.
  pure val CASES: List[(int, int, int)] = [
    (4, 1, 16), (4, 2, 16), (4, 4, 16), (8, 1, 256), (8, 2, 256), (8, 4, 256), (8, 8, 256), (12, 4, 4096)
  ]
  pure def valueAt(i: int): { n: int, k: int, x: int, left: int } =
    CASES.foldl({ n: 4, k: 1, x: 0 - 1, left: i }, (st, k) =>
      if (st.x >= 0) st
      else if (st.left < k._3) { n: k._1, k: k._2, x: st.left, left: 0 }
      else { n: 4, k: 1, x: 0 - 1, left: st.left - k._3 })
  pure def holds(i: int): bool = {
    val c = valueAt(i)
    and {
      sound(c.n, c.k, c.x),
      1.to(c.n / c.k + 2).forall(m => Set(true, false).forall(f => Set(true, false).forall(g => soundSize(c.k, c.n / c.k, c.x, m, f, g))))
    }
  }

  pure val SIZE: int = 5168
  var at: int
  action from(k: int): bool = at' = k
  action init = from(0)
  action step = from(at + 1)
  val inv = at >= SIZE or holds(at)
}
