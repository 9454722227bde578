// -*- mode: Bluespec; -*-
/// Numerals digit by digit: models of how texts are read and written. A text
/// short enough is read without looking for overflow, a longer one with a test
/// at every digit; a number is written by dividing until less than the radix is
/// left. Run at small widths on all short texts and all values they establish
/// that the short texts cannot overflow, that the tests find overflow exactly
/// when the whole numeral does not fit, that no more digits are written than
/// there is room for, and that reading undoes writing. That short texts cannot
/// overflow is also established at the real widths.
module numerals {
  import base.* from "./base"

  /// How many digits are read without tests.
  pure def safe(t: Ty, radix: int): int =
    if (radix <= 16) 2 * (t.bits / 8) - b2i(t.sg) else t.bits / 8

  type Read = { acc: int, up: bool }
  /// Reads digits, most significant first, of a number or of a negative number.
  pure def read(t: Ty, radix: int, neg: bool, ds: List[int]): Read =
    ds.foldl({ acc: 0, up: false }, (st, d) => {
      val m = st.acc * radix
      val v = if (neg) m - d else m + d
      if (length(ds) <= safe(t, radix)) { acc: wrap(t, wrap(t, m) + (if (neg) -d else d)), up: false }
      else if (st.up) st
      else if (not(fits(t, m)) or not(fits(t, v))) { ...st, up: true }
      else { acc: v, up: false }
    })
  pure def value(radix: int, neg: bool, ds: List[int]): int = {
    val v = ds.foldl(0, (a, d) => a * radix + d)
    if (neg) -v else v
  }
  pure def soundRead(t: Ty, radix: int, neg: bool, ds: List[int]): bool = {
    val r = read(t, radix, neg, ds)
    val v = value(radix, neg, ds)
    r.up == not(fits(t, v)) and (r.up or r.acc == v)
  }

  /// The digits of a value, least significant first, and how many turns.
  pure def written(t: Ty, radix: int, x: int): List[int] =
    range(0, t.bits).foldl({ l: [], v: abs(x), done: false }, (st, i) =>
      if (st.done) st
      else if (st.v >= radix) { l: st.l.append(st.v % radix), v: st.v / radix, done: false }
      else { l: st.l.append(st.v), v: 0, done: true }).l
  pure def soundWrite(t: Ty, radix: int, x: int): bool = {
    val ds = written(t, radix, x)
    val back = read(t, radix, x < 0, rev(ds))
    and {
      length(ds) >= 1 and length(ds) <= t.bits,
      ds.select(d => d >= radix) == [],
      ds[length(ds) - 1] == 0 implies x == 0,
      value(radix, x < 0, rev(ds)) == x,
      back.acc == x and not(back.up)
    }
  }

  /// No text read without tests overflows: the largest is radix^n - 1.
  pure def soundSafe(t: Ty, radix: int): bool = radix^safe(t, radix) - 1 <= hi(t)

  pure val WIDTHS: List[int] = [8, 16, 24, 32, 64, 128, 256, 384, 512, 1024]
  /// All texts of two digits and what they become with others before or after, at
  /// 8 bits; values around powers of the radix and the ends of the range at 16 bits.
  pure def holds(i: int): bool = {
    val radix = 2 + i % 35
    val j = i / 35
    if (j < 20) soundSafe({ bits: WIDTHS[j / 2], sg: j % 2 == 1 }, radix)
    else if (j < 22) {
      val t: Ty = { bits: 8, sg: j == 21 }
      and {
        lo(t).to(hi(t)).forall(x => soundWrite(t, radix, x)),
        0.to(radix - 1).forall(a => soundRead(t, radix, false, [a])),
        0.to(radix - 1).forall(a => 0.to(radix - 1).forall(b => and {
          soundRead(t, radix, false, [a, b]), soundRead(t, radix, false, [0, a, b]), soundRead(t, radix, false, [1, a, b]),
          soundRead(t, radix, false, [0, 0, a, b]), soundRead(t, radix, false, [1, 0, a, b]),
          t.sg implies and {
            soundRead(t, radix, true, [a, b]), soundRead(t, radix, true, [0, a, b]), soundRead(t, radix, true, [1, a, b]),
            soundRead(t, radix, true, [a, b, 0]), soundRead(t, radix, true, [0, 0, 0, a, b])
          }
        }))
      }
    }
    else if (j < 24) {
      val t: Ty = { bits: 16, sg: j == 23 }
      and {
        range(0, 17).foldl(true, (ok, n) => ok and 0.to(2).forall(d => {
          val v = radix^(n % 8) + d - 1
          not(fits(t, v)) or (soundWrite(t, radix, v) and (not(t.sg) or soundWrite(t, radix, -v)))
        })),
        0.to(radix + 2).forall(d => and {
          soundRead(t, radix, false, rev(written({ bits: 24, sg: false }, radix, hi(t) - 1 + d))),
          t.sg implies soundRead(t, radix, true, rev(written({ bits: 24, sg: false }, radix, -lo(t) - 1 + d)))
        })
      }
    }
    // small radices: all texts of up to nine, six, five digits
    else if (radix <= 4) {
      val t: Ty = { bits: 8, sg: j == 25 }
      val n = [9, 6, 5][radix - 2]
      1.to(n).forall(len => 0.to(radix^len - 1).forall(v => {
        val ds = rev(digits(len, radix, v))
        soundRead(t, radix, false, ds) and (not(t.sg) or soundRead(t, radix, true, ds))
      }))
    }
    else true
  }

  pure val SIZE: int = 910
  var at: int
  action from(k: int): bool = at' = k
  action init = from(0)
  action step = from(at + 1)
  val inv = at >= SIZE or holds(at)
}
