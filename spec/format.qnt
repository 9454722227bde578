// -*- mode: Bluespec; -*-
/// C12 - formatting. A text is the list of its character codes.
///
/// Arguments of a step: the value, a radix, the number of bytes by which the
/// buffer given to the radix printer exceeds what it asks for, the size of a
/// buffer that cannot hold the text, and a width.
module format {
  import base.* from "./base"

  pure val PLUS = [43]
  pure val MINUS = [45]

  pure def charFor(d: int, upper: bool): int =
    if (d < 10) 48 + d else if (upper) 55 + d else 87 + d

  /// The canonical numeral of v >= 0: no leading zero, at least one digit.
  pure def numeral(radix: int, upper: bool, v: int): List[int] =
    rev(range(0, bitlen(v) + 1).foldl({ l: [], v: v }, (s, i) =>
      if (s.v == 0 and i > 0) s else { l: s.l.append(charFor(s.v % radix, upper)), v: s.v / radix }).l)

  pure def signed(a: int, text: List[int]): List[int] = if (a < 0) MINUS.concat(text) else text
  pure def plussed(t: Ty, a: int, text: List[int]): List[int] =
    if (a < 0) MINUS.concat(text) else if (t.sg) PLUS.concat(text) else text

  /// Leading digit, point, the other digits, the exponent.
  pure def scientific(mark: int, dec: List[int]): List[int] =
    [dec[0], 46].concat(dec.slice(1, length(dec))).append(mark).concat(numeral(10, true, length(dec) - 1))

  /// A text filled on the left to a width; a longer text is left alone.
  pure def padded(fill: int, width: int, text: List[int]): List[int] =
    range(0, max(0, width - length(text))).foldl([], (l, i) => l.append(fill)).concat(text)

  /// What is printed in decimal, and parses back.
  pure def decimals(t: Ty, a: int): List[Obs] = {
    val dec = numeral(10, true, abs(a))
    [
      ("display", "{}", V(signed(a, dec))),
      ("display", "{:?}", V(signed(a, dec))),
      ("display", "to_string", V(signed(a, dec))),
      ("display", "{:+}", V(plussed(t, a, dec))),
      ("exponent", "{:e}", V(signed(a, scientific(101, dec)))),
      ("exponent", "{:E}", V(signed(a, scientific(69, dec)))),
      ("exponent", "{:+e}", V(plussed(t, a, scientific(101, dec)))),
      ("exponent", "{:+E}", V(plussed(t, a, scientific(69, dec)))),
      ("parse back", "{}", ret(a)), ("parse back", "{:?}", ret(a)), ("parse back", "{:+}", ret(a))
    ]
  }

  /// What is printed of the bit pattern, and parses back into the unsigned type.
  pure def patterns(t: Ty, a: int): List[Obs] = {
    val p = pat(t, a)
    val hexl = numeral(16, false, p)
    val hexu = numeral(16, true, p)
    val oct = numeral(8, true, p)
    val bin = numeral(2, true, p)
    [
      ("hex", "{:x}", V(hexl)), ("hex", "{:#x}", V([48, 120].concat(hexl))),
      ("hex", "{:X}", V(hexu)), ("hex", "{:#X}", V([48, 120].concat(hexu))),
      ("octal", "{:o}", V(oct)), ("octal", "{:#o}", V([48, 111].concat(oct))),
      ("binary", "{:b}", V(bin)), ("binary", "{:#b}", V([48, 98].concat(bin))),
      ("parse back", "{:x}", ret(p)), ("parse back", "{:X}", ret(p)),
      ("parse back", "{:o}", ret(p)), ("parse back", "{:b}", ret(p))
    ]
  }

  /// The same in a width: some fixed ones and a given one.
  pure def widths(t: Ty, a: int): List[Obs] = {
    val p = pat(t, a)
    val hexl = numeral(16, false, p)
    val hexu = numeral(16, true, p)
    val oct = numeral(8, true, p)
    val bin = numeral(2, true, p)
    [
      ("width", "{:*>70x}", V(padded(42, 70, hexl))), ("width", "{:*>30X}", V(padded(42, 30, hexu))),
      ("width", "{:*>130o}", V(padded(42, 130, oct))), ("width", "{:*>300b}", V(padded(42, 300, bin))),
      ("width", "{:0>9x}", V(padded(48, 9, hexl))), ("width", "{:0>97X}", V(padded(48, 97, hexu))),
      ("width", "{:40o}", V(padded(32, 40, oct))), ("width", "{:65b}", V(padded(32, 65, bin)))
    ]
  }
  pure def widthOf(t: Ty, a: int, w: int): List[Obs] = {
    val p = pat(t, a)
    [
      ("width", "{:>w$x}", V(padded(32, w, numeral(16, false, p)))), ("width", "{:_>w$X}", V(padded(95, w, numeral(16, true, p)))),
      ("width", "{:w$o}", V(padded(32, w, numeral(8, true, p)))), ("width", "{:0>w$b}", V(padded(48, w, numeral(2, true, p))))
    ]
  }

  /// What is printed in a radix; a buffer one short of the text is refused.
  pure def inRadix(t: Ty, a: int, radix: int): List[Obs] = [
    ("radix", "to_str_radix", if (radix < 2 or radix > 36) Panic else V(signed(a, numeral(radix, true, abs(a))))),
    ("radix", "small buffer", Panic),
    ("parse back", "to_str_radix", if (radix < 2 or radix > 36) Panic else ret(a))
  ]
  /// The room that is one short.
  pure def short(a: int, radix: int): int =
    if (radix < 2 or radix > 36) 0 else length(signed(a, numeral(radix, true, abs(a)))) - 1

  pure def observe(t: Ty, a: int, radix: int, w: int): List[Obs] =
    decimals(t, a).concat(patterns(t, a)).concat(widths(t, a)).concat(widthOf(t, a, w)).concat(inRadix(t, a, radix))

  var s: Step
  var acc: int

  /// A value to print: boundary, powers of the radix and their neighbours,
  /// with few nonzero digits, or any.
  pure def genPrinted(t: Ty, radix: int, e: int): int = {
    val k = e % 12
    val r = e / 12
    val d = (r / 2048) % 5 - 2
    val neg = (r / 2^15) % 2 == 1
    val v =
      if (k == 0) radix^(r % (t.bits / bitlen(radix) + 2)) + d
      else if (k == 1) 10^(r % (t.bits / 3)) + d
      else if (k == 2) radix^(r % (t.bits / bitlen(radix) + 1)) * ((r / 2^20) % radix) + radix^((r / 2^30) % (t.bits / bitlen(radix) + 1))
      else if (k == 3) 10^19 * ((r / 2^20) % 2^70) + (r / 2^100) % 3
      else if (k == 4) (if (neg) lo(t) + abs(d) else hi(t) - abs(d))
      else if (k == 5) 2^(64 * (r % (t.bits / 64))) + d
      else genVal(t, r / 2^16)
    wrap(t, if (neg and k < 4) -v else v)
  }

  pure def genRadix(e: int): int = {
    val k = e % 24
    if (k < 3) [2, 3, 8, 10, 16, 32, 35, 36][(e / 24) % 8]
    else if (k == 3) [0, 1, 37, 38, 256, 4294967295][(e / 24) % 6]
    else 2 + (e / 24) % 35
  }

  pure def draw(prev: int, e: int): Step = {
    val t = pickTy(e)
    val radix = genRadix(e / 64)
    val a = if ((e / 2^20) % 20 == 0) wrap(t, prev) else genPrinted(t, if (radix < 2 or radix > 36) 10 else radix, e / 2^30)
    val w = (e / 2^500) % (t.bits / [8, 4, 2, 1][(e / 2^520) % 4] + 20)
    { ty: t, args: [a, radix, [0, 0, 1, 7, 64][(e / 2^26) % 5], short(a, radix), w], obs: observe(t, a, radix, w) }
  }

  action init = all { s' = noStep, acc' = 0 }
  action step = {
    nondet e = 0.to(ENT).oneOf()
    val n = draw(acc, e)
    all { s' = n, acc' = n.args[0] }
  }

  pure def digitOf(c: int): int =
    if (c <= 57) c - 48 else if (c <= 90) c - 55 else c - 87

  val inv =
    length(s.args) == 0 or {
      val t = s.ty
      val a = s.args[0]
      val r = if (s.args[1] < 2 or s.args[1] > 36) 10 else s.args[1]
      val n = numeral(r, true, abs(a))
      and {
        fits(t, a),
        length(n) >= 1,
        n[0] == 48 implies a == 0,
        n.foldl(0, (v, c) => v * r + digitOf(c)) == abs(a),
        n.select(c => digitOf(c) >= r) == []
      }
    }
}
