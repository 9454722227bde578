// -*- mode: Bluespec; -*-
/// C11 - parsing. A text is a list of character codes.
///
/// Arguments of a step: the radix, then the characters of the text.
module parse {
  import base.* from "./base"

  pure val PLUS = 43
  pure val MINUS = 45

  /// The digit a character stands for; 99 if none.
  pure def digitOf(c: int): int =
    if (48 <= c and c <= 57) c - 48
    else if (65 <= c and c <= 90) c - 55
    else if (97 <= c and c <= 122) c - 87
    else 99

  type Sign = NoSign | Plus | Minus
  pure def signOf(text: List[int]): Sign =
    if (length(text) == 0) NoSign
    else if (text[0] == PLUS) Plus
    else if (text[0] == MINUS) Minus
    else NoSign
  /// The text without its sign.
  pure def bodyOf(text: List[int]): List[int] =
    if (signOf(text) == NoSign) text else text.slice(1, length(text))

  /// At least one character and only digits of the radix.
  pure def numeral(radix: int, body: List[int]): bool =
    length(body) > 0 and body.select(c => digitOf(c) >= radix) == []
  pure def valueOf(radix: int, body: List[int]): int =
    body.foldl(0, (v, c) => v * radix + digitOf(c))

  pure def parse(t: Ty, radix: int, text: List[int]): Out = {
    val body = bodyOf(text)
    if (radix < 2 or radix > 36) Panic
    else if (length(text) == 0) Err("Empty")
    else if (signOf(text) == Minus and not(t.sg)) Err("Any")
    else if (numeral(radix, body)) {
      val v = valueOf(radix, body)
      val x = if (signOf(text) == Minus) -v else v
      if (x > hi(t)) Err("PosOverflow") else if (x < lo(t)) Err("NegOverflow") else ret(x)
    }
    else if (length(body.select(c => digitOf(c) < radix)) < t.bits / 6) Err("InvalidDigit")
    // a foreign character in a text whose digits may also be too many: either
    // complaint is true
    else Err("Any")
  }

  pure def observe(t: Ty, radix: int, text: List[int]): List[Obs] = [
    ("radix", "parse", parse(t, radix, text)),
    ("std", "parse", parse(t, 10, text)),
    ("std", "str::parse", parse(t, 10, text))
  ]

  // ---------------------------------------------------------- drawing texts

  /// The digits of v >= 0, most significant first; for 0 one zero.
  pure def numeralOf(radix: int, v: int): List[int] =
    rev(range(0, bitlen(v) + 1).foldl({ l: [], v: v }, (s, i) =>
      if (s.v == 0 and i > 0) s else { l: s.l.append(s.v % radix), v: s.v / radix }).l)

  /// Character for a digit; letters in the case chosen by bit.
  pure def charFor(d: int, upper: bool): int =
    if (d < 10) 48 + d else if (upper) 55 + d else 87 + d

  pure def spell(radix: int, v: int, e: int): List[int] = {
    val mode = e % 3
    numeralOf(radix, v).foldl({ l: [], e: e / 3 }, (s, d) => {
      l: s.l.append(charFor(d, if (mode == 0) true else if (mode == 1) false else s.e % 2 == 1)), e: s.e / 2 + 2^400 * (s.e % 2)
    }).l
  }
  pure def zeros(n: int): List[int] = range(0, n).foldl([], (l, i) => l.append(48))

  /// Characters that are no digits or stand just outside the digit ranges.
  pure val FOREIGN: List[int] = [
    47, 58, 64, 91, 96, 123, 32, 95, 43, 45, 46, 0, 10, 9, 127, 128, 233, 1632, 65296, 65313, 8722, 128512, 39, 44, 120, 71, 90, 122, 255
  ]

  /// A number to be spelled: near the bounds of the type, near powers of the
  /// radix, near where digits stop being safe to accumulate, or any.
  pure def genMagnitude(t: Ty, radix: int, e: int): int = {
    val k = e % 16
    val r = e / 16
    val d = r % 7 - 3
    val nd = 2 * t.bits / 8 - (r / 8) % 4
    if (k <= 2) max(0, hi(t) + d)
    else if (k <= 4) max(0, abs(lo(t)) + d)
    else if (k == 5) max(0, radix^(nd) + d) % 2^1100
    else if (k == 6) max(0, radix^(t.bits / 8 + (r / 8) % 3 - 1) + d)
    else if (k == 7) (hi(t) + 1) * (1 + (r / 8) % radix) + abs(d)
    else if (k == 8) abs(hi(t) + (r / 8) % radix)
    else if (k == 9) (r / 8) % 1000
    else if (k == 10) max(0, 10^(36 + (r / 8) % 6) + d)
    else if (k == 11) max(0, radix^((r / 8) % 200) + d) % 2^1100
    else if (k == 12) 2^(125 + (r / 8) % 5) + d
    else genPat(t.bits, r)
  }

  pure def genText(t: Ty, radix: int, e: int): List[int] = {
    val k = e % 32
    val r = e / 32
    val sign = [[], [], [PLUS], [MINUS], [MINUS]][(r / 1024) % 5]
    val pad = if ((r / 2^13) % 3 > 0) [] else zeros([1, 2, 5, 20, 40, 64, 130][(r / 2^16) % 7])
    val body = spell(radix, genMagnitude(t, radix, r / 2^30), r / 2^20)
    val good = sign.concat(pad).concat(body)
    val f = FOREIGN[(r / 2^30) % 29]
    if (k < 20) good
    // one foreign character in place of, before or after some character, or
    // the first digit that the radix does not have
    else if (k < 23) {
      val i = (r / 32) % length(good)
      good.replaceAt(i, if (k == 22 and radix < 36) charFor(radix, r % 2 == 0) else f)
    }
    else if (k == 23) good.append(f)
    else if (k == 24) [f].concat(good)
    else if (k == 25) [[], [PLUS], [MINUS], [PLUS, MINUS], [MINUS, MINUS, 49], [PLUS, PLUS, 49], [PLUS, 32, 49], [MINUS, 48], [f], [PLUS, f]][r % 10]
    else if (k == 26) zeros(1 + r % 300)
    else if (k == 27) sign.concat(zeros(1 + (r / 8) % 80))
    // exactly as many equal digits as ...
    else if (k == 28) sign.concat(range(0, 36 + (r / 8) % 6).foldl([], (l, i) => l.append(57)))
    else if (k == 29) sign.concat(range(0, t.bits / 4 - (r / 8) % 3).foldl([], (l, i) => l.append(charFor(radix - 1, r % 2 == 0))))
    else if (k == 30) sign.concat(range(0, t.bits / 8 + (r / 8) % 3).foldl([], (l, i) => l.append(charFor(radix - 1, r % 2 == 0))))
    else sign.concat([f]).concat(body)
  }

  pure def genRadix(e: int): int = {
    val k = e % 8
    if (k <= 2) 10
    else if (k == 3) [2, 8, 16, 16, 36, 11, 17, 3][(e / 8) % 8]
    else 2 + (e / 8) % 35
  }

  var s: Step
  var acc: int

  pure def draw(prev: int, e: int): Step = {
    val t = pickTy(e)
    val radix = genRadix(e / 64)
    val text = if ((e / 2^15) % 24 == 0) spell(radix, abs(prev), e / 2^20) else genText(t, radix, e / 2^20)
    // a radix that does not exist
    val shown = if ((e / 2^13) % 50 == 0) [0, 1, 37, 38, 256, 4294967295][(e / 2^20) % 6] else radix
    { ty: t, args: [shown].concat(text), obs: observe(t, shown, text) }
  }

  action init = all { s' = noStep, acc' = 0 }
  action step = {
    nondet e = 0.to(ENT).oneOf()
    val n = draw(acc, e)
    all { s' = n, acc' = match n.obs[0]._3 { | V(l) => l[0] | _ => acc } }
  }

  val inv =
    length(s.args) == 0 or {
      val t = s.ty
      val radix = s.args[0]
      val text = s.args.slice(1, length(s.args))
      and {
        // spelling a value and parsing it gives it back, whatever the zeros
        (radix >= 2 and radix <= 36 and fits(t, acc)) implies and {
          parse(t, radix, spell(radix, abs(acc), 2)) == (if (abs(acc) <= hi(t)) ret(abs(acc)) else Err("PosOverflow")),
          (acc < 0) implies parse(t, radix, [MINUS, 48].concat(spell(radix, -acc, 0))) == ret(acc)
        },
        // whatever parses fits
        match parse(t, radix, text) {
          | V(l) => fits(t, l[0])
          | _ => true
        }
      }
    }
}
