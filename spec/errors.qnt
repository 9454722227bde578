// -*- mode: Bluespec; -*-
/// C18 - what errors say. An error carries a cause and prints the sentence for
/// that cause; a parsing error of the standard library keeps its cause when it
/// is converted.
///
/// Arguments of a step: a value to convert, a radix, and the characters of a text.
module errors {
  import base.* from "./base"
  import parse as p from "./parse"

  /// cannot parse integer from empty string
  pure val EMPTY: List[int] = [99, 97, 110, 110, 111, 116, 32, 112, 97, 114, 115, 101, 32, 105, 110, 116, 101, 103, 101, 114, 32, 102, 114, 111, 109, 32, 101, 109, 112, 116, 121, 32, 115, 116, 114, 105, 110, 103]
  /// invalid digit found in string
  pure val DIGIT: List[int] = [105, 110, 118, 97, 108, 105, 100, 32, 100, 105, 103, 105, 116, 32, 102, 111, 117, 110, 100, 32, 105, 110, 32, 115, 116, 114, 105, 110, 103]
  /// number too large to fit in target type
  pure val LARGE: List[int] = [110, 117, 109, 98, 101, 114, 32, 116, 111, 111, 32, 108, 97, 114, 103, 101, 32, 116, 111, 32, 102, 105, 116, 32, 105, 110, 32, 116, 97, 114, 103, 101, 116, 32, 116, 121, 112, 101]
  /// number too small to fit in target type
  pure val SMALL: List[int] = [110, 117, 109, 98, 101, 114, 32, 116, 111, 111, 32, 115, 109, 97, 108, 108, 32, 116, 111, 32, 102, 105, 116, 32, 105, 110, 32, 116, 97, 114, 103, 101, 116, 32, 116, 121, 112, 101]
  /// number would be zero for non-zero type
  pure val ZERO: List[int] = [110, 117, 109, 98, 101, 114, 32, 119, 111, 117, 108, 100, 32, 98, 101, 32, 122, 101, 114, 111, 32, 102, 111, 114, 32, 110, 111, 110, 45, 122, 101, 114, 111, 32, 116, 121, 112, 101]
  /// out of range integral type conversion attempted
  pure val RANGE: List[int] = [111, 117, 116, 32, 111, 102, 32, 114, 97, 110, 103, 101, 32, 105, 110, 116, 101, 103, 114, 97, 108, 32, 116, 121, 112, 101, 32, 99, 111, 110, 118, 101, 114, 115, 105, 111, 110, 32, 97, 116, 116, 101, 109, 112, 116, 101, 100]

  /// The sentence for a cause; none if the cause is left open.
  pure def sentence(kind: str): List[int] =
    if (kind == "Empty") EMPTY
    else if (kind == "InvalidDigit") DIGIT
    else if (kind == "PosOverflow") LARGE
    else if (kind == "NegOverflow") SMALL
    else if (kind == "Zero") ZERO
    else []

  /// What is seen when the outcome of a parse is printed.
  pure def said(o: Out): Out = match o {
    | Err(k) => V(sentence(k))
    | _ => o
  }
  pure def open(o: Out): bool = o == Err("Any")

  /// Parsing by the standard library, whose error is then converted. A text
  /// that stands for zero is no text of a nonzero type.
  pure def nonzero(o: Out): Out = if (o == ret(0)) Err("Zero") else o

  pure def ty(bits: int, sg: bool): Ty = { bits: bits, sg: sg }

  pure def observe(t: Ty, x: int, radix: int, text: List[int]): List[Obs] = {
    val r = p::parse(t, radix, text)
    val d = p::parse(t, 10, text)
    val i64 = p::parse(ty(64, true), 10, text)
    val u64 = p::parse(ty(64, false), 10, text)
    val i128 = p::parse(ty(128, true), 10, text)
    val u128 = p::parse(ty(128, false), 10, text)
    val crossed = if (fits(otherSign(t), x)) ret(x) else V(RANGE)
    [
      ("from std", "i64", i64), ("from std", "u64", u64),
      ("from std", "i128", i128), ("from std", "u128", u128),
      ("from std", "nonzero i64", nonzero(i64)), ("from std", "nonzero u64", nonzero(u64)),
      ("conversion", "{}", crossed), ("conversion", "to_string", crossed)
    ].concat(if (open(i64) or open(nonzero(i64))) [] else [
      ("std said", "i64 {}", said(i64)), ("std said", "i64 {:?}", said(i64)), ("std said", "nonzero i64 {}", said(nonzero(i64)))
    ]).concat(if (open(i128) or open(u128)) [] else [
      ("std said", "i128 {}", said(i128)), ("std said", "u128 {:?}", said(u128))
    ]).concat(if (open(r)) [] else [
      ("radix", "{}", said(r)), ("radix", "{:?}", said(r)), ("radix", "kind", r)
    ]).concat(if (open(d)) [] else [
      ("decimal", "{}", said(d)), ("decimal", "{:?}", said(d)), ("decimal", "kind", d)
    ])
  }

  var s: Step
  var acc: int

  pure def draw(e: int): Step = {
    val t = pickTy(e)
    val radix = p::genRadix(e / 64)
    val text = if ((e / 2^15) % 4 == 0) p::genText(ty(64, (e / 2^18) % 2 == 0), 10, e / 2^20) else p::genText(t, radix, e / 2^20)
    val x = if ((e / 2^17) % 2 == 0) genVal(t, e / 2^24) else [0, hi(t), lo(t), hi(t) / 2, hi(t) / 2 + 1, wrap(t, 0 - 1)][(e / 2^19) % 6]
    { ty: t, args: [x, radix].concat(text), obs: observe(t, x, radix, text) }
  }

  action init = all { s' = noStep, acc' = 0 }
  action step = {
    nondet e = 0.to(ENT).oneOf()
    all { s' = draw(e), acc' = acc + 1 }
  }

  val inv =
    length(s.args) == 0 or {
      val text = s.args.slice(2, length(s.args))
      val o = p::parse(s.ty, s.args[1], text)
      and {
        // different causes have different sentences
        Set(EMPTY, DIGIT, LARGE, SMALL, ZERO, RANGE).size() == 6,
        // only negative texts are too small
        (said(o) == V(SMALL)) implies text[0] == 45,
        (said(o) == V(EMPTY)) iff length(text) == 0
      }
    }
}
