// -*- mode: Bluespec; -*-
/// C03, systematically: for both limb sizes, every length of divisor and every
/// position of a quotient digit, operands that take each case of long division
/// at that digit.
module grid_longdiv {
  import base.* from "./base"
  import divrem as f from "./divrem"
  import longdiv as l from "./longdiv"

  /// Width, limb size, and the number of (divisor length, digit) pairs.
  pure val SHAPES: List[(int, int, int)] = [
    (256, 64, 3), (384, 64, 10), (512, 64, 21), (1024, 64, 105),
    (256, 32, 21), (384, 32, 55), (512, 32, 105), (1024, 32, 465)
  ]
  type Spot = { bits: int, w: int, n: int, j: int }
  /// In a shape of len limbs: divisors of n = 2, 3, ... limbs have the digits
  /// 0 to len - n - 1 below the topmost.
  pure def spotIn(bits: int, w: int, i: int): Spot = {
    val len = bits / w
    val r = range(2, len).foldl({ n: 0, left: i }, (st, n) =>
      if (st.n > 0) st else if (st.left < len - n) { n: n, left: st.left } else { n: 0, left: st.left - (len - n) })
    { bits: bits, w: w, n: r.n, j: r.left }
  }
  pure def spotOf(i: int): Spot = {
    val r = SHAPES.foldl({ s: { bits: 0, w: 0, n: 0, j: 0 }, left: i }, (st, x) =>
      if (st.s.bits > 0) st
      else if (st.left < x._3) { s: spotIn(x._1, x._2, st.left), left: 0 }
      else { s: st.s, left: st.left - x._3 })
    r.s
  }

  /// A divisor of n digits, its lowest ones lo: leading digits b0 and b1.
  pure def divisor(B: int, n: int, b0: int, b1: int, lo: int): int =
    b0 * B^(n - 1) + b1 * B^(n - 2) + (if (n == 2) 0 else if (lo == 0) 1 else B^(n - 2) - 1)
  pure def divisorFor(B: int, n: int, kind: int): int =
    if (kind == 0) divisor(B, n, B / 2, 0, 1)          // estimate one too large throughout
    else if (kind == 1) divisor(B, n, B / 2, B - 1, 1) // one correction
    else if (kind == 2) divisor(B, n, B / 2, B - 1, 1) // two corrections
    else if (kind == 3) divisor(B, n, B - 1, 1, 0)     // largest digit, no estimate
    else if (kind == 4) divisor(B, n, B / 2, B - 1, 1) // the same, and one too large
    else if (kind == 5) divisor(B, n, B / 2 + 1, 7, 0) // the digit 0
    else if (kind == 6) divisor(B, n, B / 2, 1, 0)     // the largest digit, exactly
    else if (kind == 7) divisor(B, n, B / 2, B - 1, 1) // one correction, and one too large
    else divisor(B, n, B - 1, B - 1, 1)                // all ones
  /// The leading part of the dividend when the digit is due, for divisor v.
  pure def windowFor(B: int, n: int, v: int, kind: int): int =
    if (kind == 0) (B / 2 + 1) * v - 1
    else if (kind == 1) (B / 4 * 3) * v
    else if (kind == 2) (B - 3) * v - 2 * B^(n - 1)
    else if (kind == 3) (v - 1) * B + (B - 1)
    else if (kind == 4) (v / B^(n - 1)) * B^n
    else if (kind == 5) v - 1
    else if (kind == 6) (B - 1) * v
    else if (kind == 7) (B - 3) * v - 1
    else (B - 1) * v - 1

  /// The operands of point k and the digit they are about.
  pure def operands(k: int): { t: Ty, a: int, b: int, p: Spot } = {
    val kind = k % 9
    val sp = spotOf(k / 36)
    val B = 2^sp.w
    val t: Ty = { bits: sp.bits, sg: (k / 18) % 2 == 1 }
    // undo the normalisation by a distance that depends on the place
    val v = divisorFor(B, sp.n, kind) / (if ((k / 9) % 2 == 0) 1 else 2^(1 + (7 * sp.n + 3 * sp.j + kind) % (sp.w - 1)))
    val win = windowFor(B, sp.n, v, kind)
    val low = if ((k / 36) % 2 == 0) 0 else B^sp.j - 1
    val high = v * B^(sp.j + 1)
    val u0 = win * B^sp.j + low
    val u = if (u0 + high <= hi(t)) u0 + high else u0
    val neg = sp.n + sp.j + kind
    val a = if (t.sg and neg % 2 == 1) wrap(t, -u) else wrap(t, u)
    val b = if (t.sg and (neg / 2) % 2 == 1) wrap(t, -v) else wrap(t, v)
    { t: t, a: a, b: b, p: sp }
  }

  type Ev = { limb: int, fixes: int, top: bool, back: bool, zero: bool }
  pure def make(k: int): { s: Step, ev: Ev } = {
    val o = operands(k)
    val t = o.t
    val a = o.a
    val b = o.b
    val sp = o.p
    val B = 2^sp.w
    // how the digit comes about for the operands as they are
    val m = abs(a)
    val g = l::norm(B, sp.n, abs(b))
    val vn = abs(b) * g
    val x = if (b == 0 or abs(b) < B^(sp.n - 1)) l::noDigit
            else l::digit(B, sp.n, vn, ((m * g) / B^sp.j) % (vn * B))
    { s: { ty: t, args: [a, b], obs: f::observe(t, a, b) },
      ev: { limb: sp.w, fixes: x.fixes, top: x.top, back: x.back, zero: x.q == 0 } }
  }

  pure val SIZE: int = 28260
  var s: Step
  var ev: Ev
  var at: int
  action from(k: int): bool = {
    val p = make(k % SIZE)
    all { at' = k, s' = p.s, ev' = p.ev }
  }
  action init = from(0)
  action step = from(at + 1)
}
