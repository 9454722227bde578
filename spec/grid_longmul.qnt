// -*- mode: Bluespec; -*-
/// C02, systematically: for both limb sizes of every width and every pair of
/// limbs that meet in a product, at its top or just above, factors that fill
/// the cell, run carries through it or make it the one that grows too large.
module grid_longmul {
  import base.* from "./base"
  import mul as f from "./mul"
  import longmul as m from "./longmul"

  /// Width, limb size, number of pairs of limbs i, j with i + j <= limbs.
  pure val SHAPES: List[(int, int, int)] = [
    (256, 64, 13), (384, 64, 26), (512, 64, 43), (1024, 64, 151),
    (256, 32, 43), (384, 32, 89), (512, 32, 151), (1024, 32, 559)
  ]
  type Spot = { bits: int, w: int, i: int, j: int }
  pure def spotOf(q: int): Spot = {
    val r = SHAPES.foldl({ bits: 0, w: 0, left: q }, (st, x) =>
      if (st.bits > 0) st
      else if (st.left < x._3) { bits: x._1, w: x._2, left: st.left }
      else { bits: 0, w: 0, left: st.left - x._3 })
    val n = r.bits / r.w
    // limb 0 meets limbs 0 to n - 1, limb i meets limbs 0 to n - i
    val p = range(0, n).foldl({ i: 0 - 1, left: r.left }, (st, i) => {
      val here = if (i == 0) n else n - i + 1
      if (st.i >= 0) st else if (st.left < here) { i: i, left: st.left } else { i: 0 - 1, left: st.left - here }
    })
    { bits: r.bits, w: r.w, i: p.i, j: p.left }
  }

  pure def factors(B: int, n: int, i: int, j: int, kind: int): (int, int) =
    if (kind == 0) ((B - 1) * B^i, (B - 1) * B^j)          // the cell alone, full
    else if (kind == 1) (B^(i + 1) - 1, B^(j + 1) - 1)     // all cells up to it, full
    else if (kind == 2) ((B - 1) * B^i, B^(j + 1) - 1)     // one full row
    else if (kind == 3) (B^(i + 1) - 1, (B - 1) * B^j)     // one full column
    else if (kind == 4) (B^i, B^(j + 1) - 1)               // a shift by whole limbs
    else if (kind == 5) (B / 2 * B^i, 2 * B^j)             // a carry of one, nothing left
    else if (kind == 6) (B^i + 1, B^n - B^j)               // long runs of carries
    else (B^n - 1 - (B - 1) * B^i, (B - 2) * B^j + 3)      // all limbs but one

  /// The operands of point k and the pair of limbs they are about.
  pure def operands(k: int): { t: Ty, a: int, b: int, p: Spot } = {
    val kind = k % 8
    val p = spotOf(k / 16)
    val t: Ty = { bits: p.bits, sg: (k / 8) % 2 == 1 }
    val xy = factors(2^p.w, p.bits / p.w, p.i, p.j, kind)
    val sx = t.sg and (p.i + kind) % 2 == 1
    val sy = t.sg and (p.j + kind / 2) % 2 == 1
    { t: t, a: wrap(t, if (sx) -xy._1 else xy._1), b: wrap(t, if (sy) -xy._2 else xy._2), p: p }
  }

  type Ev = { limb: int, cause: str }
  pure def make(k: int): { s: Step, ev: Ev } = {
    val q = operands(k)
    val t = q.t
    val c = if ((k / 16) % 2 == 0) hi(t) else wrap(t, 2^(q.p.w * q.p.i) - 1)
    { s: { ty: t, args: [q.a, q.b, c], obs: f::observe(t, q.a, q.b, c) },
      ev: { limb: q.p.w, cause: m::cause(2^q.p.w, t.bits / q.p.w, abs(q.a), abs(q.b)) } }
  }

  pure val SIZE: int = 17200
  var s: Step
  var ev: Ev
  var at: int
  action from(k: int): bool = {
    val p = make(k % SIZE)
    all { at' = k, s' = p.s, ev' = p.ev }
  }
  action init = from(0)
  action step = from(at + 1)
}
