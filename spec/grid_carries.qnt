// -*- mode: Bluespec; -*-
/// C01, systematically: for both limb sizes of every width, a carry or borrow
/// that is made in one limb, passed on by the limbs between and stopped in
/// another or lost at the top, for every such pair of limbs.
module grid_carries {
  import base.* from "./base"
  import addsub as f from "./addsub"

  /// Width, limb size, number of runs from limb i to limb j, i < j <= limbs.
  pure val SHAPES: List[(int, int, int)] = [
    (256, 64, 10), (384, 64, 21), (512, 64, 36), (1024, 64, 136),
    (256, 32, 36), (384, 32, 78), (512, 32, 136), (1024, 32, 528)
  ]
  type Spot = { bits: int, w: int, i: int, j: int }
  pure def spotOf(q: int): Spot = {
    val r = SHAPES.foldl({ bits: 0, w: 0, left: q }, (st, x) =>
      if (st.bits > 0) st
      else if (st.left < x._3) { bits: x._1, w: x._2, left: st.left }
      else { bits: 0, w: 0, left: st.left - x._3 })
    val n = r.bits / r.w
    val p = range(0, n).foldl({ i: 0 - 1, left: r.left }, (st, i) =>
      if (st.i >= 0) st else if (st.left < n - i) { i: i, left: st.left } else { i: 0 - 1, left: st.left - (n - i) })
    { bits: r.bits, w: r.w, i: p.i, j: p.i + 1 + p.left }
  }

  /// The two limbs at one place: below the run, at its start, inside, at its
  /// end, above; three ways for each.
  pure def limbs(B: int, sub: bool, place: int, way: int): (int, int) =
    if (sub)
      (if (place == 0) [(0, 0), (5, 3), (B - 1, 0)][way]
       else if (place == 1) [(0, 1), (0, B - 1), (B / 2 - 1, B / 2)][way]
       else if (place == 2) [(0, 0), (B - 1, B - 1), (B / 2, B / 2)][way]
       else if (place == 3) [(1, 0), (B - 1, B - 2), (B / 2, B / 2 - 1)][way]
       else [(0, 0), (B - 1, 1), (B - 1, B - 1)][way])
    else
      (if (place == 0) [(0, 0), (5, 3), (B - 1, 0)][way]
       else if (place == 1) [(B - 1, 1), (B - 1, B - 1), (B / 2, B / 2)][way]
       else if (place == 2) [(B - 1, 0), (0, B - 1), (B / 2, B / 2 - 1)][way]
       else if (place == 3) [(B - 2, 0), (0, 0), (B / 2, B / 2 - 2)][way]
       else [(0, 0), (B - 1, 1), (0, B - 1)][way])

  /// The operands of point k, its run of limbs, and whether it is one of borrows.
  pure def operands(k: int): { t: Ty, a: int, b: int, p: Spot, sub: bool } = {
    val way = k % 3
    val sub = (k / 3) % 2 == 1
    val p = spotOf(k / 12)
    val t: Ty = { bits: p.bits, sg: (k / 6) % 2 == 1 }
    val B = 2^p.w
    val ab = range(0, p.bits / p.w).foldl({ a: 0, b: 0, w: 1 }, (z, h) => {
      val place = if (h < p.i) 0 else if (h == p.i) 1 else if (h < p.j) 2 else if (h == p.j) 3 else 4
      val l = limbs(B, sub, place, way)
      { a: z.a + z.w * l._1, b: z.b + z.w * l._2, w: z.w * B }
    })
    { t: t, a: unpat(t, ab.a), b: unpat(t, ab.b), p: p, sub: sub }
  }

  type Ev = { limb: int, sub: bool, carry: bool, out: bool }
  pure def make(k: int): { s: Step, ev: Ev } = {
    val q = operands(k)
    val t = q.t
    val c = (k / 12) % 2
    val m = wrap(otherSign(t), q.b)
    // whether a carry arrives where it should, for the operands as they are
    val w = 2^(q.p.w * q.p.j)
    val x = pat(t, q.a) % w
    val y = pat(t, q.b) % w
    { s: { ty: t, args: [q.a, q.b, c, m], obs: f::observe(t, q.a, q.b, c, m) },
      ev: { limb: q.p.w, sub: q.sub, carry: if (q.sub) x < y else x + y >= w, out: q.p.j * q.p.w == t.bits } }
  }

  pure val SIZE: int = 11772
  var s: Step
  var ev: Ev
  var at: int
  action from(k: int): bool = {
    val p = make(k % SIZE)
    all { at' = k, s' = p.s, ev' = p.ev }
  }
  action init = from(0)
  action step = from(at + 1)
}
