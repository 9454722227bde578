// -*- mode: Bluespec; -*-
/// C16, systematically: a share of every other systematic exploration, in one
/// sequence over the whole interface, for all builds alike. Consecutive points
/// of a family are spread out over its exploration.
module grid_config {
  import base.* from "./base"
  import grid_addsub as g0 from "./grid_addsub"
  import grid_carries as g1 from "./grid_carries"
  import grid_mul as g2 from "./grid_mul"
  import grid_mulfit as g3 from "./grid_mulfit"
  import grid_longmul as g4 from "./grid_longmul"
  import grid_divrem as g5 from "./grid_divrem"
  import grid_longdiv as g6 from "./grid_longdiv"
  import grid_powlog as g7 from "./grid_powlog"
  import grid_shift as g8 from "./grid_shift"
  import grid_bits as g9 from "./grid_bits"
  import grid_scalar as g10 from "./grid_scalar"
  import grid_order as g11 from "./grid_order"
  import grid_conv as g12 from "./grid_conv"
  import grid_encode as g13 from "./grid_encode"
  import grid_parse as g14 from "./grid_parse"
  import grid_format as g15 from "./grid_format"
  import grid_operators as g16 from "./grid_operators"
  import grid_numtraits as g17 from "./grid_numtraits"

  /// Family, points taken, points there are.
  pure val SHARES: List[(str, int, int)] = [
    ("addsub", 2000, 74160), ("addsub", 4000, 11772), ("mul", 2000, 31554), ("mul", 3000, 34816), ("mul", 5000, 17200),
    ("div", 1500, 31554), ("div", 8000, 28260), ("powlog", 1500, 71072), ("shift", 2000, 43520), ("bits", 800, 13056),
    ("scalar", 8000, 39096), ("order", 1000, 27136), ("conv", 1500, 13056), ("encode", 544, 544), ("parse", 3000, 54160),
    ("format", 1000, 33680), ("operators", 3000, 32740), ("numtraits", 400, 9720)
  ]
  pure def point(g: int, k: int): Step =
    if (g == 0) g0::point(k)
    else if (g == 1) g1::make(k).s
    else if (g == 2) g2::point(k)
    else if (g == 3) g3::point(k)
    else if (g == 4) g4::make(k).s
    else if (g == 5) g5::point(k)
    else if (g == 6) g6::make(k).s
    else if (g == 7) g7::point(k)
    else if (g == 8) g8::point(k)
    else if (g == 9) g9::point(k)
    else if (g == 10) g10::point(k)
    else if (g == 11) g11::point(k)
    else if (g == 12) g12::point(k)
    else if (g == 13) g13::point(k)
    else if (g == 14) g14::point(k)
    else if (g == 15) g15::point(k)
    else if (g == 16) g16::point(k)
    else g17::point(k)

  pure def pointAt(k: int): { fam: str, s: Step } = {
    val r = range(0, length(SHARES)).foldl({ g: 0 - 1, left: k }, (st, i) =>
      if (st.g >= 0) st
      else if (st.left < SHARES[i]._2) { g: i, left: st.left }
      else { g: 0 - 1, left: st.left - SHARES[i]._2 })
    { fam: SHARES[r.g]._1, s: point(r.g, (r.left * 7919) % SHARES[r.g]._3) }
  }

  pure val SIZE: int = 48244
  var s: Step
  var fam: str
  var at: int
  action from(k: int): bool = {
    val p = pointAt(k % SIZE)
    all { at' = k, s' = p.s, fam' = p.fam }
  }
  action init = from(0)
  action step = from(at + 1)
}
