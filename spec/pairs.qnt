// -*- mode: Bluespec; -*-
/// Pairs of operands for any operation on two values, in a fixed order: those
/// that take each case of long division at each digit, each case of long
/// multiplication at each cell, each run of carries and borrows.
module pairs {
  import base.* from "./base"
  import grid_longdiv as q from "./grid_longdiv"
  import grid_longmul as m from "./grid_longmul"
  import grid_carries as c from "./grid_carries"

  type Pair = { t: Ty, a: int, b: int }
  pure val QUOTIENTS: int = 28260
  pure val PRODUCTS: int = 17200
  pure val SUMS: int = 11772
  pure def forQuotient(k: int): Pair = { val o = q::operands(k % QUOTIENTS) { t: o.t, a: o.a, b: o.b } }
  pure def forProduct(k: int): Pair = { val o = m::operands(k % PRODUCTS) { t: o.t, a: o.a, b: o.b } }
  pure def forSum(k: int): Pair = { val o = c::operands(k % SUMS) { t: o.t, a: o.a, b: o.b } }

  /// One in n of them, spread out by steps that share no factor with their
  /// number: any stretch of points visits all widths and kinds.
  pure def share(n: int): int = QUOTIENTS / n + PRODUCTS / n + SUMS / n
  pure def pairAt(n: int, k: int): Pair = {
    val q = QUOTIENTS / n
    val p = PRODUCTS / n
    if (k < q) forQuotient(k * 7919) else if (k < q + p) forProduct((k - q) * 7919) else forSum((k - q - p) * 7919)
  }
}
