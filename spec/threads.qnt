// -*- mode: Bluespec; -*-
/// C20 - several threads computing at once.
///
/// Three register machines, each with its own registers and its own width; all
/// belong to one build, so they agree on whether overflow panics. A schedule
/// lets one of them perform its next instruction at a time. Nothing is shared:
/// an instruction reads and writes the registers of the thread it belongs to,
/// answers the same whatever the other threads did before or do meanwhile, and
/// a panic stops nobody else.
module threads {
  import base.* from "./base"
  import program as g from "./program"

  pure val THREADS: int = 3

  var ms: List[g::Machine]
  var who: int
  var ins: g::Ins
  var ans: Out
  /// Whether the step left alone what it had to leave alone.
  var kept: bool

  /// Same width everywhere, or a width of its own for each thread.
  pure def bootAll(e: int): List[g::Machine] = {
    val first = g::boot(e)
    range(0, THREADS).foldl([], (l, j) => {
      val own = g::boot(e / 2^(500 * j))
      val t = { bits: first.bits, sg: false }
      val v = { bits: first.bits, sg: true }
      val m = if (e % 2 == 0) own
              else { bits: first.bits, checks: first.checks, c: false,
                     u: [genVal(t, e / 2^(300 + 500 * j)), genVal(t, e / 2^(400 + 500 * j)), genVal(t, e / 2^(500 + 500 * j)), 1],
                     s: [genVal(v, e / 2^(350 + 500 * j)), genVal(v, e / 2^(450 + 500 * j)), genVal(v, e / 2^(550 + 500 * j)), 1] }
      l.append({ ...m, checks: first.checks })
    })
  }

  /// Instructions that work longest, so that threads meet inside them.
  pure val lengthy: List[str] = ["/", "%", "div_rem", "wrapping_div", "wrapping_rem", "checked_div", "checked_rem", "overflowing_div",
    "wrapping_div_euclid", "wrapping_rem_euclid", "checked_div_rem", "wrapping_mul", "overflowing_mul", "checked_mul",
    "saturating_mul", "wrapping_pow", "checked_pow", "overflowing_pow", "saturating_pow", "via decimal", "via radix", "via hex", "via octal",
    "via binary", "via HEX", "ilog", "via le bytes", "via be bytes", "reverse_bits", "rotate_left"]
  pure def instruction(k: g::Machine, e: int): g::Ins =
    if (e % 3 != 0) g::decode(k, e / 3)
    else {
      val r = e / 3
      val op = g::pick(lengthy, r / 256)
      { op: op, sg: r % 2 == 1, d: (r / 2) % 4, x: (r / 8) % 4, y: (r / 32) % 4,
        n: if (op.in(Set("via radix"))) 2 + (r / 2^40) % 35 else (r / 2^40) % 130 }
    }

  action init = {
    nondet e = 0.to(ENT).oneOf()
    val l = bootAll(e)
    all { ms' = l, kept' = true, who' = 0, ins' = { op: "boot", sg: false, d: 0, x: 0, y: 0, n: 0 }, ans' = V([]) }
  }
  action step = {
    nondet e = 0.to(ENT).oneOf()
    nondet j = 0.to(THREADS - 1).oneOf()
    val i = instruction(ms[j], e)
    val r = g::exec(ms[j], i)
    val after = ms.replaceAt(j, g::apply(ms[j], r))
    all { ms' = after, who' = j, ins' = i, ans' = r.out,
      // nobody else's registers change, and after a panic, or an answer of
      // nothing, nor do its own
      kept' = ms.indices().forall(q => after[q] == ms[q] or (q == j and r.out != Panic and r.out != Nothing)) }
  }

  pure def wellFormed(k: g::Machine): bool = and {
    length(k.u) == 4 and length(k.s) == 4,
    k.u.indices().forall(j => fits({ bits: k.bits, sg: false }, k.u[j])),
    k.s.indices().forall(j => fits({ bits: k.bits, sg: true }, k.s[j]))
  }

  val inv = and {
    length(ms) == THREADS,
    ms.indices().forall(j => wellFormed(ms[j])),
    ms.indices().forall(j => ms[j].checks == ms[0].checks),
    kept
  }
}
