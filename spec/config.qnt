// -*- mode: Bluespec; -*-
/// C16 - independence of the build configuration.
///
/// Every step is a step of one of the other modules, so one program run visits
/// the whole interface. The answers carry no configuration except two marks:
/// the overflow-check setting (@on, @off) and the limb size where a parameter
/// or a result is a limb (@32, @64). The law states what those marks may
/// change, and all builds are held to the same answers.
module config {
  import base.* from "./base"
  import addsub as f0 from "./addsub"
  import mul as f1 from "./mul"
  import divrem as f2 from "./divrem"
  import powlog as f3 from "./powlog"
  import shift as f4 from "./shift"
  import bits as f5 from "./bits"
  import scalar as f6 from "./scalar"
  import order as f7 from "./order"
  import conv as f8 from "./conv"
  import encode as f9 from "./encode"
  import parse as f10 from "./parse"
  import format as f11 from "./format"
  import operators as f12 from "./operators"
  import numtraits as f13 from "./numtraits"

  pure val families: List[str] = ["addsub", "mul", "div", "powlog", "shift", "bits", "scalar", "order", "conv", "encode",
    "parse", "format", "operators", "numtraits"]

  pure def draw(k: int, prev: List[int], e: int): Step = {
    val p = if (length(prev) == 0) 0 else prev[0]
    if (k == 0) f0::draw(p, e)
    else if (k == 1) f1::draw(p, e)
    else if (k == 2) f2::draw(p, e)
    else if (k == 3) f3::draw(p, e)
    else if (k == 4) f4::draw(p, e)
    else if (k == 5) f5::draw(p, e)
    else if (k == 6) f6::draw(p, e)
    else if (k == 7) f7::draw(prev, e)
    else if (k == 8) f8::draw(p, e)
    else if (k == 9) f9::draw(p, e)
    else if (k == 10) f10::draw(p, e)
    else if (k == 11) f11::draw(p, e)
    else if (k == 12) f12::draw(p, e)
    else f13::draw(p, e)
  }

  /// How often each family is visited; long-folding ones less.
  pure val schedule: List[int] = [0, 0, 0, 1, 1, 1, 2, 2, 2, 2, 3, 3, 4, 4, 5, 6, 6, 6, 6, 7, 8, 9, 10, 11, 12, 12, 13]

  var s: Step
  var fam: str

  action init = all { s' = noStep, fam' = "none" }
  action step = {
    nondet e = 0.to(ENT).oneOf()
    nondet j = 0.to(length(schedule) - 1).oneOf()
    val n = draw(schedule[j], s.args, e)
    all { s' = n, fam' = families[schedule[j]] }
  }

  pure val marked: List[(str, str)] = [
    ("plain@on", "plain@off"), ("plain/limb@on@64", "plain/limb@off@64"), ("plain/limb@on@32", "plain/limb@off@32"),
    ("plain/wide@on@64", "plain/wide@off@64"), ("plain/wide@on@32", "plain/wide@off@32"),
    ("op@on", "op@off"), ("value@on", "value@off"), ("ref@on", "ref@off"), ("both ref@on", "both ref@off"),
    ("assign@on", "assign@off"), ("assign ref@on", "assign ref@off"), ("method@on", "method@off"),
    ("Pow@on", "Pow@off"), ("PrimInt@on", "PrimInt@off"), ("Signed@on", "Signed@off"),
    ("MulAdd@on", "MulAdd@off"), ("MulAddAssign@on", "MulAddAssign@off"), ("generic@on", "generic@off")
  ]

  /// With checks an operation answers as without, or panics; and the build
  /// without checks panics only where the one with checks does.
  val inv =
    s.obs.indices().forall(i => {
      val x = s.obs[i]
      val m = marked.select(p => p._1 == x._1)
      length(m) == 0 or
        s.obs.indices().exists(j => s.obs[j]._1 == m[0]._2 and s.obs[j]._2 == x._2 and
          (s.obs[j]._3 == x._3 or x._3 == Panic))
    })
}
