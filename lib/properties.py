"""What each check explores: specification module, harness family, build
configurations and size of the exploration (jobs, steps per trace, traces per
job) for the quick and the thorough tier."""
from verif import BASE, EVERY, FULL

SPEC_TRUST = [
    "Quint's simulator evaluates the specification correctly",
    "the harness maps each specified operation to the public call of the same meaning",
    "answers are compared on the operands explored, not on all operands",
]


def leg(spec, main, quick, thorough, inv="inv", **kw):
    return dict(spec=spec, main=main, inv=inv, quick=quick, thorough=thorough, **kw)


def grid(name):
    """A systematic exploration, the same in every run."""
    return dict(grid="grid_" + name)


def model(name, **kw):
    """Laws of a model of the method, on all of its small operands; nothing to replay."""
    return dict(grid=name, model=True, inv="inv", **kw)


def prop(id, legs, features, configs=BASE, level="model_checking", **kw):
    return dict(id=id, legs=legs, features=features, configs=configs, level=level, assumptions=SPEC_TRUST, **kw)


ALL = ["addsub", "mul", "div", "powlog", "shift", "bits", "scalar", "order", "conv", "encode", "parse", "format",
       "operators", "numtraits"]

# cases of long division: estimate right, lowered once, lowered twice, one too
# large in the end, taken as the largest digit; for both limb sizes
LONGDIV = ["back=%s fixes=%s limb=%s top=%s" % x for w in ("32", "64") for x in (
    ("false", "0", w, "false"), ("false", "1", w, "false"), ("false", "2", w, "false"), ("true", "0", w, "false"),
    ("true", "1", w, "false"), ("false", "0", w, "true"), ("true", "0", w, "true"))]

# a carry, a borrow; stopped at a limb, lost at the top
CARRIES = ["carry=true limb=%s out=%s sub=%s" % (w, o, s) for w in ("32", "64") for o in ("false", "true")
           for s in ("false", "true")]
# products that fit, with nonzero limbs meeting above the top, with a carry out of it
LONGMUL = ["cause=%s limb=%s" % (c, w) for w in ("32", "64") for c in ("fits", "beyond", "spill")]

# powers that fit, that outgrow the type by a square or only by the last product
POWERING = ["cause=%s sg=%s" % (c, s) for c in ("fits", "square", "product") for s in ("false", "true")]

ROUTINES = ["finished=true routine=%s" % x for x in (
    "euclid", "bezout", "fibonacci", "factorial", "digits 10^9", "digits 2^32-1", "newton", "long sum", "long difference",
    "long product", "binary gcd", "squaring", "collatz", "kernighan", "inverse", "gray", "fraction", "network", "mixing")]

PROPS = {p["id"]: p for p in [
    prop("C01", [leg("addsub.qnt", "addsub", (16, 600, 5), (160, 1000, 5)), grid("addsub"), dict(grid("carries"), cases=CARRIES),
                 model("carries")], ["addsub"]),
    prop("C02", [leg("mul.qnt", "mul", (16, 1000, 6), (160, 1000, 8)), grid("mul"), grid("mulfit"),
                 dict(grid("longmul"), cases=LONGMUL), model("longmul")], ["mul"]),
    prop("C03", [leg("divrem.qnt", "divrem", (16, 700, 5), (160, 1000, 6)), grid("divrem"),
                 dict(grid("longdiv"), cases=LONGDIV), model("longdiv", quick=386), model("rounding")], ["div"], FULL),
    prop("C04", [leg("powlog.qnt", "powlog", (16, 500, 5), (160, 800, 6)), dict(grid("powlog"), cases=POWERING), model("powering")],
         ["powlog"]),
    prop("C05", [leg("shift.qnt", "shift", (16, 500, 5), (160, 800, 6)), grid("shift"), model("shifting")], ["shift"]),
    prop("C06", [leg("bits.qnt", "bits", (16, 300, 5), (160, 800, 5), law_jobs=2), grid("bits"), model("counting")], ["bits"]),
    prop("C07", [leg("scalar.qnt", "scalar", (16, 500, 5), (160, 800, 6)), grid("scalar"), model("scalars")], ["scalar"], FULL),
    prop("C08", [leg("order.qnt", "order", (16, 500, 5), (160, 800, 6), law_jobs=4), grid("order"), model("comparing")], ["order"]),
    prop("C09", [leg("conv.qnt", "conv", (16, 400, 5), (160, 800, 6), law_jobs=4), grid("conv"), model("regrouping")], ["conv"]),
    prop("C10", [leg("encode.qnt", "encode", (16, 200, 5), (160, 400, 5), law_jobs=2), grid("encode"), model("regrouping")], ["encode"]),
    prop("C11", [leg("parse.qnt", "parse", (16, 300, 5), (160, 800, 5), law_jobs=4), grid("parse"), model("numerals")], ["parse"]),
    prop("C12", [leg("format.qnt", "format", (16, 100, 5), (160, 200, 5), law_jobs=4), grid("format")], ["format"]),
    prop("C13", [leg("operators.qnt", "operators", (16, 500, 5), (160, 800, 6), law_jobs=4), grid("operators")], ["operators"]),
    prop("C14", [leg("numtraits.qnt", "numtraits", (16, 150, 5), (160, 400, 5), law_jobs=4), grid("numtraits")], ["numtraits"]),
    prop("C15", [leg("program.qnt", "program", (16, 700, 12), (160, 1000, 20), law_jobs=4),
                 dict(grid("program"), unit=8, part=8000)], ["program"], FULL),
    prop("C16", [leg("config.qnt", "config", (16, 300, 4), (160, 800, 5), law_jobs=2), dict(grid("config"), part=4000)], ALL, EVERY,
         constants=["limb64-checks", "limb32-release"]),
    prop("C17", [leg("blocks.qnt", "blocks", (16, 500, 4), (160, 800, 6), law_jobs=4), grid("blocks")], ["blocks"], FULL,
         optional="blocks"),
    prop("C18", [leg("errors.qnt", "errors", (16, 200, 5), (160, 500, 5), law_jobs=2), grid("errors")], ["errors"]),
    prop("C19", [leg("routines.qnt", "routines", (16, 1500, 4), (160, 2000, 8), law_jobs=4, cases=ROUTINES),
                 dict(grid("routines"), inv="inv", unit=10, part=12000)], ["program"], FULL),
    prop("C20", [leg("threads.qnt", "threads", (8, 400, 4), (80, 500, 10), law_jobs=2),
                 dict(grid("threads"), inv="inv", unit=10, part=4200)], ["threads"], fresh=3,
         note="Every schedule of three threads with three instructions each, and schedules of 400 turns drawn by the specification, "
              "performed by real threads turn by turn; then each program by all threads at the same time, repeatedly. The interleavings "
              "inside an operation are those the machine produces, not all. Trusts Quint's simulator and the harness."),
]}
