"""Compile-time evaluation: calls of a trace are turned into constant
expressions, which the compiler evaluates while it compiles a small program;
the program then prints the constants. A call whose evaluation the compiler
rejects although the specification gives an answer, or whose constant is not
that answer, is a finding.

The expressions are the ones of the harness's evaluators, read from their
source, with the operands written out. Which operations can be evaluated at
compile time is asked of the compiler first."""
import glob, json, os, re
import verif

FAMILIES = ["addsub", "mul", "div", "powlog", "shift", "bits", "order", "conv", "encode", "parse", "scalar"]
PRIM = {"u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "usize", "isize"}


def table():
    """(family, form, operation, signed) -> (kind, expression, closures)"""
    t = {}
    for fam in FAMILIES:
        if fam == "scalar":
            continue
        scope, lets, only = None, {}, None
        for line in open(os.path.join(verif.HARNESS, "src", "eval", fam + ".rs")):
            m = re.match(r"macro_rules! (\w+)", line)
            if m:
                scope, lets = m.group(1), {}
                only = {"signed": True, "unsigned": False}.get(scope)
            m = re.match(r"\s+\(\$t:ident.*\$bits:literal, (true|false|\$sg:literal),", line)
            if m:
                only, lets = {"true": True, "false": False}.get(m.group(1)), {}
            m = re.match(r"\s+let (\w+) = \|\| arg::<([$\w]+)>\(\$args, (\d+)\);", line)
            if m:
                lets[m.group(1)] = (m.group(2), int(m.group(3)))
            m = re.match(r"\s+let a = \|\| make\(0\);", line)
            if m:
                lets["a"] = ("$t", 0)
            m = re.match(r'\s+\("([^"]+)", "([^"]+)"\) => (val|opt|res|show)\((.*)\),$', line)
            if m:
                form, op, kind, ex = m.groups()
                for sg in (False, True):
                    if only is None or only == sg:
                        t.setdefault((fam, form, op, sg), (kind, ex, dict(lets)))
    return t


def literal(ty, v, names):
    if ty in PRIM:
        return "(%d%s)" % (v, ty) if v >= 0 else neg(ty, v)
    if ty == "bool":
        return "true" if v else "false"
    name = names[ty]
    bits = int(name[1:])
    b = (v % (1 << bits)).to_bytes(bits // 8, "little")
    return "%s::from_le_bytes([%s])" % (name, ",".join(map(str, b)))


def neg(ty, v):
    return "%s::MIN" % ty if v == -(1 << (int(ty[1:]) - 1 if ty != "isize" else 63)) else "(%d%s)" % (v, ty)


def digits(v, bits, base, big):
    v %= 1 << bits
    d = [(v >> (base * i)) & ((1 << base) - 1) for i in range(bits // base)]
    return "[%s]" % ",".join(map(str, reversed(d) if big else d))


def scalar(form, op, args, limb):
    form, _, alias = form.partition("/")
    code = args[2]
    ty = ("u" if code > 0 else "i") + str(abs(code))
    suffix = ty[0] + alias if alias else ty
    return "opt" if form == "checked" else "val", "a().%s%s_%s(%s)" % (
        "" if form == "plain" else form + "_", op, suffix, literal(ty, args[1], {}))


def expression(tab, fam, form, op, bits, sg, args, limb):
    """The Rust constant expression for a call, or None."""
    names = {"$t": ("I" if sg else "U") + str(bits), "$u": "U%d" % bits, "$s": "I%d" % bits}
    if fam == "scalar":
        kind, ex = scalar(form, op, args, limb)
        lets = {"a": ("$t", 0)}
    else:
        hit = tab.get((fam, form, op, sg))
        if not hit:
            return None
        kind, ex, lets = hit
    if fam == "parse":
        try:
            text = "".join(chr(c) for c in args[1:])
            text.encode()
        except (ValueError, UnicodeEncodeError):
            return None
        ex = ex.replace("&text($args)", json_str(text))
    base = {"bytes": 8, "u32": 32, "u64": 64, "limbs": limb, "wide": 2 * limb}.get(op.split("_")[-1])
    if "array" in ex:
        ex = re.sub(r"array(::<.*>)?\(&db\(\), (true|false)\)", lambda m: digits(args[1], bits, base, m.group(2) == "true"), ex)
    ex = re.sub(r"if crate::LIMB32 \{ (\d+) \} else \{ (\d+) \}", lambda m: m.group(1 if limb == 32 else 2), ex)
    for n, (ty, i) in lets.items():
        if i >= len(args):
            continue
        ex = re.sub(r"\b%s\(\)" % n, lambda m: literal(ty, args[i], names), ex)
    ex = re.sub(r"arg::<(.*?)>\(\$args, (\d+)\)", lambda m: literal(m.group(1), args[int(m.group(2))], names), ex)
    if fam == "conv":
        # the parameter types are in the order of the argument list
        def conv(m):
            i = int(m.group(1))
            tys = ["", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"]
            return literal(tys[i], args[i], names) if 0 < i < len(tys) else "$"
        ex = re.sub(r"arg\(\$args, (\d+)\)", conv, ex)
    want = "bool" if op in ("carrying_add", "borrowing_sub") else "$t" if op == "carrying_mul" else "u32"
    ex = re.sub(r"arg\(\$args, (\d+)\)", lambda m: literal(want, args[int(m.group(1))], names), ex)
    for k, v in names.items():
        ex = ex.replace(k, v)
    if "$" in re.sub(r'"(\\.|[^"\\])*"', "", ex) or re.search(r"\b(all|other|opaque|hash|text|words|d!)\b", ex):
        return None
    return ("val" if kind == "show" else kind), ex


def json_str(s):
    return '"' + "".join(c if c.isascii() and c.isalnum() else "\\u{%x}" % ord(c) for c in s) + '"'


PRELUDE = """#![allow(warnings)]
#![allow(long_running_const_eval)]
#[path = "%(src)s/big.rs"] mod big;
#[path = "%(src)s/out.rs"] mod out;
pub struct BadArg(pub usize);
use ::i256::*;
use out::{val, opt, res};
"""


class Bench:
    """Compiles constants against one build of the crate."""

    def __init__(self, check, config, binary):
        self.check, self.config = check, config
        self.limb = 32 if "limb32" in config else 64
        self.deps = os.path.join(os.path.dirname(binary), "deps")
        # one build directory holds one build of the crate
        libs = glob.glob(os.path.join(self.deps, "libi256-*.rlib"))
        if len(libs) != 1:
            raise verif.ToolError("expected one library in %s, found %d" % (self.deps, len(libs)))
        self.lib = libs[0]

    def compile(self, items, name):
        """items: list of (kind, expression). Returns {item index: error code}, other diagnostics, binary."""
        path = os.path.join(self.check.work, name + ".rs")
        lines = (PRELUDE % dict(src=os.path.join(verif.HARNESS, "src"))).split("\n")[:-1]
        at = {}
        for i, (kind, ex) in enumerate(items):
            at[len(lines) + 1] = i
            lines.append("fn f%d() { println!(\"%d\\t{}\", %s(const { %s })); }" % (i, i, kind, ex))
        lines.append("fn main() { for f in [%s] as [fn(); %d] { f() } }" % (",".join("f%d" % i for i in range(len(items))), len(items)))
        with open(path, "w") as fh:
            fh.write("\n".join(lines) + "\n")
        exe = path[:-3]
        rc, out, err = verif.run(["rustc", "--edition", "2021", "--error-format", "json", "-C", "opt-level=0", "-C", "debuginfo=0",
                                  "--extern", "i256=" + self.lib, "-L", "dependency=" + self.deps, "-o", exe, path], 600)
        bad, rest = {}, []
        for line in err.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("level") != "error":
                continue
            code = (d.get("code") or {}).get("code")
            hit = [at[s["line_start"]] for s in spans(d) if s["file_name"] == path and s["line_start"] in at]
            for i in hit:
                if code or i not in bad:
                    bad[i] = (code, d["message"])
            if not hit and not d["message"].startswith("aborting"):
                rest.append(d["message"])
        return rc, bad, rest, exe


def spans(d):
    for s in d.get("spans", []):
        yield s
    for c in d.get("children", []):
        for s in spans(c):
            yield s


def calls(path, skip):
    """The calls of a trace; skip: marks of other configurations."""
    for n, st in enumerate(json.load(open(path))["states"]):
        s = st.get("s")
        if not s or not s["obs"]:
            continue
        args = [int(a["#bigint"]) for a in s["args"]]
        for k, o in enumerate(s["obs"]):
            form, op, want = o["#tup"]
            base, *marks = form.split("@")
            if skip.intersection(marks):
                continue
            yield dict(file=path, state=n, obs=k, fam=st.get("fam", ""), form=form, base=base, op=op,
                       bits=int(s["ty"]["bits"]["#bigint"]), sg=s["ty"]["sg"], args=args, want=want)


def expected(want):
    if want["tag"] == "V":
        return "[%s]" % ", ".join(x["#bigint"] for x in want["value"])
    if want["tag"] in ("Nothing", "Panic"):
        return want["tag"].lower()
    return "error %s" % want["value"]


def agrees(want, got):
    e = expected(want)
    return got == e or (e == "error Any" and got.startswith("error "))


def evaluate(check, config, binary, picked, tag):
    """Evaluates the given calls at compile time; returns findings and the number of constants compared."""
    b = Bench(check, config, binary)
    tab = table()
    todo = []
    for c in picked:
        ex = expression(tab, c["fam"], c["base"], c["op"], c["bits"], c["sg"], c["args"], b.limb)
        if ex:
            todo.append((c, ex))
    tag = "const-%s-%s" % (config, tag)
    # ask which operations are constant functions: one call of each
    probe = {}
    for c, ex in todo:
        probe.setdefault((c["fam"], c["base"], c["op"], c["sg"]), ex)
    keys = list(probe)
    rc, bad, rest, exe = b.compile([probe[k] for k in keys], tag + "-probe")
    no = set(keys[i] for i, (code, _) in bad.items() if code != "E0080")
    todo = [(c, ex) for c, ex in todo if (c["fam"], c["base"], c["op"], c["sg"]) not in no]
    found = []
    # calls specified to panic must be rejected by the compiler
    live = [x for x in todo if x[0]["want"]["tag"] == "Panic"]
    n = len(live)
    for turn in range(3):
        if not live:
            break
        rc, bad, rest, exe = b.compile([ex for _, ex in live], "%s-panic-%d" % (tag, turn))
        if rc == 0:
            rc, out, err = verif.run([exe], 300)
            found += [finding(live[int(i)][0], config, got) for i, got in (x.split("\t") for x in out.splitlines())]
            return found, n, len(keys) - len(no)
        live = [x for i, x in enumerate(live) if i not in bad]
    todo = [x for x in todo if x[0]["want"]["tag"] != "Panic"]
    for turn in range(3):
        live = todo
        rc, bad, rest, exe = b.compile([ex for _, ex in live], "%s-%d" % (tag, turn))
        if rc == 0:
            break
        for i, (code, msg) in bad.items():
            c, ex = live[i]
            if code == "E0080":
                found.append(finding(c, config, "not evaluable at compile time: " + msg.replace("\n", " ")))
        if found:
            return found, 0, len(keys) - len(no)
        drop = {id(live[i][0]) for i in bad}
        if not drop:
            raise verif.ToolError("constants of %s do not compile: %s" % (config, "; ".join(rest)[:1000]))
        todo = [x for x in live if id(x[0]) not in drop]
    else:
        raise verif.ToolError("constants of %s do not compile: %s" % (config, str(bad)[:1000]))
    rc, out, err = verif.run([exe], 300)
    if rc != 0:
        raise verif.ToolError("program of constants failed (%s): %s" % (rc, err[-500:]))
    done = 0
    for line in out.splitlines():
        i, got = line.split("\t")
        c = live[int(i)][0]
        done += 1
        if not agrees(c["want"], got):
            found.append(finding(c, config, got))
    if done != len(live):
        raise verif.ToolError("program of constants printed %d of %d" % (done, len(live)))
    return found, n + done, len(keys) - len(no)


def finding(c, config, got):
    return dict(kind="compile time", file=c["file"], state=c["state"], obs=c["obs"], ty=("i" if c["sg"] else "u") + str(c["bits"]),
                form=c["form"], op=c["op"], args=[str(a) for a in c["args"]], expected=expected(c["want"]), got=got,
                config=config, const=True)
