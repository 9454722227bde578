"""Decides one property: explores the Quint specification, replays its traces
into the real crate built from /repo's working tree in several configurations,
and compares every answer."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 4)

# build configurations of the code under test: name -> cargo arguments
CONFIGS = {
    "limb64-checks": [],
    "limb32-checks": ["--features", "limb32"],
    "limb64-release": ["--release"],
    "limb32-release": ["--release", "--features", "limb32"],
    "limb64-noasm-release": ["--release", "--features", "noasm"],
    "limb32-noasm-checks": ["--features", "limb32,noasm"],
    "limb64-unopt": ["--profile", "unopt"],
    "limb32-optchecks": ["--profile", "optchecks", "--features", "limb32"],
    # without the functions for standard scalars
    "limb64-lean-release": ["--release", "--no-default-features"],
    "limb32-lean-checks": ["--no-default-features", "--features", "limb32"],
}
BASE = ["limb64-checks", "limb32-checks", "limb64-release", "limb32-release"]
FULL = BASE + ["limb64-noasm-release"]
EVERY = FULL + ["limb32-noasm-checks", "limb64-unopt", "limb32-optchecks", "limb64-lean-release", "limb32-lean-checks"]


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["HOME"] = e.get("HOME", "/root")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in list(e):
        if k.startswith("CARGO_PROFILE_") or k in (
            "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "RUSTC_WRAPPER",
            "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_INCREMENTAL"):
            del e[k]
    return e


def run(cmd, timeout, cwd=None, extra=None):
    e = env()
    if extra:
        e.update(extra)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("timed out after %d s: %s" % (timeout, " ".join(cmd)[:300]))
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


class Check:
    def __init__(self, cfg):
        self.cfg = cfg
        self.id = cfg["id"]
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
        self.t0 = time.time()
        root = os.path.join(VERIF, ".work")
        os.makedirs(root, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=self.id + "-", dir=root)
        self.findings = []
        self.lock = threading.Lock()
        self.summ = {}
        self.traces = 0
        self.states = 0
        self.notes = {}

    # ------------------------------------------------------------ building
    def build(self, config, features=None):
        feats = features or self.cfg["features"]
        tgt = os.path.join(self.work, "target-" + config)
        args = CONFIGS[config]
        cmd = ["cargo", "build", "--offline", "--quiet", "--bin", "harness", "--features", ",".join(feats)] + args
        src = HARNESS
        for attempt in range(5):
            rc, out, err = run(cmd, 600, cwd=src, extra={"CARGO_TARGET_DIR": tgt})
            if rc == 0:
                break
            src = self.without_absent(config, src, err)
        else:
            raise ToolError("build of %s failed:\n%s" % (config, err[-4000:]))
        prof = args[1] if "--profile" in args else "release" if "--release" in args else "debug"
        return os.path.join(tgt, prof, "harness")

    def without_absent(self, config, src, err):
        """A copy of the harness that does not call the undocumented functions
        the compiler did not find; those calls count as not applicable."""
        name = self.cfg.get("optional")
        lines = sorted({int(x) for x in re.findall(r"--> src/eval/%s\.rs:(\d+):" % name, err)}) if name else []
        if not lines or "error" not in err:
            raise ToolError("build of %s failed:\n%s" % (config, err[-4000:]))
        if src == HARNESS:
            src = os.path.join(self.work, "harness-" + config)
            shutil.copytree(HARNESS, src, ignore=shutil.ignore_patterns("target"))
        path = os.path.join(src, "src", "eval", name + ".rs")
        text = open(path).read().split("\n")
        with self.lock:
            gone = self.notes.setdefault("functions_not_in_this_tree", {}).setdefault(config, [])
        hit = False
        for n in lines:
            line = text[n - 1]
            m = re.match(r'(\s*"(\w+)" => )(?!std::panic)', line)
            if m:
                text[n - 1] = m.group(1) + "std::panic::panic_any(crate::Absent),"
                gone.append(m.group(2))
                hit = True
            elif line.startswith("use ::i256::math::"):
                text[n - 1] = ""
                hit = True
        if not hit:
            raise ToolError("build of %s failed:\n%s" % (config, err[-4000:]))
        with open(path, "w") as fh:
            fh.write("\n".join(text))
        return src

    # ----------------------------------------------------------- exploring
    def subseed(self, *parts):
        s = ":".join(str(p) for p in (self.seed, self.id) + parts)
        return int(hashlib.sha256(s.encode()).hexdigest()[:12], 16)

    def quint_run(self, leg, job, steps, samples):
        """One simulation of the specification; returns its trace files."""
        d = os.path.join(self.work, "t-%s-%d" % (leg["main"], job))
        os.makedirs(d)
        cmd = ["quint", "run", os.path.join(SPEC, leg["spec"]), "--main", leg["main"],
               "--max-steps", str(steps), "--max-samples", str(samples), "--n-traces", str(samples),
               "--seed", str(self.subseed(leg["main"], job)), "--verbosity", "1", "--n-threads", "1",
               "--out-itf", os.path.join(d, "{seq}.itf.json")]
        if leg.get("inv") and job < leg.get("law_jobs", steps):
            cmd += ["--invariant", leg["inv"]]
        if leg.get("init"):
            cmd += ["--init", leg["init"]]
        if leg.get("step"):
            cmd += ["--step", leg["step"]]
        rc, out, err = run(cmd, 800)
        if rc != 0:
            raise ToolError("the specification's own laws failed or quint failed (%s):\n%s"
                            % (" ".join(cmd), (out + err)[-3000:]))
        return d, sorted(os.path.join(d, f) for f in os.listdir(d))

    def grid_run(self, leg, first, count):
        """The points first, first + 1, ... of a systematic exploration."""
        name = "%s-%d" % (leg["grid"], first)
        d = os.path.join(self.work, "t-" + name)
        os.makedirs(d)
        src = os.path.join(self.work, name + ".qnt")
        with open(src, "w") as fh:
            fh.write('module part {\n  import %s.* from "%s"\n  action start = from(%d)\n}\n' % (
                leg["grid"], os.path.relpath(os.path.join(SPEC, leg["grid"]), self.work), first))
        cmd = ["quint", "run", src, "--main", "part", "--init", "start", "--step", "step", "--max-steps", str(count - 1),
               "--max-samples", "1", "--n-traces", "1", "--verbosity", "1", "--n-threads", "1",
               "--out-itf", os.path.join(d, "0.itf.json")]
        if leg.get("inv"):
            cmd += ["--invariant", leg["inv"]]
        rc, out, err = run(cmd, 800)
        if rc != 0:
            raise ToolError("the specification's own laws failed or quint failed (%s):\n%s"
                            % (" ".join(cmd), (out + err)[-3000:]))
        return d, sorted(os.path.join(d, f) for f in os.listdir(d))

    def grid_parts(self, leg):
        """(first point, number of points) of each part."""
        text = open(os.path.join(SPEC, leg["grid"] + ".qnt")).read()
        size = int(re.search(r"pure val SIZE: int = (\d+)", text).group(1))
        size = min(size, leg.get(self.tier, size))
        part = -(-size // max(16, -(-size // leg.get("part", 2500))))
        part += -part % leg.get("unit", 1)
        parts = [(i, min(part, size - i)) for i in range(0, size, part)]
        if self.tier == "quick" and leg.get("share"):
            parts = parts[self.seed % leg["share"]::leg["share"]]
        self.notes.setdefault("model_points" if leg.get("model") else "systematic_points", {})[leg["grid"]] = sum(
            n for _, n in parts)
        return parts

    # ----------------------------------------------------------- replaying
    def replay(self, binary, config, files):
        found, summ = self.perform(binary, config, files, ["replay"] + files)
        if self.cfg.get("fresh"):
            # the same operations, first used by several threads at once
            for path in files:
                for who in range(self.cfg["fresh"]):
                    if found:
                        break
                    found, s = self.perform(binary, config, [path], ["fresh", path, str(who)])
                    with self.lock:
                        self.notes["first_uses_in_step"] = self.notes.get("first_uses_in_step", 0) + (s or {}).get("steps", 0)
        return found, summ

    def perform(self, binary, config, files, args):
        rc, out, err = run([binary] + args, 800)
        found, summ = [], None
        for line in out.splitlines():
            f = line.split("\t")
            if f[0] == "MISMATCH":
                found.append(dict(kind="mismatch", file=f[1], state=int(f[2]), obs=int(f[3]), ty=f[4], form=f[5],
                                  op=f[6], args=f[7].split(",") if f[7] else [], expected=f[8], got=f[9], config=config))
            elif f[0] in ("CRASH", "HANG"):
                found.append(self.describe(files[int(f[1])], int(f[2]), int(f[3]), config,
                             "process killed by signal %s" % f[4] if f[0] == "CRASH" else "does not terminate"))
            elif f[0] == "SUMMARY":
                summ = json.loads(f[1])
        if rc == 0 and summ is not None and not found:
            return found, summ
        if rc == 1 and found:
            return found, summ
        raise ToolError("replay of %s failed (exit %s): %s" % (config, rc, (err or out)[-2000:]))

    def describe(self, path, state, obs, config, what):
        st = json.load(open(path))["states"][state]
        if "ms" in st:
            st["mach"] = st["ms"][int(st["who"]["#bigint"])]
        if "mach" in st:
            i = st["ins"]
            return dict(kind=what, file=path, state=state, obs=obs,
                        ty=("i" if i["sg"] else "u") + st["mach"]["bits"]["#bigint"], form="program", op=i["op"],
                        args=[i[k]["#bigint"] for k in ("d", "x", "y", "n")], expected=json.dumps(st["ans"]),
                        got=what, config=config)
        st = st["s"]
        o = st["obs"][obs]["#tup"]
        return dict(kind=what, file=path, state=state, obs=obs,
                    ty=("i" if st["ty"]["sg"] else "u") + st["ty"]["bits"]["#bigint"], form=o[0], op=o[1],
                    args=[a["#bigint"] for a in st["args"]], expected=json.dumps(o[2]), got=what, config=config)

    def absorb(self, config, found, summ):
        with self.lock:
            for f in found:
                f["trace_states"] = load_states(f["file"], f["state"])
                self.findings.append(f)
            if summ:
                t = self.summ.setdefault(config, dict(traces=0, steps=0, evals=0, skipped=0, distinct=0, ops={}))
                for k in ("traces", "steps", "evals", "skipped", "distinct"):
                    t[k] += summ[k]
                for k, v in summ["ops"].items():
                    o = t["ops"].setdefault(k, [0, 0, 0, 0])
                    for i in range(4):
                        o[i] += v[i]

    # ------------------------------------------------------------ the check
    def main(self):
        try:
            rc = self.decide()
        except ToolError as e:
            print("ERROR %s: %s" % (self.id, e))
            rc = 2
        finally:
            shutil.rmtree(self.work, ignore_errors=True)
        sys.stdout.flush()
        sys.exit(rc)

    def decide(self):
        cfg = self.cfg
        with cf.ThreadPoolExecutor(JOBS + 8) as ex:
            sem = threading.Semaphore(JOBS)
            builds = {c: ex.submit(self.build, c) for c in cfg["configs"]}

            def job(leg, i, explore):
                with sem:
                    if self.findings:
                        return
                    d, files = explore()
                if leg.get("model"):
                    return
                if leg.get("cases"):
                    self.tally(leg, files)
                with self.lock:
                    self.traces += len(files)
                bins = {c: b.result() for c, b in builds.items()}
                with sem:
                    for c, b in bins.items():
                        found, summ = self.replay(b, c, files)
                        self.absorb(c, found, summ)
                    if "main" in leg and (i < 4 or self.tier == "thorough"):
                        for c in cfg.get("constants", []):
                            self.constants(c, bins[c], files, "%s-%d" % (leg["main"], i))
                    if i == 0:
                        self.sample(files[0])
                        self.binding(bins, files)
                shutil.rmtree(d, ignore_errors=True)

            futs = []
            for leg in cfg["legs"]:
                if "grid" in leg:
                    for i, (first, count) in enumerate(self.grid_parts(leg)):
                        futs.append(ex.submit(job, leg, i, lambda l=leg, f=first, c=count: self.grid_run(l, f, c)))
                    continue
                n, steps, samples = leg[self.tier]
                for i in range(n):
                    futs.append(ex.submit(job, leg, i, lambda l=leg, i=i, n=steps, m=samples: self.quint_run(l, i, n, m)))
            errs = []
            for f in futs + list(builds.values()):
                try:
                    f.result()
                except ToolError as e:
                    errs.append(e)
            if errs and not self.findings:
                raise errs[0]
            for leg in cfg["legs"]:
                for case in leg.get("cases", []):
                    if not self.findings and not any(case in k for k in self.notes["cases_taken"]):
                        raise ToolError("the exploration never takes the case %s" % case)
        return self.conclude()

    def tally(self, leg, files):
        """Counts the cases a systematic exploration says it has taken."""
        n = {}
        for path in files:
            for st in json.load(open(path))["states"]:
                k = " ".join("%s=%s" % (k, plain1(v)) for k, v in sorted(st["ev"].items()) if not k.startswith("#"))
                n[k] = n.get(k, 0) + 1
        with self.lock:
            t = self.notes.setdefault("cases_taken", {})
            for k, v in n.items():
                t[k] = t.get(k, 0) + v

    def constants(self, config, binary, files, tag):
        """Compares what the compiler makes of some of the calls."""
        import consteval
        skip = {"64" if "limb32" in config else "32", "off" if "checks" in config else "on"}
        groups = {}
        for path in files:
            for c in consteval.calls(path, skip):
                groups.setdefault((c["fam"], c["form"], c["op"], c["sg"], c["want"]["tag"]), []).append(c)
        found, n, ops = consteval.evaluate(self, config, binary, [c for g in groups.values() for c in g[:8]], tag)
        self.absorb(config, found, None)
        with self.lock:
            k = self.notes.setdefault("compile_time", {}).setdefault(config, dict(constants=0, operations=0))
            k["constants"] += n
            k["operations"] = max(k["operations"], ops)

    def sample(self, path):
        st = json.load(open(path))["states"]
        if "ms" in st[0]:
            for x in st[:4]:
                x["mach"] = x["ms"][int(x["who"]["#bigint"])]
        if "mach" in st[0]:
            with self.lock:
                self.notes.setdefault("samples", []).extend(
                    dict(instruction=dict(x["ins"], **{k: x["ins"][k]["#bigint"] for k in "dxyn"}), answer=plain(x["ans"]),
                         bits=x["mach"]["bits"]["#bigint"], u=[v["#bigint"] for v in x["mach"]["u"]],
                         s=[v["#bigint"] for v in x["mach"]["s"]]) for x in st[:4])
            return
        pick = [s for s in st if s.get("s", {}).get("obs")][:2]
        with self.lock:
            for s in pick:
                s = s["s"]
                self.notes.setdefault("samples", []).append(dict(
                    ty=("i" if s["ty"]["sg"] else "u") + s["ty"]["bits"]["#bigint"],
                    args=[a["#bigint"] for a in s["args"]],
                    answers=[[o["#tup"][0] + " " + o["#tup"][1], plain(o["#tup"][2])] for o in s["obs"][:6]]))

    def binding(self, bins, files):
        """The conformance check must reject a trace whose answers are wrong."""
        for binary in bins.values():
            rc, out, err = run([binary, "corrupt", files[0]], 800)
            last = [x for x in out.splitlines() if x.startswith("SUMMARY\t")]
            if not last:
                raise ToolError("replay of a corrupted trace failed (exit %s): %s" % (rc, (err or out)[-2000:]))
            summ = json.loads(last[0].split("\t")[1])
            # a program for the other overflow-check setting is not performed
            if summ["evals"]:
                break
        if summ["bad"] != summ["evals"] or summ["evals"] == 0:
            raise ToolError("corrupted trace was not rejected: %s" % summ)
        with self.lock:
            self.notes["corrupted_answers_rejected"] = self.notes.get("corrupted_answers_rejected", 0) + summ["bad"]

    def conclude(self):
        for f in self.findings:
            f["seed"] = self.seed
            f["property"] = self.id
            f["features"] = self.cfg["features"]
        known, new = split_known(self.id, self.findings)
        self.evidence(len(new))
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.id, k))
        if not new:
            t = sum(s["evals"] for s in self.summ.values())
            print("HELD property=%s traces=%d evaluations=%d wall=%.0fs" % (self.id, self.traces, t, time.time() - self.t0))
            return 0
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = set()
        for f in new:
            key = (f["form"], f["op"], f["kind"])
            if key in seen:
                continue
            seen.add(key)
            h = hashlib.sha256(json.dumps([f["ty"], f["form"], f["op"], f["args"], f["config"]]).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (self.id, h))
            with open(path, "w") as fh:
                json.dump(f, fh, indent=1)
            print("  %s %s on %s(%s) [%s]: specified %s, got %s" % (
                f["form"], f["op"], f["ty"], short(f["args"]), f["config"], f["expected"][:200], f["got"][:200]))
            print("VIOLATION property=%s replay=%s" % (self.id, path))
            if len(seen) >= 8:
                break
        return 1

    def evidence(self, violations):
        evals = sum(s["evals"] for s in self.summ.values())
        steps = max([s["steps"] for s in self.summ.values()] or [0])
        distinct = max([s["distinct"] for s in self.summ.values()] or [0])
        ops = {}
        for s in self.summ.values():
            for k, v in s["ops"].items():
                o = ops.setdefault(k, [0, 0, 0, 0])
                for i in range(4):
                    o[i] += v[i]
        cov = dict(
            states=distinct,
            transitions=steps,
            traces_validated_against_impl=self.traces,
            implementation_calls=evals,
            samples=self.notes.pop("samples", []),
            configurations={c: dict(calls=s["evals"], not_applicable=s["skipped"]) for c, s in self.summ.items()},
            answers_per_operation={k: dict(value=v[0], nothing=v[1], panic=v[2], error=v[3]) for k, v in sorted(ops.items())},
        )
        cov.update(self.notes)
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level=self.cfg["level"], coverage=cov,
                  assumptions=self.cfg.get("assumptions", []), wall_s=round(time.time() - self.t0, 2),
                  violations=violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
            fh.write("\n")


def load_states(path, n):
    """What is needed to replay state n: the state, or the whole program up to it."""
    try:
        st = json.load(open(path))["states"]
        if "ms" in st[n]:
            # the whole program: what the other threads do matters
            boots = [i for i in range(len(st)) if st[i]["ins"]["op"] == "boot"] + [len(st)]
            return st[max(i for i in boots if i <= n):min(i for i in boots if i > n)]
        if "mach" not in st[n]:
            return [st[n]]
        return st[max(i for i in range(n + 1) if st[i]["ins"]["op"] == "boot"):n + 1]
    except Exception:
        return None


def plain1(v):
    return v["#bigint"] if isinstance(v, dict) else str(v).lower()


def plain(o):
    if o["tag"] == "V":
        return [x["#bigint"] for x in o["value"]]
    return o["tag"] if o["tag"] != "Err" else "Err " + str(o["value"])


def short(args):
    s = ", ".join(args)
    return s if len(s) < 300 else s[:300] + "..."


def split_known(pid, findings):
    """known-findings.txt: lines `known: property=ID form=F op=O ty=T args=a,b,... -- what fails`
    suppress exactly that call; `fixed:` lines suppress nothing."""
    entries = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) form=(\S+) op=(\S+) ty=(\S+) args=(\S+) -- (.*)", line)
            if m and m.group(1) == pid:
                entries.append(m.groups())
    known, new = [], []
    for f in findings:
        hit = [e for e in entries if (f["form"], f["op"], f["ty"], ",".join(f["args"])) == e[1:5]]
        if hit:
            known.append(hit[0][5])
        else:
            new.append(f)
    return sorted(set(known)), new
