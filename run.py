#!/usr/bin/env python3
"""Runs the check of one property:  run.py check <property> | run.py setup | run.py replay <file>

Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough).
Exit 0: held.  Exit 1 and a VIOLATION line: broken.  Anything else: the check itself failed.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
REPO = "/repo"
TOOLCHAIN = "1.99.1-x86_64-unknown-linux-gnu"
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
CPUS = max(2, os.cpu_count() or 2)
START = time.time()


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def log(*a):
    print("[%6.1f]" % (time.time() - START), *a, flush=True)


# ------------------------------------------------------------------ building

CONFIGS = {
    # name: (extra cargo arguments, rustflags, binary directory)
    "native": (["--release"], "", "release"),
    "i686": (["--release", "--target", "i686-unknown-linux-gnu"], "", "i686-unknown-linux-gnu/release"),
    "b16": (["--profile", "checked"], '--cfg force_bits="16"', "checked"),
    "r16": (["--release"], '--cfg force_bits="16"', "release"),
    "b32": (["--profile", "checked"], '--cfg force_bits="32"', "checked"),
    "b64": (["--profile", "checked"], '--cfg force_bits="64"', "checked"),
}


def cargo_env(cfg, target):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["RUSTFLAGS"] = ("-Awarnings " + CONFIGS[cfg][1]).strip()
    e["CARGO_TARGET_DIR"] = target
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("CARGO_BUILD_TARGET", None)
    return e


def binary(cfg, features):
    return os.path.join(BUILD, cfg, "-".join(["f"] + sorted(features)), CONFIGS[cfg][2], "ibig-conform")


def build_harness(cfg, features):
    """Builds the interpreter against /repo's working tree."""
    target = os.path.join(BUILD, cfg, "-".join(["f"] + sorted(features)))
    cmd = ["cargo", "build", "-q", "--offline", "--locked"] + CONFIGS[cfg][0]
    if features:
        cmd += ["--features", ",".join(sorted(features))]
    p = subprocess.run(cmd, cwd=HARNESS, env=cargo_env(cfg, target), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("building the harness (%s) failed:\n%s" % (cfg, p.stdout[-4000:]))


def build_java():
    out = os.path.join(BUILD, "java")
    os.makedirs(out, exist_ok=True)
    src = os.path.join(VERIF, "java", "ibigspec", "BigOv.java")
    cls = os.path.join(out, "ibigspec", "BigOv.class")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return
    p = subprocess.run(["javac", "-nowarn", "-d", out, "-cp", TLA.split(":")[0], src],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("javac failed:\n" + p.stdout)


# ----------------------------------------------------------------------- TLC

class Tlc:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ""))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.ok = rc == 0 and "No error has been found" in out


def tlc(module, cfg=None, env=None, workers=1, mem="3g", args=(), timeout=800, workdir=None):
    meta = os.path.join(workdir or BUILD, "meta-%d-%d" % (os.getpid(), threading.get_ident() % 100000))
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:ibigspec.BigOv",
           "-Djava.io.tmpdir=" + meta,
           "-cp", TLA + ":" + os.path.join(BUILD, "java"), "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg or module + ".cfg"]
    cmd += list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors="replace")
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), -9
    shutil.rmtree(meta, ignore_errors=True)
    return Tlc(out, rc, time.time() - t)


def quiet(out):
    return "\n".join(l for l in out.splitlines()
                     if not l.startswith(("Semantic processing", "Parsing file", "Linting", "Progress")))


# -------------------------------------------------------------------- traces

class Work:
    """One check: its scratch directory and what it has covered so far."""

    def __init__(self, prop):
        self.prop = prop
        self.dir = os.path.join(BUILD, "work", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.lock = threading.Lock()
        self.states = 0
        self.transitions = 0
        self.traces = []
        self.models = []
        self.samples = []
        self.ops = {}
        self.outcomes = {}
        self.known = []

    def add_model(self, name, t):
        with self.lock:
            self.states += t.distinct
            self.transitions += t.generated
            self.models.append({"model": name, "states": t.distinct, "generated": t.generated,
                                "wall_s": round(t.wall, 1)})

    def replay_file(self, name, text):
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s" % (self.prop, name))
        with open(p, "w") as f:
            f.write(text)
        return p


def count_trace(w, path):
    """Book-keeping for the evidence: events by operation and outcome."""
    with open(path, errors="replace") as f:
        for n, line in enumerate(f):
            m = re.match(r'\{"f":"(\w+)"', line)
            o = re.search(r'\],"o":"([\w:]+)"', line)
            if not m or not o:
                continue
            with w.lock:
                w.ops[m.group(1)] = w.ops.get(m.group(1), 0) + 1
                w.outcomes[o.group(1)] = w.outcomes.get(o.group(1), 0) + 1
                if len(w.samples) < 6 and 40 < len(line) < 400 and n > 5 and (n % 97 == 0):
                    w.samples.append(line.strip())


def run_harness(w, cfg, features, args, trace, timeout=150):
    """Runs the interpreter.  Returns (complete, message): an incomplete trace is to be judged first."""
    cmd = [binary(cfg, features)] + [str(a) for a in args] + [trace]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           errors="replace")
        rc, msg = p.returncode, p.stdout[-2000:]
    except subprocess.TimeoutExpired:
        rc, msg = "timeout", "no end after %d s" % timeout
    if not os.path.exists(trace) or os.path.getsize(trace) == 0:
        raise CheckError("harness wrote no trace: %s\n%s" % (" ".join(cmd), msg))
    if rc == 0:
        return True, ""
    # Cut the call that never returned off; it is on record without an outcome.
    data = open(trace, errors="replace").read()
    cut = data.rfind("\n") + 1
    tail = data[cut:]
    if tail:
        with open(trace, "w") as f:
            f.write(data[:cut])
    return False, "harness ended with %s: %s\nunfinished call: %s" % (rc, msg.strip(), tail[:2000]), rc, tail


def validate(w, trace, module="TraceIbig", env=None, label=""):
    """TLC decides whether the recorded execution is a behaviour of the specification."""
    n = sum(1 for _ in open(trace, errors="replace"))
    e = {"TRACE": trace}
    e.update(env or {})
    t = tlc(module, env=e, workdir=w.dir)
    if t.ok:
        with w.lock:
            w.states += t.distinct
            w.transitions += t.generated
            w.traces.append({"trace": label or os.path.basename(trace), "events": n, "wall_s": round(t.wall, 1)})
        count_trace(w, trace)
        return
    m = re.search(r'"REJECTED",\s*(\d+)', t.out)
    if m:
        k = int(m.group(1))
        lines = open(trace, errors="replace").read().split("\n")
        bad = lines[k - 1] if k <= len(lines) else "(end)"
        rp = w.replay_file(label.replace("/", "-") + ".trace", "\n".join(lines[:k]) + "\n")
        raise Violation("%s: event %d is not a step of the specification: %s" % (label, k, bad[:700]), rp)
    raise CheckError("TLC failed on %s:\n%s" % (trace, quiet(t.out)[-3000:]))


def gen_and_validate(w, cfg, features, prop, seed, size, scale, tag=""):
    label = "%s-%s-%s%d" % (prop, cfg, tag, seed)
    trace = os.path.join(w.dir, label + ".ndjson")
    run_and_validate(w, cfg, features, ["gen", prop, seed, size, scale], trace, label)


def run_and_validate(w, cfg, features, args, trace, label):
    r = run_harness(w, cfg, features, args, trace)
    if r[0]:
        validate(w, trace, label=label)
        if not os.environ.get("VERIF_KEEP"):
            os.remove(trace)
        return
    validate(w, trace, label=label)  # a wrong event before the end takes precedence
    stopped(w, label, trace, r)


def stopped(w, label, trace, r):
    """The interpreter did not come to its end."""
    if isinstance(r[2], int) and 0 < r[2] < 128:
        raise CheckError(r[1])
    lines = open(trace, errors="replace").read()
    rp = w.replay_file(label + ".trace", lines + r[3] + "\n")
    raise Violation("%s: the call neither returned nor panicked: %s" % (label, r[1][:900]), rp)


def parallel(w, jobs, width):
    """Runs all jobs; a violation wins over an error of the machinery."""
    errors, violations = [], []

    def one(j):
        try:
            j()
        except Violation as v:
            violations.append(v)
        except CheckError as e:
            errors.append(e)

    with ThreadPoolExecutor(width) as ex:
        list(ex.map(one, jobs))
    if violations:
        raise violations[0]
    if errors:
        raise errors[0]


def run_model(w, name, workers=4, mem="4g"):
    """Exhaustive model checking of part of the specification itself."""
    t = tlc(name.split(":")[0], cfg=(name.split(":")[1] + ".cfg" if ":" in name else None), workers=workers, mem=mem,
            workdir=w.dir)
    if not t.ok:
        raise CheckError("model %s failed:\n%s" % (name, quiet(t.out)[-3000:]))
    w.add_model(name, t)


# ------------------------------------------- programs made from the specification

def generate(model, wb, out, workdir=None, timeout=1500, args=(), seed=None):
    """TLC explores a model at word size wb and prints programs (see Emit.tla)."""
    cfg = open(os.path.join(SPEC, model + ".cfg")).read()
    cfg = re.sub(r"\bWB = \d+", "WB = %d" % wb, cfg)
    d = workdir or BUILD
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.cfg" % (model, wb))
    with open(path, "w") as f:
        f.write(cfg)
    t = tlc(model, cfg=path, workdir=d, timeout=timeout, args=args)
    if not t.ok:
        raise CheckError("model %s failed:\n%s" % (model, quiet(t.out)[-3000:]))
    lines = [m.group(1) for m in re.finditer(r'^"?PROGRAM (.*?)"?$', t.out, re.M)]
    lines = [x.replace('\\"', '"').split(" # ")[0].rstrip() for x in lines]
    if not lines:
        raise CheckError("model %s made no programs" % model)
    with open(out, "w") as f:
        f.write("\n".join(lines) + "\n")
    return t


def programs(w, model, cfg, feats):
    """Run the programs of a model on the real code and check what it did."""
    import props
    g = props.GENERATED[model]
    wb = props.WORD[cfg] if g.get("sized", True) else 0
    name, model = model, g.get("from", model)
    if THOROUGH:
        path = os.path.join(w.dir, "%s-%d-%s.programs" % (name, wb, cfg))
        t = generate(model, wb or 64, path, os.path.join(w.dir, "gen-%s-%s" % (name, cfg)))
        w.add_model("%s (%d-bit words)" % (model, wb), t)
    else:
        path = os.path.join(SPEC, "gen", "%s-%d.programs" % (model, wb))
    cmds = os.path.join(w.dir, "%s-%s-%s.cmds" % (w.prop, name, cfg))
    commands = g["start"](props.WORD[cfg]) if "start" in g else g["commands"]
    with open(cmds, "w") as f:
        for k, line in enumerate(open(path)):
            for c in commands(line.split("#")[0].split(), k):
                f.write(c + "\n")
    label = "%s-%s-%s" % (w.prop, name, cfg)
    run_and_validate(w, cfg, feats, ["replay", cmds], os.path.join(w.dir, label + ".ndjson"), label)


# -------------------------------------------------------------------- checks

def check(prop):
    import props
    spec = props.PROPS[prop]
    w = Work(prop)
    plan = spec["thorough"] if THOROUGH else spec["quick"]
    cfgs = sorted({r["cfg"] for r in plan["runs"]} | set(spec.get("configs", [])))
    feats = spec.get("features", [])
    jobs = [lambda c=c: build_harness(c, feats) for c in cfgs] + [build_java]
    parallel(w, jobs, len(jobs))
    log("built", ", ".join(cfgs))
    jobs = []
    for extra in spec.get("extra", []) + spec.get("extra_" + ("thorough" if THOROUGH else "quick"), []):
        f = getattr(props, extra) if isinstance(extra, str) else extra
        jobs.append(lambda f=f: f(sys.modules[__name__], w, plan))
    for m in plan.get("models", []):
        jobs.append(lambda m=m: run_model(w, m))
    for m in spec.get("programs", []):
        for c in cfgs:
            if c in ("native", "i686", "b16"):
                jobs.append(lambda m=m, c=c: programs(w, m, c, feats))
    for r in plan["runs"]:
        for k in range(r.get("shards", 1)):
            seed = (SEED * 1000003 + hash_int(prop + r["cfg"]) + k) % (1 << 31)
            jobs.append(lambda r=r, seed=seed: gen_and_validate(
                w, r["cfg"], feats, r.get("gen", prop), seed, r["size"], r.get("scale", 100)))
    parallel(w, jobs, plan.get("width", CPUS - 2))
    return w, spec


def hash_int(s):
    return int(hashlib.sha256(s.encode()).hexdigest()[:7], 16)


def known_findings(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % prop):
                out.append(line.strip())
    return out


def evidence(prop, w, violations, error=None):
    os.makedirs(EVID, exist_ok=True)
    cov = {
        "states": w.states,
        "transitions": w.transitions,
        "traces_validated_against_impl": len(w.traces),
        "samples": w.samples or ["(none)"],
        "events_validated": sum(t["events"] for t in w.traces),
        "events_by_operation": dict(sorted(w.ops.items())),
        "events_by_outcome": dict(sorted(w.outcomes.items())),
        "models": w.models,
        "traces": w.traces,
    }
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
          "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - START, 1),
          "violations": violations,
          "assumptions": ["TLC and the JSON reader are right",
                          "values cross the boundary through from_le_bytes/to_le_bytes, unsigned_abs and < 0"]}
    if error:
        ev["error"] = error[:2000]
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        build_java()
        return 0
    if len(sys.argv) >= 2 and sys.argv[1] == "generate":
        import props
        build_java()
        os.makedirs(os.path.join(SPEC, "gen"), exist_ok=True)
        todo = [(m, wb) for m in (sys.argv[2:] or [g for g in props.GENERATED if "from" not in props.GENERATED[g]])
                for wb in ((16, 32, 64) if props.GENERATED[m].get("sized", True) else (0,))]

        def one(x):
            m, wb = x
            t = generate(m, wb or 64, os.path.join(SPEC, "gen", "%s-%d.programs" % (m, wb)),
                         os.path.join(BUILD, "gen-%s-%d" % (m, wb)))
            log(m, wb, t.distinct, "states", round(t.wall, 1), "s")

        with ThreadPoolExecutor(4) as ex:
            list(ex.map(one, todo))
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        import replay
        return replay.replay(sys.modules[__name__], sys.argv[2])
    if len(sys.argv) != 3 or sys.argv[1] != "check":
        print(__doc__)
        return 2
    prop = sys.argv[2]
    w = None
    try:
        w, spec = check(prop)
    except Violation as v:
        log(v.what)
        evidence(prop, Work.last, 1)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay), flush=True)
        return 1
    except CheckError as e:
        print("CHECK ERROR: %s" % e, flush=True)
        if Work.last:
            evidence(prop, Work.last, 0, str(e))
        return 2
    evidence(prop, w, 0)
    log("held: %d states, %d traces, %d events" % (w.states, len(w.traces), sum(t["events"] for t in w.traces)))
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(w.dir, ignore_errors=True)
    return 0


Work.last = None
_init = Work.__init__


def _remember(self, prop):
    _init(self, prop)
    Work.last = self


Work.__init__ = _remember

if __name__ == "__main__":
    sys.exit(main())
