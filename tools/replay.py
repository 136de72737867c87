"""run.py replay FILE: the calls of a recorded trace, made again on the library in /repo and judged again.

Exits 1 and prints the VIOLATION line when the trace is rejected again, 0 when every event is now a step of
the specification.  Other files (the generated program of C12) re-run the check they come from."""
import json
import os
import re


def operand(d, by_ref=False):
    kind, val = d[0], d[1]
    if kind in ("v", "r", "w"):
        return "%s%d" % (kind, val)
    if isinstance(val, list):
        val = ",".join(str(x) for x in val)
    return "%s%s%s" % (kind, "&" if len(d) > 2 else ":", val)


def command(e):
    dst = [str(r[1]) for r in e["r"]] or ["15", "14"]
    return "%s|%s|%s" % (e["f"], ",".join(dst), ";".join(operand(a) for a in e["a"]))


def config(events, name):
    m = re.search(r"-(native|i686|b16|r16|b32|b64)-", name)
    if m:
        return m.group(1)
    a = events[0]["a"]
    word, usize = int(a[0][1], 16), int(a[1][1], 16)
    return {(64, 64): "native", (32, 32): "i686", (16, 64): "b16", (32, 64): "b32"}[(word, usize)]


def replay(rm, path):
    name = os.path.basename(path)
    prop = re.match(r"(C\d\d)", name).group(1)
    if not path.endswith(".trace"):
        print("replaying the whole check of", prop)
        w, _ = rm.check(prop)
        print("held")
        return 0
    events = []
    for line in open(path):
        try:
            events.append(json.loads(line))
        except ValueError:
            break
    cfg = config(events, name)
    feats = ["ext", "prim"]
    w = rm.Work("%s-replay" % prop)
    try:
        rm.build_java()
        rm.build_harness(cfg, feats)
        cmds = os.path.join(w.dir, "cmds")
        with open(cmds, "w") as f:
            for e in events:
                if e["f"] != "cfg":
                    f.write(command(e) + "\n")
        rm.run_and_validate(w, cfg, feats, ["replay", cmds], os.path.join(w.dir, "replay.ndjson"),
                            "%s-replay-%s-0" % (prop, cfg))
    except rm.Violation as v:
        rm.log(v.what)
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    finally:
        rm.shutil.rmtree(w.dir, ignore_errors=True)
    print("held: the %d calls of %s are steps of the specification" % (len(events), name))
    return 0
