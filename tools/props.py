"""What each check runs.  Sizes are bytes of trace per shard."""


import os

import literals
from sweeps import sweep


def runs(size, scale=100, native=2, b16=2, r16=1, i686=1, b32=0, b64=0, gen=None):
    out = []
    for cfg, n in (("native", native), ("b16", b16), ("r16", r16), ("i686", i686), ("b32", b32), ("b64", b64)):
        if n:
            r = {"cfg": cfg, "shards": n, "size": size, "scale": scale}
            if gen:
                r["gen"] = gen
            out.append(r)
    return out


def with_programs(d, *names):
    d["programs"] = list(names)
    return d


def std(size=3_200_000, big=8_000_000, scale=100, bigscale=None, features=(), models=(), bigmodels=(), extra=(), **kw):
    return {
        "features": list(features),
        "extra": list(extra),
        "quick": {"runs": runs(size, scale, **kw), "models": list(models)},
        "thorough": {"runs": runs(big, bigscale or scale, native=6, b16=4, r16=3, i686=4, b32=4, b64=2),
                     "models": list(models) + list(bigmodels)},
    }


def literals_native(rm, w, plan):
    literals.job(rm, w, plan, "native")


def literals_b16(rm, w, plan):
    literals.job(rm, w, plan, "b16")


def lockstep(rm, w, plan, pair, k):
    """C22: the same program on two builds, compared call by call by TraceEq."""
    seed = (rm.SEED * 1000003 + rm.hash_int("C22-lockstep") + k) % (1 << 31)
    label = "C22-lockstep-%s-%s-%d" % (pair[0], pair[1], seed)
    traces = []
    for c in pair:
        t = os.path.join(w.dir, "%s-%s.ndjson" % (label, c))
        r = rm.run_harness(w, c, ALL, ["gen", "C22", seed, plan["lockstep"], 100], t)
        if not r[0]:
            rm.stopped(w, label, t, r)
        traces.append(t)
    rm.validate(w, traces[0], "TraceEq", {"TRACE2": traces[1]}, label)


def lockstep_jobs(n, pairs):
    out = []
    for k in range(n):
        for q in pairs:
            out.append(lambda rm, w, plan, q=q, k=k: lockstep(rm, w, plan, q, k))
    return out


EXT = ["ext"]
PRIM = ["prim"]
ALL = ["ext", "prim"]

def lockstepped(d):
    d["quick"]["lockstep"] = 1_200_000
    d["thorough"]["lockstep"] = 5_000_000
    d["extra_quick"] = lockstep_jobs(1, [("native", "b16"), ("native", "i686")])
    d["extra_thorough"] = lockstep_jobs(3, [("native", "b16"), ("native", "i686"), ("native", "b32"), ("b64", "b16")])
    return d


WORD = {"native": 64, "i686": 32, "b16": 16, "r16": 16, "b32": 32, "b64": 64}


def div_commands(x, k):
    """Operands of a division: borrowed, and one owned form."""
    sign = ["", "-"][k % 2], ["", "-"][k // 2 % 2]
    yield "load|0|u:%s" % x[0]
    yield "load|1|u:%s" % x[1]
    yield "divrem|2,3|r0;r1"
    if k % 4 == 0:
        yield ["div|2|v0;r1", "rem|2|w0;v1", "divreme|2,3|v0;v1", "rem|2|r0;v1"][k // 4 % 4]
    else:
        yield "load|0|i:%s%s" % (sign[0], x[0])
        yield "load|1|i:%s%s" % (sign[1], x[1])
        yield ["div|2|v0;r1", "divreme|2,3|r0;r1", "dive|2|v0;v1", "reme|2|r0;r1", "rem|2|w0;r1"][k % 5]


def mul_commands(x, k):
    yield "load|0|u:%s" % x[0]
    yield "load|1|u:%s" % x[1]
    yield "mul|2|%s" % ["r0;r1", "v0;r1", "r0;v1", "v0;v1", "w0;r1", "r1;r0"][k % 6]


def word_division_commands(x, k):
    if x[0] == "small":
        yield "load|0|u:%s" % x[1]
        yield "fmt||r0;c:r;u32:%s;u32:0;u32:0;u32:0;u32:0" % x[2]
        return
    yield "load|0|u:%s" % x[1]
    yield "load|1|u:%s" % x[2]
    yield "divrem|2,3|r0;r1"
    yield "rem|2|r0;r1"


def add_start(wb):
    """Sums and differences along each course of carries, in each type and form that takes it."""
    word = {"0": 0, "1": 1, "3": (1 << wb) - 1}

    def value(digits):
        return "%x" % sum(word[d] << (wb * i) for i, d in enumerate(digits))

    def commands(x, k):
        a, b = value(x[1]), value(x[2])
        if x[0] in ("add", "sub", "swap"):
            yield "load|0|u:%s" % a
            yield "load|1|u:%s" % b
            if x[0] == "add":
                yield "add|2|%s" % ["r0;r1", "v0;r1", "w0;v1", "w0;r1"][k % 4]
            elif x[0] == "sub":
                yield "sub|2|%s" % ["v0;r1", "v0;v1", "w0;r1", "w0;v1", "r0;r1"][k % 5]
            else:
                yield "sub|2|r0;v1"
        if x[0] in ("add", "signed"):
            minus, other = ["", "-"][k // 4 % 2], ["-", ""][k // 4 % 2]
            op = ["add", "sub"][k // 2 % 2]
            same = (x[0] == "add") == (op == "add")
            yield "load|4|i:%s%s" % (minus, a)
            yield "load|5|i:%s%s" % (minus if same else other, b)
            yield "%s|6|%s" % (op, ["r4;r5", "v4;r5", "r4;v5", "v4;v5", "w4;r5", "w4;v5"][k % 6])
    return commands


def float_commands(x, k):
    """The number: a leading one, ones or zeros, the last bit and the half, and one bit further down."""
    p, top, ones, last, low = (int(v) for v in x)
    z = (1 << (p - 1)) | last >> 1
    if ones:
        z |= ((1 << (p - 1)) - 1) & ~1
    cut = top - (p + 1)
    z = (z << 1 | last & 1) << cut if cut >= 0 else z
    if low >= 0:
        z |= 1 << low
    yield "load|0|u:%x" % z
    yield "f32||r0"
    yield "f64||r0"
    yield "load|1|i:-%x" % z
    yield "f32||r1"
    yield "f64||r1"


def plain_commands(x, k):
    """The program is a list of calls already."""
    yield from (t for t in x if t != "~")


def tagged(*tags):
    """Programs of one family: their first word says what they ask for."""
    def commands(x, k):
        if x[0] in tags:
            yield from (t for t in x[1:] if t != "~")
    return commands


def calling(*names):
    """Programs whose last call is one of these operations."""
    def commands(x, k):
        if [t for t in x if t != "~"][-1].split("|")[0] in names:
            yield from (t for t in x if t != "~")
    return commands


# Models whose behaviours become programs for the real library.
GENERATED = {
    "GenKnuth": {"commands": div_commands},
    "GenDivHalf": {"commands": div_commands},
    "GenFastDiv": {"commands": word_division_commands},
    "GenForms": {"commands": tagged()},
    "GenAdd": {"start": add_start, "sized": False},
    "GenFloat": {"commands": float_commands, "sized": False},
    "FormsAll": {"from": "GenForms", "commands": lambda x, k: (t for t in x[1:] if t != "~")},
    "FormsAdd": {"from": "GenForms", "commands": tagged("add", "sub")},
    "FormsMul": {"from": "GenForms", "commands": tagged("mul")},
    "FormsDiv": {"from": "GenForms", "commands": tagged("div", "rem", "divrem", "dive", "reme", "divreme")},
    "FormsShift": {"from": "GenForms", "commands": tagged("shl", "shr")},
    "FormsBitwise": {"from": "GenForms", "commands": tagged("and", "or", "xor", "andnot", "not")},
    "FormsBit": {"from": "GenForms", "commands": tagged("bit", "setbit", "clearbit")},
    "FormsSign": {"from": "GenForms", "commands": tagged("neg", "abs", "uabs", "signum")},
    "FormsConvert": {"from": "GenForms", "commands": tagged("i2u", "to_u8", "to_u16", "to_u32", "to_u64", "to_u128", "to_usize",
                                                            "to_i8", "to_i16", "to_i32", "to_i64", "to_i128", "to_isize")},
    "FormsFloat": {"from": "GenForms", "commands": tagged("f32", "f64")},
    "GenRepr": {"commands": plain_commands},
    "GenPow": {"commands": plain_commands},
    "GenRing": {"commands": tagged()},
    "RingArithmetic": {"from": "GenRing", "commands": tagged("plain", "inverse")},
    "RingInverse": {"from": "GenRing", "commands": tagged("inverse")},
    "RingMixed": {"from": "GenRing", "commands": tagged("mixed")},
    "GenGcd": {"commands": plain_commands},
    "GenPrim": {"commands": plain_commands},
    "PrimAdd": {"from": "GenPrim", "commands": calling("add", "sub")},
    "PrimMul": {"from": "GenPrim", "commands": calling("mul")},
    "PrimDiv": {"from": "GenPrim", "commands": calling("div", "rem", "divrem", "dive", "reme", "divreme")},
    "PrimBitwise": {"from": "GenPrim", "commands": calling("and", "or", "xor", "andnot")},
    "GenText": {"commands": tagged(), "sized": False},
    "TextParse": {"from": "GenText", "commands": tagged("parse"), "sized": False},
    "TextFormat": {"from": "GenText", "commands": tagged("fmt"), "sized": False},
    "TextRing": {"from": "GenText", "commands": tagged("ring"), "sized": False},
    "GenFail": {"commands": tagged()},
    "FailAll": {"from": "GenFail", "commands": lambda x, k: (t for t in x[1:] if t != "~")},
    "FailRadix": {"from": "GenFail", "commands": tagged("radix")},
    "FailRing": {"from": "GenFail", "commands": tagged("ring")},
    "FailDiv": {"from": "GenFail", "commands": tagged("zero")},
    "FailSample": {"from": "GenFail", "commands": tagged("sample")},
    "GenSweep": {"commands": tagged()},
    "SweepAdd": sweep("add", "carry"),
    "SweepMul": sweep("square", "oblong", "thirds"),
    "SweepDiv": sweep("divide", "far"),
    "SweepPow": sweep("power"),
    "SweepShift": sweep("shift"),
    "SweepLogic": sweep("logic"),
    "SweepBits": sweep("bits", "query"),
    "SweepCompare": sweep("compare"),
    "SweepRead": sweep("read"),
    "SweepPrint": sweep("print"),
    "SweepBytes": sweep("bytes"),
    "SweepFloat": sweep("float"),
    "SweepGcd": sweep("gcd", "gcdzeros"),
    "SweepRing": sweep("ring"),
    "SweepRingPower": sweep("ringpower"),
    "SweepSerial": sweep("serial"),
    "GenToom3": {"commands": mul_commands},
    "GenKaratsuba": {"commands": mul_commands},
}

PROPS = {
    "C01": with_programs(std(features=PRIM), "FormsAdd", "PrimAdd", "SweepAdd", "GenAdd"),
    "C02": with_programs(std(features=PRIM, scale=1200, bigscale=2500, models=["MCToom3", "MCKaratsuba"]), "GenToom3", "GenKaratsuba", "FormsMul", "PrimMul", "SweepMul"),
    "C03": with_programs(std(features=PRIM, models=["MCKnuth", "MCDivHalf", "MCFastDiv"]), "GenKnuth", "GenDivHalf", "GenFastDiv", "FormsDiv", "PrimDiv", "SweepDiv", "FailDiv"),
    "C04": with_programs(std(), "SweepPow"),
    "C05": with_programs(std(), "FormsShift", "SweepShift"),
    "C06": with_programs(std(features=PRIM), "FormsBitwise", "PrimBitwise", "SweepLogic"),
    "C07": with_programs(std(), "FormsBit", "SweepBits"),
    "C08": with_programs(std(), "SweepCompare"),
    "C09": with_programs(std(), "FormsSign"),
    "C10": with_programs(std(size=3_000_000, models=["MCText:MCText4"]), "TextParse", "SweepRead", "FailRadix"),
    "C11": with_programs(std(size=3_000_000, models=["MCText"]), "GenFastDiv", "TextFormat", "SweepPrint", "FailRadix"),
    "C12": {"features": [], "extra": ["literals_native", "literals_b16"], "configs": ["native", "b16"],
            "quick": {"runs": [], "literals": 2500}, "thorough": {"runs": [], "literals": 8000}},
    "C13": with_programs(std(), "SweepBytes"),
    "C14": with_programs(std(), "FormsConvert"),
    "C15": with_programs(std(), "FormsFloat", "SweepFloat", "GenFloat"),
    "C16": with_programs(std(scale=60, models=["MCGcd", "MCGcd:MCGcdEnds"]), "GenGcd", "SweepGcd"),
    "C17": with_programs(std(scale=40, models=["MCRing"]), "RingArithmetic", "SweepRing", "FailRing"),
    "C18": with_programs(std(scale=40, models=["MCPow"]), "GenPow", "RingInverse", "SweepRingPower", "FailRing"),
    "C19": with_programs(std(), "TextRing", "RingMixed", "FailRing"),
    "C20": with_programs(std(features=EXT), "SweepSerial"),
    "C21": with_programs(std(features=EXT, scale=200000, bigscale=2000000), "FailSample"),
    "C22": lockstepped(std(features=ALL)),
    "C23": with_programs(std(features=PRIM), "FormsAll"),
    "C24": std(b16=2, r16=2, native=1),
    "C25": with_programs(std(features=ALL), "GenRepr", "FormsAll", "FailAll"),
    "C26": with_programs(std(features=ALL, models=["MCRepr"]), "GenRepr"),
    "C27": with_programs(std(features=PRIM), "GenPrim"),
}

# The abstract machine explored at a small size, one family of operations at
# a time, against laws stated on TLC's own integers; and the integers.
MACHINE = {
    "C01": ['MCIbig:MCIbig_arithmetic'],
    "C02": ['MCIbig:MCIbig_arithmetic'],
    "C03": ['MCIbig:MCIbig_arithmetic'],
    "C04": ['MCIbig:MCIbig_shift'],
    "C05": ['MCIbig:MCIbig_shift'],
    "C06": ['MCIbig:MCIbig_logic'],
    "C07": ['MCIbig:MCIbig_bits'],
    "C08": ['MCIbig:MCIbig_compare'],
    "C09": ['MCIbig:MCIbig_sign'],
    "C10": ['MCIbig:MCIbig_parse'],
    "C11": ['MCIbig:MCIbig_format'],
    "C12": ['MCIbig:MCIbig_literal'],
    "C13": ['MCIbig:MCIbig_bytes'],
    "C14": ['MCIbig:MCIbig_convert'],
    "C15": ['MCIbig:MCIbig_float'],
    "C16": ['MCIbig:MCIbig_gcd'],
    "C17": ['MCIbig:MCIbig_ring'],
    "C18": ['MCIbig:MCIbig_ring'],
    "C19": ['MCIbig:MCIbig_ring'],
    "C20": ['MCIbig:MCIbig_serial'],
    "C21": ['MCIbig:MCIbig_sample'],
    "C23": ['MCIbig:MCIbig_arithmetic', 'MCIbig:MCIbig_clone'],
    "C24": ['MCIbig:MCIbig_arithmetic', 'MCIbig:MCIbig_shift'],
    "C25": ['MCIbig:MCIbig_arithmetic', 'MCIbig:MCIbig_ring'],
    "C26": ['MCIbig:MCIbig_clone'],
    "C27": ['MCIbig:MCIbig_primitive'],
    "C22": ["MCBigZ"],
}
MACHINE["C24"] += ["MCDigits"]
for _c in ("C02", "C03", "C17"):
    MACHINE[_c].append("MCScratch")
MACHINE["C21"].append("MCSample")
for _m, _cs in {"MCFloat": ["C15"], "MCAdd": ["C01"], "MCTwos": ["C05", "C06"], "MCBits": ["C07"], "MCPack": ["C13", "C20"]}.items():
    for _c in _cs:
        MACHINE[_c].append(_m)
for _c in ("C02", "C03"):
    PROPS[_c]["thorough"]["models"].append("MCScratch:MCScratchLong")
for _c, _m in MACHINE.items():
    for _tier in ("quick", "thorough"):
        PROPS[_c][_tier]["models"] = PROPS[_c][_tier].get("models", []) + _m
