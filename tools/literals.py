"""C12: programs full of ubig! and ibig! literals, compiled against the library; every literal's value goes to
the specification as a "lit" event."""
import os
import random
import shutil
import subprocess

DIGITS = "0123456789abcdefghijklmnopqrstuvwxyz"

# Scopes a literal may be written in.  The names in scope must not matter.
SCOPES = {
    "plain": "use ibig::{ubig, ibig};",
    "path": "",
    "hostile": """#![allow(dead_code, non_camel_case_types, unused_macros, non_upper_case_globals, unused_imports)]
        use ::ibig::{ubig, ibig};
        pub struct Option; pub struct Result; pub struct From; pub struct UBig; pub struct IBig; pub struct str;
        pub struct Some; pub struct None; pub struct Ok; pub struct Err; pub struct Neg; pub struct String;
        pub type u128 = u8; pub type u64 = u8; pub type u32 = u8; pub type usize = u8; pub type bool = u8;
        pub mod core { pub mod primitive { pub type u128 = u8; } }
        pub mod std {} pub mod alloc {} pub mod ibig {}
        macro_rules! stringify { ($($t:tt)*) => { "7" } }
        macro_rules! concat { ($($t:tt)*) => { "7" } }
        macro_rules! panic { ($($t:tt)*) => { loop {} } }
        pub fn expect() {} pub fn unwrap_or() {} pub fn strip_prefix() {} pub fn from() {} pub fn neg() {}
        pub trait Evil { fn unwrap_or<T>(self, _: T) -> u8; fn expect(self, _: &::core::primitive::str) -> u8;
                         fn strip_prefix(self, _: u8) -> u8; fn into(self) -> u8; fn neg(self) -> u8; fn parse(self) -> u8; }
        impl<S> Evil for S {
            fn unwrap_or<T>(self, _: T) -> u8 { 7 } fn expect(self, _: &::core::primitive::str) -> u8 { 7 }
            fn strip_prefix(self, _: u8) -> u8 { 7 } fn into(self) -> u8 { 7 } fn neg(self) -> u8 { 7 }
            fn parse(self) -> u8 { 7 } }""",
}


def digits(r, n, base, upper=False):
    d = [DIGITS[r.randrange(base)] for _ in range(n)]
    k = r.randrange(6)
    if k == 0:
        d = ["0"] * n
        d[0] = DIGITS[r.randrange(1, base)]
    elif k == 1:
        d = [DIGITS[base - 1]] * n
    elif k == 2:
        z = r.randrange(n)
        d = ["0"] * z + d[z:]
    s = "".join(d)
    return "".join(c.upper() if upper or (r.random() < .3) else c for c in s) if r.random() < .4 else s


def group(r, s):
    """Underscores inside a Rust literal (never first)."""
    if r.random() < .5:
        return s
    out = s[0]
    for c in s[1:]:
        out += "_" * (r.randrange(1, 3) if r.random() < .3 else 0) + c
    return out + ("_" if r.random() < .2 else "")


KEYWORDS = {"as", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern", "false", "fn", "for", "if",
            "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "static", "super",
            "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "abstract", "become", "box", "do",
            "final", "macro", "override", "priv", "try", "typeof", "unsized", "virtual", "yield", "gen"}


def is_rust_int(s):
    """Is s, starting with a digit, one Rust literal token that the macros' base form can take verbatim?"""
    low = s.lower()
    if s.isdigit():
        return int(s) < 1 << 128
    k = 0
    while k < len(s) and s[k].isdigit():
        k += 1
    return low[k:] == s[k:] and s[k:] in ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128") \
        and s[:k].isdigit() and int(s[:k]) < 100 and not (s.startswith("0") and len(s) > 1 and not s[1].isdigit())


def literal(r):
    """(macro argument without the sign, text for the specification, radix: 0 by prefix)"""
    kind = r.randrange(10)
    long = r.choice([1, 1, 2, 3, 5, 8, 13, 20, 32, 37, 60, 130])
    if kind < 3:  # a Rust integer literal below 2^128
        base, pre = r.choice([(10, ""), (16, "0x"), (8, "0o"), (2, "0b")])
        if r.random() < .3:
            e = r.choice([8, 16, 31, 32, 63, 64, 127, 128])
            v = max(0, min((1 << 128) - 1, (1 << e) + r.randrange(-2, 3)))
            n = ""
            while v or not n:
                n = DIGITS[v % base] + n
                v //= base
        else:
            top = {10: 38, 16: 32, 8: 42, 2: 128}[base]
            n = digits(r, r.randrange(1, top + 1), base)
            if base != 16:
                n = n.lower()
        t = pre + group(r, n)
        return t, t, 0
    if kind < 5:  # an identifier: underscore and any number of digits
        base, pre = r.choice([(10, ""), (16, "0x"), (8, "0o"), (2, "0b")])
        n = pre + digits(r, long * r.choice([1, 1, 3]), base)
        return "_" + n, n, 0
    base = r.randrange(2, 37)
    n = digits(r, long, base)
    if kind < 7 or (n[0].isdigit() and not is_rust_int(n)) or n.lower() in KEYWORDS or n[:2] in ("r#",):
        return "_" + n + " base %d" % base, n, base
    if kind == 7 and base > 31:
        n = r.choice(["1u8", "7i16", "99u32", "5i64", "12u128", "8u64"])
        return n + " base %d" % base, n, base
    return n + " base %d" % base, n, base


def program(seed, count):
    r = random.Random(seed)
    scopes = list(SCOPES)
    body = {s: [] for s in scopes}
    for _ in range(count):
        s = r.choice(scopes)
        arg, text, radix = literal(r)
        signed = r.random() < .5
        neg = signed and r.random() < .6
        m = "ibig" if signed else "ubig"
        path = {"path": "::ibig::"}.get(s, "")
        if s == "hostile":
            path = r.choice(["", "::ibig::"])
        call = "%s%s!(%s%s)" % (path, m, "-" if neg and r.random() < .5 else ("- " if neg else ""), arg)
        if r.random() < .2:
            call = "crate::via_tt!(%s)" % call
        if r.random() < .2:
            call = "{ const _N: crate::P = 1; %s }" % call
        codes = ",".join(str(ord(c)) for c in ("-" if neg else "") + text)
        body[s].append('crate::%s("[%s]", %d, || %s);' % (m, codes, radix, call))
    out = ["""#![allow(unused_imports, non_snake_case, clippy::all)]
use std::fmt::Write as _;
pub type P = u16;
macro_rules! via_tt { ($($t:tt)*) => { $($t)* } }
pub(crate) use via_tt;
fn hex(b: &[u8], neg: bool) -> String {
    let mut s = String::new();
    for x in b.iter().rev() { write!(s, "{:02x}", x).unwrap(); }
    let t = s.trim_start_matches('0');
    if t.is_empty() { "0".into() } else { format!("{}{}", if neg { "-" } else { "" }, t) }
}
fn event(ty: &str, text: &str, radix: u32, r: Result<String, Box<dyn std::any::Any + Send>>) {
    let (o, r) = match r { Ok(h) => ("ok", format!("[\\"{}\\",0,\\"{}\\"]", ty, h)), Err(_) => ("panic", String::new()) };
    println!("{{\\"f\\":\\"lit\\",\\"a\\":[[\\"ty\\",\\"{}\\"],[\\"s\\",{}],[\\"u32\\",\\"{:x}\\"]],\\"o\\":\\"{}\\",\\"r\\":[{}]}}", ty, text, radix, o, r);
}
pub fn ubig(text: &str, radix: u32, f: impl FnOnce() -> ibig::UBig + std::panic::UnwindSafe) {
    event("u", text, radix, std::panic::catch_unwind(|| hex(&f().to_le_bytes(), false)));
}
pub fn ibig(text: &str, radix: u32, f: impl FnOnce() -> ibig::IBig + std::panic::UnwindSafe) {
    event("i", text, radix, std::panic::catch_unwind(|| {
        let x = f();
        let neg = x < ibig::IBig::from(0u8);
        hex(&ibig::ops::UnsignedAbs::unsigned_abs(&x).to_le_bytes(), neg)
    }));
}
"""]
    for s in scopes:
        fns, ls = [], body[s]
        for k in range(0, len(ls), 25):
            fns.append("pub fn f%d() {\n%s\n}" % (k // 25, "\n".join(ls[k:k + 25])))
        calls = "pub fn all() { %s }" % " ".join("f%d();" % k for k in range((len(ls) + 24) // 25))
        head = SCOPES[s].split("\n")
        attr = head[0] if head[0].startswith("#![") else ""
        rest = "\n".join(head[1:] if attr else head)
        out.append("pub mod %s {\n%s\n%s\n%s\n%s\n}" % (s, attr, rest, "\n".join(fns), calls))
    out.append("""fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    println!("CONFIG");
    %s
}""" % " ".join("%s::all();" % s for s in scopes))
    return "\n".join(out)


def job(rm, w, plan, cfg):
    """An extra job of check C12."""
    one(rm, w, cfg, (rm.SEED * 1000003 + rm.hash_int("C12" + cfg)) % (1 << 31), plan["literals"])


def one(rm, w, cfg, seed, n):
    d = os.path.join(w.dir, "prog-" + cfg)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    head = os.path.join(w.dir, "head-" + cfg)
    subprocess.run([rm.binary(cfg, []), "gen", "C01", "1", "1", "100", head], stdout=subprocess.DEVNULL, timeout=60)
    src = program(seed, n).replace("CONFIG", open(head).readline().strip().replace("{", "{{").replace("}", "}}").replace('"', '\\"'))
    open(os.path.join(d, "src", "main.rs"), "w").write(src)
    toml = open(os.path.join(rm.HARNESS, "Cargo.toml")).read()
    profiles = toml[toml.index("# Plain release build"):].replace("opt-level = 1", "opt-level = 0")
    open(os.path.join(d, "Cargo.toml"), "w").write(
        '[package]\nname = "literals"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
        'ibig = { path = "%s", default-features = false, features = ["std"] }\n' % rm.REPO + profiles)
    shutil.copy(os.path.join(rm.HARNESS, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    target = os.path.join(d, "target")
    p = subprocess.run(["cargo", "build", "-q", "--offline"] + rm.CONFIGS[cfg][0], cwd=d, env=rm.cargo_env(cfg, target),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    label = "C12-%s-%d" % (cfg, seed)
    if p.returncode != 0:
        if "src/main.rs" in p.stdout:
            rp = w.replay_file(label + ".rs", src)
            raise rm.Violation("%s: a literal the macros accept does not compile: %s" % (label, p.stdout[:800]), rp)
        raise rm.CheckError("building the literal program (%s) failed:\n%s" % (cfg, p.stdout[-4000:]))
    exe = os.path.join(target, rm.CONFIGS[cfg][2], "literals")
    trace = os.path.join(w.dir, label + ".ndjson")
    with open(trace, "w") as f:
        p = subprocess.run([exe], stdout=f, stderr=subprocess.PIPE, text=True, timeout=120)
    if p.returncode != 0:
        raise rm.CheckError("the literal program ended with %s: %s" % (p.returncode, p.stderr[-1000:]))
    rm.validate(w, trace, label=label)
    shutil.rmtree(d, ignore_errors=True)
