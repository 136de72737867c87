"""The calls made for each size that spec/GenSweep.tla asks for."""
import hashlib

SYMBOLS = "0123456789abcdefghijklmnopqrstuvwxyz"


def stream(salt, n):
    """n pseudo-random bits."""
    out = b""
    k = 0
    while len(out) * 8 < n + 8:
        out += hashlib.sha256(b"%d %d" % (salt, k)).digest()
        k += 1
    return int.from_bytes(out, "big") & ((1 << n) - 1) if n else 0


def dense(n, salt=0):
    """A number of exactly n bits."""
    return stream(salt, n) | 1 << (n - 1) if n else 0


def u(k, x):
    return "load|%d|u:%x" % (k, x)


def i(k, x):
    return "load|%d|i:%s%x" % (k, "-" if x < 0 else "", abs(x))


FORMS = ["r0;r1", "v0;r1", "r0;v1", "v0;v1", "w0;r1", "w0;v1"]


def load(k, x, n):
    """Signed or unsigned, by turns."""
    return i(k, x) if n % 2 or x < 0 else u(k, x)


def cut(wb, dst, src, total, n):
    """The top n of the `total` words in a register."""
    return "shr|%d|r%d;usize:%x" % (dst, src, (total - n) * wb)


class Sweep:
    def __init__(self, wb, tags):
        self.wb, self.tags, self.last = wb, tags, None

    def long(self, want):
        """Two long numbers to cut operands from, loaded once in a while."""
        total = -(-want // 64) * 64
        if self.last != total:
            self.last = total
            yield u(14, dense(total * self.wb, 1))
            yield u(15, dense(total * self.wb, 2) if total % 128 else (1 << total * self.wb) - 1)
        self.total = total

    def square(self, n, _, k):
        yield from self.long(n)
        if k % 5 == 4:
            yield cut(self.wb, 0, 14, self.total, n)
            yield "mul|2|r0;r0"
        else:
            yield cut(self.wb, 0, 14, self.total, n)
            yield cut(self.wb, 1, 15, self.total, n)
            yield "mul|2|" + ["r0;r1", "v0;v1", "w0;r1", "r1;v0"][k % 4]

    def oblong(self, n, m, k):
        yield from self.long(m)
        yield cut(self.wb, 0, 14, self.total, n)
        yield cut(self.wb, 1, 15, self.total, m)
        yield "mul|2|" + FORMS[k % 6]

    def divide(self, n, q, k):
        yield from self.long(n + q)
        yield cut(self.wb, 0, 14, self.total, n + q)
        yield cut(self.wb, 1, 15, self.total, n)
        yield "divrem|2,3|" + FORMS[k % 4]
        if k % 4 == 0:
            # An exact multiple of an all-ones divisor, less one: the largest remainder and quotient digits.
            d, e = (1 << n * self.wb) - 1, (1 << q * self.wb) - 1
            yield i(0, -(d * e + d - 1))
            yield i(1, d)
            yield ["div|2|r0;r1", "rem|2|v0;r1", "divreme|2,3|r0;r1", "dive|2|v0;r1", "reme|2|v0;v1"][k // 4 % 5]

    def far(self, n, q, k):
        w, p = self.wb, lambda e: 1 << e
        rest = (n - q) * w
        ds = {"ones": p(n * w) - 1, "low": p(n * w - 1) + 1, "high": p(n * w) - p(rest) + 1, "half": p(n * w) - p(rest // 2),
              "sum": p(n * w - 1) + p(rest // 2), "mix": dense(n * w, k)}
        qs = {"top": p(q * w - 1), "next": p(q * w - 1) + 1, "third": p(q * w - 1) + p(q * w // 3), "ones": p(q * w) - p(q * w // 3),
              "mix": dense(q * w, k + 1)}
        for d, x in (("high", "top"), ("low", "next"), ("low", "third"), ("ones", "ones"), ("half", "top"), ("half", "ones"),
                     ("sum", "next"), ("mix", "mix")):
            d, x = ds[d], qs[x]
            yield u(0, d * x + d - 1)
            yield u(1, d)
            yield "divrem|2,3|" + FORMS[k % 4]
            if k % 2:
                yield u(0, d * x)
                yield u(1, d)
                yield "%s|2|r0;v1" % ("div" if k % 4 == 1 else "rem")

    def thirds(self, n, c, k):
        n3 = -(-n // 3)
        lens = [n3, n3, n - 2 * n3]
        for j in range(2):
            # Two independent choices among the kinds of each part.
            x, sh, t = 0, 0, stream(1000 * n + 10 * c + j, 30)
            for l in lens:
                b = l * self.wb
                part = [0, (1 << b) - 1, 1 << b - 1, 1, (1 << b) - 2, dense(b, t % 97), (1 << b) - (1 << b // 2)][t % 7]
                x |= part << sh
                sh += b
                t //= 7
            yield u(j, x | 1 << (n * self.wb - 1))
        yield "mul|2|" + ["r0;r1", "v0;v1", "w0;r1", "r0;r0"][c % 4]

    def add(self, n, m, k):
        a, b = dense(n * self.wb, k), dense(m * self.wb, k + 1)
        for f in ("add", "sub"):
            yield i(0, a if k % 3 else -a)
            yield i(1, b if k % 5 < 3 else -b)
            yield "%s|2|%s" % (f, FORMS[k % 6])
        yield u(0, a)
        yield u(1, b)
        yield "sub|2|%s" % FORMS[k // 6 % 6]

    def carry(self, n, m, k):
        a, b = (1 << n * self.wb) - 1, 1 << m * self.wb
        yield load(0, a, k)
        yield load(1, b, k)
        yield "add|2|" + FORMS[k % 6]
        yield load(4, b, k)
        yield "sub|3|r%d;v4" % (0 if FORMS[k % 6][0] == "w" else 2)
        yield i(0, a + 1)
        yield i(1, b - 1 if m else 1)
        yield "sub|2|" + FORMS[k // 6 % 6]

    def shift(self, n, c, k):
        x = dense(n * self.wb - k % 3, k)
        if k % 4 == 0:
            x = max(1, x >> c) << c if c < n * self.wb else x
        yield i(0, -x)
        yield "shr|2|%s;usize:%x" % (["r0", "v0", "w0"][k % 3], c)
        yield u(0, x)
        yield "shr|2|%s;usize:%x" % (["v0", "w0", "r0"][k % 3], c)
        yield u(0, x)
        yield "shl|2|%s;usize:%x" % (["w0", "r0", "v0"][k % 3], c)

    def bits(self, n, c, k):
        x = [dense(n * self.wb, k), (1 << n * self.wb) - 1, 1 << (n * self.wb - 1), 1][k % 4]
        yield u(0, x)
        yield "bit|-1|r0;usize:%x" % c
        yield "clearbit||w0;usize:%x" % c
        yield u(0, x)
        yield "setbit||w0;usize:%x" % c
        yield "clearbit||w0;usize:%x" % c
        yield "bitlen|-1|r0"

    def query(self, b, _, k):
        for x in {1 << b, (1 << b) - 1, (1 << b) + 1, 3 << b, dense(b, k)}:
            yield u(0, x)
            for f in ("bitlen", "tz", "ispow2"):
                yield "%s|-1|r0" % f
            yield "nextpow2|1|%s" % ["r0", "v0"][k % 2]
            yield i(0, -x)
            yield "tz|-1|r0"

    def logic(self, n, m, k):
        for f in ("and", "or", "xor", "andnot"):
            for s in range(4):
                a, b = dense(n * self.wb, k + s), dense(m * self.wb, k + s + 9)
                if s % 2 == 0 and n:
                    a = a >> self.wb // 2 << self.wb // 2
                yield i(0, -a if s & 1 else a)
                yield i(1, -b if s & 2 else b)
                yield "%s|2|%s" % (f, FORMS[(k + s) % (4 if f == "andnot" else 6)])
            yield u(0, dense(n * self.wb, k))
            yield u(1, dense(m * self.wb, k + 1))
            yield "%s|2|%s" % (f, FORMS[k % (4 if f == "andnot" else 6)])

    def bytes(self, n, c, k):
        x = list(stream(k, 8 * n).to_bytes(n, "big"))
        if c == 1:
            x = [0] * (n // 2) + x[n // 2:]
        if c == 2:
            x = x[:n // 2] + [0] * (n - n // 2)
        if c == 3:
            x = [255] * n
        for f in ("fromle", "frombe"):
            yield "%s|0|b:%s" % (f, ",".join(map(str, x)))
            yield "tole|-1|r0"
            yield "tobe|-1|r0"

    def compare(self, n, j, k):
        a = dense(n * self.wb, k)
        for d in (1 << j * self.wb, 1 << (j * self.wb + self.wb - 1)):
            b = a ^ d
            for s in (1, -1):
                yield load(0, s * a, k)
                yield load(1, s * b, k)
                yield "cmp||r0;r1"
                yield "cmp||r1;r0"

    def print(self, r, n, k):
        yield from self.long(n)
        yield cut(self.wb, 0, 14 + k % 2, self.total, n)
        yield "fmt||r0;c:r;u32:%x;u32:%x;u32:0;u32:0;u32:0" % (r, k % 4)

    def read(self, r, n, k):
        x = stream(k, n * 6)
        t = ""
        for _ in range(n):
            t += SYMBOLS[x % 64 % r]
            x >>= 6
        if k % 7 == 0:
            t = SYMBOLS[r - 1] * n
        if k % 7 == 1:
            t = "1" + "0" * (n - 1)
        if k % 3 == 0:
            t = t.upper()
        sign = ["", "-", "+"][k % 5] if k % 5 < 3 else ""
        f = "radix_i" if sign == "-" or k % 2 else "radix_u"
        yield "%s|0|s:%s;u32:%x" % (f, ",".join("%d" % ord(c) for c in sign + t), r)

    def power(self, b, e, k):
        w = 1 << self.wb
        x = [2, 3, 6, 12, 10 << self.wb, w - 1, w, w + 1, 1 << self.wb - 1][b]
        yield i(0, -x if k % 3 == 0 else x)
        yield "pow|2|r0;usize:%x" % e

    def gcd(self, n, m, k):
        g = dense((k % 3) * self.wb + 5, k)
        yield u(0, g * dense(n * self.wb, k + 1))
        yield u(1, g * dense(m * self.wb, k + 2))
        yield "gcd|2|r0;r1"
        yield "egcd|2,3,4|r0;r1"
        yield u(0, dense(n * self.wb, k + 3))
        yield u(1, dense(m * self.wb, k + 4))
        yield "egcd|2,3,4|r0;r1"
        yield u(1, 1 << m * self.wb)
        yield "egcd|2,3,4|r1;r0"

    def gcdzeros(self, n, m, k):
        yield u(0, dense(2 * self.wb, k) << n)
        yield u(1, (dense(self.wb, k + 1) | 1) << m)
        yield "gcd|2|r0;r1"
        yield "gcd|2|r1;r0"
        yield u(1, 1 << n)
        yield "gcd|2|r0;r1"

    def ring(self, b, c, k):
        m = [dense(b, k), (1 << b) - 1, 1 << (b - 1)][c] or 1
        yield "balance||"
        yield u(15, m)
        yield "ring||r15"
        yield "modulus|14|g:0"
        yield i(13, -dense(2 * b + 7, k + 1))
        yield u(12, dense(b + 1, k + 2))
        yield u(11, m - 1)
        yield "into|0|g:0;r13"
        yield "into|1|g:0;r12"
        yield "into|2|g:0;r11"
        for k2, f in enumerate(("mul", "add", "sub", "div")):
            yield "%s|3|%s" % (f, ["r0;r1", "r1;r0", "r0;r2", "r2;r2"][(k + k2) % 4])
            yield "residue|10|r3"
        yield "neg|4|r0"
        yield "residue|10|r4"
        yield "inv|5|r1"
        yield "meq|-1|r0;r2"
        yield u(10, 5)
        yield "mpow|6|r2;r10"
        yield "residue|10|r6"

    def ringpower(self, b, e, k):
        if e == 0:
            yield "balance||"
            yield u(15, dense(b, k))
            yield "ring||r15"
            yield i(14, -dense(b + 3, k))
            yield "into|0|g:0;r14"
        for x in (dense(e, k), (1 << e) - 1, 1 << e):
            yield u(13, x)
            yield "mpow|1|r0;r13"
            yield "residue|12|r1"

    def float(self, b, _, k):
        for p, f in ((24, "f32"), (53, "f64")):
            if f == "f32" and b > 140:
                continue
            x = dense(b, k)
            xs = {x, (1 << b) - 1, 1 << b}
            if b > p:
                t = x >> (b - p) << (b - p)
                h = 1 << (b - p - 1)
                xs |= {t + h, t + h - 1, t + h + 1, (t ^ 1 << (b - p)) + h, (1 << b) - h}
            for y in sorted(xs):
                yield load(0, -y if k % 3 == 0 else y, k)
                yield "%s|-1|r0" % f

    def serial(self, n, c, k):
        x = dense(64 * n - [0, 17, 63][c], k) if n else 0
        yield load(0, -x if k % 4 == 3 else x, k)
        yield "ser||r0"
        w = [x >> 64 * j & (1 << 64) - 1 for j in range(n)] + [0] * (k % 3)
        for kind in 0, 1:
            yield "de|1|usize:%x;w64:%s;i64:%s;usize:%x;usize:0" % (kind, ",".join("%x" % y for y in w), ["-1", "%x" % len(w), "2"][k % 3], k % 2)
            yield "ser||r1"

    def commands(self, x, k):
        if x[0] in self.tags:
            yield from getattr(self, x[0])(int(x[1]), int(x[2]), k)


def sweep(*tags):
    def start(wb):
        return Sweep(wb, tags).commands
    return {"from": "GenSweep", "start": start}
