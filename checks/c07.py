"""C07: data directives emit exactly the bytes of their operands and refuse what does not fit."""
import asmlib as A
import drive as D
from common import Out

PROP = "C07"
KINDS = ("plain",)
MIN_KEYS = 2000
RULE = "distinct (directive, operand kind, value) whose bytes in the image matched; plus distinct values outside the range that were refused"

EDGE1 = (0, 1, 127, 128, 254, 255, -1, -2, -127, -128, -129, -253, -254)
EDGE2 = (0, 1, 255, 256, 257, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, -1, -255, -256, -257, -32768, -32769, -65533, -65534)
OUT1 = (256, 257, 300, 511, 512, 0x1234, 0xFF00, 0xFFFF, 0x10000, 0x10001, 0x7FFFFFFF, -256, -257, -300, -512, -65536, -0x7FFFFFFF)
OUT2 = (0x10000, 0x10001, 0x1FFFF, 0x100FF, 0x7FFFFFFF, 0x12345678, -65536, -65537, -70000, -0x7FFFFFFF)


def plan(tier):
    return 18000 if tier == "quick" else 180000


def num(rng, v):
    """the value v written in some way"""
    k = rng.randrange(6)
    if k == 0 and abs(v) < 1 << 20:
        a = rng.randrange(1, 300)
        return ("b", "-", ("n", v + a), ("n", a)) if v + a >= 0 else ("n", v)
    if k == 1 and v >= 0:
        return ("b", "|", ("n", v & 0x55555555), ("n", v & 0x2AAAAAAA))
    if k == 2 and v < 0:
        return ("neg", ("n", -v))
    if k == 3 and v >= 0 and v % 2 == 0:
        return ("b", "*", ("n", v // 2), ("n", 2))
    return ("n", v)


def ok_string(rng, n=None):
    n = n or rng.choice((2, 3, 4, 5, 7, 16, 40, 255, 300))
    while True:
        s = bytes(rng.randrange(32, 127) if rng.random() < 0.93 else rng.randrange(1, 256) for _ in range(n))
        if A.str_ok(s):
            return s


def item(rng, syms):
    """a data statement and what identifies it"""
    k = rng.choice(("byte", "byte", "word", "word", "str", "fill", "load", "mixed", "sym"))
    ks = []
    if k in ("byte", "word"):
        edge = EDGE1 if k == "byte" else EDGE2
        lo, hi = (-254, 256) if k == "byte" else (-65534, 65536)
        its = []
        for _ in range(rng.choice((1, 1, 2, 3, 8, 17))):
            v = rng.choice(edge) if rng.random() < 0.5 else rng.randrange(lo, hi)
            ks.append((k, v))
            its.append(num(rng, v))
        return (k, its), ks
    if k == "str":
        its = []
        for _ in range(rng.randrange(1, 5)):
            if rng.random() < 0.6:
                s = ok_string(rng)
                its.append(("str", s))
                ks.append(("str", len(s), s[:4]))
            else:
                v = rng.choice((0, 1, 127, 128, 255, 256, 0x1234, 0x100, 0xFF00, 0xFFFF, -1, -5, -254, -255, -256, -32768, -65280, -65281, -65534))
                ks.append(("strint", v))
                its.append(num(rng, v))
        return ("str", its), ks
    if k == "fill":
        b, n = rng.choice((0, 1, 0x7F, 0x80, 0xFF, rng.randrange(256))), rng.choice((0, 1, 2, 3, 4, 5, 100, 255, 256, 257, 700))
        return ("fill", num(rng, b), num(rng, n)), [("fill", b, n)]
    if k == "load":
        n = rng.choice((1, 2, 3, 4, 5, 64, 255, 256, 257, 1000, 1001))
        d = rng.randbytes(n) if rng.random() < 0.8 else bytes([rng.choice((0, 10, 13, 26, 255))]) * n
        return ("load", "d%d.bin" % rng.randrange(10 ** 12), d), [("load", n, d[:3])]
    if k == "mixed":
        size = rng.choice(("byte", "word"))
        its = []
        for _ in range(rng.randrange(2, 6)):
            if rng.random() < 0.5:
                s = ok_string(rng, rng.randrange(2, 9))
                its.append(("str", s))
                ks.append((size, "str", len(s), s[:3]))
            else:
                v = rng.randrange(256)
                ks.append((size, v))
                its.append(("n", v))
        return (size, its), ks
    name = rng.choice(syms)
    size = rng.choice(("byte", "word"))
    e = (rng.choice(("lo", "hi")), ("s", name)) if size == "byte" else ("s", name)
    return (size, [e, e] if rng.random() < 0.3 else [e]), [(size, e)]


def bad_stmt(rng):
    k = rng.choice(("byte", "word", "fillb", "filln", "byte", "word", "byte2", "load", "dsneg"))
    if k == "byte":
        v = rng.choice(OUT1) if rng.random() < 0.7 else rng.choice((rng.randrange(256, 1 << 20), -rng.randrange(256, 1 << 20)))
        its = [("n", rng.randrange(256)) for _ in range(rng.randrange(0, 4))]
        its.insert(rng.randrange(len(its) + 1), num(rng, v))
        return [("byte", its)], (k, v)
    if k == "word":
        v = rng.choice(OUT2) if rng.random() < 0.7 else rng.choice((rng.randrange(65536, 1 << 24), -rng.randrange(65536, 1 << 24)))
        its = [("n", rng.randrange(65536)) for _ in range(rng.randrange(0, 4))]
        its.insert(rng.randrange(len(its) + 1), num(rng, v))
        return [("word", its)], (k, v)
    if k == "byte2":
        v = rng.randrange(256, 65536)
        return [("byte", [("s", "big")]), ("equ", "big", ("n", v))], (k, v)
    if k == "fillb":
        v = rng.choice((256, 257, -1, -255, 65535, 0x10000))
        return [("fill", num(rng, v), ("n", 4))], (k, v)
    if k == "filln":
        v = rng.choice((-1, -2, -100, -65536))
        return [("fill", ("n", 4), num(rng, v))], (k, v)
    if k == "dsneg":
        v = rng.choice((-1, -2, -100))
        return [("ds", num(rng, v))], (k, v)
    return [("raw", '    .load "absent%d.bin"' % rng.randrange(100))], (k, "absent")


def case(env, i, rng):
    o = Out()
    syms = ["fwd0", "fwd1", "back0"]
    prog = [("setpc", ("n", rng.choice((0x1000, 0x300, 0x8000)))), ("lab", "back0")]
    ks = []
    for _ in range(rng.randrange(3, 14)):
        s, k = item(rng, syms)
        if rng.random() < 0.15 and s[0] != "load":
            n = rng.randrange(1, 4)
            prog += [("var", [("v%d" % len(prog), None)]), ("for", "v%d" % len(prog), ("n", 1), ("n", n), None, [s])]
        elif rng.random() < 0.3:
            prog.append(("l", "n%d" % len(prog), s))
        else:
            prog.append(s)
        ks += k
        if rng.random() < 0.15:
            # no space at all: nothing moves
            z = ("ds", rng.choice((("n", 0), ("s", "zero"), ("b", "-", ("n", 3), ("n", 3)))))
            prog.append(("l", "n%d" % len(prog), z) if rng.random() < 0.5 else z)
            ks.append(("ds 0", z[1][0]))
    prog.append(("equ", "zero", ("n", 0)))
    prog += [("op", "nop", "none", None), ("lab", "fwd0"), ("op", "nop", "none", None), ("lab", "fwd1"), ("op", "rts", "none", None)]
    prog.append(("word", [("s", "fwd0"), ("s", "fwd1"), ("s", "back0")]))
    ref = A.Ref().run(prog)
    st = rng.choice((A.PLAIN, A.Style.mild(rng), A.Style.wild(rng)))
    res = D.asm(env, A.render(prog, st))
    o.ev(len(ks))
    if D.compare(o, res, ref, "data"):
        for k in ks:
            o.key(k)
            o.stats[k[0]] += 1
        o.stats["bytes"] += len(res.image)
        o.samples.append("%d data statements, %d bytes" % (len(prog), len(res.image)))
    # trailing space is not written
    if i % 7 == 0:
        n = rng.choice((0, 1, 2, 255, 256, rng.randrange(1, 2000)))
        res = D.asm(env, A.render(prog[:-1] + [("lab", "z1"), ("ds", ("n", n))], A.PLAIN))
        o.ev()
        r2 = A.Ref().run(prog[:-1] + [("lab", "z1"), ("ds", ("n", n))])
        if D.compare(o, res, r2, "trailing .ds %d" % n):
            o.key(("ds", n))
    bad, k = bad_stmt(rng)
    keep = rng.randrange(0, len(prog))
    res = D.asm(env, A.render(prog[:keep] + bad + prog[-6:], A.PLAIN) if keep < len(prog) - 6 else A.render(bad + [("op", "nop", "none", None)], A.PLAIN))
    o.ev()
    if D.must_reject(o, res, "%s with %s" % k):
        o.key(("refused",) + k)
        o.stats["refused " + k[0]] += 1
    return o
