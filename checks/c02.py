"""C02: the operand's value decides the size: the shortest encoding that exists and holds it, however it is written."""
import asmlib as A
import cpu as C
import drive as D
from common import Out

PROP = "C02"
KINDS = ("plain",)
MIN_KEYS = 800
RULE = ("distinct (selection, mnemonic, operand syntax, value class, way the operand is written) accepted and matched byte for "
        "byte, plus distinct (selection, mnemonic, syntax, value class) refused")
ASSUME = ["negative operands are only judged where a two byte form or an immediate exists",
          "forward references are judged in the finished output, not per pass"]
CONFIGS = [("6502", False), ("6502", True), ("65c02", False)]
VALS = (0, 1, 2, 0x10, 0x7F, 0x80, 0xFE, 0xFF, 0x100, 0x101, 0x17F, 0x1FF, 0x200, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF, -1, -2, -128, -255, -256, -257, -300, -0x7FFF, -0x8000, -0xFF00, -0xFFFF)
BAD = {"zp": (0x100, 0x101, 0x1FF, 0x1234, 0xFFFF, -256, -257, -300, -65536), "abs": (0x10000, 0x10001, 0x12345, 0x7FFFFFFF, -65536, -65537, -100000),
       "imm": (256, 257, 300, 0x1234, 0xFFFF, 0x10000, -256, -257, -1000)}
WAYS = ("lit", "sym", "fwd", "expr", "fwdexpr", "macro", "var", "hilo", "loop")


def forms(cpu, ill):
    tab = C.table(cpu, ill)
    out = []
    for mn in sorted({m for m, _ in tab}):
        for syn in C.SYNTAX:
            if syn in ("none", "a") or not C.exists(tab, mn, syn) or (mn, "rel") in tab:
                continue
            out.append((mn, syn))
    return out


FORMS = {c: forms(*c) for c in CONFIGS}


def bads():
    out = []
    for c in CONFIGS:
        tab = C.table(*c)
        for mn, syn in FORMS[c]:
            if syn == "#":
                kind = "imm"
            elif any((mn, m) in tab and m not in C.ZP_MODES for m in C.SYNTAX[syn]):
                kind = "abs"
            else:
                kind = "zp"
            for v in BAD[kind]:
                out.append((c, mn, syn, v))
    return out


BADS = bads()
PER = 40
NBAD = (len(BADS) + PER - 1) // PER


def plan(tier):
    return NBAD + (18000 if tier == "quick" else 150000)


def vclass(v):
    return v if v in VALS else "zp" if 0 <= v < 256 else "abs" if v >= 0 else "neg"


def accept(env, o, rng):
    cfg = rng.choice(CONFIGS)
    tab = C.table(*cfg)
    fs = FORMS[cfg]
    body, tail, head, seen = [], [], [], []
    n = 0
    for _ in range(60):
        mn, syn = rng.choice(fs)
        v = rng.choice(VALS) if rng.random() < 0.7 else rng.randrange(65536)
        r = C.select(tab, mn, syn, v)
        if syn == "#" and not -255 <= v <= 255:
            v = rng.choice(VALS[:8])
        elif r is None or (r[0] in C.ZP_MODES and v < -255):
            v = rng.choice(VALS[:8])
        way = rng.choice(WAYS)
        n += 1
        nm = "s%d" % n
        if v < 0 and way in ("sym", "fwd", "fwdexpr", "macro"):
            way = "lit"
        if way == "lit":
            body.append(("op", mn, syn, ("n", v)))
        elif way == "sym":
            body += [("equ", nm, ("n", v)), ("op", mn, syn, ("s", nm))]
        elif way == "fwd":
            body.append(("op", mn, syn, ("s", nm)))
            tail.append(("equ", nm, ("n", v)))
        elif way == "expr":
            k = rng.randrange(0, 500)
            body.append(("op", mn, syn, rng.choice((("b", "-", ("n", v + k), ("n", k)) if v >= 0 else ("b", "-", ("n", 0), ("n", -v)),
                                                   ("b", "+", ("n", max(v, 0)), ("n", min(v, 0)))))))
        elif way == "fwdexpr":
            k = rng.randrange(0, v + 1)
            body.append(("op", mn, syn, ("b", "+", ("s", nm), ("n", k))))
            tail.append(("equ", nm, ("n", v - k)))
        elif way == "macro":
            head.append(("macro", "m%d" % n, [("op", mn, syn, ("p", 1))]))
            body.append(("call", "m%d" % n, [("n", v)]))
        elif way == "var":
            body += [("var", [(nm, ("n", v))]), ("op", mn, syn, ("s", nm))]
        elif way == "hilo":
            w = rng.randrange(65536)
            v = rng.choice((w & 255, w >> 8))
            body.append(("op", mn, syn, ("b", "+", ("lo" if v == w & 255 else "hi", ("n", w)), ("n", 0))))
        else:
            # the same line assembled with growing values: the size is decided for each
            if syn == "#":
                a, b, st = 253, 255, 1
            elif any((mn, m) in tab and m not in C.ZP_MODES for m in C.SYNTAX[syn]):
                a, b, st = 254, 257, 1
                if C.select(tab, mn, syn, 254)[0] not in C.ZP_MODES:
                    a, b = 65533, 65535
            else:
                a, b, st = 252, 255, 1
            head.append(("var", [(nm, ("n", 0))]))
            body.append(("for", nm, ("n", a), ("n", b), ("n", st), [("op", mn, syn, ("s", nm))]))
            v = b
        seen.append((cfg, mn, syn, vclass(v), way))
    prog = head + body + tail
    ref = A.Ref(*cfg).run(prog)
    st = rng.choice((A.PLAIN, A.Style.mild(rng)))
    res = D.asm(env, A.render(prog, st), D.copts(*cfg))
    o.ev(len(seen))
    if D.compare(o, res, ref, "operand size (%s%s)" % (cfg[0], " -i" if cfg[1] else "")):
        for s in seen:
            o.key(s)
            o.stats["way " + s[4]] += 1
        if len(o.samples) < 1:
            o.samples.append("%s: %s" % (seen[0], D.hx(res.image, 8)))


def case(env, i, rng):
    o = Out()
    if i >= NBAD:
        accept(env, o, rng)
        return o
    for cfg, mn, syn, v in BADS[i * PER:(i + 1) * PER]:
        way = rng.choice(("lit", "sym", "macro", "var"))
        if way == "sym" and 0 <= v < 65536:
            prog = [("equ", "ss", ("n", v)), ("op", mn, syn, ("s", "ss"))]
        elif way == "macro" and 0 <= v < 65536:
            prog = [("macro", "mm", [("op", mn, syn, ("p", 1))]), ("call", "mm", [("n", v)])]
        elif way == "var":
            prog = [("var", [("vv", ("n", v))]), ("op", mn, syn, ("s", "vv"))]
        else:
            prog = [("op", mn, syn, ("n", v))]
        res = D.asm(env, A.render([("op", "nop", "none", None)] + prog), D.copts(*cfg))
        o.ev()
        if D.must_reject(o, res, "%s%s: %s %s with %d, which does not fit" % (cfg[0], " -i" if cfg[1] else "", mn, syn, v)):
            o.key((cfg, mn, syn, v))
            o.stats["refused"] += 1
    return o
