"""C11: the code of a register loop, executed, runs its body once per index in order."""
import asmlib as A
import cpu as C
import drive as D
from common import Out

PROP = "C11"
KINDS = ("plain",)
MIN_KEYS = 500
RULE = ("distinct (register, direction, start, end, place, body size class) whose generated code was executed on a 6502 emulator and ran its "
        "body with exactly the stated indices; plus distinct refused loops")
EDGE = (0, 1, 2, 126, 127, 128, 129, 254, 255)

BAD = [
    ("a start above 255", " .for .reg%s = 256 .to 300\n nop\n .next %s\n"),
    ("an end above 255", " .for .reg%s = 0 .to 256\n nop\n .next %s\n"),
    ("a negative start", " .for .reg%s = -1 .to 5\n nop\n .next %s\n"),
    ("a negative end", " .for .reg%s = 5 .downto -1\n nop\n .next %s\n"),
    ("a start above 255 counting down", " .for .reg%s = 300 .downto 3\n nop\n .next %s\n"),
    ("no .next", " .for .reg%s = 0 .to 5\n nop\n"),
    ("a bound that is not defined", " .for .reg%s = 0 .to nosuch\n nop\n .next %s\n"),
    ("a loop in a loop of the same register", " .for .reg%s = 0 .to 5\n .for .reg%s = 1 .to 2\n nop\n .next %s\n .next %s\n"),
    ("a loop in a loop of the same register, by a macro", " .macro m\n .for .reg%s = 1 .to 2\n nop\n .next %s\n .endm\n .for .reg%s = 0 .to 5\n m\n .next %s\n"),
    ("the .next of the other register", " .for .reg%s = 0 .to 5\n nop\n .next !\n"),
    ("a .step", " .for .reg%s = 0 .to 6 .step 2\n nop\n .next %s\n"),
]


def plan(tier):
    return 64 + 4000 if tier == "quick" else 256 + 20000


def indices(a, d, b):
    return list(range(a, b + 1)) if d == "to" else list(range(a, b - 1, -1))


class Mon:
    """runs the image; logs the stores to $F0xx as (address, a, x, y)"""

    def __init__(self, image, org, rng):
        e = self.e = C.Emu(C.CMOS)
        e.mem[org:org + len(image)] = image
        e.pc = org
        e.a, e.x, e.y = rng.randrange(256), rng.randrange(256), rng.randrange(256)
        e.setflags(rng.randrange(256) & ~0x08)
        self.log = []

    def run(self, limit, carry=None):
        """carry: the register whose decrement is to set the carry as a compare with 0 would (for the recorded defect)"""
        e = self.e
        prev = None
        de = {"x": 0xCA, "y": 0x88}.get(carry)
        for _ in range(limit):
            b = e.mem[e.pc]
            if carry and prev == de and b in (0xB0, 0x90):
                e.c = int((e.x if carry == "x" else e.y) != 255)
            prev = b
            if b == 0:                    # brk ends the program
                return "end"
            if b in (0x8D, 0x8E, 0x8C) and e.mem[e.pc + 2] == 0xF0:
                self.log.append((e.mem[e.pc + 1], e.a, e.x, e.y))
            try:
                e.step()
            except C.Halt as h:
                return str(h)
        return "no end after %d instructions" % limit


def sweep(env, o, rng, i, n):
    """loops back to back, each with a store in its body"""
    loops = []
    allp = [(r, d, a, b) for r in "xy" for d in ("to", "downto") for a in EDGE for b in EDGE]
    per = 40
    for _ in range(per):
        if rng.random() < 0.3:
            q = rng.choice(allp)
        else:
            q = (rng.choice("xy"), rng.choice(("to", "downto")), rng.randrange(256), rng.randrange(256))
            if rng.random() < 0.8 and (q[1] == "to") != (q[2] <= q[3]):
                q = q[:2] + (q[3], q[2])
        loops.append(q)
    if env.thorough:
        # every pair: case i of n
        every = [(r, d, a, b) for r in "xy" for d in ("to", "downto") for a in range(256) for b in range(256) if (d == "to") == (a <= b) or a == b]
        loops = every[i::256]
    for at in range(0, len(loops), 40):
        run(env, o, rng, [dict(r=r, d=d, a=a, b=b) for r, d, a, b in loops[at:at + 40]], "row")


def run(env, o, rng, loops, what):
    """loops without a known defect are all in one program; the others alone"""
    good = [l for l in loops if not (l["d"] == "downto" and l["b"] == 0 and l["a"])]
    bad = [l for l in loops if l["d"] == "downto" and l["b"] == 0 and l["a"]]
    if good:
        one(env, o, rng, good, what)
    for l in bad[:2]:
        one(env, o, rng, [l], what)


def filler(n):
    return [("op", "bit", "e", ("n", 0x4000))] * (n // 3) + [("op", "nop", "none", None)] * (n % 3)


def body(rng, r, kind):
    """a body that keeps the registers x and y"""
    st = "stx" if r == "x" else "sty"
    log = [("op", st, "e", ("n", 0xF000))]
    if kind == "plain":
        return log
    extra = [[("op", "sec", "none", None)], [("op", "clc", "none", None)], [("op", "lda", "#", ("n", rng.randrange(256)))],
             [("op", "adc", "#", ("n", rng.randrange(256)))], [("op", "cmp", "#", ("n", rng.randrange(256)))],
             [("op", "sta", "e,x", ("n", 0x4000)), ("op", "lda", "e,y", ("n", 0x4100))], [("fill", ("n", 0xEA), ("n", rng.randrange(1, 5)))],
             [("op", "cpx", "#", ("n", rng.randrange(256)))], [("op", "bit", "e", ("n", 0x4000))]]
    out = []
    for _ in range(rng.randrange(0, 4)):
        out += rng.choice(extra)
    out.insert(rng.randrange(len(out) + 1), log[0])
    if kind == "edge":
        out += filler(rng.randrange(105, 135))
    if kind == "long":
        out += filler(rng.randrange(135, 400))
    return out


def bound(rng, v, head):
    k = rng.random()
    if k < 0.5:
        return ("n", v)
    if k < 0.7:
        n = "k%d" % len(head)
        head.append(("equ", n, ("n", v)))
        return ("s", n)
    if k < 0.85:
        d = rng.randrange(0, 50)
        return ("b", "-", ("n", v + d), ("n", d))
    return ("b", "&", ("n", v | 0x300), ("n", 255))


def one(env, o, rng, loops, what):
    cpu = rng.choice(("6502", "65c02"))
    org = rng.choice((0x1000, 0x1000, 0x0801, 0x2345))
    head, prog, want = [], [], []
    for k, l in enumerate(loops):
        head2 = []
        stmts, w = loop(rng, l, head2, k)
        head += head2
        prog += stmts
        want += w
        prog.append(("op", "sta", "e", ("n", 0xF010 + k % 0xE0)))
        want.append((0x10 + k % 0xE0, None, None))
    # a is what it was before a plain loop
    prog = ([("setpc", ("n", org))] if org != 0x1000 else []) + head + prog + [("op", "brk", "none", None)]
    res = D.asm(env, A.render(prog), D.copts(cpu))
    o.ev(len(loops))
    if res.status == "hang":
        o.inconclusive += 1
        return
    desc = "; ".join("%s=%d .%s %d %s" % (l["r"], l["a"], l["d"], l["b"], l.get("place", "")) for l in loops[:6])
    if res.status != "ok":
        o.violation("register loops (%s) were not assembled: %s" % (desc, res.status), **D.saved(res))
        return
    m = Mon(res.image, org, rng)
    y0 = m.e.y, m.e.x
    end = m.run(20000 + 400 * len(want))
    got = m.log
    o.stats["instructions"] += len(got)
    err = None
    if end != "end":
        err = end
    else:
        err = match(want, got)
    if err:
        f = D.saved(res)
        if len(loops) == 1:
            # the recorded defect: counting down to 0 branches on a carry that nothing sets; all else must be right
            if loops[0]["d"] == "downto" and loops[0]["b"] == 0 and loops[0]["a"]:
                m2 = Mon(res.image, org, rng)
                if m2.run(20000 + 400 * len(want), loops[0]["r"]) == "end" and match(want, m2.log) is None:
                    f["known_key"] = "downto0"
        o.violation("register loops (%s): %s" % (desc, err), **f)
        return
    for l in loops:
        o.key((l["r"], l["d"], l["a"], l["b"], l.get("place"), l.get("kind"), l.get("inner") and tuple(sorted(l["inner"].items()))))
        o.stats["loops " + what] += 1
    o.stats["turns"] += sum(1 for g in got if g[0] == 0)
    if what != "row":
        o.samples.append("%s: %d stores seen" % (desc, len(got)))


def match(want, got):
    """want: (address, index of x or None, index of y or None)"""
    for k in range(min(len(want), len(got))):
        w, g = want[k], got[k]
        if w[0] != g[0]:
            return "store %d went to $F0%02X, expected $F0%02X (the body ran a wrong number of times)" % (k, g[0], w[0])
        if w[1] is not None and w[1] != g[2]:
            return "store %d: x is %d, expected %d" % (k, g[2], w[1])
        if w[2] is not None and w[2] != g[3]:
            return "store %d: y is %d, expected %d" % (k, g[3], w[2])
    if len(want) != len(got):
        return "%d stores, expected %d" % (len(got), len(want))
    return None


def loop(rng, l, head, k):
    """statements of a loop in its surroundings, and the stores it must make"""
    r, idx = l["r"], indices(l["a"], l["d"], l["b"])
    kind, place = l.get("kind", "plain"), l.get("place", "")
    P = lambda v: (0, v, None) if r == "x" else (0, None, v)
    other = "y" if r == "x" else "x"
    inner = l.get("inner")
    b = body(rng, r, kind)
    w = []
    if inner:
        ib = body(rng, other, inner.get("kind", "plain"))
        ii = indices(inner["a"], inner["d"], inner["b"])
        b = b + [("reg", other, ("n", inner["a"]), inner["d"], ("n", inner["b"]), ib)]
        for v in idx:
            w.append(P(v))
            for u in ii:
                w.append((0, v, u) if r == "x" else (0, u, v))
    else:
        # the other register is what it was
        keep = rng.randrange(256)
        for v in idx:
            w.append((0, v, keep) if r == "x" else (0, keep, v))
    a_, b_ = bound(rng, l["a"], head), bound(rng, l["b"], head)
    head[:] = [("equ", "%s_%d" % (n, k), e) for _, n, e in head]
    fix = lambda e: ("s", e[1] + "_%d" % k) if e[0] == "s" else e
    a_, b_ = fix(a_), fix(b_)
    st = [("reg", r, a_, l["d"], b_, b)]
    if not inner:
        st = [("op", "ld" + other, "#", ("n", keep))] + st
    times = 1
    if place == "macro":
        p1, p2 = ("p", 1), ("p", 2)
        head.append(("macro", "mac%d" % k, [s if s[0] != "reg" else ("reg", r, p1, l["d"], p2, b) for s in st]))
        times = rng.randrange(1, 3)
        st = [("call", "mac%d" % k, [a_, b_])] * times
    elif place == "for":
        head.append(("var", [("i%d" % k, ("n", 0))]))
        times = rng.randrange(1, 4)
        st = [("for", "i%d" % k, ("n", 1), ("n", times), None, st)]
    elif place == "if":
        st = [("if", ("n", 0), [("op", "brk", "none", None)], st)]
    elif place == "macro body":
        head.append(("macro", "mac%d" % k, b))
        st = [s if s[0] != "reg" else ("reg", r, a_, l["d"], b_, [("call", "mac%d" % k, [])]) for s in st]
    elif place == "if body":
        st = [s if s[0] != "reg" else ("reg", r, a_, l["d"], b_, [("if", ("n", 1), b, None)]) for s in st]
    elif place == "for body":
        head.append(("var", [("i%d" % k, ("n", 0))]))
        n = rng.randrange(1, 3)
        st = [s if s[0] != "reg" else ("reg", r, a_, l["d"], b_, [("for", "i%d" % k, ("n", 1), ("n", n), None, b)]) for s in st]
        if n > 1 and not inner:
            w = [x for x in w for _ in range(n)]
        elif n > 1 and w:
            per = len(w) // max(1, len(idx))
            w = [x for q in range(0, len(w), per) for _ in range(n) for x in w[q:q + per]]
    return st, w * times


def case(env, i, rng):
    o = Out()
    if i == 0:
        for what, t in BAD:
            for r in "xy":
                s = t.replace("%s", r).replace("!", "y" if r == "x" else "x")
                res = D.asm(env, {"a.asm": " nop\n" + s + " nop\n"})
                o.ev()
                if D.must_reject(o, res, "a register loop with " + what):
                    o.key(("refused", what, r))
                    o.stats["refused"] += 1
        return o
    n = 256 if env.thorough else 64
    if i < n or env.thorough and i == n:
        sweep(env, o, rng, i % n, n)
        return o
    loops = []
    for _ in range(rng.randrange(1, 4)):
        def rnd():
            d = rng.choice(("to", "downto"))
            a, b = rng.choice((rng.randrange(256), rng.choice(EDGE))), rng.choice((rng.randrange(256), rng.choice(EDGE)))
            if rng.random() < 0.4:
                b = min(255, max(0, a + rng.randrange(-3, 4)))
            if rng.random() < 0.85 and (a <= b) != (d == "to"):
                a, b = b, a
            return dict(d=d, a=a, b=b, kind=rng.choice(("plain", "mixed", "edge", "long")))
        l = rnd()
        l["r"] = rng.choice("xy")
        l["place"] = rng.choice(("", "", "macro", "for", "if", "macro body", "if body", "for body"))
        if rng.random() < 0.3:
            l["inner"] = rnd()
            if l["inner"]["d"] == "downto" and l["inner"]["b"] == 0:
                l["inner"]["b"] = min(1, l["inner"]["a"])
            if abs(l["a"] - l["b"]) > 30:
                l["inner"]["b"] = max(0, min(255, l["inner"]["a"] + (1 if l["inner"]["d"] == "to" else -1) * rng.randrange(4)))
                if l["inner"]["d"] == "downto" and l["inner"]["b"] == 0:
                    l["inner"]["b"] = l["inner"]["a"]
        loops.append(l)
    run(env, o, rng, loops, "program")
    return o
