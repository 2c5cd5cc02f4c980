"""C08: conditionals and loops assemble to what the chosen branches and iterations, written out one by one, assemble to."""
import asmlib as A
import drive as D
import gen as G
from common import Out

PROP = "C08"
KINDS = ("plain",)
MIN_KEYS = 500
RULE = ("distinct (construct, trip count or branch taken, nesting) in programs whose image equals both the reference's and the image of the same "
        "program written out without conditionals and loops")

CONTROL = ("if", "ifdef", "repeat", "do", "while", "for")


class Unroll(A.Ref):
    """the statements that are executed in the last pass, in order"""
    inside = 0

    def block(self, stmts, top=False):
        if top and not self.inside and self.depth == 0:
            self.trace = []
        A.Ref.block(self, stmts, top)

    depth = 0

    def stmt(self, s, top=False):
        k = s[0]
        if self.inside:
            return A.Ref.stmt(self, s, top)
        if k in CONTROL:
            self.depth += 1
            if k == "for":
                self.unfor(s)
            else:
                n = self.pc
                if k in ("if", "ifdef"):
                    v = self.val(s[1]) if k == "if" else (self.find(s[1]) is not None) != bool(s[2])
                    self.seen.add((k, bool(v), s[3 if k == "if" else 4] is not None, self.depth))
                    A.Ref.stmt(self, s, top)
                else:
                    before = getattr(self, "steps", 0)
                    A.Ref.stmt(self, s, top)
                    self.seen.add((k, getattr(self, "steps", 0) - before, self.depth))
            self.depth -= 1
            return
        if k == "inc":
            self.depth += 1
            A.Ref.stmt(self, s, top)
            self.depth -= 1
            return
        self.trace.append(s)
        self.inside += 1
        A.Ref.stmt(self, s, top)
        self.inside -= 1

    def unfor(self, s):
        _, v, a, b, step, body = s
        st = 1 if step is None else self.val(step)
        f = self.find(v) or v.lower()
        self.syms[f] = self.val(a)
        self.trace.append(("equ", v, ("n", self.syms[f])))
        end, n = self.val(b), 0
        while not (st > 0 and self.syms[f] > end or st < 0 and self.syms[f] < end):
            self.block(body)
            self.loopguard()
            n += 1
            self.syms[f] = A.wrap(self.syms[f] + st)
            self.trace.append(("equ", v, ("n", self.syms[f])))
        self.seen.add(("for", n, "default" if step is None else "up" if st > 0 else "down", self.depth))


BAD = [
    ("an .if without .endif", " .if 1\n nop\n"),
    ("an .endif alone", " nop\n .endif\n"),
    ("a second .else", " .if 1\n nop\n .else\n nop\n .else\n nop\n .endif\n"),
    ("an .else alone", " .else\n nop\n"),
    ("a .next without .for", " .var v\n nop\n .next v\n"),
    ("a .for without .next", " .var v\n .for v = 1 .to 2\n nop\n"),
    ("a .wend alone", " nop\n .wend\n"),
    ("a .while without .wend", " .while 0\n nop\n"),
    ("an .until alone", " nop\n .until 1\n"),
    ("a .repeat without .until", " .repeat\n nop\n"),
    ("an .ifdef without .endif", " .ifdef foo\n nop\n"),
    ("crossed blocks", " .var v\n .for v = 1 .to 2\n .if 1\n .next v\n .endif\n"),
    ("crossed blocks", " .repeat\n .if 1\n nop\n .until 1\n .endif\n"),
    ("an .if without a condition", " .if\n nop\n .endif\n"),
    ("a .for without .to", " .var v\n .for v = 1\n nop\n .next v\n"),
    ("an error in the body of a loop", " .var v\n .for v = 1 .to 3\n lda (4),x\n .next v\n"),
    ("a loop that fills memory", " .while 1\n nop\n .wend\n"),
    ("a loop that fills memory", " .repeat\n nop\n .until 0\n"),
    ("a loop that fills memory and more", " * = $FF00\n .while * < $10001\n nop\n .wend\n"),
    ("a loop that fills memory and more", " .var v\n * = $FFF0\n .for v = 1 .to 17\n .byte 1\n .next v\n .byte 2\n"),
    ("an undefined symbol in a condition", " .if nosuch\n nop\n .endif\n jmp nosuch\n"),
]


def plan(tier):
    return 16000 if tier == "quick" else 160000


SKIP = [("if", " .if 0\n%s .endif\n"), ("ifdef", " .ifdef nosuch\n%s .endif\n"), ("else", " .if 1\n nop\n .else\n%s .endif\n"),
        ("while", " .while 0\n%s .wend\n"), ("macro", " .macro notused\n%s .endm\n")]
SWITCH = [(" .65c02 on\n", [" bra t1\nt1\n", " inc a\n", " phx\n", " stz $12\n"]), (" .illegal on\n", [" lax $12\n", " slo $1234\n"])]


def known(env, o):
    """defects of the current tree, listed in known_findings.txt: processor switches in skipped lines"""
    for name, block in SKIP:
        for sw, uses in SWITCH:
            for use in uses:
                # without the switch the line is refused, so it has to be with the switch in lines that are not chosen
                res = D.asm(env, {"a.asm": " nop\n" + block % (" nop\n" + sw) + use + " nop\n"})
                o.ev()
                if res.status == "hang":
                    o.inconclusive += 1
                elif res.status != "error":
                    # ifdef skips text before it is read
                    f = {} if name == "ifdef" or res.status != "ok" else {"known_key": "skippedswitch"}
                    o.violation("%s in skipped lines (%s) takes effect: %s is assembled" % (sw.strip(), name, use.strip()), **f, **D.saved(res))
                else:
                    o.key(("switch skipped", name, sw, use))


def to_the_top(rng):
    """a loop that writes up to the last address"""
    k = rng.choice((1, 2, 3, 16, 100, 255, 256, 257, 700))
    w = rng.choice((1, 1, 2, 3))
    k -= k % w if k >= w else -w + k
    one = {1: ("byte", [("lo", ("pc",))]), 2: ("word", [("pc",)]), 3: ("op", "lda", "e", ("n", 0x1234))}[w]
    room = lambda: ("b", rng.choice(("<", "!=")), ("pc",), ("n", 0x10000))
    full = lambda: ("b", rng.choice((">=", "==")), ("pc",), ("n", 0x10000))
    kind = rng.choice(("while", "repeat", "do", "for", "for var", "if"))
    n = k // w
    if kind == "while":
        b = [("while", room(), [one])]
    elif kind == "repeat":
        b = [("repeat", [one], full())]
    elif kind == "do":
        b = [("do", [one], room())]
    elif kind == "for":
        b = [("for", "v", ("n", 1), ("n", n), None, [one])]
    elif kind == "for var":
        b = [("for", "v", ("pc",), ("n", 0x10000 - w), ("n", w), [one])]
    else:
        b = [("while", ("n", 1), [("if", room(), [one], [("end",)])])] if rng.random() < 0 else [("for", "v", ("n", 1), ("n", n + 3), None, [("if", room(), [one], None)])]
    return [("var", [("v", None)]), ("setpc", ("n", 0x10000 - k))] + b


def directed(rng):
    if rng.random() < 0.06:
        return to_the_top(rng)
    """one construct with chosen bounds"""
    v = "v"
    e = lambda x: ("n", x) if rng.random() < 0.6 else ("b", "+", ("n", x - 1), ("n", 1)) if x > 0 else ("n", x)
    use = rng.choice(([("byte", [("b", "&", ("s", v), ("n", 255))])], [("word", [("b", "&", ("s", v), ("n", 65535))]), ("op", "lda", "#", ("b", "&", ("s", v), ("n", 255)))],
                      [("if", ("b", "&", ("s", v), ("n", 1)), [("byte", [("n", 1), ("b", "&", ("s", v), ("n", 255))])], [("byte", [("n", 0)])] if rng.random() < 0.7 else None)],
                      [("op", "sta", "e", ("b", "+", ("s", "base"), ("s", v))), ("op", "jmp", "e", ("s", "after"))]))
    a = rng.choice((0, 1, 2, 5, 100, 250, 255, 256))
    kind = rng.randrange(5)
    if kind == 0:
        st = rng.choice((None, 1, 2, 3, 7, 255, -1, -2, -3, -100))
        n = rng.choice((0, 1, 1, 2, 3, 9, 30))
        step = 1 if st is None else st
        b = a + step * (n - 1) + (rng.randrange(0, abs(step)) * (1 if step > 0 else -1) if abs(step) > 1 else 0)
        if n == 0:
            b = a - 1 if step > 0 else a + 1
        if b < 0 and use[0][0] == "op":
            use = [("byte", [("b", "&", ("s", v), ("n", 255))])]
        stepx = None if st is None else ("n", st)
        body = [("for", v, e(a), ("n", b), stepx, use)]
        if rng.random() < 0.4 and b >= 0 and n <= 9:
            w = "w"
            body = [("for", w, e(1), e(rng.randrange(0, 4)), None, body + [("byte", [("s", w)])])]
    elif rng.random() < 0.25:
        # any value but 0 is true, also a negative one
        n, k = rng.choice((1, 2, 5, 9)), rng.choice((1, 1, 2, 300, 70000, 256, 65536, 1 << 17, 1 << 24))
        c = ("b", "*", ("b", "-", ("s", v), ("n", a + n)), ("n", k))
        inc = use + [("equ", v, ("b", "+", ("s", v), ("n", 1)))]
        body = [("equ", v, e(a)), ("while", c, inc) if kind == 1 else ("do", inc, c) if kind == 2 else
                ("repeat", use + [("equ", v, ("b", "+", ("s", v), ("n", 1)))], ("b", "==", c, ("n", 0))) if kind == 3 else
                ("repeat", inc, ("b", "-", ("b", "<", ("s", v), e(a + n)), ("n", 1)))]
    elif kind == 1:
        n = rng.choice((0, 1, 2, 10, 40))
        body = [("equ", v, e(a)), ("while", ("b", rng.choice(("<", "!=")), ("s", v), e(a + n)), use + [("equ", v, ("b", "+", ("s", v), ("n", 1)))])]
    elif kind == 2:
        n = rng.choice((1, 2, 10, 40))
        body = [("equ", v, e(a)), ("repeat", use + [("equ", v, ("b", "+", ("s", v), ("n", 1)))], ("b", rng.choice((">=", "==")), ("s", v), e(a + n)))]
    elif kind == 3:
        n = rng.choice((1, 2, 10, 40))
        body = [("equ", v, e(a)), ("do", use + [("equ", v, ("b", "+", ("s", v), ("n", 1)))], ("b", "<", ("s", v), e(a + n)))]
    else:
        x = rng.choice((0, 1, -1, 255, 256, 65536, 1 << 20, -65536, 1 << 31))
        y = rng.choice((0, 1, 5, 256, 65536))
        t = lambda m: [("byte", [("n", m)])]
        body = [("equ", v, ("n", 3)),
                ("if", ("n", x), t(1) + [("if", ("n", y), t(2), t(3) if rng.random() < 0.5 else None)] + use,
                 [("if", ("n", y), t(4) + [("if", ("n", 0), t(5), t(6))], t(7))] + use if rng.random() < 0.7 else None)]
        d = rng.choice(("known", "nosuch"))
        body.append(("ifdef", d, rng.random() < 0.5, t(8) + [("ifdef", rng.choice(("known", "nosuch")), rng.random() < 0.5, t(9), t(10))], t(11) if rng.random() < 0.6 else None))
    return [("equ", "known", ("n", 0)), ("var", [(v, None), ("w", None)]), ("lab", "base"), ("op", "nop", "none", None)] + body + \
        [("lab", "after"), ("byte", [("b", "&", ("s", v), ("n", 255))])]


def limits(env, o, rng, i):
    """.for up to the largest and down to the smallest value a variable can have"""
    step = rng.choice((1, 1, 2, 3, 7, 1000, 0x40000000, 0x7FFFFFFF))
    n = rng.randrange(1, 5) if step < 0x40000000 else 1
    back = rng.randrange(0, step) if rng.random() < .5 else 0       # how far the last turn is from the end
    down = rng.random() < .5
    end = -0x80000000 if down else 0x7FFFFFFF
    sign = -1 if down else 1
    start = end - sign * (back + step * (n - 1))
    want = bytes(b for k in range(n) for b in (((start + sign * step * k) >> 24) & 255, (start + sign * step * k) & 255))

    def text(v):
        return "$%X" % v if v >= 0 else "0-$%X-1" % (-v - 1)
    t = " .var v\n nop\n .for v = %s .to %s%s\n .byte (v >> 24) & $FF, v & $FF\n .next v\n rts\n" % (
        text(start), text(end), " .step %s" % text(sign * step) if down or step != 1 or rng.random() < .5 else "")
    res = D.asm(env, {"a.asm": t})
    o.ev()
    if res.status == "hang":
        o.inconclusive += 1
    elif res.status != "ok" or res.image != b"\xea" + want + b"\x60":
        o.violation("case %d, .for at the end of the values: %s" % (i, D.diff(b"\xea" + want + b"\x60", res.image) if res.status == "ok" else res.status), **D.saved(res))
    else:
        o.key(("limit", start, end, step))
        o.stats["loops to the last value"] += 1


def case(env, i, rng):
    o = Out()
    if i % 97 == 50:
        limits(env, o, rng, i)
        return o
    if i < len(BAD):
        what, text = BAD[i]
        for pre in ("", " nop\n", "one nop\n.var q = 1\n"):
            res = D.asm(env, {"a.asm": pre + text})
            o.ev()
            if D.must_reject(o, res, what):
                o.key(("refused", what, pre))
                o.stats["refused"] += 1
        return o
    if i == len(BAD):
        known(env, o)
        return o
    if i % 3:
        prog, cpu, ill, defs = directed(rng), "6502", False, {}
    else:
        p, _ = G.program(rng, rng.choice((20, 40, 60)), {"if", "ifdef", "for", "while", "repeat", "var"} | {f for f in G.FEATS if f not in ("pm", "end", "reg") and rng.random() < 0.3})
        prog, cpu, ill, defs = p.stmts, p.cpu, p.illegal, p.defines
    ref = Unroll(cpu, ill, defs)
    ref.seen = set()
    ref.trace = []
    ref.run(prog)
    st = rng.choice((A.PLAIN, A.Style.mild(rng), A.Style(rng, case=True, comments=True)))
    res = D.asm(env, A.render(prog, st), D.copts(cpu, ill, defs))
    o.ev()
    if not D.compare(o, res, ref, "case %d" % i):
        return o
    flat = D.asm(env, A.render(ref.trace, A.PLAIN), D.copts(cpu, ill, defs))
    o.ev()
    if flat.status == "hang":
        o.inconclusive += 1
    elif flat.status != "ok" or flat.image != res.image:
        # both layouts may be consistent where a branch is at the edge of its range
        if flat.status == "ok" and ref.relaxed(res.image).image == res.image and ref.relaxed(flat.image).image == flat.image:
            o.stats["layouts with a branch kept long"] += 1
            return o
        o.violation("case %d: written out it is different: %s" % (i, D.diff(res.image, flat.image) if flat.status == "ok" else flat.status),
                    **D.saved(res, **{"flat.asm": A.render(ref.trace, A.PLAIN)["a.asm"].encode("latin-1")}))
        return o
    for k in ref.seen:
        o.key(k)
        o.stats[k[0]] += 1
    o.key(("image", res.image))
    o.samples.append("%d statements written out as %d: %s" % (len(prog), len(ref.trace), sorted(map(str, ref.seen))[:4]))
    return o
