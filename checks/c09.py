"""C09: a macro call assembles to its body with the arguments put in and labels of its own."""
import asmlib as A
import drive as D
import gen as G
from common import Out

PROP = "C09"
KINDS = ("plain",)
MIN_KEYS = 500
RULE = ("distinct images of programs with macro calls that equal both the reference's and the image of the same program with every "
        "call replaced by the body by hand; plus distinct refused uses")

BAD = [
    ("a call of a macro that is not defined", " nosuch 1, 2\n"),
    ("a call of a macro before its definition", " m 1\n .macro m\n .byte \\1\n .endm\n"),
    ("a .macro without .endmacro", " .macro m\n nop\n"),
    ("an .endmacro alone", " nop\n .endmacro\n"),
    ("a parameter outside a macro", " .byte \\1\n"),
    ("a parameter outside a macro", " .macro m\n nop\n .endm\n m\n lda \\1\n"),
    ("an argument of more than 16 bits", " .macro m\n .word \\1 & 255\n .endm\n m $10000\n"),
    ("an error in the body", " .macro m\n .byte \\1\n .endm\n m 256\n"),
    ("an error in the body", " .macro m\n lda (\\1),x\n .endm\n m 25\n"),
    ("an error in the body of a nested call", " .macro n\n lda #\\1\n .endm\n .macro m\n n \\1 * 2\n .endm\n m 200\n"),
    ("an undefined name in the body", " .macro m\n jmp nowhere\n .endm\n m\n"),
    ("an undefined name in an argument", " .macro m\n jmp \\1\n .endm\n m nowhere\n"),
    ("a macro that calls itself without end", " .macro m\n nop\n m\n .endm\n m\n"),
    ("a macro that calls itself without end", " .macro m\n m\n m\n .endm\n m\n"),
    ("a local label of a macro used by its caller", " .macro m\n@q nop\n .endm\nt1 m\n jmp @q\n"),
]


def plan(tier):
    return 20000 if tier == "quick" else 200000


def put(e, args, tag):
    """e with the parameters replaced and the local labels renamed"""
    if not isinstance(e, tuple):
        return e
    if e[0] == "p":
        return args[e[1]]
    if e[0] == "loc" and tag:
        return ("loc", "@%s_%s" % (tag, e[1][1:]))
    if e[0] in ("n", "s", "pc", "str", "loc", "pm"):
        return e
    return tuple(put(x, args, tag) for x in e)


class Inline:
    def __init__(self):
        self.macros, self.n, self.calls = {}, 0, 0

    def body(self, stmts, args, tag, out):
        for s in stmts:
            self.stmt(s, args, tag, out)

    def stmt(self, s, args, tag, out):
        k = s[0]
        if k == "macro":
            self.macros[s[1].lower()] = s[2]
        elif k == "call":
            self.n += 1
            self.calls += 1
            t = "c%d" % self.n
            a = dict(args)
            for i, e in enumerate(s[2]):
                e = put(e, args, tag)
                if e == ("pc",) or not simple(e):
                    # the argument is evaluated at the call
                    v = "arg_%d_%d" % (self.n, i + 1)
                    out.append(("equ", v, e))
                    e = ("s", v)
                a[i + 1] = e
            self.body(self.macros[s[1].lower()], a, t, out)
        elif k == "lab" and s[1][0] == "@" and tag:
            out.append(("lab", "@%s_%s" % (tag, s[1][1:])))
        elif k == "if":
            # only conditions on constants are inlined into; the block is kept
            b = [], []
            self.body(s[2], args, tag, b[0])
            if s[3] is not None:
                self.body(s[3], args, tag, b[1])
            out.append(("if", put(s[1], args, tag), b[0], b[1] if s[3] is not None else None))
        elif k == "l":
            inner = []
            self.stmt(s[2], args, tag, inner)
            if len(inner) == 1 and inner[0][0] not in ("equ", "lab", "if"):
                out.append(("l", s[1], inner[0]))
            else:
                out.append(("lab", s[1]))
                out += inner
        elif k in ("op",):
            out.append((k, s[1], s[2], put(s[3], args, tag)))
        elif k in ("byte", "word", "str"):
            out.append((k, [i if i[0] == "str" else put(i, args, tag) for i in s[1]]))
        elif k == "fill":
            out.append((k, put(s[1], args, tag), put(s[2], args, tag)))
        elif k == "equ":
            out.append((k, s[1], put(s[2], args, tag)))
        else:
            out.append(s)


def simple(e):
    return e[0] in ("n", "s")


def directed(rng):
    """macros by hand: arguments in every position, nesting, many uses, local labels, parameters past 9.
    What decides a size hangs on the first parameter only, and that is always a constant: otherwise there may be several layouts."""
    P = lambda k: ("p", k)
    m = []
    na = rng.choice((1, 2, 3, 5, 9, 10, 12)) if rng.random() < .9 else rng.choice((20, 33, 64, 99, 100, 101, 130, 256, 300))
    body = []
    labs = ["@a", "@b", "@loop1"][:rng.randrange(0, 4)]
    for _ in range(rng.randrange(1, 7)):
        k = rng.randrange(1, na + 1)
        body.append(rng.choice((
            ("op", "lda", "#", ("lo", P(k))), ("op", "ldx", "#", ("hi", P(k))), ("op", "sta", "e", P(k)), ("op", "lda", "e,x", P(k)),
            ("op", "adc", "(e),y", ("b", "&", P(k), ("n", 255))), ("op", "jmp", "e", P(k)), ("op", "jmp", "(e)", P(k)),
            ("byte", [("lo", P(k)), ("hi", P(k))]), ("word", [P(k), ("b", "&", ("b", "+", P(k), P(rng.randrange(1, na + 1))), ("n", 65535))]),
            ("fill", ("b", "&", P(k), ("n", 255)), ("b", "&", P(1), ("n", 7))),
            ("if", ("b", ">", P(1), ("n", 300)), [("byte", [("n", 1)])], [("byte", [("n", 2), ("n", 3)])]),
            ("if", P(1), [("word", [P(k)])], None))))
        if labs and rng.random() < 0.6:
            l = rng.choice(labs)
            body.append(rng.choice((("op", "bne", "e", ("loc", l)), ("op", "jmp", "e", ("loc", l)), ("word", [("loc", l)]))))
    for l in labs:
        body.insert(rng.randrange(len(body) + 1), ("lab", l))
    m.append(("macro", "first", body))
    names = [("first", na)]
    if rng.random() < 0.6:
        k = rng.choice((1, 2, 3, 4, 5, 8, 12)) if rng.random() < .9 else rng.choice((20, 64, 99, 100, 128, 255))
        arg = lambda: rng.choice((("p", rng.randrange(1, k + 1)), ("b", "+", ("p", rng.randrange(1, k + 1)), ("n", 1)), ("n", rng.randrange(60000)), ("s", "base")))
        first = lambda: rng.choice((("p", 1), ("b", "+", ("p", 1), ("n", 1)), ("n", rng.randrange(60000))))
        b2 = [("op", "inx", "none", None)]
        if rng.random() < 0.3:
            b2 += [("word", [("p", k)])]
        for _ in range(rng.choice((1, 1, 2))):
            b2 += [("call", "first", [first()] + [arg() for _ in range(na - 1)])]
            b2 += [("word", [("p", rng.randrange(1, k + 1)) for _ in range(rng.randrange(1, 4))] + [("p", k)])]
        if rng.random() < 0.5:
            b2 += [("lab", "@a"), ("op", "dex", "none", None), ("op", "bpl", "e", ("loc", "@a"))]
        m.append(("macro", "Second_2", b2))
        if rng.random() < 0.5:       # one more level, with more or fewer parameters
            k3 = rng.choice((1, 2, 4, 6))
            arg3 = lambda: rng.choice((("p", rng.randrange(1, k3 + 1)), ("n", rng.randrange(60000)), ("s", "base")))
            b3 = []
            for _ in range(rng.choice((1, 2))):
                b3 += [("call", "Second_2", [rng.choice((("p", 1), ("n", rng.randrange(60000))))] + [arg3() for _ in range(k - 1)]),
                       ("word", [("p", j + 1) for j in range(k3)])]
            m.append(("macro", "third", b3))
            names.append(("third", k3))
        names.append(("Second_2", k))
    prog = m + [("equ", "small", ("n", 7)), ("lab", "base"), ("op", "nop", "none", None)]
    for u in range(rng.randrange(1, 6)):
        n, k = rng.choice(names)
        args = [rng.choice((("n", rng.randrange(256)), ("n", rng.randrange(60000)), ("s", "small")))]
        args += [rng.choice((("n", rng.randrange(256)), ("n", rng.randrange(60000)), ("s", "base"), ("s", "ahead"), ("s", "small"),
                             ("b", "+", ("s", "base"), ("n", rng.randrange(300))), ("pc",),
                             ("b", "|", ("b", "-", ("s", "ahead"), ("s", "base")), ("n", 4096)))) for _ in range(k - 1)]
        call = ("call", n, args)
        if rng.random() < 0.3:
            prog.append(("l", "at%d" % u, call))
        else:
            prog.append(call)
        if rng.random() < 0.3:
            prog.append(("lab", "z%d" % u))
    prog += [("op", "rts", "none", None), ("lab", "ahead"), ("word", [("s", "ahead")])]
    return prog


def many(env, o, rng, i):
    """one macro with labels of its own, called very often, and others between the calls"""
    n = rng.choice((17, 33, 63, 64, 65, 66, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1000, 1025, 2000))
    if i % 250 == 1:
        n = rng.choice((4095, 4097, 5000))
    labs = rng.choice((["@l"], ["@l"], ["@a", "@b"]))
    body = []
    for l in labs:
        body += [("lab", l), ("op", "dex", "none", None), ("op", rng.choice(("bne", "bpl", "beq")), "e", ("loc", l))]
    ahead = rng.random() < 0.4
    if ahead:
        body = [("op", "bcc", "e", ("loc", "@end"))] + body + [("lab", "@end")]
    prog = [("macro", "w", body), ("macro", "other", [("lab", "@l"), ("op", "inx", "none", None), ("op", "bcs", "e", ("loc", "@l"))]),
            ("macro", "outer", [("call", "w", []), ("lab", "@l"), ("call", "w", []), ("op", "bvc", "e", ("loc", "@l"))])]
    how = rng.randrange(3)
    if how == 0:
        prog += [("call", "w", []) for _ in range(n)]
    elif how == 1:
        for k in range(n):
            prog.append(("call", "w", []))
            if rng.random() < 0.2:
                prog.append(("call", "other", []))
            if rng.random() < 0.05:
                prog.append(("lab", "at%d" % k))
    else:
        prog += [("call", "outer", []) for _ in range((n + 1) // 2)]
    ref = A.Ref().run(prog)
    res = D.asm(env, A.render(prog))
    o.ev()
    if D.compare(o, res, ref, "%d calls of a macro with local labels" % n):
        o.key(("many", res.image))
        o.stats["calls in long runs"] += n


def recursive(env, o, rng, i):
    """macros that call themselves or each other until an argument is 0. The stub in front makes the name known"""
    two, both = rng.random() < 0.4, rng.random() < 0.5
    before, after, turns = rng.random() < 0.7, rng.random() < 0.7, rng.choice((1, 1, 2))
    depth = rng.randrange(0, 6) if turns == 2 else rng.randrange(0, 40)
    names = ["m", "other"] if two else ["m", "m"]
    lines = [" * = $1000"]
    for n in sorted(set(names)):
        lines += [" .macro " + n, " nop", " .endm"]
    add = rng.randrange(1, 500)

    def body(n, callee, op):
        t = [" .macro " + n, "@l", " " + op]
        if before:
            t.append(" .word @l, \\1, \\2")
        t += [" .if \\1 > 0"] + [" %s \\1 - 1, \\2 + %d" % (callee, add * (k + 1)) for k in range(turns)] + [" .endif"]
        if after:
            t += [" .word \\2, @l", " jmp @e"]
        if both:
            t += [" .word @e - @l"]
        t += ["@e", " rts", " .endm"]
        return t
    ops = {"m": ("inx", 0xE8), "other": ("iny", 0xC8)}
    for k, n in enumerate(sorted(set(names))):
        lines += body(n, names[1] if n == "m" else "m", ops[n][0])
    calls = [(depth, rng.randrange(1000)) for _ in range(rng.choice((1, 2, 3)))]
    lines += [" m %d, %d" % c for c in calls]
    out = bytearray()

    def w(v):
        out.extend((v & 0xFFFF).to_bytes(2, "little"))

    def run(n, a, b):
        l = 0x1000 + len(out)
        out.append(ops[n][1])
        if before:
            w(l), w(a), w(b)
        if a > 0:
            for k in range(turns):
                run(names[1] if n == "m" else "m", a - 1, b + add * (k + 1))
        if after:
            w(b), w(l)
            out.append(0x4C)
            e = len(out)
            w(0)
        if both:
            d = len(out)
            w(0)
        at = 0x1000 + len(out)
        if after:
            out[e:e + 2] = at.to_bytes(2, "little")
        if both:
            out[d:d + 2] = (at - l).to_bytes(2, "little")
        out.append(0x60)
    for a, b in calls:
        run("m", a, b)
    res = D.asm(env, {"a.asm": "\n".join(lines) + "\n"})
    o.ev()
    if res.status == "hang":
        o.inconclusive += 1
    elif res.status != "ok" or res.image != bytes(out):
        o.violation("a macro that calls itself, %d deep: %s" % (depth, D.diff(bytes(out), res.image) if res.status == "ok" else res.status), **D.saved(res))
    else:
        o.key(("recursive", res.image))
        o.stats["programs with recursive macros"] += 1


def case(env, i, rng):
    o = Out()
    if i >= len(BAD) and i % 25 == 2:
        recursive(env, o, rng, i)
        return o
    if i >= len(BAD) and i % 25 == 1:
        many(env, o, rng, i)
        return o
    if i < len(BAD):
        what, text = BAD[i]
        for pre in ("", " nop\n", "one nop\n .macro other\n rts\n .endm\n other\n"):
            res = D.asm(env, {"a.asm": pre + text})
            o.ev()
            if D.must_reject(o, res, what):
                o.key(("refused", what, pre))
                o.stats["refused"] += 1
        return o
    if i % 3:
        prog, cpu, ill, defs = directed(rng), "6502", False, {}
        try:
            ref = A.Ref().run(prog)
        except A.AsmError as e:
            o.stats["dropped: %s" % e] += 1
            return o
    else:
        p, ref = G.program(rng, rng.choice((20, 40, 60)), {"macro", "nestmacro", "if"} | {f for f in ("local", "fwdconst", "expr", "branch", "cpu", "illegal", "str", "defines", "equ", "section", "setpc0", "for", "var") if rng.random() < 0.4})
        prog, cpu, ill, defs = p.stmts, p.cpu, p.illegal, p.defines
    st = rng.choice((A.PLAIN, A.Style.mild(rng), A.Style(rng, comments=True, symcase=True, space=True, synonyms=True)))
    res = D.asm(env, A.render(prog, st), D.copts(cpu, ill, defs))
    o.ev()
    if not D.compare(o, res, ref, "case %d" % i):
        return o
    inl = Inline()
    flat = []
    inl.body(prog, {}, None, flat)
    # calls in loops are left alone, and names in a section would be found elsewhere
    if not inl.calls or "'call'" in repr(flat) or "'section'" in repr(flat):
        o.key(res.image)
        o.stats["reference only"] += 1
        return o
    if any(s[0] == "if" and "'lab'" in repr(s) for s in flat):     # labels are not allowed in blocks
        o.key(res.image)
        o.stats["reference only"] += 1
        return o
    r2 = D.asm(env, A.render(flat, A.PLAIN), D.copts(cpu, ill, defs))
    o.ev()
    if r2.status == "hang":
        o.inconclusive += 1
    elif r2.status != "ok" or r2.image != res.image:
        if r2.status == "ok":
            try:
                f = A.Ref(cpu, ill, defs).run(flat)
                if ref.relaxed(res.image).image == res.image and f.relaxed(r2.image).image == r2.image:
                    o.stats["layouts with a branch kept long"] += 1
                    return o
            except A.AsmError:
                pass
        o.violation("case %d: with the bodies put in by hand it is different: %s" % (i, D.diff(res.image, r2.image) if r2.status == "ok" else r2.status),
                    **D.saved(res, **{"flat.asm": A.render(flat, A.PLAIN)["a.asm"].encode("latin-1"), "flat.err.txt": r2.run.err[:3000]}))
        return o
    o.key(res.image)
    o.stats["calls"] += inl.calls
    o.stats["compared by hand"] += 1
    o.samples.append("%d statements with %d calls, %d bytes" % (len(prog), inl.calls, len(res.image)))
    return o
