"""C06: which definition a name refers to: sections, local labels, anonymous +/- labels."""
import asmlib as A
import drive as D
import gen as G
from common import Out

PROP = "C06"
KINDS = ("plain",)
MIN_KEYS = 500
RULE = "distinct images of programs that reuse the same names in many scopes and matched the reference's name resolution; plus distinct refused references"

POOL = ("foo", "bar", "loop", "data", "Value", "tbl")


def plan(tier):
    return 20000 if tier == "quick" else 200000


def sections(rng):
    """a tree of sections in which siblings and cousins define the same names; never an inner name that hides an outer one"""
    out = []
    secs = []
    n = [0]
    glob = ["g%d" % k for k in range(3)]

    def filler():
        return [("fill", ("n", 0xEA), ("n", rng.randrange(0, 12)))] if rng.random() < 0.5 else [("op", "nop", "none", None)]

    def sect(path, used, depth):
        n[0] += 1
        name = "s%d" % n[0] if rng.random() < 0.7 else "Sec_%d" % n[0]
        path = path + (name,)
        free = [x for x in POOL if x not in used]
        rng.shuffle(free)
        mine = free[:rng.randrange(0, 4)]
        kinds = {x: rng.choice(("lab", "lab", "equ")) for x in mine}
        secs.append((path, mine))
        out.append(("section", name))
        todo = [("def", x) for x in mine] + [("use", x) for x in mine for _ in range(2)] + [("far",)] * 2 + [("out", x) for x in used]
        kids = rng.randrange(0, 3) if depth < 2 else 0
        todo += [("kid",)] * kids
        rng.shuffle(todo)
        for t in todo:
            out.extend(filler() if rng.random() < 0.5 else [])
            if t[0] == "def":
                out.append(("lab", t[1]) if kinds[t[1]] == "lab" else ("equ", t[1], ("n", rng.randrange(65536))))
            elif t[0] == "use":
                out.append(("use", ("s", t[1])))
            elif t[0] == "far":
                out.append(("far",))
            elif t[0] == "out":
                out.append(("use", ("s", ".".join(owner(t[1], path) + (t[1],)))))
            else:
                sect(path, used | set(mine), depth + 1)
        out.append(("ends",))

    def owner(x, path):
        for k in range(len(path), 0, -1):
            if any(p == path[:k] and x in m for p, m in secs):
                return path[:k]
        return ()

    for _ in range(rng.randrange(2, 5)):
        for g in glob:
            if rng.random() < 0.4:
                out.append(("use", ("s", g)))
        sect((), set(), 0)
    for g in glob:
        out.append(("lab", g))
        out.extend(filler())
    allnames = [".".join(p + (x,)) for p, m in secs for x in m] + glob
    res = []
    for s in out:
        if s[0] == "far":
            s = ("use", ("s", rng.choice(allnames)))
        if s[0] == "use":
            e = s[1]
            s = rng.choice((("word", [e]), ("word", [e, ("n", 1)]), ("op", "jmp", "e", e), ("op", "lda", "#", ("lo", e)), ("byte", [("hi", e)]),
                            ("word", [("b", "+", e, ("n", 1))]) if rng.random() < 0.5 else ("word", [e])))
            if s == ("word", [("b", "+", e, ("n", 1))]):
                s = ("word", [("b", "&", s[1][0], ("n", 0xFFFF))])
        res.append(s)
    return res


def locals_(rng):
    """local labels of the same names under many labels, in macros that are used many times, next to +/- labels"""
    out = []
    names = ["@a", "@b", "@loop", "@Z1"]
    mac = [("macro", "mm", [("lab", "@a"), ("op", "dex", "none", None), ("op", "bne", "e", ("loc", "@a")),
                            ("op", "jmp", "e", ("loc", "@b")), ("fill", ("n", 1), ("p", 1)), ("lab", "@b"), ("op", "lda", "e", ("loc", "@b"))])]
    if rng.random() < 0.6:
        out += mac
    n = rng.randrange(2, 8)
    # some before any global label, which are not those behind the last one
    first = rng.random() < 0.5
    for k in range(-first, n):
        lab = "l%d" % k
        mine = [x for x in names if rng.random() < 0.6]
        items = [("lab", x) for x in mine]
        for x in mine:
            for _ in range(rng.randrange(1, 3)):
                e = ("loc", x)
                items.append(rng.choice((("op", "jmp", "e", e), ("word", [e]), ("op", "beq", "e", e), ("word", [("b", "+", e, ("n", 2))]))))
        if out and out[0][0] == "macro":
            items += [("call", "mm", [("n", rng.randrange(0, 6))]) for _ in range(rng.randrange(0, 3))]
        items += [("op", "nop", "none", None)] * rng.randrange(0, 4)
        rng.shuffle(items)
        if k < 0:
            out += items
        elif items and items[0][0] == "op" and rng.random() < 0.5:
            items[0] = ("l", lab, items[0])
            out += items
        else:
            out += [("lab", lab)] + items
    return out


def plusminus(rng):
    out = []
    n = rng.choice((rng.randrange(3, 14), rng.randrange(3, 14), rng.randrange(20, 60)))
    both = rng.choice(("+-", "+-", "+++-", "+---"))
    seq = [rng.choice(both) for _ in range(n)]
    minus = 0
    total = seq.count("+")
    plus = 0
    for c in seq:
        for _ in range(rng.randrange(0, 3)):
            if minus and rng.random() < 0.5:
                e = ("pm", "-", rng.randrange(1, min(rng.choice((6, 6, 6, 60)), minus) + 1))
            elif total - plus:
                e = ("pm", "+", rng.randrange(1, min(rng.choice((6, 6, 6, 60)), total - plus) + 1))
            else:
                continue
            out.append(("op", rng.choice(("jmp", "jsr", "bne", "bcc", "lda")), "e", e))
        if rng.random() < 0.3:
            out.append(("lab", "n%d" % len(out)))
        if rng.random() < 0.5:
            out.append(("l", c, ("op", rng.choice(("nop", "inx", "rts")), "none", None)))
        else:
            out.append(("lab", c))
        if rng.random() < 0.4:
            out.append(("fill", ("n", 7), ("n", rng.randrange(1, 30))))
        minus += c == "-"
        plus += c == "+"
    for _ in range(2):
        if minus:
            out.append(("op", "jmp", "e", ("pm", "-", rng.randrange(1, min(rng.choice((6, 6, 6, 60)), minus) + 1))))
    return out


def macsec(rng):
    """macros written at the top level whose bodies use and define names; called in sections that each have their own"""
    def use(e):
        return rng.choice((("word", [e]), ("op", "jmp", "e", e), ("op", "lda", "#", ("lo", e)), ("byte", [("hi", e), ("lo", e)]),
                           ("op", "sta", "e,x", ("b", "|", ("b", "&", e, ("n", 255)), ("n", 0x400))), ("word", [("b", "^", e, ("n", rng.randrange(65536)))])))

    nop = ("op", "nop", "none", None)
    equs, labs = ["Value", "tbl"], ["foo", "bar"]
    out = []
    uses = []
    for k in range(rng.randrange(1, 4)):
        body = []
        for _ in range(rng.randrange(1, 5)):
            n = rng.choice(equs + labs + ["glob", "gcon"])
            body.append(rng.choice((use(("s", n)), use(("s", n)), ("word", [("p", 1), ("s", n)]),
                                    ("if", ("b", ">", ("s", "Value"), ("n", rng.randrange(65536))), [use(("s", n))], [nop] if rng.random() < 0.5 else None),
                                    ("fill", ("b", "&", ("s", "tbl"), ("n", 255)), ("b", "&", ("s", "Value"), ("n", 3))))))
        if uses and rng.random() < 0.4:
            body.append(("call", rng.choice(uses), [("s", rng.choice(labs + equs))]))
        if rng.random() < 0.4:
            body = [("lab", "@l")] + body + [("op", "bne", "e", ("loc", "@l"))]
        out.append(("macro", "use%d" % k, body))
        uses.append("use%d" % k)
    # these define names
    dl = [("lab", "entry"), nop, ("fill", ("n", 3), ("p", 1)), use(("s", "entry")), use(("s", "foo"))]
    if rng.random() < 0.5:
        dl = [("op", "bcc", "e", ("s", "past"))] + dl + [("lab", "past"), use(("s", "past"))]
    de = [("equ", "width", ("b", "+", ("p", 1), ("s", "Value"))), use(("s", "width"))]
    loop = rng.choice(([("for", "cnt", ("n", 1), ("p", 1), None, [("byte", [("s", "cnt")]), use(("s", "tbl"))])],
                       [("equ", "cnt", ("n", 0)), ("while", ("b", "<", ("s", "cnt"), ("p", 1)), [use(("s", "foo")), ("equ", "cnt", ("b", "+", ("s", "cnt"), ("n", 1)))])],
                       [("equ", "cnt", ("n", 0)), ("repeat", [("word", [("s", "cnt")]), ("equ", "cnt", ("b", "+", ("s", "cnt"), ("n", 1)))], ("b", ">=", ("s", "cnt"), ("p", 1)))]))
    both = [("call", "deflab", [("p", 1)]), ("call", "defequ", [("b", "+", ("p", 1), ("n", 1))])]
    out += [("macro", "deflab", dl), ("macro", "defequ", de), ("macro", "both", both), ("macro", "loop", loop)]
    prog = out + [("equ", "gcon", ("n", rng.randrange(65536)))]
    if rng.random() < 0.5:
        prog.append(("lab", "glob"))
    names = []

    def sect(path, depth):
        name = "%s%d" % (rng.choice(("s", "Part_")), len(names))
        path = path + (name,)
        full = lambda n: ".".join(path + (n,))
        prog.append(("section", name))
        for e in equs:
            prog.append(("equ", e, ("n", rng.choice((rng.randrange(256), rng.randrange(30000))))))
        todo = [("lab", n) for n in labs] + [("call", rng.choice(uses), [("n", rng.randrange(65536))]) for _ in range(rng.randrange(1, 4))]
        if rng.random() < 0.5:
            todo.append(("call", rng.choice(uses), [("s", rng.choice(labs))]))
        which = rng.choice((None, "deflab", "defequ", "both"))
        if which:
            todo.append(("call", which, [("n", rng.randrange(0, 9))]))
        have = {"deflab": ["entry"], "defequ": ["width"], "both": ["entry", "width"], None: []}[which]
        todo += [use(("s", n)) for n in have]
        if rng.random() < 0.4:
            prog.append(("var", [("cnt", ("n", rng.randrange(9)))]))
            todo += [("call", "loop", [("n", rng.randrange(1, 6))])] * rng.randrange(1, 3)
        todo += [nop] * rng.randrange(0, 3)
        rng.shuffle(todo)
        names.extend(full(n) for n in labs + equs + have)
        prog.extend(todo)
        if depth < 2 and rng.random() < 0.3:
            sect(path, depth + 1)
        prog.append(("ends",))

    for _ in range(rng.randrange(1, 5)):
        sect((), 0)
    if not any(s == ("lab", "glob") for s in prog):
        prog.append(("lab", "glob"))
    for n in names:
        if rng.random() < 0.4:
            prog.append(use(("s", n)))
    return prog


BAD = [
    ("a name that a macro defined in a section, from outside", " .macro m\nfoo\n nop\n .endm\n .section s\n m\n .ends\n jmp foo\n"),
    ("a name that the section a macro is called in does not have", " .macro m\n jmp foo\n .endm\n .section s\nfoo nop\n m\n .ends\n .section t\n m\n .ends\n"),
    ("a name that the section a macro is called in does not have", " .macro m\n jmp foo\n .endm\n .section s\nfoo nop\n m\n .ends\n m\n"),
    ("a symbol of a section by its plain name from outside", " .section s\nfoo nop\n .ends\n jmp foo\n"),
    ("a symbol of a section by its plain name before it", " jmp foo\n .section s\nfoo nop\n .ends\n"),
    ("a symbol of a sibling section", " .section s\nfoo nop\n .ends\n .section t\n jmp foo\n .ends\n"),
    ("a partial path", " .section s\n .section t\nfoo nop\n .ends\n .ends\n jmp t.foo\n"),
    ("a wrong path", " .section s\nfoo nop\n .ends\n jmp t.foo\n"),
    ("a symbol of an inner section by its plain name", " .section s\n .section t\nfoo nop\n .ends\n jmp foo\n .ends\n"),
    ("a local label of another scope", "one\n@a nop\ntwo nop\n jmp @a\n"),
    ("a local label of a later scope", "one nop\n jmp @a\ntwo\n@a nop\n"),
    ("a local label of a macro from outside", " .macro m\n@a\n nop\n .endm\nx1 nop\n m\n jmp @a\n"),
    ("a local label of the caller inside a macro", " .macro m\n jmp @a\n .endm\nx1\n@a nop\n m\n"),
    ("+ after the last +", "+ nop\n jmp +\n"),
    ("++ with one + ahead", " jmp ++\n+ nop\n"),
    ("- before the first -", " jmp -\n- nop\n"),
    ("-- with one - behind", "- nop\n jmp --\n"),
    ("an undefined name", " jmp nowhere\n"),
    ("an undefined name in data", " .word nowhere\n"),
    ("an undefined name in an immediate operand", " lda #nowhere\n"),
    ("an undefined name in an assignment", "k = nowhere + 1\n .word k\n"),
]


def many(env, o, rng, i):
    """thousands of - and + labels in one file"""
    n, kind, pc = rng.randrange(4850, 6200), rng.choice("-+"), 0x1000
    depth = [rng.randrange(1, rng.choice((4, 4, 4, 80))) for _ in range(n)]
    at = [pc + 3 * j + (0 if kind == "-" else 3) for j in range(n)]
    text, image = [], bytearray()
    for j, d in enumerate(depth):
        if kind == "-":
            d = min(d, j + 1)
            text.append("- jmp %s\n" % ("-" * d))
            image += b"\x4c" + at[j + 1 - d].to_bytes(2, "little")
        else:
            # the label is behind the jump
            d = min(d, n - j)
            text.append("%s jmp %s\n" % ("+" if j else "", "+" * d))
            image += b"\x4c" + at[j + d - 1].to_bytes(2, "little")
    if kind == "+":
        text.append("+ nop\n")
        image += b"\xea"
    res = D.asm(env, {"a.asm": "".join(text)}, timeout=60)
    o.ev()
    if res.status != "ok" or res.image != image:
        o.violation("%d labels %s: %s" % (n, kind, res.status if res.status != "ok" else D.diff(image, res.image)), **D.saved(res))
    else:
        o.key(("many", n, kind))
        o.stats["references among thousands of labels"] += n


def case(env, i, rng):
    o = Out()
    if i % 1250 == 77:
        many(env, o, rng, i)
        return o
    if i < len(BAD):
        what, text = BAD[i]
        for pre in ("", "first nop\n", " nop\n nop\n"):
            res = D.asm(env, {"a.asm": pre + text})
            o.ev()
            if D.must_reject(o, res, what):
                o.key(("refused", what, pre))
                o.stats["refused"] += 1
        return o
    k = rng.randrange(5)
    cpu = "6502"
    if k == 0:
        prog, name = sections(rng), "sections"
    elif k == 1:
        prog, name = locals_(rng), "locals"
    elif k == 2:
        prog, name = plusminus(rng), "plus/minus"
    elif k == 4:
        prog, name = macsec(rng), "macros called in sections"
    else:
        p, ref = G.program(rng, rng.choice((30, 60)), {"section", "local", "macro", "branch", "str"} | {f for f in ("inc", "nestmacro", "fwdconst", "for", "var") if rng.random() < 0.4})
        prog, name = p.stmts, "mixed"
    if k != 3:
        try:
            ref = A.Ref(cpu).run(prog)
        except A.AsmError as e:
            o.stats["dropped %s %s" % (name, e)] += 1
            return o
    st = rng.choice((A.PLAIN, A.Style(rng, space=True, symcase=True, case=True), A.Style(rng, comments=True, space=True, colon=True)))
    res = D.asm(env, A.render(prog, st))
    o.ev()
    if D.compare(o, res, ref, "case %d, %s" % (i, name)):
        o.key(res.image)
        o.stats[name] += 1
        o.stats["references"] += sum(1 for r in ref.recs)
        if len(prog) < 30:
            o.samples.append("%s: %d statements -> %s" % (name, len(prog), D.hx(res.image, 12)))
    return o
