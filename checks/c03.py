"""C03: constant expressions: precedence, associativity, 32 bit wrap, truncating division, prefix operators."""
import asmlib as A
import drive as D
from common import Out

PROP = "C03"
KINDS = ("plain", "asan")
MIN_KEYS = 2000
RULE = "distinct (operator shape of the expression tree, value) whose 32 bit value, taken out in two words, matched an independent evaluator; plus distinct refused expressions"

INTEREST = (0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 127, 128, 254, 255, 256, 257, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x10000, 0x12345, 0x7FFFFFFF, 0x7FFFFFFE, 0x40000000)
PREFIX = ("lo", "hi", "not", "inv", "neg")


def plan(tier):
    return 12000 if tier == "quick" else 150000


def leaf(rng, names):
    k = rng.random()
    if k < 0.55:
        v = rng.choice(INTEREST) if rng.random() < 0.5 else rng.randrange(1 << rng.choice((3, 8, 16, 31)))
        if 32 <= v < 127 and chr(v) not in "\"'\\" and rng.random() < 0.2:
            return ("n", v, "c")
        return ("n", v)
    if k < 0.65:
        return ("n", -(rng.randrange(1 << rng.choice((3, 8, 16, 31))) + 1))
    if k < 0.95 and names:
        return ("s", rng.choice(names))
    return ("pc",)


def tree(rng, d, names):
    if d == 0 or rng.random() < 0.15:
        return leaf(rng, names)
    if rng.random() < 0.2:
        return (rng.choice(PREFIX), tree(rng, d - 1, names))
    op = rng.choice(A.OPS)
    l, r = tree(rng, d - 1, names), tree(rng, d - 1, names)
    if op in ("<<", ">>") and rng.random() < 0.9:
        r = ("n", rng.randrange(0, 32))
    if op == "/" and rng.random() < 0.8:
        r = ("n", rng.choice((1, 2, 3, 7, 10, 256, -1, -2, -7, 65535)))
    return ("b", op, l, r)


def chain(rng, names):
    """a flat a op b op c op d ... written without parentheses: built by the precedence rules"""
    n = rng.randrange(3, 7)
    ops = [rng.choice(A.OPS) for _ in range(n - 1)]
    vals = [("n", rng.randrange(1, rng.choice((6, 30, 300)))) for _ in range(n)]
    vs, os_ = [vals[0]], []

    def red():
        r, l = vs.pop(), vs.pop()
        vs.append(("b", os_.pop(), l, r))
    for o, v in zip(ops, vals[1:]):
        while os_ and A.PREC[os_[-1]] >= A.PREC[o]:
            red()
        os_.append(o)
        vs.append(v)
    while os_:
        red()
    return vs[0]


def shape(e):
    if e[0] == "b":
        return (e[1], shape(e[2]), shape(e[3]))
    if e[0] in PREFIX:
        return (e[0], shape(e[1]))
    return e[0]


def words(e):
    return [("b", "&", e, ("n", 0xFFFF)), ("b", "&", ("b", ">>", e, ("n", 16)), ("n", 0xFFFF))]


def case(env, i, rng):
    o = Out()
    names = ["k%d" % k for k in range(6)]
    syms = {n: rng.choice((rng.randrange(65536), rng.randrange(256), 0, 0xFFFF, 0x8000)) for n in names}
    fwd = [n for n in names if rng.random() < 0.3]
    head = [("equ", n, ("n", syms[n])) for n in names if n not in fwd]
    tail = [("equ", n, ("n", syms[n])) for n in fwd]
    good, bad = [], []
    for _ in range(14):
        e = chain(rng, names) if rng.random() < 0.35 else tree(rng, rng.randrange(1, 6), names)
        stmt = ("word", words(e))
        try:
            r = A.Ref().run(head + [stmt] + tail)
            good.append((e, stmt))
        except A.Ambiguous:
            pass
        except A.AsmError:
            bad.append((e, stmt))
    st = rng.choice((A.PLAIN, A.Style.wild(rng), A.Style(rng, nums=True, parens=True), A.Style.mild(rng)))
    prog = head + [g[1] for g in good]
    # the same expressions in other places where a value is wanted
    extra = []
    for e, _ in good[:4]:
        q = ("b", "&", e, ("n", 0xFF))
        k = rng.randrange(6)
        n = "z%d" % len(extra)
        if k == 0:
            extra.append(("op", "lda", "#", q))
        elif k == 1:
            extra += [("equ", n, ("b", "&", e, ("n", 0xFFFF))), ("word", [("s", n)])]
        elif k == 2:
            extra += [("var", [(n, e)]), ("word", words(("s", n)))]
        elif k == 3 and not fwd:
            extra.append(("if", e, [("byte", [("n", 1)])], [("byte", [("n", 2)])]))
        elif k == 4 and not fwd:
            extra.append(("fill", ("n", 0xA5), ("b", "&", e, ("n", 15))))
        elif k == 5:
            extra.append(("byte", [("lo", e), ("hi", e), ("not", e)]))
    prog = prog + extra + tail
    try:
        ref = A.Ref().run(prog)
    except A.AsmError:      # an expression with * has no value at its place in this program
        o.stats["dropped"] += 1
        return o
    kind = "asan" if i % 25 == 0 else "plain"
    res = D.asm(env, A.render(prog, st), kind=kind)
    o.ev(len(good))
    if D.compare(o, res, ref, "expression values"):
        for e, _ in good:
            o.key((shape(e), e))
            o.stats["depth>=3" if A.rx(e, A.PLAIN).count(" ") >= 6 else "shallow"] += 1
            for op in A.OPS:
                if (" " + op + " ") in A.rx(e, A.PLAIN):
                    o.stats["op " + op] += 1
        if good:
            o.samples.append("%s -> %s" % (A.rx(good[0][0], A.PLAIN), D.hx(res.image[:4])))
    for e, stmt in bad[:1]:
        res = D.asm(env, A.render(head + [stmt] + tail, st), kind=kind)
        o.ev()
        if D.must_reject(o, res, "expression %s has no value (division by zero or shift count)" % A.rx(e, A.PLAIN)):
            o.key(("refused", e))
            o.stats["refused"] += 1
    # a prefix operator takes everything that follows it
    a, b, c = (rng.randrange(1, 4000) for _ in range(3))
    op1, op2 = rng.choice("+-*"), rng.choice(("+", "-", "*", "&", "|", "^"))
    pre, f = rng.choice((("<", "lo"), (">", "hi"), ("~", "inv")))
    text = "    .word (%d %s %s%d %s %d) & $FFFF\n" % (a, op1, pre, b, op2, c)
    want = A.Ref().run([("word", [("b", "&", ("b", op1, ("n", a), (f, ("b", op2, ("n", b), ("n", c)))), ("n", 0xFFFF))])]).image
    res = D.asm(env, {"a.asm": text})
    o.ev()
    if res.status == "hang":
        o.inconclusive += 1
    elif res.status != "ok" or res.image != want:
        o.violation("prefix operator: %s expected %s got %s" % (text.strip(), D.hx(want), D.hx(res.image or b"")), **D.saved(res))
    else:
        o.key(("prefix", op1, pre, op2))
    return o
