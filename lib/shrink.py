"""Development aid: reduces a program that the assembler and the reference disagree on.
   python3 lib/shrink.py SEED CASE [CHECK]   (cases of c05)"""
import os, random, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import asmlib as A, build as B, drive as D, gen as G


def subs(s):
    """smaller versions of one statement"""
    k = s[0]
    if k == "l":
        yield [s[2]]
        yield [("lab", s[1])]
        for x in subs(s[2]):
            if len(x) == 1 and x[0][0] not in ("lab", "l"):
                yield [("l", s[1], x[0])]
    pos = {"if": (2, 3), "ifdef": (3, 4), "repeat": (1,), "do": (1,), "while": (2,), "for": (5,), "reg": (5,), "macro": (2,), "inc": (2,)}.get(k, ())
    for i in pos:
        if s[i]:
            if k not in ("macro",):
                yield list(s[i])
            for b in variants(s[i]):
                if b:
                    yield [s[:i] + (b,) + s[i + 1:]]
            if i == 3 and k == "if" or i == 4:
                yield [s[:i] + (None,) + s[i + 1:]]
    if k in ("byte", "word", "str") and len(s[1]) > 1:
        for i in range(len(s[1])):
            yield [(k, s[1][:i] + s[1][i + 1:])]
    if k == "op" and s[3] is not None and s[3][0] not in ("n",):
        yield [("op", s[1], s[2], ("n", 0x12))]
        yield [("op", s[1], s[2], ("n", 0x1234))]
    if k in ("op",) and s[1] != "nop":
        yield [("op", "nop", "none", None)]
    if k in ("byte", "word") and s[1] and s[1] != [("n", 0)]:
        yield [(k, [("n", 0)])]


def variants(stmts):
    n = len(stmts)
    c = max(1, n // 2)
    while c:
        for i in range(0, n, c):
            yield stmts[:i] + stmts[i + c:]
        c //= 2
    for i, s in enumerate(stmts):
        for v in subs(s):
            yield stmts[:i] + v + stmts[i + 1:]


def shrink(stmts, bad):
    again = True
    while again:
        again = False
        for v in variants(stmts):
            if v and bad(v):
                stmts, again = v, True
                break
    return stmts


MSGS = ("syntax error", "Maximum number", "out of range", "Invalid opcode", "Divide", "infinite", "Duplicate")


def names(x, used, defd):
    if isinstance(x, tuple):
        if x and x[0] == "s":
            used.add(x[1].lower().split(".")[-1])
        elif x and x[0] == "call":
            used.add(x[1].lower())
        elif x and x[0] == "loc":
            used.add(x[1])
        elif x and x[0] in ("lab", "l", "equ", "macro"):
            defd.add(x[1].lower())
        elif x and x[0] == "var":
            defd.update(n.lower() for n, _ in x[1])
        elif x and x[0] == "for":
            used.add(x[1].lower())
        for y in x:
            names(y, used, defd)
    elif isinstance(x, list):
        for y in x:
            names(y, used, defd)


def undefined(stmts):
    u, d = set(), set(DEF)
    names(stmts, u, d)
    return u - d


DEF = set()


def runner(cpu, illegal, defines, opts=(), st=A.PLAIN):
    DEF.clear()
    DEF.update(n.lower() for n in (defines or {}))
    exe = os.path.join(B.build(("plain",))["plain"], "pasm")
    d = tempfile.mkdtemp()

    def run(stmts):
        try:
            ref = A.Ref(cpu, illegal, defines).run(stmts)
        except Exception:
            return None
        for n, t in A.render(stmts, st).items():
            open(os.path.join(d, n), "wb").write(t if isinstance(t, bytes) else t.encode("latin-1"))
        try:
            os.unlink(d + "/o.bin")
        except OSError:
            pass
        try:
            p = subprocess.run([exe] + D.copts(cpu, illegal, defines) + list(opts) + ["-o", "o.bin", "a.asm"], cwd=d, capture_output=True, timeout=5)
        except subprocess.TimeoutExpired:
            return ref, None, None
        img = open(d + "/o.bin", "rb").read() if os.path.exists(d + "/o.bin") else None
        return ref, p, img

    first = []

    def bad(stmts):
        r = run(stmts)
        if r is None:
            return False
        if r[1] is None:
            sig = "timeout"
        elif r[1].returncode:
            t = (r[1].stdout + r[1].stderr).decode("latin-1")
            sig = next((w for w in MSGS if w in t), "other")
        elif r[2] != r[0].image:
            sig = "differs"
        else:
            return False
        if not first:
            first.append(sig)
        return sig == first[0] and not (sig != "differs" and undefined(stmts))
    return run, bad


if __name__ == "__main__":
    seed, i = sys.argv[1], sys.argv[2]
    rng = random.Random("%s/%s/%s" % (sys.argv[3] if len(sys.argv) > 3 else "C05", seed, i))
    p, ref = G.program(rng, rng.choice((10, 25, 40, 40, 80, 160)))
    run, bad = runner(p.cpu, p.illegal, p.defines)
    print("bad" if bad(p.stmts) else "agrees", p.cpu, p.illegal, p.defines)
    if bad(p.stmts):
        s = shrink(p.stmts, bad)
        r = run(s)
        for n, t in A.render(s).items():
            print("--", n)
            print(t if isinstance(t, str) else t.hex())
        if r[1]:
            print((r[1].stdout + r[1].stderr).decode("latin-1")[-600:])
        print("expected", r[0].image.hex(" "), "\ngot     ", r[2] and r[2].hex(" "))
