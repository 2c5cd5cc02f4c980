"""C21: assembling ends: in a result that is a fixed point, or in an error; endless programs are stopped; the work grows with the size only."""
import re
import subprocess
import asmlib as A
import drive as D
from common import Out

PROP = "C21"
KINDS = ("plain",)
MIN_KEYS = 150
RULE = ("distinct (kind of program, its parameters, end observed: passes and image, or the error) of programs that had to settle, had to be refused or had to be stopped, "
        "plus (construct, options) whose instruction count grew in proportion to the size")
ASSUME = ["work is measured as instructions executed (valgrind), not as time", "a run that does not end within the limit is run once more with three times the limit before it counts",
          "+ and - labels are looked up by scanning and excepted from the growth rule"]
PASS = re.compile(rb"^Pass (\d+)\r?$", re.M)
LIMIT = 20


def plan(tier):
    return 2200 if tier == "quick" else 30000


# ------------------------------------------------------------------ programs: (text, expected image or None for an error, key)
def w(v):
    return (v & 0xFFFF).to_bytes(2, "little")


def chain(rng):
    """f0 = f1 + k, f1 = f2 + k ... : every pass settles one more"""
    n = rng.choice((1, 2, 3, 5, 8, 10, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 25, 40, 100))
    ks = [rng.randrange(1, 50) for _ in range(n)]
    end = rng.randrange(0, 300)
    op = rng.choice("+-")
    t = ["f%d = f%d %s %d" % (j, j + 1, op, ks[j]) for j in range(n)]
    base = 10000 if op == "-" else 0
    v = end + base
    for k in ks:
        v = v + k if op == "+" else v - k
    use = rng.choice((" .word f0\n", " jmp f0\n", " .word f0, f0+1\n"))
    exp = {" .w": w(v), " jm": b"\x4c" + w(v)}[use[:3]] + (w(v + 1) if "," in use else b"")
    if use == " jmp f0\n" and rng.random() < .5:
        use, exp = " lda f0\n", (b"\xad" + w(v) if v > 255 else bytes([0xA5, v]))
    t = use + "\n".join(t) + "\nf%d = %d\n" % (n, end + base)
    return "chain", t, exp, ("chain", n, use), n <= 12, n >= 25


def labelchain(rng):
    """each .fill has as many bytes as the label after the next says: sizes settle from the end"""
    n = rng.choice((1, 2, 3, 4, 5, 6, 8))
    # c_j = c_{j+1} + d, blocks of c_j bytes, constants defined at the end in the wrong order
    ds = [rng.randrange(0, 4) for _ in range(n)]
    end = rng.randrange(0, 4)
    val = [end]
    for d in reversed(ds):
        val.append(val[-1] + d)
    val = val[::-1]
    t, img, pc, refs = [], b"", 0x1000, []
    for j in range(n + 1):
        t.append(" .fill %d, c%d" % (j + 1, j))
        img += bytes([j + 1]) * val[j]
        t.append("l%d .word l%d" % (j, n - j))
        refs.append((len(img), n - j))
        img += b"\0\0"
    img = bytearray(img)
    pos = [r[0] for r in refs]
    for p, k in refs:
        img[p:p + 2] = w(0x1000 + pos[k])
    t += ["c%d = c%d + %d" % (j, j + 1, ds[j]) for j in range(n)] + ["c%d = %d" % (n, end)]
    return "sizes", "\n".join(t) + "\n", bytes(img), ("sizes", n, tuple(ds[:2])), n <= 6, False


def oscillate(rng):
    """bytes that are there only if the label after them is low enough: with or without a consistent layout"""
    k = rng.randrange(1, 9)
    lead = rng.randrange(0, 6)
    base = 0x1000 + lead
    t = rng.randrange(base - 2, base + k + 2)
    cmp = rng.choice(("<=", ">"))
    way = rng.choice(("if", "else", "fill", "ds", "while", "for", "macro"))
    # emitted when lab <= t  (or lab > t)
    hold = [e for e in (0, 1) if ((base + k * e <= t) if cmp == "<=" else (base + k * e > t)) == bool(e)]
    cond = "lab %s %d" % (cmp, t)
    pre = ""
    if way == "if":
        b = " .if %s\n .fill 7,%d\n .endif\n" % (cond, k)
    elif way == "else":
        b = " .if not (%s)\n .byte 9\n .else\n .fill 7,%d\n .byte 9\n .endif\n" % (cond, k)
    elif way == "fill":
        b = " .fill 7, (%s) * %d\n" % (cond, k)
    elif way == "ds":
        return None
    elif way == "while":
        pre = " .var v = 0\n"
        b = "v = 0\n .while v < (%s) * %d\n .byte 7\nv = v + 1\n .wend\n" % (cond, k)
    elif way == "for":
        pre = " .var v = 0\n"
        b = " .for v = 1 .to (%s) * %d\n .byte 7\n .next v\n" % (cond, k)
    else:
        pre = " .macro m\n .if %s\n .fill 7,%d\n .endif\n .endm\n" % (cond, k)
        b = " m\n"
    x = 1 if way == "else" else 0
    if x:
        hold = [e for e in (0, 1) if ((base + k * e + 1 <= t) if cmp == "<=" else (base + k * e + 1 > t)) == bool(e)]
    text = pre + " nop\n" * lead + b + "lab .word lab\n"
    imgs = [b"\xea" * lead + bytes([7]) * (k * e) + b"\x09" * x + w(base + k * e + x) for e in hold]
    return "oscillating", text, imgs, ("oscillating", way, cmp, len(hold), k), False, not hold


def unsettled(rng):
    """symbols that change in every pass or are never defined"""
    n = rng.randrange(1, 6)
    k = rng.randrange(1, 9)
    i = rng.randrange(9)
    if i == 0:
        t = "".join("s%d = s%d + %d\n" % (j, (j + 1) % (n + 1), k) for j in range(n + 1))
    elif i == 1:
        t = " .word q%d\n" % n
    elif i == 2:
        t = "lab nop\n .fill 1, (lab2 & 1) + %d\nlab2 .word lab2\n" % (k * 2 if rng.random() < .5 else k * 2)
        # lab2 = $1001 + 2k + (lab2 & 1): never consistent
    elif i == 3:
        t = "s1 = s2 + lab\ns2 = s1 + 1\nlab nop\n"
    elif i == 4:
        t = " bne nowhere\n" * n
    elif i == 5:
        t = " jmp @nowhere\n" if n & 1 else "lab nop\n jmp @nowhere\nlab2 nop\n@nowhere nop\n"
    elif i == 6:
        t = " .section a1\n nop\n .ends\n .word a1.nowhere\n"
    elif i == 7:
        t = "*=$%x + (lab & 1)\nlab .word lab\n" % 0x2001 if False else " .fill 1, (lab & %d) == 0\nlab .word lab\n" % 0x1000 if False else " .fill 1, (lab == $1000) * %d\nlab .word lab\n" % k
    else:
        t = "".join("c%d = c%d\n" % (j, j + 1) for j in range(n)) + "c%d = c0 + %d\n .byte c0\n" % (n, k)
    if rng.random() < .3:
        t = " nop\n" * 2 + t
        if i == 7:
            return None
    return "never settles", t, None, ("never settles", i, n, k), False, True


EMIT = (" nop\n", " .byte 1\n", " .word 5\n", " lda $1234\n", " .byte \"some text\"\n", " .fill 1,3\n", " .ds 1\n", " .ds 5\n", " em\n", " .for w = 1 .to 3\n nop\n .next w\n", " .if 1\n nop\n .endif\n", " .str \"ab\"\n", " .for .regx = 1 .to 3\n nop\n .next x\n",
        " .repeat\n nop\n .until 1\n", " .load \"d.bin\"\n", " bne top\n", "v = v + 1\n nop\n", " .do\n nop\n .while 0\n")
DATA = tuple(e for e in EMIT if not any(x in e for x in ("nop", "em", "lda", "bne")))
LOOPS = ((" .while %s\n", " .wend\n", 1), (" .repeat\n", " .until %s\n", 0), (" .do\n", " .while %s\n", 1))


def endless(rng):
    """loops and macros that never end and put something out in every round"""
    i = rng.randrange(12)
    # with and without a single instruction in the program
    code = rng.random() < .5
    pre = "top%s\n .var v = 0, w = 0, u = 0\n .macro em\n nop\n .endm\n" % (" nop" if code else rng.choice(("", " .byte 0", " .str \"a\"")))
    body = rng.choice(EMIT if code else DATA)
    if i < 6:
        a, b, on = rng.choice(LOOPS)
        c = rng.choice(("%d" % on, "top %s 0" % ("!=" if on else "=="), "v < 0" if not on else "v >= 0", "1 %s 2" % ("<" if on else ">"), "*%s 0" % (" >" if on else " <")))
        if c.startswith("*"):
            c = "0 + " + c
        # a .while in a .do ends the .do
        inner = body + (rng.choice(EMIT if code else DATA) if rng.random() < .4 else "")
        t = (a.replace("%s", c)) + inner + (b.replace("%s", c))
        if rng.random() < .3 and ".do" not in a:
            t = rng.choice((" .if 1\n%s .endif\n", " .repeat\n%s .until 1\n", " .for u = 1 .to 3\n%s .next u\n", " .macro q\n%s .endm\n q\n")) % t
        key = ("loop", a.strip(), c, body)
    elif i == 6:
        if body == "v = v + 1\n nop\n":
            body = " nop\n"
        t = " .for v = 1 .to %s\n%s .next v\n" % (rng.choice(("2147483647", "$7fffffff", "100000", "1000000", "66000")), body)
        key = ("for", t)
    elif i == 7:
        t = " .for v = 1 .to 5 .step 0\n nop\n .next v\n" if rng.random() < .3 else " .for v = 5 .to %s .step -1\n nop\n .next v\n" % rng.choice(("-2147483647", "-70000", "-1000000"))
        key = ("for step", t)
    elif i in (8, 9):
        # (a macro must be defined before it is used, so it can only expand itself directly)
        call = " r0%s\n" % rng.choice(("", " 1", " \\1", " \\1 + 1"))
        call = rng.choice(("%s", "%s", " .if 1\n%s .endif\n", " .repeat\n nop\n%s .until 0\n", " .if 0\n nop\n .else\n%s .endif\n", "%s" + call)) % call
        n = call
        t = " .macro r0\n" + (rng.choice(EMIT) if rng.random() < .7 else "") + call + " .endm\n r0 1\n"
        key = ("macro", n, t)
    elif i == 10:
        t = " .repeat\n .repeat\n%s .until 1\n .until 0\n" % body
        key = ("nested", body)
    else:
        t = " .while 1\n .while 1\n%s .wend\n .wend\n" % body
        key = ("nested while", body)
    return "endless", pre + t + (" nop\n" if code else " .byte 2\n"), None, ("endless", code) + key, False, True


def stopped(rng):
    """.end in loops that would never end: assembling ends there"""
    n = rng.randrange(1, 30)
    a, b, on = rng.choice(LOOPS)
    lead = rng.choice((" nop\n", " .byte 234\n", " em\n"))
    r = rng.randrange(3)
    if r == 0:
        t, img = a.replace("%s", str(on)) + "v = v + 1\n" + lead + " .if v == %d\n .end\n .endif\n" % n + b.replace("%s", str(on)), b"\xea" * n
    elif r == 1:
        t, img = " .for v = 1 .to 1000\n%s .if v == %d\n .end\n .endif\n .next v\n" % (lead, n), b"\xea" * n
    else:
        t, img = " .macro r\nv = v + 1\n%s .if v == %d\n .end\n .else\n r\n .endif\n .endm\n r\n" % (lead, n), b"\xea" * n
    tail = rng.choice((" .byte 1\n", "", " lda #1\n"))
    return "ended", " .var v = 0\n .macro em\n nop\n .endm\n" + t + tail, img, ("ended", r, a.strip() if r == 0 else "", n, lead), True, False


def quiet(rng):
    """loops with many rounds that put nothing out, and their result"""
    i = rng.randrange(6)
    n = rng.choice((1, 10, 255, 256, 1000, 4000, 30000, 65535, 65536, 100000))
    if i == 0:
        t, v = " .for v = 1 .to %d\nu = u + v & $ff\n .next v\n" % n, None
        u = 0
        for x in range(1, n + 1):
            u = (u + x) & 0xFF       # & binds weaker than +
        v = u
    elif i == 1:
        t, v = " .while v < %d\nv = v + 1\nu = u ^ v\n .wend\n" % n, 0
        for x in range(1, n + 1):
            v ^= x
    elif i == 2:
        t, v = " .repeat\nv = v + 1\nu = v * 3\n .until v == %d\n" % n, n * 3
    elif i == 3:
        k = rng.randrange(1, 200)
        m = min(n, 1000) // k + 1
        t, v = " .for v = 1 .to %d\n .for w = 1 .to %d\nu = u + 1\n .next w\n .next v\n" % (k, m), k * m
    elif i == 4:
        st = rng.choice((1, 2, 3, 7, 100))
        t, v = " .for v = 0 .to %d .step %d\nu = u + 1\n .next v\n" % (n, st), n // st + 1
    else:
        m = min(n, 4000)
        t, v = " .macro inc1\nu = u + \\1\n .endm\n .for v = 1 .to %d\n inc1 2\n .next v\n" % m, m * 2
    return "many rounds", " .var v = 0, w = 0, u = 0\n" + t + " .word u & $ffff\n", w(v), ("many rounds", i, n), True, False


def cascade(rng):
    """branches that just reach, so that one that has to be long moves the others"""
    n = rng.randrange(2, 14)
    stmts = []
    gap = rng.choice((1, 2, 5))
    kind = rng.randrange(3)
    mns = ("bne", "beq", "bcc", "bcs", "bpl", "bmi", "bvc", "bvs")
    if kind == 0:
        # all start together, targets follow each other closely, distances near the limit
        for j in range(n):
            stmts.append(("op", rng.choice(mns), "e", ("s", "t%d" % j)))
        stmts.append(("fill", ("n", 1), ("n", rng.randrange(120 - 2 * n, 132))))
        for j in rng.sample(range(n), n):
            stmts.append(("l", "t%d" % j, ("op", "nop", "none", None)))
            if rng.random() < .5:
                stmts.append(("fill", ("n", 1), ("n", rng.randrange(0, 4))))
    elif kind == 1:
        # interleaved: branch j jumps over branches j+1.. and just reaches
        for j in range(n):
            stmts.append(("l", "t%d" % j, ("op", "nop", "none", None)))
            stmts.append(("op", rng.choice(mns), "e", ("s", "t%d" % min(n, j + rng.choice((1, 2, 3))))))
            stmts.append(("fill", ("n", 1), ("n", rng.choice((30, 38, 39, 40, 41, 60, 61, 62, 120, 121, 122, 123, 124)))))
        stmts.append(("lab", "t%d" % n))
    else:
        # backwards and forwards mixed
        for j in range(n):
            stmts.append(("l", "t%d" % j, ("op", "nop", "none", None)))
            stmts.append(("op", rng.choice(mns), "e", ("s", "t%d" % rng.randrange(n))))
            stmts.append(("fill", ("n", 1), ("n", rng.choice((gap, 20, 40, 60, 117)))))
    stmts.append(("word", [("s", "t%d" % rng.randrange(n))]))
    ref = A.Ref()
    ref.MAXPASS = 60
    try:
        ref.run(stmts)
    except A.AsmError:
        return None
    return "branches", stmts, ref, ("branches", kind, n, ref.passno, len(ref.image)), ref.passno <= 8, False


KIND = (chain, labelchain, oscillate, unsettled, endless, endless, stopped, quiet, cascade, cascade)


# ------------------------------------------------------------------ growth of the work
def grow(names):
    G = {}

    def g(f):
        G[f.__name__] = f
    names.append(G)
    return g


NAMES = []
g = grow(NAMES)
GROW = NAMES[0]


@g
def instr(n): return " lda #1\n sta $1234,x\n nop\n" * (n // 3)
@g
def labels(n): return "".join("lab%d nop\n lda lab%d\n" % (i, i) for i in range(n // 2))
@g
def fwd(n): return "".join("lab%d jmp lab%d\n" % (i, n - 1 - i) for i in range(n))
@g
def equates(n): return "".join("e%d = %d\n .word e%d\n" % (i, i & 255, i) for i in range(n // 2))
@g
def macrocalls(n): return " .macro m\n lda #\\1\n sta \\2\n .endm\n" + "".join(" m %d,$%x\n" % (i & 255, i) for i in range(n // 2))
@g
def macrodefs(n): return "".join(" .macro m%d\n lda #\\1\n .endm\n m%d 1\n" % (i, i) for i in range(n // 2))
@g
def forloop(n): return " .var i = 0\n .for i = 1 .to %d\n .byte i & 255\n .next i\n" % n
@g
def whileloop(n): return " .var i = 0\n .while i < %d\n .byte i & 255\ni = i + 1\n .wend\n" % n
@g
def repeatloop(n): return " .var i = 0\n .repeat\ni = i + 1\n .byte i & 255\n .until i == %d\n" % n
@g
def noemit(n): return " .var i = 0, s = 0\n .for i = 1 .to %d\ns = s + i\n .next i\n .word s & $ffff\n" % (n * 4)
@g
def strings(n): return ' .byte "abcdefghijklmnop"\n' * (n // 2)
@g
def lists(n): return " .byte 1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16\n" * (n // 8)
@g
def oneline(n): return " .byte " + ",".join(["1"] * (n // 2)) + "\n"
@g
def onestring(n): return ' .byte "' + "s" * n + '"\n'
@g
def comments(n): return "; comment line\n /* x */ nop ; more\n" * (n // 2)
@g
def blanks(n): return "\n" * (n * 2) + " nop\n"
@g
def exprs(n): return " .word (1+2*3)<<2 | $100 & ~5\n" * (n // 2)
@g
def longexpr(n): return " .word " + "+".join(["1"] * (n // 2)) + "\n"
@g
def nestexpr(n): return " .word " + "(" * (n // 4) + "1" + ")" * (n // 4) + "\n"
@g
def sections(n): return "".join(" .section s%d\nlab nop\n lda lab\n .ends\n" % i for i in range(n // 4))
@g
def deepsections(n): return "".join(" .section s%d\nl nop\n" % i for i in range(20)) + " lda l\n" * n + " .ends\n" * 20
@g
def local(n): return "".join("l%d nop\n@a bne @a\n beq @b\n@b nop\n" % i for i in range(n // 4))
@g
def manylocal(n): return "l nop\n" + "".join("@a%d bne @a%d\n" % (i, i) for i in range(n // 2))
@g
def ifs(n): return " .if 1\n nop\n .else\n .byte 1\n .endif\n" * (n // 5)
@g
def ifdefs(n): return "d = 1\n" + ".ifdef d\n nop\n.else\n .byte 1\n.endif\n" * (n // 5)
@g
def skipped(n): return ".ifdef nosuch\n" + " nop\n" * (4 * n) + ".endif\n nop\n"
@g
def maclocal(n): return " .macro m\n nop\n@a\n bne @a\n .endm\n" + " m\n" * (n // 2)
@g
def fills(n): return " .fill 1,%d\n" % (n * 8)
@g
def farback(n): return "start nop\n" + " .fill 1,60\n bne start\n" * (n // 16)
@g
def forward(n): return "".join(" bne f%d\n .fill 1,60\nf%d nop\n" % (i, i) for i in range(n // 16))
@g
def nestif(n): return " .if 1\n" * (n // 4) + " nop\n" + " .endif\n" * (n // 4)
@g
def assign(n): return " .var v = 0\n" + "v = v + 1\n .byte v & 255\n" * (n // 2)
@g
def prints(n): return ' .print "x",5\n' * n + " nop\n"
@g
def variables(n): return "".join(" .var v%d = %d\n" % (i, i) for i in range(n)) + " nop\n"
@g
def undefined(n): return "".join(" .word u%d\n" % i for i in range(n // 4))
@g
def setpc(n): return "".join("* = $%x\n nop\n" % (0x1000 + 2 * i) for i in range(n))
@g
def manyerrors(n): return " lda #1\n" * n + " sta #1\n"
@g
def dotted(n): return " .section s1\n .section s2\nl nop\n .ends\n .ends\n" + " lda s1.s2.l\n" * n
@g
def regloops(n): return " .for .regx = 0 .to 5\n nop\n .next x\n" * (n // 8)


SMALL, BIG, FACTOR = 500, 4000, 1.35
REFS = re.compile(rb"I +refs: +([\d,]+)")


def measure(env, t, opts):
    env.clean()
    env.write("a.asm", t)
    p = subprocess.run(["valgrind", "--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null", env.exe()] + opts + ["a.asm"], cwd=env.scratch(),
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(PATH="/usr/bin:/bin", LC_ALL="C"), timeout=300)
    m = REFS.search(p.stderr)
    return int(m.group(1).replace(b",", b"")) if m else None, p.returncode


def growth(env, o, i, rng):
    n = sorted(GROW)
    nm = n[i % len(n)]
    small = SMALL
    if i >= len(n):
        other = rng.choice(n)
        a, b = GROW[nm], GROW[other]
        nm += "+" + other
        skip = {"labels", "fwd", "local", "manylocal", "equates", "sections", "macrodefs", "undefined", "farback", "forward", "variables", "assign", "setpc"}
        if other in skip and GROW[nm.split("+")[0]] is b or "+undefined" in nm or nm.startswith("undefined"):
            f = a
        else:
            f = lambda k: a(k) + re.sub(r"(?m)^(?=\S)", "", b(k)) if not clash(a(40), b(40)) else a(k)
    else:
        f = GROW[nm]
    opts = ["-o", "o.bin"] + (["-l", "l.lst"] if i < len(n) or rng.random() < .5 else []) + (["-s", "s.sym"] if i < len(n) or rng.random() < .5 else []) + (["-v"] if i >= len(n) and rng.random() < .3 else [])
    try:
        z, _ = measure(env, " nop\n", opts)
        x, r1 = measure(env, f(small), opts)
        y, r2 = measure(env, f(BIG), opts)
    except subprocess.TimeoutExpired:
        o.inconclusive += 1
        return o
    o.ev(2)
    if None in (x, y, z) or r1 < 0 or r2 < 0:
        o.inconclusive += 1
        return o
    ratio = (y - z) / max(x - z, 100000)
    o.stats["instruction counts measured"] += 3
    if ratio > BIG / small * FACTOR:
        o.violation("%s, options %s: %d lines take %d instructions, %d lines %d: %.1f times the work for %d times the size" % (nm, " ".join(opts), small, x - z, BIG, y - z, ratio, BIG // small),
                    **{"small.asm": f(small), "big.asm": f(BIG), "cmd.txt": "pasm " + " ".join(opts) + " big.asm\n"})
    else:
        o.key(("growth", nm, tuple(opts)))
        if len(o.samples) < 4 and i < 8:
            o.samples.append("%s: %d -> %d instructions, %.2f times for %d times the size" % (nm, x - z, y - z, ratio, BIG // small))
    return o


WORDS = re.compile(r"(?m)^(\w+)")


def clash(a, b):
    """would the two texts define the same names?"""
    d = lambda t: {x.lower() for x in WORDS.findall(t)} | {x.lower() for x in re.findall(r"\.(?:macro|var|section) (\w+)", t)}
    return bool(d(a) & d(b))


def case(env, i, rng):
    o = Out()
    n = len(GROW)
    if i < n:
        return growth(env, o, i, rng)
    if env.thorough and i % 20 == 0:
        return growth(env, o, i, rng)
    r = None
    while r is None:
        r = rng.choice(KIND)(rng)
    kind, text, exp, key, must, mustnot = r
    ref = None
    if kind == "branches":
        ref, exp = exp, exp.image
        files = A.render(text)
    else:
        files = {"a.asm": text}
    files["d.bin"] = b"data"
    res = D.asm(env, files, ["-v"], timeout=20)
    o.ev()
    sv = D.saved(res)
    if res.status == "hang":
        o.violation("%s: did not end" % kind, **sv)
        return o
    if res.status == "crash":
        o.violation("%s: crashed (exit %s)" % (kind, res.run.rc), **sv)
        return o
    passes = len(PASS.findall(res.run.out))
    o.stats["%s: %s" % (kind, res.status)] += 1
    o.stats["passes seen"] += passes
    if passes > LIMIT:
        o.violation("%s: %d passes" % (kind, passes), **sv)
        return o
    if res.status == "ok":
        if mustnot:
            o.violation("%s: has no result but was accepted" % kind, **sv)
            return o
        if ref is not None:
            if not D.compare(o, res, ref, kind):
                return o
        elif isinstance(exp, list):
            if res.image not in exp:
                o.violation("%s: the image fits no consistent layout (%d exist): %s" % (kind, len(exp), D.hx(res.image)), **sv)
                return o
        elif res.image != exp:
            o.violation("%s: %s" % (kind, D.diff(exp, res.image)), **sv)
            return o
    else:
        if must:
            o.violation("%s: settles in a few passes but was not assembled" % kind, **sv)
            return o
        if not res.run.err.strip():
            o.violation("%s: ended with status %s and no message" % (kind, res.run.rc), **sv)
            return o
        if env.read("o.bin") not in (None, b"") and kind in ("never settles", "oscillating", "chain"):
            o.violation("%s: ended with an error and left an output file" % kind, **sv)
            return o
    o.key(key + (passes, res.status, res.image))
    if len(o.samples) < 3 and rng.random() < .05:
        o.samples.append("%s: %s after %d passes" % (kind, res.status, passes))
    return o
