"""C10: source in several files assembles to what the same lines in one file do."""
import asmlib as A
import drive as D
import gen as G
from common import Out

PROP = "C10"
KINDS = ("plain",)
MIN_KEYS = 500
RULE = ("distinct (image, split) of programs assembled from include files, several inputs and loaded files in search directories that equal "
        "the image of the same lines in one file; plus distinct missing files that were refused by name")

FE = ("macro", "for", "while", "repeat", "if", "ifdef", "section", "local", "load", "reg", "str", "expr", "branch", "equ", "var", "setpc0",
      "fwdconst", "defines", "cpu", "illegal", "nestmacro")
PLAINOPS = ("op", "byte", "word", "str", "fill", "for", "if", "call", "load")


def plan(tier):
    return 15000 if tier == "quick" else 150000


class Split:
    """moves runs of top level statements into files"""

    def __init__(self, rng, dirs):
        self.rng, self.n, self.depth, self.dirs = rng, 0, 0, dirs
        self.placed = {}

    def name(self, base, ext):
        r = self.rng
        self.n += 1
        return r.choice(("%s%d.%s", "%s_%d.%s", "sub/%s%d.%s", "%s-%d.x.%s", "UP%s%d.%s")) % (base, self.n, ext)

    def run(self, stmts, depth=0):
        r = self.rng
        out, k = [], 0
        while k < len(stmts):
            s = stmts[k]
            if depth < 6 and r.random() < (0.25 if depth < 2 else 0.12):
                j = min(len(stmts), k + r.choice((1, 1, 2, 3, 5, 8, 20)))
                sub = self.run(stmts[k:j], depth + 1)
                self.depth = max(self.depth, depth + 1)
                out.append(("inc", self.name("f", r.choice(("asm", "inc", "s"))), sub))
                k = j
                continue
            if s[0] == "ifdef":
                s = s[:3] + (self.run(s[3], depth), None if s[4] is None else self.run(s[4], depth))
            out.append(s)
            k += 1
        return out


def rename_loads(stmts, sp):
    out = []
    for s in stmts:
        if s[0] == "load":
            s = ("load", sp.name("d", "bin"), s[2])
        elif s[0] == "l" and s[2][0] == "load":
            s = ("l", s[1], ("load", sp.name("d", "bin"), s[2][2]))
        out.append(s)
    return out


def norefs(s):
    return s[0] in ("op", "byte", "word", "fill", "str") and "'loc'" not in repr(s) and "'pc'" not in repr(s)


def spread(env, files, rng, tops):
    """puts the files that are not given on the command line into search directories; copies that must not be found further down"""
    k = rng.choice((1, 1, 2, 3, 4, 7))
    dirs = ["lib%d/" % j for j in range(k)]
    if rng.random() < 0.2:
        dirs[rng.randrange(k)] = "a_directory_with_quite_a_long_name/" * rng.randrange(2, 12)
    if rng.random() < 0.3:
        dirs[rng.randrange(k)] = "deep/er/"
    res = {}
    for n, t in files.items():
        if n in tops and rng.random() < 0.7:
            res[n] = t
            continue
        at = rng.randrange(-1, k)
        res[n if at < 0 else dirs[at] + n] = t
        for j in range(at + 1, k):
            if rng.random() < 0.3:
                res[dirs[j] + n] = b" .byte 1,2,3\n nonsense in the wrong copy\n"
    text = ""
    for j, d in enumerate(dirs):
        if rng.random() < 0.2:
            text += rng.choice(("nosuchdir", "nosuch/dir/", "lib0x/", "x.asm")) + ";"
        text += d if rng.random() < 0.7 else d[:-1]
        if j < k - 1 or rng.random() < 0.2:
            text += ";" + rng.choice(("", "", " ", "  ", "\t", " \t  "))
    return res, ["-dir", text]


BIN = (b"", b"\n", b"\r\n", b"\x1a", b"\x00", b"\xff", b"\x00\xff", b"\xff\xff\xff", b"\x1a\x1a\x00", b"abc\x1adef", b"\r\n\r\n\r", bytes(range(256)), bytes(range(255)), bytes(255 - k for k in range(256)))


def loaded(rng):
    k = rng.random()
    if k < 0.4:
        return rng.choice(BIN)
    n = rng.choice((1, 2, 3, 4, 5, 127, 128, 129, 255, 256, 257, 999, 1000, 2047, 2048, 3001))
    return bytes(rng.choice((0, 255, 26, 10, 13, rng.randrange(256))) if rng.random() < 0.3 else rng.randrange(256) for _ in range(n))


def loads(env, o, rng, i):
    if rng.random() < 0.03:        # a file of about the size of the memory, and more
        d = rng.randbytes(rng.choice((32767, 32768, 40001, 65535, 65536, 65537, 70000, 131073)))
        res = D.asm(env, {"a.asm": b" .byte 1\n .load \"big.bin\"\n .byte 2\n", "big.bin": d})
        o.ev()
        if res.status == "hang":
            o.inconclusive += 1
        elif res.status != "ok" or res.image != b"\1" + d + b"\2":
            o.violation("a loaded file of %d bytes: %s" % (len(d), D.diff(res.image, b"\1" + d + b"\2") if res.status == "ok" else res.status), **D.saved(res))
        else:
            o.key(("load", res.image))
            o.stats["bytes loaded"] += len(d)
        return
    stmts, total = [], 0
    for k in range(rng.randrange(1, 6)):
        d = loaded(rng)
        total += len(d)
        if total > 5000:
            break
        x = ("load", "b%d.bin" % k, d)
        if rng.random() < 0.3:
            stmts.append(("l", "at%d" % k, x))
        else:
            stmts.append(x)
            stmts.append(("lab", "at%d" % k))
        if rng.random() < 0.7:
            stmts.append(("word", [("s", "at%d" % k), ("pc",)]))
    stmts.append(("op", "jmp", "e", ("s", "at0")))
    ref = A.Ref().run(stmts)
    files = A.render(stmts)
    opts = []
    if rng.random() < 0.5:
        files, opts = spread(env, files, rng, ("a.asm",))
    res = D.asm(env, files, opts)
    o.ev()
    if D.compare(o, res, ref, "loads %d" % i):
        o.key(("load", res.image))
        o.stats["bytes loaded"] += total


def plusminus(env, o, rng, i):
    """+ and - labels belong to the file they are in, each time it is included, however the files are combined"""
    nfile = rng.randrange(2, 6)
    uid = [0]
    files, plans, again, flat = {}, {}, [0], []
    names = ["g%d.asm" % k for k in range(nfile)]
    if rng.random() < 0.3:        # names that differ only in case are different files
        names = ["G.asm", "g.asm", "G.ASM", "g.Asm", "g.aSm", "g.asM"][:nfile]

    def make(f, depth):
        """the lines of one file: (text, kind, argument)"""
        n = rng.randrange(4, 14)
        kinds = [rng.choice(("+", "-", "op", "op", "ref+", "ref-", "inc")) for _ in range(n)]
        plus = [k for k in range(n) if kinds[k] == "+"]
        minus = [k for k in range(n) if kinds[k] == "-"]
        files[f] = None
        lines = []
        br = lambda a, b: "jmp" if "inc" in kinds[min(a, b):max(a, b)] else rng.choice(("jmp", "bne", "bcc"))
        for k in range(n):
            c = kinds[k]
            own = ""
            if c in "+-":
                own = c
                c = rng.choice(("op", "op", "op", "ref+", "ref-"))
            if c == "ref+":
                nxt = [x for x in plus if x > k]
                if nxt:
                    d = rng.randrange(min(3, len(nxt)))
                    lines.append((own, br(k, nxt[d]), "+" * (d + 1), nxt[d]))
                else:
                    lines.append((own, "inx", "", None))
            elif c == "ref-":
                prv = [x for x in minus if x <= k][::-1]
                if prv:
                    d = rng.randrange(min(3, len(prv)))
                    lines.append((own, br(k, prv[d]), "-" * (d + 1), prv[d]))
                else:
                    lines.append((own, "iny", "", None))
            elif c == "inc":
                done = [x for x in plans if x != f]
                if done and again[0] < 6 and rng.random() < 0.5:
                    again[0] += 1
                    lines.append((own, ".inc", rng.choice(done), None))
                elif depth < 3 and len(files) < nfile:
                    sub = names[len(files)]
                    make(sub, depth + 1)
                    lines.append((own, ".inc", sub, None))
                else:
                    lines.append((own, "clc", "", None))
            else:
                lines.append((own, "lda", "#%d" % (k & 127), None))
        plans[f] = lines
        files[f] = "".join("%s %s\n" % (l[0], '.inc "%s"' % l[2] if l[1] == ".inc" else l[1] + " " + l[2]) for l in lines)

    def flatten(f):
        uid[0] += 1
        me, fl = uid[0], []
        for k, (own, op, arg, to) in enumerate(plans[f]):
            lab = "u%d_%d" % (me, k) if own else ""
            if op == ".inc":
                fl += flatten(arg)
            else:
                fl.append("%s %s %s" % (lab, op, "u%d_%d" % (me, to) if to is not None else arg))
        return fl

    tops = []
    for t in range(rng.randrange(1, 4)):
        n = "top%d.asm" % t
        tops.append(n)
        make(n, 0)
        flat += flatten(n)
    r1 = D.asm(env, {"flat.asm": "\n".join(flat) + "\n"}, inputs=("flat.asm",))
    r2 = D.asm(env, files, inputs=tops)
    o.ev(2)
    if r1.status == "hang" or r2.status == "hang":
        o.inconclusive += 1
    elif r1.status != "ok":
        o.violation("plus and minus %d: the single file with names is refused" % i, **D.saved(r1))
    elif r2.status != "ok" or r1.image != r2.image:
        o.violation("plus and minus labels in %d files: %s" % (len(files), D.diff(r1.image, r2.image)), **D.saved(r2, **{"flat.asm": "\n".join(flat).encode()}))
    elif len(files) > 1:
        o.key(("pm", r2.image, len(files)))
        o.stats["plus/minus in several files"] += 1
        o.stats["plus/minus in a file included again"] += again[0] > 0


def chain(env, o, rng, i):
    """includes nested deep, and one file many times"""
    n = rng.choice((10, 40, 120))
    files, flat = {}, []
    for k in range(n):
        files["a.asm" if k == 0 else "c%d.asm" % k] = " .byte %d\nt%d nop\n" % (k & 255, k) + (' .inc "c%d.asm"\n' % (k + 1) if k < n - 1 else "") + " .word t%d\n" % ((k * 7) % n)
    exp, pc = [], {}
    at = 0x1000
    for k in range(n):
        pc[k] = at + 1
        at += 2
        exp += [k & 255, 0xEA]
    for k in reversed(range(n)):
        t = pc[(k * 7) % n]
        exp += [t & 255, t >> 8]
    m = rng.choice((2, 50, 300))
    files["a.asm"] += ' .inc "once.asm"\n' * m
    files["once.asm"] = " .byte $5a\n"
    exp += [0x5A] * m
    opts = []
    if rng.random() < 0.5:
        files, opts = spread(env, files, rng, ("a.asm",))
    res = D.asm(env, files, opts)
    o.ev()
    if res.status == "hang":
        o.inconclusive += 1
    elif res.status != "ok" or res.image != bytes(exp):
        o.violation("%d files nested, one %d times: %s" % (n, m, D.diff(bytes(exp), res.image)), **D.saved(res, **{"expected.bin": bytes(exp)}))
    else:
        o.key(("chain", n, m))
        o.stats["chains"] += 1


def missing(env, o, rng, i):
    name = rng.choice(("gone.asm", "no/such/dir/gone.s", "Gone_1.bin", "sub/gone.inc"))
    how = rng.choice(("inc", "load", "input", "nested", "second input", "nested load", "dir", "unterminated dir",
                      "macro load", "included macro load", "loop load", "if load", "loop inc"))
    opts, inputs = [], ["a.asm"]
    pre = "".join(" lda #%d\n" % k for k in range(rng.randrange(0, 5)))
    files = {"a.asm": pre + " nop\n"}
    if how == "inc":
        files["a.asm"] += ' .inc "%s"\n nop\n' % name
    elif how == "load":
        files["a.asm"] += ' .load "%s"\n nop\n' % name
    elif how == "input":
        files, inputs = {}, [name]
    elif how == "second input":
        inputs = ["a.asm", name]
    elif how in ("nested", "nested load"):
        files["a.asm"] += ' .inc "one.asm"\n'
        files["one.asm"] = ' nop\n .%s "%s"\n' % ("inc" if how == "nested" else "load", name)
    elif how in ("macro load", "included macro load"):
        # far from the call, so that the lines that are shown around the error do not have the name in them
        body = ' .macro m\n nop\n .load "%s"\n .endm\n' % name
        files["a.asm"] = (body if how == "macro load" else ' .inc "one.asm"\n') + pre + " nop\n" * rng.randrange(1, 30) + " m\n" + " nop\n" * 12
        if how != "macro load":
            files["one.asm"] = body
    elif how in ("loop load", "if load", "loop inc"):
        block = {"loop load": " .var v\n .for v = 1 .to 3\n%s .next v\n", "loop inc": " .var v = 0\n .do\n%sv = v + 1\n .while v < 3\n", "if load": " .if 1\n%s .endif\n"}[how]
        files["a.asm"] += block % (' .%s "%s"\n%s' % ("inc" if how == "loop inc" else "load", name, " nop\n" * rng.randrange(1, 30))) + " nop\n"
    else:
        files["a.asm"] += ' .inc "%s"\n' % name
        # the file is there, but not in a directory that is searched
        files["elsewhere/" + name] = " nop\n"
        opts = ["-dir", "lib/;other/" if how == "dir" else "lib/"]
        files["lib/x.asm"] = " nop\n"
    res = D.asm(env, files, opts, inputs=inputs)
    o.ev()
    if D.must_reject(o, res, "a file that is not there (%s)" % how):
        if name not in res.text().replace(" ".join(res.args), ""):
            o.violation("a file that is not there (%s): the message does not name %s" % (how, name), **D.saved(res))
        else:
            o.key(("missing", how, name))
            o.stats["missing refused"] += 1


BLOCKS = [("if", "    .if 1\n%s    .endif\n", 1), ("else", "    .if 0\n    nop\n    .else\n%s    .endif\n", 1), ("repeat", "    .var v = 0\n    .repeat\n%sv = v + 1\n    .until v == 2\n", 2),
          ("do", "    .var v = 0\n    .do\n%sv = v + 1\n    .while v < 2\n", 2), ("while", "    .var v = 0\n    .while v < 2\n%sv = v + 1\n    .wend\n", 2),
          ("for", "    .var v\n    .for v = 1 .to 3\n%s    .next v\n", 3), ("macro", "    .macro m\n%s    .endm\n    m\n    m\n", 2), ("regloop", "    .for .regx = 1 .to 3\n%s    .next x\n", 0)]


def known(env, o):
    """defect of the current tree, listed in known_findings.txt: an include file inside a block comes after the lines of the block"""
    for name, block, n in BLOCKS:
        inner = ("    .byte 1\n", '    .inc "in.asm"\n', "    .byte 3\n")
        one = D.asm(env, {"a.asm": "    nop\n" + block % "".join((inner[0], "    .byte 2\n", inner[2])) + "    .byte 4\n"})
        res = D.asm(env, {"a.asm": "    nop\n" + block % "".join(inner) + "    .byte 4\n", "in.asm": "    .byte 2\n"})
        o.ev(2)
        if "hang" in (res.status, one.status):
            o.inconclusive += 1
        elif one.status != "ok":
            o.violation("a block (%s) is not assembled" % name, **D.saved(one))
        elif res.status != "ok" or res.image != one.image:
            o.violation("an include file inside a block (%s): %s" % (name, D.diff(one.image, res.image) if res.status == "ok" else res.status),
                        **({"known_key": "incinblock"} if res.status == "ok" and (sorted(res.image) == sorted(one.image) or name == "regloop" and len(res.image) == len(one.image)) else {}), **D.saved(res))
        else:
            o.key(("block", name))


def case(env, i, rng):
    o = Out()
    if i == 7:
        known(env, o)
        return o
    k = i % 8
    if k == 0:
        loads(env, o, rng, i)
        return o
    if k == 1:
        plusminus(env, o, rng, i)
        return o
    if k == 2 and i % 3 == 1:
        chain(env, o, rng, i)
        return o
    if k == 2 and i % 3 == 0:
        missing(env, o, rng, i)
        return o
    p, ref = G.program(rng, rng.choice((10, 25, 40, 80)), {f for f in FE if rng.random() < 0.55})
    sp = Split(rng, None)
    st = rng.choice((A.PLAIN, A.Style.mild(rng)))
    opts = D.copts(p.cpu, p.illegal, p.defines)
    stmts = rename_loads(p.stmts, sp)
    if rng.random() < 0.4:
        # the same file several times
        at = [x for x, s in enumerate(stmts) if norefs(s)]
        if at:
            x = rng.choice(at)
            y = x + 1
            while y < len(stmts) and y < x + 5 and norefs(stmts[y]):
                y += 1
            run = stmts[x:y]
            inc = ("inc", sp.name("rep", "asm"), run)
            out, times = [], rng.randrange(1, 4)
            for q, s in enumerate(stmts):
                if times and rng.random() < 0.1 and q > x:
                    out.append(inc)
                    times -= 1
                out.append(s)
            stmts = out[:x] + [inc] + out[y:]
            try:
                ref = A.Ref(p.cpu, p.illegal, p.defines).run(stmts)
            except A.AsmError:
                stmts = rename_loads(p.stmts, sp)
    inputs = ["a.asm"]
    if rng.random() < 0.4:
        # several inputs
        n = rng.randrange(2, 5)
        cut = sorted(rng.randrange(len(stmts) + 1) for _ in range(n - 1))
        parts = [stmts[a:b] for a, b in zip([0] + cut, cut + [len(stmts)])]
        parts = [q for q in parts if q]
        again = []
        if rng.random() < 0.4:
            # the same file several times, also directly after itself
            run = [("byte", [("n", rng.randrange(256)) for _ in range(rng.randrange(1, 9))]), ("op", "nop", "none", None), ("word", [("s", "nosuch")])][:rng.randrange(1, 3)]
            inc = parts[:]
            for _ in range(rng.randrange(2, 5)):
                inc.insert(rng.choice((rng.randrange(len(inc) + 1), len(inc))), run)
            try:
                ref2 = A.Ref(p.cpu, p.illegal, p.defines).run([s for q in inc for s in q])
                parts, again, ref = inc, run, ref2
            except A.AsmError:
                pass
        files, inputs = {}, []
        for x, q in enumerate(parts):
            if q is again:
                files.update(A.render(q, A.PLAIN, top="again.asm"))
                inputs.append("again.asm")
                continue
            q = sp.run(q) if rng.random() < 0.6 else q
            f = A.render(q, st, top="in%d.asm" % x)
            files.update(f)
            inputs.append("in%d.asm" % x)
        what = "%d inputs" % len(inputs) + (", one of them several times" if again else "")
    else:
        files = A.render(sp.run(stmts), st)
        what = "include depth %d" % sp.depth
    tops = set(inputs)
    if len(files) > len(inputs) and rng.random() < 0.5:
        files, d = spread(env, files, rng, tops)
        opts += d
        what += ", search directories"
    res = D.asm(env, files, opts, inputs=inputs)
    o.ev()
    if D.compare(o, res, ref, "case %d in %d files (%s)" % (i, len(files), what)):
        o.key((res.image, sorted(files)))
        o.stats[what] += 1
        o.stats["files"] += len(files)
        o.samples.append("%d statements in %d files, %s, %d bytes" % (len(stmts), len(files), what, len(res.image)))
    return o
