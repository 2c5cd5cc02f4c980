"""C20: random histories of stack operations in process (harness/stack.cc) against a list model, and programs whose blocks, files and
macro calls are nested past the growth steps of the assembler's own stacks against their flat form."""
import re
import drive as D
from common import classify, Out

PROP = "C20"
KINDS = ("plain", "asan")
HARNESS = {"h_stack": "harness/stack.cc"}
MIN_KEYS = 60
RULE = ("distinct (growth steps, deepest stack, counts of operations) of whole histories of several stacks in which every returned item agreed with the model, no sanitizer report came and "
        "every block was freed; and distinct (kinds of block by depth) of nested programs whose image was that of their flat form")
ASSUME = ["popping an empty stack is exercised with assertions off (NDEBUG, as released): it must give nothing"]
DEPTHS = (1, 2, 3, 10, 23, 24, 25, 26, 27, 37, 49, 50, 51, 52, 74, 75, 76, 99, 100, 101, 150, 230)


def plan(tier):
    return 4000 if tier == "quick" else 40000


def history(env, i, rng, o):
    kind = "plain" if i % 4 == 0 else "asan"
    args = [str(rng.randrange(1 << 40)), str(rng.choice((100, 1000, 10000, 40000)))] + (["empty"] if kind == "plain" else [])
    r = env.run(args, kind=kind, name="h_stack")
    st = classify(r)
    text = (r.out + r.err).decode("latin-1")
    if st == "hang":
        o.inconclusive += 1
        return
    if st == "ok" and r.out.startswith(b"ok "):
        c = {k: int(v) for k, v in re.findall(r"(\w+)=(-?\d+)", text)}
        for k, v in c.items():
            if k != "deepest":
                o.stats[k] += v
        o.stats["deepest stack"] = max(o.stats["deepest stack"], c["deepest"])
        o.ev(c["pushes"] + c["pops"] + c["tops"] + c["items"])
        o.stats["histories"] += 1
        o.key((kind, c["growths"], c["deepest"], c["pushes"]))
        if len(o.samples) < 3 and i < 9:
            o.samples.append("h_stack %s (%s): %s" % (" ".join(args), kind, text.strip()))
        return
    o.ev()
    o.violation("stack history %s (%s): %s" % (" ".join(args), kind, text.strip()[:600]), **{"cmd.txt": "h_stack " + " ".join(args) + "\n", "out.txt": text[:20000]})


class Nest:
    """a program nested deep, and the bytes it stands for"""

    def __init__(self, rng, depth, forms):
        self.rng, self.files, self.depth = rng, {}, depth
        self.forms = forms
        self.n = 0
        self.exp = []

    def mark(self):
        b = self.rng.randrange(256)
        return b

    def _level(self, d):
        r = self.rng
        a, b = self.mark(), self.mark()
        if d == self.depth:
            self.exp.append(a)
            return [" .byte $%02X" % a]
        form = r.choice(self.forms)
        self.exp.append(a)
        pre = [" .byte $%02X" % a]
        if form == "inc":
            body = self._level(d + 1)
            n = "f%d.inc" % d
            self.files[n] = "\n".join(body) + "\n"
            mid = [' .inc "%s"' % n]
        elif form == "if":
            c = r.randrange(3)
            other = [" .byte $EE"]
            if c == 0:
                mid = [" .ifdef def%d" % (d % 3)] + self._level(d + 1) + ([" .else"] + other if r.random() < .5 else []) + [" .endif"]
            elif c == 1:
                mid = [" .ifndef undef%d" % d] + self._level(d + 1) + ([" .else"] + other if r.random() < .5 else []) + [" .endif"]
            else:
                mid = [" .ifdef undef%d" % d] + other + [" .else"] + self._level(d + 1) + [" .endif"]
        elif form == "skip":
            # false parts nested to the same depth: nothing of them may come out
            k = r.randrange(1, 40)
            mid = [" .ifdef undef%d" % d] + [r.choice((" .ifdef def0", " .ifndef undef0", " .ifdef undef1", " .if 1")) for _ in range(k)] + [" .byte $EE"] + [" .endif"] * k + [" .endif"] + self._level(d + 1)
        elif form == "cond":
            mid = [r.choice((" .if 1", " .if 1 + %d" % d))] + self._level(d + 1) + [" .endif"]
        elif form == "rep":
            mid = [" .repeat"] + self._level(d + 1) + [" .until 1"]
        elif form == "sect":
            mid = [" .section s%d" % d] + self._level(d + 1) + [" .ends"]
        else:
            mid = self._level(d + 1)
        post = [" .byte $%02X" % b]
        self.exp.append(b)
        return pre + mid + post


def macros(rng, depth):
    """a chain of macros that call each other, each with its parameter in use after the call"""
    lines, exp = [], []
    k = rng.randrange(1, 4)
    for d in range(depth, 0, -1):
        lines.append(" .macro m%d" % d)
        lines.append(" .byte %s" % ", ".join("\\%d & 255" % (j + 1) for j in range(k)))
        if d < depth:
            lines.append(" m%d %s" % (d + 1, ", ".join("\\%d + %d" % (j + 1, j + 1) for j in range(k))))
        lines.append(" .byte %s" % ", ".join("(\\%d) & 127" % (j + 1) for j in range(k)))
        lines.append(" .endm")
    a = [rng.randrange(200) for _ in range(k)]
    lines.append(" m1 %s" % ", ".join(map(str, a)))
    tails = []
    for d in range(depth):
        v = [a[j] + d * (j + 1) for j in range(k)]
        exp += [x & 255 for x in v]
        tails.append([x & 127 for x in v])
    for t in reversed(tails):
        exp += t
    return lines, exp


def nested(env, i, rng, o):
    depth = rng.choice(DEPTHS)
    if rng.random() < .25:
        depth = min(depth, 100)
        lines, exp = macros(rng, depth)
        files = {"a.asm": "\n".join([" * = $1000"] + lines) + "\n"}
        forms = ("macro",)
    else:
        forms = rng.choice((("inc",), ("if",), ("if",), ("cond",), ("rep",), ("sect",), ("if", "skip"), ("inc", "if"), ("inc", "if", "plain"), ("if", "sect"), ("cond", "rep")))
        n = Nest(rng, depth, forms)
        if "sect" in forms:
            n.depth = depth = min(depth, 52)
        body = n._level(0)
        exp = n.exp
        # bytes in order of emission: _level appends the closing mark after the inner ones
        files = dict(n.files, **{"a.asm": "\n".join([" * = $1000", "def0 = 1", "def1 = 1", "def2 = 1"] + body) + "\n"})
    kind = "asan" if rng.random() < .3 else "plain"
    res = D.asm(env, files, kind=kind)
    if res.status == "hang":
        o.inconclusive += 1
        return
    o.ev()
    what = "%s nested %d deep (%s)" % ("/".join(forms), depth, kind)
    if res.status != "ok":
        o.violation("%s: not assembled (%s, exit %s)" % (what, res.status, res.run.rc), **D.saved(res))
        return
    if res.image != bytes(exp):
        o.violation("%s: %s" % (what, D.diff(bytes(exp), res.image)), **D.saved(res, **{"expected.bin": bytes(exp)}))
        return
    o.stats["nested programs"] += 1
    o.stats["nested past a growth step"] += depth > 25
    o.key((forms, depth, len(exp)))


def case(env, i, rng):
    o = Out()
    if i % 2:
        history(env, i, rng, o)
    else:
        nested(env, i, rng, o)
    return o
