"""C24: what the print directives write is the reference's final values, once; .print off/on hides exactly the lines between from the listing."""
import re
import asmlib as A
import drive as D
import gen as G
import c15
from common import Out

PROP = "C24"
KINDS = ("plain",)
MIN_KEYS = 300
RULE = ("distinct (features of the program, kinds and number of printed items) whose whole standard output was the command line, the printed rows of the reference's final values in order and the closing message, "
        "and distinct (features, hidden lines, shown lines) whose listing held exactly the lines and the bytes outside of .print off/.print on")
ASSUME = ["a printed number is shown as the 16 bits $HH $HH, or $HH when the high byte is zero (addresses have 16 bits)"]
TAIL = re.compile(rb"\s*(\d+) bytes written to o\.bin\s*")


def plan(tier):
    return 18000 if tier == "quick" else 180000


class PGen(G.Gen):
    what = "print"
    tops = 0

    def item(self):
        r = self.rng
        if r.random() < 0.25:
            return [self.printed()]
        return super().item()

    def printed(self):
        r = self.rng
        out = []
        for _ in range(r.choice((1, 1, 2, 3, 6))):
            k = r.random()
            if k < 0.25:
                while True:
                    b = bytes(r.choice(b"abcXYZ 019:;,.()#*<>=!%") if r.random() < .9 else r.choice((0, 0, 1, 7, 9, 10, 37, 92, 34, 127, 128, 255)) for _ in range(r.randrange(2, 12)))
                    if A.str_ok(b.replace(b"\0", b"\1")):
                        break
                out.append(("str", b))
            elif k < 0.5:
                out.append(self.e_label())
            elif k < 0.65:
                out.append(self.e_abs())
            elif k < 0.8:
                out.append(self.e_byte())
            elif k < 0.9:
                out.append(self.e_any() if not self.inmacro else self.e_abs())
            else:
                out.append(("n", r.choice((0, 1, 255, 256, 257, 0x1000, 0x00FF, 0xFF00, 0xFFFF, r.randrange(65536), 0x10000, 0x12345, 0x7FFFFFFF, r.randrange(1 << 31)))))
        return (self.what, out)


class PRender(c15.Marked):
    def __init__(self, st):
        super().__init__(st)
        self.switches, self.on, self.state = [], True, {}

    def stmt(self, s, out, lab, top):
        if s[0] == "printall":
            t = []
            super().stmt(("print", s[1]), t, lab, top)
            l = t[-1]
            k = l.lower().find(".print")
            out += t[:-1] + [l[:k] + ".printall" + l[k + 6:] if k >= 0 and "?" not in l[:k] else l.replace("?", "??", 1)]
            return
        n = self.st.n if hasattr(self.st, "n") else 0
        super().stmt(s, out, lab, top)
        if s[0] == "printonoff":
            self.switches.append((n + 1, s[1]))
            self.on = s[1]
        for t in range(n + 1, self.st.n + 1):
            self.state.setdefault(t, self.on)


class PRef(c15.Traced):
    """notes at which record the listing is switched"""
    def block(self, stmts, top=False):
        if stmts is self.stmts:
            self.sw = []
        return super().block(stmts, top)

    def stmt(self, s, top=False):
        if s[0] == "printall":
            s = ("print",) + s[1:]
        if s[0] == "printonoff":
            self.sw.append((len(self.recs), s[1]))
        return super().stmt(s, top)


def make(rng, size, feats, what):
    why = None
    for _ in range(60):
        g = PGen(rng, size, feats)
        g.what = what
        p = g.make()
        try:
            ref = PRef(p.cpu, p.illegal, p.defines).run(p.stmts)
        except A.AsmError as e:
            why = e
            continue
        if ref.image and ref.pc <= 0xFF00:
            return p, ref
    raise RuntimeError("no program: %s" % why)


def shown(row):
    out = b""
    for it in row:
        if isinstance(it, (bytes, str)):
            out += b" " + (it if isinstance(it, bytes) else it.encode("latin-1"))
        else:
            hi, lo = it >> 8 & 255, it & 255
            out += (b" $%02X" % hi if hi else b"") + b" $%02X" % lo
    return out + b"\n"


def final(p, ref, res):
    if ref.image == res.image:
        return ref
    f = ref.relaxed(res.image).forced
    r = PRef(p.cpu, p.illegal, p.defines)
    r.forced = f
    r.run(p.stmts)
    return r


def printing(env, i, rng, o):
    what = "printall" if i % 6 == 1 else "print"
    feats = {f for f in G.FEATS if rng.random() < 0.5}
    p, ref = make(rng, rng.choice((5, 20, 60)), feats, what)
    st = A.Style.wild(rng) if rng.random() < .3 else A.Style()
    st.n = 0
    rd = PRender(st)
    rd.text(p.stmts)
    opts = D.copts(p.cpu, p.illegal, p.defines) + rng.choice(([], [], ["-l", "l.lst"], ["-s", "s.sym"], ["-nowarn"]))
    res = D.asm(env, rd.files, opts)
    o.ev()
    if not D.compare(o, res, ref, "case %d" % i):
        return
    ref = final(p, ref, res)
    exp = b"".join(map(shown, ref.printed))
    out = res.run.out.partition(b"\n")[2]
    if what == "print":
        ok = out.startswith(exp) and TAIL.fullmatch(out[len(exp):])
    else:                              # printed in every pass, the values of the last one are final
        k = out.rfind(b"\n", 0, len(out) - len(re.search(rb"\d+ bytes written to o\.bin\s*$", out).group(0)))
        ok = out[:k].endswith(exp)
    if not ok:
        k = 0
        while k < min(len(exp), len(out)) and exp[k] == out[k]:
            k += 1
        o.violation("case %d: standard output differs from the final values of the .%s lines at byte %d: expected %r, got %r" % (i, what, k, exp[max(0, k - 12):k + 24], out[max(0, k - 12):k + 24]),
                    **D.saved(res, **{"expected.txt": exp}))
        return
    o.ev(len(ref.printed))
    o.stats[".%s rows" % what] += len(ref.printed)
    o.stats["printed values"] += sum(isinstance(x, int) for r in ref.printed for x in r)
    o.key(("print", tuple(sorted(p.feats)), len(ref.printed), sum(len(r) for r in ref.printed)))
    if len(o.samples) < 2 and i < 12 and exp:
        o.samples.append("%d rows as expected, e.g. %r" % (len(ref.printed), exp[:60]))


def hiding(env, i, rng, o):
    feats = {f for f in G.FEATS if rng.random() < 0.5} - {"end", "inc"}
    p, ref = G.program(rng, rng.choice((5, 20, 60)), feats)
    n = rng.randrange(1, 6)
    state = rng.random() < .2
    for pos in sorted(rng.sample(range(len(p.stmts) + 1), min(n, len(p.stmts))), reverse=True):
        p.stmts.insert(pos, ("printonoff", None))
    # the switches alternate, sometimes one is repeated
    cur, stm = False, []
    for s in p.stmts:
        if s == ("printonoff", None):
            s = ("printonoff", cur)
            if rng.random() < .85:
                cur = not cur
        stm.append(s)
    p.stmts = stm
    rd = PRender(c15.Tagged(rng if i % 3 == 0 else None))
    inputs = ["a.asm"]
    if rng.random() < .3 and "pm" not in p.feats and len(p.stmts) > 3:
        # in several files, lines are hidden across their ends
        inputs = ["in1.asm", "in2.asm", "a.asm"][rng.randrange(2):]
        cut = sorted(rng.sample(range(1, len(p.stmts)), len(inputs) - 1))
        for f, a, b in zip(inputs, [0] + cut, cut + [None]):
            rd.text(p.stmts[a:b], f)
        o.stats["hidden lines in several files"] += 1
    else:
        rd.text(p.stmts)
    opts = D.copts(p.cpu, p.illegal, p.defines)
    r0 = D.asm(env, rd.files, opts, inputs=inputs)
    r = D.asm(env, rd.files, opts, lst="l.lst", inputs=inputs)
    o.ev(2)
    if not D.compare(o, r, ref, "case %d" % i):
        return
    if r0.image != r.image or r0.run.rc != r.run.rc or r.lst is None:
        o.violation("case %d: asking for a listing changed the image or the exit status" % i, **D.saved(r))
        return
    tr = PRef(p.cpu, p.illegal, p.defines).run(p.stmts)
    tr = final(p, tr, r)
    more = {"list.lst": r.lst}
    rows, other = c15.parse(r.lst)
    # bytes
    on, k, want, hidden = True, 0, [], 0
    for at, v in tr.sw + [(len(tr.recs), True)]:
        part = [(pc + j, b) for pc, bs, _ in tr.recs[k:at] for j, b in enumerate(bs)]
        if on:
            want += part
        else:
            hidden += len(part)
        k, on = at, v
    got = [(a + j, b) for a, bs, _, _, _ in rows for j, b in enumerate(bs)]
    if want != got:
        j = 0
        while j < min(len(want), len(got)) and want[j] == got[j]:
            j += 1
        o.violation("case %d: byte %d of those to be listed is %s, the listing has %s" % (
            i, j, "$%04X: $%02X" % want[j] if j < len(want) else None, "$%04X: $%02X" % got[j] if j < len(got) else None), **D.saved(r, **more))
        return
    # source lines, in order; the switches' own lines are not judged
    sw = dict(rd.switches)
    lines = [t for t, on in sorted(rd.state.items()) if on and t not in sw]
    nh = len(rd.state) - len(lines)
    seen = [int(x) for x in re.findall(r";#(\d+)#", r.lst.decode("latin-1"))]
    seen = [t for t in seen if t not in sw]
    if sorted(seen) != lines:
        o.violation("case %d: of the lines outside of .print off these are missing in the listing: %s; these are there that should not, or twice: %s" % (
            i, sorted(set(lines) - set(seen))[:8], sorted(t for t in set(seen) if t not in lines or seen.count(t) > 1)[:8]), **D.saved(r, **more))
        return
    o.stats["bytes hidden from the listing"] += hidden
    o.stats["lines hidden from the listing"] += nh
    o.stats["lines shown"] += len(lines)
    o.key(("list", tuple(sorted(p.feats)), nh, len(lines)))
    if len(o.samples) < 4 and i < 12:
        o.samples.append("%d switches: %d lines hidden, %d shown" % (len(sw), nh, len(lines)))


def case(env, i, rng):
    o = Out()
    (hiding if i % 3 == 2 else printing)(env, i, rng, o)
    return o
