"""C16: the symbol file holds the used symbols, each once, with their final values, in order of value, and nothing else."""
import re
import asmlib as A
import drive as D
import gen as G
from common import Out

PROP = "C16"
KINDS = ("plain",)
MIN_KEYS = 300
RULE = ("distinct (features of the program, number of symbols) whose symbol file was parsed back: every symbol the program uses is there once with the value it has "
        "in the image, in order of value, symbols that are mentioned nowhere and names that are no symbols are not")
ENTRY = re.compile(r"(\S+) \$([0-9A-F]+)")


def plan(tier):
    return 16000 if tier == "quick" else 160000


class Uses(A.Ref):
    """remembers which symbols are evaluated in the last pass"""
    skip = 0

    def block(self, stmts, top=False):
        if stmts is self.stmts:
            self.used = set()
        return super().block(stmts, top)

    def ev(self, e):
        if e[0] == "s" and not self.skip:
            f = self.find(e[1])
            if f:
                self.used.add(f)
        if e[0] == "b" and e[1] in ("||", "&&"):
            # the right one may be skipped
            self.skip += 1
            try:
                return super().ev(e)
            finally:
                self.skip -= 1
        return super().ev(e)


def mentions(x, n):
    """how often each name occurs other than where it is defined"""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "s":
            n[x[1].lower().split(".")[-1]] = 1
        elif x and x[0] in ("ifdef", "call", "for", "macro") and isinstance(x[1], str):
            n[x[1].lower()] = 1
        for y in x:
            mentions(y, n)
    elif isinstance(x, list):
        for y in x:
            mentions(y, n)


def extra(rng):
    """symbols over the whole range of values, used in several ways and not at all"""
    r, defs, uses = rng, [], []
    for k in range(r.randrange(1, 60)):
        v = r.choice((0, 1, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, r.randrange(65536), r.randrange(256)))
        n = r.choice(("zz%d", "Zy%d", "s%d_" + "long" * r.randrange(1, 12), "Q%dq")) % (900 + k)
        defs.append(("equ", n, ("n", v)))
        w = r.randrange(6)
        if w == 0:
            continue
        e = ("s", r.choice((n, n.upper(), n.lower())))
        if w == 1:
            defs.append(("equ", "e%d" % k, e))
            continue
        uses.append(("word", [e]) if w == 2 else ("op", "lda", "e", e) if w == 3 else ("byte", [("lo", e)]) if w == 4 else ("if", e, [("op", "nop", "none", None)], None))
    r.shuffle(uses)
    k = r.randrange(len(defs) + 1)
    return defs[:k], uses, defs[k:]


def case(env, i, rng):
    o = Out()
    feats = {f for f in G.FEATS if rng.random() < 0.5} - {"end"}
    many = i % 50 == 24
    p, ref = G.volume_program(rng) if many else G.program(rng, rng.choice((3, 20, 60)), feats)
    if i % 2:
        a, b, c = extra(rng)
        # conditionals on symbols must not be forward ones
        early = [s for s in b if s[0] != "if"]
        late = [s for s in b if s[0] == "if"]
        kk = len(p.stmts)
        p.stmts = p.stmts + a + early + c + late
        try:
            ref = p.ref()
        except A.AsmError:
            return o
    u = Uses(p.cpu, p.illegal, p.defines)
    u.run(p.stmts)
    opts = D.copts(p.cpu, p.illegal, p.defines)
    st = A.Style.wild(rng) if rng.random() < 0.5 else A.PLAIN
    r = D.asm(env, A.render(p.stmts, st), opts, sym="s.sym")
    o.ev()
    if not D.compare(o, r, ref, "case %d" % i):
        return o
    if ref.image != r.image:
        rel = ref.relaxed(r.image)
        u = Uses(p.cpu, p.illegal, p.defines)
        u.forced = rel.forced
        u.run(p.stmts)
    if r.sym is None:
        o.violation("case %d: no symbol file" % i, **D.saved(r))
        return o
    more = {"symbols.txt": r.sym}
    if i % 5 == 0:
        rv = D.asm(env, r.files, opts + ["-v"], sym=rng.choice((None, "s.sym")))
        o.ev()
        # what is printed before the listing
        con = ENTRY.findall(rv.run.out.decode("latin-1").split(" bytes written to ")[-1].split("\n; Processing ")[0])
        if rv.status != "ok" or rv.image != r.image or con != ENTRY.findall(r.sym.decode("latin-1")):
            o.violation("case %d: with -v the symbols on the console are not those of the symbol file" % i, **D.saved(rv, **more))
            return o
        o.stats["symbols on the console"] += 1
    t = r.sym.decode("latin-1")
    got = [(n.lower(), int(v, 16)) for n, v in ENTRY.findall(t)]
    if ENTRY.sub("", t).strip():
        o.violation("case %d: the symbol file has something else in it: %r" % (i, ENTRY.sub("", t).strip()[:60]), **D.saved(r, **more))
        return o
    names = [n for n, _ in got]
    dup = sorted({n for n in names if names.count(n) > 1})
    if dup:
        o.violation("case %d: more than once in the symbol file: %s" % (i, " ".join(dup[:5])), **D.saved(r, **more))
        return o
    final = {n: v for n, v in u.syms.items() if n not in u.vars}
    may = {}
    mentions(p.stmts, may)
    for n, v in got:
        if n not in final:
            o.violation("case %d: %s is in the symbol file and is no symbol of the program" % (i, n), **D.saved(r, **more))
            return o
        if v != final[n] & 0xFFFFFFFF:
            o.violation("case %d: %s is $%04X, in the symbol file it is $%04X" % (i, n, final[n], v), **D.saved(r, **more))
            return o
        if n.split(".")[-1] not in may and n not in u.predefined:
            o.violation("case %d: %s is in the symbol file and is used nowhere" % (i, n), **D.saved(r, **more))
            return o
    need = (u.used | u.predefined) - u.vars
    miss = sorted(need - set(names))
    if miss:
        o.violation("case %d: used and not in the symbol file: %s" % (i, " ".join(miss[:6])), **D.saved(r, **more))
        return o
    if [v for _, v in got] != sorted(v for _, v in got):
        o.violation("case %d: the symbol file is not in order of value" % i, **D.saved(r, **more))
        return o
    o.stats["symbols found with their value"] += len(need)
    o.stats["symbols used nowhere and not in the file"] += sum(n.split(".")[-1] not in may for n in final)
    o.key((tuple(sorted(p.feats)), len(got)))
    o.samples.append("%d symbols, %d of them used" % (len(final), len(need)))
    return o
