"""C14: the image does not depend on how the source is written, on what else is asked for, or on the run."""
import asmlib as A
import drive as D
import gen as G
from common import Out, classify

PROP = "C14"
KINDS = ("plain", "asan")
MIN_KEYS = 400
NO_RECHECK = True      # a difference between two runs of the same thing is the violation itself
RULE = ("distinct (way of writing or of running, features of the program) for which another rendering of a program, or another run of the same text, "
        "gave the same image (and symbol values, and for the same text the same listing and symbol file byte for byte)")

DIMS = ("case", "space", "comments", "nums", "parens", "symcase", "colon", "synonyms")
HOW = list(DIMS) + ["all", "all", "crlf", "crlf all", "split labels", "noise lines", "again", "again", "outputs", "asan", "names"]


def plan(tier):
    return 6400 if tier == "quick" else 60000


def split_labels(stmts):
    """a label on the line of its statement = a label on a line of its own before it"""
    r = []
    for s in stmts:
        if s[0] == "l" and s[1][0] not in "+-":
            r.append(("lab", s[1]))
            s = s[2]
        if s[0] in ("ifdef",):
            s = s[:3] + (split_labels(s[3]), split_labels(s[4]) if s[4] is not None else None)
        r.append(s)
    return r


NOISE = ("", "   ", "\t", ";", "//", "; note", "/* a\n b\n */", "/**/", "// /*", "; */ .endif", "/* ; */", ";\t\"", "/***/", "/* // */", "; '", "    ; \xff\x80\x01")


def noise(text, rng):
    out = []
    lines = text.split("\n")
    for k, t in enumerate(lines):
        while k < len(lines) - 1 and rng.random() < 0.3:
            out.append(rng.choice(NOISE))
        out.append(t)
    return "\n".join(out)


def symvals(b):
    t = b.decode("latin-1").upper().split()
    return sorted(zip(t[::2], t[1::2]))


def rename(x, pre):
    """the same program with other names, all symbols changed alike"""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "s":
            return ("s", ".".join(pre + q for q in x[1].split(".")))
        if len(x) == 2 and x[0] == "str" and isinstance(x[1], bytes):
            return x
        if x and x[0] in ("lab", "l", "equ", "section", "macro", "call", "ifdef") and isinstance(x[1], str) and x[1][0] not in "@+-":
            return (x[0], ".".join(pre + q for q in x[1].split("."))) + tuple(rename(y, pre) for y in x[2:])
        if x and x[0] == "for" and len(x) == 6:
            return ("for", pre + x[1]) + tuple(rename(y, pre) for y in x[2:])
        if x and x[0] == "var":
            return ("var", [(pre + n, rename(e, pre) if e is not None else None) for n, e in x[1]])
        return tuple(rename(y, pre) for y in x)
    if isinstance(x, list):
        return [rename(y, pre) for y in x]
    return x


def case(env, i, rng):
    o = Out()
    feats = {f for f in G.FEATS if rng.random() < 0.5}
    p, ref = G.program(rng, rng.choice((8, 25, 60)), feats)
    opts = D.copts(p.cpu, p.illegal, p.defines)
    base = D.asm(env, A.render(p.stmts), opts, sym="s.sym", lst="l.lst")
    o.ev()
    if not D.compare(o, base, ref, "case %d" % i):
        return o
    base_stdout = base.run.out
    pf = tuple(sorted(p.feats))
    for how in rng.sample(sorted(set(HOW)), 4) + ["again", "all"]:
        stmts, st, eol, kind, kw, op = p.stmts, A.PLAIN, "\n", "plain", {}, list(opts)
        same_text = how in ("again", "asan", "outputs")
        sub = how
        if how in DIMS:
            st = A.Style(rng, **{how: True})
        elif how in ("all", "crlf all"):
            st = A.Style.wild(rng)
        elif how == "split labels":
            stmts = split_labels(p.stmts)
        elif how == "names":
            pre = rng.choice(("q", "_zz", "Some_Longer_Prefix_", "n" * 40))
            stmts = rename(p.stmts, pre)
            op = D.copts(p.cpu, p.illegal, {pre + n: v for n, v in p.defines.items()})
        if "crlf" in how:
            eol = "\r\n"
        files = A.render(stmts, st, eol)
        if how == "noise lines":
            files = {n: noise(t, rng) if isinstance(t, str) else t for n, t in files.items()}
        sym, lst = "s.sym", "l.lst"
        if how == "again":
            # heap contents and addresses differ from run to run
            kw = {"environ": {"MALLOC_PERTURB_": str(rng.randrange(1, 256)), "PAD": "x" * rng.randrange(5000)}}
        elif how == "asan":
            kind = "asan"
        elif how == "outputs":
            k = rng.randrange(16)
            sub = "outputs %d" % k
            sym = "s.sym" if k & 1 else None
            lst = "l.lst" if k & 2 else None
            op += (["-v"] if k & 4 else []) + (["-log", "g.log"] if k & 8 else []) + (["-nowarn"] if rng.random() < 0.3 else [])
        r = D.asm(env, files, op, sym=sym, lst=lst, kind=kind, **kw)
        o.ev()
        if r.status == "hang":
            o.inconclusive += 1
            continue
        what = "case %d, %s: " % (i, sub)
        more = {"base.asm": base.files["a.asm"], "base.bin": base.image}
        if r.status != "ok":
            o.violation(what + "not assembled (%s, exit %s), the program written otherwise is" % (r.status, r.run.rc), **D.saved(r, **more))
            return o
        if r.image != base.image:
            o.violation(what + "the image differs: " + D.diff(base.image, r.image), **D.saved(r, **more))
            return o
        if same_text:
            for n, a, b in (("symbol file", base.sym, r.sym), ("listing", base.lst, r.lst)):
                if b is not None and a != b:
                    o.violation(what + "the %s of the same source differs" % n, **D.saved(r, **more, **{"a.out": a or b"", "b.out": b}))
                    return o
            if how == "again" and r.run.out.split(b"\n")[1:] != base_stdout.split(b"\n")[1:]:
                o.violation(what + "the messages of the same source differ", **D.saved(r, **more, **{"a.out": base_stdout}))
                return o
        elif how != "names" and r.sym is not None and symvals(r.sym) != symvals(base.sym):
            o.violation(what + "the symbol values differ", **D.saved(r, **more, **{"a.sym": base.sym, "b.sym": r.sym}))
            return o
        o.stats[how] += 1
        o.key((sub, pf))
    o.samples.append("%d bytes, features %s" % (len(base.image), " ".join(pf)))
    return o
