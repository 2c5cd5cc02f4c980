"""Runs pasm on generated programs and compares what came out with the reference."""
import re
import asmlib as A
from common import classify, Out


class Res:
    pass

    def text(self):
        return (self.run.out + self.run.err).decode("latin-1")


def asm(env, files, opts=(), inputs=("a.asm",), kind="plain", out="o.bin", sym=None, lst=None, clean=True, timeout=None, environ=None):
    if clean:
        env.clean()
    for n, t in files.items():
        env.write(n, t)
    args = list(opts)
    if out:
        args += ["-o", out]
    if sym:
        args += ["-s", sym]
    if lst:
        args += ["-l", lst]
    args += list(inputs)
    r = Res()
    r.files, r.args = files, args
    r.run = env.run(args, kind=kind, timeout=timeout, environ=environ)
    r.status = classify(r.run)
    r.image = env.read(out) if out else None
    r.sym = env.read(sym) if sym else None
    r.lst = env.read(lst) if lst else None
    return r


def copts(cpu="6502", illegal=False, defines=None):
    o = []
    if cpu.lower() == "65c02":
        o.append("-65c02")
    if illegal:
        o.append("-i")
    for n, v in (defines or {}).items():
        o += ["-d", n, str(v)]
    return o


def saved(res, **more):
    d = {"cmd.txt": "pasm " + " ".join(res.args) + "\n",
         "out.txt": res.run.out[:20000], "err.txt": res.run.err[:20000]}
    for n, t in list(res.files.items())[:12]:
        d[n] = t if isinstance(t, bytes) else t.encode("latin-1")
    if res.image is not None:
        d["image.bin"] = res.image
    for k, v in more.items():
        if v is not None:
            d[k] = v
    return d


def hx(b, n=24):
    return " ".join("%02X" % c for c in b[:n]) + (" ..." if len(b) > n else "")


def diff(exp, got):
    """first difference in words"""
    if got is None:
        return "no output file"
    k = 0
    while k < min(len(exp), len(got)) and exp[k] == got[k]:
        k += 1
    return "first difference at byte %d (lengths %d and %d): expected %s got %s" % (k, len(exp), len(got), hx(exp[k:k + 12]), hx(got[k:k + 12]))


def where(recs, k):
    """the record of the reference that holds image byte k"""
    n = 0
    for pc, b, kind in recs:
        if n <= k < n + len(b):
            return "$%04X %s %s" % (pc, kind, hx(b))
        n += len(b)
    return "past the end"


def compare(o, res, ref, what, header=b""):
    """The image must be the reference's. True if it is."""
    exp = header + ref.image
    if res.status == "hang":
        o.inconclusive += 1
        return False
    if res.status != "ok":
        o.violation("%s: a valid program was not assembled (%s, exit %s)" % (what, res.status, res.run.rc), **saved(res, **{"expected.bin": exp}))
        return False
    if res.image != exp and res.image is not None:
        alt = ref.relaxed(res.image, len(header))
        if alt is not ref and header + alt.image == res.image:
            o.stats["layouts with a branch kept long"] += 1
            return True
    if res.image != exp:
        k = 0
        g = res.image or b""
        while k < min(len(exp), len(g)) and exp[k] == g[k]:
            k += 1
        o.violation("%s: %s; reference record: %s" % (what, diff(exp, res.image), where(ref.recs, k - len(header))),
                    **saved(res, **{"expected.bin": exp}))
        return False
    return True


def must_reject(o, res, what, known=None):
    """An invalid program: nonzero exit and something said about it; never a crash. True if so."""
    if res.status == "hang":
        o.inconclusive += 1
        return False
    f = saved(res)
    if known:
        f["known_key"] = known
    if res.status == "crash":
        o.violation("%s: crashed (exit %s)" % (what, res.run.rc), **f)
        return False
    if res.status == "ok":
        o.violation("%s: accepted (exit 0)" % what, **f)
        return False
    return True


WRITTEN = re.compile(rb"(\d+) bytes written to (\S+)")
