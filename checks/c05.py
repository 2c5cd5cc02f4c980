"""C05: whole programs assemble to the fixed point that an independent reference computes."""
import asmlib as A
import drive as D
import gen as G
from common import Out

PROP = "C05"
KINDS = ("plain",)
MIN_KEYS = 300
RULE = "distinct images (by content) of generated whole programs that matched an independent multi-pass reference byte for byte"


def plan(tier):
    return 24000 if tier == "quick" else 240000


EDGE = (0, 1, 2, 127, 128, 255, 256, 257, 0x1FF, 0x200, 0x7FFF, 0x8000, 0x8001, 0xFF00, 0xFFFE, 0xFFFF)


def chain(env, o, rng, i):
    """names that are defined by each other, the last one by a number: a pass changes one of them by any amount, or by one bit"""
    n = rng.randrange(1, 13)
    k = rng.random()
    v = rng.choice(EDGE) if k < .4 else 1 << rng.randrange(16) if k < .7 else rng.randrange(65536)
    same = rng.random() < .5           # all the same value, so that the only change of a pass is from 0 to it
    stmts = [("word", [("s", "c%d" % j) for j in range(n)])] if rng.random() < .5 else [("word", [("s", "c0")])]
    if rng.random() < .5:
        stmts += [("op", rng.choice(("lda", "sta", "adc")), "e", ("s", "c%d" % rng.randrange(n))), ("lab", "after"), ("word", [("s", "after")])]
    eq = [("equ", "c%d" % j, ("s", "c%d" % (j + 1)) if same or rng.random() < .7 else ("b", rng.choice("+^|"), ("s", "c%d" % (j + 1)), ("n", rng.randrange(2)))) for j in range(n - 1)]
    eq.append(("equ", "c%d" % (n - 1), ("n", v)))
    if rng.random() < .3:
        rng.shuffle(eq)
    stmts = [("setpc", ("n", 0x1000))] + stmts + eq
    try:
        ref = A.Ref().run(stmts)
    except A.AsmError as e:
        o.stats["chains dropped: %s" % str(e)[:30]] += 1
        return
    res = D.asm(env, A.render(stmts))
    o.ev()
    if D.compare(o, res, ref, "chain of %d names, the last one %d" % (n, v)):
        o.key(("chain", n, v, res.image))
        o.stats["chains of names"] += 1


def case(env, i, rng):
    o = Out()
    if i % 6 == 5:
        chain(env, o, rng, i)
        return o
    p, ref = G.volume_program(rng) if i % 120 == 31 else G.program(rng, rng.choice((10, 25, 40, 40, 80, 160)))
    st = rng.choice((A.PLAIN, A.Style.mild(rng), A.PLAIN))
    res = D.asm(env, A.render(p.stmts, st), D.copts(p.cpu, p.illegal, p.defines))
    o.ev()
    if D.compare(o, res, ref, "case %d, program with " % i + " ".join(sorted(p.feats))):
        o.key(res.image)
        for f in p.feats:
            o.stats["feature " + f] += 1
        o.stats["passes %d" % min(ref.passno, 6)] += 1
        o.stats["bytes"] += len(res.image)
        o.samples.append("%d statements, %d bytes, %d reference passes: %s" % (len(p.stmts), len(res.image), ref.passno, " ".join(sorted(p.feats))))
    return o
