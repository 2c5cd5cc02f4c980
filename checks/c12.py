"""C12: the output file is the emitted bytes in order, with a load address in front only when asked for."""
import re
import asmlib as A
import drive as D
import gen as G
from common import Out

PROP = "C12"
KINDS = ("plain",)
MIN_KEYS = 500
RULE = ("distinct (address directives, header, size) whose output file was exactly the header asked for and the bytes of the records in order "
        "and whose reported size was the file's; plus distinct sources with a gap that were refused")
MSG = re.compile(rb"^(-?\d+) bytes written to (.*)$", re.M)


def plan(tier):
    return 30000 if tier == "quick" else 400000


def piece(rng, k):
    """statements that emit something"""
    c = rng.randrange(8)
    if c == 7:
        # nothing at all
        return [rng.choice((("str", [("str", b"")]), ("byte", [("str", b"")]), ("load", "e%d.bin" % k, b""), ("fill", ("n", 7), ("n", 0)), ("byte", [("str", b""), ("n", 5), ("str", b"")])))]
    if c == 0:
        return [("op", "nop", "none", None)]
    if c == 1:
        return [("byte", [("n", rng.randrange(256)) for _ in range(rng.randrange(1, 4))])]
    if c == 2:
        return [("word", [("pc",), ("n", rng.randrange(65536))])]
    if c == 3:
        return [("fill", ("n", rng.randrange(256)), ("n", rng.choice((0, 1, 2, 3, 255, 256, 257))))]
    if c == 4:
        return [("str", [("str", b"text " + b"x" * rng.randrange(9))])]
    if c == 5:
        return [("op", "jmp", "e", ("s", "lab"))]
    return [("load", "d%d.bin" % k, bytes(rng.randrange(256) for _ in range(rng.randrange(1, 6))))]


def addr(rng, e):
    """an address written in some way"""
    k = rng.randrange(4)
    if k == 0:
        return ("b", "+", ("n", e - 1), ("n", 1))
    if k == 1:
        return ("b", "|", ("n", e & 0xFF00), ("n", e & 0xFF))
    return ("n", e)


ORG = (0x0000, 0x0001, 0x00FF, 0x0100, 0x0801, 0x1000, 0x1001, 0x7FFF, 0x8000, 0xC000, 0xFEFF, 0xF000)


def build(rng):
    """a program of pieces with changes of address; what it is made of as a key"""
    prog, desc = [], []
    start = rng.choice(("none", "setpc", "org", "setpc ds setpc", "setpc twice", "org then setpc", "ds then setpc"))
    if start == "setpc":
        prog.append(("setpc", addr(rng, rng.choice(ORG + (rng.randrange(0xF000),)))))
    elif start == "org":
        prog.append(("org", addr(rng, rng.choice(ORG + (rng.randrange(0xF000),)))))
    elif start == "setpc ds setpc":
        # names for memory that is not in the image
        prog += [("setpc", ("n", rng.randrange(2, 200))), ("l", "ram1", ("ds", ("n", rng.randrange(0, 30)))), ("l", "ram2", ("ds", ("n", rng.randrange(1, 3)))),
                 ("setpc", addr(rng, rng.choice(ORG[3:])))]
    elif start == "setpc twice":
        prog += [("setpc", ("n", rng.randrange(0xF000))), ("setpc", addr(rng, rng.choice(ORG)))]
    elif start == "org then setpc":
        prog += [("org", ("n", rng.randrange(0xF000))), ("setpc", addr(rng, rng.choice(ORG)))]
    elif start == "ds then setpc":
        prog += [("ds", ("n", rng.choice((0, 1, 2, 3, 100, 5000)))), ("setpc", addr(rng, rng.choice(ORG)))]
    desc.append(start)
    if rng.random() < 0.3:
        prog.append(("equ", "con", ("n", rng.randrange(65536))))
    prog.append(("lab", "lab"))
    n = rng.randrange(1, 9)
    for k in range(n):
        prog += piece(rng, k)
        c = rng.random()
        if c < 0.15:
            # code for another address, put right behind
            prog.append(("setpc", addr(rng, rng.randrange(0xF000))))
            desc.append("moved")
        elif c < 0.25:
            prog.append(("setpc", ("b", "+", ("pc",), ("n", rng.choice((0, 0, 1, 16))))))
            desc.append("forward")
        elif c < 0.3:
            prog += [("ds", ("n", rng.randrange(0, 9))), ("setpc", addr(rng, rng.randrange(0xF000)))]
            desc.append("reserve, moved")
        elif c < 0.34:
            prog += [("l", "back%d" % k, ("setpc", ("s", "lab")))] if False else [("setpc", ("s", "lab"))]
            desc.append("again")
    if rng.random() < 0.3:
        prog += [("l", "buffer", ("ds", ("n", rng.choice((0, 1, 2, 3, 100, 1000)))))]
        desc.append("reserve at the end")
        if rng.random() < 0.4:
            prog += [("lab", "after"), ("equ", "size", ("b", "-", ("s", "after"), ("s", "buffer")))]
    return prog, desc


def check_file(o, res, ref, c64, what, outname, expname=None):
    if not ref.image:
        head = None
    if not D.compare(o, res, ref, what, header_of(ref) if c64 else b""):
        return False
    m = MSG.findall(res.run.out)
    if len(m) != 1 or int(m[0][0]) != len(res.image) or m[0][1].decode("latin-1").strip() != outname:
        o.violation("%s: reported %r for a file of %d bytes named %s" % (what, m, len(res.image), outname), **D.saved(res))
        return False
    return True


def header_of(ref):
    for pc, b, _ in ref.recs:
        if b:
            return bytes((pc & 255, pc >> 8 & 255))
    return b""


GAPS = [
    " nop\n .ds %d\n nop\n", " * = $2000\n nop\n .ds %d\n .byte 1\n", " .org $3000\n .byte 1,2\nbuf .ds %d\n .word buf\n",
    " * = $2000\n nop\n * = $3000\n nop\n .ds %d\n rts\n", " .byte 1\n .ds %d\n .fill 1,3\n", " .byte 1\n .ds %d\n .str \"abc\"\n",
    " .byte 1\n .ds %d\n .load \"d.bin\"\n", " nop\n .ds %d\n bne l\nl nop\n", " .macro m\n .ds \\1\n .endm\n nop\n m %d\n nop\n",
    " * = $4000\n nop\n .ds %d\n .fill 2,1\n nop\n", " .section s\n nop\n .ds %d\n nop\n .ends\n",
]


def case(env, i, rng):
    o = Out()
    c64 = rng.choice((None, None, "-c64", ".c64"))
    if i % 10 == 0:
        n = rng.choice((1, 1, 2, 2, 3, 4, 255, 256, 1000))
        g = rng.choice(GAPS)
        text = (" .c64\n" if c64 == ".c64" else "") + " lda #1\n" * rng.randrange(3) * (not g.startswith((" *", " .org"))) + g % n
        res = D.asm(env, {"a.asm": text, "d.bin": b"\x01\x02\x03"}, ["-c64"] if c64 == "-c64" else [])
        o.ev()
        if D.must_reject(o, res, "output after %d reserved bytes (%s)" % (n, c64)):
            o.key(("gap", n, g, c64))
            o.stats["gaps refused"] += 1
        return o
    if i % 3 == 0:
        p, ref = G.program(rng, rng.choice((5, 10, 40)))
        prog, cpu, ill, defs, desc = p.stmts, p.cpu, p.illegal, p.defines, ["program"]
        if c64 == ".c64" and rng.random() < 0.5:
            prog = prog + [("raw", " .c64")] if ("end",) not in prog else [("raw", " .c64")] + prog
        elif c64 == ".c64":
            prog = [("raw", " .c64")] + prog
    else:
        prog, desc = build(rng)
        cpu, ill, defs = "6502", False, {}
        try:
            ref = A.Ref().run(prog)
        except A.AsmError as e:
            o.stats["dropped: %s" % e] += 1
            return o
        if max([pc + len(b) for pc, b, _ in ref.recs] or [0]) > 0xFFFF:
            o.stats["dropped: past the end of memory"] += 1
            return o
        if c64 == ".c64":
            at = rng.randrange(len(prog) + 1)
            prog = prog[:at] + [("raw", " .c64")] + prog[at:]
    if not ref.image:
        o.stats["dropped: no output"] += 1
        return o
    outname = rng.choice(("o.bin", "o.bin", "some-longer_name.prg", "sub/x", "NAME"))
    env.clean()
    env.write("sub/keep", b"")
    old = rng.random()
    if old < 0.4:
        # what was in the file before must be gone
        env.write(outname, b"\xEE" * rng.choice((1, 100, 20000)))
    opts = D.copts(cpu, ill, defs) + (["-c64"] if c64 == "-c64" else [])
    res = D.asm(env, A.render(prog), opts, out=outname, clean=False, sym="s.sym" if rng.random() < 0.2 else None, lst="l.lst" if rng.random() < 0.2 else None)
    o.ev()
    if check_file(o, res, ref, c64, "case %d (%s; %s)" % (i, ", ".join(desc), c64), outname):
        o.key((tuple(desc), c64, len(res.image), header_of(ref)))
        for d in set(desc):
            o.stats[d] += 1
        o.stats["with header" if c64 else "without header"] += 1
        o.samples.append("%s, header %s: %d bytes" % (", ".join(desc), c64, len(res.image)))
    return o
