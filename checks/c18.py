"""C18: eolconvert over generated directory trees in a scratch directory, against a reference conversion; twice."""
import os
import re
import shutil
from common import classify, Out

PROP = "C18"
KINDS = ("plain", "asan")
MIN_KEYS = 200
RULE = ("distinct (shapes of the files of the tree: text or not, kinds of line ends in order, size class; depth) where after the run every file of the scratch tree "
        "had exactly the bytes of the reference conversion and no file or directory was added, removed or touched outside of the samples directory")
ASSUME = ["text = every byte is printable ASCII (0x20..0x7E), CR or LF (the program's own definition; a tab or a byte above 0x7E makes a file binary)"]
EOLS = [b"\n", b"\r", b"\r\n", b"\n\r"]
PRINT = bytes(range(0x20, 0x7F))


def plan(tier):
    return 3000 if tier == "quick" else 30000


def is_text(b):
    return all(0x20 <= c < 0x7F or c in (10, 13) for c in b)


def convert(b):
    if not is_text(b):
        return b
    return re.sub(rb"\r\n|\n\r|\r|\n", b"\n", b)


def shape(b):
    """the line ends in order, runs of the same kind folded"""
    s = "".join("r" if c == 13 else "n" if c == 10 else "." for c in b[:4000])
    s = re.sub(r"\.+", ".", s)
    return ("t" if is_text(b) else "b", s[:24], len(b).bit_length())


def line(rng):
    return bytes(rng.choice(PRINT) for _ in range(rng.choice((0, 0, 1, 2, 5, 30, 200))))


def content(rng, i):
    k = rng.randrange(14)
    if k == 13:                                        # line ends that lie across multiples of the block sizes a reader may use
        size = rng.choice((300, 5000, 70000, 140000)) if i % 40 else rng.choice((1 << 20, 1 << 21)) + 5
        b = bytearray(b"y" * size)
        at = {1 << n for n in range(6, 22)} | {1000, 10000, 100000, 1000000} | {m << n for n in (12, 16) for m in range(1, 20)}
        for p in at:
            e = rng.choice((b"\r\n", b"\n\r", b"\r\n", b"\r\r", b"\n\n", b"\r\n\r\n"))
            p -= rng.choice((1, 1, 1, len(e) - 1))
            if p + len(e) <= size:
                b[p:p + len(e)] = e
        return bytes(b)
    if k == 12:                                        # long text, with a byte that makes it binary or a change of line ends only far behind
        b = b"x" * (rng.choice((500, 1000, 1024, 4095, 4096, 4097, 5000, 8192, 10000, 32768, 65535, 65536, 70000)) - rng.randrange(0, 3))
        if rng.random() < .5:
            b = b.replace(b"x" * 70, b"x" * 68 + rng.choice((b"\r\n", b"\n\n", b"\n\r")))
        return b + rng.choice((b"\r\n\0", b"\r\n\x80", b"\r\n\tx", b"\r\n", b"\r", b"\n\rx\0y\r\n", b"\r\rz"))
    if k == 0:
        return b""
    if k == 1:                                         # nothing but line ends
        return bytes(rng.choice((10, 13)) for _ in range(rng.randrange(1, 24)))
    if k == 2:                                         # short, all bytes from a small alphabet
        return bytes(rng.choice((10, 13, 65, 32)) for _ in range(rng.randrange(1, 16)))
    if k == 3:                                         # one kind of line end
        e = rng.choice(EOLS)
        return b"".join(line(rng) + e for _ in range(rng.randrange(1, 30)))
    if k in (4, 5, 6):                                 # a mixture
        b = b"".join(line(rng) + rng.choice(EOLS) for _ in range(rng.randrange(1, 30)))
        return b + (line(rng) if rng.random() < .5 else b"")
    if k == 7:                                         # arbitrary bytes
        return bytes(rng.randrange(256) for _ in range(rng.randrange(1, 400)))
    if k == 8:                                         # text with one byte that makes it binary, anywhere
        b = bytearray(b"".join(line(rng) + rng.choice(EOLS) for _ in range(rng.randrange(1, 20))) or b"\r\n")
        b.insert(rng.choice((0, len(b), rng.randrange(len(b) + 1))), rng.choice((0, 9, 0x1A, 0x1B, 0x7F, 0x80, 0xFF, rng.randrange(128, 256), 11, 12)))
        return bytes(b)
    if k == 9:                                         # long, line ends at and around buffer sizes
        b = bytearray()
        for n in rng.sample((510, 511, 512, 1022, 4094, 4095, 4096, 8190, 8191, 8192, 16383), 4):
            b += b"x" * n + rng.choice(EOLS) * rng.randrange(1, 4)
        return bytes(b)
    if k == 10:
        b = b"".join(line(rng) + rng.choice(EOLS) for _ in range(rng.choice((300, 1500))))
        return b
    return line(rng)                                   # no line end at all


NAMES = ["a.asm", "b.txt", "noext", ".hidden", "with space.asm", "two.dots.asm", "-dash", "UPPER.ASM", "x'q\"", "ü.txt", "samples", "a.prg", "lib.inc", "#1", "%s%n", "n\nl"]


def tree(rng, i):
    """{path: bytes or None for a directory} under samples"""
    t = {}
    dirs = [""]
    for _ in range(rng.choice((0, 0, 1, 2, 4, 8))):
        d = os.path.join(rng.choice(dirs), rng.choice(NAMES) + rng.choice(("", "", "2", "_d")))
        if d not in t:
            t[d] = None
            dirs.append(d)
    if rng.random() < .1:
        d = ""
        for k in range(25):
            d = os.path.join(d, "d%d" % k)
            if d in t and t[d] is not None:
                break
            t[d] = None
            dirs.append(d)
    for _ in range(rng.choice((0, 1, 3, 6, 12))):
        p = os.path.join(rng.choice(dirs), rng.choice(NAMES) + rng.choice(("", "1", "3")))
        if p not in t:
            t[p] = content(rng, i)
    return t


def snapshot(top):
    r = {}
    for d, ds, fs in os.walk(os.fsencode(top)):
        for n in ds:
            p = os.path.join(d, n)
            r[os.path.relpath(p, os.fsencode(top))] = None if not os.path.islink(p) else b"-> " + os.readlink(p)
        for n in fs:
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                r[os.path.relpath(p, os.fsencode(top))] = f.read()
    return r


def case(env, i, rng):
    o = Out()
    env.clean()
    top = env.scratch()
    kind = "asan" if i % 5 == 0 else "plain"
    cwd = os.path.join(top, "r/b/run")
    os.makedirs(cwd)
    sam = os.path.join(top, "r/CMakePasm/samples")
    # files beside the samples that must stay as they are, line ends and all
    for n in ("r/CMakePasm/other.asm", "r/b/x.asm", "r/b/run/y.asm", "r/CMakePasm/samples2/z.asm", "r/readme"):
        env.write(n, b"one\r\ntwo\rthree\n\r")
    mode = rng.choice(("tree",) * 12 + ("missing", "file", "empty"))
    t = {}
    if mode == "tree":
        os.makedirs(sam)
        t = tree(rng, i)
        for p, b in t.items():
            q = os.path.join(sam, p)
            if b is None:
                os.makedirs(q, exist_ok=True)
            else:
                env.write(os.path.join("r/CMakePasm/samples", p), b)
    elif mode == "empty":
        os.makedirs(sam)
    elif mode == "file":
        env.write("r/CMakePasm/samples", b"a\r\nb\r")
    before = snapshot(top)
    pre = b"r/CMakePasm/samples/"
    exp = {p: (convert(b) if p.startswith(pre) and b is not None else b) for p, b in before.items()}
    for turn in (1, 2):
        r = env.run([], kind=kind, cwd=cwd, name="eolconvert")
        st = classify(r)
        if st == "hang":
            o.inconclusive += 1
            return o
        o.ev()
        what = "run %d over %s" % (turn, mode)
        files = {"out.txt": r.out[:5000], "err.txt": r.err[:5000]}
        if st != "ok":
            o.violation("%s: exit status %s" % (what, r.rc), **files)
            return o
        now = snapshot(top)
        o.ev(len(now))
        for p in sorted(set(exp) | set(now)):
            if p not in now or p not in exp:
                o.violation("%s: %r was %s" % (what, p, "removed" if p not in now else "added"), **files)
                return o
            if exp[p] != now[p]:
                o.violation("%s: %r differs from the reference conversion (%s)" % (what, p, "text" if is_text(before[p] or b"") else "not text"),
                            **files, **{"before.bin": before[p] or b"", "expected.bin": exp[p] or b"", "after.bin": now[p] or b""})
                return o
        o.stats["files compared"] += sum(b is not None for b in exp.values())
        o.stats["files rewritten" if turn == 1 else "files kept by the second run"] += sum(exp[p] != before[p] for p in exp)
    o.key((mode, tuple(sorted(shape(b) for b in t.values() if b is not None)), max([p.count("/") for p in t] or [0])))
    for p, b in t.items():
        if b is not None:
            o.key(shape(b))
    o.stats["trees " + mode] += 1
    if i < 6:
        o.samples.append("%s: %d files, %d directories, e.g. %r -> %r" % (mode, sum(b is not None for b in t.values()), sum(b is None for b in t.values()),
                         *next(((b[:40], convert(b)[:40]) for b in t.values() if b and convert(b) != b), (b"", b""))))
    return o
