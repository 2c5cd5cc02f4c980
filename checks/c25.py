"""C25: results that could not be written or inputs that could not be read are reported, never taken for success."""
import os, re, resource, signal, subprocess
import asmlib as A
import drive as D
import gen as G
from common import Out, Run, classify

PROP = "C25"
KINDS = ("plain",)
MIN_KEYS = 30
RULE = ("distinct (faulted file, kind of fault, position of the fault relative to the file's size) after which the run exited nonzero with a message, "
        "and distinct limits just large enough under which all files were complete")
OUT = ("o.bin", "s.sym", "l.lst", "g.log")


def plan(tier):
    return 2000 if tier == "quick" else 20000


def limited(env, args, limit, name="pasm", cwd=None):
    """a run in which no file can grow beyond limit bytes (a write fails with EFBIG, as on a full disk)"""
    def pre():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    for t in (20, 60):
        p = subprocess.Popen([env.exe(name=name)] + args, cwd=cwd or env.scratch(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env={"PATH": "/usr/bin:/bin", "LC_ALL": "C"}, preexec_fn=pre, restore_signals=False)
        try:
            out, err = p.communicate(timeout=t)
            return Run(p.returncode, out, err, False)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
    return Run(None, b"", b"", True)


def converting(env, o, rng):
    """eolconvert on a disk that fills up"""
    files = {"f%d.asm" % k: b"".join(b"x" * rng.choice((0, 1, 20, 60)) + rng.choice((b"\n", b"\r\n", b"\r")) for _ in range(rng.choice((0, 1, 3, 40, 300))))
             for k in range(rng.randrange(1, 4))}
    conv = {n: re.sub(rb"\r\n|\n\r|\r", b"\n", b) for n, b in files.items()}
    sub = rng.choice(("", "sub/", "a/b/"))
    for n, b in files.items():
        env.write("r/CMakePasm/samples/" + sub + n, b)
    os.makedirs(os.path.join(env.scratch(), "r/b/run"))
    top = max(len(b) for b in conv.values())
    limit = max(0, rng.choice((0, 1, top - 1, top, top + 1, rng.randrange(top + 1), 1 << 20)))
    r = limited(env, [], limit, "eolconvert", os.path.join(env.scratch(), "r/b/run"))
    o.ev()
    if r.timeout:
        o.inconclusive += 1
        return o
    now = {n: env.read("r/CMakePasm/samples/" + sub + n) for n in files}
    more = {"out.txt": r.out[:5000], "err.txt": r.err[:5000]}
    if limit >= top:
        if r.rc != 0 or now != conv:
            o.violation("eolconvert: files of at most %d bytes allowed, which is enough: exit %s" % (limit, r.rc), **more)
            return o
    elif r.rc is None or r.rc <= 0 or not r.err.strip():
        o.violation("eolconvert: a disk full after %d bytes, a file needs %d: exit %s%s" % (limit, top, r.rc, "" if r.err.strip() else ", no message"), **more)
        return o
    o.key(("eolconvert", limit >= top, len(files), top.bit_length()))
    o.stats["eolconvert disk " + ("large enough" if limit >= top else "full")] += 1
    return o


def case(env, i, rng):
    o = Out()
    env.clean()
    if i % 11 == 10:
        return converting(env, o, rng)
    p, ref = G.program(rng, rng.choice((5, 20, 40)))
    files = A.render(p.stmts)
    if rng.random() < 0.3:
        n = rng.choice((3000, 4095, 4096, 4097, 5000, 9000))
        files = {"a.asm": " .fill 7,%d\nlab jmp lab\n" % n if rng.random() < 0.5 else " .load \"big.bin\"\nlab jmp lab\n",
                 "big.bin": bytes(rng.randrange(256) for _ in range(n % 3000 + 1000))}
        opts = []
    else:
        opts = D.copts(p.cpu, p.illegal, p.defines)
    names = ["o.bin"] + [n for n in OUT[1:] if rng.random() < 0.5]
    flag = dict(zip(OUT, ("-o", "-s", "-l", "-log")))

    def args(sub={}):
        a = list(opts)
        for n in names:
            a += [flag[n], sub.get(n, n)]
        return a + ["a.asm"]

    def fail(r, what, known=None, **more):
        s = classify(r)
        o.ev()
        if s == "hang":
            o.inconclusive += 1
            return False
        f = dict(more, **{"cmd.txt": "pasm " + " ".join(args()), "out.txt": r.out[:5000], "err.txt": r.err[:5000]}, **{n: t for n, t in list(files.items())[:8]})
        if s == "crash":
            o.violation("%s: crashed (%s)" % (what, r.rc), **f)
        elif s == "ok":
            o.violation("%s: exit status 0" % what, **f)
        elif not r.err.strip() and b"rror" not in r.out:
            o.violation("%s: no message" % what, **f)
        else:
            return True
        return False

    for n, t in files.items():
        env.write(n, t)
    r = env.run(args())
    o.ev()
    if classify(r) == "hang":
        o.inconclusive += 1
        return o
    if r.rc != 0:
        o.violation("case %d: a valid program with all its files writable: exit %s" % (i, r.rc), **{"err.txt": r.err[:5000], "a.asm": files["a.asm"]})
        return o
    whole = {n: env.read(n) for n in names}
    k = i % 5
    if k in (0, 1):
        # a device that is full from the start
        n = rng.choice(names)
        if whole[n] and fail(env.run(args({n: "/dev/full"})), "%s on a full device" % flag[n]):
            o.key(("full", n, len(whole[n]) > 4096))
            o.stats["full device " + flag[n]] += 1
    elif k in (2, 3):
        # a disk that fills up at some point
        top = max(len(b) for b in whole.values())
        limit = rng.choice((0, 1, top - 1, top, top + 1, rng.randrange(top + 1), rng.randrange(top + 1), min(len(b) for b in whole.values())))
        limit = max(0, limit)
        for n in names:
            env.remove(n)
        r = limited(env, args(), limit)
        if limit >= top:
            o.ev()
            if r.timeout:
                o.inconclusive += 1
            elif r.rc != 0 or any(env.read(n) != whole[n] for n in names):
                o.violation("case %d: files of at most %d bytes allowed, which is enough: exit %s" % (i, limit, r.rc), **{"err.txt": r.err[:5000], "a.asm": files["a.asm"]})
            else:
                o.key(("enough", len(names), limit - top))
                o.stats["disk just large enough"] += 1
        elif fail(r, "a disk full after %d bytes (%s)" % (limit, ", ".join("%s %d" % (n, len(whole[n])) for n in names))):
            for n in names:
                b = env.read(n)
                if n == "o.bin" and b is not None and whole[n][:len(b)] != b:
                    o.violation("a disk full after %d bytes: %s holds other bytes than the image" % (limit, n), **{"a.asm": files["a.asm"], "image.bin": b, "expected.bin": whole[n]})
                    return o
            o.key(("limit", tuple(names), limit if limit < 3 else (limit * 4 // top)))
            o.stats["disk full"] += 1
    else:
        # files that cannot be opened or read
        how = rng.choice(("no directory", "is a directory", "input directory", "inc directory", "load directory"))
        env.write("dir/x", b"")
        if how == "no directory":
            n = rng.choice(names)
            ok = fail(env.run(args({n: "nowhere/" + n})), "%s into a directory that is not there" % flag[n])
            how += " " + n
        elif how == "is a directory":
            n = rng.choice(names)
            ok = fail(env.run(args({n: "dir"})), "%s names a directory" % flag[n])
            how += " " + n
        elif how == "input directory":
            ok = fail(env.run(["-o", "o.bin", "dir"]), "an input that is a directory")
        else:
            env.write("b.asm", " nop\n .%s \"dir\"\n nop\n" % how.split()[0])
            ok = fail(env.run(["-o", "o.bin", "b.asm"]), "." + how)
        if ok:
            o.key(how)
            o.stats[how] += 1
    return o
