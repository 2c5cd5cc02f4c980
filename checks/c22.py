"""C22: every option does what it says in any order and spelling; impossible command lines are refused and leave nothing behind."""
import os
import re
import asmlib as A
import drive as D
import gen as G
from common import Out

PROP = "C22"
KINDS = ("plain",)
MIN_KEYS = 1000
RULE = ("distinct (options used, their order, spelling class, number formats of the defines) whose image, symbol file, list file, log file and messages are those of the reference "
        "and of the same options in plain order and spelling, with exactly the files asked for; distinct (fault, options) refused with a message and no file; distinct help requests")
ASSUME = ["-nowarn and -v may change what is written to the console, nothing else"]
WARNING = re.compile(rb"creating jmp\. File (\S+) near line (\d+)")
USAGE = (b"-o outputfile", b"-d sym", b"-dir", b"-s symbolfile", b"-l listfile", b"-log logfile", b"-i ", b"-v ", b"-c64", b"-6502", b"-65C02", b"-nowarn", b"-?")


def plan(tier):
    return 14400 if tier == "quick" else 140000


def number(rng, v, plain=False):
    k = 0 if plain else rng.randrange(7)
    if k == 1:
        return "$%X" % v
    if k == 2:
        return "$%04x" % v
    if k == 3:
        return "%" + bin(v)[2:]
    if k == 4:
        return "0x%s" % ("%x" % v if rng.random() < .5 else "%04X" % v)
    if k == 5:
        return "0b%s" % format(v, "0%db" % rng.randrange(1, 17))
    if k == 6:
        return "%05d" % v
    return str(v)


def spell(rng, o):
    """an option in some spelling"""
    return rng.choice("-/") + "".join(c.upper() if rng.random() < .5 else c.lower() for c in o[1:])


class Cmd:
    """a valid command line as data"""

    def __init__(self, env, rng):
        self.rng = rng
        feats = {f for f in G.FEATS if rng.random() < 0.4} - {"inc", "pm"}
        if rng.random() < .5:
            feats |= {"defines"}
        self.p, self.ref = G.program(rng, rng.choice((3, 10, 25)), feats)
        p = self.p
        self.c64 = rng.random() < .3
        self.cpu = p.cpu.lower() == "65c02"
        opts = []
        if self.cpu:
            opts.append(["-65c02"])
        elif rng.random() < .3:
            opts.append(["-6502"])
        if p.illegal or (not self.cpu and rng.random() < .1):
            opts.append(["-i"])
        if self.c64:
            opts.append(["-c64"])
        for o in ("-v", "-nowarn"):
            if rng.random() < .3:
                opts.append([o])
        self.out = rng.choice(("o.bin", "o", "out file.prg", "sub/o.bin", "-o", "o.BIN")) if rng.random() < .9 else None
        self.sym = rng.choice(("s.sym", "sub/s", "symbols.txt")) if rng.random() < .4 else None
        self.lst = rng.choice(("l.lst", "sub/l", "a list.txt")) if rng.random() < .4 else None
        self.log = rng.choice(("g.log", "sub/g")) if rng.random() < .3 else None
        for o, f in (("-o", self.out), ("-s", self.sym), ("-l", self.lst), ("-log", self.log)):
            if f:
                opts.append([o, f])
        self.defs = dict(p.defines)
        for k in range(rng.choice((0, 0, 1, 2))):
            self.defs["extra_%d" % k] = rng.choice((0, 1, 255, 256, 65535, rng.randrange(65536)))
        for n, v in self.defs.items():
            opts.append(["-d", n, v])
        self.dirs = rng.random() < .3
        # inputs
        st = A.Style()
        stmts = p.stmts
        self.files, self.inputs = {}, []
        n = 1 if any(s[0] == "section" for s in stmts) else rng.choice((1, 1, 2, 3))
        cut = sorted(rng.randrange(len(stmts) + 1) for _ in range(n - 1))
        for k, (a, b) in enumerate(zip([0] + cut, cut + [len(stmts)])):
            part = stmts[a:b]
            name = rng.choice(("in%d.asm", "in %d.asm", "src/in%d.a")) % k
            inc = self.dirs and k == 0 and not any(s[0] in ("section", "macro", "load", "end") for s in part)
            if inc:
                got = A.render(part, st, top="t")
                self.files["d2/x.inc"] = got.pop("t")
                self.files.update(got)
                self.files[name] = ' .inc "x.inc"\n'
            else:
                self.files.update(A.render(part, st, top=name))
            self.inputs.append(name)
        if self.dirs:
            opts.append(["-dir", rng.choice(("d1;d2", "d2", "d2;d1", "nowhere;d2"))])
        self.opts = opts

    def line(self, plain=False, drop=()):
        rng = self.rng
        groups = []
        for g in self.opts:
            if g[0] in drop:
                continue
            t = [g[0] if plain else spell(rng, g[0])] + g[1:]
            if g[0] == "-d":
                t[2] = number(rng, g[2], plain)
            groups.append(t)
        if plain:
            return [x for g in groups for x in g] + self.inputs
        rng.shuffle(groups)
        at = sorted(rng.randrange(len(groups) + 1) for _ in self.inputs)
        for k, n in reversed(list(zip(at, self.inputs))):
            groups.insert(k, [n])
        return [x for g in groups for x in g]

    def asked(self, drop=()):
        return {f for o, f in (("-o", self.out), ("-s", self.sym), ("-l", self.lst), ("-log", self.log)) if f and o not in drop}


def there(env):
    d = env.scratch()
    return {os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs}


def run(env, c, args):
    env.clean()
    os.makedirs(os.path.join(env.scratch(), "sub"))
    r = D.asm(env, c.files, args, inputs=(), out=None, clean=False)
    r.made = there(env) - set(c.files)
    r.got = {f: env.read(f) for f in c.asked()}
    r.image = r.got.get(c.out)
    return r


def sample(c):
    return {g[0] for g in c.opts}


def valid(env, i, rng, o, c):
    plain = c.line(True)
    r1 = run(env, c, plain)
    if r1.status == "hang":
        o.inconclusive += 1
        return
    what = "case %d" % i
    if r1.status != "ok":
        o.violation("%s: a valid command line was refused (%s, exit %s)" % (what, r1.status, r1.run.rc), **D.saved(r1))
        return
    for k in range(2):
        args = c.line()
        r = run(env, c, args)
        o.ev()
        if r.status == "hang":
            o.inconclusive += 1
            return
        if r.status != "ok":
            o.violation("%s: a valid command line was refused (%s, exit %s)" % (what, r.status, r.run.rc), **D.saved(r))
            return
        if r.made != c.asked():
            o.violation("%s: the files written are %s, those asked for are %s" % (what, sorted(r.made), sorted(c.asked())), **D.saved(r))
            return
        if c.out:
            if c.c64:
                h = origin(c)
                if r.image[:2] != h.to_bytes(2, "little"):
                    o.violation("%s: the C64 header is %s, the program starts at $%04X" % (what, D.hx(r.image[:2]), h), **D.saved(r))
                    return
                if not D.compare(o, r, c.ref, what, h.to_bytes(2, "little")):
                    return
            elif not D.compare(o, r, c.ref, what):
                return
        if r.got != r1.got:
            f = sorted(f for f in r.got if r.got[f] != r1.got[f])
            o.violation("%s: %s differ from those of the options in plain order and spelling" % (what, ", ".join(f)),
                        **D.saved(r, **{"plain.cmd": " ".join(plain), **{"plain-" + os.path.basename(n): r1.got[n] for n in f}}))
            return
        # what it says, but for the echo of the command line
        if r.run.out.partition(b"\n")[2] != r1.run.out.partition(b"\n")[2] or r.run.err != r1.run.err:
            o.violation("%s: the messages differ from those of the options in plain order and spelling" % what, **D.saved(r, **{"plain.cmd": " ".join(plain), "plain-out.txt": r1.run.out}))
            return
        if c.sym:
            for n, v in c.defs.items():
                if not any(l.split()[j:j + 2] == [n, "$%04X" % v] for l in r.got[c.sym].decode("latin-1").splitlines() for j in range(0, len(l.split()), 2)):
                    o.violation("%s: the define %s with the value $%04X is not in the symbol file" % (what, n, v), **D.saved(r, **{"sym.txt": r.got[c.sym]}))
                    return
                o.stats["defines seen in symbol files"] += 1
        o.stats["reordered and respelled command lines"] += 1
        o.key(("valid", tuple(g[0] for g in c.opts), tuple(x.lower()[:5] for x in args if x[:1] in "-/")))
    # the image does not depend on the reports asked for
    drop = {x for x in ("-v", "-nowarn", "-log", "-s", "-l") if rng.random() < .5} & sample(c)
    if drop:
        r = run(env, c, c.line(drop=drop))
        o.ev()
        if r.status == "hang":
            o.inconclusive += 1
            return
        want = {f: d for f, d in r1.got.items() if f in c.asked(drop)}
        if r.status != "ok" or {f: d for f, d in r.got.items() if d is not None} != want or r.made != c.asked(drop):
            o.violation("%s: without %s the other files are not the same" % (what, " ".join(sorted(drop))), **D.saved(r))
            return
        o.stats["runs with fewer reports"] += 1
    if c.log:
        if b"Current File" not in r1.got[c.log]:
            o.violation("%s: the log file names no file" % what, **D.saved(r1))
    if len(o.samples) < 2 and i < 10:
        o.samples.append(" ".join(args))


def origin(c):
    """the address of the first byte of the program"""
    import c12
    return int.from_bytes(c12.header_of(c.ref), "little")


FAULTS = ("twice", "no argument", "no input", "unknown", "missing input", "processor", "illegal", "define", "bad value", "too large", "no name")
ARGS = ("-o", "-s", "-l", "-log", "-dir", "-d")


def fault(rng, c, k):
    """(arguments, what is wrong) or None"""
    groups = [[spell(rng, g[0])] + [number(rng, x) if isinstance(x, int) else x for x in g[1:]] for g in c.opts]
    names = [g[0] for g in c.opts]
    ins = [[n] for n in c.inputs]

    def mix(gs, tail=()):
        gs = list(gs)
        rng.shuffle(gs)
        order = iter(ins)
        gs = [next(order) if g in ins else g for g in gs] + list(tail)
        return [x for g in gs for x in g]
    if k == "twice":
        w = rng.choice(("-o", "-s", "-l", "-log", "-dir", "-c64", "-v", "-nowarn", "-i", "-cpu"))
        arg = ["d1"] if w == "-dir" else ["second.out"] if w in ARGS else []
        if w == "-cpu":
            mine = [g for g in c.opts if g[0] not in ("-6502", "-65c02")]
            return mix([[spell(rng, g[0])] + [number(rng, x) if isinstance(x, int) else x for x in g[1:]] for g in mine] + ins +
                       [[spell(rng, rng.choice(("-6502", "-65c02")))] for _ in range(2)]), "two processors"
        add = [[spell(rng, w)] + arg for _ in range(1 if w in names else 2)]
        return mix(groups + ins + add), "%s twice" % w
    if k == "no argument":
        w = rng.choice(ARGS)
        if w in names and w != "-d":
            groups = [g for g, n in zip(groups, names) if n != w]
        last = [spell(rng, w)] + (["half"] if w == "-d" and rng.random() < .5 else [])
        return mix(groups + ins, [last]), "%s without argument" % w
    if k == "no input":
        return mix(groups), "no input"
    if k == "unknown":
        w = rng.choice(("-x", "-out", "--help", "-65c03", "-dd", "-list", "-O2", "-", "--", "-verbose", "-nowarnings", "-c65", "-6502x", "-logfile"))
        return mix(groups + ins + [[w]]), "unknown option %s" % w
    if k == "missing input":
        return mix(groups + ins + [[rng.choice(("nothere.asm", "no/such.asm"))]]), "an input that is not there"
    if k in ("processor", "illegal"):
        w = "-65c02" if k == "processor" else "-i"
        if w not in names or not needs(c, w):
            return None
        return mix([g for g, n in zip(groups, names) if n != w] + ins), "%s needed but not given" % w
    if k == "define":
        c.files["need.asm"] = rng.choice((" .word needed\n", " lda needed\n", " lda #<needed\n", "other = needed + 1\n .word other\n"))
        ins.insert(0, ["need.asm"])
        return mix(groups + ins), "a define needed but not given"
    if k == "bad value":
        w = rng.choice(("xyz", "", "$", "%", "0x", "0b", "$G1", "%102", "12ab", "0xfg", "0b2", "1 2x", "#5", "+", "-", "5;", "$-", "0b-", "value"))
        return mix(groups + ins + [[spell(rng, "-d"), "bad", w]]), "the define value %r" % w
    if k == "too large":
        v = rng.choice((65536, 65537, 0x10000 + rng.randrange(65536), 1 << 24, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + 5, 1 << 64, (1 << 64) + 1, 10 ** 25))
        w = rng.choice(("%d" % v, "$%x" % v, "0x%X" % v, "%" + bin(v)[2:], "0b" + bin(v)[2:]))
        return mix(groups + ins + [[spell(rng, "-d"), "large", w]]), "a define value that does not fit"
    if k == "no name":
        return mix(groups + ins + [[spell(rng, "-d"), "", "5"]]), "a define without name"


def needs(c, w):
    """is the program invalid without this option"""
    p = c.p
    try:
        A.Ref("6502" if w == "-65c02" else p.cpu, False if w == "-i" else p.illegal, {n: v for n, v in p.defines.items() if n != w}).run(p.stmts)
    except A.AsmError:
        return True
    except (KeyError, TypeError):
        return False
    return False


def wrong(env, i, rng, o, c):
    for k in rng.sample(FAULTS, 4):
        f = fault(rng, c, k)
        if not f:
            continue
        args, what = f
        r = run(env, c, args)
        o.ev()
        if not D.must_reject(o, r, "case %d: %s" % (i, what)):
            continue
        made = r.made - ({c.log} if k in ("missing input", "unknown", "processor", "illegal", "define") else set())
        if made:
            o.violation("case %d: %s: refused, but there is %s" % (i, what, sorted(made)), **D.saved(r))
            continue
        if not r.run.err.strip():
            o.violation("case %d: %s: refused without a message" % (i, what), **D.saved(r))
            continue
        o.stats["refused: " + k] += 1
        o.key(("wrong", what, tuple(sorted(sample(c)))))


def helping(env, i, rng, o, c):
    args = c.line()
    # not between an option and its argument
    at, k = [], 0
    while k <= len(args):
        at.append(k)
        if k < len(args):
            a = args[k].lower()[1:] if args[k][:1] in "-/" else ""
            k += {"o": 1, "s": 1, "l": 1, "log": 1, "dir": 1, "d": 2}.get(a, 0)
        k += 1
    args.insert(rng.choice(at), rng.choice(("-?", "/?", "-h", "/H", "-H", "/h")))
    r = run(env, c, args)
    o.ev()
    if r.status == "hang":
        o.inconclusive += 1
    elif r.status != "ok" or r.made or not all(u in r.run.out for u in USAGE):
        o.violation("case %d: asked for help: exit %s, files %s, options not explained: %s" % (i, r.run.rc, sorted(r.made), [u for u in USAGE if u not in r.run.out]), **D.saved(r))
    else:
        o.stats["help"] += 1
        o.key(("help", len(args)))


def warnings(env, i, rng, o):
    """the warning of a branch that became a jump: once for each, with its place, where warnings are on"""
    nowarn = rng.random() < .3
    on = not nowarn
    br = ("bne", "beq", "bcc", "bcs", "bmi", "bpl", "bvc", "bvs")
    want = []
    files = {}
    top = ["t nop", " .fill 0, %d" % rng.randrange(200, 500)]
    block = rng.random() < .5
    if block:
        top = [" .macro far", " %s t" % rng.choice(br), " .endm", " .macro far2", " far", " %s \\1" % rng.choice(br), " .endm", " .var v"] + top
    names = ["a.asm"] + [n for n in ("b.asm", "sub/c.asm") if rng.random() < .4]

    def write(name, lines, depth):
        nonlocal on
        for _ in range(rng.randrange(1, 9)):
            k = rng.randrange(13)
            if k < 4:
                lines.append(" %s t" % rng.choice(br))
                n = len(lines)
                want.extend([(name, n)] * on)
            elif k < 6:
                on = rng.random() < .5
                lines.append(" .%s %s" % (spell(rng, "-warn")[1:], spell(rng, "-on" if on else "-off")[1:]))
            elif k == 6:
                lines += [" bne *", " beq *+5", " jmp t"]
            elif k == 7:
                lines += ["", "; bne t"] * rng.choice((1, 1, 1, 40, 200))
            elif k == 8 and depth < 2:
                f = "i%d.inc" % (len(files) + 1)
                files[f] = ""
                lines.append(' .inc "%s"' % f)
                files[f] = "\n".join(write(f, [], depth + 1)) + "\n"
            elif k == 9 and block:
                lines.append(" far")
                want.extend([(name, len(lines))] * on)
            elif k == 10 and block:
                lines.append(" far2 t + %d" % rng.randrange(3))
                want.extend([(name, len(lines))] * on * 2)
            elif k == 11 and block:
                m = rng.randrange(1, 5)
                lines += [" .for v = 1 .to %d" % m, " %s t" % rng.choice(br), " .next v"]
                want.extend([(name, len(lines))] * on * m)
            elif k == 12:
                lines += [" .if %d" % rng.randrange(2), " nop", " .else", " nop", " .endif"]
        return lines

    for k, n in enumerate(names):
        files[n] = "\n".join(write(n, top if k == 0 else [], 0)) + "\n"
    opts = ["-nowarn"] if nowarn else []
    r = D.asm(env, files, opts, inputs=names, lst="l.lst" if rng.random() < .3 else None, out=None if rng.random() < .2 else "o.bin")
    o.ev()
    if r.status == "hang":
        o.inconclusive += 1
        return
    if r.status != "ok":
        o.violation("case %d: a program of branches was not assembled" % i, **D.saved(r))
        return
    got = [(m[1].decode("latin-1"), int(m[2])) for m in WARNING.finditer(r.run.err)]
    # the place is where the reader has got to
    ok = len(got) == len(want) and all(g[0] == w[0] and w[1] <= g[1] <= w[1] + 2 for g, w in zip(got, want))
    if not ok:
        o.violation("case %d (%s): warnings of branches out of range: expected at %s, got %s" % (
            i, "-nowarn" if nowarn else "no option", want[:12], got[:12]), **D.saved(r))
        return
    o.key(("warnings", nowarn, len(want), len(names), block))
    o.stats["warnings at their place"] += len(want)
    if not want:
        o.stats["programs without a warning"] += 1


def case(env, i, rng):
    o = Out()
    if i % 14 == 13:
        warnings(env, i, rng, o)
        return o
    c = Cmd(env, rng)
    (valid, wrong, valid, wrong, valid, wrong, helping)[i % 7](env, i, rng, o, c)
    return o
