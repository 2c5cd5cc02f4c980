"""C04: a conditional branch reaches its target when taken and the next statement when not, at any distance."""
import asmlib as A
import cpu as C
import drive as D
from common import Out

PROP = "C04"
KINDS = ("plain",)
MIN_KEYS = 300
RULE = ("distinct (branch, distance class, direction, place, encoding form) executed taken and not taken on an emulator over the "
        "emitted image")
ASSUME = ["the labels around each branch are read back from an address table that the program itself emits (checked by C05)"]
EDGE = (0, 1, 2, 120, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 200, 255, 256, 400)


def plan(tier):
    return 7200 if tier == "quick" else 120000


SETUP = {"bpl": ("n", 0), "bmi": ("n", 1), "bvc": ("v", 0), "bvs": ("v", 1), "bcc": ("c", 0), "bcs": ("c", 1), "bne": ("z", 0), "beq": ("z", 1)}


def build(rng, cpu, org):
    """a list of branch sites and filler; every site records b, n (after) and its target"""
    macros, sites, star = [], [], {}
    nsite = rng.randrange(1, 10)
    targets = ["t%d" % k for k in range(nsite)]
    items = []
    far = rng.random() < 0.1 and org < 0x300
    br = list(C.BRANCHES) + (["bra"] if cpu == "65c02" else [])
    for k in range(nsite):
        items.append(("site", k, rng.choice(br)))
        items.append(("tgt", k))
    rng.shuffle(items)
    if rng.random() < 0.6:       # bring some pairs close to the edge of the range
        k = rng.randrange(nsite)
        a = ("site", k, rng.choice(br))
        items = [x for x in items if x[:2] not in (("site", k), ("tgt", k))]
        pair = [a, ("fill", rng.choice(EDGE)), ("tgt", k)]
        if rng.random() < 0.5:
            pair.reverse()
        p = rng.randrange(len(items) + 1)
        items[p:p] = pair
    body = []
    if far:                      # targets at the other end of the memory
        items.insert(rng.randrange(len(items) + 1), ("fill", rng.choice((0x3FF0, 0x7F00, 0x7F80, 0x8000, 0x8100, 0xC000, rng.randrange(0x1000, 0xD000)))))
    for it in items:
        if rng.random() < 0.6:
            n = rng.choice(EDGE) if rng.random() < 0.5 else rng.randrange(0, 150)
            k = rng.random()
            if n and k < 0.7:
                body.append(("fill", ("n", 0xEA), ("n", n)))
            elif n:
                body += [("op", "lda", "e", ("n", 0x1234))] * min(n // 3, 60)
        if it[0] == "fill":
            if it[1]:
                body.append(("fill", ("n", 0xEA), ("n", it[1])))
        elif it[0] == "tgt":
            body.append(("lab", "t%d" % it[1]))
        else:
            _, k, mn = it
            place = rng.choice(("plain", "plain", "macro", "loop", "if", "expr", "label", "star"))
            body.append(("lab", "b%d" % k))
            t = ("s", "t%d" % k)
            if place == "star":
                # the distance from the branch itself, in a macro and a loop too
                d = rng.choice((5, 9, 100, 126, 127, 128, 129, 130, 131, 200, 300, rng.randrange(5, 3000)))
                if org >= 0x1000 and rng.random() < 0.5:
                    d = -rng.choice((1, 100, 125, 126, 127, 128, 130, 131, 200, rng.randrange(1, 3000)))
                star[k] = d
                e = ("b", "+", ("pc",), ("n", d)) if d > 0 else ("b", "-", ("pc",), ("n", -d))
                how = rng.randrange(3)
                if how == 0:
                    body.append(("op", mn, "e", e))
                elif how == 1:
                    macros.append(("macro", "mac%d" % k, [("op", mn, "e", e)]))
                    body.append(("call", "mac%d" % k, []))
                else:
                    macros.append(("var", [("v%d" % k, ("n", 0))]))
                    body.append(("for", "v%d" % k, ("n", 1), ("n", 1), None, [("op", mn, "e", e)]))
            elif place == "macro":
                macros.append(("macro", "mac%d" % k, [("op", mn, "e", ("p", 1))] if rng.random() < 0.5 else [("op", mn, "e", t)]))
                body.append(("call", "mac%d" % k, [t]))
            elif place == "loop":
                macros.append(("var", [("v%d" % k, ("n", 0))]))
                body.append(("for", "v%d" % k, ("n", 1), ("n", 1), None, [("op", mn, "e", t)]))
            elif place == "if":
                body.append(("if", ("n", 1), [("op", mn, "e", t)], None))
            elif place == "expr":
                d = rng.randrange(0, 4)
                body.append(("op", mn, "e", ("b", "-", ("b", "+", t, ("n", d)), ("n", d))))
            elif place == "label":
                body.append(("l", "x%d" % k, ("op", mn, "e", t)))
            else:
                body.append(("op", mn, "e", t))
            body.append(("lab", "n%d" % k))
            sites.append((k, mn, place))
    # a macro or a loop body with its own near and far target, used several times
    local = []
    if rng.random() < 0.5:
        n = rng.choice(EDGE)
        mn = rng.choice(br)
        fwd = rng.random() < 0.5
        fill = [("fill", ("n", 0xEA), ("n", n))] if n else [("op", "nop", "none", None)]
        if fwd:
            macros.append(("macro", "lm", [("op", mn, "e", ("loc", "@q"))] + fill + [("lab", "@q"), ("op", "nop", "none", None)]))
        else:
            macros.append(("macro", "lm", [("lab", "@q")] + fill + [("op", mn, "e", ("loc", "@q")), ("op", "nop", "none", None)]))
        for u in range(rng.randrange(1, 4)):
            body += [("lab", "u%d" % u), ("call", "lm", []), ("lab", "w%d" % u)]
            local.append((u, mn, fwd, n or 1, "macro local"))
    # the same with a local, + or - label outside macros, often at the first address of the program
    for u in range(10, 10 + rng.choice((0, 1, 1, 2))):
        n = rng.choice(EDGE)
        mn = rng.choice(br)
        fwd = rng.random() < 0.3
        fill = [("fill", ("n", 0xEA), ("n", n))] if n else [("op", "nop", "none", None)]
        how = rng.choice(("local", "pm", "label"))
        if how == "pm":
            lab, t = ("lab", "+" if fwd else "-"), ("pm", "+" if fwd else "-", 1)
        elif how == "local":
            lab, t = ("lab", "@z"), ("loc", "@z")
        else:
            lab, t = ("lab", "z%d" % u), ("s", "z%d" % u)
        inner = ([("op", mn, "e", t)] + fill + [lab, ("op", "nop", "none", None)] if fwd else
                 [lab] + fill + [("op", mn, "e", t), ("op", "nop", "none", None)])
        blk = [("lab", "u%d" % u)] + inner + [("lab", "w%d" % u)]
        body = blk + body if u == 10 and rng.random() < 0.7 else body + blk
        local.append((u, mn, fwd, n or 1, how))
    table = [("word", [("s", "b%d" % k),
                       ("b", "+", ("s", "b%d" % k), ("n", star[k])) if star.get(k, 0) > 0 else
                       ("b", "-", ("s", "b%d" % k), ("n", -star[k])) if k in star else ("s", "t%d" % k),
                       ("s", "n%d" % k)]) for k, _, _ in sites]
    table += [("word", [("s", "u%d" % u), ("s", "w%d" % u)]) for u, _, _, _, _ in local]
    return macros + body, table, sites, local


def take(emu, mn, start, stop, taken):
    """where execution that starts at the branch leaves [start, stop)"""
    if mn != "bra":
        f, v = SETUP[mn]
        setattr(emu, f, v if taken else 1 - v)
    emu.pc = start
    for _ in range(4):
        emu.step()
        if not start <= emu.pc < stop:
            return emu.pc
    return None


def case(env, i, rng):
    o = Out()
    cpu = rng.choice(("6502", "6502", "65c02"))
    org = rng.choice((0x1000, 0x200, 0x2F80, 0x8000, 0xC0F0, 0, 0, 0, rng.randrange(1, 0x200), rng.randrange(0x200, 0xC000)))
    prog, table, sites, local = build(rng, cpu, org)
    full = [("setpc", ("n", org))] + prog + table
    st = rng.choice((A.PLAIN, A.PLAIN, A.Style.mild(rng)))
    res = D.asm(env, A.render(full, st), D.copts(cpu))
    if res.status == "hang":
        o.inconclusive += 1
        return o
    o.ev(len(sites) + len(local))
    if res.status != "ok":
        o.violation("a program of branches was not assembled (%s)" % res.status, **D.saved(res))
        return o
    img = res.image
    nt = 6 * len(sites) + 4 * len(local)
    tab = img[len(img) - nt:]
    w = lambda k: tab[k] | tab[k + 1] << 8
    emu = C.Emu(C.CMOS if cpu == "65c02" else C.NMOS)
    emu.mem[org:org + len(img)] = img
    longs = 0
    try:
        for j, (k, mn, place) in enumerate(sites):
            b, t, n = w(6 * j), w(6 * j + 2), w(6 * j + 4)
            size = n - b
            if not (org <= b < n <= org + len(img)) or size not in (2, 3, 5):
                o.violation("%s at $%04X occupies %d bytes" % (mn, b, size), **D.saved(res))
                return o
            got = take(emu, mn, b, n, True)
            # a branch to itself or to its own end is taken in one step
            if got is None and t == b:
                got = b
            if got != t:
                o.violation("%s (%s) at $%04X when taken goes to %s instead of $%04X: %s" % (
                    mn, place, b, "nowhere" if got is None else "$%04X" % got, t, D.hx(img[b - org:n - org])), **D.saved(res))
                return o
            if mn != "bra":
                got = take(emu, mn, b, n, False)
                if got != n:
                    o.violation("%s (%s) at $%04X when not taken goes to %s instead of $%04X: %s" % (
                        mn, place, b, got, n, D.hx(img[b - org:n - org])), **D.saved(res))
                    return o
            # measured in the finished layout (a forward branch that was made longer moves its own target, which
            # is a consistent solution even where the short form would just have reached)
            disp = t - (b + 2)
            if size == 2 and not -128 <= disp <= 127:
                o.violation("%s (%s) at $%04X to $%04X has no jump (displacement %d)" % (mn, place, b, t, disp), **D.saved(res))
                return o
            if size > 2:
                longs += 1
                if -128 <= disp <= 127:
                    o.violation("%s (%s) at $%04X to $%04X needs no jump (displacement %d)" % (mn, place, b, t, disp), **D.saved(res))
                    return o
            c = disp if abs(disp) < 3 or 120 <= abs(disp) <= 135 else disp // 32
            o.key((mn, c, place, size))
            o.stats["size %d" % size] += 1
            if disp in (-128, 127, -129, 128):
                o.stats["edge %d" % disp] += 1
        for j, (u, mn, fwd, gap, how) in enumerate(local):
            k = 6 * len(sites) + 4 * j
            s, e = w(k), w(k + 2)
            size = e - s - gap - 1
            if size not in (2, 3, 5):
                o.violation("%s with %s: %d bytes" % (how, mn, e - s), **D.saved(res))
                return o
            b = s if fwd else s + gap
            want = e - 1 if fwd else s
            got = take(emu, mn, b, b + size, True)
            if got != want:
                o.violation("%s use %d: %s at $%04X goes to %s instead of $%04X" % (how, u, mn, b, got, want), **D.saved(res))
                return o
            longs += size > 2
            if size > 2 and (gap + size - 2 <= 127 if fwd else gap + 2 <= 128):
                o.violation("%s use %d: %s over %d bytes has %d bytes" % (how, u, mn, gap, size), **D.saved(res))
                return o
            o.key((how, org == 0, mn, fwd, gap, size, u))
    except C.Halt as e:
        o.violation("execution of a branch ended at %s" % e, **D.saved(res))
        return o
    warned = b"ranch out of range" in res.run.out + res.run.err
    if warned != bool(longs):
        o.violation("%d branches were rewritten, warning %s" % (longs, "printed" if warned else "missing"), **D.saved(res))
    if longs and len(o.samples) < 1:
        o.samples.append("%d sites, %d rewritten, image %d bytes" % (len(sites) + len(local), longs, len(img)))
    return o
