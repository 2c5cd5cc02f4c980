"""C01: every instruction of the selected processor has exactly its defined bytes; everything else is refused."""
import asmlib as A
import cpu as C
import drive as D
from common import Out

PROP = "C01"
KINDS = ("plain",)
MIN_KEYS = 500
RULE = ("distinct (processor selection, mnemonic, addressing mode) accepted and matched byte for byte, plus distinct "
        "(selection, mnemonic, operand syntax) refused with nonzero exit")
ASSUME = ["with the 65C02 selected and illegal opcodes allowed at the same time, NMOS undocumented opcodes are taken (not judged)"]

CONFIGS = [("6502", False), ("6502", True), ("65c02", False)]
SYN_OF = {"imp": ["none"], "acc": ["a", "none"], "imm": ["#"], "zp": ["e"], "abs": ["e"], "zpx": ["e,x"], "abx": ["e,x"],
          "zpy": ["e,y"], "aby": ["e,y"], "ind": ["(e)"], "izp": ["(e)"], "izx": ["(e,x)"], "iax": ["(e,x)"], "izy": ["(e),y"],
          "rel": ["e"]}
ALL_MN = sorted({m for m, _ in C.NMOS_ILL} | {m for m, _ in C.CMOS})
ILL_MN = {m for m, _ in C.ILLEGAL} - {m for m, _ in C.NMOS}


def rejects():
    out = []
    for cpu, ill in CONFIGS:
        tab = C.table(cpu, ill)
        for mn in ALL_MN:
            for syn in C.SYNTAX:
                if not C.exists(tab, mn, syn):
                    out.append((cpu, ill, mn, syn))
    return out


REJ = rejects()
PER = 24
NREJ = (len(REJ) + PER - 1) // PER


def plan(tier):
    return NREJ + 1 + (12000 if tier == "quick" else 100000)


def operand(rng, mode):
    if mode in ("imp", "acc"):
        return None
    if mode in ("abs", "abx", "aby", "ind", "iax"):
        v = rng.choice((0x100, 0xFFFF, 0x101, 0xFF00, 0x8000, 0x7FFF, 0xD020, rng.randrange(0x100, 0x10000), rng.randrange(0x100, 0x10000)))
    elif mode == "imm" and rng.random() < 0.2:
        v = -rng.randrange(1, 129)
    else:
        v = rng.choice((0, 1, 0x7F, 0x80, 0xFE, 0xFF, rng.randrange(256), rng.randrange(256)))
    return ("n", v)


def accept(env, o, rng):
    cpu, ill = rng.choice(CONFIGS)
    tab = C.table(cpu, ill)
    # how the selection is made: the command line, or a directive that overrides it
    via = rng.choice(("option", "directive", "both"))
    pre = []
    optcpu, optill = cpu, ill
    if via != "option":
        pre.append(("cpu", cpu))
        if cpu == "6502":
            pre.append(("illegal", ill))
        optcpu = cpu if via == "both" else rng.choice(("6502", "65c02"))
        optill = ill if via == "both" else rng.random() < 0.5
    items = sorted(tab.items())
    rng.shuffle(items)
    items = items[: rng.choice((40, 120, len(items)))]
    body = []
    seen = []
    k = 0
    for (mn, mode), b in items:
        if mode == "rel":
            k += 1
            lab = "t%d" % k
            st = ("op", mn, "e", ("s", lab))
            pad = [("op", "nop", "none", None)] * rng.randrange(0, 5)
            body += [("lab", lab)] + pad + [st] if rng.random() < 0.5 else [st] + pad + [("lab", lab)]
        else:
            e = operand(rng, mode)
            syn = rng.choice(SYN_OF[mode])
            body.append(("op", mn, syn, e))
        seen.append((cpu, ill, mn, mode))
    ref = A.Ref(optcpu, optill).run(pre + body)
    st = rng.choice((A.PLAIN, A.Style.mild(rng), A.Style.wild(rng)))
    res = D.asm(env, A.render(pre + body, st), D.copts(optcpu, optill))
    o.ev(len(seen))
    if D.compare(o, res, ref, "%s%s via %s" % (cpu, " -i" if ill else "", via)):
        for s in seen:
            o.key(s)
        o.stats["accepted"] += len(seen)
    # a later switch back must be effective too
    if cpu == "65c02" and rng.random() < 0.5 or ill and cpu == "6502":
        if cpu == "65c02":
            mn, mode, b = rng.choice([(m, d, b) for (m, d), b in C.CMOS.items() if (m, d) not in C.NMOS and not C.exists(C.NMOS, m, SYN_OF[d][0])])
            off = ("cpu", "6502")
            base = [off]
            opts = D.copts("65c02")
        else:
            mn, mode, b = rng.choice([(m, d, b) for (m, d), b in C.ILLEGAL.items() if m in ILL_MN])
            base = [("illegal", False)]
            opts = D.copts("6502", True)
        line = ("op", mn, SYN_OF[mode][0], ("n", 0x12) if mode not in ("imp", "acc") else None)
        if mode == "rel":
            line = ("op", mn, "e", ("pc",))
            line = ("op", mn, "e", ("n", 0x1001))
        res = D.asm(env, A.render([("op", "nop", "none", None)] + base + [line]), opts)
        o.ev()
        if D.must_reject(o, res, "%s %s after switching the extension off" % (mn, mode)):
            o.key(("off", mn, mode))
            o.stats["refused after switch"] += 1


def context(rng, line):
    k = rng.randrange(5)
    nop = ("op", "nop", "none", None)
    if k == 0:
        return [line]
    if k == 1:
        return [nop] * 3 + [line] + [nop]
    if k == 2:
        return [("macro", "mm", [nop, line]), nop, ("call", "mm", [])]
    if k == 3:
        return [nop, ("if", ("n", 1), [line], [nop])]
    return [("l", "lab", line), nop]


def reject(env, o, k, rng):
    for cpu, ill, mn, syn in REJ[k * PER:(k + 1) * PER]:
        e = None if syn in ("none", "a") else ("n", rng.choice((0, 1, 0x42, 0xFF, 0x1002)))
        if e and syn in ("(e)", "(e,x)", "(e),y", "#") and e[1] > 255:
            e = ("n", 0x34)
        prog = context(rng, ("op", mn, syn, e))
        res = D.asm(env, A.render(prog), D.copts(cpu, ill))
        o.ev()
        if D.must_reject(o, res, "%s%s: %s with operand form '%s'" % (cpu, " -i" if ill else "", mn, syn)):
            o.key(("rej", cpu, ill, mn, syn))
            o.stats["refused"] += 1


def segments(env, o, rng):
    """several switches in one source: each takes effect from its line on, whatever the source begins or ends with"""
    cpu, ill = optcpu, optill = rng.choice(CONFIGS)
    body, seen = [], []
    k = 0
    for seg in range(rng.randrange(2, 6)):
        tab = C.table(cpu, ill)
        other = [c for c in CONFIGS if c != (cpu, ill)]
        items = sorted(tab.items())
        # preferably what another selection lacks
        special = [x for x in items if x[0] not in C.table(*rng.choice(other))]
        for (mn, mode), b in rng.sample(items, rng.randrange(0, 8)) + (rng.sample(special, min(len(special), rng.randrange(0, 8)))):
            if mode == "rel":
                k += 1
                body += [("lab", "t%d" % k), ("op", mn, "e", ("s", "t%d" % k))]
            else:
                body.append(("op", mn, rng.choice(SYN_OF[mode]), operand(rng, mode)))
            seen.append((cpu, ill, mn, mode, seg))
        was = (cpu, ill)
        cpu, ill = rng.choice(other)
        if cpu != was[0]:
            body.append(("cpu", cpu))
        if cpu == "6502":
            # the illegal opcodes stay as they were while the 65C02 is selected
            body.append(("illegal", ill))
        elif was[1]:
            body.append(("illegal", False))
    ref = A.Ref(optcpu, optill).run(body)
    st = rng.choice((A.PLAIN, A.Style.mild(rng), A.Style.wild(rng)))
    res = D.asm(env, A.render(body, st), D.copts(optcpu, optill))
    o.ev(len(seen))
    if D.compare(o, res, ref, "switches, first %s%s" % (optcpu, " -i" if optill else "")):
        for s in seen:
            o.key(("seg",) + s)
        o.stats["accepted with switches"] += len(seen)


def known(env, o):
    """defects of the current tree, listed in known_findings.txt"""
    for k in range(8):
        for mn, op in (("bbr%d" % k, 0x0F + 16 * k), ("bbs%d" % k, 0x8F + 16 * k)):
            res = D.asm(env, {"a.asm": "    nop\nt\n    %s $12,t\n" % mn}, D.copts("65c02"))
            o.ev()
            if res.status != "ok" or res.image != bytes([0xEA, op, 0x12, 0xFD]):
                o.violation("65c02: %s $12,t is not assembled as %02X 12 FD" % (mn, op), known_key="bbx", **D.saved(res))
            else:
                o.key(("65c02", mn))
            # the one-operand form that is accepted today must not change to other bytes silently


def case(env, i, rng):
    o = Out()
    if i < NREJ:
        reject(env, o, i, rng)
    elif i == NREJ:
        known(env, o)
    elif i % 3 == 0:
        segments(env, o, rng)
    else:
        accept(env, o, rng)
    return o
