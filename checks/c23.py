"""C23: integer, character and string literals rendered from known values in every format; malformed ones must be refused."""
import drive as D
from common import Out

PROP = "C23"
KINDS = ("plain", "asan")
MIN_KEYS = 500
RULE = ("distinct (format, value class, width) of integer literals and (characters, escapes, length) of strings whose bytes in the image were the value written; "
        "and distinct malformed literals by context that were refused")
ESC = {7: "a", 8: "b", 12: "f", 11: "v", 13: "r", 10: "n", 9: "t", 39: "'", 34: '"', 92: "\\"}
HEX = "0123456789abcdefABCDEF"
EDGE = [0, 1, 2, 7, 8, 9, 10, 15, 16, 99, 100, 127, 128, 254, 255, 256, 257, 999, 1000, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 99999, 0xFFFFFF, 0x1000000,
        0x7FFFFFFE, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFE, 0xFFFFFFFF, 0x0A0B0C0D, 0xDEADBEEF, 0x12345678, 4000000000, 2147483648, 1000000000]


def plan(tier):
    return 15000 if tier == "quick" else 150000


def caps(rng, s):
    k = rng.randrange(3)
    return s.upper() if k == 0 else s.lower() if k == 1 else "".join(c.upper() if rng.random() < .5 else c.lower() for c in s)


def zeros(rng):
    return "0" * rng.choice((0, 0, 0, 1, 2, 3, 7, 8, 9, 30, 60))


def integer(rng, v):
    """(text, format) of a literal with this value"""
    fs = ["dec", "hex", "bin", "0b"]
    if v < 256:
        fs += ["xchar", "xchar"]
        if v in ESC:
            fs += ["echar", "estr"]
        if 0 < v < 256 and v not in (10, 13, 92):
            fs += ["char"] * 2
            if v != 34:
                fs.append("str1")
        fs.append("oct")
    if v < 65536:
        fs.append("xchar4")
    f = rng.choice(fs)
    if f == "dec":
        return zeros(rng) + str(v), f
    if f == "hex":
        return "$" + zeros(rng) + caps(rng, "%x" % v), f
    if f == "bin":
        return "%" + zeros(rng) + "{:b}".format(v), f
    if f == "0b":
        return caps(rng, "0b") + zeros(rng) + "{:b}".format(v), f
    if f in ("xchar", "xchar4"):
        return "'\\" + rng.choice("xX") + zeros(rng) + caps(rng, "%x" % v) + "'", f
    if f == "oct":
        return "'\\%03o'" % v, f
    if f in ("echar", "estr"):
        q = "'" if f == "echar" else '"'
        e = ESC[v]
        return q + "\\" + (rng.choice((e, e.upper())) if e.isalpha() else e) + q, f
    q = "'" if f == "char" else '"'
    return q + chr(v) + q, f


def string(rng):
    """(text, bytes, escapes used)"""
    n = rng.choice((0, 2, 2, 3, 4, 5, 8, 16, 40, 255, 256, 257, 300, 1000))
    mode = rng.randrange(4)
    t, b, used = [], [], set()
    hexrun = False                     # the text so far ends in a hex escape
    while len(b) < n:
        v = rng.choice((rng.randrange(32, 127), rng.randrange(32, 127), rng.randrange(256), rng.choice(list(ESC)), rng.choice((0, 0, 1, 127, 128, 255, 48, 65, 97, 59, 47, 44))))
        raw = v not in (0, 10, 13, 34, 92) and (v >= 32 or v == 9)
        if hexrun and chr(v) in HEX:
            raw = False
        k = rng.randrange(6)
        if raw and k < (5 if mode < 2 else 2):
            t.append(chr(v))
            used.add("raw" if v < 128 else "high")
            hexrun = False
        elif v in ESC and k < 5:
            e = ESC[v]
            t.append("\\" + (rng.choice((e, e.upper())) if e.isalpha() else e))
            used.add(e)
            hexrun = False
        elif k == 5 and v < 16 and len(b) + 1 == n:
            t.append("\\x%x" % v)      # a single digit at the end
            used.add("x1")
            hexrun = True
        else:
            m = rng.choice((1, 1, 1, 2, 3)) if len(b) + 3 < n else 1
            if n >= 40 and rng.random() < .05:
                m = rng.choice((8, 15, 16, 17, 31, 32, 33, 64, 128, 255, 256, 300))      # one escape with many bytes
            vs = [v] + [rng.randrange(256) for _ in range(m - 1)]
            t.append("\\" + rng.choice("xX") + "".join(caps(rng, "%02x" % w) for w in vs))
            used.add("x%d" % min(m, 2))
            b += vs[:-1]
            v = vs[-1]
            hexrun = True
        b.append(v)
    return '"' + "".join(t) + '"', bytes(b), used


def big(rng):
    v = rng.choice((1 << 32, (1 << 32) + 1, (1 << 33) - 1, 1 << 40, (1 << 63) - 1, 1 << 63, 1 << 64, (1 << 64) + 5, 10 ** 25, (1 << 32) + rng.randrange(1 << 32), (1 << 64) + rng.randrange(256), rng.randrange(1 << 32, 1 << 70)))
    f = rng.choice(("dec", "hex", "bin", "0b", "xchar"))
    t = {"dec": zeros(rng) + str(v), "hex": "$" + zeros(rng) + caps(rng, "%x" % v), "bin": "%{:b}".format(v), "0b": "0b{:b}".format(v), "xchar": "'\\x%x'" % v}[f]
    return t, "more than 32 bits (%s)" % f


def malformed(rng):
    if rng.random() < .3:
        return big(rng)
    t = rng.choice(("$", "%", "0b", "0b2", "0b12", "%2", "%12", "%1.1", "12ab", "1_0", "$G", "$fg", "$1.5", "1e5", "12$", "1%1", "'", "''", "'ab'", "'abc'", '"abc', "'a", "a'", '"', "\\", "\\n", "'\\", '"\\',
                    "'\\q'", '"\\q"', '"ab\\qcd"', '"\\8"', "'\\x'", '"\\x"', '"\\xg"', "'\\xg1'", "'\\x1g'", "'\\400'", "'\\777'", '"\\"', "'\\'", "'\\n\"", "\"\\n'", "'a\"", "\"ab'", "'\\18'", "#1", "`1`", "@", "1 2", "$ 12", "% 1", "1..2",
                    '"\\z"', '"\\-"', "'\\ '", '"\\ "', "'\\w'", '"abc\\', "$$12", "%%1", "0b0b1", "''''", "0x12", "0x", "$0x12"))
    return t, t


CTX = [" .byte {}", " .byte 1, {}", " .word {}, 2", " lda #{}", " lda {}", " sta {},x", "sym1 = {}", " .byte 1 + {}", " .byte ({}) * 1", " .fill 1, {}", " .str 1, {}", " .var v = {}", "sym1 .equ {}"]


def case(env, i, rng):
    o = Out()
    kind = "asan" if rng.random() < .15 else "plain"
    if i % 3 == 2:
        t, what = malformed(rng)
        ctx = rng.choice(CTX)
        if t == "#1":
            ctx = " .word {}"          # lda #1 is an instruction
        if t in ("'\\400'", "'\\777'"):
            ctx = " .byte {}"          # 256 and more is a value, but not a byte
        pre = [" .byte 1", " nop", "lab1 .byte 'x'", ' .str "ab"']
        pre = [rng.choice(pre[:2]) for _ in range(rng.randrange(3))]
        post = ["", " .byte 2", " nop"]
        res = D.asm(env, {"a.asm": " * = $1000\n" + "".join(p + "\n" for p in pre) + ctx.format(t) + "\n" + rng.choice(post) + "\n"}, kind=kind)
        o.ev()
        if D.must_reject(o, res, "malformed literal %s in '%s'" % (t, ctx)):
            o.key(("bad", what, ctx))
            o.stats["malformed literals refused"] += 1
            if i < 12:
                o.samples.append("refused: " + ctx.format(t))
        return o
    lines, exp, keys = [" * = $1000"], [], []
    if i % 3 == 0:
        for k in range(rng.randrange(5, 60)):
            v = rng.choice((rng.choice(EDGE), rng.choice(EDGE), rng.randrange(256), rng.randrange(256), rng.randrange(65536), rng.randrange(1 << 32), 1 << rng.randrange(32), rng.choice(list(ESC))))
            t, f = integer(rng, v)
            keys.append((f, v if v < 256 else v.bit_length(), len(t)))
            o.stats["integer literals " + f] += 1
            how = rng.randrange(5)
            if how == 0 and v < 256:
                lines.append(rng.choice((" .byte ", " .db ")) + t)
                exp.append(v)
            elif how == 1 and v < 65536:
                lines.append(rng.choice((" .word ", " .dw ")) + t)
                # in a word list a one character string is its character, too
                exp += [v & 255, v >> 8]
            elif how == 2 and v < 256:
                lines.append(" lda #" + t)
                exp += [0xA9, v]
            else:
                n = t
                if how == 3 and v < 65536:
                    n = "s%d" % k
                    d = n + rng.choice((" = ", " .equ ", "=")) + t
                    if rng.random() < .5 and v < 0x8000:
                        lines.append(d)
                        d = None
                    else:
                        lines.append(d)
                        d = None
                lines.append(" .byte {0} & 255, ({0} >> 8) & 255, ({0} >> 16) & 255, ({0} >> 24) & $FF".format(n))
                exp += [v & 255, v >> 8 & 255, v >> 16 & 255, v >> 24]
            if len(o.samples) < 2 and i < 12:
                o.samples.append("%r is %d" % (t, v))
    else:
        for k in range(rng.randrange(1, 12)):
            t, b, used = string(rng)
            w = rng.choice((".str", ".text", ".string", ".byte", ".db", ".word", ".dw"))
            items = [t]
            bs = [b]
            for _ in range(rng.choice((0, 0, 0, 1, 3))):
                if rng.random() < .5:
                    v = rng.randrange(256)
                    x, f = integer(rng, v)
                    bb = bytes([v]) if w not in (".word", ".dw") else bytes([v, 0])
                else:
                    x, bb, u2 = string(rng)
                    bb = bb if len(bb) < 200 else b""
                    if not bb:
                        continue
                    used |= u2
                items.append(x)
                bs.append(bb)
            sep = rng.choice((",", ", ", " , "))
            if len(sep.join(items)) > 6000:
                items, bs = [t], [b]
            lines.append(" " + w + " " + sep.join(items))
            for x, bb in zip(items, bs):
                if len(bb) == 1 and x[0] == '"' and w in (".word", ".dw"):
                    # a string of one character is padded as a word has to be
                    bb = bb + b"\0"
                if w in (".word", ".dw") and len(bb) % 2:
                    bb += b"\0"
                exp += bb
            keys.append((w, tuple(sorted(used)), len(b).bit_length()))
            o.stats["strings"] += len(items)
            o.stats["characters"] += sum(map(len, bs))
            for u in used:
                o.stats["escape " + u if u not in ("raw", "high") else u + " characters"] += 1
    exp = bytes(exp)
    res = D.asm(env, {"a.asm": "\n".join(lines) + "\n"}, kind=kind)
    if res.status == "hang":
        o.inconclusive += 1
        return o
    o.ev(len(keys))
    if res.status != "ok":
        o.violation("well formed literals were refused (%s, exit %s)" % (res.status, res.run.rc), **D.saved(res))
    elif res.image != exp:
        o.violation("literals: %s" % D.diff(exp, res.image), **D.saved(res, **{"expected.bin": exp}))
    else:
        for k in keys:
            o.key(k)
    return o
