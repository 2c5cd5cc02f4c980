"""C13: a program with an error is refused with a message at its place; the same program without it is accepted silently."""
import re
import asmlib as A
import drive as D
import gen as G
from common import Out

PROP = "C13"
KINDS = ("plain",)
MIN_KEYS = 400
RULE = ("distinct (kind of error, place it was planted in) whose program was refused with nonzero exit and a message (with the right file and line "
        "where the error is one of a single line at the top level), while the program without it was accepted without any error message")
NEAR = re.compile(r"File (\S+) near line (\d+)")

# (what, line, the message has to name the line)
ERR = [
    ("an operand missing", " lda #", 1), ("an item missing", " .byte", 1), ("an item missing", " .byte 1,,2", 1), ("an item missing", " .word 1,", 1),
    ("words that are no statement", " nop nop", 1), ("a bracket missing", " lda (5", 1), ("a bracket missing", " .word (1 + 2", 1),
    ("a bracket too many", " .word 1 + 2)", 1), ("an operator without operand", " .word 1 +", 1), ("an operator without operand", " .byte * 2 /", 1),
    ("an unknown index", " lda 5,z", 1), ("an unknown directive", " .foo 1", 1), ("a character that means nothing", " nop `", 1),
    ("an unterminated string", ' .byte "abc', 1), ("an empty fill", " .fill 5", 1), ("a fill of nothing", " .fill", 1),
    ("a value without name", " = 5", 1), ("an unknown escape", ' .byte "a\\qb"', 0),
    ("a mode that does not exist", " sta #5", 1), ("a mode that does not exist", " jmp ($1234),y", 1), ("a mode that does not exist", " lsr ($12,x)", 1),
    ("a mode that does not exist", " inx 5", 1), ("a mode that does not exist", " ldx $1234,x", 1), ("a mode that does not exist", " rts a", 1),
    ("a mode that does not exist", " stx $1234,y", 0), ("a mode that does not exist", " lda ($1234,x)", 0),
    ("a byte that does not fit", " .byte 256", 1), ("a byte that does not fit", " .byte 1,2,-256,4", 1), ("a byte that does not fit", " .db $1000", 1),
    ("a byte that does not fit", " .byte 255 + 1", 1), ("a word that does not fit", " .word 65536", 1), ("a word that does not fit", " .word 1,$12345", 1),
    ("a word that does not fit", " .word -65536", 1), ("a word that does not fit", " .word 300 * 300", 1),
    ("an immediate value that does not fit", " lda #256", 1), ("an immediate value that does not fit", " ldx #-256", 1),
    ("an immediate value that does not fit", " cmp #$1234", 1), ("an address that does not fit", " lda $10000", 1), ("an address that does not fit", " jmp 65536", 1),
    ("an address that does not fit", " sta $12345,x", 1), ("an address that does not fit", " lda ($100),y", 1),
    ("a symbol that does not fit", "toolarge = $10000", 1), ("a symbol that does not fit", "toosmall = -5", 0),
    ("a fill byte that does not fit", " .fill 256,1", 1), ("a fill byte that does not fit", " .fill -1,1", 1), ("a negative count", " .fill 1,-1", 1),
    ("a negative count", " .ds -1", 1), ("a division by zero", " .word 1 / 0", 1), ("a division by zero", " .byte 5 / (3 - 3)", 1),
    ("a shift too far", " .word 1 << 32", 1), ("a shift too far", " .word 1 >> -1", 1), ("a literal that is too large", " .word $100000000", 1),
    ("a name that is not defined", " jmp nowhere", 0), ("a name that is not defined", " .byte nowhere", 0), ("a name that is not defined", " .word nowhere + 1", 0),
    ("a name that is not defined", " lda nowhere,x", 0), ("a name that is not defined", " lda #<nowhere", 0), ("a name that is not defined", " bne nowhere", 0),
    ("a name that is not defined", "other = nowhere + 2", 0), ("a name that is not defined", " jmp @nowhere9", 0), ("a name that is not defined", " jmp (nowhere)", 0),
    ("a name of another section", " .word nosec.nolab", 0),
    ("a macro that is not defined", " nosuchmacro 1", 1),
    ("no such + label", " jmp +++++++++", 0), ("no such - label", " jmp ---------", 0),
    ("a missing include", ' .inc "nope.inc"', 0), ("a missing binary", ' .load "nope.bin"', 0),
    ("the end of a block that is not open", " .endif", 1), ("the end of a block that is not open", " .next i", 1), ("the end of a block that is not open", " .until 1", 1),
    ("the end of a block that is not open", " .wend", 1), ("the end of a block that is not open", " .endm", 1), ("the end of a block that is not open", " .else", 1),
    ("a block that is not closed", " .if 1\n nop", 0), ("a block that is not closed", " .macro q\n nop", 0), ("a block that is not closed", " .repeat\n nop", 0),
    ("a block that is not closed", " .while 0\n nop", 0), ("a block that is not closed", " .do\n nop", 0), ("a block that is not closed", " .for .regx = 1 .to 2\n nop", 0),
    ("a block that is not closed", ".ifndef notdefinedanywhere", 0), ("a block that is not closed", ".ifdef notdefinedanywhere", 0),
    ("a block that is not closed", ".ifndef notdefinedanywhere\n nop\n.else", 0), ("a block that is not closed", ".ifdef nop\n.ifdef hidden\n.endif", 0),
    ("a comment that is not closed", " /* nop", 0), ("two definitions", "twice = 1\ntwice = 2", 0), ("two definitions", "twice nop\n nop\ntwice nop", 0),
    ("two origins", " .org $1000\n .org $2000", 1), ("two origins", " .org $3000\n nop\n .org $3000", 1), ("two origins", " .org $800\n .byte 1,2,3\n .org $C000", 1),
    ("two origins", " .org $C000\n .byte 1,2,3\n* = $1000\n .org $2000", 1),
    ("the end of a block that is not open", " .ends", 1), ("the end of a block that is not open", " .section endtwice\n nop\n .ends\n .ends", 1),
    ("the end of a block that is not open", " .section endouter\n .section endinner\n nop\n .ends\n .ends\n nop\n .ends", 1),
    ("another variable at the end of a loop", " .var vari,varj\n .for vari = 1 .to 3\n nop\n .next varj", 0),
    ("another variable at the end of a loop", " .var vari,varj=9\n .for varj = 1 .to 3 .step 2\n nop\n .next vari", 0),
    ("another variable at the end of a loop", " .var vari,varj\n .for vari = 1 .to 3\n .for varj = 1 .to 2\n nop\n .next vari\n .next varj", 0),
    ("another register at the end of a loop", " .for .regx = 1 .to 3\n nop\n .next y", 1),
    ("another register at the end of a loop", " .for .regy = 3 .downto 1\n nop\n .next x", 1),
    ("a register loop in one of the same register", " .for .regx = 1 .to 3\n .for .regx = 1 .to 3\n nop\n .next x\n .next x", 0),
    ("a register loop in one of the same register", " .for .regy = 1 .to 3\n .for .regx = 1 .to 3\n .for .regy = 4 .downto 2\n nop\n .next y\n .next x\n .next y", 0),
    ("a register loop out of range", " .for .regx = 1 .to 300\n nop\n .next x", 0), ("a register loop out of range", " .for .regy = 256 .downto 1\n nop\n .next y", 0),
    ("a register loop out of range", " .for .regx = -1 .to 5\n nop\n .next x", 0),
    ("a variable that is not declared", " .for notdeclared = 1 .to 3\n nop\n .next notdeclared", 0), ("a circular definition", "circ1 = circ2 + 1\ncirc2 = circ1 + 1", 0),
    ("an opcode of another processor", " stz 5", 1), ("an opcode that is not allowed", " lax 5", 1),
]
TOPONLY = ("vari", "endtwice", "endouter", ".ends", "register loop", "nodef", "= ", "circ", "twice", ".org", "other =", "toolarge", "toosmall", ".section", ".ends", "inc \"", "/*", ".ifdef", ".ifndef")
PLACES = ("top", "first", "last", "if", "else", "macro", "for", "include", "include first", "nested include", "behind includes", "second input", "first input", "middle input", "section", "repeat", "regloop", "nested macro", "ifdef")


def plan(tier):
    return 20000 if tier == "quick" else 200000


def plant(stmts, line, place, rng):
    """the program with the line at the place: (statements, more inputs, file, single line at the top level)"""
    raw = [("raw", x) for x in line.split("\n")]
    k = rng.randrange(len(stmts) + 1)
    pad = [("op", "nop", "none", None)]
    if place == "top":
        return stmts[:k] + raw + stmts[k:], None, "a.asm"
    if place == "first":
        return raw + stmts, None, "a.asm"
    if place == "last":
        return stmts + raw, None, "a.asm"
    if place == "if":
        return stmts[:k] + [("if", ("n", 1), pad + raw, None)] + stmts[k:], None, ""
    if place == "else":
        return stmts[:k] + [("if", ("n", 0), pad, raw + pad)] + stmts[k:], None, ""
    if place == "ifdef":
        return stmts[:k] + [("ifdef", "notdefinedanywhere", True, raw, None)] + stmts[k:], None, "a.asm"
    if place == "macro":
        return [("macro", "zzm", pad + raw)] + stmts[:k] + [("call", "zzm", [])] + stmts[k:], None, ""
    if place == "nested macro":
        return [("macro", "zzn", raw + pad), ("macro", "zzm", pad + [("call", "zzn", [])])] + stmts[:k] + [("call", "zzm", [])] + stmts[k:], None, ""
    if place == "for":
        return [("var", [("zzv", ("n", 0))])] + stmts[:k] + [("for", "zzv", ("n", 1), ("n", 2), None, raw + pad)] + stmts[k:], None, ""
    if place == "repeat":
        return stmts[:k] + [("repeat", pad + raw, ("n", 1))] + stmts[k:], None, ""
    if place == "regloop":
        return stmts[:k] + [("reg", "x", ("n", 1), "to", ("n", 3), pad + raw)] + stmts[k:], None, ""
    if place == "include":
        return stmts[:k] + [("inc", "zz.inc", pad * rng.randrange(1, 4) + raw + pad)] + stmts[k:], None, "zz.inc"
    if place == "include first":
        return stmts[:k] + [("inc", "zz.inc", raw + pad)] + stmts[k:], None, "zz.inc"
    if place == "behind includes":
        inc = [("inc", "zz%d.inc" % j, pad * rng.randrange(1, 5) + ([("inc", "yy%d.inc" % j, pad * rng.randrange(1, 9))] if rng.random() < 0.5 else []) + pad) for j in range(rng.randrange(1, 6))]
        return stmts[:k] + [x for j in inc for x in [j] + pad * rng.randrange(3)] + raw + stmts[k:], None, "a.asm"
    if place == "nested include":
        return stmts[:k] + [("inc", "yy.inc", pad + [("inc", "zz.inc", pad * rng.randrange(1, 4) + raw + pad)])] + stmts[k:], None, "zz.inc"
    if place == "second input":
        return stmts, pad + raw + pad, "b.asm"
    if place in ("first input", "middle input"):
        return stmts, pad + raw + pad, "b.asm"
    if place == "section":
        return stmts[:k] + [("section", "zzsec")] + pad + raw + pad + [("ends",)] + stmts[k:], None, "a.asm"


COUNTS = (1, 2, 3, 9, 10, 99, 100, 127, 128, 129, 254, 255, 256, 257, 512, 768, 1024, 4096, 8192)


def count(env, o, rng, i):
    """any number of errors is an error"""
    n = COUNTS[i // 250 % len(COUNTS)] if i // 250 < len(COUNTS) else rng.randrange(1, 3000)
    line = rng.choice((" lda #300", " .byte 256", " .fill 300,1", " lda #256", " .word 65536"))
    how = rng.randrange(3)
    if how == 0:
        text = " nop\n" + (line + "\n") * n + " nop\n"
    elif how == 1:
        text = " nop\n .var v\n .for v = 1 .to %d\n%s\n .next v\n nop\n" % (n, line)
    else:
        text = " .macro m\n%s\n .endm\n nop\n" % line + " m\n" * n
    res = D.asm(env, {"a.asm": text}, timeout=60)
    o.ev()
    if D.must_reject(o, res, "%d errors (%s)" % (n, line.strip())):
        o.key(("count", n, line, how))
        o.stats["programs with a given number of errors"] += 1


def case(env, i, rng):
    o = Out()
    if i % 50 == 49:
        i //= 50
        count(env, o, rng, i * 250)
        return o
    what, line, loc = ERR[i % len(ERR)]
    place = rng.choice(PLACES)
    if any(t in line for t in TOPONLY + ((".for",) if place == "regloop" else ())) and place in ("if", "else", "macro", "nested macro", "for", "repeat", "regloop", "section"):
        place = "top"
    if line in (" .else", " .endif") and place in ("if", "else", "ifdef"):
        place = "top"
    if line == " .endm" and "macro" in place or line == " .until 1" and place == "repeat":
        place = "top"
    feats = {f for f in ("macro", "for", "if", "local", "reg", "str", "expr", "branch", "equ", "var", "setpc0", "fwdconst", "defines", "nestmacro", "ifdef", "repeat", "load") if rng.random() < 0.5}
    p, ref = G.program(rng, rng.choice((3, 10, 25)), feats)
    stmts = p.stmts
    if "macro" in feats and any(s[0] == "section" for s in stmts):
        place = "top"
    if ".org" in line:
        stmts = [s for s in stmts if s[0] != "org"]
    opts = D.copts(p.cpu, p.illegal, p.defines)
    # the program as it is
    if rng.random() < 0.3:
        nw = rng.random() < 0.5
        r = D.asm(env, A.render(stmts), opts + (["-nowarn"] if nw else []))
        o.ev()
        if r.status == "hang":
            o.inconclusive += 1
        elif r.status != "ok":
            o.violation("case %d: a valid program is refused" % i, **D.saved(r))
            return o
        elif r.run.err.strip() and (nw or b"creating jmp" not in r.run.err):
            o.violation("case %d: a valid program is accepted with a message on stderr" % i, **D.saved(r))
            return o
        else:
            o.stats["accepted without a message"] += 1
    stm, second, where = plant(stmts, line, place, rng)
    st = A.PLAIN
    files = A.render(stm, st)
    inputs = ["a.asm"]
    if second is not None:
        files.update(A.render(second, st, top="b.asm"))
        inputs = ["a.asm", "b.asm"]
        if place == "first input":
            inputs = ["b.asm", "a.asm"]
        elif place == "middle input":
            files["c.asm"] = " nop\n" * rng.randrange(1, 4)
            inputs = rng.choice((["a.asm", "b.asm", "c.asm"], ["c.asm", "b.asm", "a.asm"]))
    o1 = None if rng.random() < 0.3 else "o.bin"
    res = D.asm(env, files, opts, inputs=inputs, out=o1, lst="l.lst" if rng.random() < 0.2 else None, sym="s.sym" if rng.random() < 0.2 else None)
    o.ev()
    lab = "%s (%s) at place: %s" % (what, line.strip().replace("\n", "|"), place)
    if not D.must_reject(o, res, lab):
        return o
    err = res.run.err.decode("latin-1")
    if not err.strip():
        o.violation(lab + ": no message on stderr", **D.saved(res))
        return o
    if loc and where:
        src = files[where].split("\n")
        want = line.split("\n")[-1]
        n = max(k for k, t in enumerate(src, 1) if t == want)
        m = NEAR.search("\n".join(t for t in err.split("\n") if "creating jmp" not in t))
        # the line or the one the parser has got to; a line without its end is seen on the next
        if loc == 1 and (m is None or m[1] != where or not n - 1 <= int(m[2]) <= n + 2):
            o.violation(lab + ": the message says %s, the error is in %s line %d" % (m and m[0], where, n), **D.saved(res))
            return o
        o.stats["message with file and line"] += 1
    o.key((what, line, place))
    o.stats["refused at: " + place] += 1
    o.samples.append(lab + ": " + err.strip().split("\n")[0][:80])
    return o
