"""C17: nothing makes the assembler crash or touch memory it must not (AddressSanitizer + UndefinedBehaviorSanitizer, valgrind memcheck for uninitialised values)."""
import os
import re
import resource
import subprocess
import asmlib as A
import cpu as C
import drive as D
import gen as G
from common import Out, SAN

PROP = "C17"
KINDS = ("plain", "asan")
MIN_KEYS = 600
RULE = ("distinct (kind of input, what was done to it, exit status, first message) of runs that ended by themselves without a report of a sanitizer, a signal or memcheck")
ASSUME = ["a run stopped for taking too long or writing too much is not judged here (see C21); leaks are not judged"]
LIMIT = 48 << 20


def plan(tier):
    return 8000 if tier == "quick" else 150000


def brun(env, args, kind, timeout, valgrind=False):
    """(exit status or None when stopped for time or amount, stdout, stderr, full args); stdout and stderr are limited"""
    d = env.scratch()
    cmd = [env.exe(kind)] + list(args)
    e = dict(PATH="/usr/bin:/bin", LC_ALL="C")
    if kind == "asan":
        e.update(SAN)
        e["ASAN_OPTIONS"] += ":hard_rss_limit_mb=2500:detect_odr_violation=0"
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--undef-value-errors=yes", "--main-stacksize=8000000", "--track-origins=no"] + cmd

    def lim():
        resource.setrlimit(resource.RLIMIT_FSIZE, (LIMIT, LIMIT))
        if kind == "plain" and not valgrind:
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    po, pe = os.path.join(env.root, "out.%d" % os.getpid()), os.path.join(env.root, "err.%d" % os.getpid())
    with open(po, "wb") as fo, open(pe, "wb") as fe:
        p = subprocess.Popen(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, env=e, preexec_fn=lim)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
    with open(po, "rb") as f:
        out = f.read(1 << 18)
    with open(pe, "rb") as f:
        err = f.read(1 << 18)
        f.seek(0, 2)
        n = f.tell()
        if n > 1 << 18:
            f.seek(max(1 << 18, n - (1 << 17)))
            err += f.read()
        full = n >= LIMIT or os.path.getsize(po) >= LIMIT
    if rc in (-25, -9) or full or b"hard rss limit exhausted" in err:
        rc = None
    return rc, out, err, cmd


# ------------------------------------------------------------------ pieces
NUM = ("0", "1", "2", "-1", "255", "256", "65535", "65536", "$FFFFFFFF", "4294967295", "4294967296", "2147483647", "2147483648", "2147483646", "99999999999999999999", "$0", "%1",
       "%11111111111111111111111111111111", "%111111111111111111111111111111111", "0b1", "$", "%", "0b", "0x10", "'a'", "'\\n'", "'\\x41'", "'\\101'", "'\\777'", "'\\xfff'", "''", "'", "\"", "1.5", "007")
NAMES = ("a", "x", "y", "lab", "lab2", "@loc", "@", "@@", "mac1", "nosuch", "se1.lab", "se1.se2.lab", ".lab", "lab.", "..", "\\1", "\\2", "\\9", "\\10", "\\99", "\\0", "\\", "_", "__", "v", "i", "+", "-", "++", "--", "+-", "lab:", "Lab", "LAB", "*")
DIRS = (".byte", ".db", ".word", ".dw", ".dcw", ".ds", ".equ", ".if", ".else", ".endif", ".ifdef", ".ifndef", ".repeat", ".until", ".end", ".print", "?", "??", ".printall", ".for", ".next", ".step", ".to",
        ".downto", ".str", ".text", ".string", ".org", ".section", ".ends", ".endsection", ".sect", ".inc", ".load", ".fill", ".while", ".wend", ".do", ".macro", ".mac", ".endm", ".endmacro", ".regx", ".regy", ".var",
        ".6502 on", ".65c02 on", ".illegal on", ".illegal off", ".warn on", ".warn off", ".c64", ".print on", ".print off", ".debug_token on", ".debug_token off", ".debug_addlist on", ".debug_addlist off", ".foo", ".")
OPS = ("+", "-", "*", "/", "%", "&", "|", "^", "~", "<", ">", "<<", ">>", "<=", ">=", "==", "!=", "<>", "&&", "||", "not", "(", ")", ",", "#", "=", ":", ";", "//", "/*", "*/", ".", "!", "[", "]", "{", "}", "`", "@", "$", "\\")
MN = sorted({m for m, _ in C.table("6502", True)} | {m for m, _ in C.table("65c02", False)})
STRS = ('"abc"', '""', '"', '"a', '"\\n\\t\\x41\\\\"', '"\\q"', '"\\x"', '"\\xzz"', '"\\"', "'abc'", '"%s%n%d%x"', '"' + "s" * 300 + '"', '"inc1.asm"', '"data.bin"', '"a.asm"', '"no.file"', '"."', '"/dev/null"', '"\\x00"', '"' + "\\x41" * 40 + '"')
LINES = (
    "lab", "lab:", "lab nop", "@loc", "@loc nop", "+", "-", "+ nop", "- nop", "++", " nop", " lda #1", " lda lab", " lda (lab),y", " jmp (lab)", " jmp (lab,x)", " bne lab", " beq @loc", " bne +", " bne -", " bne ++", " jmp @loc",
    " bbr0 5,lab", " bbs7 5,*", " rmb3 5", " .byte 1,2,3", " .byte \"abc\",1", " .word lab,lab2", " .ds 5", " .ds -1", " .ds 0", " .fill 1,2", " .fill 1,2,3", " .fill 300,5", " .fill 5,300", " .fill 5,70000", " .str \"abc\"", "x1 = 5", "x2 = x1+1", "x3 .equ lab", "x4 = x5", "x5 = x4",
    " .org $1000", " .org lab", "*=$1000", "*=lab", "* = * + 5", "*=$FFFF", "*=$FFFE", "*=-1", "*=$10000", " .if 1", " .if 0", " .if lab", " .if lab > 5", " .else", " .endif", ".ifdef lab", ".ifndef lab", ".ifdef nosuch", ".endif", ".else",
    " .macro mac1", " .macro mac2", " .endm", " lda \\1", " .byte \\1,\\2", "@m", " mac1", " mac1 1", " mac1 1,2,3", " mac1 lab", " mac2 5", " .repeat", " .until 1", " .until v > 3", " .until 0", " .while v < 3", " .while 0", " .wend", " .do", " .while v",
    " .for v = 1 .to 5", " .for v = 5 .downto 1", " .for v = 1 .to 5 .step 2", " .for v = 1 .to 5 .step 0", " .for v = 1 .to 5 .step -1", " .for v = 1 .to 70000", " .for v = 2147483645 .to 2147483647", " .for v = -2147483646 .to -2147483647 - 1 .step -1", " .for v = $7FFFFFF0 .to $7FFFFFFF .step 7", " .next v", " .next", " .for .regx = 1 .to 5", " .for .regy = 5 .downto 1", " .for .regx = 0 .to 255", " .next x", " .next y",
    " .var v = 0", " .var v = 0, w = 1", " .var v", " v = v + 1", "v = v + 1", " .section se1", " .section se2", " .ends", " .section", " lda se1.lab", " lda se2.@loc", " .inc \"inc1.asm\"", " .inc \"a.asm\"", " .inc \"no.asm\"", " .inc \"\"", " .load \"data.bin\"", " .load \"no.bin\"", " .load \"\"",
    " .print lab", " .print \"abc\",lab,5", " ? v", " ?? v", " .print", " .print on", " .print off", " .c64", " .6502 on", " .65c02 on", " .illegal on", " .illegal off", " .end", ".end", "; comment", " // comment", " /* comment", " */", "/* a */ nop", "",
    " .word 1/0", " .word 5%0", " .word $80000000/-1", " .word 1<<40", " .word 1<<-1", " .word 1 >> 32", " .byte -128, 255, -129", " .word ~0", " .byte <lab,>lab", " .word not 1", " .word 2147483647+1", " .word -2147483648", " .word 65535*65537*65535", " .word -(-2147483647-1)",
    " lda #<lab+1", " lda ($FF),y", " lda ($100,x)", " sta $10000", " lda 5,z", " asl a", " asl", " rol lab,x", " .word a", " .word x", "a = 5", "x = 5", "a", " .byte 'a','\\n','\\x41'", " .word *", " .word *-*", " .byte lab-*", " jmp nosuch", " .word nosuch", "mac1 = 5", "mac1", "lab = lab + 1",
    " .print \"x\" 5", " \\1", "\\1", " .macro \\1", " .var \\1 = 5", " .for \\1 = 1 .to 2", " .next \\1", "\\1 = 5", "\\1 nop", " .section \\1", " \\1 = \\1 + 1")


# those that cannot stand alone
ALONE = re.compile(r" bb[rs]| \.fill 1,2,3| \.if| \.else| \.endif|\.ifdef|\.ifndef|\.endif|\.else| \.macro| \.endm| \.repeat| \.until| \.while| \.wend| \.do| \.for| \.next| \.section| lda se2| /\* c| \*/| .*5%0|.*-1%| lda 5,z| \.word x|x = | .print \"x\" 5|.*\\|mac1 =")
FINE = [l for l in LINES if not ALONE.match(l)]
INNER = [l for l in FINE if l not in ("lab", "lab:", "lab nop", "@loc", "@loc nop", "+", "-", "+ nop", "- nop", "++", "@m", "a", " .word $80000000%-1")]
INMAC = INNER + [" .byte \\1", " lda \\1", " lda #<\\2", " .word \\1 + \\3", " \\1", " mac3 \\1,\\2", " .if \\1\n nop\n .endif", "lab", "@loc", "@m"]
HEAD = " .var v = 0, i = 0, w = 0\n .macro mac1\n nop\n@m\n bne @m\n .endm\n .macro mac2\n .byte \\1\n .word \\2 + lab2\n .endm\n .macro mac3\n mac2 \\2, \\1\n .if \\1 > 3\n .byte \\1\n .endif\n .endm\n"
TAIL = "lab2 nop\n .section se1\nlab nop\n .section se2\nlab nop\n .ends\n .ends\n"


def soup(rng):
    """tokens in any order"""
    out = []
    for _ in range(rng.choice((1, 3, 10, 40))):
        l = []
        if rng.random() < .4:
            l.append(rng.choice(NAMES))
        l.append(" ")
        for _ in range(rng.randrange(0, rng.choice((3, 6, 15)))):
            l.append(rng.choice(rng.choice((NUM, NAMES, DIRS, OPS, MN, STRS, OPS, NAMES))))
            if rng.random() < .7:
                l.append(" ")
        out.append("".join(l))
    return "\n".join(out) + ("\n" if rng.random() < .9 else "")


def lines(rng):
    """statements in any order, blocks mostly not closed properly"""
    pool = LINES if rng.random() < .3 else FINE
    some = rng.sample(pool, min(len(pool), rng.choice((3, 6, 12, 30))))
    return (HEAD if rng.random() < .5 else "") + "\n".join(rng.choice(some) for _ in range(rng.choice((2, 5, 10, 30, 60)))) + ("\n" if rng.random() < .95 else "")


OPEN = ((" .if %s", " .endif"), (" .if 0\n nop\n .else", " .endif"), (".ifdef lab", ".endif"), (".ifndef nosuch%d", ".endif"), (" .repeat", " .until 1"), (" .do", " .while 0"), (" .for v%d = 1 .to 1", " .next v%d"), (" .while v%d < 1\nv%d = v%d + 1", " .wend"),
        (" .section s%d", " .ends"), (" .macro q%d", " .endm"), (" .for .regx = 1 .to 2", " .next x"), (" .for .regy = 2 .downto 1", " .next y"))


def blocks(rng):
    """blocks that are closed properly around statements in any order"""
    n = [0]

    def body(depth, inner=False, do=False):
        out = []
        for _ in range(rng.randrange(1, 5)):
            if depth and rng.random() < .5:
                n[0] += 1
                a, b = rng.choice(OPEN[:7] + OPEN[8:] if do else OPEN)    # .while in .do is the end of .do
                k = str(n[0])
                a, b = a.replace("%d", k).replace("%s", rng.choice(("1", "0", "lab", "lab > 5", "nosuch"))), b.replace("%d", k)
                if "v" + k in a and rng.random() < .9:
                    head.append(" .var v%s = 0" % k)
                out += [a] + body(depth - 1, INMAC if ".macro" in a else inner if "def" in a or ".section" in a else inner or INNER, do or ".do" in a) + [b]
                if "q" + k in a and rng.random() < .8:
                    out.append(" q%s %s" % (k, rng.choice(("", "1", "1,2", "lab", "\"abc\"", "1,2,3,4,5,6,7,8,9,10"))))
            else:
                out.append(rng.choice((inner or FINE) if rng.random() < fine else LINES))
        return out
    head, fine = [], rng.choice((.9, 1, 1, 1))
    t = body(rng.randrange(1, 7))
    if rng.random() < .8:
        return HEAD + "\n".join(head + t) + "\nlab nop\n" + TAIL
    return "\n".join(head + t) + "\n"


BIG = (20, 100, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 7000, 8191, 8192, 8193, 10000, 16383, 16384, 17000, 20000)


def extreme(rng, thorough, k):
    """one thing taken far"""
    n = rng.choice(BIG)
    small = min(n, 3000)
    name = rng.choice("abq") + "n" * n
    e = rng.choice((" .word %s\n", " lda %s\n", " .if %s\n nop\n .endif\n", "xx = %s\n", " .print %s\n"))
    if k == 0:
        return "parentheses", e % ("(" * n + "1" + ")" * n)
    if k == 1:
        return "unary", e % (rng.choice("-~<>") * n + "1")
    if k == 2:
        return "binary", e % ("1" + (rng.choice(("+", "*", "|", "&", "^")) + "1") * n)
    if k == 3:
        return "long label", "%s\n lda %s\n%s = 5\n" % (name, name, name[:-1])
    if k == 4:
        return "long local label", "lab\n@%s\n bne @%s\n" % (name, name)
    if k == 5:
        return "long section", " .section %s\nlab nop\n .ends\n lda %s.lab\n" % (name, name)
    if k == 6:
        return "long macro name", " .macro %s\n lda \\1\n .endm\n %s 5\n" % (name, name)
    if k == 7:
        return "long string", " .str \"%s\"\n" % ("s" * n)
    if k == 8:
        return "long escaped string", " .byte \"%s\"\n" % (rng.choice(("\\n", "\\x41", "\\\\", "\\\"")) * n)
    if k == 9:
        return "long number", e % (rng.choice(("1", "0", "$1", "%1", "0b1", "$0", "%0")) + "0" * n + "1")
    if k == 10:
        return "long byte list", " .byte %s\n" % ",".join(["1"] * n)
    if k == 11:
        return "long word list", " .word %s\n" % ",".join(["lab"] * n) + "lab\n"
    if k == 12:
        return "long comment", " nop ;%s\n //%s\n /*%s*/\n nop\n" % ("c" * n, "d" * n, "e\n" * small)
    if k == 13:
        return "blanks", " " * n + "nop" + "\t" * n + "\n" * small + " lda" + " " * n + "#" + " " * n + "5\n"
    if k == 14:
        return "many labels", "".join("lab%d nop\n" % j for j in range(small)) + "".join(" .word lab%d\n" % j for j in range(0, small, 7))
    if k == 15:
        return "many + -", "".join(rng.choice(("+ bne -\n", "- nop\n", "+\n", " bne +\n", "-- nop\n")) for j in range(min(n, 700)))
    if k == 16:
        return "long +", "%s nop\n bne %s\n bne %s\n" % ("+" * n, "+" * n, "-" * n)
    if k == 17:
        a, b = rng.choice(OPEN)
        d = min(n, rng.choice((50, 300, 2000)))
        t = [x.replace("%s", "1") for x in (a, b)]
        return "nested " + a.split()[0], "".join(" .var v%d = 0\n" % j for j in range(d) if "v%d" in a) + "".join(t[0].replace("%d", str(j)) + "\n" for j in range(d)) + " nop\n" + "".join(t[1].replace("%d", str(j)) + "\n" for j in reversed(range(d)))
    if k == 18:
        d = min(n, 2000)
        return "macro chain", "".join(" .macro m%d\n %s\n .endm\n" % (j, "m%d \\1" % (j - 1) if j else " .byte \\1") for j in range(d)) + " m%d 5\n" % (d - 1)
    if k == 19:
        n = rng.choice((5, 12, 99, 100, 101, 150, 255, 256, 257, 300, 999, 1000, 1001))
        a = [",".join(str((j + q) & 255) for j in range(n if rng.random() < .8 else min(n, rng.choice((5, 20, 120))))) for q in range(3)]
        b = ",".join("\\%d" % (j + 1) for j in range(n))
        return "many macro parameters", " .macro m\n .byte %s\n .endm\n .macro w\n m %s\n .byte \\1\n .endm\n m %s\n%s %s %s\n" % (b, b, a[0], rng.choice(("", " m 1\n", " w %s\n" % a[1])), rng.choice("mw"), a[2])
    if k == 20:
        return "macro parameter number", " .macro m\n .byte \\%d\n .byte \\%s\n .endm\n m 1,2\n" % (n, "9" * min(n, 400))
    if k == 21:
        return "recursive macro", " .macro m\n nop\n m \\1\n .endm\n m 1\n"
    if k == 22 and rng.random() < .3:
        return "include loop", " nop\n .inc \"a.asm\"\n"
    if k == 23:
        return "long file name", " .inc \"%s\"\n" % ("f" * n)
    if k == 24:
        return "long loaded file name", " .load \"%s\"\n" % ("/f" * n)
    if k == 25:
        return "much output", " .fill 1,%d\n .ds %d\n .fill %d,1\n nop\n" % (n * 4, n * 4, n)
    if k == 26:
        return "address wraps", "*=%d\n .fill 1,%d\nlab nop\n jmp lab\n bne lab\n" % (65536 - n % 70, n)
    if k == 27:
        return "many statements", rng.choice((" nop\n", " lda lab\n", " .byte 1\n", "; c\n", "\n", " .word *\n", " bne *+2\n", "*=*+1\n")) * (n * (2 if n < 9000 else 1)) + "lab\n"
    if k == 28:
        return "many in a loop", " .repeat\n%s .until 1\n" % (" lda lab\n" * small) + "lab\n"
    if k == 29:
        return "many symbols", "".join("s%d = s%d + 1\n" % (j + 1, j) for j in range(min(n, 2000))) + "s0 = 5\n"
    if k == 30:
        return "many sections", "".join(" .section s%d\n" % j for j in range(min(n, 500))) + "lab nop\n" + " .ends\n" * rng.choice((0, min(n, 500), min(n, 500) + 1))
    if k == 31:
        return "bytes", "".join(chr(rng.randrange(256)) for _ in range(n))
    if k == 32:
        return "one byte many times", chr(rng.randrange(256)) * n
    if k == 33:
        return "NUL", "".join(rng.choice((" nop\n", "\0", " lda #1\0\n", " .str \"a\0b\"\n", "; \0\n", "lab\0\n")) for _ in range(small))
    if k == 34:
        return "unclosed", rng.choice((" .str \"%s", "/* %s", " .byte '%s", " .if 1\n ;%s", " .macro m\n ;%s", " lda (%s", " .repeat\n ;%s", ".ifdef nosuch\n%s", " .for v = 1 .to\n%s", " .section %s", " .inc \"%s")) % ("s" * n)
    if k == 35:
        return "closers", rng.choice((" .endif\n", " .else\n", " .ends\n", " .endm\n", " .next v\n", " .wend\n", " .until 1\n", " .next\n", ")", "*/", ".endif\n", ".else\n", " .while 0\n")) * small
    if k == 36:
        return "openers", rng.choice((" .if 1\n", " .if 0\n", " .section s\n", " .macro m\n", " .for v = 1 .to 2\n", " .while 1\n", " .repeat\n", " .do\n", "(", "/*", ".ifdef x1\n", ".ifndef x1\n", " .if 1\n .else\n")) * small + " nop\n"
    if k == 37:
        return "many errors", rng.choice((" .word nosuch%d\n", " lda #256\n", " .foo\n", "lab\n", " sta #1\n", " bne nosuch\n", " .org 5\n", " .word 1/0\n", " .byte 999\n")).replace("%d", "") * min(n, 1000)
    if k == 38:
        return "long print", " .print %s\n" % ",".join(rng.choice(("5", "\"%s%n\"", "lab", "\"a\"")) for _ in range(small)) + "lab\n"
    if k == 39:
        return "branches", "".join("l%d bne l%d\n" % (j, (j * 7 + 40) % min(n, 1500)) for j in range(min(n, 1500)))
    if k == 40:
        return "long line", " .byte " + "1+" * n + "1\n" + " .word lab," + "lab," * (n // 2) + "lab\nlab\n"
    if k == 41:
        return "long dotted name", " lda %s\n" % ".".join("s%d" % j for j in range(n // 2))
    if k == 42:
        return "colons and commas", rng.choice((":", ",", "lab:", "lab,", "#", "1,", "1 ", "lab ", "\"\" ", "''", "\\1 ", "@", "@l ")) * small + "\n"
    if k == 43:
        d = min(n, 400)
        return "register loops", "".join(" .for .reg%s = 1 .to 2\n" % "xy"[j & 1] for j in range(d % 3 + 1)) + " nop\n" * (n % 130) + "".join(" .next %s\n" % "xy"[j & 1] for j in reversed(range(d % 3 + 1)))
    if k == 44:
        return "forward chain", "".join("f%d = f%d + 1\n" % (j, j + 1) for j in range(min(n, 60))) + "f%d = 5\n" % min(n, 60)
    return "local labels", "".join("lab%d\n" % j + "".join("@l%d bne @l%d\n" % (m, m) for m in range(j % 9)) for j in range(min(n, 500)))


TOK = re.compile(rb"[A-Za-z_@.\\][A-Za-z0-9_.@]*|\d+|\s+|.", re.S)


def mutate(rng, t, other):
    t = bytearray(t)
    what = []
    for _ in range(rng.choice((1, 1, 2, 4, 10))):
        k = rng.choice((0, 1, 2, 3, 4, 4, 5, 6, 6, 7, 7, 7, 8, 8, 9, 10, 10, 11, 12, 13))
        if not t:
            t = bytearray(b" nop\n")
        a = rng.randrange(len(t))
        if k == 0:
            t = t[:a]
            what.append("cut")
        elif k == 1:
            t[a] = rng.randrange(256)
            what.append("byte")
        elif k == 2:
            del t[a:a + rng.choice((1, 1, 3, 10, 100))]
            what.append("removed")
        elif k == 3:
            b = other[rng.randrange(max(1, len(other))):][:rng.choice((5, 50, 500))]
            t[a:a] = b
            what.append("spliced")
        elif k in (4, 5, 6):
            ls = t.split(b"\n")
            x = rng.randrange(len(ls))
            if k == 4:
                ls[x:x] = ls[x:x + rng.randrange(1, 5)] * rng.randrange(1, 4)
                what.append("lines repeated")
            elif k == 5:
                del ls[x:x + rng.randrange(1, 4)]
                what.append("lines removed")
            else:
                y = rng.randrange(len(ls))
                ls[x], ls[y] = ls[y], ls[x]
                what.append("lines swapped")
            t = bytearray(b"\n".join(ls))
        elif k == 7:
            ls = t.split(b"\n")
            for _ in range(rng.choice((1, 1, 2, 5))):
                ls.insert(rng.randrange(len(ls) + 1), rng.choice(rng.choice((LINES, FINE, FINE))).encode("latin-1"))
            t = bytearray(b"\n".join(ls))
            what.append("line added")
        elif k in (8, 9, 10, 11):
            tk = TOK.findall(bytes(t))
            x = rng.randrange(len(tk))
            n = rng.choice(rng.choice((NUM, NAMES, DIRS, OPS, MN, STRS))).encode("latin-1")
            if k == 8:
                tk[x] = n
                what.append("token replaced")
            elif k == 9:
                tk[x:x] = [n]
                what.append("token added")
            elif k == 10:
                tk[x] = tk[rng.randrange(len(tk))]
                what.append("token copied")
            else:
                tk[x:x + 1] = [tk[x]] * rng.choice((0, 2, 3, 50))
                what.append("token repeated")
            t = bytearray(b"".join(tk))
        elif k == 12:
            t[a:a] = bytes([rng.choice((0, 9, 10, 13, 26, 34, 39, 40, 92, 127, 128, 255))]) * rng.choice((1, 2, 10))
            what.append("control")
        else:
            t = bytearray(bytes(t).replace(b"\n", rng.choice((b"\r\n", b"\r", b"", b" ", b"\n\n"))))
            what.append("line ends")
    return bytes(t), what


def volume(rng):
    """a valid program with a lot of everything: tables of every kind grow a number of times"""
    def n(*c):
        return rng.choice((0, 1, 10) + c)
    t, files = [], {}
    a = n(100, 600, 1100, 2100, 3000, 5000)
    t += ["label%d .byte <label%d\n" % (j, rng.randrange(a)) for j in range(a)]
    b = n(100, 500, 1500)
    t += ["con%d = con%d + 1\n" % (j + 1, j) for j in range(b)] + ["con0 = 5\n"]
    t += [" .var v%d = %d\n" % (j, j) for j in range(n(100, 600, 2000))]
    m = n(50, 300, 900)
    t += [" .macro m%d\n@a\n .byte \\1, <@a\n .endm\n" % j for j in range(m)] + [" m%d %d\n" % (j, j & 255) for j in range(m)]
    t += [" .section s%d\nin%d .byte <in%d\n .ends\n .word s%d.in%d\n" % (j, j, j, j, j) for j in range(n(50, 300, 900))]
    for j in range(n(20, 60, 250)):
        files["i%d.inc" % j] = "inc%d .byte %d\n" % (j, j & 255)
        t.append(" .inc \"i%d.inc\"\n" % j)
    t += ["+ .byte 1\n- .byte 2\n .word -\n .word +\n" for j in range(n(40, 150, 400))] + ["+ nop\n"]
    t += ["g%d .byte 1\n@l .word @l\n" % j for j in range(n(100, 800))]
    files["a.asm"] = "".join(t)
    return files


def files_of(x):
    return {n: d if isinstance(d, bytes) else d.encode("latin-1") for n, d in x.items()}


def options(rng):
    o = []
    for p, g in ((.3, ["-65c02"]), (.3, ["-i"]), (.2, ["-v"]), (.2, ["-c64"]), (.4, ["-l", "l.lst"]), (.3, ["-s", "s.sym"]), (.1, ["-log", "g.log"]), (.1, ["-nowarn"]), (.1, ["-d", "lab", "5"]),
                 (.05, ["-d", rng.choice(("", "a", "x", "@l", "+", "-", "\\1", "se1.lab", ".", "n" * 3000, "lab:", "5", "\xff", "*", "mac1", "v", ":", ".x", "a.b.c")), rng.choice(NUM)]), (.05, ["-dir", rng.choice(("", ";", ";;;", "d", "d/" * 1500, "d;" * 500, " ", "d; e", "x" * 4095, "x" * 5000))])):
        if rng.random() < p:
            o += g
    if rng.random() < .85:
        o += ["-o", "o.bin"]
    return [x for x in o]


def program(env, rng):
    feats = {f for f in G.FEATS if rng.random() < 0.5}
    p, _ = G.program(rng, rng.choice((5, 20, 60)), feats)
    return p, files_of(A.render(p.stmts, A.Style.wild(rng) if rng.random() < .3 else A.Style()))


def case(env, i, rng):
    o = Out()
    what, opts, inputs = [], options(rng), ["a.asm"]
    files = {"inc1.asm": b" nop\nilab lda ilab\n", "data.bin": bytes(range(256))}
    k = i % 10
    if k in (0, 1, 2):
        kind = "mutated"
        p, f = program(env, rng)
        other = program(env, rng)[1]["a.asm"] if rng.random() < .3 else lines(rng).encode("latin-1")
        files.update(f)
        t = rng.choice([n for n in f if f[n] and not n.endswith(".bin")])
        files[t], what = mutate(rng, files[t], other)
        if rng.random() < .7:
            opts = D.copts(p.cpu, p.illegal, p.defines) + [x for x in opts if x not in ("-65c02", "-i")]
    elif k == 3:
        kind = "valid"
        p, f = program(env, rng)
        files.update(f)
        opts = D.copts(p.cpu, p.illegal, p.defines) + [x for x in opts if x not in ("-65c02", "-i")]
    elif k == 4:
        kind = "tokens"
        files["a.asm"] = soup(rng)
    elif k in (5, 6):
        kind = "lines"
        files["a.asm"] = lines(rng)
    elif k in (7, 8):
        kind = "blocks"
        files["a.asm"] = blocks(rng)
    else:
        kind, (w, t) = "extreme", extreme(rng, env.thorough, i // 10 % 46)
        what = [w]
        files["a.asm"] = t
    if rng.random() < .05:
        files["inc1.asm"] = rng.choice((soup, lines, blocks))(rng)
    if rng.random() < .05:
        files["data.bin"] = bytes(rng.choice((0, 1, 70000, 200000)))
    if rng.random() < .03:
        inputs = rng.choice((["a.asm", "inc1.asm"], ["a.asm", "a.asm"], ["data.bin"], ["."], ["a.asm"] * 30, ["n" * 5000], ["d/" * 2200 + "x"], ["a.asm", "empty"], ["empty"]))
        files["empty"] = b""
        what.append("inputs")
    if i % 71 == 12:
        # a directory and a file name that together are about as long as a path can be
        kind, what = "path", ["length of the path"]
        n = rng.choice((1, 8, 100, 255, 256, 1000, 2000, 4000, 4080))
        d = max(0, rng.randrange(4084, 4104) - n)
        d = rng.choice(("d" * d, "d/" * (d // 2) + "d" * (d % 2), ("/" * d)))
        f = "f" * n
        opts = [x for x in opts if x not in ("-log", "g.log")] if "-dir" not in opts else ["-o", "o.bin"]
        opts += ["-dir", rng.choice(("", "e;")) + d + rng.choice(("", ";", ";e"))]
        w = rng.randrange(4)
        if w == 0:
            opts += ["-log", f + "/x"]
        elif w == 1:
            inputs = [f]
        else:
            files["a.asm"] = " %s \"%s\"\n nop\n" % (rng.choice((".inc", ".load")), f)
    if i % 67 == 31:
        kind, what, inputs = "volume", ["a lot of everything"], ["a.asm"]
        files.update(volume(rng))
        opts = ["-o", "o.bin"] + [x for x in (["-s", "s.sym"], ["-l", "l.lst"], ["-v"]) if rng.random() < .8 for x in x]
    many = i % 5000 in (31, 98)
    if many:
        # the tables of - and + labels grow after 4900 of them
        kind, what, opts = "volume", ["a lot of - or + labels"], ["-o", "o.bin"]
        files = {"a.asm": ("- dex\n bne -\n" if i % 5000 == 31 else " bne +\n+ dex\n") * (4900 + rng.randrange(20, 200))}
    files = files_of(files)
    vg = i % 50 == 7 or (env.thorough and i % 10 == 3)
    env.clean()
    for n, d in files.items():
        env.write(n, d)
    args = opts + inputs
    rc, out, err, cmd = brun(env, args, "plain" if vg else "asan", 60 if vg or many else 4, vg)
    o.ev()
    if rc is None:
        o.stats["stopped: too long or too much (%s)" % kind] += 1
        return o
    bad = b"AddressSanitizer" in err or b"runtime error:" in err or rc < 0 or rc in (99, 134, 136, 139)
    if bad:
        m = re.search(rb"(SUMMARY: [^\n]*|runtime error: [^\n]*|==\d+== [A-Z][^\n]*)", err)
        at = re.search(rb"(?:#\d+ 0x\w+ in|(?:at|by) 0x\w+:) (\S+) [^\n]*?([\w.]+\.(?:cc|y|l):\d+|pasm[\w.]*:\d+)", err)
        o.violation("%s input (%s): exit %s, %s %s" % (kind, ", ".join(what), rc, m.group(1).decode("latin-1") if m else "signal", at.group(0).decode("latin-1")[-120:] if at else ""),
                    **{"cmd.txt": " ".join(cmd) + "\n", "err.txt": err[:60000], "out.txt": out[:20000], **files})
        return o
    msg = err.strip().split(b"\n")[0]
    msg = re.sub(rb"\d+|\S*\.asm|\S*\.inc", b"N", msg)[:60]
    o.stats["%s, exit %s%s" % (kind, rc, " (memcheck)" if vg else "")] += 1
    o.key((kind, tuple(sorted(set(what)))[:6], rc, msg))
    if len(o.samples) < 3 and i < 30:
        o.samples.append("%s %s: exit %s %s" % (kind, ", ".join(what), rc, msg.decode("latin-1")))
    return o
