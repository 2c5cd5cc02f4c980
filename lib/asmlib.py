"""Programs as data: expressions and statements, a renderer to source text, and a reference assembler.

The reference works on the data, never on the text, with its own opcode tables (cpu.py).  It is the
oracle for what an accepted program must assemble to.

Expressions
  ("n", value[, fmt])  ("s", name)  ("pc",)  ("loc", "@name")  ("+", depth)/("-", depth) as ("pm", "+", depth)
  ("p", index)  ("neg", e) ("lo", e) ("hi", e) ("not", e) ("inv", e) ("b", op, l, r)
Statements (tuples, first element is the kind)
  lab name | op mn syn e | byte/word/str [items] | fill b n | ds e | load file bytes | equ name e | setpc e | org e
  if c then else | ifdef name neg then else | repeat body c | do body c | while c body | for v a b step body
  reg x|y a dir b body | macro name body | call name args | var [(name, e)] | section name | ends
  inc file stmts | cpu c | illegal on | end | note text (comment/blank) | raw text | print items | lab+stmt via ("l", name, stmt)
Data items: expression or ("str", bytes)
"""
import cpu as C

PREC = {"<<": 1, ">>": 1, "||": 2, "&&": 2, ">=": 2, "<=": 2, "==": 2, "!=": 2, "<>": 2, ">": 2, "<": 2,
        "|": 3, "&": 3, "^": 3, "+": 4, "-": 4, "*": 5, "/": 5}
OPS = list(PREC)


class AsmError(Exception):
    pass


class Ambiguous(AsmError):
    """Whether this is an error is not specified (an operand that || or && may skip has no value)."""


def wrap(v):
    v &= 0xFFFFFFFF
    return v - (1 << 32) if v & 0x80000000 else v


def binop(op, l, r):
    if op == "+": return wrap(l + r)
    if op == "-": return wrap(l - r)
    if op == "*": return wrap(l * r)
    if op == "/":
        if r == 0:
            raise AsmError("divide by zero")
        q = abs(l) // abs(r)
        return wrap(q if (l < 0) == (r < 0) else -q)
    if op == "<<":
        if not 0 <= r < 32:
            raise AsmError("shift")
        return wrap(l << r)
    if op == ">>":
        if not 0 <= r < 32:
            raise AsmError("shift")
        return l >> r
    if op == "|": return wrap(l | r)
    if op == "&": return wrap(l & r)
    if op == "^": return wrap(l ^ r)
    if op == "||": return int(bool(l) or bool(r))
    if op == "&&": return int(bool(l) and bool(r))
    if op == "==": return int(l == r)
    if op in ("!=", "<>"): return int(l != r)
    if op == "<": return int(l < r)
    if op == ">": return int(l > r)
    if op == "<=": return int(l <= r)
    if op == ">=": return int(l >= r)
    raise ValueError(op)


# ---------------------------------------------------------------- rendering

class Style:
    """How the text is written; none of it may change what the text means."""

    def __init__(self, rng=None, case=False, space=False, comments=False, nums=False, parens=False, symcase=False,
                 colon=False, synonyms=False, semis=False):
        self.rng = rng
        self.case, self.space, self.comments, self.nums = case, space, comments, nums
        self.parens, self.symcase, self.colon, self.synonyms = parens, symcase, colon, synonyms

    @staticmethod
    def wild(rng):
        return Style(rng, *([True] * 9))

    @staticmethod
    def mild(rng):
        return Style(rng, case=True, space=True, nums=True)

    def kw(self, s):
        if self.rng and self.case:
            k = self.rng.randrange(4)
            return s.upper() if k == 0 else s.lower() if k == 1 else s if k == 2 else "".join(
                self.rng.choice((c.upper(), c.lower())) for c in s)
        return s

    def sym(self, s):
        return self.kw(s) if self.symcase else s

    def ws(self):
        if self.rng and self.space:
            return self.rng.choice((" ", "  ", "\t", " \t ", "   ", " "))
        return " "

    def ows(self):
        if self.rng and self.space:
            return self.rng.choice(("", "", " ", "\t", "  "))
        return ""

    def indent(self):
        if self.rng and self.space:
            return self.rng.choice(("    ", "\t", " ", "        ", "\t\t"))
        return "    "

    def tail(self):
        if self.rng and self.comments and self.rng.random() < 0.25:
            return self.ws() + self.rng.choice((
                "; plain comment", "// slashes", "; with \"quotes' and .if", ";", "; lda #1 : , ( ) \\", "/* block */",
                "; $zz %22 @x \xe9", "/* .endif */ ; both", "//"))
        return ""

    def blanks(self):
        """whole lines that mean nothing"""
        if self.rng and self.comments and self.rng.random() < 0.0015:
            return [self.rng.choice(("", "; text", " "))] * self.rng.choice((100, 254, 255, 256, 300, 600, 1025))
        if self.rng and self.comments and self.rng.random() < 0.12:
            return [self.rng.choice(("", "   ", "; a comment line", "\t; tabbed", "// other style", "/* one line */",
                                     "/* two\n lines */", "; .macro x", "/* * ** / */"))]
        return []

    def alt(self, *names):
        if self.rng and self.synonyms:
            return self.kw(self.rng.choice(names))
        return self.kw(names[0])

    def num(self, v, fmt=None):
        assert v >= 0
        if fmt is None:
            fmt = self.rng.choice("dxxbBxd") if self.rng and self.nums else "x" if v > 9 else "d"
        if fmt == "d":
            return str(v)
        if fmt == "x":
            return "$" + self.kw("%X" % v) if not (self.rng and self.nums and self.rng.random() < 0.2) else "$%06x" % v
        if fmt == "b":
            return "%" + bin(v)[2:]
        if fmt == "B":
            return "0b" + bin(v)[2:]
        if fmt == "c":
            return "'%c'" % v
        raise ValueError(fmt)


PLAIN = Style()


def rx(e, st, need=0, right=False):
    """Expression text; parenthesised where the surrounding precedence asks for it (or at random)."""
    k = e[0]
    if k == "n":
        v = e[1]
        if v < 0:
            t = "-" + st.num(-v, e[2] if len(e) > 2 else None)
            return "(" + t + ")" if need > 0 else t
        return st.num(v, e[2] if len(e) > 2 else None)
    if k == "s":
        return st.sym(e[1])
    if k == "pc":
        return "(*)" if need > 0 and not (st.rng and st.parens and st.rng.random() < 0.5) else "*"
    if k == "loc":
        return st.sym(e[1])
    if k == "pm":
        return e[1] * e[2] if need == 0 else "(" + e[1] * e[2] + ")"
    if k == "p":
        return "\\%d" % e[1]
    if k == "neg":
        t = "-(" + st.ows() + rx(e[1], st) + st.ows() + ")"
        return "(" + t + ")" if need > 0 else t
    if k in ("lo", "hi", "inv", "not"):
        sym = {"lo": "<", "hi": ">", "inv": "~"}.get(k) or st.kw("not") + st.ws()
        inner = rx(e[1], st, 0)
        t = sym + (" " if inner[0] in "<>=-" else st.ows()) + inner
        # a prefix operator takes everything that follows it
        return "(" + t + ")" if need > 0 else t
    if k == "b":
        p = PREC[e[1]]
        l = rx(e[2], st, p)
        r = rx(e[3], st, p + 1)
        t = l + st.ws() + e[1] + st.ws() + r
        if p < need or (st.rng and st.parens and st.rng.random() < 0.15):
            return "(" + st.ows() + t + st.ows() + ")"
        return t
    raise ValueError(e)


def needs_guard(t):
    """An operand may not start with a parenthesis (that is indirect)."""
    return t.startswith("(")


def operand(e, st):
    t = rx(e, st)
    return "0 + " + rx(e, st, 5) if needs_guard(t) else t


def rstr(bs, st=PLAIN):
    out = ['"']
    for b in bs:
        c = chr(b)
        if c in '"\\':
            out.append("\\" + c)
        elif 32 <= b < 127:
            out.append(c)
        else:
            out.append("\\x%02x" % b)
    # an \x escape takes all pairs of hex digits that follow
    return "".join(out) + '"'


def str_ok(bs):
    """strings that can be written as one literal without ambiguity"""
    prev = False
    for b in bs:
        hexesc = not 32 <= b < 127
        if prev and not hexesc and chr(b) in "0123456789abcdefABCDEF":
            return False
        prev = hexesc
    return len(bs) >= 2 and 0 not in bs


def ritems(items, st):
    return (st.ows() + "," + (st.ows() or " ")).join(rstr(i[1], st) if i[0] == "str" else rx(i, st) for i in items)


class Render:
    def __init__(self, st=PLAIN, eol="\n"):
        self.st, self.eol = st, eol
        self.files = {}

    def text(self, stmts, top="a.asm"):
        lines = []
        self.block(stmts, lines, True)
        t = self.eol.join(l.replace("\n", self.eol) for l in lines) + self.eol
        self.files[top] = t
        return t

    def block(self, stmts, out, top=False):
        for s in stmts:
            out.extend(self.st.blanks())
            self.stmt(s, out, "", top)

    def line(self, out, lab, body):
        st = self.st
        out.append((lab + st.ws() if lab else st.indent()) + body + st.tail())

    def stmt(self, s, out, lab, top):
        st, k = self.st, s[0]
        if k == "l":
            name = st.sym(s[1])
            if st.colon and st.rng.random() < 0.4 and s[1][0] not in "@+-":
                name += ":"
            return self.stmt(s[2], out, name, top)
        if k == "lab":
            name = st.sym(s[1])
            if st.colon and st.rng.random() < 0.4 and s[1][0] not in "@+-" and top:
                name += ":"
            out.append(name + st.tail())
            return
        L = lambda body: self.line(out, lab, body)
        if k == "op":
            _, mn, syn, e = s
            mn = st.kw(mn)
            if syn == "none":
                L(mn)
            elif syn == "a":
                L(mn + st.ws() + st.kw("a"))
            elif syn == "#":
                L(mn + st.ws() + "#" + st.ows() + rx(e, st))
            elif syn == "e":
                L(mn + st.ws() + operand(e, st))
            elif syn in ("e,x", "e,y"):
                L(mn + st.ws() + operand(e, st) + st.ows() + "," + st.ows() + st.kw(syn[-1]))
            elif syn == "(e)":
                L(mn + st.ws() + "(" + st.ows() + rx(e, st) + st.ows() + ")")
            elif syn == "(e,x)":
                L(mn + st.ws() + "(" + st.ows() + rx(e, st) + st.ows() + "," + st.ows() + st.kw("x") + st.ows() + ")")
            elif syn == "(e),y":
                L(mn + st.ws() + "(" + st.ows() + rx(e, st) + st.ows() + ")" + st.ows() + "," + st.ows() + st.kw("y"))
            else:
                raise ValueError(syn)
        elif k == "byte":
            L(st.alt(".byte", ".db") + st.ws() + ritems(s[1], st))
        elif k == "word":
            L(st.alt(".word", ".dw", ".dcw") + st.ws() + ritems(s[1], st))
        elif k == "str":
            L(st.alt(".str", ".text", ".string") + st.ws() + ritems(s[1], st))
        elif k == "fill":
            L(st.kw(".fill") + st.ws() + rx(s[1], st) + st.ows() + "," + st.ws() + rx(s[2], st))
        elif k == "ds":
            L(st.kw(".ds") + st.ws() + rx(s[1], st))
        elif k == "load":
            self.files[s[1]] = s[2]
            L(st.kw(".load") + st.ws() + '"%s"' % s[1])
        elif k == "equ":
            t = rx(s[2], st)
            eq = "=" if not (st.rng and st.synonyms) or st.rng.random() < 0.7 else st.ws() + st.kw(".equ") + st.ws()
            out.append(st.sym(s[1]) + (st.ws() if st.rng and st.space else " ") + eq + " " + t + st.tail())
        elif k == "setpc":
            out.append(st.ows() + "*" + st.ows() + "=" + st.ows() + rx(s[1], st) + st.tail())
        elif k == "org":
            L(st.kw(".org") + st.ws() + rx(s[1], st))
        elif k == "if":
            L(st.kw(".if") + st.ws() + rx(s[1], st))
            self.block(s[2], out)
            if s[3] is not None:
                self.line(out, "", st.kw(".else"))
                self.block(s[3], out)
            self.line(out, "", st.kw(".endif"))
        elif k == "ifdef":
            self.line(out, "", st.kw(".ifndef" if s[2] else ".ifdef") + st.ws() + st.sym(s[1]))
            self.block(s[3], out, top)
            if s[4] is not None:
                self.line(out, "", st.kw(".else"))
                self.block(s[4], out, top)
            self.line(out, "", st.kw(".endif"))
        elif k == "repeat":
            L(st.kw(".repeat"))
            self.block(s[1], out)
            self.line(out, "", st.kw(".until") + st.ws() + rx(s[2], st))
        elif k == "do":
            L(st.kw(".do"))
            self.block(s[1], out)
            self.line(out, "", st.kw(".while") + st.ws() + rx(s[2], st))
        elif k == "while":
            L(st.kw(".while") + st.ws() + rx(s[1], st))
            self.block(s[2], out)
            self.line(out, "", st.kw(".wend"))
        elif k == "for":
            _, v, a, b, step, body = s
            t = st.kw(".for") + st.ws() + st.sym(v) + " = " + rx(a, st) + st.ws() + st.kw(".to") + st.ws() + rx(b, st)
            if step is not None:
                t += st.ws() + st.kw(".step") + st.ws() + rx(step, st)
            L(t)
            self.block(body, out)
            self.line(out, "", st.kw(".next") + st.ws() + st.sym(v))
        elif k == "reg":
            _, r, a, d, b, body = s
            L(st.kw(".for") + st.ws() + st.kw(".reg" + r) + " = " + rx(a, st) + st.ws() + st.kw("." + d) + st.ws() + rx(b, st))
            self.block(body, out)
            self.line(out, "", st.kw(".next") + st.ws() + st.kw(r))
        elif k == "macro":
            L(st.alt(".macro", ".mac") + st.ws() + st.sym(s[1]))
            self.block(s[2], out)
            self.line(out, "", st.alt(".endmacro", ".endm"))
        elif k == "call":
            L(st.sym(s[1]) + (st.ws() + ritems(s[2], st) if s[2] else ""))
        elif k == "var":
            L(st.kw(".var") + st.ws() + ", ".join(st.sym(n) + (" = " + rx(e, st) if e is not None else "") for n, e in s[1]))
        elif k == "section":
            L(st.alt(".section", ".sect") + st.ws() + st.sym(s[1]))
        elif k == "ends":
            L(st.alt(".endsection", ".ends"))
        elif k == "inc":
            sub = []
            self.block(s[2], sub, top)
            self.files[s[1]] = self.eol.join(l.replace("\n", self.eol) for l in sub) + self.eol
            L(st.kw(".inc") + st.ws() + '"%s"' % s[1])
        elif k == "cpu":
            L(st.kw("." + s[1]) + st.ws() + st.kw("on"))
        elif k == "illegal":
            L(st.kw(".illegal") + st.ws() + st.kw("on" if s[1] else "off"))
        elif k == "end":
            L(st.kw(".end"))
        elif k == "print":
            L((st.kw(".print") if not (st.rng and st.synonyms and st.rng.random() < .5) else "?") + st.ws() + ritems(s[1], st))
        elif k == "printonoff":
            L(st.kw(".print") + " " + st.kw("on" if s[1] else "off"))
        elif k in ("note", "raw"):
            out.append(s[1])
        else:
            raise ValueError(k)


def render(stmts, st=PLAIN, eol="\n", top="a.asm"):
    r = Render(st, eol)
    r.text(stmts, top)
    return r.files


# ---------------------------------------------------------------- reference assembler

class Ref:
    MAXPASS = 18

    def __init__(self, cpu="6502", illegal=False, defines=None, start=0x1000):
        self.cpu0, self.illegal0, self.start = cpu, illegal, start
        self.defines0 = defines
        self.syms = {}
        for n, v in (defines or {}).items():
            self.syms[n.lower()] = v
        self.predefined = set(self.syms)
        self.vars = set()
        self.macros = {}
        self.labels = set()
        self.names = {}          # lower -> as written

    # names
    def full(self, name):
        name = name.lower()
        if "." in name or not self.scope:
            return name
        return ".".join(self.scope) + "." + name

    def find(self, name):
        name = name.lower()
        if "." not in name and self.scope:
            f = self.full(name)
            if f in self.syms:
                return f
        if "." in name and self.scope:
            f = ".".join(self.scope) + "." + name
            if f in self.syms:
                return f
        return name if name in self.syms else None

    def define(self, name, v):
        f = self.full(name)
        if f not in self.syms and name.lower() in self.syms and "." not in name:
            f = name.lower()      # an outer symbol of that name is redefined (generators avoid it)
        if f in self.vars:
            self.syms[f] = v
            return
        if v & ~0xFFFF:
            self.pending = True
        if f in self.defined_now and self.defined_now[f] != v:
            raise AsmError("redefined " + f)
        self.defined_now[f] = v
        self.names.setdefault(f, name)
        if self.syms.get(f) != v:
            self.changed += 1
        self.syms[f] = v

    # expressions: (value, known)
    def ev(self, e):
        k = e[0]
        if k == "n":
            return wrap(e[1]), True
        if k == "s":
            f = self.find(e[1])
            if f is None:
                self.unres += 1
                return 0, False
            return self.syms[f], True
        if k == "pc":
            return self.pc, True
        if k == "loc":
            f = "%s__%s" % (self.lastlabel, e[1].lower())
            if f not in self.locs:
                self.unres += 1
                return 0, False
            return self.locs[f], True
        if k == "pm":
            v = self.plusminus(e[1], e[2])
            if v is None:
                self.unres += 1
                return 0, False
            return v, True
        if k == "p":
            return self.params[-1].get(e[1], 0), True
        if k == "neg":
            v, o = self.ev(e[1])
            return wrap(-v), o
        if k == "lo":
            v, o = self.ev(e[1])
            return v & 0xFF, o
        if k == "hi":
            v, o = self.ev(e[1])
            return v >> 8 & 0xFF, o
        if k == "not":
            v, o = self.ev(e[1])
            return int(not v), o
        if k == "inv":
            v, o = self.ev(e[1])
            return ~v & (0xFFFF if v & ~0xFF else 0xFF), o
        if k == "b":
            l, a = self.ev(e[2])
            try:
                r, b = self.ev(e[3])
            except AsmError as x:
                if e[1] in ("||", "&&"):
                    raise Ambiguous(str(x))
                raise
            if not (a and b) and (e[1] == "/" and r == 0 or e[1] in ("<<", ">>")):
                return 0, False
            return binop(e[1], l, r), a and b
        raise ValueError(e)

    def val(self, e):
        return self.ev(e)[0]

    # +/- labels are numbered in source order
    def plusminus(self, ch, depth):
        if ch == "-":
            seen = [v for v in self.pm_now["-"]]
            return seen[-depth] if len(seen) >= depth else None
        idx = len(self.pm_now["+"]) + depth - 1
        old = self.pm_old["+"]
        return old[idx] if idx < len(old) else None

    def emit(self, bs, kind):
        if bs:
            self.recs.append((self.pc, bytes(bs), kind))
            self.ords.append(self.cur if kind == "branch" else None)
        self.pc += len(bs)
        if self.pc > 0x10000:
            raise AsmError("pc")

    forced = ()     # ordinals of branches that are kept in their long form

    def relaxed(self, image, header=0):
        """The size of a branch and the distance to its target depend on each other, so that there can be more than
        one consistent layout: a forward branch that would just reach if it were short may not once it is long.
        If image takes the long form at branches this run kept short, the run is repeated with those long;
        the result is accepted only if each of them really is out of range in that layout."""
        cur = self
        for _ in range(6):
            off, long_ = header, set(cur.forced)
            for (pc, b, kind), n in zip(cur.recs, cur.ords):
                got = image[off:off + 5]
                if n is not None and len(b) == 2:
                    mn = C.MNEMONIC_REL[b[0]]
                    j = got[:1] == b"\x4c" if mn == "bra" else got[:1] == bytes([C.table(self.cpu0, self.illegal0)[C.INVERSE[mn], "rel"]]) and got[1:3] == b"\x03\x4c"
                    if j:
                        long_.add(n)
                        off += 3 if mn == "bra" else 5
                        continue
                off += len(b)
            if long_ == set(cur.forced):
                return cur
            nxt = Ref(self.cpu0, self.illegal0, self.defines0, self.start)
            nxt.forced = long_
            try:
                nxt.run(self.stmts)
            except AsmError:
                return cur
            if nxt.inrange:
                return cur
            cur = nxt
        return cur

    def run(self, stmts):
        self.stmts = stmts
        self.pm_old = {"+": [], "-": []}
        self.locs = {}
        self.last = None
        for self.passno in range(1, self.MAXPASS):
            self.changed = self.unres = 0
            self.pending = False
            self.pc = self.start
            self.recs = []
            self.ords = []           # the ordinal of the branch a record belongs to, or None
            self.nbranch = 0
            self.inrange = 0         # branches forced long that would reach
            self.scope = []
            self.lastlabel = ""
            self.defined_now = {}
            self.params = [{}]
            self.pm_now = {"+": [], "-": []}
            self.nloc = {}
            self.callno = {}
            self.cpu, self.illegal = self.cpu0, self.illegal0
            self.ended = False
            self.orgseen = False
            self.maxpc = 0
            self.printed = []
            self.rel_long = 0
            self.regdepth = {"x": 0, "y": 0}
            self.block(stmts, True)
            if self.nloc != self.locs:
                self.changed += 1
                self.locs = dict(self.nloc)
            if self.pm_now != self.pm_old:
                self.changed += 1
                self.pm_old = self.pm_now
            if self.changed == 0 and self.unres == 0:
                break
        else:
            raise AsmError("no fixed point" if not self.unres else "unresolved")
        if self.pending:
            raise AsmError("range")
        return self

    @property
    def image(self):
        return b"".join(r[1] for r in self.recs)

    @property
    def origin(self):
        return self.recs[0][0] if self.recs else self.start

    def contiguous(self):
        pc = None
        for a, b, _ in self.recs:
            if pc is not None and a != pc:
                return False
            pc = a + len(b)
        return True

    def block(self, stmts, top=False):
        for s in stmts:
            if self.ended:
                return
            self.stmt(s, top)

    def label(self, name):
        if name[0] == "@":
            f = "%s__%s" % (self.lastlabel, name.lower())
            if f in self.nloc and self.nloc[f] != self.pc:
                raise AsmError("local redefined")
            self.nloc[f] = self.pc
            if self.locs.get(f) != self.pc:
                self.changed += 1
                self.locs[f] = self.pc
        elif name in "+-":
            self.pm_now[name].append(self.pc)
        else:
            self.lastlabel = name.lower()
            self.labels.add(self.full(name))
            self.define(name, self.pc)

    def stmt(self, s, top=False):
        k = s[0]
        if k == "l":
            self.label(s[1])
            return self.stmt(s[2], top)
        if k == "lab":
            return self.label(s[1])
        if k == "op":
            return self.op(s)
        if k in ("byte", "word"):
            size = 1 if k == "byte" else 2
            for it in s[1]:
                if it[0] == "str":
                    b = it[1]
                    if size == 2 and len(b) % 2:
                        b += b"\0"
                    self.emit(b, "str")
                    continue
                v, known = self.ev(it)
                if known and not (-254 <= v <= 255 if size == 1 else -65534 <= v <= 65535):
                    self.pending = True
                self.emit((v & (1 << 8 * size) - 1).to_bytes(size, "little"), k)
            return
        if k == "str":
            for it in s[1]:
                if it[0] == "str":
                    self.emit(it[1], "str")
                    continue
                v, known = self.ev(it)
                if not -65534 <= v <= 65535:
                    self.pending = True
                self.emit((v & 0xFFFF).to_bytes(1 if 0 <= v <= 255 else 2, "little"), "strint")
            return
        if k == "fill":
            b, n = self.val(s[1]), self.val(s[2])
            if not 0 <= b <= 255 or n < 0:
                raise AsmError("fill")
            self.emit(bytes([b]) * n, "fill")
            return
        if k == "ds":
            n = self.val(s[1])
            if n < 0:
                raise AsmError("ds")
            self.pc += n
            return
        if k == "load":
            for i in range(0, len(s[2]), 2):
                self.emit(s[2][i:i + 2], "load")
            return
        if k == "equ":
            v, known = self.ev(s[2])
            self.define(s[1], v)
            return
        if k == "setpc":
            self.pc = self.val(s[1])
            return
        if k == "org":
            if self.orgseen:
                raise AsmError("org twice")
            self.orgseen = True
            self.pc = self.val(s[1])
            return
        if k == "if":
            if self.val(s[1]):
                self.block(s[2])
            elif s[3] is not None:
                self.block(s[3])
            return
        if k == "ifdef":
            # generators only test symbols whose definition does not depend on the position
            d = self.find(s[1]) is not None
            if d != bool(s[2]):
                self.block(s[3], top)
            elif s[4] is not None:
                self.block(s[4], top)
            return
        if k == "repeat":
            while True:
                self.block(s[1])
                self.loopguard()
                if self.val(s[2]):
                    return
        if k == "do":
            while True:
                self.block(s[1])
                self.loopguard()
                if not self.val(s[2]):
                    return
        if k == "while":
            while self.val(s[1]):
                self.block(s[2])
                self.loopguard()
            return
        if k == "for":
            _, v, a, b, step, body = s
            st = 1 if step is None else self.val(step)
            f = self.find(v)
            if f is None:
                f = v.lower()
            self.syms[f] = self.val(a)
            end = self.val(b)
            while not (st > 0 and self.syms[f] > end or st < 0 and self.syms[f] < end):
                self.block(body)
                self.loopguard()
                self.syms[f] = wrap(self.syms[f] + st)
            return
        if k == "reg":
            return self.reg(s)
        if k == "macro":
            self.macros[s[1].lower()] = s[2]
            return
        if k == "call":
            name = s[1].lower()
            vals = [self.val(x) for x in s[2]]
            for v in vals:
                if v & ~0xFFFF:
                    self.pending = True
            p = dict(self.params[-1])
            p.update({i + 1: v for i, v in enumerate(vals)})
            n = self.callno.get(name, 0)
            save = self.lastlabel
            self.params.append(p)
            self.lastlabel = "%s::%X" % (name, n)
            self.block(self.macros[name])
            self.callno[name] = n + 1
            self.lastlabel = save
            self.params.pop()
            return
        if k == "var":
            for n, e in s[1]:
                f = self.full(n)
                self.vars.add(f)
                self.syms[f] = 0
                if e is not None:
                    self.syms[f] = self.val(e)
            return
        if k == "section":
            self.scope.append(s[1].lower())
            return
        if k == "ends":
            if not self.scope:
                raise AsmError("ends")
            self.scope.pop()
            return
        if k == "inc":
            return self.block(s[2], top)
        if k == "cpu":
            self.cpu = s[1].lower()
            return
        if k == "illegal":
            self.illegal = s[1]
            return
        if k == "end":
            self.ended = True
            return
        if k == "print":
            row = []
            for it in s[1]:
                row.append(it[1] if it[0] == "str" else self.val(it))
            self.printed.append(row)
            return
        if k in ("note", "printonoff"):
            return
        raise ValueError(k)

    def loopguard(self):
        self.steps = getattr(self, "steps", 0) + 1
        if self.steps > 200000:
            raise AsmError("loop")

    def reg(self, s):
        _, r, a, d, b, body = s
        a, b = self.val(a), self.val(b)
        if not (0 <= a <= 255 and 0 <= b <= 255):
            raise AsmError("reg range")
        if self.regdepth[r]:
            raise AsmError("reg nested")
        if (a > b) if d == "to" else (a < b):
            return
        x = r == "x"
        self.regdepth[r] += 1
        self.emit(bytes([0xA2 if x else 0xA0, a]), "op")
        top = self.pc
        self.block(body)
        self.regdepth[r] -= 1
        if a == b:
            return
        self.emit(bytes([(0xE8 if x else 0xC8) if d == "to" else (0xCA if x else 0x88)]), "op")
        # count up: compare with the value that ends the loop, unless the register wraps to it
        if d == "to":
            if b < 255:
                self.emit(bytes([0xE0 if x else 0xC0, b + 1]), "op")
                br = "bcc"
            else:
                br = "bne"
        else:
            if b > 0:
                self.emit(bytes([0xE0 if x else 0xC0, b]), "op")
            br = "bcs"
        self.branch(br, top, True)

    def branch(self, mn, target, known):
        tab = C.table(self.cpu, self.illegal)
        if (mn, "rel") not in tab:
            raise AsmError("opcode " + mn)
        off = target - (self.pc + 2)
        self.cur = self.nbranch
        self.nbranch += 1
        reach = -128 <= off <= 127
        if reach and self.cur in self.forced:
            self.inrange += 1
        if known and (not reach or self.cur in self.forced):
            if target & ~0xFFFF:
                self.pending = True
            self.rel_long += 1
            if mn != "bra":
                self.emit(bytes([tab[C.INVERSE[mn], "rel"], 3]), "branch")
            self.emit(bytes([0x4C, target & 255, target >> 8 & 255]), "branch")
        else:
            self.emit(bytes([tab[mn, "rel"], off & 255]), "branch")

    def op(self, s):
        _, mn, syn, e = s
        tab = C.table(self.cpu, self.illegal)
        if not C.exists(tab, mn, syn):
            raise AsmError("opcode %s %s" % (mn, syn))
        v, known = (0, True) if e is None else self.ev(e)
        if syn == "e" and (mn, "rel") in tab:
            return self.branch(mn, v, known)
        if not known:
            # assume the larger form until the value is known
            modes = [m for m in C.SYNTAX[syn] if (mn, m) in tab]
            mode = modes[-1]
        else:
            r = C.select(tab, mn, syn, v)
            if r is None:
                mode = [m for m in C.SYNTAX[syn] if (mn, m) in tab][-1]
                self.pending = True
            else:
                mode = r[0]
        n = C.SIZE[mode] - 1
        if n == 1 and not -255 <= v <= 255 or n == 2 and not -65535 <= v <= 65535:
            self.pending = True
        bs = bytes([tab[mn, mode]]) + ((v & (1 << 8 * n) - 1).to_bytes(n, "little") if n else b"")
        self.emit(bs, "op")
