"""Random valid programs as data (see asmlib). Every program has one meaning, which the reference computes."""
import cpu as C
import asmlib as A


class Prog:
    def __init__(self):
        self.stmts = []
        self.cpu, self.illegal = "6502", False
        self.defines = {}
        self.feats = set()

    def ref(self):
        return A.Ref(self.cpu, self.illegal, self.defines).run(self.stmts)


FEATS = ("macro", "for", "while", "repeat", "if", "ifdef", "section", "local", "pm", "inc", "load", "reg", "str", "expr",
         "branch", "equ", "var", "setpc0", "fwdconst", "end", "defines", "cpu", "illegal", "nestmacro")

RESERVED = {"a", "x", "y"}


class Gen:
    def __init__(self, rng, size=40, feats=None, names=None):
        self.rng = rng
        self.size = size
        self.f = set(feats) if feats is not None else {f for f in FEATS if rng.random() < 0.55}
        if "inc" in self.f or "section" in self.f:
            self.f.discard("pm")
        self.p = Prog()
        self.p.feats = self.f
        self.uid = 0
        self.consts, self.zps, self.vars, self.macros = [], [], [], []
        self.labels = []          # (name, section path)
        self.path = []
        self.regs = set()
        self.locals = []
        self.nargs = 0
        self.depth = 0
        self.inmacro = False
        self.nowhile = 0
        self.mlocals = []
        self.pm_ok = False

    def name(self, base):
        r = self.rng
        self.uid += 1
        style = r.randrange(6)
        if style == 0:
            return "%s_%d" % (base, self.uid)
        if style == 1:
            return "%s%dA" % (base.upper(), self.uid)
        if style == 2:
            return "%s%d_longer_name" % (base, self.uid)
        return "%s%d" % (base, self.uid)

    # ---- program
    def make(self):
        r, p = self.rng, self.p
        f = self.f
        if "cpu" in f:
            p.cpu = "65c02"
        elif "illegal" in f:
            p.illegal = True
        self.tab = C.table(p.cpu, p.illegal)
        self.forms = {}
        for (mn, mode) in self.tab:
            if mode != "rel":
                self.forms.setdefault(mode, []).append(mn)
        for k in self.forms:
            self.forms[k].sort()
        head, tail = [], []
        if "setpc0" in f:
            org = r.choice((0x200, 0x400, 0x801, 0x1000, 0x2000, 0x4321, 0x8000, 0xC000, 0, 0x20, 0xC0))
            head.append(("setpc", ("n", org)) if r.random() < 0.7 else ("org", ("n", org)))
        if "defines" in f:
            for _ in range(r.randrange(1, 4)):
                n = self.name("def")
                p.defines[n] = r.choice((0, 1, 2, 255, 256, 0x1234, r.randrange(65536)))
                (self.zps if p.defines[n] < 256 else self.consts).append(n)
        for _ in range(r.randrange(1, 5)):
            n = self.name("zp")
            self.zps.append(n)
            (tail if "fwdconst" in f and r.random() < 0.4 else head).append(("equ", n, ("n", r.randrange(1, 256))))
        for _ in range(r.randrange(1, 4)):
            n = self.name("con")
            self.consts.append(n)
            (tail if "fwdconst" in f and r.random() < 0.4 else head).append(("equ", n, ("n", r.randrange(256, 65536))))
        self.known = [s[1] for s in head if s[0] == "equ"] + list(p.defines)
        if f & {"var", "for", "while", "repeat"}:
            for _ in range(r.randrange(1, 4)):
                n = self.name("v")
                self.vars.append(n)
            head.append(("var", [(n, ("n", r.randrange(0, 9)) if r.random() < 0.7 else None) for n in self.vars]))
        # the labels are planned first, so that anything may refer to any of them
        nlab = r.randrange(2, max(3, self.size // 5))
        plan = []
        path = []
        for k in range(nlab):
            if "section" in f and r.random() < 0.25:
                if path and r.random() < 0.5:
                    plan.append(("ends",))
                    path = path[:-1]
                elif len(path) < 3:
                    s = self.name("sec")
                    plan.append(("section", s))
                    path = path + [s]
            n = self.name("lab")
            plan.append(("lab", n))
            self.labels.append((n, tuple(path)))
        while path:
            plan.append(("ends",))
            path = path[:-1]
        if "macro" in f:
            for _ in range(r.randrange(1, 4)):
                head.append(self.macrodef())
        body = []
        per = max(1, self.size // nlab)
        for it in plan:
            if it[0] in ("section", "ends"):
                self.locals = []        # a local label belongs to its section
            if it[0] == "section":
                self.path.append(it[1])
                body.append(it)
                body += self.items(r.randrange(0, 2))
                continue
            if it[0] == "ends":
                self.path.pop()
                body.append(it)
                continue
            self.locals = ["@l%d" % k for k in range(r.randrange(1, 4))] if "local" in f else []
            seg = self.segment(r.randrange(0, 2 * per + 1))
            if seg and seg[0][0] in ("op", "byte", "word", "fill", "str", "load") and r.random() < 0.5:
                seg[0] = ("l", it[1], seg[0])
                body += seg
            else:
                body += [it] + seg
        self.locals = []
        if "inc" in f:
            body = self.split(body)
        p.stmts = head + body + tail
        if "pm" in f:
            self.plusminus()
        if "end" in f and r.random() < 0.5:
            p.stmts += [("end",)]
        return p

    def segment(self, n):
        """statements between two labels, with the local labels of this scope placed among them"""
        items = self.items(n)
        for l in self.locals:
            items.insert(self.rng.randrange(len(items) + 1), ("lab", l))
        return items

    def split(self, body):
        """moves a balanced run of statements into an included file, perhaps one inside the other"""
        r = self.rng
        for _ in range(r.randrange(1, 3)):
            if len(body) < 4:
                break
            a = r.randrange(0, len(body) - 2)
            b = r.randrange(a + 1, min(len(body), a + 12))
            run = body[a:b]
            bal, ok = 0, True
            for s in run:
                bal += s[0] == "section"
                bal -= s[0] == "ends"
                if bal < 0:
                    ok = False
            if bal != 0 or not ok:
                continue
            self.uid += 1
            body = body[:a] + [("inc", "inc%d_%d.asm" % (r.randrange(10 ** 6), self.uid), run)] + body[b:]
        return body

    def plusminus(self):
        """anonymous labels at the top level, with references both ways"""
        r = self.rng
        st = self.p.stmts
        first = next((k for k, s in enumerate(st) if s[0] in ("lab", "l")), None)
        if first is None:
            return
        pos = [k for k in range(first, len(st))]
        n = r.randrange(1, 5)
        ins = {}
        for _ in range(n):
            ins.setdefault(r.choice(pos), []).append(("lab", r.choice("+-")))
        out = []
        for k, s in enumerate(st):
            out += ins.get(k, [])
            out.append(s)
        # references
        res = []
        minus = 0
        total = sum(1 for s in out if s == ("lab", "+"))
        plus = 0
        for k, s in enumerate(out):
            res.append(s)
            if s == ("lab", "-"):
                minus += 1
            if s == ("lab", "+"):
                plus += 1
            if k >= first and r.random() < 0.15:
                if minus and r.random() < 0.5:
                    res.append(("op", "jmp", "e", ("pm", "-", r.randrange(1, min(3, minus) + 1))))
                elif total - plus > 0:
                    res.append(("op", "jmp", "e", ("pm", "+", r.randrange(1, min(3, total - plus) + 1))))
        self.p.stmts = res

    # ---- statements
    def items(self, n):
        out = []
        for _ in range(n):
            out += self.item()
        return out

    def item(self):
        r = self.rng
        f = self.f
        opts = ["op"] * 8 + ["byte", "word", "fill"]
        for k, w in (("str", 1), ("load", 1), ("if", 2), ("for", 2), ("while", 1), ("repeat", 1), ("reg", 1), ("macro", 3), ("equ", 1),
                     ("branch", 2), ("ifdef", 1)):
            if k in f:
                opts += [k] * w
        for _ in range(20):
            k = r.choice(opts)
            if k in ("if", "for", "while", "repeat", "reg", "ifdef") and (self.depth >= 3 or self.inmacro and self.depth >= 2):
                continue
            if k == "while" and self.nowhile:
                continue
            if k in ("for", "while", "repeat") and (self.path or not [v for v in self.vars if v not in self.busy()]):
                continue
            if k == "macro" and not self.macros:
                continue
            if k == "equ" and (self.inmacro or self.depth):
                continue
            if k == "load" and (self.inmacro or self.depth):
                continue
            if k == "branch" and not (self.locals or self.inmacro and self.mlocals):
                continue
            if k == "ifdef" and self.inmacro:
                continue
            return getattr(self, "s_" + k)()
        return self.s_op()

    _busy = ()

    def busy(self):
        return self._busy

    def blk(self, n=None):
        self.depth += 1
        out = self.items(self.rng.randrange(1, 4) if n is None else n)
        self.depth -= 1
        return out

    def s_op(self):
        r = self.rng
        mode = r.choice(("imm", "zp", "abs", "abs", "zpx", "zpy", "abx", "aby", "izx", "izy", "imp", "acc", "ind", "izp", "iax"))
        if mode not in self.forms:
            mode = "imm"
        mn = r.choice(self.forms[mode])
        if mode == "imp":
            return [("op", mn, "none", None)]
        if mode == "acc":
            return [("op", mn, "a" if r.random() < 0.5 else "none", None)]
        syn = {"imm": "#", "zp": "e", "abs": "e", "zpx": "e,x", "abx": "e,x", "zpy": "e,y", "aby": "e,y", "izx": "(e,x)", "izy": "(e),y",
               "ind": "(e)", "izp": "(e)", "iax": "(e,x)"}[mode]
        if mode == "imm":
            e = self.e_byte()
        elif mode in C.ZP_MODES:
            e = self.e_zp()
        else:
            e = self.e_abs()
        if r.random() < 0.04 and not self.inmacro:      # the low bytes of a negative number
            e = ("n", -r.randrange(1, 256)) if mode == "imm" or mode in C.ZP_MODES else ("n", -r.randrange(256, 65536))
        return [("op", mn, syn, e)]

    def s_branch(self):
        return [("op", self.rng.choice(C.BRANCHES), "e", ("loc", self.rng.choice(self.mlocals if self.inmacro else self.locals)))]

    def s_byte(self):
        r = self.rng
        out = []
        for _ in range(r.randrange(1, 9)):
            if "str" in self.f and r.random() < 0.2:
                out.append(("str", self.string()))
            elif r.random() < 0.1:
                out.append(("n", -r.randrange(1, 129)))
            else:
                out.append(self.e_byte())
        return [("byte", out)]

    def s_word(self):
        r = self.rng
        out = []
        for _ in range(r.randrange(1, 6)):
            if "str" in self.f and r.random() < 0.15:
                out.append(("str", self.string()))
            elif r.random() < 0.1:
                out.append(("n", -r.randrange(1, 32769)))
            else:
                out.append(self.e_abs() if r.random() < 0.7 else self.e_byte())
        return [("word", out)]

    def s_str(self):
        r = self.rng
        out = [("str", self.string())]
        for _ in range(r.randrange(0, 3)):
            k = r.random()
            if k < 0.3:
                out.append(("n", r.randrange(0, 256)))
            elif k < 0.45:
                out.append(("n", r.choice((255, 256, 257, 0xFF00, 0xFFFF, r.randrange(65536), -1, -r.randrange(1, 65535)))))
            elif k < 0.55:
                out.append(self.e_byte())
            elif k < 0.65:
                out.append(self.e_abs())
            else:
                out.append(("str", self.string()))
        return [("str", out)]

    def string(self):
        r = self.rng
        n = r.randrange(2, 20)
        while True:
            s = bytes(r.choice(b"abcXYZ 0123:;,.()#'*/<>=\"\\%$@!") if r.random() < 0.9 else r.choice((7, 9, 10, 13, 0x80, 0xFF, 0xA9)) for _ in range(n))
            if A.str_ok(s):
                return s

    def s_fill(self):
        r = self.rng
        return [("fill", ("n", r.randrange(256)), ("n", r.choice((0, 1, 2, 5, 16, 40))))]

    def s_load(self):
        r = self.rng
        d = bytes(r.randrange(256) for _ in range(r.choice((1, 2, 3, 16, 33))))
        self.uid += 1       # no two files of a program have the same name
        return [("load", "data%d_%d.bin" % (r.randrange(10 ** 6), self.uid), d)]

    def s_equ(self):
        r = self.rng
        n = self.name("k")
        if r.random() < 0.5 and self.labels:
            e = ("b", r.choice("+-"), self.e_label(), ("n", r.randrange(0, 20)))
            if self.path:
                return []
            self.consts.append(n)
            return [("equ", n, e)]
        if self.path:
            return []
        self.zps.append(n)
        return [("equ", n, ("n", r.randrange(1, 256)))]

    def cond(self):
        r = self.rng
        k = [("s", n) for n in self.known] + [("s", v) for v in self.vars if not self.inmacro]
        if not k or r.random() < 0.2:
            return ("n", r.randrange(2))
        e = ("b", r.choice(("==", "!=", "<", ">", "<=", ">=", "&")), r.choice(k), ("n", r.choice((0, 1, 2, 5, 255, 256))))
        if r.random() < 0.2:
            e = ("b", r.choice(("&&", "||")), e, ("b", "<", r.choice(k), ("n", 300)))
        if r.random() < 0.15:
            e = ("not", e)
        return e

    def s_if(self):
        return [("if", self.cond(), self.blk(), self.blk() if self.rng.random() < 0.5 else None)]

    def s_ifdef(self):
        r = self.rng
        n = r.choice(self.known + ["nosuch%d" % r.randrange(100)] * max(1, len(self.known)))
        return [("ifdef", n, r.random() < 0.5, self.blk(), self.blk() if r.random() < 0.5 else None)]

    def take(self):
        v = self.rng.choice([v for v in self.vars if v not in self._busy])
        self._busy = self._busy + (v,)
        return v

    def s_for(self):
        r = self.rng
        v = self.take()
        a = r.randrange(0, 6)
        step = r.choice((None, None, 1, 2, 3, -1))
        b = a + r.randrange(-1, 5) if step is None or step > 0 else a - r.randrange(0, 4)
        b = max(b, 0)
        body = self.blk()
        if r.random() < 0.7:
            body.append(("byte", [("s", v)]))
        self._busy = self._busy[:-1]
        return [("for", v, ("n", a), ("n", b), None if step is None else ("n", step), body)]

    def s_while(self):
        r = self.rng
        v = self.take()
        n = r.randrange(0, 5)
        do = r.random() < 0.4
        self.nowhile += do      # .while in a .do body ends the .do
        body = self.blk() + [("equ", v, ("b", "+", ("s", v), ("n", 1)))]
        self.nowhile -= do
        if r.random() < 0.5:
            body.insert(0, ("byte", [("s", v)]))
        self._busy = self._busy[:-1]
        c = ("b", "<", ("s", v), ("n", n))
        return [("equ", v, ("n", 0)), ("do", body, c) if do else ("while", c, body)]

    def s_repeat(self):
        r = self.rng
        v = self.take()
        n = r.randrange(1, 5)
        body = self.blk() + [("equ", v, ("b", "+", ("s", v), ("n", 1)))]
        self._busy = self._busy[:-1]
        return [("equ", v, ("n", 0)), ("repeat", body, ("b", ">=", ("s", v), ("n", n)))]

    def s_reg(self):
        r = self.rng
        free = [x for x in "xy" if x not in self.regs]
        if not free or self.inmacro:
            return self.s_op()
        x = r.choice(free)
        self.regs.add(x)
        save, self.f = self.f, self.f - {"macro"}
        body = self.blk(r.randrange(1, 3))
        self.f = save
        self.regs.discard(x)
        a = r.randrange(0, 200)
        b = r.choice((255, a + r.randrange(0, 50), a))
        return [("reg", x, ("n", a), "to", ("n", b), body)]

    def macrodef(self):
        r = self.rng
        n = self.name("mac")
        na = r.randrange(0, 4) if r.random() < 0.85 else r.randrange(4, 12)
        self.nargs, self.inmacro = na, True
        self.mlocals = ["@m%d" % k for k in range(r.randrange(0, 3))]
        save = self.f
        if "nestmacro" not in self.f or not self.macros:
            self.f = self.f - {"macro"}
        self.f = self.f - {"for", "while", "repeat", "ifdef", "reg"}
        body = self.items(r.randrange(1, 6))
        self.f = save
        for l in self.mlocals:
            body.insert(r.randrange(len(body) + 1), ("lab", l))
        self.inmacro, self.nargs, self.mlocals = False, 0, []
        self.macros.append((n, na))
        return ("macro", n, body)

    def s_macro(self):
        r = self.rng
        n, na = r.choice(self.macros)
        return [("call", n, [self.e_arg() for _ in range(na)])]

    # ---- expressions
    def e_label(self):
        n, path = self.rng.choice(self.labels)
        if path and tuple(self.path[:len(path)]) == path and len(self.path) == len(path) and not self.inmacro and self.rng.random() < 0.6:
            return ("s", n)
        return ("s", ".".join(path + (n,)))

    def e_arg(self):
        r = self.rng
        k = r.random()
        if k < 0.4:
            return ("n", r.randrange(0, 256))
        if k < 0.6:
            return ("n", r.randrange(256, 65536))
        if k < 0.8:
            return self.e_label()
        return ("s", r.choice(self.zps + self.consts))

    def e_byte(self):
        r = self.rng
        k = r.random()
        if self.inmacro and self.nargs and k < 0.35:
            return ("b", "&", ("p", r.randrange(1, self.nargs + 1)), ("n", 255))
        if k < 0.45:
            return ("n", r.randrange(256))
        if k < 0.55:
            return ("s", r.choice(self.zps))
        if k < 0.7:
            return ("b", "+", (r.choice(("lo", "hi")), self.e_label()), ("n", 0))
        if k < 0.8 and "expr" in self.f:
            return ("b", "&", ("b", r.choice("+-*^|"), self.e_any(), self.e_any()), ("n", 255))
        if k < 0.85 and not self.inmacro and self.vars:
            return ("b", "&", ("s", r.choice(self.vars)), ("n", 255))
        return ("b", r.choice((">>", "/")), ("n", r.randrange(256)), ("n", r.randrange(1, 5)))

    def e_any(self):
        r = self.rng
        k = r.random()
        if k < 0.3:
            return self.e_label()
        if k < 0.5:
            return ("s", r.choice(self.consts + self.zps))
        if k < 0.6:
            return ("pc",)
        return ("n", r.randrange(65536))

    def e_zp(self):
        r = self.rng
        if r.random() < 0.5:
            return ("s", r.choice(self.zps))
        return ("n", r.randrange(256))

    def e_abs(self):
        r = self.rng
        k = r.random()
        if self.inmacro and self.nargs and k < 0.3:
            return ("p", r.randrange(1, self.nargs + 1))
        if k < 0.55:
            e = self.e_label()
            if r.random() < 0.3:
                return ("b", "+", e, ("n", r.randrange(0, 200)))
            return e
        if k < 0.65:
            return ("s", r.choice(self.consts))
        if k < 0.7 and (self.mlocals if self.inmacro else self.locals):
            return ("loc", r.choice(self.mlocals if self.inmacro else self.locals))
        if k < 0.75:
            return ("b", "+", ("pc",), ("n", r.randrange(0, 100)))
        return ("n", r.randrange(256, 65536))


def program(rng, size=40, feats=None, tries=30):
    """a program and the finished reference run; retried until the reference accepts it"""
    why = None
    for _ in range(tries):
        p = Gen(rng, size, feats).make()
        try:
            ref = p.ref()
        except A.AsmError as e:
            why = e
            continue
        if ref.image and ref.pc <= 0xFF00:
            return p, ref
    raise RuntimeError("no program after %d tries: %s" % (tries, why))


def volume(rng):
    """a program with many of everything: the tables of the assembler grow a number of times"""
    def n(*c):
        return rng.choice((0, 0, 1, 10, 30) + c)
    t = [("setpc", ("n", 0x1000))]
    a = n(100, 700, 1300, 2500, 4000)
    parts = []
    parts.append([("l", "label%d" % j, ("byte", [("lo", ("s", "label%d" % rng.randrange(a)))])) for j in range(a)])
    b = n(100, 400, 1000)
    parts.append([("equ", "con%d" % j, ("b", "+", ("s", "con%d" % (j - 1)), ("n", 1)) if j else ("n", 5)) for j in range(b)]
                 + [("word", [("s", "con%d" % rng.randrange(b))]) for _ in range(min(b, 20))])
    m = n(40, 200, 500)
    parts.append([("macro", "mac%d" % j, [("lab", "@a"), ("byte", [("p", 1), ("lo", ("loc", "@a"))])]) for j in range(m)]
                 + [("call", "mac%d" % rng.randrange(m), [("n", rng.randrange(256))]) for _ in range(m)])
    part = []
    for j in range(n(40, 200, 500)):
        part += [("section", "part%d" % j), ("l", "in%d" % j, ("byte", [("lo", ("s", "in%d" % j))])), ("ends",), ("word", [("s", "part%d.in%d" % (j, j))])]
    parts.append(part)
    parts.append([("inc", "file%d.inc" % j, [("l", "inc%d" % j, ("byte", [("n", j & 255)]))]) for j in range(n(20, 60, 200))])
    k = n(40, 120, 300)
    parts.append([s for j in range(k) for s in (("l", "+", ("byte", [("n", 1)])), ("l", "-", ("byte", [("n", 2)])), ("op", "jmp", "e", ("pm", "-", rng.randrange(1, min(3, j + 1) + 1))),
                                                 ("op", "jmp", "e", ("pm", "+", 1)))] + ([("l", "+", ("op", "nop", "none", None))] if k else []))
    parts.append([s for j in range(n(100, 600)) for s in (("l", "glob%d" % j, ("byte", [("n", 1)])), ("l", "@loc", ("byte", [("lo", ("loc", "@loc"))])))])
    rng.shuffle(parts)
    def fresh(x):
        # no statement is the same object as another one
        return tuple(fresh(y) for y in x) if isinstance(x, tuple) else [fresh(y) for y in x] if isinstance(x, list) else x
    for p in parts:
        t += p
    return fresh(t)


def volume_program(rng):
    p = Prog()
    p.feats = {"pm", "volume"}
    while True:
        p.stmts = volume(rng)
        ref = p.ref()
        if ref.image:
            return p, ref
