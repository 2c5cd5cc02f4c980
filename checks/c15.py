"""C15: the listing's rows are the image: every byte at its address, with the instruction it is and the source line it comes from."""
import re
import asmlib as A
import cpu as C
import drive as D
import gen as G
from common import Out

PROP = "C15"
KINDS = ("plain",)
MIN_KEYS = 300
RULE = ("distinct (features of the program, shapes of rows) whose listing was parsed back and found equal to the image byte for byte and address for address, "
        "with the text of every row equal to its bytes and every row of a single top-level statement starting on that statement's source line")
ROW = re.compile(r"^\$([0-9A-F]{4}):((?: \$[0-9A-F]{2})+) *(\S.*)?$")
COL = 45


def plan(tier):
    return 10000 if tier == "quick" else 100000


class Tagged(A.Style):
    """every source line that carries something ends in a comment of its own"""

    def __init__(self, wild=None):
        super().__init__(wild, *([True] * 9 if wild else []))
        self.n = 0

    def tail(self):
        self.n += 1
        return " ;#%d#" % self.n

    def blanks(self):
        if self.rng is not None and self.rng.random() < 0.004:
            return [self.rng.choice(("", "; text", " "))] * self.rng.choice((100, 254, 255, 256, 300, 600, 1025))
        return [] if self.rng is None or self.rng.random() > 0.1 else [self.rng.choice(("", ";", "   ", "// x", "; .byte 1"))]


class Marked(A.Render):
    """remembers the tag of every simple statement at the top level"""

    def __init__(self, st):
        super().__init__(st)
        self.tag = {}

    def stmt(self, s, out, lab, top):
        n = self.st.n
        super().stmt(s, out, lab, top)
        if top and s[0] in ("op", "byte", "word", "str", "fill", "load"):
            self.tag[id(s)] = n + 1


class Traced(A.Ref):
    """remembers which simple statement at the top level a record is the first of"""
    def stmt(self, s, top=False):
        if top and s[0] in ("op", "byte", "word", "str", "fill", "load"):
            n = len(self.recs)
            super().stmt(s, top)
            if len(self.recs) > n:
                self.first.append((n, id(s)))
            return None
        return super().stmt(s, top)

    def block(self, stmts, top=False):
        if stmts is self.stmts:
            self.first = []
        return super().block(stmts, top)


def operand_text(mode, b, pc):
    lo = b[1] if len(b) > 1 else 0
    w = lo | b[2] << 8 if len(b) > 2 else lo
    return {"imp": "", "acc": "", "imm": "#$%02X" % lo, "zp": "$%02X" % lo, "zpx": "$%02X,x" % lo, "zpy": "$%02X,y" % lo, "izp": "($%02X)" % lo,
            "izx": "($%02X,x)" % lo, "izy": "($%02X),y" % lo, "abs": "$%04X" % w, "abx": "$%04X,x" % w, "aby": "$%04X,y" % w, "ind": "($%04X)" % w,
            "iax": "($%04X,x)" % w, "rel": "$%04X" % (pc + 2 + (lo - 256 if lo > 127 else lo) & 0xFFFF)}[mode]


TABS = {}
for t in (C.NMOS, C.NMOS_ILL, C.CMOS):
    for (mn, mode), code in t.items():
        TABS.setdefault(code, set()).add((mn, mode))


def row_text(text, bs, pc):
    """does the text of the row say what the bytes are"""
    if text.startswith(".db "):
        vals = []
        t = text[4:]
        while t:
            m = re.match(r"(?:'(.)'|\$([0-9A-F]{2}))(?:, |$)", t, re.S)
            if not m:
                return False
            vals.append(ord(m[1]) if m[1] is not None else int(m[2], 16))
            t = t[m.end():]
        return bytes(vals) == bs
    for mn, mode in TABS.get(bs[0], ()):
        if text.lower() == (mn + " " + operand_text(mode, bs, pc)).strip().lower() and len(bs) == C.SIZE[mode]:
            return True
    return False


def same_names(rng, files):
    """include files get the same name in different directories, or names that differ only in case"""
    names = [n for n in files if n != "a.asm"]
    case = rng.random() < 0.4 and len(names) < 16
    for k, n in enumerate(names):
        new = "d%d/%s" % (k, rng.choice(("x.inc", "X.INC", "a.asm", "y.s")))
        if case:
            t = [c.upper() if (k + 1) >> j & 1 else c for j, c in enumerate("aasm")]
            new = t[0] + "." + "".join(t[1:])
        files = {f: re.sub(r'(?i)(\.inc\s+)"%s"' % re.escape(n), lambda m: m[1] + '"' + new + '"', t) if isinstance(t, str) else t for f, t in files.items()}
        if isinstance(files[n], str):
            files[new] = files.pop(n)
    return files


def headings(lst, files):
    """the first source line that is not under the heading of its file"""
    of = {t: f for f, text in files.items() if isinstance(text, str) for t in re.findall(r";#(\d+)#", text)}
    now = None
    for k, l in enumerate(lst.decode("latin-1").split("\n")):
        if l.startswith("; Processing "):
            now = l[13:].strip()
        for t in re.findall(r";#(\d+)#", l[COL:]):
            if of.get(t) != now:
                return k + 1, of.get(t), now
    return None


def in_order(files, name):
    """the tags of the source lines, those of an include file after the line that includes it"""
    out = []
    for l in files[name].split("\n"):
        out += re.findall(r";#(\d+)#", l)
        m = re.match(r'(?i)[^;]*\.inc\s+"([^"]*)"', l)
        if m:
            out += in_order(files, m[1])
    return out


def parse(lst):
    rows, other = [], []
    for k, l in enumerate(lst.decode("latin-1").split("\n")):
        m = ROW.match(l[:COL].rstrip())
        if m:
            bs = bytes(int(x, 16) for x in m[2].replace("$", "").split())
            rows.append((int(m[1], 16), bs, (m[3] or "").strip(), l[COL:].rstrip(), k + 1))
        elif l[:COL].strip() and not l.startswith("; Processing "):
            other.append((k + 1, l))
    return rows, other


def edge(env, o, rng, i):
    """the bytes go over the end of the address space"""
    at = 0x10000 - rng.randrange(0, 24)
    lines, image = [" * = $%04X" % at] if at < 0x10000 else [" * = $FFFF", " nop"], bytearray(b"" if at < 0x10000 else b"\xea")
    at = min(at, 0xFFFF)
    files = {}
    for k in range(rng.randrange(1, 7)):
        v = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 20)))
        how = rng.choice(("byte", "str", "word", "nop", "lda", "sta", "load", "fill"))
        if how == "byte":
            lines.append(" .byte " + ", ".join("$%02X" % x for x in v))
        elif how == "str":
            v = bytes(97 + x % 26 for x in v)
            lines.append(' .str "%s"' % v.decode())
        elif how == "word":
            v = v[:len(v) & ~1] or b"\x01\x02"
            lines.append(" .word " + ", ".join("$%04X" % (v[j] | v[j + 1] << 8) for j in range(0, len(v), 2)))
        elif how == "nop":
            v = b"\xea"
            lines.append(" nop")
        elif how == "lda":
            v = b"\xa9" + v[:1]
            lines.append(" lda #%d" % v[1])
        elif how == "sta":
            v = b"\x8d" + v[:1] + b"\x12"
            lines.append(" sta $12%02x" % v[1])
        elif how == "fill":
            v = v[:1] * len(v)
            lines.append(" .fill %d, %d" % (v[0], len(v)))
        else:
            files["f%d.bin" % k] = v
            lines.append(' .load "f%d.bin"' % k)
        image += v
    files["a.asm"] = "\n".join(lines) + "\n"
    r = D.asm(env, files, lst="l.lst")
    o.ev()
    if r.status != "ok" or r.image != image:
        o.violation("case %d (end of the address space): %s" % (i, r.status if r.status != "ok" else D.diff(image, r.image)), **D.saved(r))
        return
    rows, other = parse(r.lst)
    got = [((a + k) & 0xFFFF, b) for a, bs, _, _, _ in rows for k, b in enumerate(bs)]
    want = [((at + k) & 0xFFFF, b) for k, b in enumerate(image)]
    if other or got != want:
        k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
        o.violation("case %d (end of the address space): %s" % (i, "listing line %d is no row: %s" % (other[0][0], other[0][1][:60]) if other else
                    "byte %d of the image is %s, in the listing it is %s" % (k, want[k:k + 1], got[k:k + 1])), **D.saved(r, **{"list.lst": r.lst}))
        return
    o.key(("edge", len(image), at))
    o.stats["bytes over the end of the address space"] += max(0, at + len(image) - 0x10000)


def case(env, i, rng):
    o = Out()
    if i % 31 == 5:
        edge(env, o, rng, i)
        return o
    feats = {f for f in G.FEATS if rng.random() < 0.5} - {"end"}
    p, ref = G.volume_program(rng) if i % 50 == 24 else G.program(rng, rng.choice((5, 20, 60)), feats)
    feats = p.feats if "volume" in p.feats else feats
    st = Tagged(rng if i % 3 == 0 else None)
    rd = Marked(st)
    inputs = ["a.asm"]
    if "pm" not in feats and rng.random() < 0.25 and len(p.stmts) > 3:
        inputs = ["in1.asm", "in2.asm", "a.asm"][rng.randrange(2):]
        cut = sorted(rng.sample(range(1, len(p.stmts)), len(inputs) - 1))
        for f, a, b in zip(inputs, [0] + cut, cut + [None]):
            rd.text(p.stmts[a:b], top=f)
    else:
        rd.text(p.stmts)
    if len(inputs) == 1 and rng.random() < 0.5:
        rd.files = same_names(rng, rd.files)
    if i % 7 == 0:
        # lines longer than any buffer for them
        t = rd.files["a.asm"].split("\n")
        k = rng.randrange(len(t) - 1)
        t[k] += (" " if "#" in t[k] else " ; ") + "x" * rng.choice((1000, 2040, 2047, 2048, 2049, 5000, 7000))
        rd.files["a.asm"] = "\n".join(t)
    opts = D.copts(p.cpu, p.illegal, p.defines)
    r0 = D.asm(env, rd.files, opts, inputs=inputs)
    r = D.asm(env, rd.files, opts, lst="l.lst", inputs=inputs)
    o.ev(2)
    if not D.compare(o, r, ref, "case %d" % i):
        return o
    if r0.image != r.image or r0.run.rc != r.run.rc:
        o.violation("case %d: asking for a listing changed the image or the exit status" % i, **D.saved(r))
        return o
    if i % 5 == 0:
        r3 = D.asm(env, rd.files, opts, lst="l.lst", inputs=inputs, out=None)
        o.ev()
        if r3.status != "ok" or r3.lst != r.lst:
            o.violation("case %d: without an output file the listing is different" % i, **D.saved(r3, **{"list.lst": r.lst, "without.lst": r3.lst}))
            return o
        o.stats["listing without an output file"] += 1
    if i % 5 == 1:
        r4 = D.asm(env, rd.files, opts + ["-v"], lst=rng.choice((None, "l.lst")), inputs=inputs)
        o.ev()
        if r4.status != "ok" or r4.image != r.image or not r4.run.out.endswith(r.lst or b"?"):
            o.violation("case %d: with -v the listing on the console is not the listing file's" % i, **D.saved(r4, **{"list.lst": r.lst}))
            return o
        o.stats["listing on the console"] += 1
    tr = Traced(p.cpu, p.illegal, p.defines)
    tr.run(p.stmts)
    if tr.image != r.image:
        rel = tr.relaxed(r.image)
        f = rel.forced
        tr = Traced(p.cpu, p.illegal, p.defines)
        tr.forced = f
        tr.run(p.stmts)
    more = {"list.lst": r.lst}
    if r.lst is None:
        o.violation("case %d: no listing" % i, **D.saved(r))
        return o
    rows, other = parse(r.lst)
    if other:
        o.violation("case %d: listing line %d is no row: %s" % (i, other[0][0], other[0][1][:60]), **D.saved(r, **more))
        return o
    want = [(pc + k, b) for pc, bs, _ in tr.recs for k, b in enumerate(bs)]
    got = [(a + k, b, n) for a, bs, _, _, n in rows for k, b in enumerate(bs)]
    for k in range(max(len(want), len(got))):
        w = want[k] if k < len(want) else None
        g = got[k][:2] if k < len(got) else None
        if w != g:
            o.violation("case %d: byte %d of the image is %s, in the listing it is %s (listing line %s)" % (
                i, k, w and "$%04X: $%02X" % w, g and "$%04X: $%02X" % g, got[k][2] if k < len(got) else "-"), **D.saved(r, **more))
            return o
    for a, bs, text, src, n in rows:
        if not row_text(text, bs, a):
            o.violation("case %d: listing line %d says %r for %s at $%04X" % (i, n, text, D.hx(bs), a), **D.saved(r, **more))
            return o
    # source lines
    starts, off = {}, 0
    offs = [0]
    for pc, bs, _ in tr.recs:
        offs.append(offs[-1] + len(bs))
    pos = {}
    for row in rows:
        pos[off] = row
        off += len(row[1])
    n = 0
    shown = set()
    for k, sid in tr.first:
        t = rd.tag.get(sid)
        if t is None or k >= len(tr.recs) or t in shown:
            continue
        row = pos.get(offs[k])
        if row is None:
            o.violation("case %d: no row starts at byte %d where a statement starts (source line %d)" % (i, offs[k], t), **D.saved(r, **more))
            return o
        shown.add(t)
        if not re.search(r";#%d#" % t, row[3]):
            o.violation("case %d: listing line %d should show source line #%d#, it shows %r" % (i, row[4], t, row[3][:60]), **D.saved(r, **more))
            return o
        n += 1
    # every line of the source is in the listing, once
    tags = re.findall(r";#(\d+)#", r.lst.decode("latin-1"))
    have = re.findall(r";#(\d+)#", "".join(t for t in rd.files.values() if isinstance(t, str)))
    if sorted(tags) != sorted(have):
        o.violation("case %d: source lines %s are missing in the listing, %s are there more than once" % (
            i, sorted(set(have) - set(tags))[:8], sorted({t for t in tags if tags.count(t) > 1})[:8]), **D.saved(r, **more))
        return o
    order = [t for f in inputs for t in in_order(rd.files, f)]
    if tags != order:
        o.violation("case %d: the source lines are not in order %s %s" % (i, tags, order), **D.saved(r, **more))
        return o
    wrong = headings(r.lst, rd.files)
    if wrong:
        o.violation("case %d: listing line %d is a line of %s, the heading above it says %s" % ((i,) + wrong), **D.saved(r, **more))
        return o
    o.stats["bytes found in the listing"] += len(want)
    o.stats["rows compared with their source line"] += n
    o.stats["rows"] += len(rows)
    o.key((tuple(sorted(p.feats)), tuple(sorted({(len(b), t[:3]) for _, b, t, _, _ in rows}))[:6]))
    o.samples.append("%d rows, %d bytes, %d source lines" % (len(rows), len(want), n))
    return o
