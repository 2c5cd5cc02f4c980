"""The instruction sets, written down by opcode byte (independent of the assembler's own tables,
which are organised by mnemonic and addressing mode), and a small 6502 emulator.

Modes: imp acc imm zp zpx zpy izx izy abs abx aby ind rel ; 65C02 adds izp (zp) and iax (abs,x)
"""

NMOS_TEXT = """
00 brk imp|01 ora izx|05 ora zp|06 asl zp|08 php imp|09 ora imm|0A asl acc|0D ora abs|0E asl abs
10 bpl rel|11 ora izy|15 ora zpx|16 asl zpx|18 clc imp|19 ora aby|1D ora abx|1E asl abx
20 jsr abs|21 and izx|24 bit zp|25 and zp|26 rol zp|28 plp imp|29 and imm|2A rol acc|2C bit abs|2D and abs|2E rol abs
30 bmi rel|31 and izy|35 and zpx|36 rol zpx|38 sec imp|39 and aby|3D and abx|3E rol abx
40 rti imp|41 eor izx|45 eor zp|46 lsr zp|48 pha imp|49 eor imm|4A lsr acc|4C jmp abs|4D eor abs|4E lsr abs
50 bvc rel|51 eor izy|55 eor zpx|56 lsr zpx|58 cli imp|59 eor aby|5D eor abx|5E lsr abx
60 rts imp|61 adc izx|65 adc zp|66 ror zp|68 pla imp|69 adc imm|6A ror acc|6C jmp ind|6D adc abs|6E ror abs
70 bvs rel|71 adc izy|75 adc zpx|76 ror zpx|78 sei imp|79 adc aby|7D adc abx|7E ror abx
81 sta izx|84 sty zp|85 sta zp|86 stx zp|88 dey imp|8A txa imp|8C sty abs|8D sta abs|8E stx abs
90 bcc rel|91 sta izy|94 sty zpx|95 sta zpx|96 stx zpy|98 tya imp|99 sta aby|9A txs imp|9D sta abx
A0 ldy imm|A1 lda izx|A2 ldx imm|A4 ldy zp|A5 lda zp|A6 ldx zp|A8 tay imp|A9 lda imm|AA tax imp|AC ldy abs|AD lda abs|AE ldx abs
B0 bcs rel|B1 lda izy|B4 ldy zpx|B5 lda zpx|B6 ldx zpy|B8 clv imp|B9 lda aby|BA tsx imp|BC ldy abx|BD lda abx|BE ldx aby
C0 cpy imm|C1 cmp izx|C4 cpy zp|C5 cmp zp|C6 dec zp|C8 iny imp|C9 cmp imm|CA dex imp|CC cpy abs|CD cmp abs|CE dec abs
D0 bne rel|D1 cmp izy|D5 cmp zpx|D6 dec zpx|D8 cld imp|D9 cmp aby|DD cmp abx|DE dec abx
E0 cpx imm|E1 sbc izx|E4 cpx zp|E5 sbc zp|E6 inc zp|E8 inx imp|E9 sbc imm|EA nop imp|EC cpx abs|ED sbc abs|EE inc abs
F0 beq rel|F1 sbc izy|F5 sbc zpx|F6 inc zpx|F8 sed imp|F9 sbc aby|FD sbc abx|FE inc abx
"""

ILLEGAL_TEXT = """
03 slo izx|07 slo zp|0F slo abs|13 slo izy|17 slo zpx|1B slo aby|1F slo abx
23 rla izx|27 rla zp|2F rla abs|33 rla izy|37 rla zpx|3B rla aby|3F rla abx
43 sre izx|47 sre zp|4F sre abs|53 sre izy|57 sre zpx|5B sre aby|5F sre abx
63 rra izx|67 rra zp|6F rra abs|73 rra izy|77 rra zpx|7B rra aby|7F rra abx
83 sax izx|87 sax zp|8F sax abs|97 sax zpy
A3 lax izx|A7 lax zp|AF lax abs|B3 lax izy|B7 lax zpy|BF lax aby|AB lax imm
C3 dcp izx|C7 dcp zp|CF dcp abs|D3 dcp izy|D7 dcp zpx|DB dcp aby|DF dcp abx
E3 isc izx|E7 isc zp|EF isc abs|F3 isc izy|F7 isc zpx|FB isc aby|FF isc abx
0B anc imm|2B anc2 imm|4B alr imm|6B arr imm|8B xaa imm|CB axs imm|EB usbc imm
93 ahx izy|9F ahx aby|9C shy abx|9E shx aby|9B tas aby|BB las aby
"""

# what the 65C02 adds to the documented NMOS set
CMOS_TEXT = """
04 tsb zp|0C tsb abs|14 trb zp|1C trb abs|12 ora izp|32 and izp|52 eor izp|72 adc izp|92 sta izp|B2 lda izp|D2 cmp izp|F2 sbc izp
1A inc acc|3A dec acc|34 bit zpx|3C bit abx|89 bit imm|64 stz zp|74 stz zpx|9C stz abs|9E stz abx
80 bra rel|5A phy imp|7A ply imp|DA phx imp|FA plx imp|7C jmp iax|CB wai imp|DB stp imp
07 rmb0 zp|17 rmb1 zp|27 rmb2 zp|37 rmb3 zp|47 rmb4 zp|57 rmb5 zp|67 rmb6 zp|77 rmb7 zp
87 smb0 zp|97 smb1 zp|A7 smb2 zp|B7 smb3 zp|C7 smb4 zp|D7 smb5 zp|E7 smb6 zp|F7 smb7 zp
"""
# BBRn/BBSn take a zero page address and a target; the assembler only knows one operand (known finding)
BBX = ["bbr%d" % k for k in range(8)] + ["bbs%d" % k for k in range(8)]


def _parse(text):
    t = {}
    for line in text.split("\n"):
        for item in line.split("|"):
            if item.strip():
                b, mn, mode = item.split()
                assert (mn, mode) not in t
                t[mn, mode] = int(b, 16)
    return t


NMOS = _parse(NMOS_TEXT)
ILLEGAL = _parse(ILLEGAL_TEXT)
CMOS = dict(NMOS)
CMOS.update(_parse(CMOS_TEXT))
NMOS_ILL = dict(NMOS)
NMOS_ILL.update(ILLEGAL)
assert len(NMOS) == 151

SIZE = dict(imp=1, acc=1, imm=2, zp=2, zpx=2, zpy=2, izx=2, izy=2, abs=3, abx=3, aby=3, ind=3, rel=2, izp=2, iax=3)
BRANCHES = ("bpl", "bmi", "bvc", "bvs", "bcc", "bcs", "bne", "beq")
INVERSE = dict(bpl="bmi", bmi="bpl", bvc="bvs", bvs="bvc", bcc="bcs", bcs="bcc", bne="beq", beq="bne")
MNEMONIC_REL = {c: m for t in (NMOS, CMOS) for (m, mode), c in t.items() if mode == "rel"}


def table(cpu, illegal):
    if cpu == "65c02":
        return CMOS
    return NMOS_ILL if illegal else NMOS


# how an operand is written -> (zero page mode, absolute mode, other)
SYNTAX = {
    "none": ("imp", "acc"),
    "a": ("acc",),
    "#": ("imm",),
    "e": ("zp", "abs"),
    "e,x": ("zpx", "abx"),
    "e,y": ("zpy", "aby"),
    "(e)": ("izp", "ind"),
    "(e,x)": ("izx", "iax"),
    "(e),y": ("izy",),
}
ZP_MODES = ("zp", "zpx", "zpy", "izp", "izx", "izy")


def select(tab, mn, syn, value):
    """The (mode, opcode) that a conforming assembler picks for an operand with a known value, or None.

    The smallest encoding that exists and holds the value.  For immediates see the operand range.
    """
    if syn == "none":
        for m in ("imp", "acc"):
            if (mn, m) in tab:
                return m, tab[mn, m]
        return None
    if syn == "a":
        return ("acc", tab[mn, "acc"]) if (mn, "acc") in tab else None
    if syn == "#":
        return ("imm", tab[mn, "imm"]) if (mn, "imm") in tab else None
    if syn == "e" and (mn, "rel") in tab:
        return "rel", tab[mn, "rel"]
    for m in SYNTAX[syn]:
        if (mn, m) in tab and (m not in ZP_MODES or 0 <= value <= 0xFF):
            return m, tab[mn, m]
    return None


def exists(tab, mn, syn):
    return any((mn, m) in tab for m in SYNTAX[syn]) or (syn == "e" and (mn, "rel") in tab)


class Halt(Exception):
    pass


class Emu:
    """A 6502 (documented opcodes, binary mode only) with a fetch/branch trace."""

    def __init__(self, tab=None):
        self.mem = bytearray(65536)
        self.a = self.x = self.y = 0
        self.sp = 0xFF
        self.pc = 0
        self.n = self.v = self.d = self.i = self.z = self.c = 0
        self.dec = {b: mm for mm, b in (tab or NMOS).items()}

    def nz(self, v):
        v &= 255
        self.n, self.z = v >> 7, int(v == 0)
        return v

    def push(self, v):
        self.mem[0x100 + self.sp] = v & 255
        self.sp = (self.sp - 1) & 255

    def pull(self):
        self.sp = (self.sp + 1) & 255
        return self.mem[0x100 + self.sp]

    def flags(self):
        return self.n << 7 | self.v << 6 | 0x30 | self.d << 3 | self.i << 2 | self.z << 1 | self.c

    def setflags(self, p):
        self.n, self.v, self.d, self.i, self.z, self.c = p >> 7 & 1, p >> 6 & 1, p >> 3 & 1, p >> 2 & 1, p >> 1 & 1, p & 1

    def cond(self, mn):
        return dict(bpl=not self.n, bmi=self.n, bvc=not self.v, bvs=self.v, bcc=not self.c, bcs=self.c,
                    bne=not self.z, beq=self.z, bra=1)[mn]

    def step(self):
        m, pc = self.mem, self.pc
        b = m[pc]
        if b not in self.dec:
            raise Halt("undefined opcode %02X at %04X" % (b, pc))
        mn, mode = self.dec[b]
        size = SIZE[mode]
        lo = m[(pc + 1) & 65535]
        w = lo | m[(pc + 2) & 65535] << 8
        self.pc = (pc + size) & 65535
        ea = None
        if mode in ("zp",):
            ea = lo
        elif mode == "zpx":
            ea = (lo + self.x) & 255
        elif mode == "zpy":
            ea = (lo + self.y) & 255
        elif mode == "abs":
            ea = w
        elif mode == "abx":
            ea = (w + self.x) & 65535
        elif mode == "aby":
            ea = (w + self.y) & 65535
        elif mode == "ind":
            ea = m[w] | m[(w + 1) & 65535] << 8
        elif mode == "iax":
            q = (w + self.x) & 65535
            ea = m[q] | m[(q + 1) & 65535] << 8
        elif mode == "izx":
            q = (lo + self.x) & 255
            ea = m[q] | m[(q + 1) & 255] << 8
        elif mode == "izy":
            ea = ((m[lo] | m[(lo + 1) & 255] << 8) + self.y) & 65535
        elif mode == "izp":
            ea = m[lo] | m[(lo + 1) & 255] << 8
        elif mode == "imm":
            ea = (pc + 1) & 65535
        if mode == "rel":
            if self.cond(mn):
                self.pc = (self.pc + lo - (256 if lo > 127 else 0)) & 65535
            return mn
        getattr(self, "i_" + mn)(ea, mode)
        return mn

    def i_lda(self, ea, m): self.a = self.nz(self.mem[ea])
    def i_ldx(self, ea, m): self.x = self.nz(self.mem[ea])
    def i_ldy(self, ea, m): self.y = self.nz(self.mem[ea])
    def i_sta(self, ea, m): self.mem[ea] = self.a
    def i_stx(self, ea, m): self.mem[ea] = self.x
    def i_sty(self, ea, m): self.mem[ea] = self.y
    def i_stz(self, ea, m): self.mem[ea] = 0
    def i_tax(self, ea, m): self.x = self.nz(self.a)
    def i_tay(self, ea, m): self.y = self.nz(self.a)
    def i_txa(self, ea, m): self.a = self.nz(self.x)
    def i_tya(self, ea, m): self.a = self.nz(self.y)
    def i_tsx(self, ea, m): self.x = self.nz(self.sp)
    def i_txs(self, ea, m): self.sp = self.x
    def i_inx(self, ea, m): self.x = self.nz(self.x + 1)
    def i_iny(self, ea, m): self.y = self.nz(self.y + 1)
    def i_dex(self, ea, m): self.x = self.nz(self.x - 1)
    def i_dey(self, ea, m): self.y = self.nz(self.y - 1)
    def i_ora(self, ea, m): self.a = self.nz(self.a | self.mem[ea])
    def i_and(self, ea, m): self.a = self.nz(self.a & self.mem[ea])
    def i_eor(self, ea, m): self.a = self.nz(self.a ^ self.mem[ea])

    def add(self, v):
        r = self.a + v + self.c
        self.v = (~(self.a ^ v) & (self.a ^ r)) >> 7 & 1
        self.c = r >> 8
        self.a = self.nz(r)

    def i_adc(self, ea, m): self.add(self.mem[ea])
    def i_sbc(self, ea, m): self.add(self.mem[ea] ^ 255)

    def cp(self, r, v):
        self.c = int(r >= v)
        self.nz(r - v)

    def i_cmp(self, ea, m): self.cp(self.a, self.mem[ea])
    def i_cpx(self, ea, m): self.cp(self.x, self.mem[ea])
    def i_cpy(self, ea, m): self.cp(self.y, self.mem[ea])

    def rmw(self, ea, mode, f):
        if mode == "acc":
            self.a = self.nz(f(self.a))
        else:
            self.mem[ea] = self.nz(f(self.mem[ea]))

    def i_inc(self, ea, m): self.rmw(ea, m, lambda v: v + 1)
    def i_dec(self, ea, m): self.rmw(ea, m, lambda v: v - 1)

    def _asl(self, v):
        self.c = v >> 7
        return v << 1 & 255

    def _lsr(self, v):
        self.c = v & 1
        return v >> 1

    def _rol(self, v):
        c, self.c = self.c, v >> 7
        return (v << 1 | c) & 255

    def _ror(self, v):
        c, self.c = self.c, v & 1
        return v >> 1 | c << 7

    def i_asl(self, ea, m): self.rmw(ea, m, self._asl)
    def i_lsr(self, ea, m): self.rmw(ea, m, self._lsr)
    def i_rol(self, ea, m): self.rmw(ea, m, self._rol)
    def i_ror(self, ea, m): self.rmw(ea, m, self._ror)

    def i_bit(self, ea, m):
        v = self.mem[ea]
        self.z = int(self.a & v == 0)
        self.n, self.v = v >> 7, v >> 6 & 1

    def i_jmp(self, ea, m): self.pc = ea

    def i_jsr(self, ea, m):
        r = (self.pc - 1) & 65535
        self.push(r >> 8)
        self.push(r)
        self.pc = ea

    def i_rts(self, ea, m): self.pc = ((self.pull() | self.pull() << 8) + 1) & 65535

    def i_rti(self, ea, m):
        self.setflags(self.pull())
        self.pc = self.pull() | self.pull() << 8

    def i_brk(self, ea, m): raise Halt("brk")
    def i_pha(self, ea, m): self.push(self.a)
    def i_phx(self, ea, m): self.push(self.x)
    def i_phy(self, ea, m): self.push(self.y)
    def i_php(self, ea, m): self.push(self.flags())
    def i_pla(self, ea, m): self.a = self.nz(self.pull())
    def i_plx(self, ea, m): self.x = self.nz(self.pull())
    def i_ply(self, ea, m): self.y = self.nz(self.pull())
    def i_plp(self, ea, m): self.setflags(self.pull())
    def i_clc(self, ea, m): self.c = 0
    def i_sec(self, ea, m): self.c = 1
    def i_cld(self, ea, m): self.d = 0
    def i_sed(self, ea, m): self.d = 1
    def i_cli(self, ea, m): self.i = 0
    def i_sei(self, ea, m): self.i = 1
    def i_clv(self, ea, m): self.v = 0
    def i_nop(self, ea, m): pass
