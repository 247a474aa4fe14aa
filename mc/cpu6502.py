"""A small 6502 interpreter (documented opcodes, no decimal mode) used to run
the boot sector of Apple ][ disks on a model of the Disk II boot ROM."""


class Crash(Exception):
    pass


# opcode: (operation, addressing mode)
OPS = {}


def _def(op, **modes):
    for m, code in modes.items():
        OPS[code] = (op, m)


_def("ADC", imm=0x69, zp=0x65, zpx=0x75, abs=0x6d, absx=0x7d, absy=0x79, inx=0x61, iny=0x71)
_def("AND", imm=0x29, zp=0x25, zpx=0x35, abs=0x2d, absx=0x3d, absy=0x39, inx=0x21, iny=0x31)
_def("ASL", acc=0x0a, zp=0x06, zpx=0x16, abs=0x0e, absx=0x1e)
_def("BIT", zp=0x24, abs=0x2c)
_def("CMP", imm=0xc9, zp=0xc5, zpx=0xd5, abs=0xcd, absx=0xdd, absy=0xd9, inx=0xc1, iny=0xd1)
_def("CPX", imm=0xe0, zp=0xe4, abs=0xec)
_def("CPY", imm=0xc0, zp=0xc4, abs=0xcc)
_def("DEC", zp=0xc6, zpx=0xd6, abs=0xce, absx=0xde)
_def("EOR", imm=0x49, zp=0x45, zpx=0x55, abs=0x4d, absx=0x5d, absy=0x59, inx=0x41, iny=0x51)
_def("INC", zp=0xe6, zpx=0xf6, abs=0xee, absx=0xfe)
_def("LDA", imm=0xa9, zp=0xa5, zpx=0xb5, abs=0xad, absx=0xbd, absy=0xb9, inx=0xa1, iny=0xb1)
_def("LDX", imm=0xa2, zp=0xa6, zpy=0xb6, abs=0xae, absy=0xbe)
_def("LDY", imm=0xa0, zp=0xa4, zpx=0xb4, abs=0xac, absx=0xbc)
_def("LSR", acc=0x4a, zp=0x46, zpx=0x56, abs=0x4e, absx=0x5e)
_def("ORA", imm=0x09, zp=0x05, zpx=0x15, abs=0x0d, absx=0x1d, absy=0x19, inx=0x01, iny=0x11)
_def("ROL", acc=0x2a, zp=0x26, zpx=0x36, abs=0x2e, absx=0x3e)
_def("ROR", acc=0x6a, zp=0x66, zpx=0x76, abs=0x6e, absx=0x7e)
_def("SBC", imm=0xe9, zp=0xe5, zpx=0xf5, abs=0xed, absx=0xfd, absy=0xf9, inx=0xe1, iny=0xf1)
_def("STA", zp=0x85, zpx=0x95, abs=0x8d, absx=0x9d, absy=0x99, inx=0x81, iny=0x91)
_def("STX", zp=0x86, zpy=0x96, abs=0x8e)
_def("STY", zp=0x84, zpx=0x94, abs=0x8c)
_def("JMP", abs=0x4c, ind=0x6c)
_def("JSR", abs=0x20)
for _n, _c in (("BPL", 0x10), ("BMI", 0x30), ("BVC", 0x50), ("BVS", 0x70), ("BCC", 0x90), ("BCS", 0xb0), ("BNE", 0xd0), ("BEQ", 0xf0)):
    OPS[_c] = (_n, "rel")
for _n, _c in (("BRK", 0x00), ("CLC", 0x18), ("SEC", 0x38), ("CLI", 0x58), ("SEI", 0x78), ("CLV", 0xb8), ("CLD", 0xd8), ("SED", 0xf8), ("NOP", 0xea),
               ("TAX", 0xaa), ("TXA", 0x8a), ("DEX", 0xca), ("INX", 0xe8), ("TAY", 0xa8), ("TYA", 0x98), ("DEY", 0x88), ("INY", 0xc8),
               ("TXS", 0x9a), ("TSX", 0xba), ("PHA", 0x48), ("PLA", 0x68), ("PHP", 0x08), ("PLP", 0x28), ("RTS", 0x60), ("RTI", 0x40)):
    OPS[_c] = (_n, "imp")


class CPU:
    def __init__(self, mem):
        self.m = mem
        self.a = self.x = self.y = 0
        self.s = 0xff
        self.c = self.z = self.v = self.n = 0
        self.pc = 0
        self.io = []

    def rd(self, a):
        a &= 0xffff
        if 0xc000 <= a <= 0xc0ff:
            self.io.append(a)
            return 0
        return self.m[a]

    def wr(self, a, v):
        a &= 0xffff
        if 0xc000 <= a <= 0xc0ff:
            self.io.append(a)
            return
        if a >= 0xc000:
            return      # ROM
        self.m[a] = v & 255

    def push(self, v):
        self.m[0x100 + self.s] = v & 255
        self.s = (self.s - 1) & 255

    def pop(self):
        self.s = (self.s + 1) & 255
        return self.m[0x100 + self.s]

    def rts(self):
        lo = self.pop()
        self.pc = ((self.pop() << 8 | lo) + 1) & 0xffff

    def nz(self, v):
        v &= 255
        self.n, self.z = v >> 7, int(v == 0)
        return v

    def step(self):
        pc = self.pc
        code = self.m[pc]
        if code not in OPS:
            raise Crash("illegal opcode $%02x at $%04x" % (code, pc))
        op, mode = OPS[code]
        b1, b2 = self.m[(pc + 1) & 0xffff], self.m[(pc + 2) & 0xffff]
        w = b1 | b2 << 8
        ea = None
        n = 2
        if mode == "imp" or mode == "acc":
            n = 1
        elif mode == "imm" or mode == "rel":
            ea = pc + 1
        elif mode == "zp":
            ea = b1
        elif mode == "zpx":
            ea = (b1 + self.x) & 255
        elif mode == "zpy":
            ea = (b1 + self.y) & 255
        elif mode == "inx":
            z = (b1 + self.x) & 255
            ea = self.m[z] | self.m[(z + 1) & 255] << 8
        elif mode == "iny":
            ea = ((self.m[b1] | self.m[(b1 + 1) & 255] << 8) + self.y) & 0xffff
        else:
            n = 3
            ea = {"abs": w, "absx": w + self.x, "absy": w + self.y, "ind": w}[mode] & 0xffff
        self.pc = (pc + n) & 0xffff
        if mode == "rel":
            take = {"BPL": not self.n, "BMI": self.n, "BVC": not self.v, "BVS": self.v, "BCC": not self.c, "BCS": self.c,
                    "BNE": not self.z, "BEQ": self.z}[op]
            if take:
                self.pc = (self.pc + (b1 - 256 if b1 > 127 else b1)) & 0xffff
        elif op == "LDA":
            self.a = self.nz(self.rd(ea))
        elif op == "LDX":
            self.x = self.nz(self.rd(ea))
        elif op == "LDY":
            self.y = self.nz(self.rd(ea))
        elif op == "STA":
            self.wr(ea, self.a)
        elif op == "STX":
            self.wr(ea, self.x)
        elif op == "STY":
            self.wr(ea, self.y)
        elif op == "AND":
            self.a = self.nz(self.a & self.rd(ea))
        elif op == "ORA":
            self.a = self.nz(self.a | self.rd(ea))
        elif op == "EOR":
            self.a = self.nz(self.a ^ self.rd(ea))
        elif op in ("ADC", "SBC"):
            v = self.rd(ea) ^ (0xff if op == "SBC" else 0)
            t = self.a + v + self.c
            self.v = ((self.a ^ t) & (v ^ t)) >> 7 & 1
            self.c = t >> 8
            self.a = self.nz(t)
        elif op in ("CMP", "CPX", "CPY"):
            r = {"CMP": self.a, "CPX": self.x, "CPY": self.y}[op]
            v = self.rd(ea)
            self.c = int(r >= v)
            self.nz(r - v)
        elif op == "BIT":
            v = self.rd(ea)
            self.n, self.v, self.z = v >> 7, v >> 6 & 1, int(not v & self.a)
        elif op in ("INC", "DEC"):
            self.wr(ea, self.nz(self.rd(ea) + (1 if op == "INC" else -1)))
        elif op in ("ASL", "LSR", "ROL", "ROR"):
            v = self.a if mode == "acc" else self.rd(ea)
            if op in ("ASL", "ROL"):
                t = v << 1 | (self.c if op == "ROL" else 0)
                self.c = v >> 7
            else:
                t = v >> 1 | (self.c << 7 if op == "ROR" else 0)
                self.c = v & 1
            t = self.nz(t)
            if mode == "acc":
                self.a = t
            else:
                self.wr(ea, t)
        elif op == "JMP":
            self.pc = ea if mode == "abs" else self.m[ea] | self.m[(ea & 0xff00) | (ea + 1) & 255] << 8
        elif op == "JSR":
            r = self.pc - 1
            self.push(r >> 8)
            self.push(r)
            self.pc = ea
        elif op == "RTS":
            self.rts()
        elif op == "PHA":
            self.push(self.a)
        elif op == "PLA":
            self.a = self.nz(self.pop())
        elif op == "INX":
            self.x = self.nz(self.x + 1)
        elif op == "INY":
            self.y = self.nz(self.y + 1)
        elif op == "DEX":
            self.x = self.nz(self.x - 1)
        elif op == "DEY":
            self.y = self.nz(self.y - 1)
        elif op == "TAX":
            self.x = self.nz(self.a)
        elif op == "TAY":
            self.y = self.nz(self.a)
        elif op == "TXA":
            self.a = self.nz(self.x)
        elif op == "TYA":
            self.a = self.nz(self.y)
        elif op == "TSX":
            self.x = self.nz(self.s)
        elif op == "TXS":
            self.s = self.x
        elif op == "PHP":
            self.push(self.n << 7 | self.v << 6 | 0x30 | self.z << 1 | self.c)
        elif op == "PLP":
            v = self.pop()
            self.n, self.v, self.z, self.c = v >> 7, v >> 6 & 1, v >> 1 & 1, v & 1
        elif op in ("CLC", "SEC"):
            self.c = int(op == "SEC")
        elif op == "CLV":
            self.v = 0
        elif op in ("CLI", "SEI", "CLD", "SED", "NOP"):
            pass
        else:
            raise Crash("%s at $%04x" % (op, pc))


# physical sector (as numbered on the track) -> sector of a DOS ordered image
SKEW = [0, 7, 14, 6, 13, 5, 12, 4, 11, 3, 10, 2, 9, 1, 8, 15]


def boot(dsk, max_steps=3000000):
    """Boot a .dsk image from slot 6 -> (memory, address jumped to, list of
    (track, sector, page) read).  Models the Disk II boot ROM's sector reader
    ($C65C) and the monitor routines WAIT ($FCA8) and nibble shift ($F87B)."""
    mem = bytearray(0x10000)
    cpu = CPU(mem)
    reads = []
    halftrack = 0
    phases = [0, 0, 0, 0]

    def read():
        t, s, page = mem[0x41], mem[0x3d], mem[0x27]
        if halftrack != 2 * t:
            raise Crash("head is at track %g, track %d expected" % (halftrack / 2, t))
        if t > 34 or s > 15:
            raise Crash("reads track %d sector %d" % (t, s))
        if page >= 0xc0:
            raise Crash("loads into page $%02x" % page)
        o = (t * 16 + SKEW[s]) * 256
        mem[page * 256:page * 256 + 256] = dsk[o:o + 256]
        reads.append((t, SKEW[s], page))
        mem[0x27] = (page + 1) & 255
        mem[0x3d] = s + 1
        mem[0x40] = t       # track number found in the address field
    mem[0x26], mem[0x27], mem[0x2b] = 0, 8, 0x60
    read()
    if mem[0x800] != 1:
        raise Crash("boot sector asks for %d sectors" % mem[0x800])
    cpu.a, cpu.x, cpu.pc = mem[0x3d], 0x60, 0x801
    cpu.c = 1
    cpu.z = 1
    steps = 0
    while True:
        pc = cpu.pc
        if pc == 0xfca8:
            cpu.a = cpu.nz(0)
            cpu.c = 1
            cpu.rts()
        elif pc == 0xf87b:
            cpu.a = cpu.nz(cpu.a >> 4 & 15)
            cpu.rts()
        elif pc == 0xc65c:
            read()
            cpu.a, cpu.x, cpu.pc = mem[0x3d], 0x60, 0x801
            cpu.n, cpu.z, cpu.c = 0, 1, 1
        elif 0x800 <= pc < 0x900:
            cpu.step()
            for a in cpu.io:
                if 0xc0e0 <= a <= 0xc0e7:
                    p, on = (a - 0xc0e0) >> 1, a & 1
                    if on and not phases[p]:
                        d = (p - halftrack) & 3
                        if d == 1:
                            halftrack += 1
                        elif d == 3:
                            halftrack = max(0, halftrack - 1)
                    phases[p] = on
            cpu.io = []
        else:
            return mem, pc, reads
        steps += 1
        if steps > max_steps:
            raise Crash("does not finish loading")
