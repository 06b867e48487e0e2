"""Symbolic execution of x86-64 object code: concrete control flow and addresses, symbolic data words."""
import re
import struct
import subprocess

from terms import (M32, Node, add, and_, byte, frombytes, mul, not_, or_, ror, sar, shl, shr, sub, var, xor)

M64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind = kind


GPR = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"] + ["r%d" % i for i in range(8, 16)]
RAX, RCX, RDX, RBX, RSP, RBP, RSI, RDI = range(8)
REG = {}
for _i, _n in enumerate(GPR):
    REG[_n] = ("r", _i, 8, 0)
    if _i < 8:
        REG["e" + _n[1:]] = ("r", _i, 4, 0)
        REG[_n[1:]] = ("r", _i, 2, 0)
    else:
        REG[_n + "d"] = ("r", _i, 4, 0)
        REG[_n + "w"] = ("r", _i, 2, 0)
        REG[_n + "b"] = ("r", _i, 1, 0)
        REG[_n + "l"] = ("r", _i, 1, 0)
for _i, _n in enumerate(["al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil"]):
    REG[_n] = ("r", _i, 1, 0)
for _i, _n in enumerate(["ah", "ch", "dh", "bh"]):
    REG[_n] = ("r", _i, 1, 1)
for _i in range(16):
    REG["xmm%d" % _i] = ("v", _i, 16, 0)
    REG["ymm%d" % _i] = ("v", _i, 32, 0)

SIZES = {"BYTE": 1, "WORD": 2, "DWORD": 4, "QWORD": 8, "XMMWORD": 16, "YMMWORD": 32, "OWORD": 16}
CALLEE_SAVED = [RBX, RBP, 12, 13, 14, 15]


def split_ops(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "[(":
            depth += 1
        elif c in "])":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def parse_operand(s, nxt):
    if s in REG:
        return REG[s]
    m = re.match(r"^(?:(\w+) PTR )?(?:(\w+):)?\[(.*)\]$", s)
    if m:
        if m.group(2) not in (None, "ds", "cs", "ss", "es"):
            raise Unsupported("segment " + s)
        size = SIZES.get(m.group(1), 0)
        base = idx = None
        scale, disp = 1, 0
        for sign, t in re.findall(r"([+-]?)([^+-]+)", m.group(3)):
            t = t.strip()
            if "*" in t:
                r, k = t.split("*")
                if r in ("riz", "eiz"):
                    continue
                idx, scale = REG[r][1], int(k, 0)
            elif t == "rip":
                disp += nxt
            elif t in REG:
                if REG[t][2] != 8:
                    raise Unsupported("address size " + s)
                if base is None:
                    base = REG[t][1]
                else:
                    idx, scale = REG[t][1], 1
            else:
                v = int(t, 16)
                disp += -v if sign == "-" else v
        return ("m", base, idx, scale, disp, size)
    m = re.match(r"^(?:(\w+) PTR )?(?:(\w+):)0x([0-9a-f]+)$", s)
    if m and m.group(2) in ("ds", "cs"):
        return ("m", None, None, 1, int(m.group(3), 16), SIZES.get(m.group(1), 0))
    m = re.match(r"^(-?0x[0-9a-f]+|-?\d+)$", s)
    if m:
        return ("i", int(s, 0) & M64)
    m = re.match(r"^([0-9a-f]+) <.*>$", s) or re.match(r"^([0-9a-f]+)$", s)
    if m:
        return ("i", int(m.group(1), 16))
    raise Unsupported("operand " + s)


class Image:
    """a linked ELF file: sections in memory, symbols, disassembly"""

    def __init__(self, path):
        self.path = path
        data = open(path, "rb").read()
        self.data = {}
        self.ranges = []
        phoff, = struct.unpack_from("<Q", data, 32)
        phes, phn = struct.unpack_from("<HH", data, 54)
        for i in range(phn):
            t, fl, off, va, _, fs, ms, _ = struct.unpack_from("<IIQQQQQQ", data, phoff + i * phes)
            if t != 1:
                continue
            self.ranges.append((va, va + ms, "x" if fl & 1 else ("w" if fl & 2 else "r")))
            for k in range(ms):
                self.data[va + k] = data[off + k] if k < fs else 0
        self.sym = {}
        for ln in subprocess.check_output(["nm", path], text=True).splitlines():
            p = ln.split()
            if len(p) == 3:
                self.sym[p[2]] = int(p[0], 16)
        self.code = {}
        txt = subprocess.check_output(["objdump", "-d", "-w", "-M", "intel", "--no-show-raw-insn", path], text=True)
        lines = []
        for ln in txt.splitlines():
            m = re.match(r"^\s*([0-9a-f]+):\t(.*)$", ln)
            if m:
                lines.append((int(m.group(1), 16), m.group(2).split("#")[0].strip()))
        self.text = lines
        for k, (a, t) in enumerate(lines):
            nxt = lines[k + 1][0] if k + 1 < len(lines) else a + 1
            self.code[a] = (t, nxt)
        self.decoded = {}

    def decode(self, a):
        d = self.decoded.get(a)
        if d is None:
            if a not in self.code:
                raise Violation("control", "execution leaves the code at 0x%x" % a)
            t, nxt = self.code[a]
            parts = t.split(None, 1)
            mn = parts[0]
            rest = parts[1] if len(parts) > 1 else ""
            while mn in ("data16", "cs", "bnd", "notrack", "rep", "repz", "ds", "rex.W", "es"):
                if mn in ("rep", "repz") and not rest.startswith("ret"):
                    break
                parts = rest.split(None, 1)
                mn = parts[0]
                rest = parts[1] if len(parts) > 1 else ""
            if mn in ("nop", "nopw", "nopl", "endbr64", "pause", "lfence", "sfence", "mfence", "prefetcht0", "prefetchnta",
                      "prefetcht1", "prefetcht2", "prefetchw"):
                d = ("nop", [], nxt)
            else:
                d = (mn, [parse_operand(o, nxt) for o in split_ops(rest)], nxt)
            self.decoded[a] = d
        return d


class Machine:
    def __init__(self, img, rsp, stack_size=1 << 16):
        self.img = img
        self.mem = {}
        self.r = [(var("reg", n, 0), var("reg", n, 1)) for n in GPR]
        self.v = [[var("vec", i, k) for k in range(8)] for i in range(16)]
        self.rsp0 = rsp
        self.set(RSP, rsp)
        self.stack_lo = rsp - stack_size
        self.ret = 0x7ffffff0
        self.poke(rsp, self.ret, 8)
        self.flags = None
        self.cf = None
        self.regions = []  # (lo, hi, name, readable, writable)
        self.steps = 0
        self.insns = set()
        self.reads = self.writes = 0
        self.extent = {}
        self.decide = None   # how to take a branch whose condition depends on the data
        self.access = {}     # (base, read/write) -> intervals of offsets touched, for the final query
        self.strict = True   # accesses outside the buffers and the frame are violations
        self.aligned = set()
        self.lazy = None     # (lo, hi, fill): input bytes made on demand

    # ---- memory
    def poke(self, addr, val, size):
        for k in range(size):
            self.mem[addr + k] = (val >> (8 * k)) & 0xff

    def region(self, name, lo, hi, fill, writable):
        self.regions.append((lo, hi, name, writable))
        if fill:
            for k in range(hi - lo):
                self.mem[lo + k] = fill(k)

    def rsp(self):
        s = self.get64(RSP)
        if s is None:
            raise Unsupported("symbolic stack pointer")
        return s

    def check(self, addr, size, write):
        try:
            return self.check_strict(addr, size, write)
        except Violation:
            if self.strict:
                raise
            return "outside"

    def check_strict(self, addr, size, write):
        hi = addr + size
        for lo, h, name, w in self.regions:
            if lo <= addr and hi <= h:
                if write and not w:
                    raise Violation("write", "%d bytes written to the %s buffer at offset %d" % (size, name, addr - lo))
                return name
            if addr < h and lo < hi:
                raise Violation("write" if write else "read", "%d bytes at offset %d of the %s buffer of %d bytes" %
                                (size, addr - lo, name, h - lo))
        if self.stack_lo <= addr and hi <= self.rsp0:
            if addr < self.rsp() - 128:
                raise Violation("stack", "access %d bytes below the stack pointer, outside the red zone" % (self.rsp() - addr))
            return "stack"
        if self.rsp0 <= addr and hi <= self.rsp0 + 8 and not write:
            return "ret"
        if self.rsp0 - 4096 < addr < self.rsp0 + 4096:
            raise Violation("write" if write else "read", "%d bytes of the caller's stack at entry_rsp%+d" % (size, addr - self.rsp0))
        for lo, h, kind in self.img.ranges:
            if lo <= addr and hi <= h:
                if write:
                    raise Violation("shared", "%d bytes written to static memory at 0x%x" % (size, addr))
                return "const"
        for lo, h, name, w in self.regions:
            if lo - 65536 < addr < h + 65536:
                raise Violation("write" if write else "read", "%d bytes at offset %d of the %s buffer of %d bytes" %
                                (size, addr - lo, name, h - lo))
        raise Violation("write" if write else "read", "%d bytes at wild address 0x%x" % (size, addr))

    def loadb(self, addr, size):
        name = self.check(addr, size, False)
        self.reads += 1
        self.access.setdefault((name, 0), set()).add((addr, size))
        mem = self.mem
        out = []
        for k in range(addr, addr + size):
            b = mem.get(k)
            if b is None:
                if k in self.img.data:
                    b = self.img.data[k]
                elif self.lazy and self.lazy[0] <= k < self.lazy[1]:
                    b = self.lazy[2](k - self.lazy[0])
                else:
                    b = (var("mem", name, (k & ~3)), k & 3)
                    mem[k] = b
            out.append(b)
        return out

    def storeb(self, addr, bs):
        name = self.check(addr, len(bs), True)
        self.access.setdefault((name, 1), set()).add((addr, len(bs)))
        self.writes += 1
        mem = self.mem
        for k, b in enumerate(bs):
            mem[addr + k] = b

    # ---- registers
    def get64(self, i):
        lo, hi = self.r[i]
        if type(lo) is int and type(hi) is int:
            return lo | hi << 32
        return None

    def set(self, i, v):
        self.r[i] = (v & M32, (v >> 32) & M32)

    def ea(self, o):
        a = o[4]
        if o[1] is not None:
            b = self.get64(o[1])
            if b is None:
                raise Unsupported("data-dependent address")
            a += b
        if o[2] is not None:
            b = self.get64(o[2])
            if b is None:
                raise Unsupported("data-dependent address")
            a += b * o[3]
        return a & M64

    def osize(self, o):
        return o[2] if o[0] in "rv" else (o[5] if o[0] == "m" else 0)

    def read(self, o, size):
        """integer operand: int for sizes 1, 2; word for 4; pair of words for 8"""
        if o[0] == "i":
            v = o[1]
            return (v & M32, v >> 32 & M32) if size == 8 else v & ((1 << 8 * size) - 1)
        if o[0] == "r":
            lo, hi = self.r[o[1]]
            if size == 8:
                return (lo, hi)
            if size == 4:
                return lo
            bs = [byte(lo, k) for k in range(4)]
            bs = bs[1:2] if o[3] else bs[:size]
        elif o[0] == "m":
            bs = self.loadb(self.ea(o), size)
            if size == 8:
                return (frombytes(bs[:4]), frombytes(bs[4:]))
            if size == 4:
                return frombytes(bs)
        else:
            raise Unsupported("integer read of vector")
        if all(type(b) is int for b in bs):
            return sum(b << 8 * k for k, b in enumerate(bs))
        return tuple(bs) if size == 2 else bs[0]

    def write(self, o, size, v):
        if o[0] == "r":
            i = o[1]
            if size == 8:
                self.r[i] = v
            elif size == 4:
                self.r[i] = (v, 0)
            else:
                lo, hi = self.r[i]
                bs = [byte(lo, k) for k in range(4)]
                nb = self.tobytes(v, size)
                p = 1 if o[3] else 0
                bs[p:p + size] = nb
                self.r[i] = (frombytes(bs), hi)
        elif o[0] == "m":
            self.storeb(self.ea(o), self.tobytes(v, size))
        else:
            raise Unsupported("integer write")

    def tobytes(self, v, size):
        if size == 8:
            return [byte(v[0], k) for k in range(4)] + [byte(v[1], k) for k in range(4)]
        if size == 4:
            return [byte(v, k) for k in range(4)]
        if type(v) is int:
            return [v >> 8 * k & 0xff for k in range(size)]
        return list(v) if size == 2 else [v]

    def conc(self, v, size):
        """concrete integer or None"""
        if size == 8:
            return v[0] | v[1] << 32 if type(v[0]) is int and type(v[1]) is int else None
        return v if type(v) is int else None

    def unconc(self, x, size):
        x &= (1 << 8 * size) - 1
        return (x & M32, x >> 32) if size == 8 else x

    # ---- flags
    def setf(self, size, res, cf, of):
        m = (1 << 8 * size) - 1
        res &= m
        self.flags = (res == 0, bool(res >> (8 * size - 1)), bool(cf), bool(of), bin(res & 0xff).count("1") % 2 == 0)

    def cond(self, cc):
        if self.flags is None:
            raise Unsupported("branch on data")
        if self.flags[0] == "sym":
            if self.decide is None:
                raise Unsupported("branch on data")
            return self.decide(self, cc, self.flags)
        z, s, c, o, p = self.flags
        neg = False
        t = {"e": z, "z": z, "s": s, "b": c, "c": c, "nae": c, "o": o, "l": s != o, "nge": s != o, "le": z or s != o,
             "ng": z or s != o, "be": c or z, "na": c or z, "p": p, "pe": p, "ne": not z, "nz": not z, "ns": not s,
             "ae": not c, "nb": not c, "nc": not c, "no": not o, "ge": s == o, "nl": s == o, "g": not z and s == o,
             "nle": not z and s == o, "a": not c and not z, "nbe": not c and not z, "np": not p, "po": not p}
        if cc not in t:
            raise Unsupported("condition " + cc)
        return t[cc]

    # ---- vectors
    def vread(self, o, size):
        """list of words"""
        if o[0] == "v":
            return self.v[o[1]][:size // 4]
        if o[0] == "m":
            bs = self.loadb(self.ea(o), size)
            return [frombytes(bs[k:k + 4]) for k in range(0, size, 4)]
        raise Unsupported("vector operand")

    def vwrite(self, o, ws, vex):
        if o[0] == "v":
            n = len(ws)
            old = self.v[o[1]]
            self.v[o[1]] = list(ws) + ([0] * (8 - n) if vex else old[n:])
        elif o[0] == "m":
            bs = []
            for w in ws:
                bs += [byte(w, k) for k in range(4)]
            self.storeb(self.ea(o), bs)
        else:
            raise Unsupported("vector write")

    # ---- execution
    def run(self, entry, maxsteps):
        pc = entry
        img = self.img
        while True:
            if pc == self.ret:
                return
            mn, ops, nxt = img.decode(pc)
            self.steps += 1
            if self.steps > maxsteps:
                raise Violation("termination", "more than %d instructions" % maxsteps)
            self.insns.add(pc)
            self.pc = pc
            pc = self.step(mn, ops, nxt)

    def align(self, o, n):
        if o[0] == "m":
            self.aligned.add((self.ea(o), n))
        if o[0] == "m" and self.ea(o) % n:
            raise Violation("alignment", "aligned %d-byte access at address 0x%x" % (n, self.ea(o)))

    def step(self, mn, ops, nxt):
        h = HANDLERS.get(mn)
        if h is not None:
            r = h(self, ops, nxt)
            return nxt if r is None else r
        if mn[0] == "j":
            if self.cond(mn[1:]):
                return ops[0][1]
            return nxt
        if mn.startswith("set"):
            self.write(ops[0], 1, int(self.cond(mn[3:])))
            return nxt
        if mn.startswith("cmov"):
            sz = ops[0][2]
            v = self.read(ops[1], sz)
            if not self.cond(mn[4:]):
                v = self.read(ops[0], sz)
            self.write(ops[0], sz, v)
            return nxt
        # vector instructions, VEX or legacy form
        vex = mn[0] == "v" and mn not in ("verr", "verw")
        base = mn[1:] if vex else mn
        f = VEC.get(base)
        if f is None:
            raise Unsupported("instruction " + mn)
        f(self, base, ops, vex)
        return nxt


HANDLERS = {}
VEC = {}


def H(*names):
    def d(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return d


def V(*names):
    def d(f):
        for n in names:
            VEC[n] = f
        return f
    return d


@H("nop")
def _nop(m, o, nxt):
    pass


@H("mov", "movabs", "movnti")
def _mov(m, o, nxt):
    sz = m.osize(o[0]) or m.osize(o[1])
    if o[0][0] == "v" or o[1][0] == "v":
        raise Unsupported("mov vector")
    m.write(o[0], sz, m.read(o[1], sz))


@H("movzx")
def _movzx(m, o, nxt):
    s = m.osize(o[1])
    v = m.read(o[1], s)
    bs = m.tobytes(v, s) + [0] * (8 - s)
    m.write(o[0], o[0][2], (frombytes(bs[:4]), frombytes(bs[4:])) if o[0][2] == 8 else
            (frombytes(bs[:4]) if o[0][2] == 4 else sum(b << 8 * k for k, b in enumerate(bs[:2]))))


@H("movsx", "movsxd")
def _movsx(m, o, nxt):
    s = m.osize(o[1])
    v = m.conc(m.read(o[1], s), s)
    if v is None:
        raise Unsupported("movsx of data")
    if v >> (8 * s - 1):
        v -= 1 << 8 * s
    m.write(o[0], o[0][2], m.unconc(v, o[0][2]))


@H("cdqe")
def _cdqe(m, o, nxt):
    v = m.r[RAX][0]
    if type(v) is not int:
        raise Unsupported("cdqe of data")
    m.set(RAX, v | (0xffffffff00000000 if v >> 31 else 0))


@H("lea")
def _lea(m, o, nxt):
    sz = o[0][2]
    mem = o[1]
    b = m.get64(mem[1]) if mem[1] is not None else 0
    i = m.get64(mem[2]) if mem[2] is not None else 0
    if b is None or i is None:
        if sz == 4 and mem[3] in (1, 2, 4, 8):
            w = mem[4] & M32
            if mem[1] is not None:
                w = add(w, m.r[mem[1]][0])
            if mem[2] is not None:
                w = add(w, shl(m.r[mem[2]][0], {1: 0, 2: 1, 4: 2, 8: 3}[mem[3]]))
            m.write(o[0], 4, w)
            return
        raise Unsupported("lea of data")
    m.write(o[0], sz, m.unconc(b + i * mem[3] + mem[4], sz))


def arith(name):
    def f(m, o, nxt):
        sz = m.osize(o[0]) or m.osize(o[1])
        a, b = m.read(o[0], sz), m.read(o[1], sz)
        ca, cb = m.conc(a, sz), m.conc(b, sz)
        store = name not in ("cmp", "test")
        if ca is not None and cb is not None:
            mask = (1 << 8 * sz) - 1
            top = 8 * sz - 1
            carry = 0
            if name in ("adc", "sbb"):
                if m.flags is None or m.flags[0] == "sym":
                    raise Unsupported("carry of data")
                carry = int(m.flags[2])
            if name in ("add", "adc"):
                r = ca + cb + carry
                m.setf(sz, r, r >> (8 * sz), ((ca ^ r) & (cb ^ r)) >> top & 1)
            elif name in ("sub", "cmp", "sbb"):
                r = ca - cb - carry
                m.setf(sz, r, r < 0, ((ca ^ cb) & (ca ^ r)) >> top & 1)
            else:
                r = {"and": ca & cb, "test": ca & cb, "or": ca | cb, "xor": ca ^ cb}[name]
                m.setf(sz, r, 0, 0)
            if store:
                m.write(o[0], sz, m.unconc(r & mask, sz))
            return
        if name in ("xor", "sub") and o[0] == o[1] and o[0][0] == "r":
            m.write(o[0], sz, m.unconc(0, sz))
            m.setf(sz, 0, 0, 0)
            return
        m.flags = ("sym", name, sz, a, b) if name not in ("adc", "sbb") else None
        if not store:
            return
        if sz == 4:
            fn = {"add": add, "sub": sub, "and": and_, "or": or_, "xor": xor}.get(name)
            if fn is None:
                raise Unsupported(name + " of data")
            m.write(o[0], 4, fn(a, b))
        elif sz == 8 and name in ("and", "or", "xor"):
            fn = {"and": and_, "or": or_, "xor": xor}[name]
            m.write(o[0], 8, (fn(a[0], b[0]), fn(a[1], b[1])))
        else:
            raise Unsupported("%s of %d-byte data" % (name, sz))
    return f


for _n in ("add", "sub", "and", "or", "xor", "cmp", "test", "adc", "sbb"):
    HANDLERS[_n] = arith(_n)


@H("inc", "dec")
def _dummy(m, o, nxt):
    pass


def incdec(d):
    def f(m, o, nxt):
        sz = m.osize(o[0])
        v = m.read(o[0], sz)
        c = m.conc(v, sz)
        if c is None:
            if sz != 4:
                raise Unsupported("inc of data")
            m.write(o[0], 4, add(v, d & M32))
            m.flags = None
            return
        if m.flags is not None and m.flags[0] == "sym":
            m.flags = None
        old = m.flags[2] if m.flags else False
        r = (c + d) & ((1 << 8 * sz) - 1)
        edge = 1 << (8 * sz - 1)
        m.setf(sz, r, old, r == edge if d == 1 else r == edge - 1)
        m.write(o[0], sz, m.unconc(r, sz))
    return f


HANDLERS["inc"] = incdec(1)
HANDLERS["dec"] = incdec(-1)


@H("not")
def _not(m, o, nxt):
    sz = m.osize(o[0])
    v = m.read(o[0], sz)
    if sz == 8:
        m.write(o[0], 8, (not_(v[0]), not_(v[1])))
    elif sz == 4:
        m.write(o[0], 4, not_(v))
    else:
        raise Unsupported("not")


@H("neg")
def _neg(m, o, nxt):
    sz = m.osize(o[0])
    v = m.read(o[0], sz)
    c = m.conc(v, sz)
    if c is None:
        if sz != 4:
            raise Unsupported("neg of data")
        m.flags = None
        m.write(o[0], 4, sub(0, v))
        return
    r = (-c) & ((1 << 8 * sz) - 1)
    m.setf(sz, r, c != 0, c == 1 << (8 * sz - 1))
    m.write(o[0], sz, m.unconc(r, sz))


@H("imul")
def _imul(m, o, nxt):
    if len(o) == 1:
        raise Unsupported("imul")
    sz = o[0][2]
    a = m.read(o[1] if len(o) == 3 else o[0], sz)
    b = m.read(o[2] if len(o) == 3 else o[1], sz)
    ca, cb = m.conc(a, sz), m.conc(b, sz)
    m.flags = None
    if ca is None or cb is None:
        if sz != 4:
            raise Unsupported("imul of data")
        m.write(o[0], 4, mul(a, b))
        return
    m.write(o[0], sz, m.unconc(ca * cb, sz))


def shift(name):
    def f(m, o, nxt):
        sz = m.osize(o[0])
        n = 1 if len(o) == 1 else m.conc(m.read(o[1], 1), 1)
        if n is None:
            raise Unsupported("shift by data")
        n &= 63 if sz == 8 else 31
        v = m.read(o[0], sz)
        c = m.conc(v, sz)
        bits = 8 * sz
        if n == 0:
            if sz == 4 and o[0][0] == "r":
                m.write(o[0], 4, v)
            return
        if name in ("rol", "ror"):
            k = n % bits if name == "ror" else (-n) % bits
            if c is not None:
                r = ((c >> k) | (c << (bits - k))) & ((1 << bits) - 1)
                m.write(o[0], sz, m.unconc(r, sz))
            elif sz == 4:
                m.write(o[0], 4, ror(v, k))
            elif sz == 8:
                lo, hi = v
                if k >= 32:
                    lo, hi, k = hi, lo, k - 32
                m.write(o[0], 8, (or_(shr(lo, k), shl(hi, 32 - k)), or_(shr(hi, k), shl(lo, 32 - k))))
            else:
                raise Unsupported("rotate")
            return  # only CF and OF change; nothing reads them here
        if c is not None:
            if name in ("shl", "sal"):
                r = c << n
                cf = r >> bits & 1
            elif name == "shr":
                r = c >> n
                cf = c >> (n - 1) & 1
            else:
                s = c - (1 << bits) if c >> (bits - 1) else c
                r = s >> n
                cf = s >> (n - 1) & 1
            m.setf(sz, r, cf, 0)
            m.write(o[0], sz, m.unconc(r, sz))
            return
        m.flags = None
        if sz == 4:
            m.write(o[0], 4, {"shl": shl, "sal": shl, "shr": shr, "sar": sar}[name](v, n))
        elif sz == 8 and name in ("shl", "sal", "shr"):
            m.write(o[0], 8, shr64(v, n) if name == "shr" else shl64(v, n))
        else:
            raise Unsupported("shift of data")
    return f


def shr64(v, n):
    lo, hi = v
    if n >= 64:
        return (0, 0)
    if n >= 32:
        return (shr(hi, n - 32), 0)
    return (or_(shr(lo, n), shl(hi, 32 - n)), shr(hi, n)) if n else (lo, hi)


def shl64(v, n):
    lo, hi = v
    if n >= 64:
        return (0, 0)
    if n >= 32:
        return (0, shl(lo, n - 32))
    return (shl(lo, n), or_(shl(hi, n), shr(lo, 32 - n))) if n else (lo, hi)


for _n in ("shl", "sal", "shr", "sar", "rol", "ror"):
    HANDLERS[_n] = shift(_n)


@H("shld", "shrd")
def _dummy2(m, o, nxt):
    pass


def shd(left):
    def f(m, o, nxt):
        sz = m.osize(o[0])
        n = m.conc(m.read(o[2], 1), 1)
        if n is None:
            raise Unsupported("shift by data")
        a, b = m.read(o[0], sz), m.read(o[1], sz)
        m.flags = None
        if sz == 4:
            n &= 31
            if n:
                a = or_(shl(a, n), shr(b, 32 - n)) if left else or_(shr(a, n), shl(b, 32 - n))
            m.write(o[0], 4, a)
        elif sz == 8:
            n &= 63
            if n:
                x, y = (shl64(a, n), shr64(b, 64 - n)) if left else (shr64(a, n), shl64(b, 64 - n))
                a = (or_(x[0], y[0]), or_(x[1], y[1]))
            m.write(o[0], 8, a)
        else:
            raise Unsupported("shld")
    return f


HANDLERS["shld"] = shd(True)
HANDLERS["shrd"] = shd(False)


@H("rorx")
def _rorx(m, o, nxt):
    sz = o[0][2]
    v = m.read(o[1], sz)
    n = o[2][1]
    if sz == 4:
        m.write(o[0], 4, ror(v, n & 31))
    else:
        lo, hi = v
        n &= 63
        if n >= 32:
            lo, hi, n = hi, lo, n - 32
        m.write(o[0], 8, (or_(shr(lo, n), shl(hi, 32 - n)), or_(shr(hi, n), shl(lo, 32 - n))) if n else (lo, hi))


@H("andn")
def _andn(m, o, nxt):
    sz = o[0][2]
    a, b = m.read(o[1], sz), m.read(o[2], sz)
    m.flags = None
    m.write(o[0], sz, and_(not_(a), b) if sz == 4 else (and_(not_(a[0]), b[0]), and_(not_(a[1]), b[1])))


def shx(name):
    def f(m, o, nxt):
        sz = o[0][2]
        n = m.conc(m.read(o[2], sz), sz)
        if n is None:
            raise Unsupported("shift by data")
        v = m.read(o[1], sz)
        if sz == 4:
            m.write(o[0], 4, {"shlx": shl, "shrx": shr, "sarx": sar}[name](v, n & 31))
        elif name != "sarx":
            m.write(o[0], 8, (shl64 if name == "shlx" else shr64)(v, n & 63))
        else:
            raise Unsupported(name)
    return f


for _n in ("shlx", "shrx", "sarx"):
    HANDLERS[_n] = shx(_n)


@H("bswap")
def _bswap(m, o, nxt):
    sz = o[0][2]
    v = m.read(o[0], sz)
    m.write(o[0], sz, frombytes([byte(v, 3 - k) for k in range(4)]) if sz == 4 else
            (frombytes([byte(v[1], 3 - k) for k in range(4)]), frombytes([byte(v[0], 3 - k) for k in range(4)])))


@H("movbe")
def _movbe(m, o, nxt):
    sz = m.osize(o[0]) or m.osize(o[1])
    bs = m.tobytes(m.read(o[1], sz), sz)[::-1]
    m.write(o[0], sz, frombytes(bs) if sz == 4 else ((frombytes(bs[:4]), frombytes(bs[4:])) if sz == 8 else tuple(bs)))


@H("xchg")
def _xchg(m, o, nxt):
    sz = m.osize(o[0])
    a, b = m.read(o[0], sz), m.read(o[1], sz)
    m.write(o[0], sz, b)
    m.write(o[1], sz, a)


@H("push")
def _push(m, o, nxt):
    v = m.read(o[0], 8)
    s = m.rsp() - 8
    m.set(RSP, s)
    m.storeb(s, m.tobytes(v, 8))


@H("pop")
def _pop(m, o, nxt):
    s = m.rsp()
    bs = m.loadb(s, 8)
    m.set(RSP, s + 8)
    m.write(o[0], 8, (frombytes(bs[:4]), frombytes(bs[4:])))


@H("leave")
def _leave(m, o, nxt):
    b = m.get64(RBP)
    if b is None:
        raise Violation("stack", "leave with a frame pointer that is not an address")
    m.set(RSP, b)
    _pop(m, [("r", RBP, 8, 0)], nxt)


def target(m, o):
    if o[0] == "i":
        return o[1]
    v = m.conc(m.read(o, 8), 8)
    if v is None:
        raise Violation("control", "jump to an address that is data")
    return v


@H("call")
def _call(m, o, nxt):
    t = target(m, o[0])
    s = m.rsp() - 8
    m.set(RSP, s)
    m.storeb(s, m.tobytes((nxt & M32, nxt >> 32), 8))
    return t


@H("ret")
def _ret(m, o, nxt):
    s = m.rsp()
    bs = m.loadb(s, 8)
    if not all(type(b) is int for b in bs):
        raise Violation("control", "return to an address that is data")
    m.set(RSP, s + 8 + (o[0][1] if o else 0))
    t = sum(b << 8 * k for k, b in enumerate(bs))
    return t


@H("jmp")
def _jmp(m, o, nxt):
    return target(m, o[0])


@H("ud2", "int3", "hlt")
def _trap(m, o, nxt):
    raise Violation("control", "trap instruction")


@H("cld", "vzeroupper_")
def _cld(m, o, nxt):
    pass


@H("vzeroupper")
def _vzu(m, o, nxt):
    for r in m.v:
        r[4:] = [0] * 4


@H("vzeroall")
def _vza(m, o, nxt):
    for i in range(16):
        m.v[i] = [0] * 8


# ---------------------------------------------------------------- vector instructions
def vsz(m, ops):
    """operation width: that of the widest register operand"""
    return max([m.osize(o) for o in ops if o[0] in "vm"])


@V("movdqa", "movaps", "movapd", "movntdq", "movntps", "movntdqa")
def _movdqa(m, n, o, vex):
    sz = vsz(m, [x for x in o if x[0] == "v"])
    for x in o:
        m.align(x, sz)
    m.vwrite(o[0], m.vread(o[1], sz), vex)


@V("movdqu", "movups", "movupd", "lddqu")
def _movdqu(m, n, o, vex):
    sz = vsz(m, [x for x in o if x[0] == "v"])
    m.vwrite(o[0], m.vread(o[1], sz), vex)


@V("movd")
def _movd(m, n, o, vex):
    if o[0][0] == "v":
        m.vwrite(o[0], [m.read(o[1], 4), 0, 0, 0], vex)
    else:
        m.write(o[0], 4, m.v[o[1][1]][0])


@V("movq")
def _movq(m, n, o, vex):
    if o[0][0] == "v":
        if o[1][0] == "v":
            lo, hi = m.v[o[1][1]][:2]
        else:
            lo, hi = m.read(o[1], 8)
        m.vwrite(o[0], [lo, hi, 0, 0], vex)
    else:
        m.write(o[0], 8, tuple(m.v[o[1][1]][:2]))


@V("movhps", "movhpd", "movlps", "movlpd")
def _movh(m, n, o, vex):
    hi = "h" in n[3]
    if o[0][0] == "m":
        w = m.v[o[1][1]]
        m.write(o[0], 8, tuple(w[2:4] if hi else w[:2]))
    else:
        src = m.v[o[1][1]][:4] if vex else m.v[o[0][1]][:4]
        w = m.read(o[-1], 8)
        src[2 if hi else 0:4 if hi else 2] = w
        m.vwrite(o[0], src, vex)


@V("movhlps", "movlhps")
def _movhl(m, n, o, vex):
    d = m.v[o[1][1]][:4] if vex else m.v[o[0][1]][:4]
    s = m.v[o[-1][1]][:4]
    m.vwrite(o[0], s[2:4] + d[2:4] if n == "movhlps" else d[0:2] + s[0:2], vex)


def mem_align(m, o, vex, sz):
    if not vex and sz == 16:
        m.align(o, 16)


def bin_lane(fn):
    def f(m, n, o, vex):
        sz = m.osize(o[0])
        a = m.vread(o[1] if vex and len(o) == 3 else o[0], sz)
        mem_align(m, o[-1], vex, sz)
        b = m.vread(o[-1], sz)
        m.vwrite(o[0], [fn(x, y) for x, y in zip(a, b)], vex)
    return f


for _ns, _f in ((("paddd",), add), (("psubd",), sub), (("pxor", "xorps", "xorpd"), xor), (("pand", "andps", "andpd"), and_),
                (("por", "orps", "orpd"), or_), (("pandn", "andnps", "andnpd"), lambda a, b: and_(not_(a), b)),
                (("pmulld",), mul)):
    for _n in _ns:
        VEC[_n] = bin_lane(_f)


@V("paddq", "psubq")
def _paddq(m, n, o, vex):
    sz = m.osize(o[0])
    a = m.vread(o[1] if vex and len(o) == 3 else o[0], sz)
    mem_align(m, o[-1], vex, sz)
    b = m.vread(o[-1], sz)
    out = []
    for k in range(0, len(a), 2):
        x, y = m.conc((a[k], a[k + 1]), 8), m.conc((b[k], b[k + 1]), 8)
        if x is None or y is None:
            raise Unsupported(n + " of data")
        r = (x + y if n == "paddq" else x - y) & M64
        out += [r & M32, r >> 32]
    m.vwrite(o[0], out, vex)


def vshift(m, n, o, vex):
    sz = m.osize(o[0])
    cnt = o[-1]
    a = m.vread(o[1] if len(o) == 3 else o[0], sz)
    if cnt[0] == "i":
        k = cnt[1] & 0xff
    else:
        w = m.vread(cnt, 16)
        k = m.conc((w[0], w[1]), 8)
        if k is None:
            raise Unsupported("shift by data")
    if n in ("pslld", "psrld", "psrad"):
        k = min(k, 32)
        r = [{"pslld": shl, "psrld": shr, "psrad": sar}[n](x, k) for x in a]
    elif n in ("psllq", "psrlq"):
        r = []
        for i in range(0, len(a), 2):
            r += (shl64 if n == "psllq" else shr64)((a[i], a[i + 1]), min(k, 64))
    elif n in ("pslldq", "psrldq"):
        r = []
        k = min(k, 16)
        for i in range(0, len(a), 4):
            bs = sum(([byte(w, q) for q in range(4)] for w in a[i:i + 4]), [])
            bs = [0] * k + bs[:16 - k] if n == "pslldq" else bs[k:] + [0] * k
            r += [frombytes(bs[q:q + 4]) for q in range(0, 16, 4)]
    else:
        raise Unsupported(n)
    m.vwrite(o[0], r, vex)


for _n in ("pslld", "psrld", "psrad", "psllq", "psrlq", "pslldq", "psrldq"):
    VEC[_n] = vshift


@V("psllvd", "psrlvd", "psravd")
def _vshv(m, n, o, vex):
    sz = m.osize(o[0])
    a, c = m.vread(o[1], sz), m.vread(o[2], sz)
    if not all(type(x) is int for x in c):
        raise Unsupported("shift by data")
    m.vwrite(o[0], [{"psllvd": shl, "psrlvd": shr, "psravd": sar}[n](x, min(k, 32)) for x, k in zip(a, c)], vex)


@V("pshufb")
def _pshufb(m, n, o, vex):
    sz = m.osize(o[0])
    a = m.vread(o[1] if vex and len(o) == 3 else o[0], sz)
    mem_align(m, o[-1], vex, sz)
    c = m.vread(o[-1], sz)
    if not all(type(x) is int for x in c):
        raise Unsupported("shuffle by data")
    out = []
    for i in range(0, len(a), 4):
        bs = sum(([byte(w, q) for q in range(4)] for w in a[i:i + 4]), [])
        cs = sum(([w >> 8 * q & 0xff for q in range(4)] for w in c[i:i + 4]), [])
        r = [0 if k & 0x80 else bs[k & 15] for k in cs]
        out += [frombytes(r[q:q + 4]) for q in range(0, 16, 4)]
    m.vwrite(o[0], out, vex)


@V("pshufd")
def _pshufd(m, n, o, vex):
    sz = m.osize(o[0])
    mem_align(m, o[1], vex, sz)
    a = m.vread(o[1], sz)
    k = o[2][1]
    out = []
    for i in range(0, len(a), 4):
        out += [a[i + (k >> 2 * q & 3)] for q in range(4)]
    m.vwrite(o[0], out, vex)


@V("permilps")
def _permilps(m, n, o, vex):
    if o[2][0] != "i":
        raise Unsupported("permilps")
    _pshufd(m, n, o, vex)


@V("pshuflw", "pshufhw")
def _pshufw(m, n, o, vex):
    sz = m.osize(o[0])
    a = m.vread(o[1], sz)
    k = o[2][1]
    out = []
    for i in range(0, len(a), 4):
        w = list(a[i:i + 4])
        p = 0 if n == "pshuflw" else 2
        bs = sum(([byte(x, q) for q in range(4)] for x in w[p:p + 2]), [])
        r = []
        for q in range(4):
            s = k >> 2 * q & 3
            r += bs[2 * s:2 * s + 2]
        w[p:p + 2] = [frombytes(r[:4]), frombytes(r[4:])]
        out += w
    m.vwrite(o[0], out, vex)


@V("shufps")
def _shufps(m, n, o, vex):
    sz = m.osize(o[0])
    a = m.vread(o[1] if vex else o[0], sz)
    b = m.vread(o[2] if vex else o[1], sz)
    k = o[-1][1]
    out = []
    for i in range(0, len(a), 4):
        out += [a[i + (k & 3)], a[i + (k >> 2 & 3)], b[i + (k >> 4 & 3)], b[i + (k >> 6 & 3)]]
    m.vwrite(o[0], out, vex)


@V("shufpd")
def _shufpd(m, n, o, vex):
    sz = m.osize(o[0])
    a = m.vread(o[1] if vex else o[0], sz)
    b = m.vread(o[2] if vex else o[1], sz)
    k = o[-1][1]
    out = []
    for i in range(0, len(a), 4):
        s, t = 2 * (k & 1), 2 * (k >> 1 & 1)
        k >>= 2
        out += a[i + s:i + s + 2] + b[i + t:i + t + 2]
    m.vwrite(o[0], out, vex)


def unpack(m, n, o, vex):
    sz = m.osize(o[0])
    a = m.vread(o[1] if vex else o[0], sz)
    mem_align(m, o[-1], vex, sz)
    b = m.vread(o[-1], sz)
    hi = "h" in n[:7]
    out = []
    for i in range(0, len(a), 4):
        x, y = a[i:i + 4], b[i:i + 4]
        if n in ("punpckldq", "unpcklps"):
            out += [x[0], y[0], x[1], y[1]]
        elif n in ("punpckhdq", "unpckhps"):
            out += [x[2], y[2], x[3], y[3]]
        elif n in ("punpcklqdq", "unpcklpd"):
            out += x[0:2] + y[0:2]
        else:
            out += x[2:4] + y[2:4]
    m.vwrite(o[0], out, vex)


for _n in ("punpckldq", "punpckhdq", "punpcklqdq", "punpckhqdq", "unpcklps", "unpckhps", "unpcklpd", "unpckhpd"):
    VEC[_n] = unpack


@V("palignr")
def _palignr(m, n, o, vex):
    sz = m.osize(o[0])
    a = m.vread(o[1] if vex else o[0], sz)
    src = o[2] if vex else o[1]
    mem_align(m, src, vex, sz)
    b = m.vread(src, sz)
    k = o[-1][1] & 0xff
    out = []
    for i in range(0, len(a), 4):
        bs = sum(([byte(w, q) for q in range(4)] for w in b[i:i + 4] + a[i:i + 4]), []) + [0] * 32
        r = bs[min(k, 32):min(k, 32) + 16]
        out += [frombytes(r[q:q + 4]) for q in range(0, 16, 4)]
    m.vwrite(o[0], out, vex)


@V("pblendw")
def _pblendw(m, n, o, vex):
    sz = m.osize(o[0])
    a = m.vread(o[1] if vex else o[0], sz)
    b = m.vread(o[2] if vex else o[1], sz)
    k = o[-1][1]
    out = []
    for i in range(0, len(a), 4):
        for q in range(4):
            x, y = a[i + q], b[i + q]
            s = k >> 2 * q & 3
            if s == 0:
                out.append(x)
            elif s == 3:
                out.append(y)
            else:
                u, v = (y, x) if s & 1 else (x, y)
                out.append(frombytes([byte(u, 0), byte(u, 1), byte(v, 2), byte(v, 3)]))
    m.vwrite(o[0], out, vex)


@V("pblendd", "blendps")
def _pblendd(m, n, o, vex):
    sz = m.osize(o[0])
    a = m.vread(o[1] if vex else o[0], sz)
    b = m.vread(o[2] if vex else o[1], sz)
    k = o[-1][1]
    m.vwrite(o[0], [b[i] if k >> i & 1 else a[i] for i in range(len(a))], vex)


@V("inserti128", "insertf128")
def _vinsert(m, n, o, vex):
    a = list(m.vread(o[1], 32))
    b = m.vread(o[2], 16)
    p = 4 * (o[3][1] & 1)
    a[p:p + 4] = b
    m.vwrite(o[0], a, True)


@V("extracti128", "extractf128")
def _vextract(m, n, o, vex):
    p = 4 * (o[2][1] & 1)
    m.vwrite(o[0], m.v[o[1][1]][p:p + 4], True)


@V("perm2i128", "perm2f128")
def _vperm2(m, n, o, vex):
    a, b = m.vread(o[1], 32), m.vread(o[2], 32)
    k = o[3][1]
    halves = [a[:4], a[4:], b[:4], b[4:]]
    out = []
    for s in (k & 15, k >> 4 & 15):
        out += [0] * 4 if s & 8 else halves[s & 3]
    m.vwrite(o[0], out, True)


@V("permq", "permpd")
def _vpermq(m, n, o, vex):
    a = m.vread(o[1], 32)
    k = o[2][1]
    out = []
    for q in range(4):
        s = k >> 2 * q & 3
        out += a[2 * s:2 * s + 2]
    m.vwrite(o[0], out, True)


@V("permd", "permps")
def _vpermd(m, n, o, vex):
    c, a = m.vread(o[1], 32), m.vread(o[2], 32)
    if not all(type(x) is int for x in c):
        raise Unsupported("permute by data")
    m.vwrite(o[0], [a[x & 7] for x in c], True)


@V("broadcastss", "pbroadcastd")
def _bcd(m, n, o, vex):
    w = m.v[o[1][1]][0] if o[1][0] == "v" else m.read(o[1], 4)
    m.vwrite(o[0], [w] * (o[0][2] // 4), True)


@V("pbroadcastq", "movddup")
def _bcq(m, n, o, vex):
    w = list(m.v[o[1][1]][:2]) if o[1][0] == "v" else list(m.read(o[1], 8))
    m.vwrite(o[0], w * (o[0][2] // 8), vex)


@V("broadcasti128", "broadcastf128")
def _bc128(m, n, o, vex):
    m.vwrite(o[0], m.vread(o[1], 16) * 2, True)


@V("pinsrd")
def _pinsrd(m, n, o, vex):
    a = list(m.v[o[1 if vex else 0][1]][:4])
    a[o[-1][1] & 3] = m.read(o[-2], 4)
    m.vwrite(o[0], a, vex)


@V("pinsrq")
def _pinsrq(m, n, o, vex):
    a = list(m.v[o[1 if vex else 0][1]][:4])
    p = 2 * (o[-1][1] & 1)
    a[p:p + 2] = m.read(o[-2], 8)
    m.vwrite(o[0], a, vex)


@V("pextrd")
def _pextrd(m, n, o, vex):
    m.write(o[0], 4, m.v[o[1][1]][o[2][1] & 3])


@V("pextrq")
def _pextrq(m, n, o, vex):
    p = 2 * (o[2][1] & 1)
    m.write(o[0], 8, tuple(m.v[o[1][1]][p:p + 2]))


def sig0(x):
    return xor(xor(ror(x, 7), ror(x, 18)), shr(x, 3))


def sig1(x):
    return xor(xor(ror(x, 17), ror(x, 19)), shr(x, 10))


def Sig0(x):
    return xor(xor(ror(x, 2), ror(x, 13)), ror(x, 22))


def Sig1(x):
    return xor(xor(ror(x, 6), ror(x, 11)), ror(x, 25))


def Ch(e, f, g):
    return xor(and_(e, f), and_(not_(e), g))


def Maj(a, b, c):
    return xor(xor(and_(a, b), and_(a, c)), and_(b, c))


@V("sha256rnds2")
def _rnds2(m, n, o, vex):
    h, g, d, c = m.v[o[0][1]][:4]
    if o[1][0] == "m":
        m.align(o[1], 16)
    f, e, b, a = m.vread(o[1], 16)
    wk = m.v[0]
    for i in (0, 1):
        t1 = add(add(add(Ch(e, f, g), Sig1(e)), wk[i]), h)
        t2 = add(Maj(a, b, c), Sig0(a))
        a, b, c, d, e, f, g, h = add(t1, t2), a, b, c, add(d, t1), e, f, g
    m.vwrite(o[0], [f, e, b, a], False)


@V("sha256msg1")
def _msg1(m, n, o, vex):
    w = m.v[o[0][1]][:4]
    if o[1][0] == "m":
        m.align(o[1], 16)
    x = m.vread(o[1], 16)
    nx = w[1:4] + x[:1]
    m.vwrite(o[0], [add(w[i], sig0(nx[i])) for i in range(4)], False)


@V("sha256msg2")
def _msg2(m, n, o, vex):
    w = m.v[o[0][1]][:4]
    if o[1][0] == "m":
        m.align(o[1], 16)
    x = m.vread(o[1], 16)
    w16 = add(w[0], sig1(x[2]))
    w17 = add(w[1], sig1(x[3]))
    w18 = add(w[2], sig1(w16))
    w19 = add(w[3], sig1(w17))
    m.vwrite(o[0], [w16, w17, w18, w19], False)


@H("bt", "bts", "btr", "btc")
def _bt(m, o, nxt):
    raise Unsupported("bt")


def bt(name):
    def f(m, o, nxt):
        sz = m.osize(o[0])
        if o[0][0] != "r":
            raise Unsupported(name + " in memory")
        a, b = m.conc(m.read(o[0], sz), sz), m.conc(m.read(o[1], sz), sz)
        if a is None or b is None:
            raise Unsupported(name + " of data")
        b &= 8 * sz - 1
        fl = m.flags if m.flags and m.flags[0] != "sym" else (False,) * 5
        m.flags = (fl[0], fl[1], bool(a >> b & 1), fl[3], fl[4])
        if name != "bt":
            r = {"bts": a | 1 << b, "btr": a & ~(1 << b), "btc": a ^ 1 << b}[name]
            m.write(o[0], sz, m.unconc(r, sz))
    return f


for _n in ("bt", "bts", "btr", "btc"):
    HANDLERS[_n] = bt(_n)


def bitcount(name):
    def f(m, o, nxt):
        sz = m.osize(o[0])
        c = m.conc(m.read(o[1], sz), sz)
        if c is None:
            raise Unsupported(name + " of data")
        if name == "popcnt":
            r = bin(c).count("1")
        elif name in ("tzcnt", "bsf"):
            if c == 0 and name == "bsf":
                raise Unsupported("bsf of 0")
            r = 8 * sz if c == 0 else (c & -c).bit_length() - 1
        elif name == "lzcnt":
            r = 8 * sz - c.bit_length()
        else:
            if c == 0:
                raise Unsupported("bsr of 0")
            r = c.bit_length() - 1
        m.setf(sz, c if name in ("bsf", "bsr") else r, c == 0, 0)
        m.write(o[0], sz, m.unconc(r, sz))
    return f


for _n in ("popcnt", "tzcnt", "bsf", "lzcnt", "bsr"):
    HANDLERS[_n] = bitcount(_n)


@H("mul", "div")
def _muldiv(m, o, nxt):
    raise Unsupported("mul")


def muldiv(name):
    def f(m, o, nxt):
        sz = m.osize(o[0])
        if sz < 4:
            raise Unsupported(name)
        v = m.conc(m.read(o[0], sz), sz)
        ra, rd = ("r", RAX, sz, 0), ("r", RDX, sz, 0)
        a, d = m.conc(m.read(ra, sz), sz), m.conc(m.read(rd, sz), sz)
        if v is None or a is None or (name == "div" and d is None):
            raise Unsupported(name + " of data")
        if name == "mul":
            q, r = (a * v) & ((1 << 8 * sz) - 1), (a * v) >> 8 * sz
            m.setf(sz, q, r != 0, r != 0)
        else:
            if v == 0 or (d << 8 * sz | a) // v >> 8 * sz:
                raise Violation("control", "division fault")
            q, r = divmod(d << 8 * sz | a, v)
            m.flags = None
        m.write(ra, sz, m.unconc(q, sz))
        m.write(rd, sz, m.unconc(r, sz))
    return f


HANDLERS["mul"] = muldiv("mul")
HANDLERS["div"] = muldiv("div")


@H("cqo", "cdq")
def _cq(m, o, nxt):
    raise Unsupported("cqo")


@H("cwde")
def _cwde(m, o, nxt):
    raise Unsupported("cwde")


@H("emms")
def _emms(m, o, nxt):
    pass
