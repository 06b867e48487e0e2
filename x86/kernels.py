"""C01 and C02: the SHA-256 kernels executed symbolically from their object code."""
import os
import struct
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ref  # noqa: E402
from machine import CALLEE_SAVED, GPR, RCX, RDI, RDX, RSI, RSP, Image, Machine, Unsupported, Violation  # noqa: E402
from prove import Prover, topo  # noqa: E402
from terms import M32, Node, byte, frombytes, mk, rebuild, var  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
ASM = ["sha256_shani", "sha256_avx_one_block", "sha256_avx", "sha256_avx2"]
# entry -> (needs a count, blocks in a call without one, the lanes it works on at a time)
ENTRIES = {
    "sha256_1_avx": False,
    "sha256_4_avx": True,
    "sha256_8_avx2": True,
    "sha256_shani": True,
    "verif_api_sse": True,
    "verif_api_avx": True,
    "verif_api_avx2": True,
    "verif_api_shani": True,
}
HERE = os.path.dirname(os.path.abspath(__file__))


def sh(*cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("%s\n%s" % (" ".join(cmd), p.stdout))
    return p.stdout


def build(work):
    """assemble and compile as the repository's build does, link for the executor and for the replay"""
    objs = []
    inc = os.path.join(REPO, "include")
    jobs = []
    for a in ASM:
        o = os.path.join(work, a + ".o")
        jobs.append(["yasm", "-I", REPO, "-I", os.path.join(REPO, "ssz"), "-f", "elf64", "-o", o, os.path.join(REPO, "ssz", a + ".asm")])
        objs.append(o)
    cxx = ["clang++", "-std=gnu++20", "-O2", "-m64", "-fno-stack-protector", "-fcf-protection=none", "-fno-pic", "-I", REPO, "-I", inc, "-c"]
    for src, o in ((os.path.join(REPO, "ssz", "hasher.cpp"), "hasher.o"), (os.path.join(HERE, "api.cpp"), "api.o")):
        o = os.path.join(work, o)
        jobs.append(cxx + [src, "-o", o])
        objs.append(o)
    jobs.append(["clang", "-O1", "-g", "-c", os.path.join(HERE, "replay.c"), "-o", os.path.join(work, "replay.o")])
    ps = [(j, subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for j in jobs]
    for j, p in ps:
        out = p.communicate()[0]
        if p.returncode:
            raise RuntimeError("%s\n%s" % (" ".join(j), out))
    elf = os.path.join(work, "kernels.elf")
    sh("ld", "-static", "-e", "0", "-z", "noexecstack", "--unresolved-symbols=ignore-all", "-o", elf, *objs)
    sh("clang++", "-no-pie", "-pthread", "-z", "noexecstack", "-o", os.path.join(work, "replay"), *objs, os.path.join(work, "replay.o"))
    return elf


IN, OUT = 0x10000000001, 0x20000000001  # odd: no alignment is promised


def message_byte(o, name="M"):
    b, k = divmod(o, 64)
    return (var(name, b, k // 4), 3 - k % 4)


class Run:
    pass


def execute(img, entry, n, rsp, strict, maxsteps=None, count_only=False, inoff=0, outoff=0, decide=None, after=None, name="M"):
    """run one call; returns Run with the digests as words; raises Violation"""
    has = ENTRIES[entry]
    m = Machine(img, rsp)
    m.strict = strict
    m.decide = decide
    if after is not None:
        # the memory of an earlier call, its input replaced
        m.mem.update({k: v for k, v in after.mem.items() if not IN <= k < IN + (1 << 32) and not OUT <= k < OUT + (1 << 32)})
        m.poke(rsp, m.ret, 8)
    i, o = IN + inoff, OUT + outoff
    if count_only:
        m.lazy = (i, i + 64 * n, message_byte)
        m.regions.append((i, i + 64 * n, "input", False))
        m.regions.append((o, o + 32 * n, "output", True))
    else:
        m.region("input", i, i + 64 * n, lambda q: message_byte(q, name), False)
        m.region("output", o, o + 32 * n, None, True)
    m.set(RDI, o)
    m.set(RSI, i)
    if has:
        m.set(RDX, n)
    m.run(img.sym[entry], maxsteps or 20000 + 12000 * n)
    if m.get64(RSP) != rsp + 8:
        raise Violation("register", "the stack pointer is not restored")
    out = Run()
    out.m = m
    out.digests = []
    for b in range(n if not count_only else 0):
        ws = []
        for k in range(8):
            bs = []
            for q in range(4):
                a = o + 32 * b + 4 * k + 3 - q
                bs.append(m.mem.get(a))
            if any(x is None for x in bs):
                ws.append(None)
            else:
                ws.append(frombytes(bs))
        out.digests.append(ws)
    return out


class Canon:
    """terms of block b renamed to block 0, so that equal lanes are proved once"""

    def __init__(self):
        self.memo = {}

    def get(self, roots, b):
        memo = self.memo.setdefault(b, {})
        for n in topo(roots):
            if n.id in memo:
                continue
            if n.op == "var":
                if n.a[0] == "M":
                    memo[n.id] = var("M", n.a[1] - b, n.a[2])
                else:
                    memo[n.id] = n
            else:
                memo[n.id] = rebuild(n, lambda c: memo[c.id])
        return [r if type(r) is int else memo[r.id] for r in roots]


def native(work, entry, n, rspmod, mode, place, data):
    """output of the real code: (status, complaints, digests)"""
    f = os.path.join(work, "replay-%d.bin" % os.getpid())
    open(f, "wb").write(data)
    cmd = [os.path.join(work, "replay"), entry, str(n), str(rspmod), mode, place, f]
    if not cpu_has_all():
        cmd = ["qemu-x86_64", "-cpu", "max"] + cmd
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        txt = p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", [], []
    st, bad, dg = "died", [], []
    for ln in txt.splitlines():
        if ln.startswith("STATUS "):
            st = ln[7:]
        elif ln.startswith("D "):
            dg.append(ln[2:])
        elif ln.split(" ")[0] in ("CLOBBERED", "STATIC", "STACK", "STRAY"):
            bad.append(ln)
    return st, bad, dg


_cpu = []


def cpu_has_all():
    if not _cpu:
        t = open("/proc/cpuinfo").read()
        _cpu.append(all((" " + x + " ") in t.replace("\n", " ") for x in ("avx", "avx2", "sha_ni")))
    return _cpu[0]


def sha(data):
    import hashlib
    return [hashlib.sha256(data[64 * k:64 * k + 64]).hexdigest() for k in range(len(data) // 64)]
