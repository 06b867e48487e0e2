"""Checks C01 and C02. usage: kcheck.py C01|C02 [--replay FILE]"""
import json
import multiprocessing
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

import z3

from kernels import (CALLEE_SAVED, ENTRIES, GPR, Canon, Image, Prover, RSP, Unsupported, Violation, build, execute, native,
                     ref, sha, topo, var)
from prove import to_z3
from terms import M32, Node

sys.setrecursionlimit(1 << 20)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
STACK = 0x7ffe00000000
# byte counts of input and output pass 2^32, block counts pass 2^31 and 2^32
HUGE = [(1 << 26) + 1, (1 << 27) + 3, (1 << 31) + 5, (1 << 32) + 1, (1 << 32) + 6, 1 << 33]


def counts():
    q = list(range(0, 21)) + [24, 31, 32, 33, 47, 64, 100, 257]
    if TIER == "thorough":
        q = list(range(0, 260)) + [511, 512, 513, 1000, 1023, 1024, 1025, 2047]
    return q


def z3env(roots):
    env = {}
    for n in topo(roots):
        env[n.id] = z3.BitVec("v_%s" % "_".join(map(str, n.a)), 32) if n.op == "var" else to_z3(n, env)
    return env


def flat(v, size):
    """nodes of an operand"""
    if size == 8:
        return [x for x in v if type(x) is Node]
    if size == 4:
        return [v] if type(v) is Node else []
    t = v if size == 2 and type(v) is tuple else (v,)
    return [x[0] for x in t if type(x) is tuple]


def operand(v, size, env):
    def w(x):
        return env[x.id] if type(x) is Node else z3.BitVecVal(x, 32)

    def by(x):
        return z3.Extract(8 * x[1] + 7, 8 * x[1], env[x[0].id]) if type(x) is tuple else z3.BitVecVal(x, 8)
    if size == 8:
        return z3.Concat(w(v[1]), w(v[0]))
    if size == 4:
        return w(v)
    if type(v) is int:
        return z3.BitVecVal(v, 8 * size)
    return z3.Concat(by(v[1]), by(v[0])) if size == 2 else by(v)


def condition(cc, fl):
    _, name, size, a, b = fl
    roots = flat(a, size) + flat(b, size)
    env = z3env(roots)
    x, y = operand(a, size, env), operand(b, size, env)
    zero = z3.BitVecVal(0, 8 * size)
    if name in ("cmp", "sub"):
        t = {"e": x == y, "s": x - y < 0, "b": z3.ULT(x, y), "l": x < y, "le": x <= y, "be": z3.ULE(x, y)}
    elif name in ("and", "test", "or", "xor"):
        r = x & y if name in ("and", "test") else x | y if name == "or" else x ^ y
        t = {"e": r == zero, "s": r < 0, "b": z3.BoolVal(False), "l": r < 0, "le": r <= 0, "be": r == zero}
    else:
        r = x + y
        t = {"e": r == zero, "s": r < 0, "b": z3.ULT(r, x)}
    alias = {"z": "e", "c": "b", "nae": "b", "nge": "l", "ng": "le", "na": "be"}
    inv = {"ne": "e", "nz": "e", "ns": "s", "ae": "b", "nb": "b", "nc": "b", "ge": "l", "nl": "l", "g": "le", "nle": "le",
           "a": "be", "nbe": "be"}
    if cc in inv:
        c = t.get(inv[cc])
        return None if c is None else z3.Not(c)
    return t.get(alias.get(cc, cc))


class Decider:
    """one path of a run that branches on data"""

    def __init__(self, choices, st):
        self.choices = list(choices)
        self.k = 0
        self.pc = []
        self.pending = []
        self.st = st

    def __call__(self, m, cc, fl):
        c = condition(cc, fl)
        if c is None:
            raise Unsupported("branch on data")
        if self.k < len(self.choices):
            v = self.choices[self.k]
            self.k += 1
        else:
            s = z3.Solver()
            s.set("timeout", 20000)
            s.add(*self.pc)
            res = []
            for w in (True, False):
                s.push()
                s.add(c if w else z3.Not(c))
                t0 = time.time()
                res.append(s.check())
                self.st["solver_s"] += time.time() - t0
                self.st["queries"] += 1
                s.pop()
            if res[0] == z3.unsat:
                v = False
            elif res[1] == z3.unsat:
                v = True
            else:
                v = res[0] == z3.sat
                if not v and res[1] != z3.sat:
                    raise Unsupported("branch on data, not decided")
                if z3.sat == res[0] and z3.sat == res[1]:
                    self.pending.append(self.choices + [False])
                else:
                    self.st["undecided"] += 1
            self.choices.append(v)
            self.k += 1
        self.pc.append(c if v else z3.Not(c))
        return v


def models(pc, n, k, rnd, st):
    """inputs that satisfy a path condition, with random values where it leaves freedom"""
    out = []
    for i in range(k):
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*pc)
        data = rnd.randbytes(64 * n)
        words = [[int.from_bytes(data[64 * b + 4 * q:64 * b + 4 * q + 4], "big") for q in range(16)] for b in range(n)]
        fixed = [(b, q) for b in range(n) for q in range(16)]
        s.push()
        # pin everything the path condition does not mention
        names = set()

        def walk(e, seen):
            stack = [e]
            while stack:
                x = stack.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    names.add(str(x))
                stack += x.children()
        seen = set()
        for c in pc:
            walk(c, seen)
        st["queries"] += 1
        t0 = time.time()
        r = s.check()
        st["solver_s"] += time.time() - t0
        if r != z3.sat:
            break
        m = s.model()
        for nm in names:
            p = nm.split("_")
            if p[1] == "M":
                v = m.eval(z3.BitVec(nm, 32), model_completion=True).as_long()
                if 0 <= int(p[2]) < n:
                    words[int(p[2])][int(p[3])] = v
        out.append(words)
    return out


def pack(words):
    return b"".join(x.to_bytes(4, "big") for b in words for x in b)


class Worker:
    def __init__(self, prop, entry, work, elf):
        self.prop, self.entry, self.work = prop, entry, work
        self.img = Image(elf)
        self.st = {"queries": 0, "lemmas": 0, "solver_s": 0.0, "runs": 0, "steps": 0, "blocks": 0, "undecided": 0, "paths": 0,
                   "distinct_digest_terms": 0, "validated": 0, "accesses": 0, "reg_obligations": 0}
        self.insns = set()
        self.viol, self.incon = [], []
        self.prover = Prover(SEED)
        self.ref = self.prover.reduce(ref.sha256_64([var("M", 0, k) for k in range(16)]))
        self.canon = Canon()
        self.done = {}
        self.rnd = random.Random("%d/%s" % (SEED, entry))

    def report(self, kind, msg, n, mod, inp, replays):
        """replays: list of (mode, place, predicate). Reports what the real code confirms"""
        data = inp if inp is not None else self.rnd.randbytes(64 * min(n, 4096))
        for mode, place, pred in replays:
            st, bad, dg = native(self.work, self.entry, n, mod, mode, place, data)
            why = pred(st, bad, dg, data)
            if why:
                self.viol.append({"kind": kind, "what": msg, "entry": self.entry, "blocks": n, "rsp_mod_64": mod, "mode": mode,
                                  "place": place, "input": data.hex(), "observed": why})
                return True
        self.incon.append("%s, %d blocks: %s (not reproduced on the real code)" % (self.entry, n, msg))
        return False

    def crash(self, st, bad, dg, data):
        return None if st == "ok" else "the call ends with: " + st

    def mem(self, st, bad, dg, data):
        if st != "ok":
            return "the call ends with: " + st
        return "; ".join(bad) or None

    def digest(self, st, bad, dg, data):
        if st != "ok":
            return "the call ends with: " + st
        want = sha(data)
        for k, (a, b) in enumerate(zip(dg, want)):
            if a != b:
                return "digest of block %d is %s, SHA-256 is %s" % (k, a, b)
        return None

    def stepped(self, st, bad, dg, data):
        w = self.digest(st, bad, dg, data)
        return w and "with a signal delivered at every instruction: " + w

    def run(self, n, mod, ino, outo):
        """all paths of one call"""
        todo, first = [[]], True
        while todo:
            ch = todo.pop()
            d = Decider(ch, self.st)
            self.st["paths"] += 1
            if self.st["paths"] > 4000 + self.st["runs"] * 2:
                self.incon.append("%s: too many paths" % self.entry)
                return
            self.path(n, mod, ino, outo, d)
            todo += d.pending
            if not first and len(todo) > 64:
                self.incon.append("%s, %d blocks: too many branches on data" % (self.entry, n))
                return
            first = False

    def inputs(self, n, d):
        return [pack(w) for w in models(d.pc, n, 3, self.rnd, self.st)] if d.pc else [None]

    def path(self, n, mod, ino, outo, d):
        rsp = STACK + mod
        strict = self.prop == "C02"
        self.st["runs"] += 1
        try:
            r = execute(self.img, self.entry, n, rsp, strict, inoff=ino, outoff=outo, decide=d)
        except Violation as v:
            if strict:
                tests = [("plain", "end", self.mem), ("plain", "start", self.mem), ("plain", "odd", self.mem), ("step", "end", self.stepped)]
            else:
                tests = [("plain", "end", self.crash), ("plain", "start", self.crash), ("plain", "odd", self.crash)]
                if v.kind == "register":
                    tests = [("plain", "start", self.crash)]
            msg = "%s, %d blocks, rsp mod 64 = %d: %s" % (self.entry, n, mod, v)
            for inp in self.inputs(n, d)[:1] or [None]:
                self.report(v.kind, msg, n, mod, inp, tests)
            return
        except Unsupported as u:
            self.incon.append("%s, %d blocks: not encoded: %s" % (self.entry, n, u))
            return
        self.st["steps"] += r.m.steps
        self.insns |= r.m.insns
        if strict:
            self.registers(r, n, mod, d)
            self.obligations(r, n, mod)
            return
        for b, ws in enumerate(r.digests):
            self.block(r, ws, b, n, mod, d)
            if len(self.viol) >= 3:
                return

    def registers(self, r, n, mod, d):
        s = None
        for g in CALLEE_SAVED:
            want = (var("reg", GPR[g], 0), var("reg", GPR[g], 1))
            got = r.m.r[g]
            self.st["reg_obligations"] += 1
            if got == want:
                continue
            roots = [x for x in got + want if type(x) is Node]
            env = z3env(roots)
            s = z3.Solver()
            s.set("timeout", 20000)
            s.add(*d.pc)
            s.add(operand(got, 8, env) != operand(want, 8, env))
            self.st["queries"] += 1
            t0 = time.time()
            res = s.check()
            self.st["solver_s"] += time.time() - t0
            if res == z3.unsat:
                continue
            msg = "%s, %d blocks: %s is not preserved" % (self.entry, n, GPR[g])
            if res == z3.sat:
                for inp in self.inputs(n, d)[:1] or [None]:
                    self.report("register", msg, n, mod, inp, [("plain", "start", self.mem)])
            else:
                self.incon.append(msg + " (not decided)")

    def obligations(self, r, n, mod):
        """every access of the run, at any base addresses: inside its region, aligned accesses aligned"""
        m = r.m
        key = []
        bases = {"input": z3.BitVec("in", 64), "output": z3.BitVec("out", 64), "stack": z3.BitVec("rsp", 64)}
        conc = {"stack": m.rsp0, "input": None, "output": None}
        for lo, hi, name, w in m.regions:
            conc[name] = lo
        size = {"input": 64 * n, "output": 32 * n}
        s = z3.Solver()
        s.set("timeout", 60000)
        bad = []
        for (name, w), acc in m.access.items():
            self.st["accesses"] += len(acc)
            if name not in bases:
                continue
            # maximal intervals
            iv = []
            for a, k in sorted(acc):
                if iv and a <= iv[-1][1]:
                    iv[-1][1] = max(iv[-1][1], a + k)
                else:
                    iv.append([a, a + k])
            b = bases[name]
            for lo, hi in iv:
                x = b + z3.BitVecVal((lo - conc[name]) & ((1 << 64) - 1), 64)
                y = b + z3.BitVecVal((hi - conc[name]) & ((1 << 64) - 1), 64)
                if name == "stack":
                    bad.append(z3.Not(z3.And(z3.ULT(x, y), z3.ULE(y, b))))
                else:
                    bad.append(z3.Not(z3.And(z3.ULE(b, x), z3.ULT(x, y), z3.ULE(y, b + size[name]))))
                    if w and name == "input":
                        bad.append(z3.BoolVal(True))
        for a, k in m.aligned:
            for nm, base in conc.items():
                if base is not None and abs(a - base) < 1 << 20:
                    bad.append(z3.URem(bases[nm] + z3.BitVecVal((a - base) & ((1 << 64) - 1), 64), k) != 0)
        for nm in ("input", "output"):
            s.add(z3.ULE(bases[nm], z3.BitVecVal((1 << 47) - size[nm], 64)))
        s.add(z3.UGE(bases["stack"], 1 << 20), z3.ULE(bases["stack"], 1 << 47), z3.URem(bases["stack"], 64) == mod % 64)
        if not bad:
            return
        s.add(z3.Or(*bad))
        t0 = time.time()
        res = s.check()
        self.st["solver_s"] += time.time() - t0
        self.st["queries"] += 1
        if res != z3.unsat:
            self.report("memory", "%s, %d blocks: an access leaves its region or is misaligned for some addresses" % (self.entry, n),
                        n, mod, None, [("plain", "end", self.mem), ("plain", "start", self.mem), ("plain", "odd", self.mem)])

    def block(self, r, ws, b, n, mod, d):
        self.st["blocks"] += 1
        where = "%s, block %d of %d" % (self.entry, b, n)
        if any(x is None for x in ws):
            for inp in self.inputs(n, d)[:1] or [None]:
                self.report("digest", where + ": digest not written", n, mod, inp, [("plain", "end", self.digest)])
            return
        c = tuple(self.canon.get(ws, b))
        key = tuple(x if type(x) is int else -1 - x.id for x in c)
        if d.pc and key not in self.done:
            # a digest special to some inputs: those inputs decide before the general proof
            for inp in self.inputs(n, d):
                st, bad, dg = native(self.work, self.entry, n, mod, "plain", "end", inp)
                w = self.digest(st, bad, dg, inp)
                if w:
                    self.report("digest", where + ": differs from SHA-256 on inputs that take this branch", n, mod, inp,
                                [("plain", "end", self.digest)])
                    return
        v = self.done.get(key)
        if v is None:
            self.st["distinct_digest_terms"] += 1
            v = self.decide(c)
            self.done[key] = v
        if v[0] == "equal":
            return
        if v[0] == "unknown":
            self.incon.append(where + ": equivalence not decided")
            return
        data = bytearray(self.rnd.randbytes(64 * n))
        for (j, k), val in v[1].items():
            if 0 <= b + j < n:
                o = 64 * (b + j) + 4 * k
                data[o:o + 4] = val.to_bytes(4, "big")
        self.report("digest", where + ": differs from SHA-256", n, mod, bytes(data), [("plain", "end", self.digest), ("plain", "start", self.digest)])

    def decide(self, c):
        p = self.prover
        got = p.reduce(list(c))
        if all(x is y or x == y for x, y in zip(got, self.ref)):
            return ("equal",)
        vs = [n for n in topo(list(c) + [x for x in self.ref if type(x) is Node]) if n.op == "var"]
        for x, y in zip(got, self.ref):
            dx, dy = p.sim.get(x), p.sim.get(y)
            k = (dx != dy).nonzero()[0]
            if len(k):
                asg = {v: int(p.sim.get(v)[k[0]]) for v in vs}
                # the solver's verdict on this assignment
                env = z3env([t for t in (x, y) if type(t) is Node])
                s = z3.Solver()
                fx, fy = [env[t.id] if type(t) is Node else z3.BitVecVal(t, 32) for t in (x, y)]
                s.add(*[env[v.id] == val for v, val in asg.items() if v.id in env])
                s.add(fx != fy)
                p.queries += 1
                if s.check() != z3.sat:
                    return ("unknown",)
                return ("differs", {(v.a[1], v.a[2]): val for v, val in asg.items() if v.a[0] == "M"})
        # equal on every simulated input and not proved: the complete terms
        for x, y in zip(got, self.ref):
            if x is y:
                continue
            env = z3env([t for t in (x, y) if type(t) is Node])
            fx, fy = [env[t.id] if type(t) is Node else z3.BitVecVal(t, 32) for t in (x, y)]
            s = z3.SolverFor("QF_BV")
            s.set("timeout", 60000)
            s.add(fx != fy)
            p.queries += 1
            r = s.check()
            if r == z3.sat:
                m = s.model()
                return ("differs", {(v.a[1], v.a[2]): m.eval(env[v.id], model_completion=True).as_long()
                                    for v in vs if v.a[0] == "M" and v.id in env})
            if r != z3.unsat:
                # a first disagreement inside may still be reachable: directed simulation from the lemmas that failed
                w = self.directed(c)
                return w or ("unknown",)
        return ("equal",)

    def directed(self, c):
        """inputs on which two words that agree in simulation differ: solve for the smallest such pair exactly"""
        p = self.prover
        for x, y in p.sat_lemmas[:40]:
            env = z3env([t for t in (x, y) if type(t) is Node])
            s = z3.SolverFor("QF_BV")
            s.set("timeout", 5000)
            s.add(env[x.id] != env[y.id])
            p.queries += 1
            if s.check() != z3.sat:
                continue
            m = s.model()
            asg = {}
            for n in topo([x, y]):
                if n.op == "var" and n.a[0] == "M":
                    asg[(n.a[1], n.a[2])] = m.eval(env[n.id], model_completion=True).as_long()
            if all(0 == j for j, _ in asg):
                words = [asg.get((0, k), self.rnd.getrandbits(32)) for k in range(16)]
                full = {(0, k): w for k, w in enumerate(words)}
                return ("differs", full)
        return None

    def huge(self, n):
        """the first steps of a call with a count no test can reach: it must not come back early"""
        self.st["runs"] += 1
        limit = 40000 if TIER == "quick" else 400000
        try:
            execute(self.img, self.entry, n, STACK + 24, True, maxsteps=limit, count_only=True)
        except Unsupported as u:
            self.incon.append("%s, %d blocks: not encoded: %s" % (self.entry, n, u))
            return
        except Violation as v:
            if v.kind == "termination":
                return
            if self.prop == "C02" and v.kind not in ("control",):
                self.report(v.kind, "%s, %d blocks: %s" % (self.entry, n, v), n, 24, b"", [("wrap", "end", self.wrapped)])
            return
        if self.prop == "C01":
            self.report("digest", "%s returns from %d blocks after fewer steps than blocks" % (self.entry, n), n, 24, b"",
                        [("wrap", "end", self.wrapped)])

    def wrapped(self, st, bad, dg, data):
        if st in ("timeout", "cannot", "died"):
            return None
        if st == "returned last_block_written=1":
            return None
        return "the call ends with: " + st

    def history(self, n1, n2):
        """two calls, the second on the memory the first leaves behind"""
        self.st["runs"] += 1
        try:
            r1 = execute(self.img, self.entry, n1, STACK + 24, False, name="P")
            r = execute(self.img, self.entry, n2, STACK + 24, False, after=r1.m)
        except (Unsupported, Violation):
            return
        d = Decider([], self.st)
        for b, ws in enumerate(r.digests):
            self.block(r, ws, b, n2, 24, d)

    def validate(self, n):
        """the encoding against the real code: digest terms evaluated on random inputs"""
        try:
            r = execute(self.img, self.entry, n, STACK + 8, False)
        except (Unsupported, Violation):
            return
        from prove import Sim
        sim = Sim(4, SEED + 5)
        for k in range(4):
            words = [[int(sim.get(var("M", b, q))[k]) for q in range(16)] for b in range(n)]
            st, bad, dg = native(self.work, self.entry, n, 8, "plain", "end", pack(words))
            mine = []
            for ws in r.digests:
                if any(x is None for x in ws):
                    return
                mine.append("".join("%08x" % int(sim.get(x)[k]) for x in ws))
            if st != "ok":
                return
            if mine != dg:
                self.incon.append("%s: the encoding disagrees with the real code on a random input" % self.entry)
                return
            self.st["validated"] += 1

    def main(self):
        one = not ENTRIES[self.entry]
        t0 = time.time()
        try:
            for k, n in enumerate([1] * 8 if one else counts()):
                for q in range(2):
                    self.run(n, [24, 8, 56, 40][(k + q) % 4], (7 * k + 15 * q) % 64, (5 * k + 15 * q) % 64)
                    if q and n > 40:
                        break
                if len(self.viol) >= 3:
                    break
            # every stack alignment and buffers aligned and not, at the smallest counts that reach all loops
            if not self.viol:
                for mod in (8, 24, 40, 56):
                    for io in (0, 15):
                        self.run(1 if one else 15, mod, io, io)
            if not one and not self.viol:
                for n in HUGE:
                    self.huge(n)
            if self.prop == "C01":
                self.validate(1 if one else 15)
                if not one and not self.viol:
                    self.history(5, 11)
        except Exception:
            self.incon.append("%s: %s" % (self.entry, traceback.format_exc()))
        self.st["queries"] += self.prover.queries
        self.st["lemmas"] += self.prover.lemmas
        self.st["solver_s"] += self.prover.solver_s
        self.st["insns"] = len(self.insns)
        self.st["wall"] = time.time() - t0
        return self.entry, self.st, self.viol, self.incon


def work1(a):
    return Worker(*a).main()


def main():
    prop = sys.argv[1]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-x86-")
    try:
        return check(prop, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, work, t0):
    try:
        elf = build(work)
    except RuntimeError as e:
        print("the repository does not build:\n%s" % e)
        return 2
    if "--replay" in sys.argv:
        v = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        out = native(work, v["entry"], v["blocks"], v["rsp_mod_64"], v["mode"], v["place"], bytes.fromhex(v["input"]))
        print(json.dumps(v, indent=1))
        print("now:", out)
        return 0
    with multiprocessing.Pool(8) as pool:
        res = pool.map(work1, [(prop, e, work, elf) for e in sorted(ENTRIES)], chunksize=1)
    viol = [v for r in res for v in r[2]]
    incon = [v for r in res for v in r[3]]
    tot = {}
    for r in res:
        for k, v in r[1].items():
            tot[k] = tot.get(k, 0) + v
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": tot["steps"], "transitions": tot["steps"], "traces_validated_against_impl": tot["validated"],
            "explanation": "states: instructions executed on symbolic words; every input bit of every block is symbolic",
            "functions_encoded": sorted(ENTRIES), "distinct_instructions_executed": tot["insns"],
            "bounds": {"block_counts": counts(), "loop_control_only": HUGE, "stack_alignment_mod_64": [8, 24, 40, 56],
                       "buffer_offsets": "0..63"},
            "symbolic_runs": tot["runs"], "queries": tot["queries"], "solver_s": round(tot["solver_s"], 2),
            "samples": [{"entry": r[0], "stats": {k: (round(v, 2) if type(v) is float else v) for k, v in r[1].items()}} for r in res],
            "inconclusive": incon[:50],
        },
        "assumptions": ["input and output buffers do not overlap", "System V calling convention",
                        "a block count above %d is decided only as far as its first instructions" % counts()[-1]],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    if prop == "C01":
        ev["coverage"].update({"blocks_compared": tot["blocks"], "distinct_digest_terms_proved": tot["distinct_digest_terms"],
                               "equal_word_lemmas": tot["lemmas"]})
    else:
        ev["coverage"].update({"accesses": tot["accesses"], "preserved_register_obligations": tot["reg_obligations"]})
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for i in incon[:20]:
        print("INCONCLUSIVE", i)
    print("%s: %d runs, %d instructions, %d queries, %.1f s in the solver, %.1f s" %
          (prop, tot["runs"], tot["steps"], tot["queries"], tot["solver_s"], time.time() - t0))
    if not viol:
        return 0
    viol.sort(key=lambda v: v["blocks"])
    f = os.path.join(VERIF, "evidence", "replay-%s.json" % prop)
    json.dump(viol[0], open(f, "w"), indent=1)
    print("%s: %s" % (viol[0]["what"], viol[0]["observed"]))
    print("VIOLATION property=%s replay=%s" % (prop, f))
    return 1


if __name__ == "__main__":
    sys.exit(main())
