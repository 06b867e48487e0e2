"""Equivalence of word terms: SAT sweeping. Simulation proposes equal words, z3 proves every pair over cut points."""
import random
import time

import numpy as np
import z3

from terms import Node, M32, children, evaluate, mk, rebuild


def topo(roots, skip=()):
    """nodes below the roots, children first; nothing below ids in skip"""
    out, seen, st = [], set(), [(r, False) for r in reversed(roots) if type(r) is Node]
    while st:
        n, done = st.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen or n.id in skip:
            continue
        seen.add(n.id)
        st.append((n, True))
        for c in children(n):
            if c.id not in seen and c.id not in skip:
                st.append((c, False))
    return out


class Sim:
    """values of terms on K random assignments, plus directed ones"""

    def __init__(self, k, seed):
        self.k = k
        self.seed = seed
        self.val = {}
        self.forced = {}

    def input(self, n):
        r = random.Random("%d/%r" % (self.seed, n.a))
        v = np.array([r.getrandbits(32) for _ in range(self.k)], dtype=np.uint32)
        # the last assignments are extreme
        v[-1], v[-2] = 0, M32
        return v

    def get(self, x):
        if type(x) is int:
            return np.full(self.k, x, dtype=np.uint32)
        v = self.val.get(x.id)
        if v is None:
            for n in topo([x], self.val):
                self.val[n.id] = self.one(n)
            v = self.val[x.id]
        return v

    def one(self, n):
        op = n.op
        if op == "var":
            return self.input(n)
        u = np.uint32
        if op == "bytes":
            r = np.zeros(self.k, dtype=np.uint32)
            for i, b in enumerate(n.a):
                if type(b) is int:
                    r |= u(b << 8 * i)
                else:
                    r |= ((self.val[b[0].id] >> u(8 * b[1])) & u(255)) << u(8 * i)
            return r
        a = [self.val[x.id] if type(x) is Node else x for x in n.a]
        if op in ("shl", "shr", "sar", "ror"):
            x, s = a
            if op == "shl":
                return x << u(s)
            if op == "shr":
                return x >> u(s)
            if op == "sar":
                return (x.astype(np.int32) >> np.int32(s)).astype(np.uint32)
            return (x >> u(s)) | (x << u(32 - s))
        a = [np.full(self.k, x, dtype=np.uint32) if type(x) is int else x for x in a]
        if op == "add":
            return a[0] + a[1]
        if op == "sub":
            return a[0] - a[1]
        if op == "xor":
            return a[0] ^ a[1]
        if op == "and":
            return a[0] & a[1]
        if op == "or":
            return a[0] | a[1]
        if op == "not":
            return ~a[0]
        if op == "mul":
            return a[0] * a[1]
        raise KeyError(op)


def to_z3(n, env):
    """z3 term of n; env maps node ids to z3 terms of everything below"""
    op, a = n.op, n.a
    if op == "bytes":
        parts = [z3.BitVecVal(b, 8) if type(b) is int else z3.Extract(8 * b[1] + 7, 8 * b[1], env[b[0].id]) for b in a]
        return z3.Concat(*parts[::-1])
    g = [env[x.id] if type(x) is Node else x for x in a]
    if op in ("shl", "shr", "sar", "ror"):
        x, s = g
        if op == "shl":
            return x << s
        if op == "shr":
            return z3.LShR(x, s)
        if op == "sar":
            return x >> s
        return z3.RotateRight(x, s)
    g = [z3.BitVecVal(x, 32) if type(x) is int else x for x in g]
    return {"add": lambda: g[0] + g[1], "sub": lambda: g[0] - g[1], "xor": lambda: g[0] ^ g[1],
            "and": lambda: g[0] & g[1], "or": lambda: g[0] | g[1], "not": lambda: ~g[0], "mul": lambda: g[0] * g[1]}[op]()


class Prover:
    def __init__(self, seed):
        self.sim = Sim(32, seed)
        self.rep = {}       # node id -> representative (Node or int)
        self.bysig = {}     # signature -> list of representatives
        self.cache = {}     # lemma shape -> verdict
        self.queries = self.lemmas = self.unknown = 0
        self.solver_s = 0.0
        self.sat_lemmas = []

    def sig(self, n):
        return self.sim.get(n).tobytes()

    def cone(self, x, y, depth):
        """expanded node ids of both sides down to depth"""
        ex = {}
        cur = [t for t in (x, y) if type(t) is Node]
        for _ in range(depth):
            nxt = []
            for n in cur:
                if n.id in ex or n.op == "var":
                    continue
                ex[n.id] = n
                nxt += children(n)
            cur = nxt
        return ex

    def shape(self, x, y, ex):
        num, out = {}, []

        def go(t):
            if type(t) is int:
                return t
            if t.id in num:
                return "#%d" % num[t.id]
            if t.id not in ex:
                num[t.id] = len(num)
                return "v%d" % num[t.id]
            a = tuple(go(c) if type(c) in (Node, int) else (go(c[0]), c[1]) for c in t.a)
            num[t.id] = len(num)
            return (t.op,) + a
        return (go(x), go(y))

    def query(self, x, y, ex, timeout):
        """unsat: equal for every value of the cut points"""
        key = self.shape(x, y, ex)
        v = self.cache.get(key)
        if v is not None:
            return v
        env = {}
        order = self.order(x, y, ex)
        for n in order:
            env[n.id] = to_z3(n, env) if n.id in ex else z3.BitVec("c%d" % n.id, 32)
        s = z3.SolverFor("QF_BV")
        s.set("timeout", timeout)
        f = [env[t.id] if type(t) is Node else z3.BitVecVal(t, 32) for t in (x, y)]
        s.add(f[0] != f[1])
        t0 = time.time()
        r = s.check()
        self.solver_s += time.time() - t0
        self.queries += 1
        v = "unsat" if r == z3.unsat else "sat" if r == z3.sat else "unknown"
        if v == "unknown":
            self.unknown += 1
        self.cache[key] = v
        return v

    def order(self, x, y, ex):
        out, seen = [], set()

        def go(n):
            st = [(n, False)]
            while st:
                m, done = st.pop()
                if done:
                    out.append(m)
                    continue
                if m.id in seen:
                    continue
                seen.add(m.id)
                st.append((m, True))
                if m.id in ex:
                    for c in children(m):
                        if c.id not in seen:
                            st.append((c, False))
        for t in (x, y):
            if type(t) is Node:
                go(t)
        return out

    def equal(self, x, y, depths, timeout):
        last = None
        for d in depths:
            ex = self.cone(x, y, d)
            if last == len(ex):
                break
            last = len(ex)
            if len(ex) > 160 and d > 6:
                break
            v = self.query(x, y, ex, timeout)
            if v == "unsat":
                return True
        return False

    def reduce(self, roots, depths=(1, 2, 3, 4, 6), timeout=4000):
        """representatives of the roots; new nodes are merged into proven-equal older ones"""
        rep = self.rep
        for n in topo(roots):
            if n.id in rep:
                continue
            m = n if n.op == "var" else rebuild(n, lambda c: rep[c.id])
            if type(m) is int:
                rep[n.id] = m
                continue
            if m.id in rep:
                rep[n.id] = rep[m.id]
                continue
            # the rebuilding may have made new inner nodes
            if m is not n:
                for q in topo([m], rep):
                    self.settle(q, depths, timeout)
                rep[n.id] = rep[m.id]
            else:
                self.settle(n, depths, timeout)
        return [r if type(r) is int else rep[r.id] for r in roots]

    def settle(self, n, depths, timeout):
        rep = self.rep
        s = self.sig(n)
        v = np.frombuffer(s, dtype=np.uint32)
        if n.op != "var" and (v == v[0]).all():
            c = int(v[0])
            if self.equal(n, c, depths, timeout):
                self.lemmas += 1
                rep[n.id] = c
                return
        for r in self.bysig.get(s, ()):
            if n.op == "var":
                break
            if self.equal(n, r, depths, timeout):
                self.lemmas += 1
                rep[n.id] = r
                return
            self.sat_lemmas.append((n, r))
        rep[n.id] = n
        self.bysig.setdefault(s, []).append(n)
