"""What each property's check explores: compilation units, entries and parameters. See DESIGN.md for the bounds."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
from spec_table import containers, size, types  # noqa: E402

ALL = {"assert", "memory", "uninit", "exception", "resource", "steps", "recursion", "division", "unreachable", "abort"}
CRASH = ALL - {"assert"}


class Job:
    def __init__(self, src, prop, preset, type_, entry, covers=(), opts=None, weight=1, **params):
        self.src, self.prop, self.preset, self.type, self.entry = src, prop, preset, type_, entry
        self.params, self.covers, self.opts, self.weight = params, tuple(covers), opts or {}, weight

    def label(self):
        return "%s%s(%s)" % (self.entry, "[%s]" % self.type if self.type else "", ", ".join("%s=%d" % x for x in sorted(self.params.items())))


class Types:
    def __init__(self, preset="minimal"):
        self.preset = preset
        self.t = types(preset)
        self.names = list(self.t)
        self.cs = containers(preset)

    def spec(self, n): return self.t[n][2]
    def size(self, n): return size(self.preset, self.spec(n), self.cs)
    def containers(self): return [n for n in self.names if self.spec(n)[0] == "container"]
    def others(self): return [n for n in self.names if self.spec(n)[0] != "container"]

    def job(self, prop, n, entry, covers=(), opts=None, weight=1, **params):
        j = Job("props", prop, self.preset, n, entry, covers, opts, weight, **params)
        j.params["type"] = self.names.index(n)
        return j

    def spec_of(self, t): return t

    # lists reachable in a type: (field number or 0, limit, kind, element)
    def fields(self, n):
        t = self.spec(n)
        if t[0] in ("list", "bitlist"): return [(0, t)]
        if t[0] == "container": return [(k, f) for k, (_, f) in enumerate(self.cs[t[1]]) if f[0] in ("list", "bitlist")]
        return []

    def has_list(self, t):
        if t[0] in ("list", "bitlist"): return True
        if t[0] == "vector": return self.has_list(t[1])
        if t[0] == "container": return any(self.has_list(f) for _, f in self.cs[t[1]])
        return False

    def fixed_part(self, t):
        if t[0] == "container":
            return sum(size(self.preset, f, self.cs) or 4 for _, f in self.cs[t[1]])
        return 0

    def big(self, n): return n in ("BeaconState", "BeaconBlock", "SignedBeaconBlock", "BeaconBlockBody")


def limit_of(t): return t[1] if t[0] == "bitlist" else t[2]


BITS = (0, 1, 3, 7, 8, 9, 13, 16, 40, 63, 64, 65, 255, 256, 257, 511, 512, 513, 1000)


def values(T, n, deep, many=True):
    """parameters for values of type n: lengths of its lists"""
    t = T.spec(n)
    if not T.has_list(t): return [dict(shape=0)]
    if t[0] == "bitlist":
        return [dict(field_set=1, field=0, count=c) for c in sorted(set(BITS) | {t[1], t[1] - 1}) if c <= t[1]]
    if t[0] == "list":
        e = size(T.preset, t[1], T.cs)
        cand = range(0, 10) if (e and e <= 64) else range(0, 5)
        if e and e <= 8: cand = list(cand) + [16, 17, 31, 32, 33]
        if deep: cand = list(cand) + ([48, 63, 64, 65, 100] if e and e <= 64 else [5, 6, 8, 9])
        return [dict(field_set=1, field=0, count=c) for c in cand if c <= t[2]]
    r = [dict(shape=k) for k in range(0, 9 if not deep else 15)]
    if many:
        for k, f in T.fields(n):
            for c in (0, 1, 2, 3, 5) if not deep else (0, 1, 2, 3, 4, 5, 7, 8, 9):
                c = c if f[0] == "list" else BITS[2 * c % len(BITS)]
                if c <= limit_of(f): r.append(dict(field_set=1, field=k, count=c))
    return r


def all_values(prop, entry, covers, select=None, deep=False, many=True):
    T = Types()
    r = []
    for n in T.names:
        if select and not select(T, n): continue
        for v in values(T, n, deep, many): r.append(T.job(prop, n, entry, covers, weight=5 if T.big(n) else 1, **v))
    return r


def is_container(T, n): return T.spec(n)[0] == "container"
def not_container(T, n): return T.spec(n)[0] != "container"


def decode_lengths(T, n, deep):
    t, s = T.spec(n), T.size(n)
    if s is not None:
        r = {0, 1, s - 1, s, s + 1, 2 * s}
        if s > 8: r |= {s // 2, s + 8, s - 8}
        if deep: r |= {2, 3, 4, 7, s + 2, s + 31, s + 32, 3 * s}
        return sorted(x for x in r if 0 <= x <= 4 * s + 8)
    if t[0] == "bitlist":
        m = t[1] // 8 + 1
        if m > 40 and not deep: return [0, 1, 2, 9, m - 1, m, m + 1]
        return sorted(x for x in (set(range(0, 6)) | {8, 9, 16, 33, m - 1, m, m + 1, m + 2}) if 0 <= x <= m + 2)
    if t[0] == "list":
        e = size(T.preset, t[1], T.cs)
        if e:
            r = {0, 1, e - 1, e, e + 1, 2 * e - 1, 2 * e, 2 * e + 1, 3 * e, 5 * e}
            if t[2] < 40: r |= {t[2] * e, t[2] * e + 1, t[2] * e + e, (t[2] + 2) * e}
            return sorted(x for x in r if x >= 0)
        f = T.fixed_part(t[1])
        r = {0, 1, 2, 3, 4, 5, 7, 8, 4 + f, 5 + f}
        if deep: r |= {6, 8 + f, 8 + 2 * f, 9, 11, 12, 13, 16}
        return sorted(r)
    f = T.fixed_part(t)
    r = {0, 1, 4, f - 1, f, f + 1, f + 2, f + 4, f + 5}
    if deep: r |= {2, 3, f // 2, f - 4, f + 3, f + 8, f + 9, f + 12}
    return sorted(x for x in r if x >= 0)


def decode_jobs(deep):
    T = Types()
    r = []
    for n in T.names:
        for ln in decode_lengths(T, n, deep):
            r.append(T.job("DECODE", n, "prop_decode", (), dict(alloc=4 << 20, steps=20000000), weight=2 if T.has_list(T.spec(n)) else 1, len=ln))
        if T.has_list(T.spec(n)) and T.spec(n)[0] != "bitlist" and not (T.spec(n)[0] == "list" and size(T.preset, T.spec(n)[1], T.cs)):
            for s in range(0, 5 if not deep else 10):
                few = not T.big(n) and not (T.spec(n)[0] == "list" and s == 2)
                o = dict(alloc=4 << 20, steps=20000000)
                if few or deep: r.append(T.job("OFFSETS", n, "prop_offsets", ("accepted", "rejected"), o, weight=2, shape=s))
                if few and s != 2: continue
                # one offset or some neighbouring ones at a time; blocks add the few offsets around those of their body
                outer = n in ("BeaconBlock", "SignedBeaconBlock")
                if outer and not deep and s > 1: continue
                for many in ((1,) if outer or s > 2 or T.spec(n)[0] == "list" else (1, 2)) if not deep else (1, 2, 3, 4):
                    for first in range(1, (5 if outer else 12 if s != 1 else 9) if not deep else 21):
                        if n == "BeaconState" and many > 1 and first > 6 and not deep: continue
                        # offsets inside the lists of attestations: with lists of these alone
                        if n == "BeaconState" and first in (8, 10) and not deep: continue
                        if n in ("ListAttestation2", "ListAttestation5") and first == 3 and s == 2 and not deep: continue
                        r.append(T.job("OFFSETS", n, "prop_offsets", ("accepted", "rejected"), o, weight=4, shape=s, plain=1, first=first, many=many))
    return r


def limits(deep):
    T = Types()
    r = []
    for n in T.names:
        for k, f in T.fields(n):
            lim = limit_of(f)
            e = size(T.preset, f[1], T.cs) if f[0] == "list" else 1
            nominal = e or (150 if f[1] != ("container", "AttesterSlashing") else 470)
            if lim * nominal > (40000 if not deep else 200000): continue
            for c in sorted({0, 1, lim - 1, lim, lim + 1, lim + 2, 2 * lim}):
                if c < 0 or (c > lim + 1 and c * nominal > 40000): continue
                v = dict(field_set=1, field=k, count=c)
                big = c * nominal > 20000
                r.append(T.job("LIMIT", n, "prop_limit", ("within the limit", "over the limit"), weight=20 if big else 1, limit=lim, **v))
                if c * nominal < 3000:
                    for c2 in (0, lim, lim + 1):
                        if c2 * nominal < 3000:
                            r.append(T.job("LIMIT", n, "prop_limit", ("within the limit", "over the limit"), limit=lim, again=1, bfield_set=1, bfield=k, bcount=c2, **v))
                if f[0] == "list" and c * nominal < 8000 and c <= lim + 1:
                    r.append(T.job("YAMLLIMIT", n, "prop_yamllimit", ("yaml",), weight=3, limit=lim, **v))
    return r


def pairs(T, n, deep):
    """parameters for pairs of values"""
    vs = values(T, n, deep, many=False)
    if len(vs) == 1: return [(vs[0], vs[0])]
    t = T.spec(n)
    if t[0] == "container":
        vs = vs[:5] if not deep else vs[:8]
    elif len(vs) > 6:
        vs = [vs[0], vs[1], vs[2], vs[len(vs) // 2], vs[-2], vs[-1]] if not deep else vs[:6] + vs[-4:]
    if T.big(n) and not deep: vs = [vs[0], vs[1], vs[3]]
    if n == "BeaconState" and not deep: return [(vs[0], vs[0]), (vs[2], vs[2]), (vs[0], vs[2]), (vs[1], vs[0])]
    if n == "Bitlist2048" and not deep: vs = vs[:2] + vs[-1:]
    return [(a, b) for a in vs for b in vs]


def pair_jobs(prop, entry, covers, deep, **more):
    T = Types()
    r = []
    for n in T.names:
        for a, b in pairs(T, n, deep):
            p = dict(a)
            p.update({"b" + k: v for k, v in b.items()})
            p.update(more)
            r.append(T.job(prop, n, entry, covers, weight=30 if n == "BeaconState" else 20 if n == "Bitlist2048" else 8 if T.big(n) else 1, **p))
    return r


def trees(deep):
    r = []
    top = 24 if not deep else 70
    counts = list(range(0, top)) + [31, 32, 33, 63, 64, 65] + ([127, 128, 129, 255, 256, 257] if deep else [])
    for n in sorted(set(counts)):
        lim = {0, 1, 2, 3, 4, n - 1, n, n + 1, 2 * n, 2 * n + 1} | {1 << k for k in (3, 4, 5, 6, 10, 24, 38, 40, 41, 42, 43, 50, 58, 62, 63)} | {(1 << k) + d for k in (5, 41, 42, 50) for d in (-1, 1)}
        if n > 10 and not deep: lim = {0, n - 1, n, n + 1, 64, 1 << 24, 1 << 40, 1 << 42, (1 << 42) + 1, 1 << 63}
        for x in sorted(lim):
            if x < 0: continue
            r.append(Job("more", "TREE", "minimal", None, "prop_tree", ("hashed", "rejected"), n=n, limit=x, mix=(n + x) % 2))
    for n in (0, 1, 31, 32, 33, 63, 64, 65, 100, 128, 160, 161):
        for x in (0, 1, 2, 3, 5, 8, 1 << 35, 1 << 40):
            r.append(Job("more", "TREE", "minimal", None, "prop_tree", ("hashed", "rejected"), bytes=1, n=n, limit=x, mix=(n + x) % 2))
    return r


def more(prop, entry, covers=(), weight=1, **p): return Job("more", prop, "minimal", None, entry, covers, None, weight, **p)


def C03(deep):
    return [more("BACKEND", "prop_backend", ("requested" if i in (1, 2, 4, 8) else "default",), impl=i, blocks=b)
            for i in (99, 0, 1, 2, 4, 8, 3, 5, 6, 7, 9, 10, 12, 15) for b in ((1, 2, 5) if not deep else (0, 1, 2, 3, 4, 5, 8, 9, 16, 17))]


def C04(deep): return trees(deep)
def C05(deep): return all_values("ROOT", "prop_root", ("root",), not_container, deep)
def C06(deep): return all_values("ROOT", "prop_root", ("root",), is_container, deep)
def wide(prop, entry, covers, deep):
    """lists of variable size elements with offsets above 65535"""
    T = Types()
    return [T.job(prop, "ListPending1024", entry, covers, weight=50, field_set=1, field=0, count=c) for c in ((440,) if not deep else (433, 434, 440, 900))]


def C07(deep): return all_values("SER", "prop_ser", ("ser",), None, deep) + wide("SER", "prop_ser", ("ser",), deep)
def C08(deep): return all_values("ROUND", "prop_round", ("round",), None, deep) + wide("ROUND", "prop_round", ("round",), deep)
def C09(deep): return decode_jobs(deep)
def C10(deep): return decode_jobs(deep)
def C11(deep): return limits(deep)


def C12(deep):
    return pair_jobs("EQUAL", "prop_equal", ("different",), deep) + \
        [Job("props", "EQUALBYTES", "minimal", None, "prop_equalbytes", ("bytes",), case=c) for c in range(8)]


def C13(deep): return [more("SLASHABLE", "prop_slashable", ("double vote", "not slashable", "surround vote"))]


def C14(deep):
    return [more("INDEXED", "prop_indexed", ("valid", "invalid"), n=n) for n in (list(range(0, 17)) + [24, 33] if not deep else range(0, 65))] + \
        [more("INDEXED", "prop_indexed", ("valid", "invalid"), n=n, state=3) for n in (0, 1, 2, 3)]


def C15(deep): return [more("VALIDATOR", "prop_validator", ("active", "eligible", "inactive", "not eligible", "not slashable", "slashable"))]


def C16(deep):
    return [more("ISQRT", "prop_isqrt", ("root",), width=w) for w in (32, 64)] + \
        [more("ISQRT", "prop_log2", ("at most one", "depth"), width=w) for w in (32, 64)]


def C17(deep):
    r = []
    for n in (1, 4, 20, 32, 48, 96):
        r.append(more("TEXT", "prop_text", ("text",), type=n, mode=0))
        full = range(0, 2 * n + 7) if deep and n <= 20 else range(0, 13)
        for ln in sorted(set(full) | {2 * n + 1, 2 * n + 2, 2 * n + 3, 2 * n + 4}):
            if ln >= 2 and ln <= (22 if not deep else 44) or ln > 2 * n + 2: r.append(more("TEXT", "prop_text", (), type=n, mode=1, len=ln))
            r.append(more("TEXT", "prop_text", ("no prefix",), type=n, mode=2, len=ln))
    for n in (104, 108, 109, 133):
        r.append(more("TEXT", "prop_text", ("text",), type=n, mode=0))
        top = 2 * ((n - 100 + 7) // 8) + 2
        for ln in sorted(set(range(0, 9)) | {top - 1, top, top + 1, top + 2, top + 4}):
            if ln >= 2: r.append(more("TEXT", "prop_text", (), type=n, mode=1, len=ln))
            r.append(more("TEXT", "prop_text", ("no prefix",), type=n, mode=2, len=ln))
    for n in (201, 209, 240):
        for c in sorted({0, 1, 7, 8, 9, 15, 16, 17, 31, 39, 40}):
            if c <= n - 200: r.append(more("TEXT", "prop_text", ("text",), type=n, mode=0, len=c))
        for ln in list(range(0, 9)) + ([10, 12, 13, 14, 15, 16] if deep else [10]):
            if ln >= 2: r.append(more("TEXT", "prop_text", (), type=n, mode=1, len=ln))
            r.append(more("TEXT", "prop_text", ("no prefix",), type=n, mode=2, len=ln))
    return r


def C18(deep):
    return all_values("YAML", "prop_yaml", ("yaml",), None, deep, False) + all_values("YAML", "prop_readyaml", ("yaml",), None, deep, False)


def C19(deep):
    r = [more("NUMBERS", "prop_numbers", (), case=c) for c in list(range(0, 12)) + [20, 21, 22, 23, 30, 31, 32, 33, 34, 35, 40, 41, 42, 43, 50]]
    r += [more("NUMBERS", "prop_numbers", (), case=c, iterate=1) for c in range(30, 36)]
    return r + [more("NUMBERS", "prop_numbers", ("digits",), case=60, len=n) for n in range(0, 8)]


def C20(deep):
    T = Types()
    return [T.job("DEFAULT", n, "prop_default", ("default",)) for n in T.names]


def C21(deep):
    r = []
    for p in ("minimal", "mainnet"):
        T = Types(p)
        for n in T.names:
            # the vectors of the mainnet state have tens of thousands of elements
            heavy = p == "mainnet" and n == "BeaconState"
            r.append(T.job("SIZE", n, "prop_size", ("size",), weight=30 if heavy else 1, root=0 if heavy and not deep else 1, ser=0 if heavy and not deep else 1))
        r.append(Job("more", "CONST", p, None, "prop_const", ("constants",)))
    return r


def C22(deep):
    T = Types()
    r = trees(deep)
    for n in T.names:
        for v in values(T, n, deep):
            r.append(T.job("SAFE", n, "prop_safe", (), weight=5 if T.big(n) else 1, **v))
        t = T.spec(n)
        if t[0] in ("list", "bitlist"):
            # more elements than the limit, which only a program can build
            for nl in (0, 1, 2, 3, 4, 5, 8, 33, 257):
                for c in (0, 1, 2, 3, 4, 5, 9) if t[0] == "list" else (0, 1, 8, 256, 257, 600):
                    r.append(T.job("SAFE", n, "prop_safe", (), setlimit=1, newlimit=nl, field_set=1, field=0, count=c))
    return r


def C23(deep):
    T = Types()
    r = pair_jobs("USED", "prop_used", ("used",), deep) + pair_jobs("USED", "prop_used", ("used yaml",), deep, yaml=1)
    for n in T.names:
        if T.big(n) and not deep: continue
        for a in values(T, n, False, many=False)[:3]:
            for ln in decode_lengths(T, n, False)[:8]:
                if ln: r.append(T.job("USED", n, "prop_used", (), weight=2, rawlen=ln, bshape=0, **a))
    return r


def C24(deep): return pair_jobs("COPY", "prop_copy", ("copy",), deep)


KINDS = {"C09": {"assert"}, "C10": CRASH, "C22": CRASH}
BOUNDS = {}
PLANS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}
