#!/usr/bin/env python3
"""Decides one property: builds the repository's sources to LLVM bitcode, explores the harness entries symbolically,
replays counterexamples natively, writes the evidence. usage: run.py PROPERTY [--replay FILE]"""
import collections
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans  # noqa: E402
from spec_table import types  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
DEEP = os.environ.get("VERIF_TIER", "quick") == "thorough"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUDGET = float(os.environ.get("VERIF_BUDGET", "5400" if DEEP else "560"))
JOBTIME = 600 if DEEP else 100
CORES = int(os.environ.get("VERIF_CORES", "8"))
CHUNK = 8
HEAVY = 8  # weight of the cases to start early
AFTER = 40  # seconds to go on for after the first violation
LATER = object()
T0 = time.time()
FLAGS = ["-std=gnu++20", "-w"]
BCF = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-emit-llvm", "-c"]
ENGINE = os.path.join(VERIF, "build", "irsym")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build_engine():
    src = sorted(glob.glob(os.path.join(VERIF, "irsym", "*")))
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    stamp = ENGINE + ".sha"
    if os.path.exists(ENGINE) and os.path.exists(stamp) and open(stamp).read() == h: return
    out = tempfile.mkdtemp(prefix="engine-", dir=os.path.join(VERIF, "build"))
    r = sh(["make", "-s", "-C", os.path.join(VERIF, "irsym"), "OUT=" + out])
    if not os.path.exists(os.path.join(out, "irsym")):
        print(r.stdout[-3000:])
        print("the executor does not build")
        sys.exit(2)
    os.replace(os.path.join(out, "irsym"), ENGINE)
    open(stamp, "w").write(h)
    shutil.rmtree(out, ignore_errors=True)


class Build:
    """bitcode and native programs of one preset"""

    def __init__(self, preset, tmp):
        self.preset, self.dir = preset, os.path.join(tmp, preset)
        os.makedirs(os.path.join(self.dir, "include"))
        os.makedirs(os.path.join(self.dir, "config"))
        cfg = open(os.path.join(REPO, "config", preset + ".hpp.in")).read().replace("@CMAKE_SOURCE_DIR@", REPO)
        open(os.path.join(self.dir, "include", "config.hpp"), "w").write(cfg)
        r = sh([sys.executable, os.path.join(VERIF, "harness", "gen.py"), preset, self.dir])
        if r.returncode: raise RuntimeError(r.stdout)
        self.inc = ["-I" + os.path.join(VERIF, "harness"), "-I" + self.dir, "-I" + self.dir + "/include", "-I" + REPO]
        self.sources = []
        for d, subs, fs in os.walk(REPO):
            subs[:] = [s for s in subs if s not in ("test", "tests", "bench", "_build", "build", ".git", "assets", "cmake")]
            for f in fs:
                if f.endswith(".cpp") and f != "main.cpp" and not f.startswith("test_") and not f.endswith("_test.cpp"):
                    self.sources.append(os.path.join(d, f))
        self.sources.sort()
        self.lib, self.broken, self.native_obj = [], [], {}

    def _bc(self, src, out, defs=()):
        return sh(["clang++", *FLAGS, *BCF, "-I" + os.path.join(VERIF, "model"), *self.inc, *defs, "-o", out, src], timeout=600)

    def library(self, pool):
        todo = self.sources + [os.path.join(VERIF, "model", "support.cpp")]
        futs = []
        for k, s in enumerate(todo):
            o = os.path.join(self.dir, "l%d.bc" % k)
            futs.append((s, o, pool.submit(self._bc, s, o)))
        return futs

    def finish(self, futs):
        for s, o, f in futs:
            r = f.result()
            if r.returncode: self.broken.append((s, r.stdout[:600]))
            else: self.lib.append(o)

    def unit(self, key, src, defs):
        """compiles and links one unit; returns the bitcode or an error"""
        h = os.path.join(self.dir, "h_%s.bc" % key)
        o = os.path.join(self.dir, "u_%s.bc" % key)
        r = self._bc(os.path.join(VERIF, "harness", src + ".cpp"), h, ["-fno-access-control", *defs])
        if r.returncode: return None, r.stdout
        self.finish_once()
        r = sh(["llvm-link-18", "-o", o, h, *self.lib])
        if r.returncode: return None, r.stdout
        return o, ""

    def finish_once(self):
        if self.futs:
            fs, self.futs = self.futs, []
            self.finish(fs)
            self.ready = True
        while not self.ready: time.sleep(0.05)

    futs = []
    ready = False

    def native(self, key, src, defs, asan, pool):
        """the same unit as a program"""
        opt = ["-fsanitize=address", "-O1", "-g"] if asan else ["-O1", "-g"]
        tag = "a" if asan else "n"
        base = ["clang++", *FLAGS, *opt, "-I" + os.path.join(VERIF, "harness", "native"), *self.inc]
        if tag not in self.native_obj:
            objs, futs = [], []
            for k, s in enumerate([x for x in self.sources if x not in [b[0] for b in self.broken]] + [os.path.join(VERIF, "harness", "native", "replay.cpp")]):
                o = os.path.join(self.dir, "n%s%d.o" % (tag, k))
                futs.append(pool.submit(sh, [*base, "-c", "-o", o, s]))
                objs.append(o)
            for f in futs:
                if f.result().returncode: return None, f.result().stdout
            self.native_obj[tag] = objs
        o = os.path.join(self.dir, "x%s_%s.o" % (tag, key))
        exe = os.path.join(self.dir, "x%s_%s" % (tag, key))
        if not os.path.exists(exe):
            r = sh([*base, "-fno-access-control", *defs, "-c", "-o", o, os.path.join(VERIF, "harness", src + ".cpp")])
            if r.returncode: return None, r.stdout
            r = sh([*base, "-rdynamic", "-o", exe + ".tmp", o, *self.native_obj[tag], "-lyaml-cpp", "-ldl"])
            if r.returncode: return None, r.stdout
            os.rename(exe + ".tmp", exe)
        return exe, ""


class Unit:
    def __init__(self, build, key, src, defs, names):
        self.build, self.key, self.src, self.defs, self.names = build, key, src, defs, names
        self.bc, self.error = None, None


def native_run(exe, entry, hexin, params, asan=True, timeout=40):
    with tempfile.NamedTemporaryFile("w", suffix=".hex", delete=False) as f: f.write(hexin or "")
    cmd = [exe, entry, "@" + f.name] + ["%s=%d" % p for p in sorted(params.items())]
    if not asan: cmd = ["valgrind", "-q", "--error-exitcode=88", "--undef-value-errors=yes"] + cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""
    finally:
        os.unlink(f.name)


def shows(kind, code, out):
    """whether a native run shows a violation of this kind"""
    crash = code in (84, 86) or (isinstance(code, int) and code < 0)
    if kind == "assert": return code == 81
    if kind == "uninit": return code == 88
    if kind in ("steps",): return code == "timeout"
    if kind == "resource": return crash or code == "timeout"
    if kind == "exception": return code == 84
    return crash


ISQRT = []
for _j in range(13, 33):
    for _e in (0, 1, 2):
        _k = (1 << _j) - 1 - _e
        if _k < 1 << 32: ISQRT += [(_k, 2 * _k), (_k, 0), (_k, 1), (_k, 2 * _k - 1)]
ISQRT += [(k, d) for k in range(0, 20) for d in (0, 1, 2 * k - 1, 2 * k) if 0 <= d <= 2 * k]


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.kinds = plans.KINDS.get(prop, plans.ALL)
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(VERIF, "build"))
        self.pool = cf.ThreadPoolExecutor(CORES)
        self.deadline = float("inf")
        self.notes = []
        self.known = self.findings()

    def findings(self):
        r = []
        f = os.path.join(VERIF, "known-findings.txt")
        for l in open(f) if os.path.exists(f) else []:
            m = re.match(r"finding: property=(\S+) entry=(\S+) message=\"([^\"]*)\"\s*(.*)", l)
            if m and m.group(1) == self.prop: r.append((m.group(2), m.group(3), m.group(4)))
        return r

    def note(self, s):
        self.notes.append(s)
        print("INCONCLUSIVE: " + s)

    def units(self, jobs):
        groups = collections.OrderedDict()
        for j in jobs: groups.setdefault((j.preset, j.src, j.prop), collections.OrderedDict()).setdefault(j.type, []).append(j)
        self.builds = {}
        for p in {g[0] for g in groups}:
            self.builds[p] = Build(p, self.tmp)
            self.builds[p].futs = self.builds[p].library(self.pool)
        units = []
        for (p, src, prop), byname in groups.items():
            names = list(byname)
            # spread the large types over the units
            n = max(1, (len(names) + CHUNK - 1) // CHUNK)
            for c in range(n):
                part = names[c::n]
                units.append(self.make_unit(p, src, prop, part, "%s_%s_%d" % (src, prop, c)))
        return units, groups

    def make_unit(self, p, src, prop, names, key):
        defs = ["-DPROP_" + prop] + ["-DTYPE_" + n for n in names if n]
        u = Unit(self.builds[p], key, src, defs, names)
        u.prop = prop
        u.preset = p
        return u

    def compile(self, units):
        ok = []
        for b in self.builds.values():
            b.finish_once()
            for s, e in b.broken: self.note("%s does not compile: %s" % (s, e.strip().split("\n")[0]))
        futs = [(u, self.pool.submit(u.build.unit, u.key, u.src, u.defs)) for u in units]
        again = []
        for u, f in futs:
            u.bc, u.error = f.result()
            if u.bc: ok.append(u)
            elif len(u.names) > 1:
                for k, n in enumerate(u.names): again.append(self.make_unit(u.preset, u.src, u.prop, [n], "%s_%d" % (u.key, k)))
            else: self.note("the harness does not compile for %s %s: %s" % (u.prop, u.names, first_error(u.error)))
        futs = [(u, self.pool.submit(u.build.unit, u.key, u.src, u.defs)) for u in again]
        for u, f in futs:
            u.bc, u.error = f.result()
            if u.bc: ok.append(u)
            else: self.note("the harness does not compile for %s %s: %s" % (u.prop, u.names, first_error(u.error)))
        return ok

    def run_job(self, j, u):
        if time.time() > self.deadline: return LATER
        left = BUDGET - (time.time() - T0)
        if left < 5: return None
        t = min(JOBTIME, left)
        out = os.path.join(self.tmp, "r%d.json" % id(j))
        cmd = [ENGINE, u.bc, "--entry", j.entry, "--time", "%.0f" % t, "--query", "30000" if DEEP else "10000", "--out", out]
        for k, v in j.opts.items(): cmd += ["--" + k, str(v)]
        for k, v in j.params.items(): cmd += ["--param", "%s=%d" % (k, v)]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t + 60)
            d = json.load(open(out))
        except (subprocess.TimeoutExpired, FileNotFoundError, json.JSONDecodeError) as e:
            msg = r.stdout[-200:] if not isinstance(e, subprocess.TimeoutExpired) else "time limit"
            d = dict(paths=0, complete=0, forks=0, steps=0, merged=0, asserts=0, asserts_folded=0, queries=0, sat=0, unsat=0, unknown=0, cached=0,
                     solver_seconds=0, incomplete={"the executor stopped: " + msg: 1}, covers=[], functions=[], violations=[], witnesses=[], hashes=0)
        if os.path.exists(out): os.unlink(out)
        if any(v["kind"] in self.kinds for v in d["violations"]): self.deadline = min(self.deadline, time.time() + AFTER)
        return d

    def replay(self, u, entry, params, kind, inputs):
        """runs inputs natively; returns (input, exit code, text) of the first that shows the violation"""
        asan = kind != "uninit"
        exe, err = u.build.native(u.key, u.src, u.defs, asan, self.pool)
        if not exe: return None, "the native program does not build: " + first_error(err)
        last = ""
        for h in inputs:
            code, out = native_run(exe, entry, h, params, asan)
            if shows(kind, code, out): return (h, code, out), ""
            last = "exit %s %s" % (code, " ".join(out.split())[:200])
        return None, last

    def main(self):
        build_engine()
        jobs = plans.PLANS[self.prop](DEEP)
        only = os.environ.get("VERIF_ONLY")
        if only: jobs = [j for j in jobs if re.search(only, j.label())]
        units, groups = self.units(jobs)
        units = self.compile(units)
        if not units:
            print("nothing could be checked")
            return 2
        t_build = time.time() - T0
        where = {(u.preset, u.src, u.prop, n): u for u in units for n in u.names}
        work = [(j, where[(j.preset, j.src, j.prop, j.type)]) for j in jobs if (j.preset, j.src, j.prop, j.type) in where]
        # small cases first, for an early answer, with the large ones among them
        light = sorted((x for x in work if x[0].weight < HEAVY), key=lambda x: x[0].weight)
        heavy = sorted((x for x in work if x[0].weight >= HEAVY), key=lambda x: -x[0].weight)
        work = []
        while light or heavy:
            work += heavy[:1] + light[:7]
            heavy, light = heavy[1:], light[7:]
        code = 0
        done = [(j, u, self.pool.submit(self.run_job, j, u)) for j, u in work]
        results, skipped, left = [], 0, []
        tot = collections.Counter()
        inc, covers, wanted, funcs = collections.Counter(), collections.defaultdict(set), collections.defaultdict(set), set()
        viols = []
        trouble = collections.defaultdict(list)
        slow = []
        at = 0
        while at < len(done):
            j, u, f = done[at]
            at += 1
            d = f.result()
            if d is LATER:
                left.append((j, u))
                d = None
            if at == len(done) and left:
                # enough was found to stop early; the rest runs when the real code confirms none of it
                code = self.report(viols)
                if not code:
                    viols, self.deadline = [], float("inf")
                    done += [(j, u, self.pool.submit(self.run_job, j, u)) for j, u in left]
                else: skipped += len(left)
                left = []
            if d is None:
                skipped += f.result() is None
                continue
            results.append((j, u, d))
            for k in ("paths", "complete", "forks", "steps", "merged", "asserts", "asserts_folded", "queries", "sat", "unsat", "unknown", "cached", "solver_seconds"): tot[k] += d.get(k, 0)
            for k, v in d["incomplete"].items():
                inc[k] += v
                trouble[k].append(j.label())
            slow.append((d.get("seconds", 0), j.label()))
            funcs |= set(d["functions"])
            covers[(j.entry, j.type)] |= set(d["covers"])
            wanted[(j.entry, j.type)] |= set()
            for c in j.covers: wanted[(j.entry, None)].add(c)
            for v in d["violations"]:
                if v["kind"] in self.kinds: viols.append((j, u, v))
        reached = collections.defaultdict(set)
        for (e, _), c in covers.items(): reached[e] |= c
        for (e, n), w in wanted.items():
            miss = w - reached[e]
            if miss: self.note("never reached in %s: %s" % (e, ", ".join(sorted(miss))))
        for k, v in inc.most_common(12): self.note("%s (%d times, e.g. in %s)" % (k, v, trouble[k][0]))
        if skipped: self.note("%d of %d cases not run within the time" % (skipped, len(done)))
        code = code or self.report(viols)
        validated, failed = self.validate(results) if not code else (0, 0)
        if failed: code = 1
        slow.sort(reverse=True)
        ev = {"property": self.prop, "tier": "thorough" if DEEP else "quick", "seed": SEED, "level": "model_checking",
              "coverage": {
                  "states": tot["paths"], "transitions": tot["steps"], "traces_validated_against_impl": validated,
                  "samples": [j.label() for j, _, _ in results[:: max(1, len(results) // 12)]][:14],
                  "cases": len(results), "cases_not_run": skipped, "paths_completed": tot["complete"], "forks": tot["forks"], "branches_merged": tot["merged"],
                  "assertions": tot["asserts"], "assertions_folded_before_the_solver": tot["asserts_folded"],
                  "queries": tot["queries"], "queries_unsat": tot["unsat"], "queries_sat": tot["sat"], "queries_unknown": tot["unknown"], "queries_cached": tot["cached"],
                  "solver_seconds": round(tot["solver_seconds"], 2), "functions_encoded": sorted(funcs), "functions_encoded_count": len(funcs),
                  "incomplete": dict(inc), "covers": {e: sorted(c) for e, c in reached.items()},
                  "bounds": self.bounds(results), "build_seconds": round(t_build, 1), "slowest": [["%.1f" % s, l] for s, l in slow[:40]]},
              "technique": "symbolic execution of clang's LLVM IR of the repository's sources, z3 decides every branch and assertion",
              "notes": self.notes, "violations": len(viols), "wall_s": round(time.time() - T0, 1)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        print("%s: %d cases, %d paths, %d instructions, %d queries, solver %.1f s, %d traces run natively, %.1f s" %
              (self.prop, len(results), tot["paths"], tot["steps"], tot["queries"], tot["solver_seconds"], validated, time.time() - T0))
        return code

    def bounds(self, results):
        b = collections.OrderedDict()
        for j, _, _ in results:
            e = b.setdefault(j.entry, {"cases": 0, "types": set(), "params": collections.defaultdict(set)})
            e["cases"] += 1
            if j.type: e["types"].add(j.type)
            for k, v in j.params.items():
                if k != "type": e["params"][k].add(v)
        r = {}
        for k, e in b.items():
            r[k] = {"cases": e["cases"], "types": len(e["types"]),
                    "params": {p: sorted(v) if len(v) <= 24 else "%d values from %d to %d" % (len(v), min(v), max(v)) for p, v in e["params"].items()}}
        return r

    def report(self, viols):
        code = 0
        seen = collections.Counter()
        told = set()
        tried = collections.Counter()
        shown = set()
        for j, u, v in viols:
            key = (v["kind"], v["msg"] if v["kind"] == "assert" else v["where"], j.entry)
            if key in shown or tried[key] >= 12 or (code and sum(seen.values()) >= 4): continue
            tried[key] += 1
            inputs = [v["input"]]
            if j.entry == "prop_isqrt":
                nk, nd = (2, 3) if j.params["width"] == 32 else (4, 5)
                inputs += [(k.to_bytes(nk, "little") + d.to_bytes(nd, "little")).hex() for k, d in ISQRT if k < 1 << (8 * nk)]
            got, why = self.replay(u, j.entry, j.params, v["kind"], inputs)
            if not got:
                told.add((key, "%s: %s in %s: the solver's counterexample does not show natively (%s)" % (v["kind"], v["msg"], j.label(), why)))
                continue
            shown.add(key)
            hit = [k for k in self.known if k[0] == j.entry and k[1] == v["msg"]]
            if hit:
                if key not in seen: print("KNOWN-FINDING: property=%s %s %s" % (self.prop, v["msg"], hit[0][2]))
                seen[key] = 0
                continue
            seen[key] += 1
            code = 1
            path = os.path.join("evidence", "replay-%s-%d.json" % (self.prop, sum(seen.values())))
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            json.dump({"property": self.prop, "preset": j.preset, "src": j.src, "prop": j.prop, "type": j.type, "entry": j.entry, "params": j.params,
                       "kind": v["kind"], "message": v["msg"], "where": v["where"], "stack": v["stack"], "input": got[0], "native": [got[1], got[2][-1500:]]},
                      open(os.path.join(VERIF, path), "w"), indent=1)
            print("%s: %s [%s] at %s" % (v["kind"], v["msg"], j.label(), v["where"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        for key, t in sorted(told):
            if key not in shown: self.note(t)
        return code

    def validate(self, results):
        """runs inputs of completed paths natively: the executor and the machine have to agree"""
        units = collections.OrderedDict()
        for j, u, d in results:
            if d["witnesses"]: units.setdefault(u.key, (u, []))[1].append((j, d))
        keys = list(units)
        if not keys: return 0, 0
        want = len(keys) if DEEP else min(3, len(keys))
        pick = [keys[(SEED + k * max(1, len(keys) // want)) % len(keys)] for k in range(want)]
        n = bad = 0
        for key in dict.fromkeys(pick):
            if time.time() - T0 > BUDGET + 120: break
            u, js = units[key]
            exe, err = u.build.native(u.key, u.src, u.defs, True, self.pool)
            if not exe:
                self.note("the native program does not build: " + first_error(err))
                continue
            work = []
            for j, d in js:
                ws = d["witnesses"] if DEEP else d["witnesses"][-2:]
                for w in ws: work.append((j, w))
            cap = 400 if DEEP else 60
            step = max(1, len(work) // cap)
            work = work[::step]
            futs = [(j, w, self.pool.submit(native_run, exe, j.entry, w, j.params)) for j, w in work]
            for j, w, f in futs:
                c, out = f.result()
                n += 1
                if c == 0: continue
                text = " ".join(out.split())[-300:]
                kind = "assert" if c == 81 else "memory"
                if c in (82, 83, 2): self.note("the executor's input is no input of %s natively: exit %s" % (j.label(), c))
                elif any(k[0] == j.entry and k[1] in out for k in self.known): pass
                elif kind in self.kinds and c != "timeout":
                    bad += 1
                    path = os.path.join("evidence", "replay-%s-w%d.json" % (self.prop, bad))
                    json.dump({"property": self.prop, "preset": j.preset, "src": j.src, "prop": j.prop, "type": j.type, "entry": j.entry, "params": j.params, "kind": kind,
                               "message": text, "input": w, "native": [c, out[-1500:]]}, open(os.path.join(VERIF, path), "w"), indent=1)
                    if bad <= 2:
                        print("a path the executor completed fails natively: %s: exit %s %s" % (j.label(), c, text))
                        print("VIOLATION property=%s replay=%s" % (self.prop, path))
                else: self.note("%s runs differently natively: exit %s %s" % (j.label(), c, text))
        return n, bad

    def replay_file(self, path):
        d = json.load(open(path))
        self.builds = {d["preset"]: Build(d["preset"], self.tmp)}
        u = self.make_unit(d["preset"], d["src"], d["prop"], [d["type"]], "replay")
        u.build.ready = True
        exe, err = u.build.native(u.key, u.src, u.defs, d["kind"] != "uninit", self.pool)
        if not exe:
            print(err)
            return 2
        code, out = native_run(exe, d["entry"], d["input"], d["params"], d["kind"] != "uninit")
        print(out)
        if shows(d["kind"], code, out):
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("not reproduced (exit %s)" % code)
        return 0


def first_error(t):
    for l in (t or "").split("\n"):
        if "error" in l: return l.strip()[:300]
    return (t or "").strip()[:300]


def main():
    prop = sys.argv[1]
    if prop not in plans.PLANS:
        print("no check for " + prop)
        return 2
    c = Check(prop)
    try:
        if "--replay" in sys.argv: return c.replay_file(sys.argv[sys.argv.index("--replay") + 1])
        return c.main()
    finally:
        c.pool.shutdown(wait=False, cancel_futures=True)
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(c.tmp, ignore_errors=True)


if __name__ == "__main__": sys.exit(main())
