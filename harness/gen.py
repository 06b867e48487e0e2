#!/usr/bin/env python3
"""Writes spec_types.hpp (the specification's types as C++ data) and set_types.hpp for one preset."""
import sys

from spec_table import COMMON, BYTES_CONST, PRESET, containers, types


def main(preset, out):
    names = {}
    lines = ["#pragma once", '#include "spec.hpp"', "namespace spec {"]
    cs = containers(preset)
    done = {}

    def emit(t):
        if t in names: return names[t]
        n = "t%d" % len(names)
        k = t[0]
        if k == "container":
            fs = [(f, emit(ft)) for f, ft in cs[t[1]]]
            n = "t%d" % len(names)
            lines.append("inline constexpr Field f_%s[] = {%s};" % (n, ", ".join('{"%s", &%s}' % x for x in fs)))
            lines.append('inline constexpr Type %s{CONTAINER, 0, nullptr, f_%s, %d, "%s"};' % (n, n, len(fs), t[1]))
        elif k in ("vector", "list"):
            e = emit(t[1])
            n = "t%d" % len(names)
            lines.append('inline constexpr Type %s{%s, %dul, &%s, nullptr, 0, "%s"};' % (n, k.upper(), t[2], e, k))
        else:
            lines.append('inline constexpr Type %s{%s, %dul, nullptr, nullptr, 0, "%s"};' % (n, k.upper(), t[1] if len(t) > 1 else 0, k))
        names[t] = n
        return n

    ts = types(preset)
    for k, v in ts.items():
        done[k] = emit(v[2])
        if v[2][0] == "container": lines.append("inline constexpr const Type* type_%s = &%s;" % (k, done[k]))
    lines.append("}")
    # setting the fields of containers by the specification's names, wherever the class keeps them
    sets = ["#pragma once", "namespace impl {"]
    for c in cs:
        sets.append("template <> struct Set<eth::%s> {\n  template <class T> static bool go(T& o, const Value& v) {" % c)
        for k, (f, _) in enumerate(cs[c]):
            s = "    "
            for a in (f + "_", f, "m_" + f, "_" + f, f + "_m"):
                s += "if constexpr (requires { o.%s.get_ssz_size(); }) { if (!set(o.%s, v.e[%d])) return false; } else " % (a, a, k)
            sets.append(s + "return false;")
        sets.append("    return true;\n  }\n};")
    sets.append("}")
    # the types under test
    tt = ["#pragma once", "#include <new>", "template <class T> struct Make {", "  T (*make)();", "  T* (*at)(void*);",
          "  T operator()() const { return make(); }", "};", "template <class F> void with_type(F&& f) {", "  switch (verif_param(\"type\")) {"]
    for k, (cpp, args, _) in ts.items():
        tt.append("#ifdef TYPE_%s" % k)
        tt.append("  case %d: f.template operator()<%s>(spec::%s, Make<%s>{[]() -> %s { return %s{%s}; }, [](void* p) { return ::new (p) %s%s; }}); break;" %
                  (list(ts).index(k), cpp, done[k], cpp, cpp, cpp, args, cpp, "(%s)" % args if args else ""))
        tt.append("#endif")
    tt.append("  default: verif_assert(false, \"unknown type\");\n  }\n}")
    const = ["#pragma once"]
    for n, v in {**COMMON, **PRESET[preset]}.items():
        const.append("CHECK_CONST(%s, %dull)" % (n, v))
    for n, v in BYTES_CONST[preset].items():
        const.append('CHECK_BYTES(%s, "%s")' % (n, v))
    for name, ls in (("spec_types.hpp", lines), ("set_types.hpp", sets), ("with_type.hpp", tt), ("spec_const.hpp", const)):
        open(out + "/" + name, "w").write("\n".join(ls) + "\n")


main(sys.argv[1], sys.argv[2])
