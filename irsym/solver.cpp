#include "solver.h"

#include <z3++.h>

#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <unordered_set>

namespace irsym {
SolverStats sstats;
unsigned query_timeout_ms = 20000;

namespace {
z3::context& ctx() {
    static z3::context* c = new z3::context;
    return *c;
}
// products of unknowns as unknowns of their own, with what is known of their size: a weaker query, which z3 refutes at once
// where the full one is out of its reach
bool weak = false;
std::unordered_map<std::uint32_t, z3::expr>& memo() {
    static auto* m = new std::unordered_map<std::uint32_t, z3::expr>[2];
    return m[weak];
}
std::unordered_map<std::uint32_t, z3::expr>& hmemo() {
    static auto* m = new std::unordered_map<std::uint32_t, z3::expr>;
    return *m;
}

z3::expr num(u128 v, unsigned w) {
    auto& c = ctx();
    if (w <= 64) return c.bv_val((uint64_t)v, w);
    return z3::concat(c.bv_val((uint64_t)(v >> 64), w - 64), c.bv_val((uint64_t)v, 64));
}
z3::expr b2v(const z3::expr& b) { return z3::ite(b, ctx().bv_val(1, 1), ctx().bv_val(0, 1)); }

// terms of width 1 are Boolean in z3
z3::expr vec(const z3::expr& e) { return e.is_bool() ? b2v(e) : e; }

z3::expr conv(E* e);
z3::expr conv1(E* e) {
    auto& c = ctx();
    auto x = [&](int k) { return conv(e->a[k]); };
    switch (e->op) {
        case CONST:
            if (e->w == 1) return c.bool_val(e->v != 0);
            return num(e->v, e->w);
        case VAR: {
            std::string n = "v" + std::to_string((unsigned)e->v);
            return e->w == 1 ? c.bool_const(n.c_str()) : c.bv_const(n.c_str(), e->w);
        }
        case HBYTE: {
            auto h = (std::uint32_t)(e->v / 32);
            unsigned k = (unsigned)(e->v % 32);
            auto it = hmemo().find(h);
            if (it == hmemo().end()) {
                static z3::func_decl* H = new z3::func_decl(c.function("sha256", c.bv_sort(512), c.bv_sort(256)));
                z3::expr_vector parts(c);
                for (E* b : hashes[h].in) parts.push_back(vec(conv(b)));
                it = hmemo().emplace(h, (*H)(z3::concat(parts))).first;
            }
            return it->second.extract(8 * k + 7, 8 * k);
        }
        case ITE: {
            auto a = x(1), b = x(2);
            return z3::ite(x(0), a, b);
        }
        case CONCAT: return z3::concat(vec(x(0)), vec(x(1)));
        case EXTRACT: {
            auto r = vec(x(0)).extract((unsigned)e->v + e->w - 1, (unsigned)e->v);
            return e->w == 1 ? r == c.bv_val(1, 1) : r;
        }
        case TAB: {
            auto& t = tables[(std::size_t)e->v];
            auto i = vec(x(0));
            std::vector<std::size_t> from;
            for (std::size_t k = 0; k < t.size(); ++k)
                if (!k || t[k] != t[k - 1]) from.push_back(k);
            std::function<z3::expr(std::size_t, std::size_t)> tree = [&](std::size_t a, std::size_t b) -> z3::expr {
                if (a + 1 == b) return e->w == 1 ? c.bool_val(t[from[a]] != 0) : num(t[from[a]], e->w);
                std::size_t m = (a + b) / 2;
                auto l = tree(a, m), r = tree(m, b);
                return z3::ite(z3::ult(i, num(from[m], e->a[0]->w)), l, r);
            };
            return tree(0, from.size());
        }
        case ZEXT: return z3::zext(vec(x(0)), e->w - e->a[0]->w);
        case SEXT: return z3::sext(vec(x(0)), e->w - e->a[0]->w);
        default: break;
    }
    if (e->op == UITOFP || e->op == SITOFP || e->op == FSQRT) {
        std::string n = "fp" + std::to_string(e->id);
        return c.bv_const(n.c_str(), e->w);
    }
    auto a = x(0), b = x(1);
    if (e->a[0]->w == 1) {
        switch (e->op) {
            case AND: return a && b;
            case OR: return a || b;
            case XOR: case ADD: case SUB: return a != b;
            case EQ: return a == b;
            case ULT: return !a && b;
            case ULE: return !a || b;
            case SLT: return a && !b;
            case SLE: return a || !b;
            case MUL: return a && b;
            default: break;
        }
        a = vec(a), b = vec(b);
    }
    z3::expr r(c);
    switch (e->op) {
        case ADD: r = a + b; break;
        case SUB: r = a - b; break;
        case MUL:
            if (!e->a[0]->isc() && !e->a[1]->isc()) {
                if (weak) {
                    r = c.bv_const(("p" + std::to_string(e->id)).c_str(), e->w);
                    break;
                }
            }
            r = a * b;
            break;
        case UDIV: r = z3::udiv(a, b); break;
        case SDIV: r = a / b; break;
        case UREM: r = z3::urem(a, b); break;
        case SREM: r = z3::srem(a, b); break;
        case AND: r = a & b; break;
        case OR: r = a | b; break;
        case XOR: r = a ^ b; break;
        case SHL: r = z3::shl(a, b); break;
        case LSHR: r = z3::lshr(a, b); break;
        case ASHR: r = z3::ashr(a, b); break;
        case EQ: return a == b;
        case ULT: return z3::ult(a, b);
        case ULE: return z3::ule(a, b);
        case SLT: return a < b;
        case SLE: return a <= b;
        default: throw std::runtime_error("term");
    }
    if (e->w == 1) return r == c.bv_val(1, 1);
    return r;
}

z3::expr conv(E* e) {
    auto it = memo().find(e->id);
    if (it != memo().end()) return it->second;
    auto r = conv1(e);
    memo().emplace(e->id, r);
    return r;
}
bool hasproduct(E* e) {
    static std::unordered_map<std::uint32_t, bool> m;
    auto it = m.find(e->id);
    if (it != m.end()) return it->second;
    bool r = e->op == MUL && !e->a[0]->isc() && !e->a[1]->isc();
    for (int k = 0; k < 3 && !r; ++k)
        if (e->a[k]) r = hasproduct(e->a[k]);
    return m[e->id] = r;
}
// the oldest factor of a product of unknowns
void firstfactor(E* e, E*& f) {
    static std::unordered_map<std::uint32_t, E*> m;
    if (!hasproduct(e)) return;
    auto it = m.find(e->id);
    if (it == m.end()) {
        E* g = nullptr;
        if (e->op == MUL && !e->a[0]->isc() && !e->a[1]->isc()) g = e->a[0]->id < e->a[1]->id ? e->a[0] : e->a[1];
        for (int k = 0; k < 3; ++k)
            if (e->a[k]) firstfactor(e->a[k], g);
        it = m.emplace(e->id, g).first;
    }
    if (!f || it->second->id < f->id) f = it->second;
}
unsigned lowbits(E* e) {  // the width above which the bits are zero
    if (e->op == CONCAT && e->a[0]->isc() && e->a[0]->v == 0) return lowbits(e->a[1]);
    if (e->op == ZEXT) return lowbits(e->a[0]);
    return e->w;
}
void lemmas(E* e, z3::solver& q, std::unordered_set<std::uint32_t>& done) {
    if (!hasproduct(e) || !done.insert(e->id).second) return;
    for (int k = 0; k < 3; ++k)
        if (e->a[k]) lemmas(e->a[k], q, done);
    if (e->op != MUL || e->a[0]->isc() || e->a[1]->isc() || e->w > 64) return;
    unsigned a = lowbits(e->a[0]), b = lowbits(e->a[1]);
    if (a + b > e->w) return;
    auto r = vec(conv(e)), x = vec(conv(e->a[0]));
    q.add(z3::ule(r, num((((u128)1 << a) - 1) * (((u128)1 << b) - 1), e->w)));
    q.add(z3::ule(r, x * num(((u128)1 << b) - 1, e->w)));
    // a square is at least twice its root less one
    if (e->a[0] == e->a[1] && 2 * a + 1 <= 2 * e->w && a + 1 < e->w) q.add(z3::ule(x + x, r + num(1, e->w)));
}
}  // namespace

namespace {
// The query with its variables named by their first occurrence: queries that differ in the names of the variables only have
// one answer. False when it is too large or has hashes.
struct Canonical {
    std::vector<u64> key;
    std::vector<std::uint32_t> vars;
    std::unordered_map<std::uint32_t, u64> seen;
    std::unordered_map<std::uint32_t, u64> names;
    bool add(E* e) {
        if (seen.count(e->id)) return true;
        if (seen.size() > 4000 || e->op == HBYTE || e->op == UITOFP || e->op == SITOFP || e->op == FSQRT) return false;
        u64 ref[3] = {~0ull, ~0ull, ~0ull};
        for (int k = 0; k < 3; ++k)
            if (e->a[k]) {
                if (!add(e->a[k])) return false;
                ref[k] = seen[e->a[k]->id];
            }
        u64 n = seen.size();
        seen[e->id] = n;
        key.push_back((u64)e->op << 16 | e->w);
        if (e->op == VAR) {
            auto it = names.find((std::uint32_t)e->v);
            if (it == names.end()) {
                it = names.emplace((std::uint32_t)e->v, vars.size()).first;
                vars.push_back((std::uint32_t)e->v);
            }
            key.push_back(it->second);
        } else if (e->op == CONST || e->op == EXTRACT || e->op == TAB) {
            key.push_back((u64)e->v);
            key.push_back((u64)(e->v >> 64));
        }
        for (int k = 0; k < 3; ++k)
            if (e->a[k]) key.push_back(ref[k]);
        return true;
    }
    bool top(E* e) {
        if (!add(e)) return false;
        key.push_back(~0ull);
        key.push_back(seen[e->id]);
        return true;
    }
};
void conjuncts(E* e, std::vector<E*>& out) {
    while (e->op == AND && e->w == 1) {
        conjuncts(e->a[0], out);
        e = e->a[1];
    }
    out.push_back(e);
}
}  // namespace

Res check(const std::vector<E*>& pc, E* cond, Model* model) {
    if (isF(cond)) return Res::UNSAT;
    if (cond->isc() && pc.empty()) return Res::SAT;
    // slice
    std::vector<E*> sl;
    std::unordered_set<std::uint32_t> vs(cond->vars->begin(), cond->vars->end());
    if (cond->isc()) sl = pc;
    else {
        static std::vector<E*> last;
        static std::unordered_map<std::uint32_t, std::vector<std::uint32_t>> byvar;
        if (last.size() > pc.size() || !std::equal(last.begin(), last.end(), pc.begin())) {
            last.clear();
            byvar.clear();
        }
        for (std::size_t k = last.size(); k < pc.size(); ++k) {
            last.push_back(pc[k]);
            for (auto v : *pc[k]->vars) byvar[v].push_back((std::uint32_t)k);
        }
        std::unordered_set<std::uint32_t> in;
        std::vector<std::uint32_t> todo(vs.begin(), vs.end());
        while (!todo.empty()) {
            auto v = todo.back();
            todo.pop_back();
            auto it = byvar.find(v);
            if (it == byvar.end()) continue;
            for (auto k : it->second) {
                if (!in.insert(k).second) continue;
                sl.push_back(pc[k]);
                for (auto w : *pc[k]->vars)
                    if (vs.insert(w).second) todo.push_back(w);
            }
        }
    }
    static std::map<std::vector<std::uint32_t>, std::pair<Res, std::shared_ptr<Model>>> cache;
    std::vector<std::uint32_t> key;
    for (E* e : sl) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.push_back(cond->id);
    auto it = cache.find(key);
    if (it != cache.end()) {
        ++sstats.cached;
        if (it->second.first == Res::SAT && model)
            for (auto& p : it->second.second->v) model->v[p.first] = p.second;
        return it->second.first;
    }
    // a disjunction: one part after the other, each with its own slice
    if (cond->op == XOR && cond->w == 1 && isT(cond->a[1]) && cond->a[0]->op == AND) {
        std::vector<E*> parts;
        conjuncts(cond->a[0], parts);
        if (parts.size() > 8) {
            Res all = Res::UNSAT;
            for (E* x : parts) {
                auto mm = std::make_shared<Model>();
                Res r = check(pc, not_(x), mm.get());
                if (r == Res::SAT) {
                    if (model)
                        for (auto& q : mm->v) model->v[q.first] = q.second;
                    cache[key] = {r, mm};
                    return r;
                }
                if (r == Res::UNKNOWN) {
                    all = r;
                    break;
                }
            }
            if (all == Res::UNSAT) {
                cache[key] = {all, std::make_shared<Model>()};
                return all;
            }
        }
    }
    // a conjunction often contradicts one constraint alone
    static bool inner = false;
    if (!inner && cond->op == AND && cond->w == 1 && !sl.empty()) {
        std::vector<E*> parts;
        conjuncts(cond, parts);
        if (parts.size() > 8) {
            std::vector<E*> late(sl);
            std::sort(late.begin(), late.end(), [](E* a, E* b) { return a->id > b->id; });
            if (late.size() > 4) late.resize(4);
            for (E* q : late) {
                std::unordered_set<std::uint32_t> qv(q->vars->begin(), q->vars->end());
                E* some = T();
                for (E* x : parts) {
                    bool hit = false;
                    for (auto v : *x->vars) hit = hit || qv.count(v);
                    if (hit) some = and_(x, some);
                }
                if (some == cond || some->isc()) continue;
                inner = true;
                Res r = check({q}, some, nullptr);
                inner = false;
                if (r == Res::UNSAT) {
                    cache[key] = {Res::UNSAT, std::make_shared<Model>()};
                    return Res::UNSAT;
                }
            }
        }
    }
    static std::map<std::vector<u64>, std::pair<Res, std::vector<u128>>> renamed;
    Canonical can;
    bool small = can.top(cond);
    std::sort(sl.begin(), sl.end(), [](E* a, E* b) { return a->id < b->id; });
    for (E* e : sl) small = small && can.top(e);
    if (small) {
        auto q = renamed.find(can.key);
        if (q != renamed.end()) {
            ++sstats.cached;
            auto mm = std::make_shared<Model>();
            if (q->second.first == Res::SAT) {
                for (std::size_t k = 0; k < can.vars.size(); ++k) mm->v[can.vars[k]] = q->second.second[k];
                if (model)
                    for (auto& x : mm->v) model->v[x.first] = x.second;
            }
            cache[key] = {q->second.first, mm};
            return q->second.first;
        }
    }
    auto t0 = std::chrono::steady_clock::now();
    auto& c = ctx();
    z3::solver s(c, "QF_UFBV");
    z3::params p(c);
    p.set("timeout", query_timeout_ms);
    s.set(p);
    for (E* e : sl) s.add(conv(e));
    s.add(conv(cond));
    z3::check_result r = z3::unknown;
    try {
        bool prod = false;
        for (E* e : sl) prod = prod || hasproduct(e);
        if (prod || hasproduct(cond)) {
            z3::solver q(c, "QF_UFBV");
            q.set(p);
            weak = true;
            for (E* e : sl) q.add(conv(e));
            q.add(conv(cond));
            std::unordered_set<std::uint32_t> done;
            std::vector<E*> all(sl);
            all.push_back(cond);
            for (E* e : all) lemmas(e, q, done);
            weak = false;
            r = q.check();
            // a product is easy when one factor is known: the ends of its range, and the values of the weaker query
            if (r == z3::sat) {
                E* f = nullptr;
                for (E* e : all) firstfactor(e, f);
                auto x = vec(conv(f));
                unsigned b = lowbits(f);
                std::vector<z3::expr> tries{num(((u128)1 << b) - 1, f->w), num(0, f->w), num(1, f->w), q.get_model().eval(x, true)};
                z3::params few(c);
                few.set("timeout", query_timeout_ms / 10 + 1);
                s.set(few);
                r = z3::unknown;
                for (auto& t : tries) {
                    s.push();
                    s.add(x == t);
                    r = s.check();
                    if (r == z3::sat) break;
                    r = z3::unknown;
                    s.pop();
                }
                s.set(p);
            }
        }
        if (r == z3::unknown) r = s.check();
    } catch (z3::exception&) {
        weak = false;
        r = z3::unknown;
    }
    Res res = r == z3::sat ? Res::SAT : r == z3::unsat ? Res::UNSAT : Res::UNKNOWN;
    auto mm = std::make_shared<Model>();
    if (res == Res::SAT) {
        auto m = s.get_model();
        for (unsigned k = 0; k < m.num_consts(); ++k) {
            auto d = m.get_const_decl(k);
            std::string n = d.name().str();
            if (n[0] != 'v') continue;
            auto val = m.get_const_interp(d);
            u128 x = 0;
            if (val.is_bool()) x = val.is_true();
            else {
                std::string t = val.get_decimal_string(0);
                for (char ch : t) x = x * 10 + (ch - '0');
            }
            mm->v[(std::uint32_t)std::stoul(n.substr(1))] = x;
        }
        // variables z3 left out may take any value
        for (auto v : vs)
            if (!mm->v.count(v)) mm->v[v] = 0;
        if (model)
            for (auto& q : mm->v) model->v[q.first] = q.second;
    }
    ++sstats.queries;
    if (getenv("DBGQ")) {
        double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (t > 0.5) fprintf(stderr, "QUERY %.1f s %s of %zu constraints, %zu terms: %s\n", t, res == Res::SAT ? "sat" : res == Res::UNSAT ? "unsat" : "open", sl.size(), can.seen.size(), str(cond, 8).substr(0, 600).c_str());
    }
    ++(res == Res::SAT ? sstats.sat : res == Res::UNSAT ? sstats.unsat : sstats.unknown);
    sstats.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    cache[key] = {res, mm};
    if (small) {
        std::vector<u128> vals;
        if (res == Res::SAT)
            for (auto v : can.vars) vals.push_back(mm->v[v]);
        renamed[can.key] = {res, std::move(vals)};
    }
    return res;
}
// whether the byte strings are equal on every path with these constraints, with no rewriting of the equality
Res differ(const std::vector<E*>& pc, const std::vector<E*>& x, const std::vector<E*>& y) {
    auto t0 = std::chrono::steady_clock::now();
    auto& c = ctx();
    z3::solver s(c, "QF_UFBV");
    z3::params p(c);
    p.set("timeout", query_timeout_ms);
    s.set(p);
    for (E* e : pc) s.add(conv(e));
    z3::expr_vector d(c);
    for (std::size_t k = 0; k < x.size(); ++k) d.push_back(conv(x[k]) != conv(y[k]));
    s.add(z3::mk_or(d));
    z3::check_result r;
    try {
        r = s.check();
    } catch (z3::exception&) {
        r = z3::unknown;
    }
    Res res = r == z3::sat ? Res::SAT : r == z3::unsat ? Res::UNSAT : Res::UNKNOWN;
    ++sstats.queries;
    ++(res == Res::SAT ? sstats.sat : res == Res::UNSAT ? sstats.unsat : sstats.unknown);
    sstats.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    return res;
}
}  // namespace irsym
