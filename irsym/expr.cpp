#include "expr.h"

#include <algorithm>
#include <cstring>
#include <map>
#include <set>
#include <sstream>

namespace irsym {
std::vector<VarInfo> varinfo;
std::vector<Hash> hashes;
std::vector<std::vector<u128>> tables;
std::size_t expr_count = 0;

namespace {
struct Key {
    Op op;
    std::uint16_t w;
    E *a, *b, *c;
    u128 v;
    bool operator==(const Key& o) const { return op == o.op && w == o.w && a == o.a && b == o.b && c == o.c && v == o.v; }
};
struct KeyHash {
    std::size_t operator()(const Key& k) const {
        u64 h = k.op * 0x9E3779B97F4A7C15ull + k.w;
        for (u64 x : {(u64)(std::uintptr_t)k.a, (u64)(std::uintptr_t)k.b, (u64)(std::uintptr_t)k.c, (u64)k.v, (u64)(k.v >> 64)}) {
            h ^= x + 0x9E3779B97F4A7C15ull + (h << 12) + (h >> 4);
            h *= 0xff51afd7ed558ccdull;
            h ^= h >> 29;
        }
        return h;
    }
};
std::unordered_map<Key, E*, KeyHash>& table() {
    static std::unordered_map<Key, E*, KeyHash> t;
    return t;
}
std::set<VarSet>& sets() {
    static std::set<VarSet> s;
    return s;
}
const VarSet* intern(const VarSet& v) { return &*sets().insert(v).first; }
const VarSet* none() {
    static const VarSet* n = intern({});
    return n;
}

E* mk(Op op, unsigned w, E* a, E* b, E* c, u128 v, const VarSet* vars = nullptr) {
    Key k{op, (std::uint16_t)w, a, b, c, v};
    auto& t = table();
    auto it = t.find(k);
    if (it != t.end()) return it->second;
    E* e = new E{op, (std::uint16_t)w, (std::uint32_t)expr_count++, {a, b, c}, v, nullptr};
    if (vars) e->vars = vars;
    else {
        e->vars = none();
        for (E* x : {a, b, c})
            if (x) e->vars = unite(e->vars, x->vars);
    }
    t.emplace(k, e);
    return e;
}

u128 sx(u128 v, unsigned w) {
    if (w < 128 && (v >> (w - 1) & 1)) v |= ~maskw(w);
    return v;
}
}  // namespace

const VarSet* unite(const VarSet* a, const VarSet* b) {
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    static std::unordered_map<u64, const VarSet*> memo;
    static std::unordered_map<const VarSet*, std::uint32_t> num;
    auto n = [](const VarSet* s) {
        auto it = num.find(s);
        if (it != num.end()) return it->second;
        return num[s] = (std::uint32_t)num.size();
    };
    u64 key = (u64)n(a) << 32 | n(b);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    VarSet r;
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    return memo[key] = intern(r);
}

E* cst(u128 v, unsigned w) { return mk(CONST, w, nullptr, nullptr, nullptr, v & maskw(w), none()); }

E* newvar(const std::string& name, unsigned w, bool undef, long input) {
    u128 k = varinfo.size();
    varinfo.push_back({name, undef, input});
    return mk(VAR, w, nullptr, nullptr, nullptr, k, intern({(std::uint32_t)k}));
}

bool hasundef(E* e) {
    for (auto v : *e->vars)
        if (varinfo[v].undef) return true;
    return false;
}

u128 foldop(Op op, unsigned w, u128 a, u128 b) {
    u128 m = maskw(w);
    auto sa = [&] { return (__int128)sx(a, w); };
    auto sb = [&] { return (__int128)sx(b, w); };
    switch (op) {
        case ADD: return (a + b) & m;
        case SUB: return (a - b) & m;
        case MUL: return (a * b) & m;
        case UDIV: return b ? a / b : m;
        case UREM: return b ? a % b : a;
        case SDIV: return b ? (u128)(sa() / sb()) & m : (sa() < 0 ? 1 : m);
        case SREM: return b ? (u128)(sa() % sb()) & m : a;
        case AND: return a & b;
        case OR: return a | b;
        case XOR: return a ^ b;
        case SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
        case LSHR: return b >= w ? 0 : a >> (unsigned)b;
        case ASHR: return (u128)(sa() >> (b >= w ? w - 1 : (unsigned)b)) & m;
        case EQ: return a == b;
        case ULT: return a < b;
        case ULE: return a <= b;
        case SLT: return sa() < sb();
        case SLE: return sa() <= sb();
        default: return 0;
    }
}

static bool cmp(Op op) { return op >= EQ && op <= SLE; }

namespace {
// results of the rewriting functions below
std::unordered_map<Key, E*, KeyHash>& rewritten() {
    static std::unordered_map<Key, E*, KeyHash> t;
    return t;
}
template <class F>
E* remember(Op op, unsigned w, E* a, E* b, u128 v, F f) {
    Key k{op, (std::uint16_t)w, a, b, nullptr, v};
    auto it = rewritten().find(k);
    if (it != rewritten().end()) return it->second;
    E* r = f();
    rewritten().emplace(k, r);
    return r;
}
}  // namespace

// number of known leading zero bits
static unsigned topzeros0(E* e);
static unsigned topzeros(E* e) {
    static std::vector<std::int16_t> memo;
    if (e->op == CONST) return topzeros0(e);
    if (memo.size() <= e->id) memo.resize(2 * e->id + 64, -1);
    if (memo[e->id] < 0) {
        unsigned n = topzeros0(e);
        memo[e->id] = (std::int16_t)n;
    }
    return (unsigned)memo[e->id];
}
static unsigned topzeros0(E* e) {
    switch (e->op) {
        case CONST: {
            unsigned n = 0;
            while (n < e->w && !(e->v >> (e->w - 1 - n) & 1)) ++n;
            return n;
        }
        case ZEXT: return e->w - e->a[0]->w + topzeros(e->a[0]);
        case AND: return std::max(topzeros(e->a[0]), topzeros(e->a[1]));
        case OR: case XOR: return std::min(topzeros(e->a[0]), topzeros(e->a[1]));
        case ITE: return std::min(topzeros(e->a[1]), topzeros(e->a[2]));
        case LSHR:
            if (e->a[1]->isc()) return std::min<u64>(e->w, topzeros(e->a[0]) + e->a[1]->c());
            return topzeros(e->a[0]);
        case CONCAT: {
            unsigned n = topzeros(e->a[0]);
            return n == e->a[0]->w ? n + topzeros(e->a[1]) : n;
        }
        case TAB: {
            u128 all = 0;
            for (u128 v : tables[(std::size_t)e->v]) all |= v;
            unsigned n = 0;
            while (n < e->w && !(all >> (e->w - 1 - n) & 1)) ++n;
            return n;
        }
        default: return 0;
    }
}

// a function of one table, or of two with one index
template <class Fn>
static E* overtable(E* a, E* b, unsigned w, Fn f) {
    E* t = a->op == TAB ? a : b;
    std::size_t n = std::max(a->op == TAB ? tables[(std::size_t)a->v].size() : 0, b && b->op == TAB ? tables[(std::size_t)b->v].size() : 0);
    auto at = [](E* x, std::size_t k) {
        if (x->isc()) return x->v;
        auto& v = tables[(std::size_t)x->v];
        return v[std::min(k, v.size() - 1)];
    };
    std::vector<u128> r;
    for (std::size_t k = 0; k < n; ++k) r.push_back(f(at(a, k), b ? at(b, k) : 0));
    return lookup(std::move(r), t->a[0], w);
}
static bool tabular(E* a, E* b) {
    if (a->op == TAB) return b->isc() || (b->op == TAB && b->a[0] == a->a[0]);
    return b->op == TAB && a->isc();
}

static E* bin0(Op op, E* a, E* b);
E* bin(Op op, E* a, E* b) {
    if (a->isc() && b->isc()) return cst(foldop(op, a->w, a->v, b->v), cmp(op) ? 1 : a->w);
    if (op == EQ) return eq(a, b);
    if (tabular(a, b)) {
        unsigned w = a->w;
        return remember(op, 0, a, b, 0, [&] { return overtable(a, b, cmp(op) ? 1 : w, [&](u128 x, u128 y) { return foldop(op, w, x, y); }); });
    }
    return remember(op, 0, a, b, 0, [&] { return bin0(op, a, b); });
}
static E* bin0(Op op, E* a, E* b) {
    unsigned w = a->w;
    bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR;
    if (comm && (a->isc() || (!b->isc() && a->id > b->id))) std::swap(a, b);  // constants to the right
    u128 m = maskw(w);
    switch (op) {
        case ADD:
            if (b->isc()) {
                if (b->v == 0) return a;
                if (a->op == ADD && a->a[1]->isc()) return bin(ADD, a->a[0], cst(a->a[1]->v + b->v, w));
                if (a->op == ITE && a->a[1]->isc() && a->a[2]->isc())
                    return ite(a->a[0], bin(ADD, a->a[1], b), bin(ADD, a->a[2], b));
            } else {
                if (a->op == ADD && a->a[1]->isc()) return bin(ADD, bin(ADD, a->a[0], b), a->a[1]);
                if (b->op == ADD && b->a[1]->isc()) return bin(ADD, bin(ADD, a, b->a[0]), b->a[1]);
                if (b->op == SUB && b->a[1] == a) return b->a[0];
                if (a->op == SUB && a->a[1] == b) return a->a[0];
                // x * -1 + x
                if (a->op == MUL && a->a[0] == b && a->a[1]->isc()) return bin(MUL, b, cst(a->a[1]->v + 1, w));
                if (b->op == MUL && b->a[0] == a && b->a[1]->isc()) return bin(MUL, a, cst(b->a[1]->v + 1, w));
                if (a == b) return bin(MUL, a, cst(2, w));
            }
            break;
        case SUB:
            if (a == b) return cst(0, w);
            if (b->isc()) return bin(ADD, a, cst(0 - b->v, w));
            if (a->op == ADD && a->a[0] == b) return a->a[1];
            if (a->op == ADD && a->a[1] == b) return a->a[0];
            if (a->op == ADD && a->a[1]->isc()) return bin(ADD, bin(SUB, a->a[0], b), a->a[1]);
            if (b->op == ADD && b->a[1]->isc()) return bin(ADD, bin(SUB, a, b->a[0]), cst(0 - b->a[1]->v, w));
            break;
        case MUL:
            if (b->isc()) {
                if (b->v == 0) return b;
                if (b->v == 1) return a;
                if (a->op == MUL && a->a[1]->isc()) return bin(MUL, a->a[0], cst(a->a[1]->v * b->v, w));
                if (a->op == ADD && a->a[1]->isc()) return bin(ADD, bin(MUL, a->a[0], b), cst(a->a[1]->v * b->v, w));
            } else {
                // products of sums with constants are multiplied out: comparisons of squares become linear
                if (a->op == ADD && a->a[1]->isc()) return bin(ADD, bin(MUL, a->a[0], b), bin(MUL, b, a->a[1]));
                if (b->op == ADD && b->a[1]->isc()) return bin(ADD, bin(MUL, a, b->a[0]), bin(MUL, a, b->a[1]));
            }
            break;
        case UDIV: case UREM:
            if (b->isc() && b->v && !(b->v & (b->v - 1))) {
                unsigned k = 0;
                while (b->v >> k != 1) ++k;
                return op == UDIV ? bin(LSHR, a, cst(k, w)) : bin(AND, a, cst(b->v - 1, w));
            }
            break;
        case SDIV:
            if (b->isc() && b->v == 1) return a;
            break;
        case AND:
            if (b->isc()) {
                if (b->v == 0) return b;
                if (b->v == m) return a;
                // mask of low bits, or of bits known to be the only ones
                if (!((b->v + 1) & b->v)) {
                    unsigned k = 0;
                    while (b->v >> k) ++k;
                    if (topzeros(a) >= w - k) return a;
                    return zext(extract(a, 0, k), w);
                }
                if (a->op == AND && a->a[1]->isc()) return bin(AND, a->a[0], cst(a->a[1]->v & b->v, w));
                // one field of bits
                unsigned lo = 0;
                while (!(b->v >> lo & 1)) ++lo;
                u128 t = b->v >> lo;
                if (!((t + 1) & t)) {
                    unsigned k = 0;
                    while (t >> k) ++k;
                    E* f = extract(a, lo, k);
                    E* r = concat(f, cst(0, lo));
                    return zext(r, w);
                }
            }
            if (a == b) return a;
            break;
        case OR:
            if (b->isc()) {
                if (b->v == 0) return a;
                if (b->v == m) return b;
            }
            if (a == b) return a;
            if (w > 1) {
                // disjoint fields: a concatenation
                for (int k = 0; k < 2; ++k) {
                    E *x = k ? a : b, *y = k ? b : a;  // x = hi ++ 0..., y small
                    if (x->op == CONCAT && x->a[1]->isc() && x->a[1]->v == 0 && topzeros(y) >= w - x->a[1]->w)
                        return concat(x->a[0], extract(y, 0, x->a[1]->w));
                    if (x->op == ZEXT && x->a[0]->op == CONCAT && x->a[0]->a[1]->isc() && x->a[0]->a[1]->v == 0 &&
                        topzeros(y) >= w - x->a[0]->a[1]->w)
                        return zext(concat(x->a[0]->a[0], extract(y, 0, x->a[0]->a[1]->w)), w);
                }
            }
            break;
        case XOR:
            if (b->isc() && b->v == 0) return a;
            if (a == b) return cst(0, w);
            if (a->op == XOR && a->a[1]->isc() && b->isc()) return bin(XOR, a->a[0], cst(a->a[1]->v ^ b->v, w));
            if (w == 1 && b->isc()) {  // negation
                if (a->op == ULT) return bin(ULE, a->a[1], a->a[0]);
                if (a->op == ULE) return bin(ULT, a->a[1], a->a[0]);
                if (a->op == SLT) return bin(SLE, a->a[1], a->a[0]);
                if (a->op == SLE) return bin(SLT, a->a[1], a->a[0]);
            }
            break;
        case SHL:
            if (b->isc()) {
                if (b->v == 0) return a;
                if (b->v >= w) return cst(0, w);
                unsigned k = (unsigned)b->v;
                return concat(extract(a, 0, w - k), cst(0, k));
            }
            break;
        case LSHR:
            if (b->isc()) {
                if (b->v == 0) return a;
                if (b->v >= w) return cst(0, w);
                return zext(extract(a, (unsigned)b->v, w - (unsigned)b->v), w);
            }
            break;
        case ASHR:
            if (b->isc() && b->v == 0) return a;
            if (topzeros(a)) return bin(LSHR, a, b);
            if (b->isc() && b->v < w) return sext(extract(a, (unsigned)b->v, w - (unsigned)b->v), w);
            break;
        case ULT:
            if (a == b) return F();
            if (b->isc() && b->v == 0) return F();
            if (b->isc() && b->v == 1) return eq(a, cst(0, w));
            if (a->isc() && a->v == m) return F();
            if (a->isc() && a->v == 0) return not_(eq(b, a));
            if (b->isc() && w > topzeros(a) && b->v >> (w - topzeros(a))) return T();
            if (b->isc() && topzeros(a) == w) return T();
            if (a->op == ZEXT && b->op == ZEXT && a->a[0]->w == b->a[0]->w) return bin(ULT, a->a[0], b->a[0]);
            if (a->op == ZEXT && b->isc()) return b->v >> a->a[0]->w ? T() : bin(ULT, a->a[0], cst(b->v, a->a[0]->w));
            if (b->op == ZEXT && a->isc()) return a->v >> b->a[0]->w ? F() : bin(ULT, cst(a->v, b->a[0]->w), b->a[0]);
            break;
        case ULE:
            if (a == b) return T();
            if (a->isc() && a->v == 0) return T();
            if (b->isc() && b->v == m) return T();
            if (b->isc() && b->v == 0) return eq(a, b);
            if (b->isc()) return bin(ULT, a, cst(b->v + 1, w));
            if (a->isc()) return bin(ULT, cst(a->v - 1, w), b);
            if (a->op == ZEXT && b->op == ZEXT && a->a[0]->w == b->a[0]->w) return bin(ULE, a->a[0], b->a[0]);
            break;
        case SLT: case SLE:
            if (a == b) return op == SLE ? T() : F();
            if (topzeros(a) && topzeros(b)) return bin(op == SLT ? ULT : ULE, a, b);
            if (op == SLT && b->isc() && b->v == 0) return extract(a, w - 1, 1);
            if (op == SLE && a->isc() && a->v == 0) return not_(extract(b, w - 1, 1));
            if (op == SLT && a->isc() && a->v == m) return not_(extract(b, w - 1, 1));
            break;
        default: break;
    }
    return mk(op, cmp(op) ? 1 : w, a, b, nullptr, 0);
}

static E* eq0(E* a, E* b);
E* eq(E* a, E* b) {
    if (a == b) return T();
    if (a->isc() && b->isc()) return F();
    if (tabular(a, b))
        return remember(EQ, 0, a, b, 0, [&] { return overtable(a, b, 1, [](u128 x, u128 y) { return (u128)(x == y); }); });
    return remember(EQ, 0, a, b, 0, [&] { return eq0(a, b); });
}
static E* eq0(E* a, E* b) {
    unsigned w = a->w;
    if (a->isc() || (!b->isc() && a->id > b->id)) std::swap(a, b);
    if (b->isc()) {
        if (w == 1) return b->v ? a : not_(a);
        if (a->op == ADD && a->a[1]->isc()) return eq(a->a[0], cst(b->v - a->a[1]->v, w));
        if (a->op == XOR && a->a[1]->isc()) return eq(a->a[0], cst(b->v ^ a->a[1]->v, w));
        if (a->op == ZEXT) {
            if (b->v >> a->a[0]->w) return F();
            return eq(a->a[0], cst(b->v, a->a[0]->w));
        }
        if (a->op == SEXT) {
            u128 lo = b->v & maskw(a->a[0]->w);
            if ((sx(lo, a->a[0]->w) & maskw(w)) != b->v) return F();
            return eq(a->a[0], cst(lo, a->a[0]->w));
        }
        if (a->op == CONCAT) {
            unsigned l = a->a[1]->w;
            return and_(eq(a->a[0], cst(b->v >> l, a->a[0]->w)), eq(a->a[1], cst(b->v, l)));
        }
        if (a->op == ITE) {
            E *x = a->a[1], *y = a->a[2];
            if (x->isc() && y->isc()) {
                bool p = x->v == b->v, q = y->v == b->v;
                if (p && q) return T();
                if (!p && !q) return F();
                return p ? a->a[0] : not_(a->a[0]);
            }
            if (x->isc()) return x->v == b->v ? or_(a->a[0], eq(y, b)) : and_(not_(a->a[0]), eq(y, b));
            if (y->isc()) return y->v == b->v ? or_(not_(a->a[0]), eq(x, b)) : and_(a->a[0], eq(x, b));
        }
    } else {
        if (a->op == ZEXT && b->op == ZEXT && a->a[0]->w == b->a[0]->w) return eq(a->a[0], b->a[0]);
        if (a->op == CONCAT && b->op == CONCAT && a->a[1]->w == b->a[1]->w)
            return and_(eq(a->a[0], b->a[0]), eq(a->a[1], b->a[1]));
        if (a->op == ADD && b->op == ADD && a->a[1]->isc() && b->a[1]->isc())
            return eq(a->a[0], bin(ADD, b->a[0], cst(b->a[1]->v - a->a[1]->v, w)));
    }
    return mk(EQ, 1, a, b, nullptr, 0);
}

E* ite(E* c, E* a, E* b) {
    if (c->isc()) return c->v ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
        if (a->isc() && b->isc()) return a->v ? c : not_(c);
        if (a->isc()) return a->v ? or_(c, b) : and_(not_(c), b);
        if (b->isc()) return b->v ? or_(not_(c), a) : and_(c, a);
    }
    if (c->op == XOR && c->a[1]->isc()) return ite(c->a[0], b, a);
    if (a->op == ITE && a->a[0] == c) return ite(c, a->a[1], b);
    if (b->op == ITE && b->a[0] == c) return ite(c, a, b->a[2]);
    // bit selects of constants: zext of the condition
    if (a->isc() && b->isc() && b->v == 0 && a->v == 1) return zext(c, a->w);
    if (a->isc() && b->isc() && b->v == 0 && !(a->v & (a->v - 1))) {
        unsigned k = 0;
        while (a->v >> k != 1) ++k;
        return zext(concat(c, cst(0, k)), a->w);
    }
    return mk(ITE, a->w, c, a, b, 0);
}

E* concat(E* hi, E* lo) {
    if (lo->w == 0) return hi;
    if (hi->w == 0) return lo;
    unsigned w = hi->w + lo->w;
    if (hi->isc() && lo->isc()) return cst(hi->v << lo->w | lo->v, w);
    if (hi->isc() && hi->v == 0) return zext(lo, w);
    if (tabular(hi, lo) && w <= 64) {
        unsigned l = lo->w;
        return remember(CONCAT, w, hi, lo, 0, [&] { return overtable(hi, lo, w, [&](u128 x, u128 y) { return x << l | y; }); });
    }
    // adjacent slices of one term
    E *hx = hi, *lx = lo;
    unsigned ho = 0, lof = 0;
    if (hi->op == EXTRACT) hx = hi->a[0], ho = (unsigned)hi->v;
    if (lo->op == EXTRACT) lx = lo->a[0], lof = (unsigned)lo->v;
    if (hx == lx && ho == lof + lo->w) return extract(hx, lof, w);
    if (lo->op == CONCAT) {
        // hi ++ (a ++ b): merge hi with a when they are adjacent
        E* m = lo->a[0];
        E *mx = m;
        unsigned mo = 0;
        if (m->op == EXTRACT) mx = m->a[0], mo = (unsigned)m->v;
        if (hx == mx && ho == mo + m->w) return concat(extract(hx, mo, hi->w + m->w), lo->a[1]);
        if (hi->isc() && m->isc()) return concat(cst(hi->v << m->w | m->v, hi->w + m->w), lo->a[1]);
    }
    // right-nested: (a ++ b) ++ c = a ++ (b ++ c)
    if (hi->op == CONCAT) return concat(hi->a[0], concat(hi->a[1], lo));
    if (hi->op == ZEXT) return zext(concat(hi->a[0], lo), w);
    if (lo->op == ZEXT) {
        E* z = cst(0, lo->w - lo->a[0]->w);
        return mk(CONCAT, w, hi, mk(CONCAT, lo->w, z, lo->a[0], nullptr, 0), nullptr, 0);
    }
    return mk(CONCAT, w, hi, lo, nullptr, 0);
}

static E* extract0(E* a, unsigned lo, unsigned w);
E* extract(E* a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (w == 0) return mk(CONST, 0, nullptr, nullptr, nullptr, 0, none());
    if (a->isc()) return cst(a->v >> lo, w);
    if (a->op == VAR || a->op == HBYTE) return mk(EXTRACT, w, a, nullptr, nullptr, lo);
    return remember(EXTRACT, w, a, nullptr, lo, [&] { return extract0(a, lo, w); });
}
static E* extract0(E* a, unsigned lo, unsigned w) {
    switch (a->op) {
        case TAB: return overtable(a, nullptr, w, [&](u128 x, u128) { return x >> lo & maskw(w); });
        case EXTRACT: return extract(a->a[0], (unsigned)a->v + lo, w);
        case CONCAT: {
            unsigned l = a->a[1]->w;
            if (lo + w <= l) return extract(a->a[1], lo, w);
            if (lo >= l) return extract(a->a[0], lo - l, w);
            return concat(extract(a->a[0], 0, lo + w - l), extract(a->a[1], lo, l - lo));
        }
        case ZEXT: {
            unsigned l = a->a[0]->w;
            if (lo + w <= l) return extract(a->a[0], lo, w);
            if (lo >= l) return cst(0, w);
            return zext(extract(a->a[0], lo, l - lo), w);
        }
        case SEXT: {
            unsigned l = a->a[0]->w;
            if (lo + w <= l) return extract(a->a[0], lo, w);
            if (lo < l) return sext(extract(a->a[0], lo, l - lo), w);
            break;
        }
        case AND: case OR: case XOR: return bin(a->op, extract(a->a[0], lo, w), extract(a->a[1], lo, w));
        case ITE: return ite(a->a[0], extract(a->a[1], lo, w), extract(a->a[2], lo, w));
        case ADD: case SUB: case MUL:
            if (lo == 0) return bin(a->op, extract(a->a[0], 0, w), extract(a->a[1], 0, w));
            break;
        default: break;
    }
    return mk(EXTRACT, w, a, nullptr, nullptr, lo);
}

E* zext(E* a, unsigned w) {
    if (a->w == w) return a;
    if (a->isc()) return cst(a->v, w);
    if (a->op == TAB && w <= 64)
        return remember(ZEXT, w, a, nullptr, 0, [&] { return overtable(a, nullptr, w, [](u128 x, u128) { return x; }); });
    if (a->op == ZEXT) a = a->a[0];
    // zeros at the top of a concatenation
    if (a->op == CONCAT && a->a[0]->isc() && a->a[0]->v == 0) return zext(a->a[1], w);
    return mk(ZEXT, w, a, nullptr, nullptr, 0);
}

E* sext(E* a, unsigned w) {
    if (a->w == w) return a;
    if (a->isc()) return cst(sx(a->v, a->w), w);
    if (topzeros(a)) return zext(a, w);
    if (a->op == TAB && w <= 64) {
        unsigned o = a->w;
        return remember(SEXT, w, a, nullptr, 0, [&] { return overtable(a, nullptr, w, [&](u128 x, u128) { return sx(x, o) & maskw(w); }); });
    }
    if (a->op == SEXT) a = a->a[0];
    return mk(SEXT, w, a, nullptr, nullptr, 0);
}

E* lookup(std::vector<u128> vals, E* index, unsigned w) {
    while (index->op == ZEXT) index = index->a[0];
    if (index->w < 32 && vals.size() > (std::size_t)1 << index->w) vals.resize((std::size_t)1 << index->w);
    while (vals.size() > 1 && vals.back() == vals[vals.size() - 2]) vals.pop_back();
    if (vals.size() == 1) return cst(vals[0], w);
    if (index->isc()) return cst(vals[(std::size_t)std::min<u128>(index->v, vals.size() - 1)], w);
    if (index->op == TAB) {
        std::vector<u128> r;
        for (u128 k : tables[(std::size_t)index->v]) r.push_back(vals[(std::size_t)std::min<u128>(k, vals.size() - 1)]);
        return lookup(std::move(r), index->a[0], w);
    }
    if (w == 1) {
        // a few ranges
        std::vector<std::pair<u64, u64>> runs;
        for (std::size_t k = 0; k < vals.size(); ++k)
            if (vals[k]) {
                if (runs.empty() || runs.back().second != k) runs.push_back({k, k});
                runs.back().second = k + 1;
            }
        if (runs.size() <= 4) {
            E* r = F();
            for (auto& q : runs) {
                E* in = ule(cst(q.first, index->w), index);
                if (q.second != vals.size())
                    in = q.second == q.first + 1 ? eq(index, cst(q.first, index->w)) : and_(in, ult(index, cst(q.second, index->w)));
                r = or_(r, in);
            }
            return r;
        }
    }
    static std::map<std::vector<u128>, std::size_t> known;
    auto it = known.find(vals);
    if (it == known.end()) {
        it = known.emplace(vals, tables.size()).first;
        tables.push_back(std::move(vals));
    }
    return mk(TAB, w, index, nullptr, nullptr, it->second);
}

E* un(Op op, E* a, unsigned w) { return mk(op, w, a, nullptr, nullptr, 0); }

E* hbyte(const std::vector<E*>& in, unsigned k) {
    static std::map<std::vector<E*>, std::uint32_t> memo;
    bool conc = true;
    for (E* e : in)
        if (!e->isc()) conc = false;
    if (conc) {
        std::uint8_t b[64], o[32];
        for (int i = 0; i < 64; ++i) b[i] = (std::uint8_t)in[i]->v;
        sha256_64(b, o);
        return cst(o[k], 8);
    }
    auto it = memo.find(in);
    std::uint32_t h;
    if (it == memo.end()) {
        h = (std::uint32_t)hashes.size();
        const VarSet* vs = none();
        for (E* e : in) vs = unite(vs, e->vars);
        hashes.push_back({in, vs});
        memo[in] = h;
    } else
        h = it->second;
    return mk(HBYTE, 8, nullptr, nullptr, nullptr, (u128)h * 32 + k, hashes[h].vars);
}

u128 Eval::operator()(E* e) {
    if (e->op == CONST) return e->v;
    auto it = memo.find(e->id);
    if (it != memo.end()) return it->second;
    u128 r = 0;
    switch (e->op) {
        case VAR: {
            auto f = m.v.find((std::uint32_t)e->v);
            r = f == m.v.end() ? 0 : f->second;
            break;
        }
        case HBYTE: {
            auto h = (std::uint32_t)(e->v / 32);
            auto f = hm.find(h);
            if (f == hm.end()) {
                std::uint8_t b[64];
                std::vector<std::uint8_t> o(32);
                for (int i = 0; i < 64; ++i) b[i] = (std::uint8_t)(*this)(hashes[h].in[i]);
                sha256_64(b, o.data());
                f = hm.emplace(h, o).first;
            }
            r = f->second[(unsigned)(e->v % 32)];
            break;
        }
        case ITE: r = (*this)(e->a[0]) ? (*this)(e->a[1]) : (*this)(e->a[2]); break;
        case CONCAT: r = (*this)(e->a[0]) << e->a[1]->w | (*this)(e->a[1]); break;
        case EXTRACT: r = (*this)(e->a[0]) >> (unsigned)e->v & maskw(e->w); break;
        case ZEXT: r = (*this)(e->a[0]); break;
        case SEXT: r = sx((*this)(e->a[0]), e->a[0]->w) & maskw(e->w); break;
        case UITOFP: case SITOFP: case FSQRT: r = 0; break;
        case TAB: {
            auto& t = tables[(std::size_t)e->v];
            r = t[(std::size_t)std::min<u128>((*this)(e->a[0]), t.size() - 1)];
            break;
        }
        default: r = foldop(e->op, e->a[0]->w, (*this)(e->a[0]), (*this)(e->a[1])); break;
    }
    memo[e->id] = r;
    return r;
}

std::string str(E* e, int depth) {
    static const char* nm[] = {"const", "var", "H", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>", ">>s",
                               "==", "<u", "<=u", "<s", "<=s", "ite", "++", "extract", "zext", "sext", "uitofp", "sitofp", "sqrt", "table"};
    std::ostringstream o;
    if (e->op == CONST) {
        o << (long long)e->v << ":" << e->w;
        return o.str();
    }
    if (e->op == VAR) return varinfo[(unsigned)e->v].name;
    if (depth == 0) return "...";
    if (e->op == HBYTE) {
        o << "H" << (unsigned)(e->v / 32) << "[" << (unsigned)(e->v % 32) << "]";
        return o.str();
    }
    o << "(" << nm[e->op];
    if (e->op == EXTRACT) o << "[" << (unsigned)e->v << "+" << e->w << "]";
    if (e->op == ZEXT || e->op == SEXT) o << e->w;
    for (E* x : e->a)
        if (x) o << " " << str(x, depth - 1);
    o << ")";
    return o.str();
}

// FIPS 180-4, for constants and for the evaluation of models
void sha256_64(const std::uint8_t* in, std::uint8_t* out) {
    static const std::uint32_t K[64] = {
        0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01,
        0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc,
        0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147,
        0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
        0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08,
        0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208,
        0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
    std::uint32_t h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
    std::uint8_t m[128] = {};
    std::memcpy(m, in, 64);
    m[64] = 0x80;
    m[126] = 2;
    auto ror = [](std::uint32_t x, int n) { return x >> n | x << (32 - n); };
    for (int b = 0; b < 2; ++b) {
        std::uint32_t w[64], s[8];
        for (int t = 0; t < 16; ++t) {
            const std::uint8_t* p = m + 64 * b + 4 * t;
            w[t] = (std::uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3];
        }
        for (int t = 16; t < 64; ++t)
            w[t] = (ror(w[t - 2], 17) ^ ror(w[t - 2], 19) ^ w[t - 2] >> 10) + w[t - 7] +
                   (ror(w[t - 15], 7) ^ ror(w[t - 15], 18) ^ w[t - 15] >> 3) + w[t - 16];
        std::memcpy(s, h, sizeof s);
        for (int t = 0; t < 64; ++t) {
            std::uint32_t t1 = s[7] + (ror(s[4], 6) ^ ror(s[4], 11) ^ ror(s[4], 25)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + K[t] + w[t];
            std::uint32_t t2 = (ror(s[0], 2) ^ ror(s[0], 13) ^ ror(s[0], 22)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
            for (int k = 7; k > 0; --k) s[k] = s[k - 1];
            s[4] += t1;
            s[0] = t1 + t2;
        }
        for (int k = 0; k < 8; ++k) h[k] += s[k];
    }
    for (int k = 0; k < 8; ++k)
        for (int q = 0; q < 4; ++q) out[4 * k + q] = (std::uint8_t)(h[k] >> (24 - 8 * q));
}
}  // namespace irsym
