#include <sys/resource.h>
#include <unistd.h>
#include "exec.h"

#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>

#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>

using namespace llvm;

namespace irsym {
namespace {
// ---- configuration and results ----
std::map<std::string, u64> params;
u64 step_limit = 30000000;
u64 alloc_limit = 16u << 20;
u64 depth_limit = 3000;
double time_limit = 600;
u64 expr_limit = 40000000;
bool trace = false;
unsigned max_viol = 4;

std::vector<Violation> viols;
std::map<std::string, unsigned> violkeys;
std::map<std::string, u64> incomplete;
std::set<std::string> covers;
std::map<std::string, u64> forksites;
u64 merged = 0, paths = 0, total_steps = 0, forks = 0, asserts = 0, asserts_folded = 0;
std::chrono::steady_clock::time_point t0;
double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

struct PathEnd {};
struct Unsupported {
    std::string what;
};

// ---- module ----
LLVMContext lctx;
std::unique_ptr<Module> mod;
const DataLayout* DL;
std::unordered_map<const Function*, Func*> funcs;
std::unordered_map<u64, Func*> faddr;
std::unordered_map<const GlobalValue*, u64> gaddr;
std::unordered_map<u64, const GlobalVariable*> tiaddr;
std::map<u64, int> typeids;
std::vector<Func*> ctors;
State root;
E* UNDEF = nullptr;  // marks bytes never written

std::vector<std::unique_ptr<State>> queue;
std::vector<E*> inputs;  // variables of the input stream

E* input(long k) {
    while ((long)inputs.size() <= k) inputs.push_back(newvar("in" + std::to_string(inputs.size()), 8, false, (long)inputs.size()));
    return inputs[k];
}
unsigned undefs = 0;
E* fresh(unsigned w) { return newvar("undef" + std::to_string(undefs++), w, true, -1); }

unsigned widthof(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    return 0;
}

// ---- violations ----
std::string demangled(const Function* f) { return llvm::demangle(f->getName().str()); }
std::string location(const State& s) {
    // the innermost frame outside the C++ library and the models
    for (auto it = s.st.rbegin(); it != s.st.rend(); ++it) {
        std::string n = demangled(it->f->F);
        if (n.find("eth::") != std::string::npos || n.find("ssz::") != std::string::npos || n.find("helpers::") != std::string::npos) {
            auto p = n.find('(');
            return n.substr(0, std::min<std::size_t>(p, 200));
        }
    }
    return s.st.empty() ? "" : demangled(s.st.back().f->F).substr(0, 200);
}
void violation(State& s, const std::string& kind, const std::string& msg, const Model* m = nullptr) {
    std::string key = kind + "|" + (kind == "assert" ? msg : location(s));
    if (violkeys[key]++ >= max_viol) return;
    Violation v{kind, msg, location(s), {}, {}};
    const Model& mm = m ? *m : s.mb->m;
    for (long k = 0; k < s.inpos; ++k) {
        E* e = input(k);
        auto it = mm.v.find((std::uint32_t)e->v);
        v.input.push_back(it == mm.v.end() ? 0 : (std::uint8_t)it->second);
    }
    for (auto it = s.st.rbegin(); it != s.st.rend() && v.stack.size() < 12; ++it) v.stack.push_back(demangled(it->f->F).substr(0, 160));
    viols.push_back(v);
    if (trace) std::cerr << "VIOL " << kind << " " << msg << " at " << v.where << "\n";
}
[[noreturn]] void die(State& s, const std::string& kind, const std::string& msg) {
    violation(s, kind, msg);
    throw PathEnd{};
}

// ---- path conditions ----
bool hasH(E* e) {
    static std::vector<signed char> memo;
    if (memo.size() <= expr_count) memo.resize(expr_count * 2 + 1024, -1);
    if (memo[e->id] >= 0) return memo[e->id];
    bool r = e->op == HBYTE;
    for (E* x : e->a)
        if (x && !r) r = hasH(x);
    memo[e->id] = r;
    return r;
}

E* known(State& s, E* e) {
    if (e->isc()) return e;
    auto it = s.eqs.find(e->id);
    if (it != s.eqs.end()) return it->second;
    if (e->w == 1) {
        it = s.eqs.find(not_(e)->id);
        if (it != s.eqs.end()) return not_(it->second);
    }
    return e;
}
u128 ev(State& s, E* e) { return e->isc() ? e->v : s.mb->ev(e); }

void learn(State& s, E* c) {
    if (c->isc()) return;
    if (c->w == 1 && c->op == AND) {
        learn(s, c->a[0]);
        learn(s, c->a[1]);
        return;
    }
    if (c->op == EQ && c->a[1]->isc()) s.eqs[c->a[0]->id] = c->a[1];
    if (c->op == XOR && c->a[1]->isc()) s.eqs[c->a[0]->id] = F();
    s.eqs[c->id] = T();
    s.pc.push_back(c);
}

// feasibility of c on top of the path; m gets a model (hash applications checked with SHA-256)
Res feasible(State& s, E* c, std::shared_ptr<ModelBox>& out) {
    c = known(s, c);
    if (isF(c)) return Res::UNSAT;
    Model delta;
    Res r = check(s.pc, c, &delta);
    if (r != Res::SAT) return r;
    auto mb = std::make_shared<ModelBox>();
    mb->m = s.mb->m;
    for (auto& q : delta.v) mb->m.v[q.first] = q.second;
    if (!hashes.empty()) {
        bool bad = hasH(c) && !mb->ev(c);
        if (!bad)
            for (E* p : s.pc)
                if (hasH(p) && !mb->ev(p)) {
                    bad = true;
                    break;
                }
        if (bad) return Res::UNKNOWN;
    }
    out = mb;
    return r;
}
void fork(State& s, E* c, std::shared_ptr<ModelBox> mb) {
    auto n = std::make_unique<State>(s);
    n->mb = mb;
    learn(*n, c);
    ++n->depth;
    ++forks;
    if (trace && !s.st.empty()) {
        Frame& fr = s.st.back();
        std::string t;
        raw_string_ostream ro(t);
        if (fr.ip < (int)fr.f->b[fr.bb].in.size()) fr.f->b[fr.bb].in[fr.ip].I->print(ro);
        ++forksites[demangled(fr.f->F).substr(0, 140) + " bb" + std::to_string(fr.bb) + ro.str()];
    }
    queue.push_back(std::move(n));
}
bool mention_undef(E* c) { return hasundef(c); }

// decides a condition, leaving the other outcome in the queue (it runs the instruction again)
bool decide(State& s, E* c) {
    c = known(s, c);
    if (c->isc()) return c->v;
    bool v = ev(s, c) != 0;
    E* o = v ? not_(c) : c;
    E* t = v ? c : not_(c);
    std::shared_ptr<ModelBox> mb;
    Res r = feasible(s, o, mb);
    if (r == Res::SAT) {
        if (mention_undef(c)) {
            violation(s, "uninit", "a decision depends on uninitialised memory");
            learn(s, t);
            return v;
        }
        fork(s, o, mb);
    } else if (r == Res::UNKNOWN)
        { ++incomplete["a branch whose feasibility the solver left open"]; if (getenv("DBG")) fprintf(stderr, "OPEN %s\n", str(c).c_str()); }
    learn(s, t);
    return v;
}
E* force(State& s, E* e) {
    e = known(s, e);
    if (e->isc()) return e;
    E* k = cst(ev(s, e), e->w);
    E* c = eq(e, k);
    if (!c->isc()) {
        std::shared_ptr<ModelBox> mb;
        E* o = not_(c);
        Res r = feasible(s, o, mb);
        if (r == Res::SAT) {
            if (mention_undef(e)) {
                violation(s, "uninit", "an address, size or call target depends on uninitialised memory");
                throw PathEnd{};
            }
            fork(s, o, mb);
        } else if (r == Res::UNKNOWN)
            ++incomplete["a value whose other possibilities the solver left open"];
        learn(s, c);
        s.eqs[e->id] = k;
    }
    return k;
}

// ---- memory ----
constexpr u64 GAP = 1ull << 33;
Obj& alloc(State& s, u64 size, Obj::Kind kind, const std::string& name) {
    auto o = std::make_shared<Obj>();
    o->base = s.next;
    o->size = size;
    o->kind = kind;
    o->name = name;
    o->c.resize(size);
    if (kind == Obj::STACK || kind == Obj::HEAP) o->s.assign(size, UNDEF);
    s.next += (size + 63) / 64 * 64 + GAP;
    s.mem.emplace_hint(s.mem.end(), o->base, o);
    return *o;
}
ObjP* find(State& s, u64 a) {
    auto it = s.mem.upper_bound(a);
    if (it == s.mem.begin()) return nullptr;
    --it;
    Obj& o = *it->second;
    if (a - o.base > o.size) return nullptr;
    return &it->second;
}
Obj& own(ObjP& p) {
    if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return *p;
}
std::string describe(State& s, u64 a, u64 len, const char* what) {
    std::ostringstream os;
    os << what << " of " << len << " byte" << (len == 1 ? "" : "s");
    auto it = s.mem.upper_bound(a);
    if (it != s.mem.begin()) {
        --it;
        Obj& o = *it->second;
        if (a - o.base < (1ull << 32)) {
            os << " at offset " << (a - o.base) << " of " << o.name << " (" << o.size << " bytes)";
            return os.str();
        }
        ++it;
    }
    if (it != s.mem.end() && it->second->base - a < (1ull << 32)) {
        os << " " << (it->second->base - a) << " bytes before " << it->second->name;
        return os.str();
    }
    os << " at an address that is not allocated";
    return os.str();
}
struct Place {
    ObjP* p;
    E* off;  // offset in the object
};
// the object that [addr, addr + len) lies in, for the values this path continues with
Place place(State& s, E* addr, u64 len, bool write, bool symok) {
    addr = known(s, addr);
    if (addr->isc()) {
        ObjP* p = find(s, addr->c());
        if (!p || addr->c() - (*p)->base + len > (*p)->size || (*p)->kind == Obj::FUNC)
            die(s, "memory", describe(s, addr->c(), len, write ? "write" : "read"));
        if (write && (*p)->ro) die(s, "memory", "write to constant " + (*p)->name);
        return {p, cst(addr->c() - (*p)->base, 64)};
    }
    u64 a = (u64)ev(s, addr);
    ObjP* p = find(s, a);
    if (mention_undef(addr)) die(s, "uninit", "an address depends on uninitialised memory");
    if (!p || a - (*p)->base + len > (*p)->size || (*p)->kind == Obj::FUNC) die(s, "memory", describe(s, a, len, write ? "write" : "read"));
    E* off = sub(addr, cst((*p)->base, 64));
    E* in = ule(off, cst((*p)->size - len, 64));
    std::shared_ptr<ModelBox> mb;
    Res r = feasible(s, not_(in), mb);
    if (r == Res::SAT) fork(s, not_(in), mb);
    else if (r == Res::UNKNOWN) ++incomplete["an address whose other possibilities the solver left open"];
    learn(s, in);
    if (write && (*p)->ro) die(s, "memory", "write to constant " + (*p)->name);
    if (symok && (*p)->ro && (*p)->size <= 4096) return {p, off};
    E* k = force(s, addr);
    return {p, cst(k->c() - (*p)->base, 64)};
}
E* byteat(ObjP& p, u64 k) {
    if (p->s.empty() || !p->s[k]) return cst(p->c[k], 8);
    if (p->s[k] == UNDEF) {
        Obj& o = own(p);
        o.s[k] = fresh(8);
        return o.s[k];
    }
    return p->s[k];
}
E* readw(ObjP& p, u64 off, unsigned n) {
    if (p->s.empty() && n <= 16) {
        u128 v = 0;
        for (unsigned k = 0; k < n; ++k) v |= (u128)p->c[off + k] << (8 * k);
        return cst(v, 8 * n);
    }
    E* r = byteat(p, off + n - 1);
    for (unsigned k = n - 1; k-- > 0;) r = concat(r, byteat(p, off + k));
    return r;
}
void writeb(Obj& o, u64 k, E* b) {
    if (b->isc()) {
        o.c[k] = (std::uint8_t)b->v;
        if (!o.s.empty()) o.s[k] = nullptr;
    } else {
        if (o.s.empty()) o.s.assign(o.size, nullptr);
        o.s[k] = b;
    }
}
unsigned lowzeros(E* e) {
    switch (e->op) {
        case CONST: {
            unsigned n = 0;
            while (n < e->w && !(e->v >> n & 1)) ++n;
            return n;
        }
        case CONCAT: {
            unsigned n = lowzeros(e->a[1]);
            return n == e->a[1]->w ? n + lowzeros(e->a[0]) : n;
        }
        case ZEXT: case SEXT: {
            unsigned n = lowzeros(e->a[0]);
            return n;
        }
        case ADD: case SUB: case OR: case XOR: return std::min(lowzeros(e->a[0]), lowzeros(e->a[1]));
        case MUL: return std::min<unsigned>(e->w, lowzeros(e->a[0]) + lowzeros(e->a[1]));
        case SHL: return e->a[1]->isc() ? std::min<u64>(e->w, lowzeros(e->a[0]) + e->a[1]->c()) : 0;
        default: return 0;
    }
}
// whether the range is readable for all values on this path
bool readable(State& s, E* addr, unsigned n) {
    if (addr->op == ITE) return readable(s, addr->a[1], n) && readable(s, addr->a[2], n);
    if (hasundef(addr)) return false;
    u64 a = addr->isc() ? addr->c() : (u64)ev(s, addr);
    ObjP* p = find(s, a);
    if (!p || a - (*p)->base + n > (*p)->size || (*p)->kind == Obj::FUNC) return false;
    if (addr->isc()) return true;
    if (!(*p)->ro || (*p)->size > 4096) return false;
    std::shared_ptr<ModelBox> mb;
    return feasible(s, not_(ule(sub(addr, cst((*p)->base, 64)), cst((*p)->size - n, 64))), mb) == Res::UNSAT;
}
E* load(State& s, E* addr, unsigned w) {
    unsigned n = (w + 7) / 8;
    addr = known(s, addr);
    // one of two places
    if (addr->op == ITE && readable(s, addr->a[1], n) && readable(s, addr->a[2], n)) {
        E* x = load(s, addr->a[1], w);
        E* y = load(s, addr->a[2], w);
        return ite(addr->a[0], x, y);
    }
    Place pl = place(s, addr, n, false, true);
    E* r;
    if (pl.off->isc()) r = readw(*pl.p, pl.off->c(), n);
    else {
        // a table: one case per possible offset
        u64 st = 1ull << std::min(12u, lowzeros(pl.off));
        ObjP p = *pl.p;
        r = nullptr;
        std::vector<u128> vals;
        std::vector<E*> terms;
        bool plain = true;
        for (u64 k = 0; k + n <= p->size; k += st) {
            terms.push_back(readw(p, k, n));
            plain = plain && terms.back()->isc();
            vals.push_back(terms.back()->v);
        }
        if (plain) {
            unsigned sh = 0;
            while (st >> sh > 1) ++sh;
            r = lookup(vals, extract(pl.off, sh, 64 - sh), 8 * n);
        } else
            for (u64 k = 0; k < terms.size(); ++k) r = r ? ite(eq(pl.off, cst(k * st, 64)), terms[k], r) : terms[k];
    }
    return n * 8 == w ? r : extract(r, 0, w);
}
void store(State& s, E* addr, E* v) {
    unsigned n = (v->w + 7) / 8;
    Place pl = place(s, addr, n, true, false);
    if (v->w != 8 * n) v = zext(v, 8 * n);
    Obj& o = own(*pl.p);
    u64 off = pl.off->c();
    if (v->isc()) {
        for (unsigned k = 0; k < n; ++k) o.c[off + k] = (std::uint8_t)(v->v >> (8 * k));
        if (!o.s.empty())
            for (unsigned k = 0; k < n; ++k) o.s[off + k] = nullptr;
    } else
        for (unsigned k = 0; k < n; ++k) writeb(o, off + k, extract(v, 8 * k, 8));
}
Val loadty(State& s, E* addr, Type* t) {
    if (unsigned w = widthof(t)) return {load(s, addr, w), nullptr};
    auto a = std::make_shared<std::vector<Val>>();
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned k = 0; k < st->getNumElements(); ++k)
            a->push_back(loadty(s, add(addr, cst(sl->getElementOffset(k), 64)), st->getElementType(k)));
        return {nullptr, a};
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        u64 sz = DL->getTypeAllocSize(at->getElementType());
        for (u64 k = 0; k < at->getNumElements(); ++k) a->push_back(loadty(s, add(addr, cst(k * sz, 64)), at->getElementType()));
        return {nullptr, a};
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        u64 sz = DL->getTypeStoreSize(vt->getElementType());
        if (widthof(vt->getElementType()) % 8) throw Unsupported{"vector of bits"};
        for (u64 k = 0; k < vt->getNumElements(); ++k) a->push_back(loadty(s, add(addr, cst(k * sz, 64)), vt->getElementType()));
        return {nullptr, a};
    }
    throw Unsupported{"load of a type"};
}
void storety(State& s, E* addr, const Val& v, Type* t) {
    if (widthof(t)) return store(s, addr, v.e);
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned k = 0; k < st->getNumElements(); ++k)
            storety(s, add(addr, cst(sl->getElementOffset(k), 64)), (*v.agg)[k], st->getElementType(k));
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        u64 sz = DL->getTypeAllocSize(at->getElementType());
        for (u64 k = 0; k < at->getNumElements(); ++k) storety(s, add(addr, cst(k * sz, 64)), (*v.agg)[k], at->getElementType());
        return;
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        u64 sz = DL->getTypeStoreSize(vt->getElementType());
        for (u64 k = 0; k < vt->getNumElements(); ++k) storety(s, add(addr, cst(k * sz, 64)), (*v.agg)[k], vt->getElementType());
        return;
    }
    throw Unsupported{"store of a type"};
}
void copymem(State& s, E* d, E* a, u64 n) {
    if (!n) return;
    Place ps = place(s, a, n, false, false);
    ObjP src = *ps.p;  // keeps the bytes when both are one object
    u64 so = ps.off->c();
    Place pd = place(s, d, n, true, false);
    u64 dof = pd.off->c();
    if (src.get() == pd.p->get()) src = std::make_shared<Obj>(*src);
    Obj& o = own(*pd.p);
    std::memcpy(&o.c[dof], &src->c[so], n);
    if (!src->s.empty()) {
        if (o.s.empty()) o.s.assign(o.size, nullptr);
        std::copy(src->s.begin() + so, src->s.begin() + so + n, o.s.begin() + dof);
    } else if (!o.s.empty())
        std::fill(o.s.begin() + dof, o.s.begin() + dof + n, nullptr);
}
void setmem(State& s, E* d, E* v, u64 n) {
    if (!n) return;
    Place pd = place(s, d, n, true, false);
    Obj& o = own(*pd.p);
    u64 off = pd.off->c();
    for (u64 k = 0; k < n; ++k) writeb(o, off + k, v);
}
std::vector<E*> readbytes(State& s, E* a, u64 n) {
    std::vector<E*> r;
    if (!n) return r;
    Place p = place(s, a, n, false, false);
    for (u64 k = 0; k < n; ++k) r.push_back(byteat(*p.p, p.off->c() + k));
    return r;
}
std::string cstring(State& s, u64 a) {
    std::string r;
    ObjP* p = find(s, a);
    if (!p) return "?";
    for (u64 k = a - (*p)->base; k < (*p)->size && (*p)->c[k]; ++k) r.push_back((char)(*p)->c[k]);
    return r;
}

// ---- constants ----
Val undefval(Type* t) {
    if (unsigned w = widthof(t)) return {fresh(w), nullptr};
    auto a = std::make_shared<std::vector<Val>>();
    if (auto* st = dyn_cast<StructType>(t))
        for (auto* e : st->elements()) a->push_back(undefval(e));
    else if (auto* at = dyn_cast<ArrayType>(t))
        for (u64 k = 0; k < at->getNumElements(); ++k) a->push_back(undefval(at->getElementType()));
    else if (auto* vt = dyn_cast<FixedVectorType>(t))
        for (u64 k = 0; k < vt->getNumElements(); ++k) a->push_back(undefval(vt->getElementType()));
    else
        throw Unsupported{"undefined value of a type"};
    return {nullptr, a};
}
Val zeroval(Type* t) {
    if (unsigned w = widthof(t)) return {cst(0, w), nullptr};
    auto a = std::make_shared<std::vector<Val>>();
    if (auto* st = dyn_cast<StructType>(t))
        for (auto* e : st->elements()) a->push_back(zeroval(e));
    else if (auto* at = dyn_cast<ArrayType>(t))
        for (u64 k = 0; k < at->getNumElements(); ++k) a->push_back(zeroval(at->getElementType()));
    else if (auto* vt = dyn_cast<FixedVectorType>(t))
        for (u64 k = 0; k < vt->getNumElements(); ++k) a->push_back(zeroval(vt->getElementType()));
    else
        throw Unsupported{"zero of a type"};
    return {nullptr, a};
}
u128 big(const APInt& v) {
    u128 r = v.getRawData()[0];
    if (v.getBitWidth() > 64) r |= (u128)v.getRawData()[1] << 64;
    return r & maskw(v.getBitWidth());
}
Op binop(unsigned o) {
    switch (o) {
        case Instruction::Add: return ADD;
        case Instruction::Sub: return SUB;
        case Instruction::Mul: return MUL;
        case Instruction::UDiv: return UDIV;
        case Instruction::SDiv: return SDIV;
        case Instruction::URem: return UREM;
        case Instruction::SRem: return SREM;
        case Instruction::And: return AND;
        case Instruction::Or: return OR;
        case Instruction::Xor: return XOR;
        case Instruction::Shl: return SHL;
        case Instruction::LShr: return LSHR;
        case Instruction::AShr: return ASHR;
        default: return CONST;
    }
}
E* icmp(CmpInst::Predicate p, E* a, E* b) {
    switch (p) {
        case CmpInst::ICMP_EQ: return eq(a, b);
        case CmpInst::ICMP_NE: return not_(eq(a, b));
        case CmpInst::ICMP_ULT: return bin(ULT, a, b);
        case CmpInst::ICMP_ULE: return bin(ULE, a, b);
        case CmpInst::ICMP_UGT: return bin(ULT, b, a);
        case CmpInst::ICMP_UGE: return bin(ULE, b, a);
        case CmpInst::ICMP_SLT: return bin(SLT, a, b);
        case CmpInst::ICMP_SLE: return bin(SLE, a, b);
        case CmpInst::ICMP_SGT: return bin(SLT, b, a);
        case CmpInst::ICMP_SGE: return bin(SLE, b, a);
        default: throw Unsupported{"comparison"};
    }
}
Val constant(const Constant* c);
Val constant1(const Constant* c) {
    Type* t = c->getType();
    if (auto* i = dyn_cast<ConstantInt>(c)) return {cst(big(i->getValue()), t->getIntegerBitWidth()), nullptr};
    if (auto* f = dyn_cast<ConstantFP>(c)) return {cst(big(f->getValueAPF().bitcastToAPInt()), widthof(t)), nullptr};
    if (isa<ConstantPointerNull>(c)) return {cst(0, 64), nullptr};
    if (isa<UndefValue>(c)) return undefval(t);
    if (isa<ConstantAggregateZero>(c)) return zeroval(t);
    if (auto* g = dyn_cast<GlobalAlias>(c)) return constant(g->getAliasee());
    if (auto* g = dyn_cast<GlobalValue>(c)) {
        auto it = gaddr.find(g);
        if (it == gaddr.end()) throw Unsupported{"global " + g->getName().str()};
        return {cst(it->second, 64), nullptr};
    }
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
        auto a = std::make_shared<std::vector<Val>>();
        for (unsigned k = 0; k < d->getNumElements(); ++k) a->push_back(constant(d->getElementAsConstant(k)));
        return {nullptr, a};
    }
    if (isa<ConstantAggregate>(c)) {
        auto a = std::make_shared<std::vector<Val>>();
        for (unsigned k = 0; k < c->getNumOperands(); ++k) a->push_back(constant(cast<Constant>(c->getOperand(k))));
        return {nullptr, a};
    }
    if (auto* x = dyn_cast<ConstantExpr>(c)) {
        auto o = [&](unsigned k) { return constant(x->getOperand(k)).e; };
        switch (x->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                if (!cast<GEPOperator>(x)->accumulateConstantOffset(*DL, off)) throw Unsupported{"constant address"};
                return {add(o(0), cst(big(off), 64)), nullptr};
            }
            case Instruction::BitCast: case Instruction::AddrSpaceCast: return {o(0), nullptr};
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: {
                E* e = o(0);
                unsigned w = widthof(t);
                return {e->w < w ? zext(e, w) : extract(e, 0, w), nullptr};
            }
            case Instruction::ICmp: return {icmp((CmpInst::Predicate)x->getPredicate(), o(0), o(1)), nullptr};
            case Instruction::Select: return {ite(o(0), o(1), o(2)), nullptr};
            default:
                if (binop(x->getOpcode()) != CONST) return {bin(binop(x->getOpcode()), o(0), o(1)), nullptr};
        }
        throw Unsupported{std::string("constant expression ") + x->getOpcodeName()};
    }
    throw Unsupported{"constant"};
}
std::unordered_map<const Constant*, Val> constmemo;
Val constant(const Constant* c) {
    auto it = constmemo.find(c);
    if (it != constmemo.end()) return it->second;
    Val v = constant1(c);
    constmemo[c] = v;
    return v;
}
void initobj(Obj& o, u64 off, const Constant* c) {
    Type* t = c->getType();
    if (isa<UndefValue>(c)) return;
    if (isa<ConstantAggregateZero>(c)) return;
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned k = 0; k < st->getNumElements(); ++k) initobj(o, off + sl->getElementOffset(k), c->getAggregateElement(k));
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        u64 sz = DL->getTypeAllocSize(at->getElementType());
        if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
            StringRef r = d->getRawDataValues();
            std::memcpy(&o.c[off], r.data(), r.size());
            return;
        }
        for (u64 k = 0; k < at->getNumElements(); ++k) initobj(o, off + k * sz, c->getAggregateElement(k));
        return;
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        u64 sz = DL->getTypeStoreSize(vt->getElementType());
        for (u64 k = 0; k < vt->getNumElements(); ++k) initobj(o, off + k * sz, c->getAggregateElement(k));
        return;
    }
    E* e = constant(c).e;
    if (!e->isc()) return;
    for (unsigned k = 0; k < (e->w + 7) / 8; ++k) o.c[off + k] = (std::uint8_t)(e->v >> (8 * k));
}

#include "builtins.inc"

// ---- compilation ----
void compile(Func* f) {
    if (f->compiled) return;
    f->compiled = true;
    std::unordered_map<const Value*, int> slot;
    for (auto& a : f->F->args()) slot[&a] = (int)f->nslots++;
    std::unordered_map<const BasicBlock*, int> bi;
    for (auto& b : *f->F) {
        int k = (int)bi.size();
        bi[&b] = k;
        for (auto& i : b)
            if (!i.getType()->isVoidTy()) slot[&i] = (int)f->nslots++;
    }
    f->b.resize(bi.size());
    auto opnd = [&](const Value* v) {
        Opnd o;
        auto it = slot.find(v);
        if (it != slot.end()) o.slot = it->second;
        else if (auto* c = dyn_cast<Constant>(v)) {
            try {
                o.c = constant(c);
            } catch (Unsupported&) {
                o.slot = -2;
            }
        } else
            o.slot = -2;
        return o;
    };
    for (auto& b : *f->F) {
        Block& B = f->b[bi[&b]];
        for (auto* q : predecessors(&b)) B.from.push_back(bi[q]);
        for (auto& i : b) {
            if (isa<DbgInfoIntrinsic>(i)) continue;
            Inst n;
            n.I = &i;
            n.op = i.getOpcode();
            if (!i.getType()->isVoidTy()) n.dst = slot[&i];
            n.w = widthof(i.getType());
            if (auto* phi = dyn_cast<PHINode>(&i)) {
                // the phis of a block may list its predecessors in different orders
                n.ops.resize(phi->getNumIncomingValues());
                for (unsigned k = 0; k < phi->getNumIncomingValues(); ++k) {
                    int q = bi[phi->getIncomingBlock(k)];
                    if (!B.nphi && !B.pred.count(q)) B.pred[q] = k;
                    n.ops[B.pred.at(q)] = opnd(phi->getIncomingValue(k));
                }
                ++B.nphi;
                B.in.push_back(n);
                continue;
            }
            if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
                n.ops.push_back(opnd(g->getPointerOperand()));
                auto gi = gep_type_begin(g);
                for (unsigned k = 1; k < g->getNumOperands(); ++k, ++gi) {
                    Value* v = g->getOperand(k);
                    if (StructType* st = gi.getStructTypeOrNull()) n.off += DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(v)->getZExtValue());
                    else {
                        u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(v)) n.off += (u64)ci->getSExtValue() * sz;
                        else {
                            n.idx.push_back({(int)n.ops.size(), sz});
                            n.ops.push_back(opnd(v));
                        }
                    }
                }
                B.in.push_back(n);
                continue;
            }
            if (auto* cb = dyn_cast<CallBase>(&i)) {
                for (auto& a : cb->args()) {
                    if (a->getType()->isMetadataTy()) n.ops.push_back({});
                    else n.ops.push_back(opnd(a));
                }
                n.ops.push_back(opnd(cb->getCalledOperand()));
                if (auto* inv = dyn_cast<InvokeInst>(&i)) n.succ = {bi[inv->getNormalDest()], bi[inv->getUnwindDest()]};
                Value* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
                if (auto* cf = dyn_cast<Function>(cv)) {
                    auto it = funcs.find(cf);
                    if (it != funcs.end()) n.callee = it->second;
                }
                B.in.push_back(n);
                continue;
            }
            if (auto* br = dyn_cast<BranchInst>(&i)) {
                if (br->isConditional()) n.ops.push_back(opnd(br->getCondition()));
                for (unsigned k = 0; k < br->getNumSuccessors(); ++k) n.succ.push_back(bi[br->getSuccessor(k)]);
                B.in.push_back(n);
                continue;
            }
            if (auto* sw = dyn_cast<SwitchInst>(&i)) {
                n.ops.push_back(opnd(sw->getCondition()));
                n.succ.push_back(bi[sw->getDefaultDest()]);
                for (auto& c : sw->cases()) {
                    n.ops.push_back(opnd(c.getCaseValue()));
                    n.succ.push_back(bi[c.getCaseSuccessor()]);
                }
                B.in.push_back(n);
                continue;
            }
            for (auto& o : i.operands()) n.ops.push_back(opnd(o));
            B.in.push_back(n);
        }
    }
}

// ---- control ----
const Val& get(Frame& fr, const Inst& in, unsigned k) {
    const Opnd& o = in.ops[k];
    if (o.slot >= 0) return fr.v[o.slot];
    if (o.slot == -2) throw Unsupported{"operand"};
    return o.c;
}
E* gete(Frame& fr, const Inst& in, unsigned k) {
    E* e = get(fr, in, k).e;
    if (!e) {
        std::string t;
        llvm::raw_string_ostream os(t);
        in.I->print(os);
        throw Unsupported{"aggregate operand " + std::to_string(k) + " of" + t};
    }
    return e;
}
void jump(State& s, int to) {
    Frame& fr = s.st.back();
    int from = fr.bb;
    Block& B = fr.f->b[to];
    if (B.nphi) {
        unsigned k = B.pred.at(from);
        std::vector<Val> t(B.nphi);
        for (unsigned p = 0; p < B.nphi; ++p) t[p] = get(fr, B.in[p], k);
        for (unsigned p = 0; p < B.nphi; ++p) fr.v[B.in[p].dst] = std::move(t[p]);
    }
    fr.bb = to;
    fr.ip = (int)B.nphi;
}
void pushframe(State& s, Func* f, const std::vector<Val>& args) {
    if (s.st.size() >= depth_limit) die(s, "recursion", "calls nested deeper than " + std::to_string(depth_limit));
    compile(f);
    f->run = true;
    Frame fr;
    fr.f = f;
    fr.v.resize(f->nslots);
    for (std::size_t k = 0; k < args.size() && k < f->F->arg_size(); ++k) fr.v[k] = args[k];
    s.st.push_back(std::move(fr));
    Block& B = f->b[0];
    s.st.back().ip = (int)B.nphi;
}
void popframe(State& s) {
    for (u64 a : s.st.back().allocas) s.mem.erase(a);
    s.st.pop_back();
}
// control returns to the call instruction of the top frame
void finish(State& s, const Val& r) {
    Frame& fr = s.st.back();
    const Inst& in = fr.f->b[fr.bb].in[fr.ip];
    if (in.dst >= 0) fr.v[in.dst] = r;
    if (in.op == Instruction::Invoke) jump(s, in.succ[0]);
    else ++fr.ip;
}

const GlobalVariable* typeinfo(u64 a) {
    auto it = tiaddr.find(a);
    return it == tiaddr.end() ? nullptr : it->second;
}
const std::map<std::string, std::string> stdbase = {
    {"_ZTISt11logic_error", "_ZTISt9exception"},      {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt12out_of_range", "_ZTISt11logic_error"},  {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"},  {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
    {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
    {"_ZTISt17bad_function_call", "_ZTISt9exception"},
    {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}};
bool derives(const std::string& t, const std::string& c) {
    if (t == c) return true;
    if (auto* g = mod->getGlobalVariable(t, true); g && g->hasInitializer()) {
        if (auto* st = dyn_cast<ConstantStruct>(g->getInitializer()))
            for (unsigned k = 2; k < st->getNumOperands(); ++k)
                if (auto* b = dyn_cast<GlobalVariable>(st->getOperand(k)->stripPointerCasts()))
                    if (derives(b->getName().str(), c)) return true;
        return false;
    }
    auto it = stdbase.find(t);
    return it != stdbase.end() && derives(it->second, c);
}
int typeid_for(u64 ti) {
    auto it = typeids.find(ti);
    if (it != typeids.end()) return it->second;
    int n = (int)typeids.size() + 1;
    return typeids[ti] = n;
}
std::string exctype(State& s, u64 obj) {
    for (auto it = s.exc.rbegin(); it != s.exc.rend(); ++it)
        if (it->first == obj) {
            auto* g = typeinfo(it->second);
            return g ? g->getName().str() : "?";
        }
    return "?";
}
// unwinds from the top frame, whose current instruction is the call (or resume) that threw
void unwind(State& s, u64 obj) {
    std::string t = exctype(s, obj);
    std::size_t base = s.st.size();
    // someone has to catch it
    while (true) {
        if (s.st.empty()) {
            // restore nothing: the report needs no frames
            violation(s, "exception", "uncaught exception " + llvm::demangle(t));
            throw PathEnd{};
        }
        Frame& fr = s.st.back();
        const Inst& in = fr.f->b[fr.bb].in[fr.ip];
        if (in.op == Instruction::Invoke) {
            auto* lp = cast<InvokeInst>(in.I)->getLandingPadInst();
            bool match = false;
            u64 sel = 0;
            for (unsigned k = 0; k < lp->getNumClauses() && !match; ++k) {
                if (!lp->isCatch(k)) {
                    auto* arr = dyn_cast<ArrayType>(lp->getClause(k)->getType());
                    if (arr && arr->getNumElements() == 0) die(s, "exception", "exception leaves a function that may not throw");
                    throw Unsupported{"exception filter"};
                }
                Constant* c = lp->getClause(k);
                if (isa<ConstantPointerNull>(c)) {
                    match = true;
                    sel = typeid_for(0);
                } else {
                    auto* g = cast<GlobalVariable>(c->stripPointerCasts());
                    if (derives(t, g->getName().str())) {
                        match = true;
                        sel = typeid_for(gaddr.at(g));
                    }
                }
            }
            if (match || lp->isCleanup()) {
                s.pend_obj = obj;
                s.pend_sel = sel;
                jump(s, in.succ[1]);
                return;
            }
        }
        popframe(s);
    }
    (void)base;
}
void throwstd(State& s, const std::string& ti) {
    Obj& o = alloc(s, 64, Obj::HEAP, "exception");
    u64 a = 0;
    if (auto* g = mod->getGlobalVariable(ti, true)) a = gaddr.at(g);
    else {
        static std::map<std::string, u64> fake;
        static std::deque<std::unique_ptr<GlobalVariable>> keep;
        if (!fake.count(ti)) {
            auto* g2 = new GlobalVariable(*mod, Type::getInt8Ty(lctx), true, GlobalValue::ExternalLinkage, nullptr, ti);
            u64 x = 0x7000000000000000ull + fake.size() * 64;
            gaddr[g2] = x;
            tiaddr[x] = g2;
            fake[ti] = x;
        }
        a = fake[ti];
    }
    s.exc.push_back({o.base, a});
    unwind(s, o.base);
}

double todouble(E* e) {
    u64 x = (u64)e->v;
    if (e->w == 32) {
        float f;
        std::uint32_t y = (std::uint32_t)x;
        std::memcpy(&f, &y, 4);
        return f;
    }
    double d;
    std::memcpy(&d, &x, 8);
    return d;
}
E* fromdouble(double d, unsigned w) {
    if (w == 32) {
        float f = (float)d;
        std::uint32_t y;
        std::memcpy(&y, &f, 4);
        return cst(y, 32);
    }
    u64 x;
    std::memcpy(&x, &d, 8);
    return cst(x, 64);
}

#include "calls.inc"

Val cwise(const Val& a, const Val& b, const std::function<E*(E*, E*)>& f) {
    if (a.e) return {f(a.e, b.e), nullptr};
    auto r = std::make_shared<std::vector<Val>>();
    for (std::size_t k = 0; k < a.agg->size(); ++k) r->push_back(cwise((*a.agg)[k], (*b.agg)[k], f));
    return {nullptr, r};
}
Val iteval(E* c, const Val& a, const Val& b) {
    return cwise(a, b, [&](E* x, E* y) { return ite(c, x, y); });
}

void step(State& s);
// Both sides of a branch on an unknown condition, when they are short, free of calls and rejoin at once: run one after
// the other, with the values chosen by the condition, instead of forking.
struct Side {
    std::vector<int> blocks;
    std::map<u64, E*> bytes;      // stored bytes
    std::map<u64, bool> bitwise;  // stored by a bit operation
    int last = 0;
};
int only_successor(Func* f, int b) {
    const Inst& t = f->b[b].in.back();
    return t.op == Instruction::Br && t.ops.empty() ? t.succ[0] : -1;
}
bool pureop(const Inst& in) {
    switch (in.op) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
        case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::ICmp:
        case Instruction::Select: case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::GetElementPtr:
        case Instruction::Load: case Instruction::Store: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Freeze:
            return true;
        case Instruction::Call: {
            Function* f = cast<CallBase>(in.I)->getCalledFunction();
            return f && (f->getIntrinsicID() == Intrinsic::lifetime_start || f->getIntrinsicID() == Intrinsic::lifetime_end);
        }
        default: return false;
    }
}
bool runside(State& s, Side& d, int from, int join) {
    Frame& fr = s.st.back();
    fr.bb = from;
    for (int b : d.blocks) {
        jump(s, b);
        Block& B = fr.f->b[b];
        for (; fr.ip + 1 < (int)B.in.size();) {
            const Inst& in = B.in[fr.ip];
            if (in.op == Instruction::Load) {
                E* a = known(s, gete(fr, in, 0));
                unsigned n = (in.w + 7) / 8;
                if (!in.w || !a->isc()) return false;
                ObjP* p = find(s, a->c());
                if (!p || (*p)->kind == Obj::FUNC || a->c() - (*p)->base + n > (*p)->size) return false;
                E* r = nullptr;
                for (unsigned k = n; k-- > 0;) {
                    auto it = d.bytes.find(a->c() + k);
                    E* x = it != d.bytes.end() ? it->second : byteat(*p, a->c() + k - (*p)->base);
                    r = r ? concat(r, x) : x;
                }
                fr.v[in.dst] = {8 * n == in.w ? r : extract(r, 0, in.w), nullptr};
                ++fr.ip;
            } else if (in.op == Instruction::Store) {
                E *v = get(fr, in, 0).e, *a = known(s, gete(fr, in, 1));
                if (!v || !a->isc()) return false;
                unsigned n = (v->w + 7) / 8;
                ObjP* p = find(s, a->c());
                if (!p || (*p)->ro || (*p)->kind == Obj::FUNC || a->c() - (*p)->base + n > (*p)->size) return false;
                if (v->w != 8 * n) v = zext(v, 8 * n);
                auto* bi = dyn_cast<BinaryOperator>(cast<StoreInst>(in.I)->getValueOperand());
                bool bw = v->w <= 8 || (bi && (bi->getOpcode() == Instruction::Or || bi->getOpcode() == Instruction::And));
                for (unsigned k = 0; k < n; ++k) {
                    d.bytes[a->c() + k] = extract(v, 8 * k, 8);
                    d.bitwise[a->c() + k] = bw;
                }
                ++fr.ip;
            } else if (in.op == Instruction::Call)
                ++fr.ip;
            else
                step(s);
        }
        fr.bb = b;
    }
    d.last = fr.bb;
    (void)join;
    return true;
}
bool trymerge(State& s, const Inst& in, E* c) {
    Frame& fr = s.st.back();
    Func* f = fr.f;
    int from = fr.bb, ip = fr.ip;
    std::vector<int> chain[2];
    for (int k = 0; k < 2; ++k) {
        int b = in.succ[k];
        for (int n = 0; n < 4 && b >= 0; ++n) {
            chain[k].push_back(b);
            b = only_successor(f, b);
        }
    }
    int join = -1;
    for (int a : chain[0]) {
        for (int b : chain[1])
            if (a == b) {
                join = a;
                break;
            }
        if (join >= 0) break;
    }
    if (join < 0 || join == from) return false;
    Side d[2];
    unsigned count = 0;
    for (int k = 0; k < 2; ++k)
        for (int b : chain[k]) {
            if (b == join) break;
            // entered from the branch only: loop headers are not part of a side
            for (int q : f->b[b].from)
                if (q != from && std::find(d[k].blocks.begin(), d[k].blocks.end(), q) == d[k].blocks.end()) return false;
            d[k].blocks.push_back(b);
            for (std::size_t q = f->b[b].nphi; q + 1 < f->b[b].in.size(); ++q, ++count)
                if (!pureop(f->b[b].in[q])) return false;
        }
    if (count > 60) return false;
    auto back = [&] {
        fr.bb = from;
        fr.ip = ip;
        return false;
    };
    Block& J = f->b[join];
    std::vector<Val> ph[2];
    for (int k = 0; k < 2; ++k) {
        if (!runside(s, d[k], from, join)) return back();
        int last = d[k].blocks.empty() ? from : d[k].blocks.back();
        for (unsigned p = 0; p < J.nphi; ++p) ph[k].push_back(get(fr, J.in[p], J.pred.at(last)));
    }
    // numbers that steer the rest of the path are better kept apart
    auto apart = [](E* a, E* b) { return a != b && a->isc() && b->isc() && a->w > 8; };
    for (unsigned p = 0; p < J.nphi; ++p) {
        if (!ph[0][p].e || !ph[1][p].e) return back();
        auto* phi = cast<PHINode>(J.in[p].I);
        bool bw = false;
        for (auto& x : phi->incoming_values())
            if (auto* bi = dyn_cast<BinaryOperator>(x.get())) bw = bw || bi->getOpcode() == Instruction::Or || bi->getOpcode() == Instruction::And;
        if (!bw && apart(ph[0][p].e, ph[1][p].e)) return back();
    }
    std::set<u64> addrs;
    for (auto& x : d) for (auto& y : x.bytes) addrs.insert(y.first);
    std::vector<std::pair<u64, E*>> out;
    for (u64 a : addrs) {
        ObjP* p = find(s, a);
        Obj& o = **p;
        u64 k = a - o.base;
        bool undef = !o.s.empty() && o.s[k] == UNDEF;
        E* v[2];
        bool bw = true;
        for (int q = 0; q < 2; ++q) {
            auto it = d[q].bytes.find(a);
            if (it == d[q].bytes.end()) {
                if (undef) return back();
                v[q] = byteat(*p, k);
            } else {
                v[q] = it->second;
                bw = bw && d[q].bitwise[a];
            }
        }
        if (v[0] != v[1] && v[0]->isc() && v[1]->isc() && !bw) return back();
        out.push_back({a, ite(c, v[0], v[1])});
    }
    for (auto& x : out) {
        ObjP* p = find(s, x.first);
        Obj& o = own(*p);
        writeb(o, x.first - o.base, x.second);
    }
    for (unsigned p = 0; p < J.nphi; ++p) fr.v[J.in[p].dst] = {ite(c, ph[0][p].e, ph[1][p].e), nullptr};
    fr.bb = join;
    fr.ip = (int)J.nphi;
    ++merged;
    return true;
}

void step(State& s) {
    Frame& fr = s.st.back();
    const Inst& in = fr.f->b[fr.bb].in[fr.ip];
    auto op = [&](unsigned k) { return gete(fr, in, k); };
    auto setv = [&](Val v) {
        fr.v[in.dst] = std::move(v);
        ++fr.ip;
    };
    auto set = [&](E* e) {
        fr.v[in.dst].e = e;
        fr.v[in.dst].agg.reset();
        ++fr.ip;
    };
    switch (in.op) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
        case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            Op o = binop(in.op);
            if (in.w) {
                E *a = op(0), *b = op(1);
                return set(bin(o, a, b));
            }
            return setv(cwise(get(fr, in, 0), get(fr, in, 1), [&](E* x, E* y) { return bin(o, x, y); }));
        }
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
            E *a = op(0), *b = known(s, op(1));
            E* z = eq(b, cst(0, b->w));
            if (!isF(z)) {
                if (isT(z)) die(s, "division", "division by zero");
                if (decide(s, z)) die(s, "division", "division by zero");
            }
            if (in.op == Instruction::SDiv || in.op == Instruction::SRem) {
                // divisions of known non-negative numbers and constants are unsigned
                if (b->isc() && !(b->v >> (b->w - 1) & 1) && !a->isc()) {
                    E* neg = known(s, bin(SLT, a, cst(0, a->w)));
                    bool n = neg->isc() ? neg->v : false;
                    if (!neg->isc()) {
                        std::shared_ptr<ModelBox> mb;
                        n = feasible(s, neg, mb) != Res::UNSAT;
                    }
                    if (!n) return set(bin(in.op == Instruction::SDiv ? UDIV : UREM, a, b));
                    if (!(b->v & (b->v - 1)) && in.op == Instruction::SRem) {
                        // sign-magnitude remainder by a power of two
                        E* m = bin(UREM, ite(neg, sub(cst(0, a->w), a), a), b);
                        return set(ite(neg, sub(cst(0, a->w), m), m));
                    }
                }
            }
            return set(bin(binop(in.op), a, b));
        }
        case Instruction::ICmp: {
            auto p = cast<ICmpInst>(in.I)->getPredicate();
            if (in.w) {
                E *a = op(0), *b = op(1);
                return set(icmp(p, a, b));
            }
            return setv(cwise(get(fr, in, 0), get(fr, in, 1), [&](E* x, E* y) { return icmp(p, x, y); }));
        }
        case Instruction::Load: {
            auto* l = cast<LoadInst>(in.I);
            E* a = op(0);
            if (in.w) return set(load(s, a, in.w));
            return setv(loadty(s, a, l->getType()));
        }
        case Instruction::Store: {
            auto* st = cast<StoreInst>(in.I);
            const Val& v = get(fr, in, 0);
            E* a = op(1);
            storety(s, a, v, st->getValueOperand()->getType());
            ++fr.ip;
            return;
        }
        case Instruction::GetElementPtr: {
            E* a = op(0);
            if (in.off) a = add(a, cst(in.off, 64));
            for (auto& p : in.idx) {
                E* i = op((unsigned)p.first);
                if (i->w < 64) i = sext(i, 64);
                else if (i->w > 64) i = extract(i, 0, 64);
                a = add(a, p.second == 1 ? i : bin(MUL, i, cst(p.second, 64)));
            }
            return set(a);
        }
        case Instruction::Alloca: {
            auto* al = cast<AllocaInst>(in.I);
            u64 n = DL->getTypeAllocSize(al->getAllocatedType());
            n *= force(s, op(0))->c();
            Obj& o = alloc(s, n, Obj::STACK, "a local of " + demangled(fr.f->F).substr(0, 80));
            s.st.back().allocas.push_back(o.base);
            return set(cst(o.base, 64));
        }
        case Instruction::Br: {
            if (in.ops.empty()) return jump(s, in.succ[0]);
            E* c = known(s, op(0));
            if (!c->isc() && trymerge(s, in, c)) return;
            bool t = decide(s, c);
            return jump(s, in.succ[t ? 0 : 1]);
        }
        case Instruction::Switch: {
            E* v = known(s, op(0));
            if (v->isc()) {
                for (unsigned k = 1; k < in.ops.size(); ++k)
                    if (in.ops[k].c.e == v) return jump(s, in.succ[k]);
                return jump(s, in.succ[0]);
            }
            u128 x = ev(s, v);
            int to = in.succ[0];
            for (unsigned k = 1; k < in.ops.size(); ++k)
                if (in.ops[k].c.e->v == x) to = in.succ[k];
            E* c = F();
            E* any = F();
            for (unsigned k = 1; k < in.ops.size(); ++k) {
                E* q = eq(v, in.ops[k].c.e);
                any = or_(any, q);
                if (in.succ[k] == to) c = or_(c, q);
            }
            if (to == in.succ[0]) c = or_(c, not_(any));
            if (!decide(s, c)) throw Unsupported{"switch"};
            return jump(s, to);
        }
        case Instruction::Select: {
            E* c = get(fr, in, 0).e;
            if (!c) {
                auto r = std::make_shared<std::vector<Val>>();
                const Val &cv = get(fr, in, 0), &a = get(fr, in, 1), &b = get(fr, in, 2);
                for (std::size_t k = 0; k < cv.agg->size(); ++k) r->push_back(iteval((*cv.agg)[k].e, (*a.agg)[k], (*b.agg)[k]));
                return setv({nullptr, r});
            }
            c = known(s, c);
            if (c->isc()) return setv(get(fr, in, c->v ? 1 : 2));
            return setv(iteval(c, get(fr, in, 1), get(fr, in, 2)));
        }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
            auto f = [&](E* a, unsigned w) { return in.op == Instruction::ZExt ? zext(a, w) : in.op == Instruction::SExt ? sext(a, w) : extract(a, 0, w); };
            if (in.w) return set(f(op(0), in.w));
            unsigned w = widthof(in.I->getType()->getScalarType());
            return setv(cwise(get(fr, in, 0), get(fr, in, 0), [&](E* x, E*) { return f(x, w); }));
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
            E* a = op(0);
            return set(a->w < in.w ? zext(a, in.w) : extract(a, 0, in.w));
        }
        case Instruction::BitCast: {
            if (in.w && get(fr, in, 0).e) return set(op(0));
            const Val& v = get(fr, in, 0);
            if (in.w) {  // vector to scalar
                E* r = nullptr;
                for (auto it = v.agg->rbegin(); it != v.agg->rend(); ++it) r = r ? concat(r, it->e) : it->e;
                return set(r);
            }
            auto* vt = dyn_cast<FixedVectorType>(in.I->getType());
            if (!vt) throw Unsupported{"bitcast"};
            E* all = v.e;
            if (!all)
                for (auto it = v.agg->rbegin(); it != v.agg->rend(); ++it) all = all ? concat(all, it->e) : it->e;
            unsigned w = widthof(vt->getElementType());
            auto r = std::make_shared<std::vector<Val>>();
            for (unsigned k = 0; k < vt->getNumElements(); ++k) r->push_back({extract(all, k * w, w), nullptr});
            return setv({nullptr, r});
        }
        case Instruction::Freeze: return setv(get(fr, in, 0));
        case Instruction::ExtractValue: {
            const Val* v = &get(fr, in, 0);
            for (unsigned k : cast<ExtractValueInst>(in.I)->indices()) v = &(*v->agg)[k];
            Val c = *v;
            return setv(c);
        }
        case Instruction::InsertValue: {
            Val r = get(fr, in, 0), v = get(fr, in, 1);
            std::function<Val(const Val&, unsigned)> go = [&](const Val& a, unsigned d) -> Val {
                auto ix = cast<InsertValueInst>(in.I)->getIndices();
                if (d == ix.size()) return v;
                auto n = std::make_shared<std::vector<Val>>(*a.agg);
                (*n)[ix[d]] = go((*a.agg)[ix[d]], d + 1);
                return {nullptr, n};
            };
            return setv(go(r, 0));
        }
        case Instruction::ExtractElement: {
            u64 k = force(s, op(1))->c();
            Val c = get(fr, in, 0).agg->at(k);
            return setv(c);
        }
        case Instruction::InsertElement: {
            u64 k = force(s, op(2))->c();
            auto n = std::make_shared<std::vector<Val>>(*get(fr, in, 0).agg);
            n->at(k) = get(fr, in, 1);
            return setv({nullptr, n});
        }
        case Instruction::ShuffleVector: {
            auto* sv = cast<ShuffleVectorInst>(in.I);
            auto &a = *get(fr, in, 0).agg, &b = *get(fr, in, 1).agg;
            auto n = std::make_shared<std::vector<Val>>();
            for (int k : sv->getShuffleMask())
                n->push_back(k < 0 ? undefval(sv->getType()->getElementType()) : (unsigned)k < a.size() ? a[k] : b[k - a.size()]);
            return setv({nullptr, n});
        }
        case Instruction::Ret: {
            Val r;
            if (!in.ops.empty()) r = get(fr, in, 0);
            popframe(s);
            if (!s.st.empty()) finish(s, r);
            return;
        }
        case Instruction::Call: case Instruction::Invoke: return call(s, in);
        case Instruction::LandingPad: {
            auto a = std::make_shared<std::vector<Val>>();
            a->push_back({cst(s.pend_obj, 64), nullptr});
            a->push_back({cst(s.pend_sel, 32), nullptr});
            return setv({nullptr, a});
        }
        case Instruction::Resume: {
            u64 o = (*get(fr, in, 0).agg)[0].e->c();
            popframe(s);
            return unwind(s, o);
        }
        case Instruction::Unreachable: die(s, "unreachable", "code that must not be reached");
        case Instruction::Fence: ++fr.ip; return;
        case Instruction::AtomicRMW: {
            auto* rw = cast<AtomicRMWInst>(in.I);
            E *a = op(0), *v = op(1);
            E* o = load(s, a, v->w);
            E* n;
            switch (rw->getOperation()) {
                case AtomicRMWInst::Add: n = add(o, v); break;
                case AtomicRMWInst::Sub: n = sub(o, v); break;
                case AtomicRMWInst::Xchg: n = v; break;
                case AtomicRMWInst::And: n = and_(o, v); break;
                case AtomicRMWInst::Or: n = or_(o, v); break;
                default: throw Unsupported{"atomic operation"};
            }
            store(s, a, n);
            return set(o);
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
            E *a = op(0), *b = op(1);
            if (!a->isc() || !b->isc()) throw Unsupported{"floating point arithmetic on unknown numbers"};
            double x = todouble(a), y = todouble(b), r = 0;
            if (in.op == Instruction::FAdd) r = x + y;
            else if (in.op == Instruction::FSub) r = x - y;
            else if (in.op == Instruction::FMul) r = x * y;
            else r = x / y;
            return set(fromdouble(r, in.w));
        }
        case Instruction::UIToFP: case Instruction::SIToFP: {
            E* a = op(0);
            if (!a->isc()) return set(un(in.op == Instruction::UIToFP ? UITOFP : SITOFP, a, in.w));
            double d = in.op == Instruction::UIToFP ? (double)(u64)a->v : (double)(std::int64_t)sext(a, 64)->v;
            return set(fromdouble(d, in.w));
        }
        case Instruction::FPToUI: case Instruction::FPToSI: {
            E* a = op(0);
            if (a->isc()) {
                double d = todouble(a);
                return set(cst(in.op == Instruction::FPToUI ? (u128)(u64)d : (u128)(std::int64_t)d, in.w));
            }
            return set(fptoint(s, a, in.w));
        }
        case Instruction::FPExt: case Instruction::FPTrunc: {
            E* a = op(0);
            if (a->isc()) return set(fromdouble(todouble(a), in.w));
            throw Unsupported{"floating point conversion"};
        }
        case Instruction::FCmp: {
            E *a = op(0), *b = op(1);
            if (!a->isc() || !b->isc()) return set(fcmpsym(s, cast<FCmpInst>(in.I)->getPredicate(), a, b));
            double x = todouble(a), y = todouble(b);
            bool r = false, un_ = std::isnan(x) || std::isnan(y);
            unsigned p = cast<FCmpInst>(in.I)->getPredicate();
            if (un_) r = p & 8;
            else r = (x == y && p & 1) || (x > y && p & 2) || (x < y && p & 4);
            return set(cst(r, 1));
        }
        default: throw Unsupported{std::string("instruction ") + in.I->getOpcodeName()};
    }
}

bool runone(State& s) {
    while (true) {
        if (s.st.empty()) {
            if (s.todo.empty()) return true;
            std::size_t k = s.todo.front();
            s.todo.erase(s.todo.begin());
            pushframe(s, ctors[k], {});
            continue;
        }
        if (++s.steps > step_limit) die(s, "steps", "no end after " + std::to_string(step_limit) + " instructions");
        ++total_steps;
        if (!(total_steps & 0x3fff)) {
            if (elapsed() > time_limit) {
                ++incomplete["time limit"];
                return false;
            }
            if (expr_count > expr_limit) {
                ++incomplete["term limit"];
                return false;
            }
        }
        step(s);
    }
}
// inputs of some of the paths that ran to their end
std::vector<std::string> witnesses;
u64 complete = 0;
void witness(State& s) {
    ++complete;
    if (complete & (complete - 1)) return;  // 1, 2, 4, 8 ...
    std::string r;
    char b[3];
    for (long k = 0; k < s.inpos; ++k) {
        E* e = input(k);
        auto it = s.mb->m.v.find((std::uint32_t)e->v);
        std::snprintf(b, 3, "%02x", it == s.mb->m.v.end() ? 0 : (unsigned)(std::uint8_t)it->second);
        r += b;
    }
    witnesses.push_back(r);
}
void explore(std::unique_ptr<State> init) {
    queue.push_back(std::move(init));
    while (!queue.empty()) {
        auto s = std::move(queue.back());
        queue.pop_back();
        try {
            ++paths;
            if (!runone(*s)) break;
            witness(*s);
        } catch (PathEnd&) {
        } catch (Unsupported& u) {
            std::string w = "unsupported: " + u.what + " in " + location(*s);
            ++incomplete[w];
        }
        if (elapsed() > time_limit) {
            if (!queue.empty()) ++incomplete["time limit"];
            break;
        }
    }
    if (!queue.empty()) incomplete["paths left"] += queue.size();
}

void setup() {
    DL = &mod->getDataLayout();
    UNDEF = newvar("UNDEF", 8, true, -1);
    State& s = root;
    for (auto& f : *mod) {
        auto* fn = new Func;
        fn->F = &f;
        fn->builtin = builtin_id(f.getName().str());
        funcs[&f] = fn;
        if (f.isIntrinsic()) continue;
        Obj& o = alloc(s, 16, Obj::FUNC, f.getName().str());
        gaddr[&f] = o.base;
        faddr[o.base] = fn;
    }
    for (auto& g : mod->globals()) {
        if (g.getName().starts_with("llvm.")) continue;
        u64 n = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 0;
        bool ext = !g.hasInitializer();
        if (ext && n < 256) n = g.getName().starts_with("_ZT") ? 256 : std::max<u64>(n, 1);
        Obj& o = alloc(s, n, Obj::GLOBAL, g.getName().str());
        gaddr[&g] = o.base;
        tiaddr[o.base] = &g;
        if (g.getName() == "__libc_single_threaded") o.c[0] = 1;
        else if (ext && !g.getName().starts_with("_ZT") && g.getName() != "__dso_handle") o.s.assign(n, UNDEF);
    }
    for (auto& g : mod->globals()) {
        if (g.getName().starts_with("llvm.") || !g.hasInitializer()) continue;
        Obj& o = *s.mem.at(gaddr[&g]);
        initobj(o, 0, g.getInitializer());
        o.ro = g.isConstant();
    }
    if (auto* g = mod->getGlobalVariable("llvm.global_ctors"); g && g->hasInitializer())
        if (auto* a = dyn_cast<ConstantArray>(g->getInitializer())) {
            std::multimap<u64, Func*> order;
            for (auto& o : a->operands()) {
                auto* st = cast<ConstantStruct>(o);
                if (auto* f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) order.emplace(cast<ConstantInt>(st->getOperand(0))->getZExtValue(), funcs[f]);
            }
            for (auto& p : order) ctors.push_back(p.second);
        }
    for (std::size_t k = 0; k < ctors.size(); ++k) s.todo.push_back(k);
}

std::string esc(const std::string& t) {
    std::string r;
    for (char c : t) {
        if (c == '"' || c == '\\') r += '\\';
        if ((unsigned char)c < 32) r += ' ';
        else r += c;
    }
    return r;
}
}  // namespace
}  // namespace irsym

int main(int argc, char** argv) {
    // terms are deep
    rlimit rl;
    if (!getenv("IRSYM_STACK") && !getrlimit(RLIMIT_STACK, &rl) && rl.rlim_cur < (1ull << 30)) {
        rl.rlim_cur = std::min<rlim_t>(1ull << 30, rl.rlim_max);
        setenv("IRSYM_STACK", "1", 1);
        if (!setrlimit(RLIMIT_STACK, &rl)) execv("/proc/self/exe", argv);
    }
    using namespace irsym;
    t0 = std::chrono::steady_clock::now();
    std::string file, entry = "verif_main", out;
    for (int k = 1; k < argc; ++k) {
        std::string a = argv[k];
        auto next = [&] { return std::string(k + 1 < argc ? argv[++k] : ""); };
        if (a == "--entry") entry = next();
        else if (a == "--param") {
            std::string p = next();
            auto e = p.find('=');
            params[p.substr(0, e)] = std::stoull(p.substr(e + 1));
        } else if (a == "--time") time_limit = std::stod(next());
        else if (a == "--steps") step_limit = std::stoull(next());
        else if (a == "--alloc") alloc_limit = std::stoull(next());
        else if (a == "--query") query_timeout_ms = (unsigned)std::stoul(next());
        else if (a == "--out") out = next();
        else if (a == "--trace") trace = true;
        else file = a;
    }
    SMDiagnostic err;
    mod = parseIRFile(file, err, lctx);
    if (!mod) {
        std::cerr << "cannot read " << file << ": " << err.getMessage().str() << "\n";
        return 2;
    }
    setup();
    Function* f = mod->getFunction(entry);
    if (!f || f->isDeclaration()) {
        std::cerr << "no function " << entry << "\n";
        return 2;
    }
    ctors.push_back(funcs[f]);
    root.todo.push_back(ctors.size() - 1);
    explore(std::make_unique<State>(root));
    std::ostringstream os;
    os << "{\"entry\":\"" << entry << "\",\"paths\":" << paths << ",\"forks\":" << forks << ",\"steps\":" << total_steps << ",\"seconds\":" << elapsed()
       << ",\"merged\":" << merged << ",\"asserts\":" << asserts << ",\"asserts_folded\":" << asserts_folded << ",\"terms\":" << expr_count << ",\"hashes\":" << hashes.size()
       << ",\"queries\":" << sstats.queries << ",\"sat\":" << sstats.sat << ",\"unsat\":" << sstats.unsat << ",\"unknown\":" << sstats.unknown
       << ",\"cached\":" << sstats.cached << ",\"solver_seconds\":" << sstats.seconds << ",\"incomplete\":{";
    bool first = true;
    for (auto& p : incomplete) {
        os << (first ? "" : ",") << "\"" << esc(p.first) << "\":" << p.second;
        first = false;
    }
    os << "},\"covers\":[";
    first = true;
    for (auto& c : covers) {
        os << (first ? "" : ",") << "\"" << esc(c) << "\"";
        first = false;
    }
    os << "],\"functions\":[";
    first = true;
    for (auto& p : funcs)
        if (p.second->run) {
            std::string n = demangled(p.first);
            if (n.find("eth::") == std::string::npos && n.find("ssz::") == std::string::npos && n.find("helpers::") == std::string::npos) continue;
            if (n.compare(0, 5, "std::") == 0 || n.find("verif") != std::string::npos || n.find("YAML::") == 0 || n.find("__gnu_cxx") == 0) continue;
            n = n.substr(0, 160);
            os << (first ? "" : ",") << "\"" << esc(n) << "\"";
            first = false;
        }
    os << "],\"complete\":" << complete << ",\"witnesses\":[";
    for (std::size_t k = 0; k < witnesses.size(); ++k) os << (k ? "," : "") << "\"" << witnesses[k] << "\"";
    os << "],\"violations\":[";
    first = true;
    for (auto& v : viols) {
        os << (first ? "" : ",") << "{\"kind\":\"" << v.kind << "\",\"msg\":\"" << esc(v.msg) << "\",\"where\":\"" << esc(v.where) << "\",\"input\":\"";
        char b[3];
        for (auto x : v.input) {
            std::snprintf(b, 3, "%02x", x);
            os << b;
        }
        os << "\",\"stack\":[";
        for (std::size_t k = 0; k < v.stack.size(); ++k) os << (k ? "," : "") << "\"" << esc(v.stack[k]) << "\"";
        os << "]}";
        first = false;
    }
    os << "]";
    if (trace) {
        os << ",\"forksites\":{";
        first = true;
        for (auto& p : forksites) {
            os << (first ? "" : ",") << "\"" << esc(p.first) << "\":" << p.second;
            first = false;
        }
        os << "}";
    }
    os << "}\n";
    if (out.empty()) std::cout << os.str();
    else std::ofstream(out) << os.str();
    std::cout.flush();
    _Exit(0);
}
