// calls of functions, intrinsics and builtins
E* isqrt_x = nullptr;    // the number given to verif_isqrt_input ...
E* isqrt_k = nullptr;    // ... and its root
E* isqrt_d = nullptr;    // what is left

// truncation of a square root to an integer: the root of x = k * k + d, d <= 2 k, is one of k - 1, k, k + 1
E* fptoint(State& s, E* a, unsigned w) {
    if (a->op != FSQRT || a->a[0]->op != UITOFP) throw Unsupported{"floating point conversion of unknown numbers"};
    E* x = a->a[0]->a[0];
    bool same = isqrt_x && zext(x, 64) == isqrt_x;
    if (isqrt_x && x->w == 32 && x == extract(isqrt_x, 0, 32)) {
        // the number, cut to 32 bits; it has no more
        std::shared_ptr<ModelBox> mb;
        same = feasible(s, not_(eq(extract(isqrt_x, 32, 32), cst(0, 32))), mb) == Res::UNSAT;
    }
    if (!same) throw Unsupported{"square root of an unknown number"};
    E* k = extract(isqrt_k, 0, w);
    // x below 2^52 is a double. Above, let f be the rounding of x and r that of the root of f. f is off by at most 2^10.
    // The root of the rounding of k * k is within 2^-22 of k and rounds to k, and both steps are monotonous, so r >= k.
    // r reaches k + 1 only if f > (k + 1)^2 - 2^11, that is x > (k + 1)^2 - 2^11 - 2^10; it does not exceed k + 1 either.
    E* small = eq(bin(LSHR, isqrt_x, cst(52, 64)), cst(0, 64));
    if (decide(s, small)) return k;
    E* near = bin(ULT, bin(MUL, isqrt_k, cst(2, 64)), add(isqrt_d, cst(3072, 64)));
    if (!decide(s, near)) return k;
    // chosen by a further unknown
    static std::map<E*, E*> memo;
    E*& e = memo[x];
    if (!e) e = newvar("rounding", 1, false, -1);
    return decide(s, e) ? add(k, cst(1, w)) : k;
}
E* fcmpsym(State&, unsigned, E*, E*) { throw Unsupported{"floating point comparison of unknown numbers"}; }

void hashblock(State& s, u64 out, u64 in) {
    auto b = readbytes(s, cst(in, 64), 64);
    for (E* e : b)
        if (hasundef(e)) die(s, "uninit", "uninitialised memory is hashed");
    Place d = place(s, cst(out, 64), 32, true, false);
    Obj& o = own(*d.p);
    for (unsigned k = 0; k < 32; ++k) writeb(o, d.off->c() + k, hbyte(b, k));
}
void backend(State& s, const std::string& n) {
    // the harness may record which backends ran
    auto* g = mod->getGlobalVariable("verif_backends", true);
    if (!g) return;
    unsigned bit = n == "sha256_1_avx" ? 1 : n == "sha256_4_avx" ? 2 : n == "sha256_8_avx2" ? 4 : 8;
    E* a = cst(gaddr[g], 64);
    store(s, a, or_(load(s, a, 32), cst(bit, 32)));
}
E* inbytes(State& s, unsigned n) {
    E* r = nullptr;
    for (unsigned k = 0; k < n; ++k) {
        E* b = input(s.inpos + k);
        r = r ? concat(b, r) : b;
    }
    s.inpos += n;
    return r;
}
// x and y: what is compared, where the assertion is an equality of byte strings
void assertion(State& s, E* c, const std::string& msg, const std::vector<E*>* x = nullptr, const std::vector<E*>* y = nullptr) {
    ++asserts;
    c = known(s, c);
    if (isT(c)) {
        ++asserts_folded;
        // the rewriting of terms already found both sides to be one term; the verdict is the solver's all the same
        if (x && !x->empty() && differ({}, *x, *y) != Res::UNSAT) ++incomplete["an assertion the solver left open: " + msg];
        return;
    }
    std::shared_ptr<ModelBox> mb;
    Res r = Res::UNKNOWN;
    if (isF(c) || !ev(s, c)) {
        r = Res::SAT;
        mb = s.mb;
    } else {
        // byte by byte first: each query is small, and most of them are alike
        if (x && x->size() > 1) {
            r = Res::UNSAT;
            for (std::size_t k = 0; k < x->size() && r == Res::UNSAT; ++k) {
                E* q = known(s, eq((*x)[k], (*y)[k]));
                if (!isT(q)) r = feasible(s, not_(q), mb);
            }
        }
        if (r == Res::UNKNOWN) r = feasible(s, not_(c), mb);
    }
    if (r == Res::SAT) {
        violation(s, "assert", msg, &mb->m);
        if (isF(c)) throw PathEnd{};
        std::shared_ptr<ModelBox> m2;
        if (ev(s, c)) {
            learn(s, c);
            return;
        }
        if (feasible(s, c, m2) != Res::SAT) throw PathEnd{};
        s.mb = m2;
        learn(s, c);
    } else if (r == Res::UNKNOWN) {
        ++incomplete["an assertion the solver left open: " + msg];
        learn(s, c);
    }
}
// equality of byte ranges as one term
E* bytes_equal(const std::vector<E*>& a, const std::vector<E*>& b) {
    E* r = T();
    for (std::size_t k = 0; k < a.size(); ++k) r = and_(eq(a[a.size() - 1 - k], b[a.size() - 1 - k]), r);
    return r;
}

E* newobj(State& s, E* size, const char* name) {
    E* n = known(s, size);
    if (!n->isc()) {
        E* ok = ule(n, cst(alloc_limit, n->w));
        std::shared_ptr<ModelBox> mb;
        if (!ev(s, ok)) {
            violation(s, "resource", "allocation of more than " + std::to_string(alloc_limit) + " bytes");
            throw PathEnd{};
        }
        if (feasible(s, not_(ok), mb) == Res::SAT) violation(s, "resource", "allocation of more than " + std::to_string(alloc_limit) + " bytes", &mb->m);
        learn(s, ok);
        n = force(s, n);
    }
    if (n->c() > alloc_limit) die(s, "resource", "allocation of " + std::to_string(n->c()) + " bytes");
    s.heap += n->c();
    if (s.heap > 16 * alloc_limit) die(s, "resource", "allocations of more than " + std::to_string(16 * alloc_limit) + " bytes");
    Obj& o = alloc(s, n->c(), Obj::HEAP, std::string(name) + " in " + location(s));
    return cst(o.base, 64);
}
void freeobj(State& s, E* p) {
    u64 a = force(s, p)->c();
    if (!a) return;
    auto it = s.mem.find(a);
    if (it == s.mem.end() || it->second->kind != Obj::HEAP) die(s, "memory", "release of memory that is not allocated");
    s.mem.erase(it);
}

// comparison of two ranges: zero exactly when they are equal; the sign is that of memcmp
E* compare(State& s, E* a, E* b, u64 n, bool order) {
    auto x = readbytes(s, a, n), y = readbytes(s, b, n);
    E* q = bytes_equal(x, y);
    if (!order) return ite(q, cst(0, 32), cst(1, 32));
    E* r = cst(0, 32);
    for (u64 k = n; k-- > 0;) r = ite(eq(x[k], y[k]), r, ite(bin(ULT, x[k], y[k]), cst(maskw(32), 32), cst(1, 32)));
    return r;
}

void builtin(State& s, const Inst& in, Func* f, const std::vector<Val>& a) {
    auto e = [&](unsigned k) { return a[k].e; };
    auto ret = [&](E* r) { finish(s, {r, nullptr}); };
    unsigned rw = widthof(in.I->getType());
    switch (f->builtin) {
        case B_NEW: case B_MALLOC: return ret(newobj(s, e(0), "heap memory"));
        case B_CALLOC: {
            E* p = newobj(s, bin(MUL, e(0), e(1)), "heap memory");
            Obj& o = own(s.mem.at(p->c()));
            o.s.clear();
            return ret(p);
        }
        case B_DELETE: case B_FREE:
            freeobj(s, e(0));
            return ret(nullptr);
        case B_MEMCPY: {
            u64 n = force(s, e(2))->c();
            copymem(s, e(0), e(1), n);
            return ret(e(0));
        }
        case B_MEMSET: {
            u64 n = force(s, e(2))->c();
            setmem(s, e(0), extract(e(1), 0, 8), n);
            return ret(e(0));
        }
        case B_MEMCMP: {
            u64 n = force(s, e(2))->c();
            return ret(compare(s, e(0), e(1), n, f->F->getName() == "memcmp"));
        }
        case B_NOP: return ret(rw ? a.empty() ? cst(0, rw) : e(0) : nullptr);
        case B_RET0: return ret(cst(0, rw));
        case B_RET1: return ret(cst(1, rw));
        case B_ARG0: return ret(e(0));
        case B_GUARD: {
            E* g = load(s, e(0), 8);
            if (isT(eq(g, cst(0, 8)))) {
                store(s, e(0), cst(1, 8));
                return ret(cst(1, rw));
            }
            return ret(cst(0, rw));
        }
        case B_ALLOC_EXC: {
            Obj& o = alloc(s, force(s, e(0))->c(), Obj::HEAP, "exception");
            return ret(cst(o.base, 64));
        }
        case B_THROW: {
            u64 o = force(s, e(0))->c(), t = force(s, e(1))->c();
            s.exc.push_back({o, t});
            return unwind(s, o);
        }
        case B_RETHROW: {
            if (s.caught.empty()) die(s, "exception", "rethrow without exception");
            return unwind(s, s.caught.back());
        }
        case B_BEGIN_CATCH:
            s.caught.push_back(force(s, e(0))->c());
            return ret(e(0));
        case B_END_CATCH:
            if (!s.caught.empty()) s.caught.pop_back();
            return ret(nullptr);
        case B_THROWSTD: return throwstd(s, throwers.at(f->F->getName().str()));
        case B_TERMINATE: die(s, "exception", "std::terminate is called");
        case B_ABORT: die(s, "abort", "the program aborts");
        case B_PURE: die(s, "abort", "a pure virtual function is called");
        case B_SQRT: {
            E* x = e(0);
            if (x->isc()) return ret(fromdouble(std::sqrt(todouble(x)), x->w));
            return ret(un(FSQRT, x, x->w));
        }
        case B_HASHN: {
            u64 out = force(s, e(0))->c(), inp = force(s, e(1))->c(), n = force(s, e(2))->c();
            if (n > 1u << 24) die(s, "memory", "hashing of " + std::to_string(n) + " blocks");
            backend(s, f->F->getName().str());
            for (u64 k = 0; k < n; ++k) hashblock(s, out + 32 * k, inp + 64 * k);
            return ret(nullptr);
        }
        case B_HASH1: {
            u64 out = force(s, e(0))->c(), inp = force(s, e(1))->c();
            backend(s, "sha256_1_avx");
            hashblock(s, out, inp);
            return ret(nullptr);
        }
        case V_BYTES: {
            u64 n = force(s, e(1))->c();
            if (n) {
                Place p = place(s, e(0), n, true, false);
                Obj& o = own(*p.p);
                for (u64 k = 0; k < n; ++k) writeb(o, p.off->c() + k, input(s.inpos + (long)k));
                s.inpos += (long)n;
            }
            return ret(nullptr);
        }
        case V_U64: return ret(inbytes(s, 8));
        case V_CHOOSE: {
            u64 n = force(s, e(0))->c();
            long at = s.inpos;
            E* v = inbytes(s, 4);
            E* c = ult(v, cst(n, 32));
            if (n == 1) {
                // nothing to choose
                std::shared_ptr<ModelBox> mb;
                if (feasible(s, eq(v, cst(0, 32)), mb) != Res::SAT) throw PathEnd{};
                s.mb = mb;
                learn(s, eq(v, cst(0, 32)));
                return ret(cst(0, 64));
            }
            E* kc = known(s, c);
            if (!isT(kc)) {
                std::shared_ptr<ModelBox> mb;
                if (!ev(s, c)) {
                    if (feasible(s, c, mb) != Res::SAT) throw PathEnd{};
                    s.mb = mb;
                }
                learn(s, c);
            }
            // a fork runs the instruction again
            s.inpos = at;
            E* k = force(s, v);
            s.inpos = at + 4;
            return ret(zext(k, 64));
        }
        case V_ASSUME: {
            E* c = known(s, e(0));
            if (c->w != 1) c = not_(eq(c, cst(0, c->w)));
            if (isT(c)) return ret(nullptr);
            if (isF(c)) throw PathEnd{};
            if (!ev(s, c)) {
                std::shared_ptr<ModelBox> mb;
                Res r = feasible(s, c, mb);
                if (r == Res::UNKNOWN) ++incomplete["an assumption the solver left open"];
                if (r != Res::SAT) throw PathEnd{};
                s.mb = mb;
            }
            learn(s, c);
            return ret(nullptr);
        }
        case V_ASSERT: {
            E* c = e(0);
            if (c->w != 1) c = not_(eq(c, cst(0, c->w)));
            assertion(s, c, cstring(s, force(s, e(1))->c()));
            return ret(nullptr);
        }
        case V_ASSERT_BYTES: {
            u64 n = force(s, e(2))->c();
            std::string msg = cstring(s, force(s, e(3))->c());
            auto x = readbytes(s, e(0), n), y = readbytes(s, e(1), n);
            assertion(s, bytes_equal(x, y), msg, &x, &y);
            return ret(nullptr);
        }
        case V_EQ: {
            u64 n = force(s, e(2))->c();
            auto x = readbytes(s, e(0), n), y = readbytes(s, e(1), n);
            E* q = bytes_equal(x, y);
            return ret(rw == 1 ? q : zext(q, rw));
        }
        case V_HASH: {
            u64 out = force(s, e(0))->c(), inp = force(s, e(1))->c();
            hashblock(s, out, inp);
            return ret(nullptr);
        }
        case V_COVER: covers.insert(cstring(s, force(s, e(0))->c())); return ret(nullptr);
        case V_PARAM: {
            std::string n = cstring(s, force(s, e(0))->c());
            auto it = params.find(n);
            return ret(cst(it == params.end() ? 0 : it->second, 64));
        }
        case V_DEFINED: {
            u64 n = force(s, e(1))->c();
            bool ok = true;
            for (E* b : readbytes(s, e(0), n))
                if (hasundef(b)) ok = false;
            return ret(cst(ok, rw));
        }
        case V_ISQRT: {
            // x = k * k + d with d <= 2 k: every number has one such k, its integer square root
            // the parameter width says how many bits x has
            bool narrow = params.count("width") && params["width"] == 32;
            E *k = zext(inbytes(s, narrow ? 2 : 4), 64), *d = zext(inbytes(s, narrow ? 3 : 5), 64);
            E* x = add(bin(MUL, k, k), d);
            isqrt_k = k;
            isqrt_d = d;
            isqrt_x = x;
            E* ok = ule(d, bin(MUL, k, cst(2, 64)));
            std::shared_ptr<ModelBox> mb;
            if (!ev(s, ok)) throw PathEnd{};
            learn(s, ok);
            // k * k is not larger than k times the largest root
            Obj& o = own(*place(s, e(0), 8, true, false).p);
            u64 off = e(0)->c() - o.base;
            for (unsigned j = 0; j < 8; ++j) writeb(o, off + j, extract(k, 8 * j, 8));
            return ret(x);
        }
        default: throw Unsupported{"builtin"};
    }
}

void intrinsic(State& s, const Inst& in, Function* F, const std::vector<Val>& a) {
    auto e = [&](unsigned k) { return a[k].e; };
    auto ret = [&](E* r) { finish(s, {r, nullptr}); };
    unsigned w = in.w;
    auto pair = [&](E* x, E* y) {
        auto g = std::make_shared<std::vector<Val>>();
        g->push_back({x, nullptr});
        g->push_back({y, nullptr});
        finish(s, {nullptr, g});
    };
    auto vecmap = [&](const std::function<E*(E*, E*)>& f) {
        std::function<Val(const Val&, const Val&)> go = [&](const Val& x, const Val& y) -> Val {
            if (x.e) return {f(x.e, y.e), nullptr};
            auto r = std::make_shared<std::vector<Val>>();
            for (std::size_t k = 0; k < x.agg->size(); ++k) r->push_back(go((*x.agg)[k], (*y.agg)[k]));
            return {nullptr, r};
        };
        finish(s, go(a[0], a.size() > 1 ? a[1] : a[0]));
    };
    switch (F->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::assume: case Intrinsic::prefetch: case Intrinsic::var_annotation:
            return ret(nullptr);
        case Intrinsic::invariant_start: return ret(cst(0, 64));
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: case Intrinsic::ptr_annotation:
            return ret(e(0));
        case Intrinsic::is_constant: return ret(cst(0, 1));
        case Intrinsic::objectsize: return ret(cst(maskw(w), w));
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
            u64 n = force(s, e(2))->c();
            copymem(s, e(0), e(1), n);
            return ret(nullptr);
        }
        case Intrinsic::memset: case Intrinsic::memset_inline: {
            u64 n = force(s, e(2))->c();
            setmem(s, e(0), e(1), n);
            return ret(nullptr);
        }
        case Intrinsic::umin: return vecmap([](E* x, E* y) { return ite(bin(ULT, x, y), x, y); });
        case Intrinsic::umax: return vecmap([](E* x, E* y) { return ite(bin(ULT, x, y), y, x); });
        case Intrinsic::smin: return vecmap([](E* x, E* y) { return ite(bin(SLT, x, y), x, y); });
        case Intrinsic::smax: return vecmap([](E* x, E* y) { return ite(bin(SLT, x, y), y, x); });
        case Intrinsic::abs: return ret(ite(bin(SLT, e(0), cst(0, w)), sub(cst(0, w), e(0)), e(0)));
        case Intrinsic::ctlz: case Intrinsic::cttz: {
            E *x = known(s, e(0)), *r = cst(w, w);
            bool lz = F->getIntrinsicID() == Intrinsic::ctlz;
            for (unsigned k = 0; k < w; ++k) {
                unsigned bit = lz ? k : w - 1 - k;
                r = ite(extract(x, bit, 1), cst(lz ? w - 1 - bit : bit, w), r);
            }
            return ret(r);
        }
        case Intrinsic::ctpop: {
            E* r = cst(0, w);
            for (unsigned k = 0; k < w; ++k) r = add(r, zext(extract(e(0), k, 1), w));
            return ret(r);
        }
        case Intrinsic::bswap: {
            E* r = nullptr;
            for (unsigned k = 0; k < w / 8; ++k) r = r ? concat(r, extract(e(0), 8 * k, 8)) : extract(e(0), 0, 8);
            return ret(r);
        }
        case Intrinsic::bitreverse: {
            E* r = nullptr;
            for (unsigned k = 0; k < w; ++k) r = r ? concat(r, extract(e(0), k, 1)) : extract(e(0), 0, 1);
            return ret(r);
        }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            E* k = force(s, e(2));
            unsigned n = (unsigned)(k->c() % w);
            bool l = F->getIntrinsicID() == Intrinsic::fshl;
            if (!n) return ret(l ? e(0) : e(1));
            if (!l) n = w - n;
            return ret(or_(bin(SHL, e(0), cst(n, w)), bin(LSHR, e(1), cst(w - n, w))));
        }
        case Intrinsic::uadd_with_overflow: {
            E* r = add(e(0), e(1));
            return pair(r, bin(ULT, r, e(0)));
        }
        case Intrinsic::usub_with_overflow: return pair(sub(e(0), e(1)), bin(ULT, e(0), e(1)));
        case Intrinsic::umul_with_overflow: {
            E* r = bin(MUL, zext(e(0), 2 * e(0)->w), zext(e(1), 2 * e(0)->w));
            unsigned n = e(0)->w;
            return pair(extract(r, 0, n), not_(eq(extract(r, n, n), cst(0, n))));
        }
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
            unsigned n = e(0)->w;
            E *x = sext(e(0), n + 1), *y = sext(e(1), n + 1);
            E* r = F->getIntrinsicID() == Intrinsic::sadd_with_overflow ? add(x, y) : sub(x, y);
            return pair(extract(r, 0, n), not_(eq(r, sext(extract(r, 0, n), n + 1))));
        }
        case Intrinsic::smul_with_overflow: {
            unsigned n = e(0)->w;
            E* r = bin(MUL, sext(e(0), 2 * n), sext(e(1), 2 * n));
            return pair(extract(r, 0, n), not_(eq(r, sext(extract(r, 0, n), 2 * n))));
        }
        case Intrinsic::usub_sat: return ret(ite(bin(ULT, e(0), e(1)), cst(0, w), sub(e(0), e(1))));
        case Intrinsic::uadd_sat: {
            E* r = add(e(0), e(1));
            return ret(ite(bin(ULT, r, e(0)), cst(maskw(w), w), r));
        }
        case Intrinsic::sqrt: {
            E* x = e(0);
            if (x->isc()) return ret(fromdouble(std::sqrt(todouble(x)), x->w));
            return ret(un(FSQRT, x, x->w));
        }
        case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::fabs: {
            E* x = e(0);
            if (!x->isc()) throw Unsupported{"floating point function of an unknown number"};
            double d = todouble(x);
            auto id = F->getIntrinsicID();
            d = id == Intrinsic::floor ? std::floor(d) : id == Intrinsic::ceil ? std::ceil(d) : id == Intrinsic::trunc ? std::trunc(d) : std::fabs(d);
            return ret(fromdouble(d, x->w));
        }
        case Intrinsic::eh_typeid_for: {
            u64 t = e(0)->c();
            return ret(cst((u128)typeid_for(t), 32));
        }
        case Intrinsic::trap: die(s, "abort", "the program traps");
        case Intrinsic::stacksave: return ret(cst(0, 64));
        case Intrinsic::stackrestore: return ret(nullptr);
        case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: {
            E* r = nullptr;
            for (auto& v : *a[0].agg) {
                if (!r) r = v.e;
                else switch (F->getIntrinsicID()) {
                    case Intrinsic::vector_reduce_or: r = or_(r, v.e); break;
                    case Intrinsic::vector_reduce_and: r = and_(r, v.e); break;
                    case Intrinsic::vector_reduce_add: r = add(r, v.e); break;
                    default: r = xor_(r, v.e);
                }
            }
            return ret(r);
        }
        default: throw Unsupported{"intrinsic " + F->getName().str()};
    }
}

// the cpuid instruction: the registers are those of the table the harness keeps
void cpuid(State& s, const Inst& in, const InlineAsm* ia, const std::vector<Val>& a) {
    E *leaf = a.size() > 0 ? force(s, a[0].e) : cst(0, 32), *subl = a.size() > 1 ? force(s, a[1].e) : cst(0, 32);
    E* r[4] = {cst(0, 32), cst(0, 32), cst(0, 32), cst(0, 32)};
    auto* g = mod->getGlobalVariable("verif_cpuid_table", true);
    if (!g) throw Unsupported{"cpuid"};
    u64 base = gaddr[g];
    u64 n = s.mem.at(base)->size / 24;
    for (u64 k = 0; k < n; ++k) {
        E* l = load(s, cst(base + 24 * k, 64), 32);
        E* sb = load(s, cst(base + 24 * k + 4, 64), 32);
        if (l == leaf && (sb == subl || sb->c() == 0xffffffffu))
            for (unsigned q = 0; q < 4; ++q) r[q] = load(s, cst(base + 24 * k + 8 + 4 * q, 64), 32);
    }
    // outputs in the order of the constraints; the one in any register is ebx
    auto cons = ia->ParseConstraints();
    auto g2 = std::make_shared<std::vector<Val>>();
    for (auto& c : cons) {
        if (c.Type != InlineAsm::isOutput) continue;
        std::string code = c.Codes.empty() ? "" : c.Codes[0];
        unsigned q = code == "{ax}" ? 0 : code == "{cx}" ? 2 : code == "{dx}" ? 3 : 1;
        g2->push_back({r[q], nullptr});
    }
    finish(s, {nullptr, g2});
}

void call(State& s, const Inst& in) {
    Frame& fr = s.st.back();
    std::vector<Val> a;
    std::size_t na = in.ops.size() - 1;
    Func* f = in.callee;
    auto* cb = cast<CallBase>(in.I);
    if (f && f->F->isIntrinsic()) {
        auto id = f->F->getIntrinsicID();
        if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl ||
            id == Intrinsic::invariant_start || id == Intrinsic::invariant_end) {
            finish(s, {id == Intrinsic::invariant_start ? cst(0, 64) : nullptr, nullptr});
            return;
        }
    }
    a.reserve(na);
    for (std::size_t k = 0; k < na; ++k) a.push_back(get(fr, in, (unsigned)k));
    if (!f) {
        if (auto* ia = dyn_cast<InlineAsm>(cb->getCalledOperand())) {
            if (ia->getAsmString().find("cpuid") != std::string::npos) return cpuid(s, in, ia, a);
            if (ia->getAsmString().empty()) return finish(s, in.dst >= 0 && !a.empty() ? a[0] : Val{});
            throw Unsupported{"inline assembly"};
        }
        E* t = force(s, gete(fr, in, (unsigned)na));
        auto it = faddr.find(t->c());
        if (it == faddr.end()) die(s, "memory", "call of an address that is no function");
        f = it->second;
    }
    if (f->F->isIntrinsic()) return intrinsic(s, in, f->F, a);
    if (f->builtin != B_NONE) return builtin(s, in, f, a);
    if (f->F->isDeclaration()) throw Unsupported{"function " + demangled(f->F)};
    // arguments passed by value in memory are copies
    for (unsigned k = 0; k < a.size() && k < f->F->arg_size(); ++k)
        if (f->F->hasParamAttribute(k, Attribute::ByVal)) {
            u64 n = DL->getTypeAllocSize(f->F->getParamByValType(k));
            Obj& o = alloc(s, n, Obj::STACK, "an argument");
            u64 b = o.base;
            copymem(s, cst(b, 64), a[k].e, n);
            s.st.back().allocas.push_back(b);
            a[k].e = cst(b, 64);
        }
    pushframe(s, f, a);
}
