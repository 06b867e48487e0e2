// Hash-consed bit-vector terms.
#pragma once
#include <cstdint>
#include <string>
#include <unordered_map>
#include <vector>

namespace irsym {
using u128 = unsigned __int128;
using u64 = std::uint64_t;

enum Op : std::uint8_t {
    CONST, VAR, HBYTE, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT, UITOFP, SITOFP, FSQRT,
    TAB  // a table of constants: the value at the index, or the last one when the index is beyond the end
};

using VarSet = std::vector<std::uint32_t>;  // sorted, interned

struct E {
    Op op;
    std::uint16_t w;
    std::uint32_t id;
    E* a[3];
    u128 v;  // CONST: value; VAR: index; EXTRACT: low bit; HBYTE: application * 32 + byte; TAB: number of the table
    const VarSet* vars;
    bool isc() const { return op == CONST; }
    u64 c() const { return (u64)v; }
};

struct Hash {
    std::vector<E*> in;  // 64 bytes
    const VarSet* vars;
};

struct VarInfo {
    std::string name;
    bool undef;
    long input;  // position in the input stream, or -1
};

extern std::vector<VarInfo> varinfo;
extern std::vector<Hash> hashes;
extern std::vector<std::vector<u128>> tables;
extern std::size_t expr_count;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

E* cst(u128 v, unsigned w);
E* newvar(const std::string& name, unsigned w, bool undef, long input);
E* bin(Op op, E* a, E* b);
E* eq(E* a, E* b);
E* ite(E* c, E* a, E* b);
E* concat(E* hi, E* lo);
E* extract(E* a, unsigned lo, unsigned w);
E* zext(E* a, unsigned w);
E* sext(E* a, unsigned w);
E* un(Op op, E* a, unsigned w);
E* lookup(std::vector<u128> vals, E* index, unsigned w);
E* hbyte(const std::vector<E*>& in, unsigned k);
inline E* add(E* a, E* b) { return bin(ADD, a, b); }
inline E* sub(E* a, E* b) { return bin(SUB, a, b); }
inline E* and_(E* a, E* b) { return bin(AND, a, b); }
inline E* or_(E* a, E* b) { return bin(OR, a, b); }
inline E* xor_(E* a, E* b) { return bin(XOR, a, b); }
inline E* not_(E* a) { return bin(XOR, a, cst(maskw(a->w), a->w)); }
inline E* ult(E* a, E* b) { return bin(ULT, a, b); }
inline E* ule(E* a, E* b) { return bin(ULE, a, b); }
inline E* T() { return cst(1, 1); }
inline E* F() { return cst(0, 1); }
inline bool isT(E* e) { return e->isc() && e->v == 1; }
inline bool isF(E* e) { return e->isc() && e->v == 0; }
const VarSet* unite(const VarSet* a, const VarSet* b);
bool hasundef(E* e);

// values of variables by index; missing ones are 0
struct Model {
    std::unordered_map<std::uint32_t, u128> v;
};
// evaluation with SHA-256 for the hash applications
struct Eval {
    const Model& m;
    std::unordered_map<std::uint32_t, u128> memo;
    std::unordered_map<std::uint32_t, std::vector<std::uint8_t>> hm;
    explicit Eval(const Model& m) : m{m} {}
    u128 operator()(E* e);
};
u128 foldop(Op op, unsigned w, u128 a, u128 b);
void sha256_64(const std::uint8_t* in, std::uint8_t* out);
std::string str(E* e, int depth = 6);
}  // namespace irsym
