// Symbolic execution of LLVM bitcode: states, memory and compiled functions.
#pragma once
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>

#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "expr.h"
#include "solver.h"

namespace irsym {
struct Val;
using Agg = std::shared_ptr<std::vector<Val>>;
struct Val {
    E* e = nullptr;
    Agg agg;
};

struct Obj {
    u64 base = 0, size = 0;
    std::vector<std::uint8_t> c;
    std::vector<E*> s;  // empty when all bytes are concrete; null entries are concrete
    bool ro = false;
    enum Kind : std::uint8_t { GLOBAL, STACK, HEAP, FUNC, SPECIAL } kind = GLOBAL;
    std::string name;
};
using ObjP = std::shared_ptr<Obj>;

struct Opnd {
    int slot = -1;
    Val c;
};
struct Func;
struct Inst {
    llvm::Instruction* I;
    unsigned op;
    int dst = -1;
    unsigned w = 0;
    std::vector<Opnd> ops;
    // getelementptr
    u64 off = 0;
    std::vector<std::pair<int, u64>> idx;  // operand number, scale
    std::vector<int> succ;
    Func* callee = nullptr;
    int builtin = -1;
};
struct Block {
    std::vector<Inst> in;
    unsigned nphi = 0;
    std::vector<int> from;         // predecessors
    std::map<int, unsigned> pred;  // predecessor block -> phi operand
};
struct Func {
    llvm::Function* F = nullptr;
    std::vector<Block> b;
    unsigned nslots = 0;
    bool compiled = false, run = false;
    int builtin = -1;
};
struct Frame {
    Func* f;
    int bb = 0, ip = 0;
    std::vector<Val> v;
    std::vector<u64> allocas;
};
struct ModelBox {
    Model m;
    Eval ev{m};
};
struct State {
    std::map<u64, ObjP> mem;
    std::vector<Frame> st;
    std::vector<E*> pc;
    std::shared_ptr<ModelBox> mb = std::make_shared<ModelBox>();
    std::unordered_map<std::uint32_t, E*> eqs;
    u64 next = 1ull << 33;
    u64 steps = 0;
    long inpos = 0;
    std::vector<std::size_t> todo;
    // exceptions
    std::vector<std::pair<u64, u64>> exc;  // object, type
    std::vector<u64> caught;
    u64 pend_obj = 0;
    u64 pend_sel = 0;
    u64 heap = 0;
    unsigned depth = 0;  // decisions
};

struct Violation {
    std::string kind, msg, where;
    std::vector<std::uint8_t> input;
    std::vector<std::string> stack;
};
}  // namespace irsym
