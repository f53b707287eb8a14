// sxe - a small symbolic executor for LLVM bitcode (clang -emit-llvm output) with an SMT back end (Z3).
// loader.cpp turns LLVM IR into the flat instruction format below; sxe.cpp executes it.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>

enum Op : uint8_t {
    O_NOP, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
    O_ICMP, O_FCMP, O_ZEXT, O_SEXT, O_TRUNC, O_MOVE, O_FREEZE, O_SELECT, O_LOAD, O_STORE, O_ALLOCA, O_GEP,
    O_BR, O_CONDBR, O_SWITCH, O_RET, O_UNREACHABLE, O_CALL, O_EXTRACTVALUE, O_INSERTVALUE,
    O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FPEXT, O_FPTRUNC, O_FPTOUI, O_FPTOSI, O_UITOFP, O_SITOFP,
    O_UNSUPPORTED
};
enum Pred : uint8_t { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };

// Operand: >= 0 register index, < 0 constant index ~idx.
typedef int32_t Opnd;

struct Edge { int32_t target; std::vector<std::pair<int32_t, Opnd>> copies; };

struct Instr {
    Op op = O_NOP;
    uint8_t w = 0;       // result width in bits (or access width)
    uint8_t w2 = 0;      // source width
    uint8_t pred = 0;
    bool isfloat = false;
    int32_t dst = -1;
    Opnd a = 0, b = 0, c = 0;
    int32_t ext = -1;    // index in a side table
    int32_t line = 0;
};

struct GepInfo { int64_t off = 0; struct T { Opnd o; uint8_t w; int64_t scale; }; std::vector<T> terms; };
struct SwitchInfo { Edge def; std::vector<std::pair<uint64_t, int>> cases; std::vector<Edge> edges; };
struct BrInfo { Edge t, f; };
struct CallInfo {
    int32_t callee = -1;           // function id or -1 when indirect
    Opnd fptr = 0;
    std::vector<Opnd> args;
    std::vector<uint8_t> widths;   // bits per argument, 0 aggregate
    std::vector<int64_t> byval;    // size or 0
};
struct AggInfo { std::vector<unsigned> idx; };

struct ConstVal { uint64_t c = 0; bool undef = false; std::vector<ConstVal> *agg = nullptr; };

struct Function {
    std::string name;
    bool defined = false;
    bool vararg = false;
    int nparams = 0;
    int nregs = 0;
    std::vector<uint8_t> paramw;
    std::vector<Instr> code;
    std::vector<ConstVal> consts;
    std::vector<GepInfo> geps;
    std::vector<SwitchInfo> switches;
    std::vector<BrInfo> brs;
    std::vector<CallInfo> calls;
    std::vector<AggInfo> aggs;
    std::vector<std::vector<ConstVal>*> aggpool;
    uint64_t addr = 0;
    int builtin = -1;
    std::string file;
};

struct Global { std::string name; uint64_t addr; uint64_t size; bool constant; bool external; };

struct Module {
    std::vector<Function> funcs;
    std::unordered_map<std::string, int> fidx;
    std::unordered_map<uint64_t, int> faddr;
    std::vector<Global> globals;
    std::vector<uint8_t> image;     // initial contents of [GLOBAL_BASE, GLOBAL_BASE+image.size())
    std::vector<std::string> unsupported;
};

static const uint64_t FUNC_BASE   = 0x01000000;
static const uint64_t GLOBAL_BASE = 0x10000000;
static const uint64_t STACK_BASE  = 0x40000000;
static const uint64_t HEAP_BASE   = 0x50000000;
static const uint64_t ARENA_END   = 0x80000000;

bool load_module(const char *path, Module &m, std::string &err);
