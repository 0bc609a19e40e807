// Symbolic executor for LLVM bitcode (single threaded programs, concrete heap layout,
// symbolic data), path exploration by depth-first backtracking over forked processes.
#include "solver.h"
#include <algorithm>
#include <cstdarg>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Demangle/Demangle.h"
using namespace llvm;
using std::string;
using std::vector;

struct Val { u64 v; Expr *e; };

// ---------------------------------------------------------------- memory
static const u64 ARENA = 0x600000000000ULL;
static const u64 GLOB_SZ = 32ull << 20, STACK_SZ = 96ull << 20, HEAP_SZ = 512ull << 20;
static const u64 ARENA_SZ = GLOB_SZ + STACK_SZ + HEAP_SZ;
static const u64 STACK0 = ARENA + GLOB_SZ, HEAP0 = STACK0 + STACK_SZ;
static const u64 FNBASE = 0x500000000000ULL;
static const u32 NCHUNK = ARENA_SZ / 64;
static u32 *stampA, *shadowA;
struct Shadow { Expr *e[64]; };
static Shadow *shPool;
static u32 shTop = 1;
static const u32 SH_MAX = 1 << 20;
static u64 stackTop = STACK0, heapTop = HEAP0, globTop = ARENA + 64;
static u64 globConstEnd = ARENA;
static u32 curEpoch = 1;
static u32 markStack = 0, markHeap = 0; // chunk indices; logging needed below these
struct LogEnt { u32 chunk, shadow; u8 bytes[64]; };
static vector<LogEnt> memLog;

static volatile sig_atomic_t inChild = 0;
static void finishProcess();
void engineError(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int z = 0;
  if (SH && SH->error.compare_exchange_strong(z, 1)) vsnprintf(SH->errmsg, sizeof SH->errmsg, fmt, ap);
  else if (!SH) { vfprintf(stderr, fmt, ap); fputc('\n', stderr); exit(2); }
  va_end(ap);
  SH->stop = 1;
  finishProcess();
}

static inline u32 chunkOf(u64 a) { return (u32)((a - ARENA) >> 6); }
static const u32 HEAPCH = (GLOB_SZ + STACK_SZ) / 64;
static void logChunk(u32 c) {
  stampA[c] = curEpoch;
  if (!(c < markStack || (c >= HEAPCH && c < markHeap))) return;
  memLog.emplace_back();
  LogEnt &l = memLog.back();
  l.chunk = c;
  l.shadow = shadowA[c];
  memcpy(l.bytes, (void *)(ARENA + ((u64)c << 6)), 64);
  if (l.shadow) {
    if (shTop >= SH_MAX) engineError("shadow pool exhausted");
    shPool[shTop] = shPool[l.shadow];
    shadowA[c] = shTop++;
  }
}
static inline void touch(u32 c) {
  if (__builtin_expect(stampA[c] != curEpoch, 0)) logChunk(c);
}
struct Trap { int kind; };
enum { V_FAIL = 1, V_PANIC = 2, V_HANG = 3, V_MEM = 4, V_UB = 5, V_STACK = 6 };

static Shadow *shadowOf(u32 c) { // for writing; chunk already touched
  if (!shadowA[c]) {
    if (shTop >= SH_MAX) engineError("shadow pool exhausted");
    memset(&shPool[shTop], 0, sizeof(Shadow));
    shadowA[c] = shTop++;
  }
  return &shPool[shadowA[c]];
}

// ---------------------------------------------------------------- code
enum Op : u16 {
  I_MOV, I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_AND, I_OR, I_XOR, I_SHL, I_LSHR, I_ASHR,
  I_EQ, I_NE, I_ULT, I_ULE, I_UGT, I_UGE, I_SLT, I_SLE, I_SGT, I_SGE,
  I_TRUNC, I_ZEXT, I_SEXT, I_SELECT, I_GEPC, I_GEP1, I_LOAD, I_STORE, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET,
  I_CALL, I_CALLI, I_UNREACH, I_TRAP, I_BUILTIN,
  I_WIDE, I_UADDO, I_USUBO, I_UMULO, I_SADDO, I_SSUBO, I_SMULO, I_UMAX, I_UMIN, I_SMAX, I_SMIN, I_UADDSAT, I_USUBSAT,
  I_CTLZ, I_CTTZ, I_CTPOP, I_BSWAP, I_BITREV, I_ABS, I_FSHL, I_FSHR, I_RMW, I_CMPXCHG, I_EQ128, I_NOP
};
struct Ins {
  u16 op;
  u16 w;
  i32 d, a, b, c;
  u64 imm;
};
struct Edge { u32 pc, mvOff, mvCnt; u8 simple; };
struct SwitchT {
  std::unordered_map<u64, u32> map; // value -> edge index (local group)
  vector<u32> dense;                // small values
  u32 def;
  vector<std::pair<u64, u32>> cases;
};
enum Builtin {
  B_NONE, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMALIGN, B_RALLOC, B_RALLOCZ, B_RREALLOC, B_RDEALLOC, B_MEMCPY,
  B_MEMMOVE, B_MEMSET, B_BCMP, B_MEMCMP, B_STRLEN, B_PANIC, B_ABORT, B_SYM_IN, B_SYM_CHOICE, B_SYM_PARAM, B_SYM_ASSUME,
  B_SYM_FAIL, B_SYM_COVER, B_SYM_DECLARE, B_SYM_OBSERVE, B_SYM_CONC, B_SYM_NOTE, B_SYM_KNOWN, B_SYM_IS, B_SYM_END, B_TRAPEXT,
  B_GETRANDOM, B_ZERO, B_WRITE, B_WRITEV, B_CLOCK, B_MEMCHR, B_MEMRCHR
};
struct Fn {
  Function *F = nullptr;
  string name;
  bool decoded = false;
  u8 executed = 0;
  Builtin bi = B_NONE;
  u32 nslots = 0, nargs = 0, nret = 0;
  u64 frameBytes = 0;
  u32 idx = 0;
  vector<Ins> code;
  vector<const Instruction *> src; // per instruction of `code`
};
static vector<Fn *> fns;
static std::unordered_map<const Function *, Fn *> fnOf;
static vector<Val> K;
static vector<i32> XS;
static vector<Edge> EDGES;
static vector<SwitchT *> SWT;
static std::unordered_map<const GlobalVariable *, u64> globAddr;
static vector<std::pair<u64, u64>> constGlobs; // sorted (addr,size)
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static LLVMContext Ctx;
static vector<string> trapMsgs;

struct Leaf { u64 off; unsigned w; bool ptr; };
static std::unordered_map<Type *, vector<Leaf>> leafCache;
static void leavesRec(Type *t, u64 off, vector<Leaf> &o) {
  if (auto *it = dyn_cast<IntegerType>(t)) {
    unsigned w = it->getBitWidth();
    if (w <= 64) o.push_back({off, w, false});
    else
      for (unsigned i = 0; i < w; i += 64) o.push_back({off + i / 8, w - i < 64 ? w - i : 64, false});
  } else if (t->isPointerTy()) o.push_back({off, 64, true});
  else if (auto *st = dyn_cast<StructType>(t)) {
    const StructLayout *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) leavesRec(st->getElementType(i), off + sl->getElementOffset(i), o);
  } else if (auto *at = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) leavesRec(at->getElementType(), off + i * es, o);
  } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    u64 eb = DL->getTypeSizeInBits(vt->getElementType());
    u64 es = eb / 8;
    for (u64 i = 0; i < vt->getNumElements(); i++) leavesRec(vt->getElementType(), off + i * es, o);
  } else if (t->isFloatTy()) o.push_back({off, 32, false});
  else if (t->isDoubleTy()) o.push_back({off, 64, false});
  else if (t->isVoidTy()) {
  } else o.push_back({off, 64, false});
}
static const vector<Leaf> &leaves(Type *t) {
  auto it = leafCache.find(t);
  if (it != leafCache.end()) return it->second;
  vector<Leaf> o;
  leavesRec(t, 0, o);
  return leafCache[t] = o;
}

static u64 constInt(const Constant *c);
static void flattenConst(const Constant *c, vector<u64> &o) {
  Type *t = c->getType();
  const auto &ls = leaves(t);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    for (size_t i = 0; i < ls.size(); i++) o.push_back(0);
    return;
  }
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    const APInt &v = ci->getValue();
    for (size_t i = 0; i < ls.size(); i++) o.push_back(v.getRawData()[i]);
    return;
  }
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    unsigned n = t->isStructTy() ? cast<StructType>(t)->getNumElements()
                 : t->isArrayTy() ? cast<ArrayType>(t)->getNumElements()
                                  : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) flattenConst(c->getAggregateElement(i), o);
    return;
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    o.push_back(cf->getValueAPF().bitcastToAPInt().getRawData()[0]);
    return;
  }
  o.push_back(constInt(c));
}
static u64 fnAddr(const Function *f) { return FNBASE + 16 * (u64)fnOf[f]->idx; }
static u64 constInt(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getValue().getRawData()[0];
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto *f = dyn_cast<Function>(c)) return fnAddr(f);
  if (auto *g = dyn_cast<GlobalVariable>(c)) return globAddr[g];
  if (auto *a = dyn_cast<GlobalAlias>(c)) return constInt(a->getAliasee());
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    unsigned w = 64;
    if (ce->getType()->isIntegerTy()) w = ce->getType()->getIntegerBitWidth();
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) break;
      return constInt(ce->getOperand(0)) + off.getZExtValue();
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc:
    case Instruction::ZExt:
      return constInt(ce->getOperand(0)) & maskw(w);
    case Instruction::Add: return (constInt(ce->getOperand(0)) + constInt(ce->getOperand(1))) & maskw(w);
    case Instruction::Sub: return (constInt(ce->getOperand(0)) - constInt(ce->getOperand(1))) & maskw(w);
    case Instruction::ICmp: { // is a weak symbol there
      u64 x = constInt(ce->getOperand(0)), y = constInt(ce->getOperand(1));
      if (ce->getPredicate() == CmpInst::ICMP_EQ) return x == y;
      if (ce->getPredicate() == CmpInst::ICMP_NE) return x != y;
      break;
    }
    default: break;
    }
  }
  string s;
  raw_string_ostream os(s);
  c->print(os);
  engineError("unsupported constant %s", s.substr(0, 300).c_str());
  return 0;
}

static void initGlobal(u64 addr, const Constant *c) {
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
  Type *t = c->getType();
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    if (cd->getElementByteSize() <= 8) {
      memcpy((void *)addr, cd->getRawDataValues().data(), cd->getRawDataValues().size());
      return;
    }
  }
  if (auto *st = dyn_cast<StructType>(t)) {
    const StructLayout *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) initGlobal(addr + sl->getElementOffset(i), c->getAggregateElement(i));
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) initGlobal(addr + i * es, c->getAggregateElement(i));
    return;
  }
  vector<u64> o;
  flattenConst(c, o);
  const auto &ls = leaves(t);
  for (size_t i = 0; i < ls.size(); i++) memcpy((void *)(addr + ls[i].off), &o[i], (ls[i].w + 7) / 8);
}

static bool has(const string &s, const char *n) { return s.find(n) != string::npos; }
static Builtin builtinFor(const string &n, bool decl) {
  static const std::map<string, Builtin> m = {
      {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"posix_memalign", B_MEMALIGN},
      {"__rust_alloc", B_RALLOC}, {"__rust_alloc_zeroed", B_RALLOCZ}, {"__rust_realloc", B_RREALLOC}, {"__rust_dealloc", B_RDEALLOC},
      {"__rdl_alloc", B_RALLOC}, {"__rdl_alloc_zeroed", B_RALLOCZ}, {"__rdl_realloc", B_RREALLOC}, {"__rdl_dealloc", B_RDEALLOC},
      {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"bcmp", B_BCMP}, {"memcmp", B_MEMCMP}, {"strlen", B_STRLEN},
      {"memchr", B_MEMCHR}, {"memrchr", B_MEMRCHR}, {"getrandom", B_GETRANDOM}, {"__cxa_thread_atexit_impl", B_ZERO}, {"getenv", B_ZERO}, {"write", B_WRITE}, {"writev", B_WRITEV}, {"clock_gettime", B_CLOCK},
      {"abort", B_ABORT}, {"rust_begin_unwind", B_PANIC}, {"sym_in", B_SYM_IN}, {"sym_choice", B_SYM_CHOICE},
      {"sym_param", B_SYM_PARAM}, {"sym_assume", B_SYM_ASSUME}, {"sym_fail", B_SYM_FAIL}, {"sym_cover", B_SYM_COVER}, {"sym_declare", B_SYM_DECLARE},
      {"sym_observe", B_SYM_OBSERVE}, {"sym_conc", B_SYM_CONC}, {"sym_note", B_SYM_NOTE}, {"sym_known", B_SYM_KNOWN},
      {"sym_is", B_SYM_IS}, {"sym_end", B_SYM_END}};
  auto it = m.find(n);
  if (it != m.end()) return it->second;
  bool lib = has(n, "_ZN4core") || has(n, "_ZN5alloc") || has(n, "_ZN3std");
  if (!lib && !decl) return B_NONE;
  if (has(n, "N4core9panicking") || has(n, "std9panicking") || has(n, "core6option13unwrap_failed") || has(n, "core6option13expect_failed") ||
      has(n, "core6result13unwrap_failed") || has(n, "alloc18handle_alloc_error") || has(n, "capacity_overflow") ||
      has(n, "rust_panic") || has(n, "core4cell22panic_already") || has(n, "slice_error_fail") || has(n, "_fail17h") ||
      has(n, "str16slice_error_fail") || has(n, "core5slice5index") && has(n, "_fail"))
    return B_PANIC;
  if (decl) return B_TRAPEXT;
  return B_NONE;
}

// ---------------------------------------------------------------- decoder
struct Decoder {
  Fn *fn;
  std::unordered_map<const Value *, i32> slot;
  std::unordered_map<const BasicBlock *, u32> bpc;
  vector<std::pair<u32, std::pair<const BasicBlock *, const BasicBlock *>>> fix; // edge idx -> (from,to)
  u32 next = 0;
  i32 newSlots(u32 n) { i32 r = next; next += n; return r; }
  static i32 kval(u64 v) {
    static std::unordered_map<u64, i32> m;
    auto it = m.find(v);
    if (it != m.end()) return it->second;
    K.push_back({v, nullptr});
    return m[v] = ~(i32)(K.size() - 1);
  }
  i32 opnd(const Value *v, u32 i = 0) {
    if (auto *c = dyn_cast<Constant>(v)) {
      vector<u64> o;
      flattenConst(c, o);
      if (i >= o.size()) engineError("opnd leaf");
      const auto &ls = leaves(c->getType());
      return kval(o[i] & maskw(ls[i].w));
    }
    auto it = slot.find(v);
    if (it == slot.end()) { // forward reference (phi / later block)
      i32 s = newSlots(leaves(v->getType()).size());
      slot[v] = s;
      return s + i;
    }
    return it->second + i;
  }
  i32 dst(const Value *v) {
    auto it = slot.find(v);
    if (it != slot.end()) return it->second;
    i32 s = newSlots(leaves(v->getType()).size());
    slot[v] = s;
    return s;
  }
  Ins &emit(u16 op, u16 w = 0, i32 d = 0, i32 a = 0, i32 b = 0, i32 c = 0, u64 imm = 0) {
    fn->code.push_back({op, w, d, a, b, c, imm});
    return fn->code.back();
  }
  void trap(const string &m) {
    trapMsgs.push_back(m);
    emit(I_TRAP, 0, 0, 0, 0, 0, trapMsgs.size() - 1);
  }
  u32 edge(const BasicBlock *f, const BasicBlock *t) {
    EDGES.push_back({0, 0, 0, 0});
    fix.push_back({(u32)EDGES.size() - 1, {f, t}});
    return EDGES.size() - 1;
  }
  static unsigned ew(Type *t) { return leaves(t)[0].w; }
  void decode(Fn *f);
  void ins(const Instruction &I);
  void call(const CallBase &I);
  void gep(const GEPOperator &g, i32 d);
};

void Decoder::gep(const GEPOperator &g, i32 d) {
  u64 off = 0;
  vector<std::pair<const Value *, u64>> dyn;
  for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    const Value *idx = it.getOperand();
    if (StructType *st = it.getStructTypeOrNull()) {
      off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
    } else {
      u64 sc = DL->getTypeAllocSize(it.getIndexedType());
      if (auto *ci = dyn_cast<ConstantInt>(idx)) off += sc * (u64)ci->getSExtValue();
      else dyn.push_back({idx, sc});
    }
  }
  i32 base = opnd(g.getPointerOperand());
  if (dyn.empty()) { emit(I_GEPC, 64, d, base, 0, 0, off); return; }
  for (size_t i = 0; i < dyn.size(); i++) {
    i32 ix = opnd(dyn[i].first);
    unsigned w = ew(dyn[i].first->getType());
    if (w < 64) { i32 t = newSlots(1); emit(I_SEXT, 64, t, ix, w); ix = t; }
    emit(I_GEP1, 64, d, base, ix, (i32)(i + 1 == dyn.size() ? (i64)0 : 0), dyn[i].second);
    base = d;
  }
  if (off) emit(I_GEPC, 64, d, d, 0, 0, off);
}

void Decoder::call(const CallBase &I) {
  Type *rt = I.getType();
  i32 d = rt->isVoidTy() ? -1 : dst(&I);
  const Function *cf = dyn_cast<Function>(I.getCalledOperand()->stripPointerCasts());
  if (I.isInlineAsm()) {
    // empty asm used as an optimisation barrier
    emit(I_NOP);
    return;
  }
  if (cf && cf->isIntrinsic()) {
    auto id = cf->getIntrinsicID();
    auto A = [&](int i, u32 l = 0) { return opnd(I.getArgOperand(i), l); };
    auto elementwise = [&](u16 op, int n) {
      const auto &ls = leaves(rt);
      for (u32 l = 0; l < ls.size(); l++) emit(op, ls[l].w, d + l, A(0, l), n > 1 ? A(1, l) : 0, n > 2 ? A(2, l) : 0);
    };
    unsigned w0 = I.arg_size() && !leaves(I.getArgOperand(0)->getType()).empty() ? ew(I.getArgOperand(0)->getType()) : 0;
    switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
    case Intrinsic::sideeffect: case Intrinsic::prefetch: case Intrinsic::donothing:
    case Intrinsic::invariant_start: case Intrinsic::invariant_end:
      return;
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: emit(I_BUILTIN, 0, -1, A(0), A(1), A(2), B_MEMCPY); return;
    case Intrinsic::memmove: emit(I_BUILTIN, 0, -1, A(0), A(1), A(2), B_MEMMOVE); return;
    case Intrinsic::memset: emit(I_BUILTIN, 0, -1, A(0), A(1), A(2), B_MEMSET); return;
    case Intrinsic::trap: emit(I_BUILTIN, 0, -1, 0, 0, 0, B_ABORT); return;
    case Intrinsic::expect: emit(I_MOV, 0, d, A(0)); return;
    case Intrinsic::uadd_with_overflow: emit(I_UADDO, w0, d, A(0), A(1)); return;
    case Intrinsic::usub_with_overflow: emit(I_USUBO, w0, d, A(0), A(1)); return;
    case Intrinsic::umul_with_overflow: emit(I_UMULO, w0, d, A(0), A(1)); return;
    case Intrinsic::sadd_with_overflow: emit(I_SADDO, w0, d, A(0), A(1)); return;
    case Intrinsic::ssub_with_overflow: emit(I_SSUBO, w0, d, A(0), A(1)); return;
    case Intrinsic::smul_with_overflow: emit(I_SMULO, w0, d, A(0), A(1)); return;
    case Intrinsic::umax: elementwise(I_UMAX, 2); return;
    case Intrinsic::umin: elementwise(I_UMIN, 2); return;
    case Intrinsic::smax: elementwise(I_SMAX, 2); return;
    case Intrinsic::smin: elementwise(I_SMIN, 2); return;
    case Intrinsic::uadd_sat: elementwise(I_UADDSAT, 2); return;
    case Intrinsic::usub_sat: elementwise(I_USUBSAT, 2); return;
    case Intrinsic::ctlz: elementwise(I_CTLZ, 1); return;
    case Intrinsic::cttz: elementwise(I_CTTZ, 1); return;
    case Intrinsic::ctpop: elementwise(I_CTPOP, 1); return;
    case Intrinsic::bswap: elementwise(I_BSWAP, 1); return;
    case Intrinsic::bitreverse: elementwise(I_BITREV, 1); return;
    case Intrinsic::abs: elementwise(I_ABS, 1); return;
    case Intrinsic::fshl: elementwise(I_FSHL, 3); return;
    case Intrinsic::fshr: elementwise(I_FSHR, 3); return;
    case Intrinsic::vector_reduce_add: {
      const auto &ls = leaves(I.getArgOperand(0)->getType());
      emit(I_MOV, 0, d, A(0, 0));
      for (u32 l = 1; l < ls.size(); l++) emit(I_ADD, ls[l].w, d, d, A(0, l));
      return;
    }
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor:
    case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_smax:
    case Intrinsic::vector_reduce_smin: {
      auto id = cf->getIntrinsicID();
      u16 op = id == Intrinsic::vector_reduce_or ? I_OR : id == Intrinsic::vector_reduce_and ? I_AND : id == Intrinsic::vector_reduce_xor ? I_XOR
             : id == Intrinsic::vector_reduce_umax ? I_UMAX : id == Intrinsic::vector_reduce_umin ? I_UMIN
             : id == Intrinsic::vector_reduce_smax ? I_SMAX : I_SMIN;
      const auto &ls = leaves(I.getArgOperand(0)->getType());
      emit(I_MOV, 0, d, A(0, 0));
      for (u32 l = 1; l < ls.size(); l++) emit(op, ls[l].w, d, d, A(0, l));
      return;
    }
    default:
      if (cf->getName() == "llvm.x86.sse2.pause") return;
      trap("intrinsic " + cf->getName().str());
      return;
    }
  }
  u32 xo = XS.size(), n = 0;
  vector<i32> args;
  for (auto &a : I.args()) {
    u32 nl = leaves(a->getType()).size();
    for (u32 l = 0; l < nl; l++) args.push_back(opnd(a.get(), l));
  }
  for (i32 a : args) { XS.push_back(a); n++; }
  if (cf) {
    Fn *t = fnOf[cf];
    if (t->bi != B_NONE) {
      emit(I_BUILTIN, n, d, n > 0 ? args[0] : 0, n > 1 ? args[1] : 0, n > 2 ? args[2] : 0, t->bi | ((u64)t->idx << 16));
      fn->code.back().w = (n > 3) ? 1 : 0;
      if (n > 3) { fn->code.push_back({I_NOP, 0, 0, args[3], 0, 0, 0}); }
      return;
    }
    emit(I_CALL, n, d, (i32)xo, (i32)t->idx);
  } else emit(I_CALLI, n, d, (i32)xo, opnd(I.getCalledOperand()));
}

void Decoder::ins(const Instruction &I) {
  Type *T = I.getType();
  switch (I.getOpcode()) {
  case Instruction::PHI: dst(&I); return;
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
  case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
    if (T->isIntegerTy() && T->getIntegerBitWidth() > 64) {
      i32 d = dst(&I);
      (void)d;
      if (I.getOpcode() == Instruction::Xor || I.getOpcode() == Instruction::Or || I.getOpcode() == Instruction::And) {
        u16 op = I.getOpcode() == Instruction::Xor ? I_XOR : I.getOpcode() == Instruction::Or ? I_OR : I_AND;
        const auto &ls = leaves(T);
        for (u32 l = 0; l < ls.size(); l++) emit(op, ls[l].w, d + l, opnd(I.getOperand(0), l), opnd(I.getOperand(1), l));
        return;
      }
      const auto &ls = leaves(T);
      if (ls.size() != 2) { trap("wide arithmetic"); return; }
      i32 t = newSlots(4);
      for (u32 o = 0; o < 2; o++)
        for (u32 l = 0; l < 2; l++) emit(I_MOV, 0, t + 2 * o + l, opnd(I.getOperand(o), l));
      emit(I_WIDE, T->getIntegerBitWidth(), d, t, 0, 0, I.getOpcode());
      return;
    }
    static const std::map<unsigned, u16> m = {
        {Instruction::Add, I_ADD}, {Instruction::Sub, I_SUB}, {Instruction::Mul, I_MUL}, {Instruction::UDiv, I_UDIV},
        {Instruction::SDiv, I_SDIV}, {Instruction::URem, I_UREM}, {Instruction::SRem, I_SREM}, {Instruction::And, I_AND},
        {Instruction::Or, I_OR}, {Instruction::Xor, I_XOR}, {Instruction::Shl, I_SHL}, {Instruction::LShr, I_LSHR},
        {Instruction::AShr, I_ASHR}};
    i32 d = dst(&I);
    const auto &ls = leaves(T);
    for (u32 l = 0; l < ls.size(); l++)
      emit(m.at(I.getOpcode()), ls[l].w, d + l, opnd(I.getOperand(0), l), opnd(I.getOperand(1), l));
    return;
  }
  case Instruction::ICmp: {
    auto &C = cast<ICmpInst>(I);
    Type *ot = C.getOperand(0)->getType();
    i32 d = dst(&I);
    if (ot->isIntegerTy() && ot->getIntegerBitWidth() > 64) {
      const auto &ls = leaves(ot);
      if (ls.size() != 2) { trap("wide icmp"); return; }
      if (!C.isEquality()) {
        i32 t = newSlots(4);
        for (u32 o = 0; o < 2; o++)
          for (u32 l = 0; l < 2; l++) emit(I_MOV, 0, t + 2 * o + l, opnd(C.getOperand(o), l));
        emit(I_WIDE, ot->getIntegerBitWidth(), d, t, 0, 0, 1000 + C.getPredicate());
        return;
      }
      i32 t = newSlots(1);
      emit(I_EQ, 64, t, opnd(C.getOperand(0), 0), opnd(C.getOperand(1), 0));
      emit(I_EQ, 64, d, opnd(C.getOperand(0), 1), opnd(C.getOperand(1), 1));
      emit(I_AND, 1, d, d, t);
      if (C.getPredicate() == CmpInst::ICMP_NE) emit(I_XOR, 1, d, d, kval(1));
      return;
    }
    u16 op;
    switch (C.getPredicate()) {
    case CmpInst::ICMP_EQ: op = I_EQ; break;
    case CmpInst::ICMP_NE: op = I_NE; break;
    case CmpInst::ICMP_ULT: op = I_ULT; break;
    case CmpInst::ICMP_ULE: op = I_ULE; break;
    case CmpInst::ICMP_UGT: op = I_UGT; break;
    case CmpInst::ICMP_UGE: op = I_UGE; break;
    case CmpInst::ICMP_SLT: op = I_SLT; break;
    case CmpInst::ICMP_SLE: op = I_SLE; break;
    case CmpInst::ICMP_SGT: op = I_SGT; break;
    default: op = I_SGE; break;
    }
    const auto &ls = leaves(ot);
    for (u32 l = 0; l < ls.size(); l++) emit(op, ls[l].w, d + l, opnd(C.getOperand(0), l), opnd(C.getOperand(1), l));
    return;
  }
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
    Type *ft = I.getOperand(0)->getType();
    i32 d = dst(&I);
    auto wide = [](Type *t) { return t->isIntegerTy() && t->getIntegerBitWidth() > 64; };
    if (wide(ft) || wide(T)) {
      if (I.getOpcode() == Instruction::Trunc && !wide(T)) { emit(I_TRUNC, T->getIntegerBitWidth(), d, opnd(I.getOperand(0), 0), 64); return; }
      if (I.getOpcode() == Instruction::ZExt && !wide(ft)) {
        emit(I_ZEXT, 64, d, opnd(I.getOperand(0), 0), ft->getIntegerBitWidth());
        emit(I_MOV, 0, d + 1, kval(0));
        return;
      }
      if (I.getOpcode() == Instruction::SExt && !wide(ft)) {
        unsigned hw = leaves(T)[1].w;
        emit(I_SEXT, 64, d, opnd(I.getOperand(0), 0), ft->getIntegerBitWidth());
        emit(I_ASHR, 64, d + 1, d, kval(63));
        if (hw < 64) emit(I_TRUNC, hw, d + 1, d + 1, 64);
        return;
      }
      trap("wide cast");
      return;
    }
    const auto &fl = leaves(ft), &tl = leaves(T);
    u16 op = I.getOpcode() == Instruction::Trunc ? I_TRUNC : I.getOpcode() == Instruction::ZExt ? I_ZEXT : I_SEXT;
    for (u32 l = 0; l < tl.size(); l++) emit(op, tl[l].w, d + l, opnd(I.getOperand(0), l), fl[l].w);
    return;
  }
  case Instruction::PtrToInt: {
    i32 d = dst(&I);
    unsigned w = ew(T);
    emit(w < 64 ? I_TRUNC : I_MOV, w, d, opnd(I.getOperand(0)), 64);
    return;
  }
  case Instruction::IntToPtr: {
    i32 d = dst(&I);
    unsigned w = ew(I.getOperand(0)->getType());
    emit(w < 64 ? I_ZEXT : I_MOV, 64, d, opnd(I.getOperand(0)), w);
    return;
  }
  case Instruction::Freeze: case Instruction::BitCast: {
    const auto &fl = leaves(I.getOperand(0)->getType()), &tl = leaves(T);
    i32 d = dst(&I);
    if (fl.size() != tl.size() || (fl.size() && fl[0].w != tl[0].w)) {
      // repack, bit by bit (little endian)
      u32 fb = 0, tb = 0;
      for (auto &x : fl) fb += x.w;
      for (auto &x : tl) tb += x.w;
      if (fb == tb) {
        u32 lo = 0;
        for (u32 l = 0; l < tl.size(); lo += tl[l].w, l++) {
          u32 tw = tl[l].w, s0 = 0;
          emit(I_MOV, 0, d + l, kval(0));
          for (u32 k = 0; k < fl.size(); s0 += fl[k].w, k++) {
            u32 fw = fl[k].w;
            if (s0 + fw <= lo || s0 >= lo + tw) continue;
            i32 t = newSlots(1);
            i32 src = opnd(I.getOperand(0), k);
            emit(I_MOV, 0, t, src);
            if (s0 < lo) emit(I_LSHR, fw, t, t, kval(lo - s0));
            if (fw > tw) emit(I_TRUNC, tw, t, t, fw);
            else if (fw < tw) emit(I_ZEXT, tw, t, t, fw);
            if (s0 > lo) emit(I_SHL, tw, t, t, kval(s0 - lo));
            emit(I_OR, tw, d + l, d + l, t);
          }
        }
        return;
      }
      trap("bitcast");
      return;
    }
    for (u32 l = 0; l < fl.size(); l++) emit(I_MOV, 0, d + l, opnd(I.getOperand(0), l));
    return;
  }
  case Instruction::Select: {
    const auto &ls = leaves(T);
    bool vc = I.getOperand(0)->getType()->isVectorTy();
    i32 d = dst(&I);
    for (u32 l = 0; l < ls.size(); l++)
      emit(I_SELECT, ls[l].w, d + l, opnd(I.getOperand(0), vc ? l : 0), opnd(I.getOperand(1), l), opnd(I.getOperand(2), l), ls[l].ptr);
    return;
  }
  case Instruction::GetElementPtr: gep(cast<GEPOperator>(I), dst(&I)); return;
  case Instruction::Load: {
    const auto &ls = leaves(T);
    i32 d = dst(&I), p = opnd(I.getOperand(0));
    if (auto *vt = dyn_cast<FixedVectorType>(T))
      if (DL->getTypeSizeInBits(vt->getElementType()) % 8) { trap("bit vector load"); return; }
    // destination may not alias the pointer operand in SSA form
    for (u32 l = 0; l < ls.size(); l++) emit(I_LOAD, ls[l].w, d + l, p, 0, 0, ls[l].off);
    return;
  }
  case Instruction::Store: {
    Type *vt = I.getOperand(0)->getType();
    const auto &ls = leaves(vt);
    i32 p = opnd(I.getOperand(1));
    for (u32 l = 0; l < ls.size(); l++) emit(I_STORE, ls[l].w, 0, p, opnd(I.getOperand(0), l), 0, ls[l].off);
    return;
  }
  case Instruction::Alloca: {
    auto &A = cast<AllocaInst>(I);
    auto *n = dyn_cast<ConstantInt>(A.getArraySize());
    if (!n) { trap("dynamic alloca"); return; }
    u64 sz = DL->getTypeAllocSize(A.getAllocatedType()) * n->getZExtValue();
    u64 al = std::max<u64>(16, A.getAlign().value());
    fn->frameBytes = (fn->frameBytes + al - 1) & ~(al - 1);
    emit(I_ALLOCA, 0, dst(&I), 0, 0, 0, fn->frameBytes);
    fn->frameBytes += sz;
    return;
  }
  case Instruction::Br: {
    auto &B = cast<BranchInst>(I);
    if (B.isUnconditional()) emit(I_BR, 0, 0, edge(I.getParent(), B.getSuccessor(0)));
    else {
      i32 c = opnd(B.getCondition());
      u32 t = edge(I.getParent(), B.getSuccessor(0)), f = edge(I.getParent(), B.getSuccessor(1));
      emit(I_CBR, 0, 0, c, t, f);
    }
    return;
  }
  case Instruction::Switch: {
    auto &Sw = cast<SwitchInst>(I);
    SwitchT *st = new SwitchT;
    std::unordered_map<const BasicBlock *, u32> em;
    auto eg = [&](const BasicBlock *b) {
      auto it = em.find(b);
      if (it != em.end()) return it->second;
      return em[b] = edge(I.getParent(), b);
    };
    st->def = eg(Sw.getDefaultDest());
    for (auto &c : Sw.cases()) {
      u64 v = c.getCaseValue()->getZExtValue();
      u32 e = eg(c.getCaseSuccessor());
      st->map[v] = e;
      st->cases.push_back({v, e});
    }
    u64 mx = 0;
    for (auto &c : st->cases) mx = std::max(mx, c.first);
    if (mx < 512) {
      st->dense.assign(mx + 1, st->def);
      for (auto &c : st->cases) st->dense[c.first] = c.second;
    }
    SWT.push_back(st);
    emit(I_SWITCH, ew(Sw.getCondition()->getType()), 0, opnd(Sw.getCondition()), 0, 0, SWT.size() - 1);
    return;
  }
  case Instruction::Ret: {
    if (I.getNumOperands() == 0) { emit(I_RET, 0); return; }
    const auto &ls = leaves(I.getOperand(0)->getType());
    u32 xo = XS.size();
    vector<i32> t;
    for (u32 l = 0; l < ls.size(); l++) t.push_back(opnd(I.getOperand(0), l));
    for (i32 x : t) XS.push_back(x);
    emit(I_RET, ls.size(), 0, xo);
    return;
  }
  case Instruction::Call: call(cast<CallBase>(I)); return;
  case Instruction::Invoke: {
    call(cast<CallBase>(I));
    emit(I_BR, 0, 0, edge(I.getParent(), cast<InvokeInst>(I).getNormalDest()));
    return;
  }
  case Instruction::LandingPad: case Instruction::Resume: case Instruction::CleanupPad: dst(&I); trap("unwind"); return;
  case Instruction::Unreachable: emit(I_UNREACH); return;
  case Instruction::ExtractValue: {
    auto &E = cast<ExtractValueInst>(I);
    Type *t = E.getAggregateOperand()->getType();
    u32 pos = 0;
    for (unsigned ix : E.indices()) {
      for (unsigned i = 0; i < ix; i++) pos += leaves(ExtractValueInst::getIndexedType(t, {i})).size();
      t = ExtractValueInst::getIndexedType(t, {ix});
    }
    u32 n = leaves(t).size();
    i32 d = dst(&I);
    for (u32 l = 0; l < n; l++) emit(I_MOV, 0, d + l, opnd(E.getAggregateOperand(), pos + l));
    return;
  }
  case Instruction::InsertValue: {
    auto &E = cast<InsertValueInst>(I);
    Type *t = E.getAggregateOperand()->getType();
    u32 pos = 0;
    for (unsigned ix : E.indices()) {
      for (unsigned i = 0; i < ix; i++) pos += leaves(ExtractValueInst::getIndexedType(t, {i})).size();
      t = ExtractValueInst::getIndexedType(t, {ix});
    }
    u32 n = leaves(t).size(), tot = leaves(T).size();
    i32 d = dst(&I);
    for (u32 l = 0; l < tot; l++)
      emit(I_MOV, 0, d + l, l >= pos && l < pos + n ? opnd(E.getInsertedValueOperand(), l - pos) : opnd(E.getAggregateOperand(), l));
    return;
  }
  case Instruction::ExtractElement: {
    auto *ci = dyn_cast<ConstantInt>(I.getOperand(1));
    i32 d = dst(&I);
    if (!ci) { trap("extractelement"); return; }
    emit(I_MOV, 0, d, opnd(I.getOperand(0), ci->getZExtValue()));
    return;
  }
  case Instruction::InsertElement: {
    auto *ci = dyn_cast<ConstantInt>(I.getOperand(2));
    i32 d = dst(&I);
    if (!ci) { trap("insertelement"); return; }
    u32 tot = leaves(T).size();
    for (u32 l = 0; l < tot; l++) emit(I_MOV, 0, d + l, l == ci->getZExtValue() ? opnd(I.getOperand(1)) : opnd(I.getOperand(0), l));
    return;
  }
  case Instruction::ShuffleVector: {
    auto &SV = cast<ShuffleVectorInst>(I);
    u32 n = leaves(SV.getOperand(0)->getType()).size();
    i32 d = dst(&I);
    u32 tot = leaves(T).size();
    for (u32 l = 0; l < tot; l++) {
      int mI = SV.getMaskValue(l);
      if (mI < 0) emit(I_MOV, 0, d + l, kval(0));
      else emit(I_MOV, 0, d + l, (u32)mI < n ? opnd(SV.getOperand(0), mI) : opnd(SV.getOperand(1), mI - n));
    }
    return;
  }
  case Instruction::AtomicRMW: {
    auto &A = cast<AtomicRMWInst>(I);
    unsigned w = ew(T);
    u16 op;
    switch (A.getOperation()) {
    case AtomicRMWInst::Xchg: op = I_MOV; break;
    case AtomicRMWInst::Add: op = I_ADD; break;
    case AtomicRMWInst::Sub: op = I_SUB; break;
    case AtomicRMWInst::And: op = I_AND; break;
    case AtomicRMWInst::Or: op = I_OR; break;
    case AtomicRMWInst::Xor: op = I_XOR; break;
    default: dst(&I); trap("atomicrmw"); return;
    }
    i32 d = dst(&I), t = newSlots(1), p = opnd(I.getOperand(0)), v = opnd(I.getOperand(1));
    emit(I_LOAD, w, d, p);
    if (op == I_MOV) emit(I_MOV, 0, t, v);
    else emit(op, w, t, d, v);
    emit(I_STORE, w, 0, p, t);
    return;
  }
  case Instruction::AtomicCmpXchg: {
    unsigned w = leaves(T)[0].w;
    i32 d = dst(&I), t = newSlots(1), p = opnd(I.getOperand(0));
    emit(I_LOAD, w, d, p);
    emit(I_EQ, w, d + 1, d, opnd(I.getOperand(1)));
    emit(I_SELECT, w, t, d + 1, opnd(I.getOperand(2)), d, 0);
    emit(I_STORE, w, 0, p, t);
    return;
  }
  case Instruction::Fence: return;
  default:
    if (!T->isVoidTy()) dst(&I);
    trap(string("instruction ") + I.getOpcodeName());
    return;
  }
}

void Decoder::decode(Fn *f) {
  fn = f;
  for (auto &a : f->F->args()) slot[&a] = newSlots(leaves(a.getType()).size());
  f->nargs = next;
  f->nret = leaves(f->F->getReturnType()).size();
  for (auto &B : *f->F) {
    bpc[&B] = f->code.size();
    for (auto &I : B) {
      ins(I);
      f->src.resize(f->code.size(), &I);
    }
  }
  for (auto &fx : fix) {
    Edge &e = EDGES[fx.first];
    const BasicBlock *from = fx.second.first, *to = fx.second.second;
    e.pc = bpc[to];
    vector<std::pair<i32, i32>> mv;
    for (auto &ph : to->phis()) {
      const Value *v = ph.getIncomingValueForBlock(from);
      if (isa<UndefValue>(v)) continue;
      u32 n = leaves(ph.getType()).size();
      for (u32 l = 0; l < n; l++) {
        i32 s = opnd(v, l), d = dst(&ph) + l;
        if (s != d) mv.push_back({d, s});
      }
    }
    Edge &e2 = EDGES[fx.first];
    e2.mvOff = XS.size();
    e2.mvCnt = mv.size();
    // can the moves be done sequentially in this order?
    bool ok = true;
    for (size_t i = 0; i < mv.size() && ok; i++)
      for (size_t j = i + 1; j < mv.size(); j++)
        if (mv[j].second == mv[i].first) { ok = false; break; }
    e2.simple = ok;
    for (auto &m : mv) { XS.push_back(m.first); XS.push_back(m.second); }
  }
  f->nslots = next;
  f->frameBytes = (f->frameBytes + 63) & ~63ULL;
  f->decoded = true;
}

// ---------------------------------------------------------------- machine state
struct Frame { Fn *fn; u32 base, pc; u64 sp; i32 retSlot; };
static Val *REGS;
static u32 regTop = 0;
static const u32 REG_MAX = 4 << 20;
static vector<Frame> frames;
static u64 icount = 0, icountBase = 0;
static vector<Val> obs; // observed bytes of this path
static vector<u64> pathCovers;

struct Alt { u64 val; Expr *cons; u64 mask; vector<u64> mod; };
struct Choice {
  Expr *e;
  vector<Alt> alts;
  vector<Val> regs;
  vector<Frame> frames;
  u64 stackTop, heapTop;
  u32 shTop, markStack, markHeap;
  size_t logMark, pcN, knownN, obsN;
  u64 bound, icount;
  u32 nvars;
  u64 model[MAXVARS];
  u8 varW[MAXVARS];
  u32 ncover;
};
static vector<Choice *> choices;
static vector<Choice *> choicePool;
static int maxWorkers = 8;
static u64 pathInstrLimit = 100000000, pathHeapLimit = 200ull << 20;
static u64 lastForkNs = 0;
static int mySlot = 0;
static u64 localPaths = 0, localForks = 0, localInstr = 0, localDecided = 0;
static double deadline = 0;
static vector<u32> params;
static u8 *execMap;
static u32 maxViol = 24;
static u32 sampleEvery = 1024;

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static void flushStats() {
  SH->paths.fetch_add(localPaths);
  SH->instrs.fetch_add(localInstr);
  SH->forks.fetch_add(localForks);
  SH->decided.fetch_add(localDecided);
  localPaths = localInstr = localForks = localDecided = 0;
}
static void finishProcess() {
  flushStats();
  SH->slots[mySlot].store(0);
  SH->active.fetch_sub(1);
  _exit(0);
}

static void undoTo(Choice *c) {
  while (memLog.size() > c->logMark) {
    LogEnt &l = memLog.back();
    memcpy((void *)(ARENA + ((u64)l.chunk << 6)), l.bytes, 64);
    shadowA[l.chunk] = l.shadow;
    memLog.pop_back();
  }
  stackTop = c->stackTop;
  heapTop = c->heapTop;
  shTop = c->shTop;
  frames = c->frames;
  regTop = c->regs.size();
  memcpy(REGS, c->regs.data(), regTop * sizeof(Val));
  while (S.knownTrail.size() > c->knownN) {
    S.knownTrail.back()->known = 0;
    S.knownTrail.pop_back();
  }
  S.pc.resize(c->pcN);
  S.bound = c->bound;
  S.nvars = c->nvars;
  memcpy(S.model, c->model, sizeof S.model);
  memcpy(S.varW, c->varW, sizeof S.varW);
  S.modelVer++;
  icount = c->icount;
  obs.resize(c->obsN);
  pathCovers.resize(c->ncover);
}
static void refreshMarks() {
  curEpoch++;
  if (choices.empty()) { markStack = markHeap = 0; return; }
  Choice *c = choices.back();
  markStack = c->markStack;
  markHeap = c->markHeap;
}
// take the next alternative; false when nothing is left
static bool backtrack() {
  for (;;) {
    if (SH->stop.load(std::memory_order_relaxed)) return false;
    if (choices.empty()) return false;
    Choice *c = choices.back();
    if (c->alts.empty()) {
      choices.pop_back();
      choicePool.push_back(c);
      continue;
    }
    undoTo(c);
    Alt a = std::move(c->alts.back());
    c->alts.pop_back();
    Expr *e = c->e;
    if (c->alts.empty()) {
      choices.pop_back();
      choicePool.push_back(c);
    }
    refreshMarks();
    S.setKnown(e, a.val);
    S.assertTrue(a.cons, a.mask, a.mod.data());
    return true;
  }
}

static void trySteal() {
  if (SH->active.load(std::memory_order_relaxed) >= maxWorkers) return;
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  u64 t = ts.tv_sec * 1000000000ULL + ts.tv_nsec;
  if (t - lastForkNs < 15000000ULL) return;
  size_t i = 0;
  while (i < choices.size() && choices[i]->alts.empty()) i++;
  if (i >= choices.size()) return;
  int a = SH->active.fetch_add(1);
  if (a >= maxWorkers) { SH->active.fetch_sub(1); return; }
  lastForkNs = t;
  int slot = -1;
  for (int s = 1; s < 64; s++) {
    int z = 0;
    if (SH->slots[s].compare_exchange_strong(z, -1)) { slot = s; break; }
  }
  if (slot < 0) { SH->active.fetch_sub(1); return; }
  Choice *c = choices[i];
  size_t n = c->alts.size(), k = (n + 1) / 2;
  vector<Alt> stolen(c->alts.begin(), c->alts.begin() + k);
  flushStats();
  pid_t p = fork();
  if (p < 0) { SH->slots[slot].store(0); SH->active.fetch_sub(1); return; }
  if (p == 0) {
    mySlot = slot;
    SH->slots[slot].store(getpid());
    SH->pids.fetch_add(1);
    choices.resize(i + 1);
    c->alts = stolen;
    throw Trap{100}; // abandon the current path in the child
  }
  c->alts.erase(c->alts.begin(), c->alts.begin() + k);
}

// decide the value of a symbolic expression on this path, forking as needed.
// cands: canonical candidate values (may be null: enumerate through models)
static const u32 MAXDEPTH = 300, MAXMIX = 2;
static u64 concretize(Expr *e, const vector<u64> *cands = nullptr);
// for what is too much for a solver: decide the inputs themselves
static u64 concretizeInputs(Expr *e) {
  u64 v;
  for (int i = 0; i < MAXVARS; i++)
    if (e->vars & ~S.bound & 1ULL << i) concretize(ET.get(E_VAR, S.varW[i], i), nullptr);
  if (!S.value(e, v)) engineError("internal: inputs decided, value open");
  return v;
}
static u64 concretize(Expr *e, const vector<u64> *cands) {
  u64 v;
  if (S.value(e, v)) return v;
  if (e->depth > MAXDEPTH || e->mixes > MAXMIX) return concretizeInputs(e);
  localDecided++;
  S.soft = e->op != E_VAR;
  S.gaveUp = false;
  vector<Alt> alts;
  u64 cur = S.eval(e);
  u64 tmp[MAXVARS], mask;
  if (e->w == 1 || cands) {
    static const vector<u64> b01 = {0, 1};
    const vector<u64> &cs = e->w == 1 ? b01 : *cands;
    for (u64 k : cs) {
      Expr *c = mkEQ(e, eC(k, e->w));
      if (k == cur) { alts.push_back({k, c, 0, {}}); continue; }
      if (c->kconst) { if (c->imm) engineError("internal: candidate"); continue; }
      u64 kv;
      if (S.value(c, kv)) continue; // known false (cur satisfies another)
      if (S.query(c, tmp, mask)) alts.push_back({k, c, mask, vector<u64>(tmp, tmp + MAXVARS)});
    }
  } else {
    alts.push_back({cur, mkEQ(e, eC(cur, e->w)), 0, {}});
    Expr *not_ = mkNOT(alts[0].cons);
    while (!not_->kconst && S.query(not_, tmp, mask)) {
      u64 save[MAXVARS];
      memcpy(save, S.model, sizeof save);
      for (int i = 0; i < MAXVARS; i++)
        if (mask >> i & 1) S.model[i] = tmp[i];
      S.modelVer++;
      u64 nv = S.eval(e);
      memcpy(S.model, save, sizeof save);
      S.modelVer++;
      Expr *c = mkEQ(e, eC(nv, e->w));
      alts.push_back({nv, c, mask, vector<u64>(tmp, tmp + MAXVARS)});
      not_ = mk(E_AND, not_, mkNOT(c));
      if (alts.size() > 150 && e->op != E_VAR && __builtin_popcountll(e->vars & ~S.bound) == 1) { // one input anyway
        S.soft = false;
        return concretizeInputs(e);
      }
      if (alts.size() > 2000) engineError("more than 2000 values for a symbolic expression");
    }
    std::sort(alts.begin(), alts.end(), [](const Alt &x, const Alt &y) { return x.val < y.val; });
  }
  S.soft = false;
  if (S.gaveUp) { S.gaveUp = false; return concretizeInputs(e); }
  if (alts.size() == 1) {
    S.setKnown(e, alts[0].val);
    if (e->op == E_VAR) S.bound |= 1ULL << e->imm;
    return alts[0].val;
  }
  localForks += alts.size() - 1;
  Choice *c;
  if (choicePool.empty()) c = new Choice;
  else { c = choicePool.back(); choicePool.pop_back(); }
  c->e = e;
  c->regs.assign(REGS, REGS + regTop);
  c->frames = frames;
  c->stackTop = stackTop; c->heapTop = heapTop; c->shTop = shTop;
  c->logMark = memLog.size();
  c->pcN = S.pc.size(); c->knownN = S.knownTrail.size(); c->obsN = obs.size();
  c->bound = S.bound; c->icount = icount; c->nvars = S.nvars;
  memcpy(c->model, S.model, sizeof S.model);
  memcpy(c->varW, S.varW, sizeof S.varW);
  c->ncover = pathCovers.size();
  c->markStack = chunkOf(stackTop + 63);
  c->markHeap = chunkOf(heapTop + 63);
  if (!choices.empty()) { // what an older choice restores must be logged too
    c->markStack = std::max(c->markStack, choices.back()->markStack);
    c->markHeap = std::max(c->markHeap, choices.back()->markHeap);
  }
  Alt first = std::move(alts[0]);
  c->alts.assign(std::make_move_iterator(alts.rbegin()), std::make_move_iterator(alts.rend() - 1));
  choices.push_back(c);
  trySteal();
  refreshMarks();
  S.setKnown(e, first.val);
  S.assertTrue(first.cons, first.mask, first.mod.data());
  return first.val;
}

static inline u64 conc(const Val &v) { return v.e ? concretize(v.e) : v.v; }
// normalise: drop the expression if its value is determined
static inline Val norm(Val v) {
  u64 x;
  if (v.e && S.value(v.e, x)) return {x, nullptr};
  return v;
}
static inline Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : eC(v.v, w); }
static inline Val fromE(Expr *e) {
  if (e->kconst) return {e->imm, nullptr};
  u64 x;
  if (S.value(e, x)) return {x, nullptr};
  return {0, e};
}

static const char *ubWhy = "";
static u64 ubA, ubB;
static void badAccess(u64 a, u64 n, const char *k) {
  ubWhy = "bad access"; ubA = a; ubB = n;
  throw Trap{V_UB};
  (void)a; (void)n; (void)k;
}
static inline void checkRange(u64 a, u64 n) {
  if (__builtin_expect(a - ARENA >= ARENA_SZ || a - ARENA + n > ARENA_SZ || a < ARENA + 64, 0)) badAccess(a, n, "access");
}

static Expr *loadSym(u64 a, unsigned nb) { // any symbolic byte -> expression of nb*8 bits, else null
  bool any = false;
  u64 ea = a + nb;
  for (u32 c = chunkOf(a); c <= chunkOf(ea - 1); c++)
    if (shadowA[c]) { any = true; break; }
  if (!any) return nullptr;
  Expr *by[8];
  any = false;
  for (unsigned i = 0; i < nb; i++) {
    u32 c = chunkOf(a + i);
    by[i] = shadowA[c] ? shPool[shadowA[c]].e[(a + i) & 63] : nullptr;
    if (by[i]) {
      u64 v;
      if (S.value(by[i], v)) by[i] = eC(v, 8);
      else any = true;
    }
  }
  if (!any) {
    // all known: still need the right values
    u64 v = 0;
    for (unsigned i = 0; i < nb; i++) v |= (by[i] ? by[i]->imm : (u64) * (u8 *)(a + i)) << (8 * i);
    return eC(v, nb * 8);
  }
  Expr *r = nullptr;
  for (int i = nb - 1; i >= 0; i--) {
    Expr *b = by[i] ? by[i] : eC(*(u8 *)(a + i), 8);
    r = r ? mkCONCAT(r, b) : b;
  }
  return r;
}
static inline u64 rdRaw(u64 a, unsigned nb) {
  switch (nb) {
  case 1: return *(u8 *)a;
  case 2: { u16 x; memcpy(&x, (void *)a, 2); return x; }
  case 4: { u32 x; memcpy(&x, (void *)a, 4); return x; }
  case 8: { u64 x; memcpy(&x, (void *)a, 8); return x; }
  default: { u64 x = 0; memcpy(&x, (void *)a, nb); return x; }
  }
}
static inline Val memLoad(u64 a, unsigned w) {
  unsigned nb = (w + 7) >> 3;
  checkRange(a, nb);
  u32 c0 = chunkOf(a), c1 = chunkOf(a + nb - 1);
  if (__builtin_expect(shadowA[c0] | shadowA[c1], 0)) {
    if (Expr *e = loadSym(a, nb)) {
      if (w < nb * 8) e = mkEXTRACT(e, 0, w);
      return fromE(e);
    }
  }
  u64 v = rdRaw(a, nb);
  if (w & 7) v &= maskw(w);
  return {v, nullptr};
}
static inline void clearShadow(u64 a, unsigned nb) {
  for (unsigned i = 0; i < nb; i++) {
    u32 c = chunkOf(a + i);
    if (shadowA[c]) shPool[shadowA[c]].e[(a + i) & 63] = nullptr;
  }
}
static void checkWritable(u64 a) {
  if (a < globConstEnd) { ubWhy = "write to constant"; throw Trap{V_UB}; }
}
static inline void memStore(u64 a, unsigned w, Val v) {
  unsigned nb = (w + 7) >> 3;
  checkRange(a, nb);
  if (__builtin_expect(a < globConstEnd, 0)) checkWritable(a);
  u32 c0 = chunkOf(a), c1 = chunkOf(a + nb - 1);
  touch(c0);
  if (c1 != c0) touch(c1);
  if (__builtin_expect(v.e != nullptr, 0)) {
    Expr *e = v.e;
    if (w < nb * 8) e = mkZEXT(e, nb * 8);
    for (unsigned i = 0; i < nb; i++) {
      Expr *b = mkEXTRACT(e, i * 8, 8);
      u32 c = chunkOf(a + i);
      if (b->kconst) {
        *(u8 *)(a + i) = b->imm;
        if (shadowA[c]) shPool[shadowA[c]].e[(a + i) & 63] = nullptr;
      } else shadowOf(c)->e[(a + i) & 63] = b;
    }
    return;
  }
  if (__builtin_expect(shadowA[c0] | shadowA[c1], 0)) clearShadow(a, nb);
  switch (nb) {
  case 1: *(u8 *)a = v.v; break;
  case 2: { u16 x = v.v; memcpy((void *)a, &x, 2); break; }
  case 4: { u32 x = v.v; memcpy((void *)a, &x, 4); break; }
  case 8: memcpy((void *)a, &v.v, 8); break;
  default: memcpy((void *)a, &v.v, nb);
  }
}
static void memMoveOp(u64 d, u64 s, u64 n) {
  if (!n) return;
  checkRange(d, n);
  checkRange(s, n);
  if (d < globConstEnd) checkWritable(d);
  bool sym = false;
  for (u32 c = chunkOf(s), e = chunkOf(s + n - 1); c <= e; c++)
    if (shadowA[c]) { sym = true; break; }
  bool dsym = false;
  for (u32 c = chunkOf(d), e = chunkOf(d + n - 1); c <= e; c++) {
    touch(c);
    if (shadowA[c]) dsym = true;
  }
  if (!sym) {
    memmove((void *)d, (void *)s, n);
    if (dsym)
      for (u32 c = chunkOf(d), e = chunkOf(d + n - 1); c <= e; c++)
        if (shadowA[c]) {
          u64 lo = ARENA + ((u64)c << 6);
          u64 f = std::max(lo, d), t = std::min(lo + 64, d + n);
          for (u64 x = f; x < t; x++) shPool[shadowA[c]].e[x & 63] = nullptr;
        }
    return;
  }
  static vector<Expr *> tmp;
  tmp.resize(n);
  for (u64 i = 0; i < n; i++) {
    u32 c = chunkOf(s + i);
    tmp[i] = shadowA[c] ? shPool[shadowA[c]].e[(s + i) & 63] : nullptr;
  }
  memmove((void *)d, (void *)s, n);
  for (u64 i = 0; i < n; i++) {
    u32 c = chunkOf(d + i);
    if (tmp[i]) shadowOf(c)->e[(d + i) & 63] = tmp[i];
    else if (shadowA[c]) shPool[shadowA[c]].e[(d + i) & 63] = nullptr;
  }
}
static Val byteAt(u64 a) { return memLoad(a, 8); }

static u64 heapAlloc(u64 n, u64 align, bool zero) {
  u64 hdr = std::max<u64>(align, 16);
  u64 start = heapTop;
  u64 p = start + hdr;
  if (align > 64) p = (p + align - 1) & ~(align - 1);
  u64 end = (p + n + 63) & ~63ULL;
  if (n > pathHeapLimit || end > HEAP0 + HEAP_SZ || end - HEAP0 > pathHeapLimit) throw Trap{V_MEM};
  for (u32 c = chunkOf(start), e = chunkOf(end - 1); c <= e; c++) {
    shadowA[c] = 0;
  }
  *(u64 *)(p - 8) = n;
  if (zero) memset((void *)p, 0, n);
  heapTop = end;
  return p;
}

// ---------------------------------------------------------------- results
static void record(Shared::Rec *arr, std::atomic<u32> &cnt, u32 max, u32 kind, u32 code, const char *what, u64 obsHash) {
  u32 i = cnt.fetch_add(1);
  if (i >= max) return;
  Shared::Rec &r = arr[i];
  r.kind = kind; r.code = code; r.n = S.nvars; r.obs = obsHash;
  for (u32 k = 0; k < S.nvars; k++) r.vals[k] = S.model[k];
  snprintf(r.what, sizeof r.what, "%s", what);
  r.done = 1;
}
static string where() {
  string s;
  int n = 0;
  for (size_t i = frames.size(); i-- > 0 && n < 6; n++) {
    string d = llvm::demangle(frames[i].fn->name);
    size_t h = d.rfind("::h");
    if (h != string::npos) d = d.substr(0, h);
    if (d.size() > 60) d = d.substr(0, 60);
    if (getenv("SYMX_DEBUG") && frames[i].pc < frames[i].fn->src.size()) {
      string t;
      raw_string_ostream o(t);
      frames[i].fn->src[frames[i].pc]->print(o);
      d += "{" + t + "}";
    }
    s += d + " < ";
  }
  return s;
}
static void violation(u32 kind, u32 code, const string &what) {
  record(SH->viol, SH->nviol, 64, kind, code, what.c_str(), 0);
  if (SH->nviol.load() >= maxViol) SH->stop = 1;
}
static void pathDone() {
  localPaths++;
  static u64 seq = 0;
  seq++;
  u64 mx = SH->maxInstr.load(std::memory_order_relaxed);
  while (icount > mx && !SH->maxInstr.compare_exchange_weak(mx, icount)) {}
  if (seq <= 3 || seq % sampleEvery == 0) {
    if (SH->nsamp.load() < 600) {
      u64 h = 0xcbf29ce484222325ULL;
      for (auto &b : obs) {
        u8 x = b.e ? (u8)S.eval(b.e) : (u8)b.v;
        h = (h ^ x) * 0x100000001b3ULL;
      }
      record(SH->samp, SH->nsamp, 600, 0, 0, "", h);
    }
  }
  if ((seq & 255) == 0) flushStats();
  if (deadline && (seq & 63) == 0 && now() > deadline) {
    engineError("time limit reached before the exploration was complete");
  }
}

// ---------------------------------------------------------------- interpreter
static void enter(Fn *f, u32 base, i32 retSlot) {
  if (!f->decoded) { Decoder d; d.decode(f); }
  if (!f->executed) { f->executed = 1; execMap[f->idx] = 1; }
  if (base + f->nslots + 16 > REG_MAX || frames.size() > 20000 || stackTop + f->frameBytes > HEAP0 - 4096) throw Trap{V_STACK};
  frames.push_back({f, base, 0, stackTop, retSlot});
  if (f->frameBytes) {
    for (u32 c = chunkOf(stackTop), e = chunkOf(stackTop + f->frameBytes - 1); c <= e; c++)
      if (shadowA[c]) { touch(c); shadowA[c] = 0; }
    stackTop += f->frameBytes;
  }
  for (u32 i = f->nargs; i < f->nslots; i++) REGS[base + i].e = nullptr;
  regTop = base + f->nslots;
}

static Val symBin(u16 op, unsigned w, Val a, Val b) {
  Expr *x = toE(a, w), *y = toE(b, w);
  switch (op) {
  case I_ADD: return fromE(mk(E_ADD, x, y));
  case I_SUB: return fromE(mk(E_SUB, x, y));
  case I_MUL: return fromE(mk(E_MUL, x, y));
  case I_UDIV: return fromE(mk(E_UDIV, x, y));
  case I_SDIV: return fromE(mk(E_SDIV, x, y));
  case I_UREM: return fromE(mk(E_UREM, x, y));
  case I_SREM: return fromE(mk(E_SREM, x, y));
  case I_AND: return fromE(mk(E_AND, x, y));
  case I_OR: return fromE(mk(E_OR, x, y));
  case I_XOR: return fromE(mk(E_XOR, x, y));
  case I_SHL: return fromE(mk(E_SHL, x, y));
  case I_LSHR: return fromE(mk(E_LSHR, x, y));
  case I_ASHR: return fromE(mk(E_ASHR, x, y));
  case I_EQ: return fromE(mkEQ(x, y));
  case I_NE: return fromE(mkNOT(mkEQ(x, y)));
  case I_ULT: return fromE(mkULT(x, y));
  case I_ULE: return fromE(mkNOT(mkULT(y, x)));
  case I_UGT: return fromE(mkULT(y, x));
  case I_UGE: return fromE(mkNOT(mkULT(x, y)));
  case I_SLT: return fromE(mkSLT(x, y));
  case I_SLE: return fromE(mkNOT(mkSLT(y, x)));
  case I_SGT: return fromE(mkSLT(y, x));
  case I_SGE: return fromE(mkNOT(mkSLT(x, y)));
  case I_UMAX: return fromE(mkITE(mkULT(x, y), y, x));
  case I_UMIN: return fromE(mkITE(mkULT(x, y), x, y));
  case I_SMAX: return fromE(mkITE(mkSLT(x, y), y, x));
  case I_SMIN: return fromE(mkITE(mkSLT(x, y), x, y));
  case I_UADDSAT: {
    Expr *s = mk(E_ADD, x, y);
    return fromE(mkITE(mkULT(s, x), eC(~0ULL, w), s));
  }
  case I_USUBSAT: return fromE(mkITE(mkULT(x, y), eC(0, w), mk(E_SUB, x, y)));
  }
  engineError("symBin");
  return {};
}

static bool constGlobRange(u64 a, u64 &lo, u64 &hi) {
  auto it = std::upper_bound(constGlobs.begin(), constGlobs.end(), std::make_pair(a, (u64)~0ULL));
  if (it == constGlobs.begin()) return false;
  --it;
  if (a >= it->first + it->second) return false;
  lo = it->first;
  hi = it->first + it->second;
  return true;
}
// load through a symbolic pointer: constant tables become an if-then-else over the index
static bool tableLoad(Expr *p, unsigned w, Val &out) {
  if (p->op != E_ADD || !isC(p->b) || w > 64) return false;
  u64 base = p->b->imm, lo, hi;
  if (!constGlobRange(base, lo, hi)) return false;
  Expr *ix = p->a;
  u64 scale = 1;
  if (ix->op == E_SHL && isC(ix->b)) { scale = 1ULL << ix->b->imm; ix = ix->a; }
  else if (ix->op == E_MUL && isC(ix->b)) { scale = ix->b->imm; ix = ix->a; }
  unsigned nb = (w + 7) / 8;
  u64 n = (hi - base) / scale;
  while (n && base + (n - 1) * scale + nb > hi) n--;
  if (n == 0 || n > 256) return false;
  u64 tmp[MAXVARS], mask;
  Expr *oob = mkNOT(mkULT(ix, eC(n, ix->w)));
  if (ix->w < 64 && (maskw(ix->w) < n)) oob = eFalse();
  if (!oob->kconst) {
    if (S.query(oob, tmp, mask)) return false;
  } else if (oob->imm) return false;
  // also guard against wrap in the scaled index
  std::map<u64, vector<u64>> groups;
  for (u64 j = 0; j < n; j++) groups[rdRaw(base + j * scale, nb) & maskw(w)].push_back(j);
  u64 big = 0;
  size_t bs = 0;
  for (auto &g : groups)
    if (g.second.size() > bs) { bs = g.second.size(); big = g.first; }
  Expr *r = eC(big, w);
  for (auto &g : groups) {
    if (g.first == big) continue;
    Expr *c = eFalse();
    for (size_t i = 0; i < g.second.size();) {
      size_t k = i;
      while (k + 1 < g.second.size() && g.second[k + 1] == g.second[k] + 1) k++;
      u64 x = g.second[i], y = g.second[k];
      Expr *t = x == y ? mkEQ(ix, eC(x, ix->w)) : mk(E_AND, mkNOT(mkULT(ix, eC(x, ix->w))), mkNOT(mkULT(eC(y, ix->w), ix)));
      c = mk(E_OR, c, t);
      i = k + 1;
    }
    r = mkITE(c, eC(g.first, w), r);
  }
  out = fromE(r);
  return true;
}

static void doBuiltin(Fn *cur, u32 &pc, Val *R, const Ins &in, Fn *curFn);

static void takeEdge(Val *R, const Edge &e) {
  const i32 *m = &XS[e.mvOff];
  if (e.simple) {
    for (u32 i = 0; i < e.mvCnt; i++, m += 2) R[m[0]] = m[1] >= 0 ? R[m[1]] : K[~m[1]];
  } else {
    static vector<Val> tmp;
    tmp.resize(e.mvCnt);
    for (u32 i = 0; i < e.mvCnt; i++) tmp[i] = m[2 * i + 1] >= 0 ? R[m[2 * i + 1]] : K[~m[2 * i + 1]];
    for (u32 i = 0; i < e.mvCnt; i++) R[m[2 * i]] = tmp[i];
  }
}

#define RV(i) ((i) >= 0 ? R[i] : K[~(i)])

// runs until the current path ends (returns) or a Trap is thrown
static void runPath() {
  Fn *fn;
  const Ins *code;
  Val *R;
  u32 pc;
  auto load = [&]() {
    Frame &f = frames.back();
    fn = f.fn;
    code = fn->code.data();
    R = REGS + f.base;
    pc = f.pc;
  };
  load();
  u64 ic = icount;
  u64 icStart = ic;
  u64 limit = pathInstrLimit;
#define SYNC() do { frames.back().pc = pc - 1; icount = ic; } while (0)
  struct Guard {
    u64 &ic, &st;
    ~Guard() { localInstr += ic - st; }
  } guard{ic, icStart};
  for (;;) {
    const Ins &in = code[pc++];
    if (__builtin_expect(++ic > limit, 0)) { SYNC(); throw Trap{V_HANG}; }
    switch (in.op) {
    case I_NOP: break;
    case I_MOV: R[in.d] = RV(in.a); break;
#define BIN(OP, EXPR)                                                                                       \
  case OP: {                                                                                                \
    Val a = RV(in.a), b = RV(in.b);                                                                         \
    if (__builtin_expect(((u64)a.e | (u64)b.e) != 0, 0)) {                                                  \
      a = norm(a); b = norm(b);                                                                             \
      if (a.e || b.e) { R[in.d] = symBin(OP, in.w, a, b); break; }                                          \
    }                                                                                                       \
    u64 x = a.v, y = b.v;                                                                                   \
    R[in.d] = {(u64)(EXPR), nullptr};                                                                       \
    break;                                                                                                  \
  }
    BIN(I_ADD, (x + y) & maskw(in.w))
    BIN(I_SUB, (x - y) & maskw(in.w))
    BIN(I_MUL, (x * y) & maskw(in.w))
    BIN(I_AND, x & y)
    BIN(I_OR, x | y)
    BIN(I_XOR, x ^ y)
    BIN(I_SHL, foldOp(E_SHL, in.w, x, y, in.w))
    BIN(I_LSHR, foldOp(E_LSHR, in.w, x, y, in.w))
    BIN(I_ASHR, foldOp(E_ASHR, in.w, x, y, in.w))
    BIN(I_UDIV, foldOp(E_UDIV, in.w, x, y, in.w))
    BIN(I_SDIV, foldOp(E_SDIV, in.w, x, y, in.w))
    BIN(I_UREM, foldOp(E_UREM, in.w, x, y, in.w))
    BIN(I_SREM, foldOp(E_SREM, in.w, x, y, in.w))
    BIN(I_EQ, x == y)
    BIN(I_NE, x != y)
    BIN(I_ULT, x < y)
    BIN(I_ULE, x <= y)
    BIN(I_UGT, x > y)
    BIN(I_UGE, x >= y)
    BIN(I_SLT, sext(x, in.w) < sext(y, in.w))
    BIN(I_SLE, sext(x, in.w) <= sext(y, in.w))
    BIN(I_SGT, sext(x, in.w) > sext(y, in.w))
    BIN(I_SGE, sext(x, in.w) >= sext(y, in.w))
    BIN(I_UMAX, x > y ? x : y)
    BIN(I_UMIN, x < y ? x : y)
    BIN(I_SMAX, sext(x, in.w) > sext(y, in.w) ? x : y)
    BIN(I_SMIN, sext(x, in.w) < sext(y, in.w) ? x : y)
    BIN(I_UADDSAT, ((x + y) & maskw(in.w)) < x ? maskw(in.w) : ((x + y) & maskw(in.w)))
    BIN(I_USUBSAT, x < y ? 0 : x - y)
    case I_WIDE: { // more than 64 bits: operand by operand concrete
      u64 q[4];
      SYNC();
      for (int i = 0; i < 4; i++) q[i] = conc(norm(R[in.a + i]));
      typedef unsigned __int128 u128;
      typedef __int128 i128;
      unsigned w = in.w, sh = 128 - w;
      u128 x = (u128)q[1] << 64 | q[0], y = (u128)q[3] << 64 | q[2], r = 0;
      i128 sx = (i128)(x << sh) >> sh, sy = (i128)(y << sh) >> sh;
      u128 m = sh ? ((u128)1 << w) - 1 : ~(u128)0;
      bool cmp = in.imm >= 1000;
      if (cmp) {
        switch (in.imm - 1000) {
        case CmpInst::ICMP_ULT: r = x < y; break;
        case CmpInst::ICMP_ULE: r = x <= y; break;
        case CmpInst::ICMP_UGT: r = x > y; break;
        case CmpInst::ICMP_UGE: r = x >= y; break;
        case CmpInst::ICMP_SLT: r = sx < sy; break;
        case CmpInst::ICMP_SLE: r = sx <= sy; break;
        case CmpInst::ICMP_SGT: r = sx > sy; break;
        default: r = sx >= sy; break;
        }
        R[in.d] = {(u64)r, nullptr};
        break;
      }
      switch (in.imm) {
      case Instruction::Add: r = x + y; break;
      case Instruction::Sub: r = x - y; break;
      case Instruction::Mul: r = x * y; break;
      case Instruction::Shl: r = y < w ? x << (unsigned)y : 0; break;
      case Instruction::LShr: r = y < w ? x >> (unsigned)y : 0; break;
      case Instruction::AShr: r = y < w ? (u128)(sx >> (unsigned)y) : 0; break;
      case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        if (!y) engineError("wide division by zero");
        r = in.imm == Instruction::UDiv ? x / y : in.imm == Instruction::URem ? x % y : in.imm == Instruction::SDiv ? (u128)(sx / sy) : (u128)(sx % sy);
        break;
      default: engineError("wide op %d", (int)in.imm);
      }
      r &= m;
      R[in.d] = {(u64)r, nullptr};
      R[in.d + 1] = {(u64)(r >> 64), nullptr};
      break;
    }
    case I_UADDO: case I_USUBO: case I_UMULO: case I_SADDO: case I_SSUBO: case I_SMULO: {
      Val a = norm(RV(in.a)), b = norm(RV(in.b));
      unsigned w = in.w;
      if (w > 32 && a.e && b.e && (in.op == I_UMULO || in.op == I_SMULO)) {
        SYNC();
        a = {conc(a), nullptr};
      }
      if (a.e || b.e) {
        Expr *x = toE(a, w), *y = toE(b, w), *r = nullptr, *o = nullptr;
        switch (in.op) {
        case I_UADDO: r = mk(E_ADD, x, y); o = mkULT(r, x); break;
        case I_USUBO: r = mk(E_SUB, x, y); o = mkULT(x, y); break;
        case I_UMULO:
          r = mk(E_MUL, x, y);
          if (w <= 32) {
            Expr *p = mk(E_MUL, mkZEXT(x, 2 * w), mkZEXT(y, 2 * w));
            o = mkNOT(mkEQ(mkEXTRACT(p, w, w), eC(0, w)));
          } else if (isC(y) || isC(x)) {
            Expr *v = isC(y) ? x : y;
            u64 k = isC(y) ? y->imm : x->imm;
            o = k ? mkULT(eC(maskw(w) / k, w), v) : eFalse();
          } else engineError("symbolic 64-bit multiply overflow");
          break;
        case I_SADDO:
        case I_SSUBO: {
          if (w > 63) {
            Expr *z = eC(0, w);
            r = mk(in.op == I_SADDO ? E_ADD : E_SUB, x, y);
            Expr *sx = mkSLT(x, z), *sy = mkSLT(y, z), *sr = mkSLT(r, z);
            if (in.op == I_SSUBO) sy = mkNOT(sy);
            o = mk(E_AND, mkEQ(sx, sy), mkNOT(mkEQ(sx, sr)));
          } else {
            Expr *ww = mk(in.op == I_SADDO ? E_ADD : E_SUB, mkSEXT(x, w + 1), mkSEXT(y, w + 1));
            r = mkEXTRACT(ww, 0, w);
            o = mkNOT(mkEQ(mkSEXT(r, w + 1), ww));
          }
          break;
        }
        default: { // I_SMULO
          r = mk(E_MUL, x, y);
          if (w <= 32) {
            Expr *p = mk(E_MUL, mkSEXT(x, 2 * w), mkSEXT(y, 2 * w));
            o = mkNOT(mkEQ(mkSEXT(r, 2 * w), p));
          } else {
            Expr *v = isC(y) ? x : y;
            i64 k = sext(isC(y) ? y->imm : x->imm, w), hi = (i64)(maskw(w) >> 1), lo = -hi - 1;
            if (k == 0) o = eFalse();
            else if (k == -1) o = mkEQ(v, eC((u64)lo, w));
            else {
              i64 a1 = k > 0 ? lo / k : hi / k, b1 = k > 0 ? hi / k : lo / k; // a1 <= v <= b1 fits
              o = mk(E_OR, mkSLT(v, eC((u64)a1, w)), mkSLT(eC((u64)b1, w), v));
            }
          }
        }
        }
        R[in.d] = fromE(r);
        R[in.d + 1] = fromE(o);
        break;
      }
      u64 r = 0;
      bool o = false;
      i64 sx = sext(a.v, w), sy = sext(b.v, w), sr = 0;
      switch (in.op) {
      case I_UADDO: { unsigned __int128 t = (unsigned __int128)a.v + b.v; r = (u64)t & maskw(w); o = t > maskw(w); break; }
      case I_USUBO: r = (a.v - b.v) & maskw(w); o = a.v < b.v; break;
      case I_UMULO: { unsigned __int128 t = (unsigned __int128)a.v * b.v; r = (u64)t & maskw(w); o = t > maskw(w); break; }
      case I_SADDO: o = __builtin_add_overflow(sx, sy, &sr); r = (u64)sr & maskw(w); o |= sext(r, w) != sr; break;
      case I_SSUBO: o = __builtin_sub_overflow(sx, sy, &sr); r = (u64)sr & maskw(w); o |= sext(r, w) != sr; break;
      case I_SMULO: o = __builtin_mul_overflow(sx, sy, &sr); r = (u64)sr & maskw(w); o |= sext(r, w) != sr; break;
      }
      R[in.d] = {r, nullptr};
      R[in.d + 1] = {(u64)o, nullptr};
      break;
    }
    case I_TRUNC: {
      Val a = RV(in.a);
      if (__builtin_expect(a.e != nullptr, 0)) {
        a = norm(a);
        if (a.e) { R[in.d] = fromE(mkEXTRACT(a.e, 0, in.w)); break; }
      }
      R[in.d] = {a.v & maskw(in.w), nullptr};
      break;
    }
    case I_ZEXT: {
      Val a = RV(in.a);
      if (__builtin_expect(a.e != nullptr, 0)) {
        a = norm(a);
        if (a.e) { R[in.d] = fromE(mkZEXT(a.e, in.w)); break; }
      }
      R[in.d] = a;
      break;
    }
    case I_SEXT: {
      Val a = RV(in.a);
      if (__builtin_expect(a.e != nullptr, 0)) {
        a = norm(a);
        if (a.e) { R[in.d] = fromE(mkSEXT(a.e, in.w)); break; }
      }
      R[in.d] = {(u64)sext(a.v, in.b) & maskw(in.w), nullptr};
      break;
    }
    case I_SELECT: {
      Val c = RV(in.a);
      if (__builtin_expect(c.e != nullptr, 0)) {
        c = norm(c);
        if (c.e) {
          Val a = norm(RV(in.b)), b = norm(RV(in.c));
          if (!a.e && !b.e && a.v == b.v) { R[in.d] = a; break; }
          if (in.imm || (!a.e && a.v > ARENA && a.v < ARENA + ARENA_SZ)) {
            SYNC();
            c.v = concretize(c.e);
          } else {
            R[in.d] = fromE(mkITE(c.e, toE(a, in.w), toE(b, in.w)));
            break;
          }
        }
      }
      R[in.d] = (c.v & 1) ? RV(in.b) : RV(in.c);
      break;
    }
    case I_GEPC: {
      Val a = RV(in.a);
      if (__builtin_expect(a.e != nullptr, 0)) {
        a = norm(a);
        if (a.e) { R[in.d] = fromE(mk(E_ADD, a.e, eC(in.imm, 64))); break; }
      }
      R[in.d] = {a.v + in.imm, nullptr};
      break;
    }
    case I_GEP1: {
      Val a = RV(in.a), b = RV(in.b);
      if (__builtin_expect(((u64)a.e | (u64)b.e) != 0, 0)) {
        a = norm(a); b = norm(b);
        if (a.e || b.e) {
          R[in.d] = fromE(mk(E_ADD, mk(E_MUL, toE(b, 64), eC(in.imm, 64)), toE(a, 64)));
          break;
        }
      }
      R[in.d] = {a.v + b.v * in.imm, nullptr};
      break;
    }
    case I_LOAD: {
      Val p = RV(in.a);
      if (__builtin_expect(p.e != nullptr, 0)) {
        p = norm(p);
        if (p.e) {
          SYNC();
          Val o;
          Expr *pe = in.imm ? mk(E_ADD, p.e, eC(in.imm, 64)) : p.e;
          if (tableLoad(pe, in.w, o)) { R[in.d] = o; break; }
          p.v = concretize(p.e);
        }
      }
      u64 a = p.v + in.imm;
      if (__builtin_expect(a - (ARENA + 64) >= ARENA_SZ - 128, 0)) { SYNC(); badAccess(a, in.w, "load"); }
      R[in.d] = memLoad(a, in.w);
      break;
    }
    case I_STORE: {
      Val p = RV(in.a);
      if (__builtin_expect(p.e != nullptr, 0)) { SYNC(); p.v = conc(p); }
      u64 a = p.v + in.imm;
      if (__builtin_expect(a - (ARENA + 64) >= ARENA_SZ - 128 || a < globConstEnd, 0)) { SYNC(); badAccess(a, in.w, "store"); }
      Val v = RV(in.b);
      if (__builtin_expect(v.e != nullptr, 0)) v = norm(v);
      memStore(a, in.w, v);
      break;
    }
    case I_ALLOCA: R[in.d] = {frames.back().sp + in.imm, nullptr}; break;
    case I_BR: {
      const Edge &e = EDGES[in.a];
      if (e.mvCnt) takeEdge(R, e);
      pc = e.pc;
      break;
    }
    case I_CBR: {
      Val c = RV(in.a);
      if (__builtin_expect(c.e != nullptr, 0)) { SYNC(); c.v = concretize(c.e); }
      const Edge &e = EDGES[(c.v & 1) ? in.b : in.c];
      if (e.mvCnt) takeEdge(R, e);
      pc = e.pc;
      break;
    }
    case I_SWITCH: {
      Val c = RV(in.a);
      SwitchT *st = SWT[in.imm];
      u32 ei;
      if (__builtin_expect(c.e != nullptr, 0)) {
        c = norm(c);
        if (c.e) {
          SYNC();
          // selector expression: which target
          std::map<u32, Expr *> tc;
          for (auto &cs : st->cases) {
            if (cs.second == st->def) continue;
            Expr *q = mkEQ(c.e, eC(cs.first, in.w));
            if (q->kconst && !q->imm) continue;
            auto it = tc.find(cs.second);
            if (it == tc.end()) tc[cs.second] = q;
            else it->second = mk(E_OR, it->second, q);
          }
          Expr *sel = eC(st->def, 32);
          vector<u64> cands = {st->def};
          for (auto it = tc.rbegin(); it != tc.rend(); ++it) {
            sel = mkITE(it->second, eC(it->first, 32), sel);
            cands.push_back(it->first);
          }
          ei = sel->kconst ? sel->imm : concretize(sel, &cands);
        } else goto conc_switch;
      } else {
      conc_switch:
        if (!st->dense.empty()) ei = c.v < st->dense.size() ? st->dense[c.v] : st->def;
        else {
          auto it = st->map.find(c.v);
          ei = it == st->map.end() ? st->def : it->second;
        }
      }
      const Edge &e = EDGES[ei];
      if (e.mvCnt) takeEdge(R, e);
      pc = e.pc;
      break;
    }
    case I_RET: {
      Frame f = frames.back();
      Val tmp[64];
      if (in.w > 64) engineError("large return");
      for (u32 i = 0; i < in.w; i++) { i32 s = XS[in.a + i]; tmp[i] = RV(s); }
      frames.pop_back();
      stackTop = f.sp;
      if (frames.empty()) { icount = ic; return; }
      regTop = frames.back().base + frames.back().fn->nslots;
      load();
      if (f.retSlot >= 0)
        for (u32 i = 0; i < in.w; i++) R[f.retSlot + i] = tmp[i];
      break;
    }
    case I_CALL: case I_CALLI: {
      Fn *t;
      if (in.op == I_CALL) t = fns[in.b];
      else {
        Val p = RV(in.b);
        if (p.e) { SYNC(); p.v = conc(p); }
        if (p.v < FNBASE || p.v >= FNBASE + 16 * fns.size() || (p.v & 15)) { SYNC(); ubWhy = "bad call target"; throw Trap{V_UB}; }
        t = fns[(p.v - FNBASE) / 16];
        if (t->bi != B_NONE) {
          Ins bi = {I_BUILTIN, 0, in.d, in.w > 0 ? XS[in.a] : 0, in.w > 1 ? XS[in.a + 1] : 0, in.w > 2 ? XS[in.a + 2] : 0, (u64)t->bi | ((u64)t->idx << 16)};
          SYNC();
          u32 npc = pc;
          if (in.w > 3) engineError("indirect builtin with 4 args");
          doBuiltin(t, npc, R, bi, fn);
          break;
        }
      }
      frames.back().pc = pc;
      u32 base = frames.back().base + fn->nslots;
      Val *N = REGS + base;
      const i32 *x = &XS[in.a];
      if (base + 300 > REG_MAX) throw Trap{V_STACK};
      for (u32 i = 0; i < in.w; i++) { i32 s = x[i]; N[i] = RV(s); }
      icount = ic;
      frames.back().pc = pc - 1;
      u32 retpc = pc;
      enter(t, base, in.d);
      frames[frames.size() - 2].pc = retpc;
      load();
      break;
    }
    case I_BUILTIN: {
      SYNC();
      doBuiltin(nullptr, pc, R, in, fn);
      break;
    }
    case I_UNREACH: SYNC(); ubWhy = "unreachable"; throw Trap{V_UB};
    case I_TRAP: SYNC(); engineError("unsupported: %s in %s", trapMsgs[in.imm].c_str(), where().c_str()); break;
    case I_CTLZ: case I_CTTZ: case I_CTPOP: case I_BSWAP: case I_BITREV: case I_ABS: {
      Val a = RV(in.a);
      if (a.e) { SYNC(); a.v = conc(a); }
      u64 v = a.v, r = 0;
      unsigned w = in.w;
      switch (in.op) {
      case I_CTLZ: r = v ? __builtin_clzll(v) - (64 - w) : w; break;
      case I_CTTZ: r = v ? __builtin_ctzll(v) : w; break;
      case I_CTPOP: r = __builtin_popcountll(v); break;
      case I_BSWAP: r = __builtin_bswap64(v) >> (64 - w); break;
      case I_BITREV: for (unsigned i = 0; i < w; i++) if (v >> i & 1) r |= 1ULL << (w - 1 - i); break;
      case I_ABS: { i64 s = sext(v, w); r = (u64)(s < 0 ? -s : s) & maskw(w); break; }
      }
      R[in.d] = {r, nullptr};
      break;
    }
    case I_FSHL: case I_FSHR: {
      SYNC();
      unsigned w = in.w;
      u64 s = conc(RV(in.c)) % w;
      if (RV(in.a).e || RV(in.b).e) {
        Expr *x = toE(RV(in.a), w), *y = toE(RV(in.b), w);
        unsigned l = in.op == I_FSHL ? s : w - s; // by how much the upper half moves to the left
        R[in.d] = fromE(l == 0 ? x : l == w ? y : mk(E_OR, mk(E_SHL, x, eC(l, w)), mk(E_LSHR, y, eC(w - l, w))));
        break;
      }
      u64 a = RV(in.a).v, b = RV(in.b).v;
      unsigned __int128 t = ((unsigned __int128)a << w) | b;
      u64 r = in.op == I_FSHL ? (u64)(t >> (w - s)) : (u64)(t >> s);
      R[in.d] = {r & maskw(w), nullptr};
      break;
    }
    default: engineError("bad op %d", in.op);
    }
  }
}

static void doBuiltin(Fn *, u32 &pc, Val *R, const Ins &in, Fn *curFn) {
  Builtin b = (Builtin)(in.imm & 0xffff);
  auto A = [&](int i) -> Val {
    i32 s = i == 0 ? in.a : i == 1 ? in.b : i == 2 ? in.c : curFn->code[pc].a;
    return RV(s);
  };
  auto ret = [&](u64 v) { if (in.d >= 0) R[in.d] = {v, nullptr}; };
  switch (b) {
  case B_MALLOC: ret(heapAlloc(conc(A(0)), 16, false)); return;
  case B_CALLOC: { u64 x = conc(A(0)), y = conc(A(1)); ret(heapAlloc(x * y, 16, true)); return; }
  case B_RALLOC: { u64 n = conc(A(0)), al = conc(A(1)); ret(heapAlloc(n, al, false)); return; }
  case B_RALLOCZ: { u64 n = conc(A(0)), al = conc(A(1)); ret(heapAlloc(n, al, true)); return; }
  case B_FREE: case B_RDEALLOC: return;
  case B_REALLOC: case B_RREALLOC: {
    u64 p = conc(A(0));
    u64 n, old;
    if (b == B_REALLOC) {
      n = conc(A(1));
      if (!p) { ret(heapAlloc(n, 16, false)); return; }
      old = *(u64 *)(p - 8);
      u64 q = heapAlloc(n, 16, false);
      memMoveOp(q, p, std::min(n, old));
      ret(q);
    } else {
      old = conc(A(1));
      u64 al = conc(A(2));
      n = conc(A(3));
      u64 q = heapAlloc(n, al, false);
      memMoveOp(q, p, std::min(n, old));
      ret(q);
    }
    return;
  }
  case B_MEMALIGN: {
    u64 pp = conc(A(0)), al = conc(A(1)), n = conc(A(2));
    memStore(pp, 64, {heapAlloc(n, al, false), nullptr});
    ret(0);
    return;
  }
  case B_MEMCPY: case B_MEMMOVE: {
    u64 d = conc(A(0)), s = conc(A(1)), n = conc(A(2));
    memMoveOp(d, s, n);
    ret(d);
    return;
  }
  case B_MEMSET: {
    u64 d = conc(A(0)), n = conc(A(2));
    Val v = norm(A(1));
    if (!n) { ret(d); return; }
    checkRange(d, n);
    if (v.e) {
      Expr *e = mkEXTRACT(v.e, 0, 8);
      for (u64 i = 0; i < n; i++) memStore(d + i, 8, fromE(e));
    } else {
      for (u32 c = chunkOf(d), e = chunkOf(d + n - 1); c <= e; c++) {
        touch(c);
        if (shadowA[c]) {
          u64 lo = ARENA + ((u64)c << 6), f = std::max(lo, d), t = std::min(lo + 64, d + n);
          for (u64 x = f; x < t; x++) shPool[shadowA[c]].e[x & 63] = nullptr;
        }
      }
      memset((void *)d, (int)v.v, n);
    }
    ret(d);
    return;
  }
  case B_BCMP: case B_MEMCMP: {
    u64 p = conc(A(0)), q = conc(A(1)), n = conc(A(2));
    if (!n) { ret(0); return; }
    checkRange(p, n);
    checkRange(q, n);
    Expr *eq = eTrue();
    for (u64 i = 0; i < n; i++) {
      Val x = byteAt(p + i), y = byteAt(q + i);
      if (!x.e && !y.e) {
        if (x.v != y.v) {
          if (b == B_MEMCMP) {
            if (!eq->kconst) { eq = eFalse(); break; } // earlier bytes are symbolic
            ret((u64)(u32)(x.v < y.v ? -1 : 1));
            return;
          }
          ret(1);
          return;
        }
        continue;
      }
      eq = mk(E_AND, eq, mkEQ(toE(x, 8), toE(y, 8)));
      if (eq->kconst && !eq->imm) {
        if (b == B_MEMCMP) break;
        ret(1);
        return;
      }
    }
    if (b == B_MEMCMP && !(eq->kconst && eq->imm)) { // which byte differs first decides
      for (u64 i = 0; i < n; i++) {
        Val x = byteAt(p + i), y = byteAt(q + i);
        Expr *ex = toE(x, 8), *ey = toE(y, 8), *ne = mkNOT(mkEQ(ex, ey));
        if (ne->kconst ? ne->imm : concretize(ne)) {
          Expr *lt = mkULT(ex, ey);
          ret((lt->kconst ? lt->imm : concretize(lt)) ? (u64)(u32)-1 : 1);
          return;
        }
      }
      ret(0);
      return;
    }
    if (in.d >= 0) R[in.d] = fromE(mkITE(eq, eC(0, 32), eC(1, 32)));
    return;
  }
  case B_ZERO: ret(0); return;
  case B_MEMCHR: case B_MEMRCHR: {
    u64 p = conc(A(0)), n = conc(A(2)), at = 0;
    Val c = norm(A(1));
    Expr *ce = mkEXTRACT(toE(c, 32), 0, 8);
    if (n) checkRange(p, n);
    for (u64 i = 0; i < n && !at; i++) {
      u64 q = b == B_MEMCHR ? p + i : p + n - 1 - i;
      Val x = byteAt(q);
      if (conc(fromE(mkEQ(toE(x, 8), ce)))) at = q;
    }
    ret(at);
    return;
  }
  // what surrounds the process: random numbers and times are zero, output goes nowhere
  case B_GETRANDOM: {
    u64 p = conc(A(0)), n = conc(A(1));
    for (u64 i = 0; i < n; i++) memStore(p + i, 8, {0, nullptr});
    ret(n);
    return;
  }
  case B_CLOCK: {
    u64 p = conc(A(1));
    memStore(p, 64, {0, nullptr});
    memStore(p + 8, 64, {0, nullptr});
    ret(0);
    return;
  }
  case B_WRITE: ret(conc(A(2))); return;
  case B_WRITEV: {
    u64 p = conc(A(1)), n = conc(A(2)), t = 0;
    for (u64 i = 0; i < n; i++) t += conc(memLoad(p + 16 * i + 8, 64));
    ret(t);
    return;
  }
  case B_STRLEN: {
    u64 p = conc(A(0)), n = 0;
    while (conc(byteAt(p + n))) n++;
    ret(n);
    return;
  }
  case B_PANIC: {
    Fn *t = fns[in.imm >> 16];
    string d = llvm::demangle(t->name);
    size_t h = d.rfind("::h");
    if (h != string::npos) d = d.substr(0, h);
    violation(V_PANIC, 0, "panic via " + d + " in " + where());
    throw Trap{101};
  }
  case B_ABORT: violation(V_PANIC, 1, "abort in " + where()); throw Trap{101};
  case B_SYM_IN: {
    u64 p = conc(A(0)), n = conc(A(1));
    u64 mx = 0;
    for (u64 i = 0; i < n; i++) mx = std::max<u64>(mx, rdRaw(p + 8 * i + 4, 4));
    unsigned w = mx < 256 ? 8 : mx < 65536 ? 16 : 32;
    if (S.nvars >= MAXVARS) engineError("too many symbolic inputs");
    u32 id = S.nvars++;
    S.varW[id] = w;
    Expr *v = ET.get(E_VAR, w, id);
    Expr *dom = eFalse();
    for (u64 i = 0; i < n; i++) {
      u64 lo = rdRaw(p + 8 * i, 4), hi = rdRaw(p + 8 * i + 4, 4);
      Expr *t = lo == hi ? mkEQ(v, eC(lo, w)) : mk(E_AND, mkNOT(mkULT(v, eC(lo, w))), mkNOT(mkULT(eC(hi, w), v)));
      dom = mk(E_OR, dom, t);
    }
    S.model[id] = rdRaw(p, 4);
    S.modelVer++;
    // an old expression may carry facts from a sibling path: none, the trail was undone
    if (!dom->kconst) S.addConstraint(dom);
    if (in.d >= 0) R[in.d] = fromE(mkZEXT(v, 32));
    return;
  }
  case B_SYM_CHOICE: {
    u64 n = conc(A(0));
    if (S.nvars >= MAXVARS) engineError("too many symbolic inputs");
    if (n == 0) engineError("sym_choice(0)");
    // the variable must only be created once even though the instruction re-executes after the fork
    u32 id = S.nvars;
    unsigned w = 16;
    S.varW[id] = w;
    Expr *v = ET.get(E_VAR, w, id);
    u64 val;
    bool have = S.value(v, val);
    if (!have) {
      S.model[id] = 0;
      S.modelVer++;
      Expr *dom = mkULT(v, eC(n, w));
      if (!dom->kconst) S.addConstraint(dom);
      val = concretize(v);
    }
    S.nvars = id + 1;
    ret(val);
    return;
  }
  case B_SYM_PARAM: { u64 i = conc(A(0)); ret(i < params.size() ? params[i] : 0); return; }
  case B_SYM_ASSUME: {
    if (!(conc(A(0)) & 1)) throw Trap{102};
    return;
  }
  case B_SYM_FAIL: violation(V_FAIL, conc(A(0)), "assertion in " + where()); throw Trap{101};
  case B_SYM_COVER: {
    u64 i = conc(A(0)) & 255;
    SH->cover[i].fetch_add(1, std::memory_order_relaxed);
    return;
  }
  case B_SYM_KNOWN: {
    u64 i = conc(A(0)) & 63;
    SH->knownHit[i].fetch_add(1);
    SH->known.fetch_add(1);
    throw Trap{103};
  }
  case B_SYM_OBSERVE: {
    u64 p = conc(A(0)), n = conc(A(1));
    for (u64 i = 0; i < n; i++) obs.push_back(byteAt(p + i));
    return;
  }
  case B_SYM_CONC: ret(conc(A(0))); return;
  case B_SYM_IS: ret(1); return;
  case B_SYM_END: throw Trap{104};
  case B_SYM_DECLARE: SH->need.store((u32)conc(A(0))); return;
  case B_SYM_NOTE: return;
  case B_TRAPEXT: engineError("call to external %s in %s", fns[in.imm >> 16]->name.c_str(), where().c_str()); return;
  default: engineError("builtin %d", b);
  }
}

static void explore() {
  bool more = true;
  while (more) {
    try {
      runPath();
      pathDone();
    } catch (Trap &t) {
      switch (t.kind) {
      case 100: break;                          // forked child: nothing to count
      case 101: localPaths++; break;            // violation recorded
      case 102: SH->assumed.fetch_add(1); break;
      case 103: localPaths++; break;
      case 104: pathDone(); break;
      case V_HANG: violation(V_HANG, 0, "instruction budget exhausted in " + where()); localPaths++; break;
      case V_MEM: violation(V_MEM, 0, "memory budget exhausted in " + where()); localPaths++; break;
      case V_STACK: violation(V_STACK, 0, "stack exhausted in " + where()); localPaths++; break;
      case V_UB: violation(V_UB, 0, string(ubWhy) + (ubWhy[0] == 'b' ? " [" + std::to_string(ubA) + "+" + std::to_string(ubB) + "]" : "") + " in " + where()); localPaths++; break;
      }
    }
    for (;;) {
      try { more = backtrack(); break; }
      catch (Trap &t) { if (t.kind != 100) engineError("trap in backtrack"); }
    }
  }
}

static void segv(int, siginfo_t *si, void *) {
  int z = 0;
  if (SH->error.compare_exchange_strong(z, 1)) snprintf(SH->errmsg, sizeof SH->errmsg, "engine crashed (signal) at %p in %s", si->si_addr, frames.empty() ? "?" : frames.back().fn->name.c_str());
  SH->stop = 1;
  SH->slots[mySlot].store(0);
  SH->active.fetch_sub(1);
  _exit(3);
}

static string jstr(const string &s) {
  string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if ((u8)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

int main(int argc, char **argv) {
  string bc, entry, out;
  double tlimit = 0;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto nx = [&]() { return string(argv[++i]); };
    if (a == "--bc") bc = nx();
    else if (a == "--entry") entry = nx();
    else if (a == "--out") out = nx();
    else if (a == "--jobs") maxWorkers = atoi(nx().c_str());
    else if (a == "--time") tlimit = atof(nx().c_str());
    else if (a == "--param") params.push_back(atoi(nx().c_str()));
    else if (a == "--instr") pathInstrLimit = strtoull(nx().c_str(), 0, 10);
    else if (a == "--maxviol") maxViol = atoi(nx().c_str());
    else if (a == "--sample") sampleEvery = atoi(nx().c_str());
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  double t0 = now();
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  CACHE = (CacheEnt *)mmap(0, sizeof(CacheEnt) * CACHE_N, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  void *ar = mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (ar != (void *)ARENA) { fprintf(stderr, "cannot map arena\n"); return 2; }
  auto mm = [](size_t n) {
    void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return p;
  };
  stampA = (u32 *)mm((size_t)NCHUNK * 4);
  shadowA = (u32 *)mm((size_t)NCHUNK * 4);
  shPool = (Shadow *)mm(sizeof(Shadow) * (size_t)SH_MAX);
  REGS = (Val *)mm(sizeof(Val) * (size_t)REG_MAX);

  SMDiagnostic err;
  auto buf = MemoryBuffer::getFile(bc);
  if (!buf) { fprintf(stderr, "cannot read %s\n", bc.c_str()); return 2; }
  auto mo = parseBitcodeFile((*buf)->getMemBufferRef(), Ctx);
  if (!mo) { fprintf(stderr, "cannot parse bitcode\n"); return 2; }
  M = std::move(*mo);
  DL = &M->getDataLayout();
  // weak symbols of libc: there if the engine has a stand-in, absent otherwise
  for (auto &G : M->globals())
    if (G.hasExternalWeakLinkage()) {
      string n = G.getName().str();
      Constant *to = ConstantPointerNull::get(cast<PointerType>(G.getType()));
      if (builtinFor(n, true) != B_TRAPEXT) {
        G.setName("");
        to = Function::Create(FunctionType::get(Type::getVoidTy(Ctx), false), GlobalValue::ExternalLinkage, n, M.get());
      }
      G.replaceAllUsesWith(to);
    }
  for (auto &F : *M) {
    Fn *f = new Fn;
    f->F = &F;
    f->name = F.getName().str();
    f->idx = fns.size();
    if (!F.isIntrinsic()) f->bi = builtinFor(f->name, F.isDeclaration());
    fns.push_back(f);
    fnOf[&F] = f;
  }
  execMap = (u8 *)mmap(0, fns.size() + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int pass = 0; pass < 2; pass++) {
    for (auto &G : M->globals()) {
      if (G.isConstant() != (pass == 0)) continue;
      u64 sz = std::max<u64>(1, DL->getTypeAllocSize(G.getValueType()));
      u64 al = std::max<u64>(16, G.getAlign().valueOrOne().value());
      globTop = (globTop + al - 1) & ~(al - 1);
      globAddr[&G] = globTop;
      if (pass == 0) constGlobs.push_back({globTop, sz});
      globTop += sz;
      if (globTop > ARENA + GLOB_SZ) { fprintf(stderr, "globals too large\n"); return 2; }
    }
    globTop = (globTop + 127) & ~63ULL;
    if (pass == 0) globConstEnd = globTop;
  }
  std::sort(constGlobs.begin(), constGlobs.end());
  for (auto &G : M->globals())
    if (G.hasInitializer()) initGlobal(globAddr[&G], G.getInitializer());

  Function *E = M->getFunction(entry);
  if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  if (tlimit) deadline = now() + tlimit;
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = segv;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  stack_t ss;
  ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0;
  double tload = now() - t0;
  signal(SIGCHLD, SIG_IGN);
  SH->active = 1;
  setpgid(0, 0);
  pid_t p = fork();
  if (p == 0) {
    sigaltstack(&ss, nullptr);
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
    sigaction(SIGABRT, &sa, nullptr);
    sigaction(SIGFPE, &sa, nullptr);
    mySlot = 1;
    SH->slots[1].store(getpid());
    SH->pids.fetch_add(1);
    try { enter(fnOf[E], 0, -1); } catch (Trap &) { engineError("entry"); }
    explore();
    finishProcess();
  }
  // supervise
  double grace = 0;
  while (SH->active.load() > 0) {
    usleep(2000);
    static int k = 0;
    if (++k % 50 == 0) {
      for (int s = 1; s < 64; s++) {
        int pid = SH->slots[s].load();
        if (pid > 0 && kill(pid, 0) < 0 && SH->slots[s].load() == pid) {
          int z = 0;
          if (SH->error.compare_exchange_strong(z, 1)) snprintf(SH->errmsg, sizeof SH->errmsg, "a worker process died");
          SH->stop = 1;
          SH->slots[s].store(0);
          SH->active.fetch_sub(1);
        }
      }
      if (deadline && now() > deadline + 5) {
        int z = 0;
        if (SH->error.compare_exchange_strong(z, 1)) snprintf(SH->errmsg, sizeof SH->errmsg, "time limit reached before the exploration was complete");
        SH->stop = 1;
      }
      if (SH->stop.load()) {
        if (!grace) grace = now();
        else if (now() - grace > 20) break;
      }
    }
  }
  for (int s = 1; s < 64; s++) {
    int pid = SH->slots[s].load();
    if (pid > 0) kill(pid, SIGKILL);
  }
  double wall = now() - t0;
  FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(f, "{\n\"status\": %s,\n", SH->error.load() ? jstr(string("error: ") + SH->errmsg).c_str() : SH->nviol.load() ? "\"violation\"" : "\"ok\"");
  fprintf(f, "\"paths\": %lu, \"discarded_by_assume\": %lu, \"known_finding_paths\": %lu, \"instructions\": %lu, \"forks\": %lu, \"symbolic_decisions\": %lu,\n", SH->paths.load(), SH->assumed.load(), SH->known.load(), SH->instrs.load(), SH->forks.load(), SH->decided.load());
  fprintf(f, "\"queries\": %lu, \"cache_hits\": %lu, \"z3_calls\": %lu, \"z3_sat\": %lu, \"z3_unsat\": %lu, \"z3_unknown\": %lu, \"given_up\": %lu, \"solver_s\": %.3f, \"max_path_instructions\": %lu,\n", SH->queries.load(), SH->cacheHits.load(), SH->z3calls.load(), SH->sat.load(), SH->unsat.load(), SH->unknown.load(), SH->gaveUp.load(), SH->z3ns.load() / 1e9, SH->maxInstr.load());
  fprintf(f, "\"workers\": %lu, \"wall_s\": %.3f, \"load_s\": %.3f, \"declared\": %u,\n\"covers\": {", SH->pids.load(), wall, tload, SH->need.load());
  bool first = true;
  for (int i = 0; i < 256; i++)
    if (SH->cover[i].load()) { fprintf(f, "%s\"%d\": %lu", first ? "" : ", ", i, SH->cover[i].load()); first = false; }
  fprintf(f, "},\n\"known\": {");
  first = true;
  for (int i = 0; i < 64; i++)
    if (SH->knownHit[i].load()) { fprintf(f, "%s\"%d\": %lu", first ? "" : ", ", i, SH->knownHit[i].load()); first = false; }
  auto recs = [&](const char *nm, Shared::Rec *a, u32 n) {
    fprintf(f, "],\n\"%s\": [", nm);
    bool fst = true;
    for (u32 i = 0; i < n; i++) {
      if (!a[i].done) continue;
      fprintf(f, "%s\n {\"kind\": %u, \"code\": %u, \"obs\": \"%lx\", \"what\": %s, \"inputs\": [", fst ? "" : ",", a[i].kind, a[i].code, a[i].obs, jstr(a[i].what).c_str());
      for (u32 k = 0; k < a[i].n; k++) fprintf(f, "%s%lu", k ? "," : "", a[i].vals[k]);
      fprintf(f, "]}");
      fst = false;
    }
  };
  fprintf(f, "},\n\"functions\": [");
  first = true;
  for (size_t i = 0; i < fns.size(); i++)
    if (execMap[i]) {
      string d = llvm::demangle(fns[i]->name);
      size_t h = d.rfind("::h");
      if (h != string::npos && d.size() - h == 19) d = d.substr(0, h);
      fprintf(f, "%s%s", first ? "" : ",\n ", jstr(d).c_str());
      first = false;
    }
  recs("violations", SH->viol, std::min<u32>(64, SH->nviol.load()));
  recs("samples", SH->samp, std::min<u32>(600, SH->nsamp.load()));
  fprintf(f, "]\n}\n");
  fclose(f);
  fflush(stdout);
  _exit(SH->error.load() ? 2 : SH->nviol.load() ? 1 : 0);
}
