// Path constraints, model, z3 queries with independence slicing and caching.
#pragma once
#include "expr.h"
#include <atomic>
#include <z3.h>

static const int MAXVARS = 64;

struct CacheEnt {
  std::atomic<u64> h0;
  u64 h1;
  std::atomic<u32> state; // 0 empty, 1 filling, 2 unsat, 3 sat, 4 given up
  u32 n;
  u64 model[6];
};

struct Shared {
  std::atomic<int> active;
  std::atomic<int> stop;       // everybody should stop
  std::atomic<int> error;      // engine error: result inconclusive
  char errmsg[512];
  std::atomic<u64> paths, assumed, instrs, forks, queries, cacheHits, z3ns, z3calls, sat, unsat, unknown, pids, maxInstr, known, gaveUp;
  std::atomic<u64> decided;    // solver-decided branch points (symbolic)
  std::atomic<u32> nviol, nsamp;
  std::atomic<u64> cover[256];
  std::atomic<u32> need;
  std::atomic<u64> knownHit[64];
  std::atomic<int> slots[64];  // worker pids
  struct Rec { u32 kind; u32 code; u32 n; u32 done; u64 obs; u64 vals[MAXVARS]; char what[200]; };
  Rec viol[64];
  Rec samp[600];
};
extern Shared *SH;
static const u32 CACHE_N = 1 << 19;
extern CacheEnt *CACHE;

struct Solver {
  // path state
  std::vector<Expr *> pc;
  u64 model[MAXVARS];
  u64 modelVer = 1;
  u64 bound = 0;      // variables with a unique value on this path
  u32 nvars = 0;
  u8 varW[MAXVARS];
  std::vector<Expr *> knownTrail;

  Z3_context ctx = nullptr;
  Z3_solver sol = nullptr;
  std::vector<Z3_ast> z3memo;
  unsigned rlimit = 50000000, softlimit = 60000;
  bool soft = false;     // a query may be given up (then it is false, and `gaveUp`)
  bool gaveUp = false;
  u64 solverCalls = 0;

  void initZ3();
  void limit(unsigned n);
  Z3_ast toZ3(Expr *e);
  u64 eval(Expr *e);
  bool value(Expr *e, u64 &v) { // concrete value if determined on this path
    if (e->kconst) { v = e->imm; return true; }
    if (e->known) { v = e->kval; return true; }
    if (!(e->vars & ~bound)) { v = eval(e); return true; }
    return false;
  }
  void setKnown(Expr *e, u64 v) {
    if (e->kconst || e->known) return;
    e->known = 1; e->kval = v;
    knownTrail.push_back(e);
  }
  // is pc /\ cond satisfiable; on sat fills out (values for the variables of the slice), mask
  bool query(Expr *cond, u64 *out, u64 &mask);
  void addConstraint(Expr *c); // c must hold under the current model
  void assertTrue(Expr *c, u64 m, const u64 *mod);
};
extern Solver S;
void engineError(const char *fmt, ...);
