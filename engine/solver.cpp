#include "solver.h"
#include <algorithm>
#include <time.h>
Solver S;
Shared *SH;
CacheEnt *CACHE;

static void z3err(Z3_context c, Z3_error_code e) {
  engineError("z3 error: %s", Z3_get_error_msg(c, e));
}

void Solver::initZ3() {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, z3err);
  Z3_del_config(cfg);
  z3memo.clear();
  sol = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, sol);
  limit(softlimit);
  solverCalls = 0;
}
void Solver::limit(unsigned n) {
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), n);
  Z3_solver_set_params(ctx, sol, p);
  Z3_params_dec_ref(ctx, p);
}

Z3_ast Solver::toZ3(Expr *e) {
  if (e->id < z3memo.size() && z3memo[e->id]) return z3memo[e->id];
  if (e->id >= z3memo.size()) z3memo.resize(e->id + 1024, nullptr);
  Z3_ast r = nullptr, x = nullptr, y = nullptr, z = nullptr;
  if (e->a) x = toZ3(e->a);
  if (e->b) y = toZ3(e->b);
  if (e->c) z = toZ3(e->c);
  auto bv = [&](unsigned w) { return Z3_mk_bv_sort(ctx, w); };
  auto b2v = [&](Z3_ast b) {
    return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, bv(1)), Z3_mk_unsigned_int64(ctx, 0, bv(1)));
  };
  switch (e->op) {
  case E_CONST: r = Z3_mk_unsigned_int64(ctx, e->imm, bv(e->w)); break;
  case E_VAR: {
    char n[32];
    snprintf(n, sizeof n, "v%u_%u", (unsigned)e->imm, e->w);
    r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), bv(e->w));
    break;
  }
  case E_ADD: r = Z3_mk_bvadd(ctx, x, y); break;
  case E_SUB: r = Z3_mk_bvsub(ctx, x, y); break;
  case E_MUL: r = Z3_mk_bvmul(ctx, x, y); break;
  case E_UDIV: r = Z3_mk_bvudiv(ctx, x, y); break;
  case E_SDIV: r = Z3_mk_bvsdiv(ctx, x, y); break;
  case E_UREM: r = Z3_mk_bvurem(ctx, x, y); break;
  case E_SREM: r = Z3_mk_bvsrem(ctx, x, y); break;
  case E_AND: r = Z3_mk_bvand(ctx, x, y); break;
  case E_OR: r = Z3_mk_bvor(ctx, x, y); break;
  case E_XOR: r = Z3_mk_bvxor(ctx, x, y); break;
  case E_SHL: r = Z3_mk_bvshl(ctx, x, y); break;
  case E_LSHR: r = Z3_mk_bvlshr(ctx, x, y); break;
  case E_ASHR: r = Z3_mk_bvashr(ctx, x, y); break;
  case E_EQ: r = b2v(Z3_mk_eq(ctx, x, y)); break;
  case E_ULT: r = b2v(Z3_mk_bvult(ctx, x, y)); break;
  case E_SLT: r = b2v(Z3_mk_bvslt(ctx, x, y)); break;
  case E_ITE: r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, x, Z3_mk_unsigned_int64(ctx, 1, bv(1))), y, z); break;
  case E_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, x); break;
  case E_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, x); break;
  case E_EXTRACT: r = Z3_mk_extract(ctx, e->imm + e->w - 1, e->imm, x); break;
  case E_CONCAT: r = Z3_mk_concat(ctx, x, y); break;
  }
  z3memo[e->id] = r;
  return r;
}

u64 Solver::eval(Expr *e) {
  if (e->kconst) return e->imm;
  if (e->op == E_VAR) return model[e->imm];
  if (e->evStamp == modelVer) return e->evVal;
  u64 r = 0;
  switch (e->op) {
  case E_ITE: r = eval(e->a) ? eval(e->b) : eval(e->c); break;
  case E_ZEXT: r = eval(e->a); break;
  case E_SEXT: r = (u64)sext(eval(e->a), e->a->w) & maskw(e->w); break;
  case E_EXTRACT: r = (eval(e->a) >> e->imm) & maskw(e->w); break;
  case E_CONCAT: r = (eval(e->a) << e->b->w) | eval(e->b); break;
  default: r = foldOp(e->op, e->w, eval(e->a), eval(e->b), e->a->w);
  }
  e->evStamp = modelVer;
  e->evVal = r;
  return r;
}

bool Solver::query(Expr *cond, u64 *out, u64 &mask) {
  SH->queries.fetch_add(1, std::memory_order_relaxed);
  // independence slice
  static std::vector<Expr *> slice;
  slice.clear();
  u64 m = cond->vars;
  static std::vector<u8> in;
  in.assign(pc.size(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++)
      if (!in[i] && (pc[i]->vars & m)) {
        in[i] = 1;
        slice.push_back(pc[i]);
        if (pc[i]->vars & ~m) { m |= pc[i]->vars; ch = true; }
      }
  }
  mask = m;
  bool single = __builtin_popcountll(m) == 1;
  u64 k0 = 0, k1 = 0;
  std::sort(slice.begin(), slice.end());
  slice.erase(std::unique(slice.begin(), slice.end()), slice.end());
  for (Expr *e : slice) {
    k0 += mix64((single ? e->g0 : e->h0) + 0x1111);
    k1 += mix64((single ? e->g1 : e->h1) + 0x2222);
  }
  k0 = mix64(k0 + 3 * (single ? cond->g0 : cond->h0));
  k1 = mix64(k1 + 5 * (single ? cond->g1 : cond->h1));
  if (single) k1 ^= 0x5555;
  if (!k0) k0 = 1;
  int nv = __builtin_popcountll(m);
  // cache lookup
  u32 idx = k0 & (CACHE_N - 1);
  CacheEnt *slot = nullptr;
  if (nv <= 6) {
    for (int probe = 0; probe < 16; probe++) {
      CacheEnt *c = &CACHE[(idx + probe) & (CACHE_N - 1)];
      u32 st = c->state.load(std::memory_order_acquire);
      if (st == 0) { slot = c; break; }
      if (st >= 2 && c->h0.load(std::memory_order_relaxed) == k0 && c->h1 == k1) {
        if (st == 4 && !soft) break; // given up before, but now it must be known
        SH->cacheHits.fetch_add(1, std::memory_order_relaxed);
        if (st == 4) { gaveUp = true; return false; }
        if (st == 2) return false;
        int j = 0;
        for (int i = 0; i < MAXVARS; i++)
          if (m >> i & 1) out[i] = c->model[j++];
        return true;
      }
    }
  }
  struct timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  if (!ctx || solverCalls > 20000) {
    if (ctx) { Z3_solver_dec_ref(ctx, sol); Z3_del_context(ctx); }
    initZ3();
  }
  solverCalls++;
  Z3_solver_push(ctx, sol);
  Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1));
  for (Expr *e : slice) Z3_solver_assert(ctx, sol, Z3_mk_eq(ctx, toZ3(e), one));
  Z3_solver_assert(ctx, sol, Z3_mk_eq(ctx, toZ3(cond), one));
  Z3_lbool r = Z3_solver_check(ctx, sol);
  if (r == Z3_L_UNDEF && soft) {
    Z3_solver_pop(ctx, sol, 1);
    clock_gettime(CLOCK_MONOTONIC, &t1);
    SH->z3calls.fetch_add(1, std::memory_order_relaxed);
    SH->z3ns.fetch_add((t1.tv_sec - t0.tv_sec) * 1000000000ULL + t1.tv_nsec - t0.tv_nsec, std::memory_order_relaxed);
    SH->gaveUp.fetch_add(1, std::memory_order_relaxed);
    gaveUp = true;
    u32 z = 0;
    if (slot && slot->state.compare_exchange_strong(z, 1)) {
      slot->h0.store(k0, std::memory_order_relaxed);
      slot->h1 = k1;
      slot->state.store(4, std::memory_order_release);
    }
    return false;
  }
  if (r == Z3_L_UNDEF) {
    limit(rlimit);
    r = Z3_solver_check(ctx, sol);
    limit(softlimit);
  }
  if (r == Z3_L_UNDEF) {
    SH->unknown.fetch_add(1);
    engineError("z3 returned unknown: %s", Z3_solver_get_reason_unknown(ctx, sol));
  }
  if (r == Z3_L_TRUE) {
    Z3_model md = Z3_solver_get_model(ctx, sol);
    Z3_model_inc_ref(ctx, md);
    for (int i = 0; i < MAXVARS; i++)
      if (m >> i & 1) {
        Z3_ast v;
        Expr *ve = ET.get(E_VAR, varW[i], i);
        Z3_model_eval(ctx, md, toZ3(ve), true, &v);
        uint64_t x = 0;
        Z3_get_numeral_uint64(ctx, v, &x);
        out[i] = x;
      }
    Z3_model_dec_ref(ctx, md);
    SH->sat.fetch_add(1, std::memory_order_relaxed);
  } else SH->unsat.fetch_add(1, std::memory_order_relaxed);
  Z3_solver_pop(ctx, sol, 1);
  clock_gettime(CLOCK_MONOTONIC, &t1);
  SH->z3calls.fetch_add(1, std::memory_order_relaxed);
  SH->z3ns.fetch_add((t1.tv_sec - t0.tv_sec) * 1000000000ULL + t1.tv_nsec - t0.tv_nsec, std::memory_order_relaxed);
  if (slot) {
    u32 z = 0;
    if (slot->state.compare_exchange_strong(z, 1)) {
      slot->h0.store(k0, std::memory_order_relaxed);
      slot->h1 = k1;
      slot->n = nv;
      if (r == Z3_L_TRUE) {
        int j = 0;
        for (int i = 0; i < MAXVARS; i++)
          if (m >> i & 1) slot->model[j++] = out[i];
      }
      slot->state.store(r == Z3_L_TRUE ? 3 : 2, std::memory_order_release);
    }
  }
  return r == Z3_L_TRUE;
}

void Solver::addConstraint(Expr *c) {
  if (c->kconst) {
    if (!c->imm) engineError("internal: asserting false");
    return;
  }
  setKnown(c, 1);
  if (c->op == E_AND && c->w == 1) {
    addConstraint(c->a);
    addConstraint(c->b);
    return;
  }
  if (c->op == E_XOR && isC(c->b)) setKnown(c->a, 0);
  if (c->op == E_EQ && isC(c->b)) {
    setKnown(c->a, c->b->imm);
    if (c->a->op == E_VAR) bound |= 1ULL << c->a->imm;
  }
  pc.push_back(c);
}

void Solver::assertTrue(Expr *c, u64 m, const u64 *mod) {
  if (m) {
    for (int i = 0; i < MAXVARS; i++)
      if (m >> i & 1) model[i] = mod[i];
    modelVer++;
  }
  addConstraint(c);
  // if a single remaining variable is pinned, remember it
  u64 vs = c->vars & ~bound;
  if (vs && __builtin_popcountll(c->vars) == 1) {
    int i = __builtin_ctzll(vs);
    Expr *v = ET.get(E_VAR, varW[i], i);
    u64 tmp[MAXVARS], mk2;
    Expr *ne = mkNOT(mkEQ(v, eC(model[i], varW[i])));
    if (ne->kconst ? !ne->imm : !query(ne, tmp, mk2)) {
      bound |= 1ULL << i;
      setKnown(v, model[i]);
    }
  }
}
