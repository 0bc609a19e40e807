// Hash-consed bit-vector expressions, simplification, evaluation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;
typedef int64_t i64;
typedef int32_t i32;

enum EOp : u8 {
  E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_SLT, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT
};

struct Expr {
  EOp op;
  u8 w;        // width in bits 1..64
  u8 known;    // path-scoped: value fixed on this path
  u8 kconst;   // is constant
  u32 id;
  u16 depth;
  u16 mixes;   // exclusive-ors of unknowns inside each other: a hash
  u64 imm;     // const value, var index, extract offset
  Expr *a, *b, *c;
  u64 vars;    // variable mask
  u64 h0, h1;  // structural hash with variable identity
  u64 g0, g1;  // structural hash with anonymous variables
  u64 kval;    // value when known
  u64 evStamp; // eval memo
  u64 evVal;
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sext(u64 v, unsigned w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w))) >> (64 - w); }
static inline u64 mix64(u64 x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; x ^= x >> 31;
  return x;
}

struct ExprTable {
  std::vector<Expr *> tab;
  size_t count = 0;
  u32 nextId = 1;
  char *blk = nullptr;
  size_t blkLeft = 0;
  ExprTable() { tab.assign(1 << 16, nullptr); }
  Expr *alloc() {
    if (blkLeft < sizeof(Expr)) { blkLeft = 1 << 20; blk = (char *)malloc(blkLeft); }
    Expr *e = (Expr *)blk;
    blk += sizeof(Expr);
    blkLeft -= sizeof(Expr);
    return e;
  }
  void grow() {
    std::vector<Expr *> n(tab.size() * 2, nullptr);
    size_t m = n.size() - 1;
    for (Expr *e : tab)
      if (e) {
        size_t i = e->h0 & m;
        while (n[i]) i = (i + 1) & m;
        n[i] = e;
      }
    tab.swap(n);
  }
  Expr *get(EOp op, unsigned w, u64 imm, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr) {
    u64 s0 = mix64(((u64)op << 56) ^ ((u64)w << 48) ^ 0x9e3779b97f4a7c15ULL);
    u64 s1 = mix64(s0 ^ 0x123456789abcdefULL);
    u64 hi = mix64(imm + 0x51ed270b3ULL), hj = mix64(imm ^ 0xdeadbeefcafef00dULL);
    u64 h0 = mix64(s0 + hi * 3), h1 = mix64(s1 + hj * 5);
    u64 gimm = op == E_VAR ? 0 : imm;
    u64 gi = mix64(gimm + 0x51ed270b3ULL), gj = mix64(gimm ^ 0xdeadbeefcafef00dULL);
    u64 g0 = mix64(s0 + gi * 3 + 1), g1 = mix64(s1 + gj * 5 + 1);
    Expr *ch[3] = {a, b, c};
    for (int i = 0; i < 3; i++)
      if (ch[i]) {
        h0 = mix64(h0 * 7 + ch[i]->h0 * (2 * i + 3));
        h1 = mix64(h1 * 11 + ch[i]->h1 * (2 * i + 5));
        g0 = mix64(g0 * 7 + ch[i]->g0 * (2 * i + 3));
        g1 = mix64(g1 * 11 + ch[i]->g1 * (2 * i + 5));
      }
    size_t m = tab.size() - 1, i = h0 & m;
    while (Expr *e = tab[i]) {
      if (e->h0 == h0 && e->op == op && e->w == w && e->imm == imm && e->a == a && e->b == b && e->c == c) return e;
      i = (i + 1) & m;
    }
    Expr *e = alloc();
    memset(e, 0, sizeof *e);
    e->op = op; e->w = w; e->imm = imm; e->a = a; e->b = b; e->c = c;
    e->kconst = op == E_CONST;
    e->id = nextId++;
    for (Expr *x : ch)
      if (x) {
        if (x->depth >= e->depth && x->depth < 60000) e->depth = x->depth + 1;
        if (x->mixes > e->mixes) e->mixes = x->mixes;
      }
    if (op == E_XOR && w > 8 && !a->kconst && !b->kconst && e->mixes < 60000) e->mixes++;
    e->h0 = h0; e->h1 = h1; e->g0 = g0; e->g1 = g1;
    e->vars = op == E_VAR ? 1ULL << imm : (a ? a->vars : 0) | (b ? b->vars : 0) | (c ? c->vars : 0);
    tab[i] = e;
    if (++count * 2 > tab.size()) grow();
    return e;
  }
};
extern ExprTable ET;

static inline Expr *eC(u64 v, unsigned w) { return ET.get(E_CONST, w, v & maskw(w)); }
static inline bool isC(Expr *e) { return e->kconst; }
static inline Expr *eTrue() { return eC(1, 1); }
static inline Expr *eFalse() { return eC(0, 1); }

u64 foldOp(EOp op, unsigned w, u64 a, u64 b, unsigned aw);
Expr *mk(EOp op, Expr *a, Expr *b);            // binary arithmetic / logic
Expr *mkEQ(Expr *a, Expr *b);
Expr *mkULT(Expr *a, Expr *b);
Expr *mkSLT(Expr *a, Expr *b);
Expr *mkNOT(Expr *a);
Expr *mkITE(Expr *c, Expr *a, Expr *b);
Expr *mkZEXT(Expr *a, unsigned w);
Expr *mkSEXT(Expr *a, unsigned w);
Expr *mkEXTRACT(Expr *a, unsigned lo, unsigned w);
Expr *mkCONCAT(Expr *hi, Expr *lo);
