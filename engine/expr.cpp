#include "expr.h"
ExprTable ET;

u64 foldOp(EOp op, unsigned w, u64 a, u64 b, unsigned aw) {
  u64 m = maskw(w);
  switch (op) {
  case E_ADD: return (a + b) & m;
  case E_SUB: return (a - b) & m;
  case E_MUL: return (a * b) & m;
  case E_UDIV: return b ? a / b : m;
  case E_UREM: return b ? a % b : a;
  case E_SDIV: {
    i64 x = sext(a, w), y = sext(b, w);
    if (!y) return (x < 0 ? 1 : m) & m;
    if (y == -1) return (0 - (u64)x) & m;
    return (u64)(x / y) & m;
  }
  case E_SREM: {
    i64 x = sext(a, w), y = sext(b, w);
    if (!y) return a;
    if (y == -1) return 0;
    return (u64)(x % y) & m;
  }
  case E_AND: return a & b;
  case E_OR: return a | b;
  case E_XOR: return a ^ b;
  case E_SHL: return b >= w ? 0 : (a << b) & m;
  case E_LSHR: return b >= w ? 0 : a >> b;
  case E_ASHR: return b >= w ? (sext(a, w) < 0 ? m : 0) : (u64)(sext(a, w) >> b) & m;
  case E_EQ: return a == b;
  case E_ULT: return a < b;
  case E_SLT: return sext(a, aw) < sext(b, aw);
  default: abort();
  }
}

// an upper bound on the unsigned value
static u64 umax(Expr *e, int d = 0) {
  if (d > 12) return maskw(e->w);
  switch (e->op) {
  case E_CONST: return e->imm;
  case E_ZEXT: return umax(e->a, d + 1);
  case E_AND: {
    u64 x = umax(e->a, d + 1), y = umax(e->b, d + 1);
    return x < y ? x : y;
  }
  case E_ITE: {
    u64 x = umax(e->b, d + 1), y = umax(e->c, d + 1);
    return x > y ? x : y;
  }
  case E_LSHR:
    if (isC(e->b)) return e->b->imm >= e->w ? 0 : umax(e->a, d + 1) >> e->b->imm;
    return umax(e->a, d + 1);
  case E_UREM:
    if (isC(e->b) && e->b->imm) return e->b->imm - 1;
    return maskw(e->w);
  default: return maskw(e->w);
  }
}

static bool constTree(Expr *e, int d = 0) {
  if (isC(e)) return true;
  if (d > 6) return false;
  return e->op == E_ITE && constTree(e->b, d + 1) && constTree(e->c, d + 1);
}

Expr *mkNOT(Expr *a) {
  if (isC(a)) return eC(~a->imm, a->w);
  if (a->op == E_XOR && isC(a->b) && a->b->imm == maskw(a->w)) return a->a;
  return ET.get(E_XOR, a->w, 0, a, eC(maskw(a->w), a->w));
}
static bool isNot(Expr *a) { return a->op == E_XOR && isC(a->b) && a->b->imm == maskw(a->w); }

Expr *mk(EOp op, Expr *a, Expr *b) {
  unsigned w = a->w;
  u64 m = maskw(w);
  if (isC(a) && isC(b)) return eC(foldOp(op, w, a->imm, b->imm, w), w);
  switch (op) {
  case E_ADD: case E_MUL: case E_AND: case E_OR: case E_XOR:
    if (isC(a) || (!isC(b) && a->h0 > b->h0)) { Expr *t = a; a = b; b = t; }
    break;
  default: break;
  }
  if (isC(b)) {
    u64 k = b->imm;
    switch (op) {
    case E_ADD:
      if (!k) return a;
      if (a->op == E_ADD && isC(a->b)) return mk(E_ADD, a->a, eC(a->b->imm + k, w));
      if (w == 1) return mkNOT(a);
      break;
    case E_SUB:
      if (!k) return a;
      return mk(E_ADD, a, eC(0 - k, w));
    case E_MUL:
      if (!k) return b;
      if (k == 1) return a;
      if ((k & (k - 1)) == 0) return mk(E_SHL, a, eC(__builtin_ctzll(k), w));
      break;
    case E_UDIV:
      if (k == 1) return a;
      if (k && (k & (k - 1)) == 0) return mk(E_LSHR, a, eC(__builtin_ctzll(k), w));
      break;
    case E_UREM:
      if (k == 1) return eC(0, w);
      if (k && (k & (k - 1)) == 0) return mk(E_AND, a, eC(k - 1, w));
      break;
    case E_AND:
      if (!k) return b;
      if (k == m) return a;
      if (a->op == E_AND && isC(a->b)) return mk(E_AND, a->a, eC(a->b->imm & k, w));
      if (a->op == E_ZEXT) return mkZEXT(mk(E_AND, a->a, eC(k & maskw(a->a->w), a->a->w)), w);
      // mask of low bits: extract
      if (((k + 1) & k) == 0) {
        unsigned n = __builtin_popcountll(k);
        return mkZEXT(mkEXTRACT(a, 0, n), w);
      }
      break;
    case E_OR:
      if (!k) return a;
      if (k == m) return b;
      if (a->op == E_OR && isC(a->b)) return mk(E_OR, a->a, eC(a->b->imm | k, w));
      break;
    case E_XOR:
      if (!k) return a;
      if (a->op == E_XOR && isC(a->b)) return mk(E_XOR, a->a, eC(a->b->imm ^ k, w));
      break;
    case E_SHL:
      if (!k) return a;
      if (k >= w) return eC(0, w);
      if (a->op == E_SHL && isC(a->b) && a->b->imm + k < w) return mk(E_SHL, a->a, eC(a->b->imm + k, w));
      break;
    case E_LSHR:
      if (!k) return a;
      if (k >= w) return eC(0, w);
      return mkZEXT(mkEXTRACT(a, k, w - k), w);
    case E_ASHR:
      if (!k) return a;
      if (umax(a) <= m >> 1) return mk(E_LSHR, a, b);
      break;
    default: break;
    }
    if (constTree(a) && a->op == E_ITE) return mkITE(a->a, mk(op, a->b, b), mk(op, a->c, b));
  }
  if (a == b) {
    if (op == E_SUB || op == E_XOR) return eC(0, w);
    if (op == E_AND || op == E_OR) return a;
  }
  if (w == 1) {
    if (op == E_AND && (isNot(a) ? a->a == b : (isNot(b) && b->a == a))) return eC(0, 1);
    if (op == E_OR && (isNot(a) ? a->a == b : (isNot(b) && b->a == a))) return eC(1, 1);
  }
  // combine zero-extended operands in the narrow width for bit ops
  if ((op == E_AND || op == E_OR || op == E_XOR) && a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w)
    return mkZEXT(mk(op, a->a, b->a), w);
  return ET.get(op, w, 0, a, b);
}

Expr *mkEQ(Expr *a, Expr *b) {
  if (a == b) return eTrue();
  if (isC(a)) { Expr *t = a; a = b; b = t; }
  if (isC(a)) return eC(a->imm == b->imm, 1);
  if (isC(b)) {
    u64 k = b->imm;
    if (a->w == 1) return k ? a : mkNOT(a);
    switch (a->op) {
    case E_ZEXT:
      if (k > maskw(a->a->w)) return eFalse();
      return mkEQ(a->a, eC(k, a->a->w));
    case E_SEXT: {
      unsigned iw = a->a->w;
      if (((u64)sext(k & maskw(iw), iw) & maskw(a->w)) != k) return eFalse();
      return mkEQ(a->a, eC(k, iw));
    }
    case E_ADD:
      if (isC(a->b)) return mkEQ(a->a, eC(k - a->b->imm, a->w));
      break;
    case E_XOR:
      if (isC(a->b)) return mkEQ(a->a, eC(k ^ a->b->imm, a->w));
      break;
    case E_CONCAT: {
      unsigned lw = a->b->w;
      return mk(E_AND, mkEQ(a->a, eC(k >> lw, a->a->w)), mkEQ(a->b, eC(k, lw)));
    }
    case E_ITE: {
      if (isC(a->b)) {
        if (a->b->imm == k) return mk(E_OR, a->a, mkEQ(a->c, b));
        return mk(E_AND, mkNOT(a->a), mkEQ(a->c, b));
      }
      if (isC(a->c)) {
        if (a->c->imm == k) return mk(E_OR, mkNOT(a->a), mkEQ(a->b, b));
        return mk(E_AND, a->a, mkEQ(a->b, b));
      }
      break;
    }
    case E_SHL:
      if (isC(a->b)) {
        unsigned s = a->b->imm;
        if (k & maskw(s)) return eFalse();
        return mkEQ(mkEXTRACT(a->a, 0, a->w - s), eC(k >> s, a->w - s));
      }
      break;
    default: break;
    }
    if (k > umax(a)) return eFalse();
  } else {
    if (a->op == E_ZEXT && b->op == E_ZEXT) {
      if (a->a->w == b->a->w) return mkEQ(a->a, b->a);
      if (a->a->w < b->a->w) return mkEQ(mkZEXT(a->a, b->a->w), b->a);
      return mkEQ(a->a, mkZEXT(b->a, a->a->w));
    }
    if (a->h0 > b->h0) { Expr *t = a; a = b; b = t; }
  }
  return ET.get(E_EQ, 1, 0, a, b);
}

Expr *mkULT(Expr *a, Expr *b) {
  if (a == b) return eFalse();
  if (isC(a) && isC(b)) return eC(a->imm < b->imm, 1);
  if (isC(b)) {
    u64 k = b->imm;
    if (k == 0) return eFalse();
    if (umax(a) < k) return eTrue();
    if (k == 1) return mkEQ(a, eC(0, a->w));
    if (a->op == E_ZEXT) return mkULT(a->a, eC(k, a->a->w));
    if (constTree(a)) return mkITE(a->a, mkULT(a->b, b), mkULT(a->c, b));
  }
  if (isC(a)) {
    u64 k = a->imm;
    if (umax(b) <= k) return eFalse();
    if (k == 0) return mkNOT(mkEQ(b, eC(0, b->w)));
    if (b->op == E_ZEXT) return mkULT(eC(k, b->a->w), b->a);
    if (constTree(b)) return mkITE(b->a, mkULT(a, b->b), mkULT(a, b->c));
  }
  if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkULT(a->a, b->a);
  return ET.get(E_ULT, 1, 0, a, b);
}

Expr *mkSLT(Expr *a, Expr *b) {
  if (a == b) return eFalse();
  unsigned w = a->w;
  if (isC(a) && isC(b)) return eC(sext(a->imm, w) < sext(b->imm, w), 1);
  u64 pos = maskw(w) >> 1;
  bool ap = umax(a) <= pos, bp = umax(b) <= pos;
  if (ap && bp) return mkULT(a, b);
  if (ap && isC(b)) return eFalse(); // b negative constant
  if (bp && isC(a)) return eTrue();  // a negative constant
  return ET.get(E_SLT, 1, 0, a, b);
}

Expr *mkITE(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->imm ? a : b;
  if (a == b) return a;
  if (isNot(c)) return mkITE(c->a, b, a);
  if (a->w == 1) {
    if (isC(a)) return a->imm ? mk(E_OR, c, b) : mk(E_AND, mkNOT(c), b);
    if (isC(b)) return b->imm ? mk(E_OR, mkNOT(c), a) : mk(E_AND, c, a);
  }
  if (b->op == E_ITE && b->b == a) return mkITE(mk(E_OR, c, b->a), a, b->c);
  return ET.get(E_ITE, a->w, 0, c, a, b);
}

Expr *mkZEXT(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return eC(a->imm, w);
  if (a->op == E_ZEXT) return mkZEXT(a->a, w);
  if (a->op == E_ITE && constTree(a)) return mkITE(a->a, mkZEXT(a->b, w), mkZEXT(a->c, w));
  return ET.get(E_ZEXT, w, 0, a);
}
Expr *mkSEXT(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return eC((u64)sext(a->imm, a->w), w);
  if (umax(a) <= maskw(a->w) >> 1) return mkZEXT(a, w);
  if (a->op == E_ITE && constTree(a)) return mkITE(a->a, mkSEXT(a->b, w), mkSEXT(a->c, w));
  return ET.get(E_SEXT, w, 0, a);
}
Expr *mkEXTRACT(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return eC(a->imm >> lo, w);
  switch (a->op) {
  case E_ZEXT: {
    unsigned iw = a->a->w;
    if (lo >= iw) return eC(0, w);
    if (lo + w <= iw) return mkEXTRACT(a->a, lo, w);
    return mkZEXT(mkEXTRACT(a->a, lo, iw - lo), w);
  }
  case E_SEXT: {
    unsigned iw = a->a->w;
    if (lo + w <= iw) return mkEXTRACT(a->a, lo, w);
    break;
  }
  case E_EXTRACT: return mkEXTRACT(a->a, a->imm + lo, w);
  case E_CONCAT: {
    unsigned lw = a->b->w;
    if (lo + w <= lw) return mkEXTRACT(a->b, lo, w);
    if (lo >= lw) return mkEXTRACT(a->a, lo - lw, w);
    return mkCONCAT(mkEXTRACT(a->a, 0, lo + w - lw), mkEXTRACT(a->b, lo, lw - lo));
  }
  case E_AND: case E_OR: case E_XOR:
    if (isC(a->b) || w == 8 || w == 1) return mk(a->op, mkEXTRACT(a->a, lo, w), mkEXTRACT(a->b, lo, w));
    break;
  case E_ADD:
    if (lo == 0) return mk(a->op, mkEXTRACT(a->a, 0, w), mkEXTRACT(a->b, 0, w));
    break;
  case E_ITE:
    if (constTree(a) || w == 8) return mkITE(a->a, mkEXTRACT(a->b, lo, w), mkEXTRACT(a->c, lo, w));
    break;
  case E_SHL:
    if (isC(a->b)) {
      unsigned s = a->b->imm;
      if (lo >= s) return mkEXTRACT(a->a, lo - s, w);
      if (lo + w <= s) return eC(0, w);
      return mkCONCAT(mkEXTRACT(a->a, 0, lo + w - s), eC(0, s - lo));
    }
    break;
  default: break;
  }
  return ET.get(E_EXTRACT, w, lo, a);
}
Expr *mkCONCAT(Expr *h, Expr *l) {
  unsigned w = h->w + l->w;
  if (isC(h) && isC(l)) return eC((h->imm << l->w) | l->imm, w);
  if (isC(h) && h->imm == 0) return mkZEXT(l, w);
  if (h->op == E_EXTRACT && l->op == E_EXTRACT && h->a == l->a && h->imm == l->imm + l->w) return mkEXTRACT(h->a, l->imm, w);
  // low part is a narrow full expression and high part extracts right above it
  if (h->op == E_EXTRACT && h->imm == l->w && mkEXTRACT(h->a, 0, l->w) == l) return mkEXTRACT(h->a, 0, w);
  if (h->op == E_CONCAT) {
    Expr *t = mkCONCAT(h->b, l);
    if (t->op != E_CONCAT) return mkCONCAT(h->a, t);
  }
  if (h->op == E_ZEXT && h->a->w < h->w) return mkZEXT(mkCONCAT(h->a, l), w);
  return ET.get(E_CONCAT, w, 0, h, l);
}
