// Hash-consed bit-vector expressions with exact per-byte value tables.
#include "sx.h"

namespace {
struct Spin { std::atomic_flag f = ATOMIC_FLAG_INIT; void lock() { while (f.test_and_set(std::memory_order_acquire)) __builtin_ia32_pause(); } void unlock() { f.clear(std::memory_order_release); } };
struct Arena { char* p = nullptr; size_t left = 0; void* get(size_t n) { n = (n + 15) & ~15ull; if (n > left) { size_t m = n > (1 << 20) ? n : (1 << 20); p = (char*)malloc(m); left = m; } void* r = p; p += n; left -= n; return r; } };
const int NSH = 256;
struct Shard { Spin l; std::vector<Expr*> tb; size_t n = 0; Arena ar; };
struct TShard { Spin l; std::vector<Tab*> tb; size_t n = 0; };
Shard sh[NSH]; TShard tsh[NSH];
std::atomic<u32> nextId{1}, nextTab{1};

inline u64 mix(u64 h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33; return h; }
u64 hashOf(u8 op, u8 w, u64 k, Expr** kid, int nk, const Tab* t) {
  u64 h = mix(op * 0x9e3779b97f4a7c15ull + w * 1315423911ull + k);
  for (int i = 0; i < nk; i++) h = mix(h ^ (u64)kid[i]->id * 0x9e3779b97f4a7c15ull);
  if (t) h = mix(h ^ t->id);
  return h;
}
u64 hashE(const Expr* e) { return hashOf(e->op, e->w, e->k, e->kid, e->nk, e->op == O_LOADTAB ? e->tab : nullptr); }

const Tab* internTab(const u64* v) {
  u64 h = 0x1234567; for (int i = 0; i < 256; i++) h = (h ^ v[i]) * 0x9e3779b97f4a7c15ull + (h >> 29);
  h = mix(h);
  TShard& s = tsh[h & (NSH - 1)];
  s.l.lock();
  if (s.tb.empty()) s.tb.resize(64, nullptr);
  size_t m = s.tb.size() - 1, i = (h >> 8) & m;
  while (s.tb[i]) { if (s.tb[i]->hash == h && !memcmp(s.tb[i]->v, v, sizeof(u64) * 256)) { Tab* r = s.tb[i]; s.l.unlock(); return r; } i = (i + 1) & m; }
  Tab* t = new Tab; memcpy(t->v, v, sizeof t->v); t->hash = h; t->id = nextTab++;
  s.tb[i] = t; s.n++;
  if (s.n * 2 > s.tb.size()) { std::vector<Tab*> nt(s.tb.size() * 2, nullptr); size_t nm = nt.size() - 1; for (Tab* x : s.tb) if (x) { size_t j = (x->hash >> 8) & nm; while (nt[j]) j = (j + 1) & nm; nt[j] = x; } s.tb.swap(nt); }
  s.l.unlock(); return t;
}

Expr* intern(u8 op, u8 w, u64 k, Expr** kid, int nk, const Tab* ltab, int ltabVar) {
  u64 h = hashOf(op, w, k, kid, nk, ltab);
  Shard& s = sh[h & (NSH - 1)];
  auto find = [&](size_t& i) -> Expr* {
    size_t m = s.tb.size() - 1; i = (h >> 8) & m;
    while (Expr* e = s.tb[i]) {
      if (e->op == op && e->w == w && e->k == k && e->nk == nk && (op != O_LOADTAB || e->tab == ltab)) {
        bool same = true; for (int j = 0; j < nk; j++) if (e->kid[j] != kid[j]) { same = false; break; }
        if (same) return e;
      }
      i = (i + 1) & m;
    }
    return nullptr; };
  s.l.lock();
  if (s.tb.empty()) s.tb.resize(256, nullptr);
  size_t i; if (Expr* e = find(i)) { s.l.unlock(); return e; }
  s.l.unlock();
  // Build annotations outside the lock.
  VMask vm{{0, 0, 0}}; bool undef = op == O_UNDEF; int var = -2; bool tabbable = op != O_UNDEF && op != O_UF;
  for (int j = 0; j < nk; j++) { vm.orr(kid[j]->vm); undef |= kid[j]->undef; }
  const Tab* tab = nullptr;
  if (op == O_VAR) { vm.set((int)k); if (w == 8) { u64 v[256]; for (int j = 0; j < 256; j++) v[j] = j; tab = internTab(v); var = (int)k; } }
  else if (op == O_LOADTAB) { tab = ltab; var = ltabVar; }
  else if (tabbable && !undef && nk) {
    for (int j = 0; j < nk && tabbable; j++) { Expr* q = kid[j]; if (q->op == O_CONST) continue; if (q->var < 0 || !q->tab) tabbable = false; else if (var == -2) var = q->var; else if (var != q->var) tabbable = false; }
    if (tabbable && var >= 0) {
      u64 v[256];
      for (int x = 0; x < 256; x++) {
        auto kv = [&](int j) { return kid[j]->op == O_CONST ? kid[j]->k : kid[j]->tab->v[x]; };
        switch (op) {
          case O_ZEXT: v[x] = kv(0); break;
          case O_SEXT: v[x] = (u64)sextw(kv(0), kid[0]->w) & maskw(w); break;
          case O_EXTRACT: v[x] = (kv(0) >> k) & maskw(w); break;
          case O_CONCAT: { u64 r = 0; for (int j = 0; j < nk; j++) r |= (kv(j) & 255) << (8 * j); v[x] = r; break; }
          case O_ITE: v[x] = kv(0) ? kv(1) : kv(2); break;
          default: v[x] = evalOp((Op)op, w, kid[0]->w, kv(0), kv(1)); break;
        }
      }
      bool same = true; for (int x = 1; x < 256; x++) if (v[x] != v[0]) { same = false; break; }
      if (same) return eConst(v[0], w);
      tab = internTab(v);
    }
  }
  s.l.lock();
  if (Expr* e = find(i)) { s.l.unlock(); return e; }
  Expr* e = (Expr*)s.ar.get(sizeof(Expr)); e->kid = nk ? (Expr**)s.ar.get(sizeof(Expr*) * nk) : nullptr;
  for (int j = 0; j < nk; j++) e->kid[j] = kid[j];
  e->op = op; e->w = w; e->nk = nk; e->k = k; e->undef = undef; e->vm = vm; e->tab = tab; e->var = tab ? var : -1; e->id = nextId++;
  s.tb[i] = e; s.n++;
  if (s.n * 2 > s.tb.size()) { std::vector<Expr*> nt(s.tb.size() * 2, nullptr); size_t nm = nt.size() - 1; for (Expr* x : s.tb) if (x) { size_t j = (hashE(x) >> 8) & nm; while (nt[j]) j = (j + 1) & nm; nt[j] = x; } s.tb.swap(nt); }
  s.l.unlock(); return e;
}
}  // namespace

u64 exprCount() { return nextId; }

u64 evalOp(Op op, unsigned w, unsigned wa, u64 a, u64 b) {
  u64 m = maskw(wa);
  switch (op) {
    case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? (a / b) & m : m;
    case O_UREM: return b ? (a % b) & m : a;
    case O_SDIV: { i64 x = sextw(a, wa), y = sextw(b, wa); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
    case O_SREM: { i64 x = sextw(a, wa), y = sextw(b, wa); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
    case O_SHL: return b >= wa ? 0 : (a << b) & m; case O_LSHR: return b >= wa ? 0 : a >> b;
    case O_ASHR: { i64 x = sextw(a, wa); return (u64)(x >> (b >= wa ? wa - 1 : b)) & m; }
    case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
    case O_SLT: return sextw(a, wa) < sextw(b, wa); case O_SLE: return sextw(a, wa) <= sextw(b, wa);
    default: abort();
  }
}

Expr* eConst(u64 v, unsigned w) { return intern(O_CONST, w, v & maskw(w), nullptr, 0, nullptr, -1); }
Expr* eVar(int idx, unsigned w) { return intern(O_VAR, w, idx, nullptr, 0, nullptr, -1); }
Expr* eUndef() { static Expr* u = intern(O_UNDEF, 8, 0, nullptr, 0, nullptr, -1); return u; }
Expr* eNot(Expr* a) { return eBin(O_XOR, a, eConst(1, 1)); }

static bool isC(Expr* e) { return e->op == O_CONST; }
static bool isC(Expr* e, u64 v) { return e->op == O_CONST && e->k == v; }

Expr* eBin(Op op, Expr* a, Expr* b) {
  unsigned wa = a->w; unsigned w = (op >= O_EQ && op <= O_SLE) ? 1 : wa;
  if (isC(a) && isC(b)) return eConst(evalOp(op, w, wa, a->k, b->k), w);
  u64 m = maskw(wa);
  // commutative: constant on the right
  if (isC(a) && (op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ)) std::swap(a, b);
  switch (op) {
    case O_SUB: if (isC(b)) return eBin(O_ADD, a, eConst(0 - b->k, wa)); if (a == b && !a->undef) return eConst(0, wa); break;
    case O_ADD: if (isC(b, 0)) return a; if (isC(b) && a->op == O_ADD && isC(a->kid[1])) return eBin(O_ADD, a->kid[0], eConst(a->kid[1]->k + b->k, wa)); break;
    case O_MUL: if (isC(b, 1)) return a; if (isC(b, 0)) return b; break;
    case O_AND: if (isC(b, 0)) return b; if (isC(b, m)) return a; if (a == b) return a;
      if (isC(b) && b->k == 0xff && wa > 8) return eExt(O_ZEXT, eExtract(a, 0, 8), wa);
      if (isC(b) && b->k == 0xffff && wa > 16) return eExt(O_ZEXT, eExtract(a, 0, 16), wa);
      if (isC(b) && b->k == 0xffffffffull && wa > 32) return eExt(O_ZEXT, eExtract(a, 0, 32), wa);
      if (wa == 64 && isC(b) && a->op == O_CONCAT && b->k == 0xffffffff00000000ull) { Expr* k[8]; for (int i = 0; i < 8; i++) k[i] = i < 4 ? eConst(0, 8) : a->kid[i]; return eConcat(k, 8); }
      break;
    case O_OR: if (isC(b, 0)) return a; if (isC(b, m)) return b; if (a == b) return a;
      for (int sw = 0; sw < 2; sw++) {  // the high and the low part of one value put together again
        Expr *h = sw ? b : a, *l = sw ? a : b; Expr* x = nullptr; u64 k = 0;
        if (h->op == O_SHL && isC(h->kid[1]) && h->kid[0]->op == O_LSHR && h->kid[0]->kid[1] == h->kid[1]) { x = h->kid[0]->kid[0]; k = h->kid[1]->k; }
        else if (h->op == O_AND && isC(h->kid[1])) { u64 z = ~h->kid[1]->k & m; if (z && !(z & (z + 1))) { x = h->kid[0]; k = __builtin_popcountll(z); } }
        if (x && l->op == O_ZEXT && l->kid[0]->w == k && l->kid[0] == eExtract(x, 0, k)) return x;
      }
      if (wa > 8 && wa % 8 == 0 && (a->undef || b->undef || (a->op == O_CONCAT && b->op == O_CONCAT))) {  // byte-wise OR of disjoint parts
        int n = wa / 8; Expr* k[8]; bool ok = true;
        for (int i = 0; i < n && ok; i++) { Expr* x = eExtract(a, 8 * i, 8); Expr* y = eExtract(b, 8 * i, 8); if (isC(x, 0)) k[i] = y; else if (isC(y, 0)) k[i] = x; else ok = false; }
        if (ok) return eConcat(k, n);
      }
      break;
    case O_XOR: if (isC(b, 0)) return a; if (a == b && !a->undef) return eConst(0, wa); if (isC(b) && a->op == O_XOR && isC(a->kid[1])) return eBin(O_XOR, a->kid[0], eConst(a->kid[1]->k ^ b->k, wa)); break;
    case O_SHL: case O_LSHR: if (isC(b, 0)) return a;
      if (isC(b) && b->k % 8 == 0 && wa % 8 == 0 && b->k < wa && (a->op == O_CONCAT || a->undef || a->op == O_ZEXT)) {
        int n = wa / 8, s = b->k / 8; Expr* k[8];
        for (int i = 0; i < n; i++) { int j = op == O_LSHR ? i + s : i - s; k[i] = (j >= 0 && j < n) ? eExtract(a, 8 * j, 8) : eConst(0, 8); }
        return eConcat(k, n);
      }
      break;
    case O_ASHR: if (isC(b, 0)) return a; break;
    case O_EQ:
      if (a == b && !a->undef) return eConst(1, 1);
      if (wa == 1 && isC(b)) return b->k ? a : eNot(a);
      if (isC(b) && a->op == O_ZEXT) { if (b->k > maskw(a->kid[0]->w)) return eConst(0, 1); return eBin(O_EQ, a->kid[0], eConst(b->k, a->kid[0]->w)); }
      if (isC(b) && a->op == O_ADD && isC(a->kid[1])) return eBin(O_EQ, a->kid[0], eConst(b->k - a->kid[1]->k, wa));
      if (isC(b) && a->op == O_ITE && isC(a->kid[1]) && isC(a->kid[2])) { bool p = a->kid[1]->k == b->k, q = a->kid[2]->k == b->k; if (p && q) return eConst(1, 1); if (!p && !q) return eConst(0, 1); return p ? a->kid[0] : eNot(a->kid[0]); }
      if (!isC(b) && a->id > b->id) std::swap(a, b);
      break;
    case O_ULT: if (a == b && !a->undef) return eConst(0, 1); if (isC(b, 0)) return b->w == 1 ? eConst(0, 1) : eConst(0, 1); break;
    case O_SLT: if (a == b && !a->undef) return eConst(0, 1); break;
    case O_ULE: case O_SLE: if (a == b && !a->undef) return eConst(1, 1); break;
    default: break;
  }
  Expr* k[2] = {a, b};
  return intern(op, w, 0, k, 2, nullptr, -1);
}
Expr* eExt(Op op, Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return eConst(op == O_SEXT ? (u64)sextw(a->k, a->w) : a->k, w);
  if (op == O_ZEXT && a->op == O_ZEXT) return eExt(O_ZEXT, a->kid[0], w);
  if (op == O_SEXT && a->op == O_ZEXT) return eExt(O_ZEXT, a->kid[0], w);
  if (a->undef && op == O_ZEXT && a->w % 8 == 0 && w % 8 == 0) { Expr* k[8]; for (unsigned i = 0; i < w / 8; i++) k[i] = i < a->w / 8 ? eExtract(a, 8 * i, 8) : eConst(0, 8); return eConcat(k, w / 8); }
  return intern(op, w, 0, &a, 1, nullptr, -1);
}
Expr* eExtract(Expr* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return eConst(a->k >> lo, w);
  if (a->op == O_EXTRACT) return eExtract(a->kid[0], lo + a->k, w);
  if (a->op == O_ZEXT || a->op == O_SEXT) {
    Expr* q = a->kid[0];
    if (lo + w <= q->w) return eExtract(q, lo, w);
    if (a->op == O_ZEXT && lo >= q->w) return eConst(0, w);
    if (a->op == O_ZEXT && lo == 0) return eExt(O_ZEXT, q, w);
    if (a->op == O_SEXT && lo == 0) return eExt(O_SEXT, q, w);
  }
  if (a->op == O_CONCAT && lo % 8 == 0 && w % 8 == 0) return eConcat(a->kid + lo / 8, w / 8);
  if (a->op == O_CONCAT && (lo / 8) == (lo + w - 1) / 8) return eExtract(a->kid[lo / 8], lo % 8, w);
  if (a->op == O_ITE && isC(a->kid[1]) && isC(a->kid[2])) return eIte(a->kid[0], eExtract(a->kid[1], lo, w), eExtract(a->kid[2], lo, w));
  return intern(O_EXTRACT, w, lo, &a, 1, nullptr, -1);
}
Expr* eConcat(Expr** b, int n) {
  if (n == 1) return b[0];
  bool allc = true; for (int i = 0; i < n; i++) if (!isC(b[i])) { allc = false; break; }
  if (allc) { u64 v = 0; for (int i = 0; i < n; i++) v |= (b[i]->k & 255) << (8 * i); return eConst(v, 8 * n); }
  // consecutive extracts of one base?
  if (b[0]->op == O_EXTRACT && b[0]->w == 8) {
    Expr* base = b[0]->kid[0]; bool ok = true;
    for (int i = 1; i < n; i++) if (b[i]->op != O_EXTRACT || b[i]->w != 8 || b[i]->kid[0] != base || b[i]->k != b[0]->k + 8 * i) { ok = false; break; }
    if (ok) return eExtract(base, b[0]->k, 8 * n);
  }
  // zero high bytes -> zext
  int hi = n; while (hi > 1 && isC(b[hi - 1], 0)) hi--;
  if (hi < n) { Expr* lo = eConcat(b, hi); if (!lo->undef) return intern(O_ZEXT, 8 * n, 0, &lo, 1, nullptr, -1); }
  return intern(O_CONCAT, 8 * n, 0, b, n, nullptr, -1);
}
Expr* eIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->k ? a : b;
  if (a == b) return a;
  if (a->w == 1 && isC(a, 1) && isC(b, 0)) return c;
  if (a->w == 1 && isC(a, 0) && isC(b, 1)) return eNot(c);
  Expr* k[3] = {c, a, b};
  return intern(O_ITE, a->w, 0, k, 3, nullptr, -1);
}
Expr* eLoadTab(Expr* idx, const u64* v, unsigned w) {
  bool same = true; for (int x = 1; x < 256; x++) if (v[x] != v[0]) { same = false; break; }
  if (same) return eConst(v[0], w);
  const Tab* t = internTab(v);
  // keyed on the variable and the value table (idx only names the variable)
  Expr* var = eVar(idx->var, 8);
  return intern(O_LOADTAB, w, 0, &var, 1, t, idx->var);
}
Expr* eUF(u64 id, unsigned w, Expr** kids, int n) { return intern(O_UF, w, id, kids, n, nullptr, -1); }
