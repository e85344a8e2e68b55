// Z3 back end.
#include "sx.h"
#include <z3++.h>
#include <chrono>

SolverStats gSolver;
struct Z3Ctx { z3::context c; std::unordered_map<u32, z3::expr> memo; z3::solver s; std::map<std::pair<u64, unsigned>, z3::func_decl*> ufs;
  Z3Ctx() : s(c, z3::solver::simple()) { z3::params p(c); p.set("timeout", 20000u); s.set(p); } };
Z3Ctx* z3New() { return new Z3Ctx; }

static z3::expr b2v(z3::context& c, const z3::expr& b) { return z3::ite(b, c.bv_val(1, 1), c.bv_val(0, 1)); }
static z3::expr domFormula(z3::context& c, const z3::expr& v, const Dom& d) {
  z3::expr r = c.bool_val(false); int i = 0; 
  while (i < 256) { if (!d.has(i)) { i++; continue; } int j = i; while (j + 1 < 256 && d.has(j + 1)) j++;
    z3::expr t = i == j ? (v == c.bv_val(i, 8)) : (z3::uge(v, c.bv_val(i, 8)) && z3::ule(v, c.bv_val(j, 8)));
    r = r || t; i = j + 1; }
  return r;
}
static const z3::expr& tr(Z3Ctx* Z, Expr* e) {
  auto it = Z->memo.find(e->id); if (it != Z->memo.end()) return it->second;
  z3::context& c = Z->c; z3::expr r(c);
  auto K = [&](int i) { return z3::expr(tr(Z, e->kid[i])); };
  switch (e->op) {
    case O_CONST: r = c.bv_val((uint64_t)e->k, e->w); break;
    case O_VAR: r = c.bv_const(("v" + std::to_string(e->k) + "_" + std::to_string(e->w)).c_str(), e->w); break;
    case O_UNDEF: r = c.bv_const("undef", 8); break;
    case O_ADD: r = K(0) + K(1); break; case O_SUB: r = K(0) - K(1); break; case O_MUL: r = K(0) * K(1); break;
    case O_UDIV: r = z3::udiv(K(0), K(1)); break; case O_SDIV: r = K(0) / K(1); break;
    case O_UREM: r = z3::urem(K(0), K(1)); break; case O_SREM: r = z3::srem(K(0), K(1)); break;
    case O_AND: r = K(0) & K(1); break; case O_OR: r = K(0) | K(1); break; case O_XOR: r = K(0) ^ K(1); break;
    case O_SHL: r = z3::shl(K(0), K(1)); break; case O_LSHR: r = z3::lshr(K(0), K(1)); break; case O_ASHR: r = z3::ashr(K(0), K(1)); break;
    case O_EQ: r = b2v(c, K(0) == K(1)); break; case O_ULT: r = b2v(c, z3::ult(K(0), K(1))); break; case O_ULE: r = b2v(c, z3::ule(K(0), K(1))); break;
    case O_SLT: r = b2v(c, K(0) < K(1)); break; case O_SLE: r = b2v(c, K(0) <= K(1)); break;
    case O_ZEXT: r = z3::zext(K(0), e->w - e->kid[0]->w); break; case O_SEXT: r = z3::sext(K(0), e->w - e->kid[0]->w); break;
    case O_EXTRACT: r = K(0).extract(e->k + e->w - 1, e->k); break;
    case O_CONCAT: { r = K(0); for (int i = 1; i < e->nk; i++) r = z3::concat(K(i), r); break; }
    case O_ITE: r = z3::ite(K(0) == c.bv_val(1, 1), K(1), K(2)); break;
    case O_LOADTAB: {  // finite function of one byte: ite over the sets of equal value
      z3::expr v = K(0); std::map<u64, Dom> g; std::map<u64, int> cnt;
      for (int i = 0; i < 256; i++) { auto p = g.find(e->tab->v[i]); if (p == g.end()) { Dom d; d.clear(); p = g.emplace(e->tab->v[i], d).first; } p->second.set(i); cnt[e->tab->v[i]]++; }
      u64 best = 0; int bc = -1; for (auto& p : cnt) if (p.second > bc) bc = p.second, best = p.first;
      r = c.bv_val((uint64_t)best, e->w);
      for (auto& p : g) if (p.first != best) r = z3::ite(domFormula(c, v, p.second), c.bv_val((uint64_t)p.first, e->w), r);
      break; }
    case O_UF: {
      z3::sort_vector dom(c); z3::expr_vector args(c); for (int i = 0; i < e->nk; i++) { dom.push_back(c.bv_sort(e->kid[i]->w)); args.push_back(K(i)); }
      z3::func_decl f = c.function(("uf" + std::to_string(e->k) + "_" + std::to_string(e->nk)).c_str(), dom, c.bv_sort(e->w));
      r = f(args); break; }
    default: abort();
  }
  return Z->memo.emplace(e->id, r).first->second;
}

int z3Check(Z3Ctx* Z, const std::vector<Expr*>& cs, const std::vector<Dom>& doms, const std::vector<u8>& widths, std::map<int, u64>* model, bool structural) {
  auto t0 = std::chrono::steady_clock::now();
  gSolver.queries++;
  int res;
  try {
    if (Z->memo.size() > 200000) Z->memo.clear();
    Z->s.push();
    VMask vm{{0, 0, 0}};
    for (Expr* e : cs) { vm.orr(e->vm); Z->s.add(tr(Z, e) == Z->c.bv_val(1, 1)); }
    if (!structural) for (int i = 0; i < (int)doms.size(); i++) if (vm.has(i) && widths[i] == 8 && doms[i].count() < 256) Z->s.add(domFormula(Z->c, tr(Z, eVar(i, 8)), doms[i]));
    z3::check_result r = Z->s.check();
    res = r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
    if (res == 1 && model) {
      z3::model m = Z->s.get_model();
      for (int i = 0; i < (int)widths.size(); i++) if (vm.has(i)) { z3::expr v = m.eval(tr(Z, eVar(i, widths[i])), true); uint64_t x = 0; v.is_numeral_u64(x); (*model)[i] = x; }
    }
    Z->s.pop();
  } catch (z3::exception& ex) { fprintf(stderr, "z3: %s\n", ex.msg()); res = -1; try { Z->s.reset(); } catch (...) {} }
  if (res == 1) gSolver.sat++; else if (res == 0) gSolver.unsat++; else gSolver.unknown++;
  gSolver.us += std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
  return res;
}
