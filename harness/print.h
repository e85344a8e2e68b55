// Reference printer: the summary a statement should print, written from the reference tree. The text is compared
// with what the real printer sent to the standard output. In the symbolic run numbers are encoded as '#' and 16
// letters on both sides (the model of the stream does the same), so that symbolic values can be compared.
#pragma once
#include "ref.h"
#include <cstring>
#include <iostream>
#ifdef SX_NATIVE
#include <sstream>
#else
extern char sx_cout_buf[1 << 20]; extern unsigned long sx_cout_len;
#endif
struct RPrint {
  char* b = nullptr; int n = 0, cap = 0, base = 0;
  void ch(char c) { if (n == cap) { int k = cap ? cap * 2 : 1024; char* t = (char*)sx_alloc(k); for (int i = 0; i < n; i++) t[i] = b[i]; b = t; cap = k; } b[n++] = c; }
  void s(const char* t) { while (*t) ch(*t++); }
  void ind(int k) { k += base; while (k-- > 0) ch('\t'); }
  void line(const char* t, int k) { ind(k); s(t); ch('\n'); }
#ifdef SX_NATIVE
  void num(int64_t v) { char t[32]; snprintf(t, sizeof t, "%lld", (long long)v); s(t); }
  void dbl(double v) { std::ostringstream o; o << v; s(o.str().c_str()); }
#else
  void enc(uint64_t v) { ch('#'); for (int i = 60; i >= 0; i -= 4) ch((char)('A' + (v >> i & 15))); }
  void num(int64_t v) { enc((uint64_t)v); }
  void dbl(double v) { uint64_t x; memcpy(&x, &v, 8); enc(x); }
#endif
  void nline(int64_t v, int k) { ind(k); num(v); s("  \n"); }
  static const char* op(int o) {
    switch (o) {
      case hsql::kOpBetween: return "BETWEEN"; case hsql::kOpCase: return "CASE"; case hsql::kOpCaseListElement: return "CASE LIST ELEMENT"; case hsql::kOpPlus: return "+"; case hsql::kOpMinus: case hsql::kOpUnaryMinus: return "-"; case hsql::kOpAsterisk: return "*"; case hsql::kOpSlash: return "/"; case hsql::kOpPercentage: return "%"; case hsql::kOpCaret: return "^";
      case hsql::kOpEquals: return "="; case hsql::kOpNotEquals: return "!="; case hsql::kOpLess: return "<"; case hsql::kOpLessEq: return "<="; case hsql::kOpGreater: return ">"; case hsql::kOpGreaterEq: return ">="; case hsql::kOpLike: return "LIKE"; case hsql::kOpNotLike: return "NOT LIKE"; case hsql::kOpILike: return "ILIKE";
      case hsql::kOpAnd: return "AND"; case hsql::kOpOr: return "OR"; case hsql::kOpIn: return "IN"; case hsql::kOpConcat: return "CONCAT"; case hsql::kOpNot: return "NOT"; case hsql::kOpIsNull: return "IS NULL"; case hsql::kOpExists: return "EXISTS"; }
    return "None"; }
  static const char* field(int d) { switch (d) { case hsql::kDatetimeSecond: return "SECOND"; case hsql::kDatetimeMinute: return "MINUTE"; case hsql::kDatetimeHour: return "HOUR"; case hsql::kDatetimeDay: return "DAY"; case hsql::kDatetimeMonth: return "MONTH"; case hsql::kDatetimeYear: return "YEAR"; } return "None"; }
  void type(const RType& t, int k) {
    using D = hsql::DataType; ind(k);
    switch ((D)t.dt) { case D::UNKNOWN: s("UNKNOWN"); break; case D::INT: s("INT"); break; case D::BIGINT: s("BIGINT"); break; case D::LONG: s("LONG"); break; case D::FLOAT: s("FLOAT"); break; case D::DOUBLE: s("DOUBLE"); break; case D::REAL: s("REAL"); break; case D::CHAR: s("CHAR("); num(t.len); ch(')'); break; case D::VARCHAR: s("VARCHAR("); num(t.len); ch(')'); break; case D::DECIMAL: s("DECIMAL"); break; case D::TEXT: s("TEXT"); break; case D::DATETIME: s("DATETIME"); break; case D::DATE: s("DATE"); break; case D::TIME: s("TIME"); break; case D::SMALLINT: s("SMALLINT"); break; case D::BOOLEAN: s("BOOLEAN"); break; }
    ch('\n'); }
  void list(const RV<RExpr*>* v, int k) { if (v) for (int i = 0; i < v->n; i++) expr(v->a[i], k); }
  void bound(const RBound& b) { if (b.type == hsql::kCurrentRow) { s("CURRENT ROW"); return; } if (b.unb) s("UNBOUNDED"); else num(b.off); s(b.type == hsql::kPreceding ? " PRECEDING" : " FOLLOWING"); }
  void order(const RV<ROrder*>* v, int k) { for (int i = 0; i < v->n; i++) { expr(v->a[i]->e, k); line(v->a[i]->dir == hsql::kOrderAsc ? "ascending" : "descending", k); } }
  void expr(const RExpr* e, int k) {
    if (!e) return;
    switch (e->type) {
      case hsql::kExprStar: line("*", k); break;
      case hsql::kExprColumnRef: line(e->name, k); if (e->table) { line("Table:", k + 1); line(e->table, k + 2); } break;
      case hsql::kExprLiteralFloat: ind(k); dbl(e->fval); ch('\n'); break;
      case hsql::kExprLiteralInt: case hsql::kExprParameter: nline(e->ival, k); break;
      case hsql::kExprLiteralString: case hsql::kExprLiteralDate: line(e->name, k); break;
      case hsql::kExprLiteralNull: line("NULL", k); break;
      case hsql::kExprLiteralInterval: line("INTERVAL", k); nline(e->ival, k + 1); line(field(e->dt), k + 1); break;
      case hsql::kExprFunctionRef: line(e->name, k); list(e->list, k + 1);
        if (e->win) { line("OVER", k + 1); if (e->win->part) { line("PARTITION BY", k + 2); list(e->win->part, k + 3); } if (e->win->order) { line("ORDER BY", k + 2); order(e->win->order, k + 3); } ind(k + 2); s(e->win->ftype == hsql::kRows ? "ROWS" : e->win->ftype == hsql::kRange ? "RANGE" : "GROUPS"); s(" BETWEEN "); bound(e->win->s); s(" AND "); bound(e->win->e); ch('\n'); } break;
      case hsql::kExprExtract: line("EXTRACT", k); line(field(e->dt), k + 1); expr(e->e1, k + 1); break;
      case hsql::kExprCast: line("CAST", k); type(e->ct, k + 1); expr(e->e1, k + 1); break;
      case hsql::kExprOperator: line(op(e->op), k); expr(e->e1, k + 1); list(e->list, k + 1); expr(e->e2, k + 1); if (e->sel) sel(e->sel, k + 1); break;
      case hsql::kExprSelect: sel(e->sel, k); break;
      case hsql::kExprArray: list(e->list, k + 1); break;
      case hsql::kExprArrayIndex: expr(e->e1, k + 1); nline(e->ival, k); break;
    }
    if (e->alias) { line("Alias", k + 1); line(e->alias, k + 2); }
  }
  void tab(const RTab* t, int k) {
    switch (t->type) {
      case hsql::kTableName: line(t->name, k); if (t->schema) { line("Schema", k + 1); line(t->schema, k + 2); } break;
      case hsql::kTableSelect: sel(t->sel, k); break;
      case hsql::kTableJoin: line("Join Table", k); line("Left", k + 1); tab(t->l, k + 2); line("Right", k + 1); tab(t->r, k + 2); line("Join Condition", k + 1); expr(t->cond, k + 2); if (t->named) for (int i = 0; i < t->named->n; i++) line(t->named->a[i], k + 2); break;
      case hsql::kTableCrossProduct: for (int i = 0; i < t->list->n; i++) tab(t->list->a[i], k); break;
    }
    if (t->alias) { line("Alias", k + 1); line(t->alias->name, k + 2); if (t->alias->cols) for (int i = 0; i < t->alias->cols->n; i++) line(t->alias->cols->a[i], k + 3); }
  }
  void sel(const RSel* q, int k) {
    line("SelectStatement", k); line("Fields:", k + 1); list(q->list, k + 2);
    if (q->from) { line("Sources:", k + 1); tab(q->from, k + 2); }
    if (q->where) { line("Search Conditions:", k + 1); expr(q->where, k + 2); }
    if (q->group) { line("GroupBy:", k + 1); list(q->group, k + 2); if (q->having) { line("Having:", k + 1); expr(q->having, k + 2); } }
    if (q->locks) { line("Lock Info:", k + 1); for (int i = 0; i < q->locks->n; i++) { const RLock* l = q->locks->a[i]; line("Type", k + 2); line(l->mode == hsql::RowLockMode::ForUpdate ? "FOR UPDATE" : l->mode == hsql::RowLockMode::ForNoKeyUpdate ? "FOR NO KEY UPDATE" : l->mode == hsql::RowLockMode::ForShare ? "FOR SHARE" : "FOR KEY SHARE", k + 3); if (l->tabs) { line("Target tables:", k + 2); for (int j = 0; j < l->tabs->n; j++) line(l->tabs->a[j], k + 3); } if (l->wait != hsql::RowLockWaitPolicy::None) { line("Waiting policy: ", k + 2); line(l->wait == hsql::RowLockWaitPolicy::NoWait ? "NOWAIT" : "SKIP LOCKED", k + 3); } } }
    if (q->sets) for (int i = 0; i < q->sets->n; i++) { const RSetOp* o = q->sets->a[i]; line(o->type == hsql::SetType::kSetIntersect ? "Intersect:" : o->type == hsql::SetType::kSetUnion ? "Union:" : "Except:", k + 1); sel(o->sel, k + 2); if (o->order) { line("SetResultOrderBy:", k + 1); order(o->order, k + 2); } if (o->limit) { if (o->limit->lim) { line("SetResultLimit:", k + 1); expr(o->limit->lim, k + 2); } if (o->limit->off) { line("SetResultOffset:", k + 1); expr(o->limit->off, k + 2); } } }
    if (q->order) { line("OrderBy:", k + 1); order(q->order, k + 2); }
    if (q->limit && q->limit->lim) { line("Limit:", k + 1); expr(q->limit->lim, k + 2); }
    if (q->limit && q->limit->off) { line("Offset:", k + 1); expr(q->limit->off, k + 2); }
  }
  static const char* format(int f) { return f == hsql::kImportCSV ? "CSV" : f == hsql::kImportTbl ? "TBL" : f == hsql::kImportBinary ? "BINARY" : "AUTO"; }
  void stmt(const RStmt* r) {
    switch (r->kind) {
      case hsql::kStmtSelect: sel(r->sel, 0); break;
      case hsql::kStmtInsert: line("InsertStatement", 0); line(r->name, 1); if (r->cols) { line("Columns", 1); for (int i = 0; i < r->cols->n; i++) line(r->cols->a[i], 2); } if (r->sub == hsql::kInsertValues) { line("Values", 1); list(r->exprs, 2); } else sel(r->sel, 1); break;
      case hsql::kStmtCreate: line("CreateStatement", 0); line(r->name, 1); if (r->file) line(r->file, 1); break;
      case hsql::kStmtImport: line("ImportStatement", 0); line(r->file, 1); line(format(r->sub), 1); line(r->name, 1); if (r->where) { line("WHERE:", 1); expr(r->where, 2); } break;
      case hsql::kStmtExport: line("ExportStatement", 0); line(r->file, 1); line(format(r->sub), 1); if (r->name) line(r->name, 1); else sel(r->sel, 1); break;
      case hsql::kStmtTransaction: line("TransactionStatement", 0); line(r->sub == hsql::kBeginTransaction ? "BEGIN" : r->sub == hsql::kCommitTransaction ? "COMMIT" : "ROLLBACK", 1); break;
    }
  }
};
// Print every statement of the result with the real printer and compare the text with the reference.
static bool printSame(const char* a, size_t n, const RPrint& p) { if (n != (size_t)p.n) return false; for (size_t i = 0; i < n; i++) if (a[i] != p.b[i]) return false; return true; }
// Print with f and compare with what p holds.
template <class F> static void printJudge(const RPrint& p, F f) {
#ifdef SX_NATIVE
  std::ostringstream o; std::streambuf* old = std::cout.rdbuf(o.rdbuf()); f(); bool good = std::cout.good(); std::cout.rdbuf(old); std::cout.clear(); std::string t = o.str(); const char* a = t.data(); size_t n = t.size();
#else
  sx_cout_len = 0; f(); bool good = std::cout.good(); const char* a = sx_cout_buf; size_t n = sx_cout_len; if (n > sizeof sx_cout_buf) sx_fail("the capture buffer is too small");
#endif
  if (!good) { sx_fail("printing breaks the output stream"); return; }
  sx_reach(12);
  if (!printSame(a, n, p)) sx_fail("the printed summary differs from the reference");
}
static void printCheck(const hsql::SQLStatement* s, const RStmt* r) {
  { RPrint p; p.stmt(r); printJudge(p, [&] { hsql::printStatementInfo(s); }); }
  RPrint p; p.base = 2; p.stmt(r);   // the same by the printer of the kind, indented
  switch (r->kind) {
    case hsql::kStmtSelect: printJudge(p, [&] { hsql::printSelectStatementInfo((const hsql::SelectStatement*)s, 2); }); break;
    case hsql::kStmtInsert: printJudge(p, [&] { hsql::printInsertStatementInfo((const hsql::InsertStatement*)s, 2); }); break;
    case hsql::kStmtCreate: printJudge(p, [&] { hsql::printCreateStatementInfo((const hsql::CreateStatement*)s, 2); }); break;
    case hsql::kStmtImport: printJudge(p, [&] { hsql::printImportStatementInfo((const hsql::ImportStatement*)s, 2); }); break;
    case hsql::kStmtExport: printJudge(p, [&] { hsql::printExportStatementInfo((const hsql::ExportStatement*)s, 2); }); break;
    case hsql::kStmtTransaction: printJudge(p, [&] { hsql::printTransactionStatementInfo((const hsql::TransactionStatement*)s, 2); }); break;
  }
}
