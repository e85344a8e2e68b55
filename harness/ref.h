// Reference recogniser of the SQL dialect: a hand-written recursive-descent parser over a token
// array. It shares no code and no tables with the parser under test. It builds its own tree (R*
// nodes), which match.h compares with the tree the real parser built, and it says which token is
// the first that cannot continue the text before it.
#pragma once
#include "sx.h"
#include "SQLParser.h"
#include "parser/bison_parser.h"

struct Tok {
  int code; const char* text; int64_t ival; double fval;
  int line, col, eline, ecol;   // extent (zero based, end exclusive)
  int endpos;                   // number of characters of the input up to the end of this token
  int startpos;
};
// The tokens, produced on demand: the last one has code 0 (end of input).
struct TokStream { Tok* t; int n; bool (*more)(); const Tok& at(int i) { while (i >= n && more && more()) {} return t[i < n ? i : n - 1]; } };
template <class T> struct RV { T* a; int n, cap;
  void add(T x) { if (n == cap) { int c = cap ? cap * 2 : 4; T* b = (T*)sx_alloc(sizeof(T) * c); for (int i = 0; i < n; i++) b[i] = a[i]; a = b; cap = c; } a[n++] = x; } };
template <class T> static RV<T>* newRV() { RV<T>* v = (RV<T>*)sx_alloc(sizeof(RV<T>)); v->a = nullptr; v->n = v->cap = 0; return v; }
typedef RV<const char*> RNames;
struct RSel; struct RExpr; struct RTab; struct ROrder;
struct RType { int dt; int64_t len, prec, scale; };
struct RBound { int64_t off; int type; bool unb; };
struct RWin { RV<RExpr*>* part; RV<ROrder*>* order; int ftype; RBound s, e; };
struct RExpr { int type, op; RExpr *e1, *e2; RV<RExpr*>* list; RSel* sel; const char *name, *table, *schema, *alias; int64_t ival; double fval; int dt; RType ct; bool isBool, distinct; RWin* win; };
struct ROrder { int dir; RExpr* e; int nulls; };
struct RLimit { RExpr *lim, *off; };
struct RAlias { const char* name; RNames* cols; };
struct RTab { int type; const char *schema, *name; RAlias* alias; RSel* sel; RV<RTab*>* list; int jtype; RTab *l, *r; RExpr* cond; RNames* named; };
struct RSetOp { int type; bool all; RSel* sel; RV<ROrder*>* order; RLimit* limit; };
struct RWith { const char* alias; RSel* sel; };
struct RLock { int mode, wait; RNames* tabs; };
struct RSel { bool distinct; RLimit* limit; RV<RExpr*>* list; RTab* from; RExpr* where; RV<RExpr*>* group; RExpr* having; RV<ROrder*>* order; RV<RSetOp*>* sets; RV<RWith*>* with; RV<RLock*>* locks; };
struct RRef { const char *schema, *table; RNames* cols; };
struct RCol { const char* name; RType t; int mask; int nullable; RV<RRef*>* refs; };   // mask: bit per constraint kind
struct RTabCon { int kind; RNames* cols; RRef* ref; };
enum { C_FK = 1, C_NOTNULL = 2, C_NULL = 4, C_PK = 8, C_UNIQUE = 16 };
struct RUpd { const char* col; RExpr* val; };
struct RStmt { int kind, sub; const char *schema, *name, *name2, *file, *enc; const char *csvDelim, *csvNull, *csvQuote; bool csv; bool flag, flag2; RNames *cols; RV<RExpr*>* exprs; RSel* sel; RExpr* where; RTab* tab; RV<RUpd*>* upd; RV<RCol*>* defs; RV<RTabCon*>* cons; RV<RExpr*>* hints; int len; };

template <class T> static T* mk() { T* p = (T*)sx_alloc(sizeof(T)); char* c = (char*)p; for (unsigned i = 0; i < sizeof(T); i++) c[i] = 0; return p; }

struct Ref {
  TokStream* ts; int p; bool err, sem; int lo, hi;
  RV<RStmt*>* stmts; RV<RExpr*>* params;
  const Tok& at(int i) const { return ts->at(i); }
  int code() const { return at(p).code; }
  int code1() const { return code() ? at(p + 1).code : 0; }
  void fail() { if (!err) { err = true; sem = false; lo = hi = p; } }
  void failAt(int q) { if (!err) { err = true; sem = false; lo = hi = q; } }
  void semErr(int start, const char* w, const char* n = nullptr) { if (!err) { err = true; sem = true; lo = start; hi = p; why = w; whyName = n; } }
  const char *why, *whyName;   // what the message of an error of content must mention
  bool is(int c) const { return !err && code() == c; }
  bool acc(int c) { if (!err && code() == c) { p++; return true; } return false; }
  bool exp(int c) { if (acc(c)) return true; fail(); return false; }
  const char* ident() { if (is(SQL_IDENTIFIER)) return at(p++).text; fail(); return nullptr; }
  const char* str() { if (is(SQL_STRING)) return at(p++).text; fail(); return nullptr; }

  // ---------------------------------------------------------------- text helpers
  static bool ieq(const char* a, const char* lower) { for (int i = 0;; i++) { char c = a[i]; if (c >= 'A' && c <= 'Z') c += 32; if (c != lower[i]) return false; if (!c) return true; } }
  static bool dig(char c) { return c >= '0' && c <= '9'; }
  static bool spc(char c) { return c == ' ' || (c >= 9 && c <= 13); }
  // Up to w characters: optional sign and digits; blanks before are skipped. Returns the position after or -1.
  static int num(const char* s, int i, int w) { while (spc(s[i])) i++; int k = 0; if (s[i] == '-' || s[i] == '+') { i++; k++; } if (k >= w || !dig(s[i])) return -1; while (k < w && dig(s[i])) { i++; k++; } return i; }
  static bool dateOk(const char* s) { int i = num(s, 0, 4); if (i < 0 || s[i] != '-') return false; i = num(s, i + 1, 2); if (i < 0 || s[i] != '-') return false; i = num(s, i + 1, 2); return i >= 0 && s[i] == 0; }
  // Number of an interval text; *end = position after. 0: no number, 1: ok, 2: does not surely fit
  static int ivNum(const char* s, int* end, int64_t* v) {
    int i = 0; while (spc(s[i])) i++; bool neg = false; int st = i; if (s[i] == '-' || s[i] == '+') { neg = s[i] == '-'; i++; }
    if (!dig(s[i])) return 0; int64_t x = 0; while (dig(s[i])) { if (i - st < 18) x = x * 10 + (s[i] - '0'); i++; }
    *end = i; *v = neg ? -x : x; return i - st <= 18 ? 1 : 2; }
  static int unit(const char* s, int i, int* end) {
    static const char* const U[] = {"second", "minute", "hour", "day", "month", "year"}; static const int D[] = {hsql::kDatetimeSecond, hsql::kDatetimeMinute, hsql::kDatetimeHour, hsql::kDatetimeDay, hsql::kDatetimeMonth, hsql::kDatetimeYear};
    for (int u = 0; u < 6; u++) { int k = 0; while (U[u][k]) { char c = s[i + k]; if (c >= 'A' && c <= 'Z') c += 32; if (c != U[u][k]) break; k++; } if (U[u][k]) continue;
      char c = s[i + k]; if (c == 's' || c == 'S') k++; if (s[i + k]) return 0; *end = i + k; return D[u]; }
    return 0; }

  // ---------------------------------------------------------------- expressions
  RExpr* nx(int type) { RExpr* e = mk<RExpr>(); e->type = type; return e; }
  RExpr* un(int op, RExpr* a) { RExpr* e = nx(hsql::kExprOperator); e->op = op; e->e1 = a; return e; }
  RExpr* bin(int op, RExpr* a, RExpr* b) { RExpr* e = un(op, a); e->e2 = b; return e; }
  enum { L_NOT = 1, L_EQ, L_LT, L_IS, L_ADD, L_MUL, L_CARET, L_CONCAT, L_SUB };

  RExpr* expr() { RExpr* l = andExpr(); while (!err && acc(SQL_OR)) l = bin(hsql::kOpOr, l, andExpr()); return l; }
  RExpr* andExpr() { RExpr* l = pred(); while (!err && acc(SQL_AND)) l = bin(hsql::kOpAnd, l, pred()); return l; }
  RExpr* exists() { exp(SQL_EXISTS); exp('('); RExpr* e = nx(hsql::kExprOperator); e->op = hsql::kOpExists; e->sel = selectNoParen(); exp(')'); return e; }
  RExpr* pred() {
    if (err) return nullptr;
    if (is(SQL_EXISTS)) return exists();
    if (is(SQL_NOT) && code1() == SQL_EXISTS) { p++; return un(hsql::kOpNot, exists()); }
    RExpr* o = operand(0, true); if (err) return o;
    if (acc(SQL_BETWEEN)) { RExpr* e = un(hsql::kOpBetween, o); e->list = newRV<RExpr*>(); e->list->add(operand(0, false)); exp(SQL_AND); e->list->add(operand(0, false)); return e; }
    bool neg = false; if (is(SQL_NOT)) { p++; neg = true; if (!is(SQL_IN)) { fail(); return o; } }
    if (acc(SQL_IN)) { RExpr* e = un(hsql::kOpIn, o); exp('('); if (is(SQL_SELECT)) e->sel = selectNoParen(); else e->list = exprList(); exp(')'); return neg ? un(hsql::kOpNot, e) : e; }
    return o;
  }
  static int eqOp(int c) { switch (c) { case '=': case SQL_EQUALS: return hsql::kOpEquals; case SQL_NOTEQUALS: return hsql::kOpNotEquals; case SQL_LIKE: return hsql::kOpLike; case SQL_ILIKE: return hsql::kOpILike; } return 0; }
  static int ltOp(int c) { switch (c) { case '<': return hsql::kOpLess; case '>': return hsql::kOpGreater; case SQL_LESSEQ: return hsql::kOpLessEq; case SQL_GREATEREQ: return hsql::kOpGreaterEq; } return 0; }
  static int arOp(int c, int* lv) { switch (c) { case '+': *lv = L_ADD; return hsql::kOpPlus; case '-': *lv = L_ADD; return hsql::kOpMinus; case '*': *lv = L_MUL; return hsql::kOpAsterisk; case '/': *lv = L_MUL; return hsql::kOpSlash; case '%': *lv = L_MUL; return hsql::kOpPercentage; case '^': *lv = L_CARET; return hsql::kOpCaret; case SQL_CONCAT: *lv = L_CONCAT; return hsql::kOpConcat; } return 0; }
  RExpr* operand(int min, bool top) {
    RExpr* l = primary();
    while (!err) {
      int c = code(), lv, op;
      if (c == '[') { p++; RExpr* e = nx(hsql::kExprArrayIndex); e->e1 = l; if (is(SQL_INTVAL)) e->ival = at(p++).ival; else fail(); exp(']'); l = e; continue; }
      if ((op = arOp(c, &lv))) { if (lv < min) break; p++; RExpr* r = operand(lv + 1, false); l = bin(op, l, r); continue; }
      if (c == SQL_ISNULL) { if (L_IS < min) break; p++; l = un(hsql::kOpIsNull, l); continue; }
      if (c == SQL_IS) { if (L_IS < min) break; p++; if (acc(SQL_NOT)) { exp(SQL_NULL); l = un(hsql::kOpNot, un(hsql::kOpIsNull, l)); } else { exp(SQL_NULL); l = un(hsql::kOpIsNull, l); } continue; }
      if ((op = ltOp(c))) { if (L_LT < min) break; p++; RExpr* r = operand(L_LT + 1, false); l = bin(op, l, r); if (!err && ltOp(code())) fail(); continue; }
      if ((op = eqOp(c))) { if (L_EQ < min) break; p++; RExpr* r = operand(L_EQ + 1, false); l = bin(op, l, r); if (!err && eqOp(code())) fail(); continue; }
      if (c == SQL_NOT) {
        if (L_NOT < min) break;
        int d = code1();
        if (d == SQL_LIKE) { p += 2; RExpr* r = operand(L_EQ + 1, false); l = bin(hsql::kOpNotLike, l, r); if (!err && eqOp(code())) fail(); continue; }
        if (d == SQL_IN && top) break;
        failAt(p + 1); break;
      }
      break;
    }
    return l;
  }
  bool duration(int c, int* d) { switch (c) { case SQL_SECONDS: *d = hsql::kDatetimeSecond; return true; case SQL_MINUTES: *d = hsql::kDatetimeMinute; return true; case SQL_HOURS: *d = hsql::kDatetimeHour; return true; case SQL_DAYS: *d = hsql::kDatetimeDay; return true; case SQL_MONTHS: *d = hsql::kDatetimeMonth; return true; case SQL_YEARS: *d = hsql::kDatetimeYear; return true; } return field(c, d); }
  bool field(int c, int* d) { switch (c) { case SQL_SECOND: *d = hsql::kDatetimeSecond; return true; case SQL_MINUTE: *d = hsql::kDatetimeMinute; return true; case SQL_HOUR: *d = hsql::kDatetimeHour; return true; case SQL_DAY: *d = hsql::kDatetimeDay; return true; case SQL_MONTH: *d = hsql::kDatetimeMonth; return true; case SQL_YEAR: *d = hsql::kDatetimeYear; return true; } return false; }
  RExpr* intOrInterval() { int64_t v = at(p++).ival; int d; if (duration(code(), &d)) { p++; RExpr* e = nx(hsql::kExprLiteralInterval); e->ival = v; e->dt = d; return e; } RExpr* e = nx(hsql::kExprLiteralInt); e->ival = v; return e; }
  RExpr* intervalText() {   // at INTERVAL
    int st = p; p++; const char* s = str(); if (err) return nullptr; int d = 0, end = 0; int64_t v = 0; RExpr* e = nx(hsql::kExprLiteralInterval); int k = ivNum(s, &end, &v);
    if (field(code(), &d)) { p++; if (k != 1 || s[end]) semErr(st, "nterval"); }
    else { if (k == 1) { while (spc(s[end])) end++; d = unit(s, end, &end); } if (k != 1 || !d) semErr(st, "nterval"); }
    e->ival = v; e->dt = d; return e;
  }
  RExpr* literalTail() {   // STRING, TRUE, FALSE, FLOATVAL, NULL, DATE, INTERVAL, INTVAL (not '?'), or null
    RExpr* e;
    switch (code()) {
      case SQL_STRING: e = nx(hsql::kExprLiteralString); e->name = at(p++).text; return e;
      case SQL_TRUE: case SQL_FALSE: e = nx(hsql::kExprLiteralInt); e->ival = code() == SQL_TRUE; e->isBool = true; p++; return e;
      case SQL_FLOATVAL: e = nx(hsql::kExprLiteralFloat); e->fval = at(p++).fval; return e;
      case SQL_NULL: p++; return nx(hsql::kExprLiteralNull);
      case SQL_DATE: { int st = p; p++; const char* s = str(); if (err) return nullptr; if (!dateOk(s)) semErr(st, "date format"); e = nx(hsql::kExprLiteralDate); e->name = s; return e; }
      case SQL_INTERVAL: return intervalText();
      case SQL_INTVAL: return intOrInterval();
    }
    return nullptr;
  }
  RExpr* primary() {
    if (err) return nullptr;
    int c = code(); RExpr* e;
    switch (c) {
      case '-': p++; return un(hsql::kOpUnaryMinus, operand(L_MUL, false));
      case SQL_NOT: p++; return un(hsql::kOpNot, operand(L_NOT, false));
      case '(': p++; if (is(SQL_SELECT)) { e = nx(hsql::kExprSelect); e->sel = selectNoParen(); } else e = expr(); exp(')'); return e;
      case SQL_CASE: {
        p++; e = nx(hsql::kExprOperator); e->op = hsql::kOpCase; if (!is(SQL_WHEN)) e->e1 = expr();
        e->list = newRV<RExpr*>(); do { exp(SQL_WHEN); RExpr* w = expr(); exp(SQL_THEN); RExpr* x = expr(); e->list->add(bin(hsql::kOpCaseListElement, w, x)); } while (is(SQL_WHEN));
        if (acc(SQL_ELSE)) e->e2 = expr(); exp(SQL_END); return e; }
      case SQL_EXTRACT: { p++; exp('('); int d = 0; if (!err && field(code(), &d)) p++; else fail(); exp(SQL_FROM); e = nx(hsql::kExprExtract); e->dt = d; e->e1 = expr(); exp(')'); return e; }
      case SQL_CAST: p++; exp('('); e = nx(hsql::kExprCast); e->e1 = expr(); exp(SQL_AS); e->ct = colType(); exp(')'); return e;
      case SQL_ARRAY: p++; exp('['); e = nx(hsql::kExprArray); e->list = exprList(); exp(']'); return e;
      case '*': p++; return nx(hsql::kExprStar);
      case '?': p++; e = nx(hsql::kExprParameter); e->ival = params->n; params->add(e); return e;
      case SQL_IDENTIFIER: {
        const char* a = ident(); const char* q = nullptr;
        if (acc('.')) { if (acc('*')) { e = nx(hsql::kExprStar); e->table = a; return e; } q = a; a = ident(); if (err) return nullptr; }
        if (acc('(')) {
          e = nx(hsql::kExprFunctionRef); e->name = a; e->schema = q; 
          if (is(')')) e->list = newRV<RExpr*>(); else { e->distinct = acc(SQL_DISTINCT); e->list = exprList(); }
          exp(')'); if (acc(SQL_OVER)) e->win = window(); return e; }
        e = nx(hsql::kExprColumnRef); e->name = a; e->table = q; return e; }
    }
    e = literalTail(); if (!e) fail(); return e;
  }
  RBound bound() { RBound b; b.off = 0; b.type = hsql::kCurrentRow; b.unb = false; if (acc(SQL_CURRENT_ROW)) return b; if (acc(SQL_UNBOUNDED)) b.unb = true; else if (is(SQL_INTVAL)) b.off = at(p++).ival; else { fail(); return b; } if (acc(SQL_PRECEDING)) b.type = hsql::kPreceding; else if (acc(SQL_FOLLOWING)) b.type = hsql::kFollowing; else fail(); return b; }
  RWin* window() {
    RWin* w = mk<RWin>(); exp('('); if (acc(SQL_PARTITION)) { exp(SQL_BY); w->part = exprList(); } w->order = optOrder();
    w->ftype = hsql::kRange; w->s.type = hsql::kPreceding; w->s.unb = true; w->e.type = hsql::kCurrentRow;
    bool fr = true; if (acc(SQL_RANGE)) w->ftype = hsql::kRange; else if (acc(SQL_ROWS)) w->ftype = hsql::kRows; else if (acc(SQL_GROUPS)) w->ftype = hsql::kGroups; else fr = false;
    if (fr) { if (acc(SQL_BETWEEN)) { w->s = bound(); exp(SQL_AND); w->e = bound(); } else w->s = bound(); }
    exp(')'); return w;
  }
  RV<RExpr*>* exprList() {
    RV<RExpr*>* v = newRV<RExpr*>();
    do { RExpr* e = expr(); if (err) return v; if (acc(SQL_AS)) e->alias = ident(); else if (is(SQL_IDENTIFIER)) e->alias = ident(); v->add(e); } while (acc(','));
    return v;
  }
  RExpr* extLiteral() {
    if (err) return nullptr; RExpr* e;
    if (is('-')) { p++; if (is(SQL_FLOATVAL) || is(SQL_INTVAL) || is(SQL_INTERVAL)) return un(hsql::kOpUnaryMinus, literalTail()); fail(); return nullptr; }
    if (is('?')) { p++; semErr(p - 1, "arameter"); return nullptr; }
    e = literalTail(); if (!e) fail(); return e;
  }
  RV<RExpr*>* litList() { RV<RExpr*>* v = newRV<RExpr*>(); do { if (acc(SQL_CAST)) { RExpr* e = nx(hsql::kExprCast); exp('('); e->e1 = extLiteral(); exp(SQL_AS); e->ct = colType(); exp(')'); v->add(e); } else v->add(extLiteral()); } while (acc(',')); return v; }
  int64_t intv() { if (is(SQL_INTVAL)) return at(p++).ival; fail(); return 0; }
  RType colType() {
    RType r; r.dt = 0; r.len = r.prec = r.scale = 0; if (err) return r; int c = code(); p++;
    typedef hsql::DataType D;
    switch (c) {
      case SQL_BIGINT: r.dt = (int)D::BIGINT; break; case SQL_BOOLEAN: r.dt = (int)D::BOOLEAN; break;
      case SQL_CHAR: r.dt = (int)D::CHAR; exp('('); r.len = intv(); exp(')'); break;
      case SQL_CHARACTER_VARYING: case SQL_VARCHAR: r.dt = (int)D::VARCHAR; exp('('); r.len = intv(); exp(')'); break;
      case SQL_DATE: r.dt = (int)D::DATE; break; case SQL_DATETIME: case SQL_TIMESTAMP: r.dt = (int)D::DATETIME; break;
      case SQL_DECIMAL: r.dt = (int)D::DECIMAL; if (acc('(')) { r.prec = intv(); if (acc(',')) r.scale = intv(); exp(')'); } break;
      case SQL_DOUBLE: r.dt = (int)D::DOUBLE; break; case SQL_FLOAT: r.dt = (int)D::FLOAT; break; case SQL_INT: case SQL_INTEGER: r.dt = (int)D::INT; break;
      case SQL_LONG: r.dt = (int)D::LONG; break; case SQL_REAL: r.dt = (int)D::REAL; break; case SQL_SMALLINT: r.dt = (int)D::SMALLINT; break; case SQL_TEXT: r.dt = (int)D::TEXT; break;
      case SQL_TIME: r.dt = (int)D::TIME; if (acc('(')) { r.prec = intv(); exp(')'); } break;
      default: p--; fail();
    }
    return r;
  }
  // ---------------------------------------------------------------- names
  void tableName(const char** schema, const char** name) { *schema = nullptr; *name = ident(); if (acc('.')) { *schema = *name; *name = ident(); } }
  RNames* names() { RNames* v = newRV<const char*>(); do v->add(ident()); while (acc(',')); return v; }
  RNames* optCols() { if (!acc('(')) return nullptr; RNames* v = names(); exp(')'); return v; }
  // ---------------------------------------------------------------- tables
  RAlias* optTabAlias() { if (err) return nullptr; RAlias* a = nullptr; if (acc(SQL_AS)) { a = mk<RAlias>(); a->name = ident(); if (acc('(')) { a->cols = names(); exp(')'); } } else if (is(SQL_IDENTIFIER)) { a = mk<RAlias>(); a->name = ident(); } return a; }
  RTab* simpleTab() {
    RTab* r = mk<RTab>(); if (err) return r;
    if (acc('(')) { r->type = hsql::kTableSelect; r->sel = selectStatement(); exp(')'); r->alias = optTabAlias(); return r; }
    r->type = hsql::kTableName; tableName(&r->schema, &r->name); r->alias = optTabAlias(); return r;
  }
  RTab* joinChain() {
    RTab* l = simpleTab();
    while (!err) {
      int jt; bool nat = false;
      switch (code()) {
        case SQL_NATURAL: p++; nat = true; jt = hsql::kJoinNatural; break;
        case SQL_INNER: p++; jt = hsql::kJoinInner; break; case SQL_JOIN: jt = hsql::kJoinInner; break;
        case SQL_LEFT: p++; acc(SQL_OUTER); jt = hsql::kJoinLeft; break; case SQL_RIGHT: p++; acc(SQL_OUTER); jt = hsql::kJoinRight; break;
        case SQL_FULL: p++; acc(SQL_OUTER); jt = hsql::kJoinFull; break; case SQL_OUTER: p++; jt = hsql::kJoinFull; break; case SQL_CROSS: p++; jt = hsql::kJoinCross; break;
        default: return l;
      }
      exp(SQL_JOIN); RTab* j = mk<RTab>(); j->type = hsql::kTableJoin; j->jtype = jt; j->l = l;
      if (nat) j->r = simpleTab();
      else { j->r = joinChain(); if (acc(SQL_ON)) j->cond = expr(); else if (acc(SQL_USING)) { exp('('); j->named = names(); exp(')'); } else fail(); }
      l = j;
    }
    return l;
  }
  RTab* tableRef() { RTab* a = joinChain(); if (!is(',')) return a; RTab* x = mk<RTab>(); x->type = hsql::kTableCrossProduct; x->list = newRV<RTab*>(); x->list->add(a); while (acc(',')) x->list->add(joinChain()); return x; }
  // ---------------------------------------------------------------- select
  RV<ROrder*>* optOrder() {
    if (!acc(SQL_ORDER)) return nullptr; exp(SQL_BY); RV<ROrder*>* v = newRV<ROrder*>();
    do { ROrder* o = mk<ROrder>(); o->e = expr(); if (err) return v; o->dir = hsql::kOrderAsc; if (acc(SQL_ASC)) {} else if (acc(SQL_DESC)) o->dir = hsql::kOrderDesc;
      o->nulls = (int)hsql::NullOrdering::Undefined;
      if (is(SQL_IDENTIFIER)) { int st = p; const char* a = ident(); const char* b = ident(); if (err) return v; if (ieq(a, "nulls") && ieq(b, "first")) o->nulls = (int)hsql::NullOrdering::First; else if (ieq(a, "nulls") && ieq(b, "last")) o->nulls = (int)hsql::NullOrdering::Last; else semErr(st, "NULLS"); }
      v->add(o); } while (acc(','));
    return v;
  }
  RLimit* optLimit() {
    if (acc(SQL_OFFSET)) { RLimit* l = mk<RLimit>(); l->off = expr(); return l; }
    if (!acc(SQL_LIMIT)) return nullptr; RLimit* l = mk<RLimit>(); if (!acc(SQL_ALL)) l->lim = expr(); if (acc(SQL_OFFSET)) l->off = expr(); return l;
  }
  RV<RLock*>* optLocks() {
    RV<RLock*>* v = nullptr;
    while (acc(SQL_FOR)) {
      if (!v) v = newRV<RLock*>(); RLock* k = mk<RLock>();
      if (acc(SQL_UPDATE)) k->mode = hsql::RowLockMode::ForUpdate; else if (acc(SQL_SHARE)) k->mode = hsql::RowLockMode::ForShare;
      else if (acc(SQL_NO)) { exp(SQL_KEY); exp(SQL_UPDATE); k->mode = hsql::RowLockMode::ForNoKeyUpdate; } else if (acc(SQL_KEY)) { exp(SQL_SHARE); k->mode = hsql::RowLockMode::ForKeyShare; } else fail();
      if (acc(SQL_OF)) k->tabs = names();
      k->wait = hsql::RowLockWaitPolicy::None; if (acc(SQL_NOWAIT)) k->wait = hsql::RowLockWaitPolicy::NoWait; else if (acc(SQL_SKIP)) { exp(SQL_LOCKED); k->wait = hsql::RowLockWaitPolicy::SkipLocked; }
      v->add(k);
    }
    return v;
  }
  RSel* selectClause() {
    RSel* s = mk<RSel>(); exp(SQL_SELECT);
    if (acc(SQL_TOP)) { s->limit = mk<RLimit>(); RExpr* e = nx(hsql::kExprLiteralInt); e->ival = intv(); s->limit->lim = e; }
    s->distinct = acc(SQL_DISTINCT); s->list = exprList(); if (acc(SQL_FROM)) s->from = tableRef(); if (acc(SQL_WHERE)) s->where = expr();
    if (acc(SQL_GROUP)) { exp(SQL_BY); s->group = exprList(); if (acc(SQL_HAVING)) s->having = expr(); }
    return s;
  }
  bool setOp(RSetOp** o) { if (err) return false; int ty; if (acc(SQL_UNION)) ty = hsql::SetType::kSetUnion; else if (acc(SQL_INTERSECT)) ty = hsql::SetType::kSetIntersect; else if (acc(SQL_EXCEPT)) ty = hsql::SetType::kSetExcept; else return false; *o = mk<RSetOp>(); (*o)->type = ty; (*o)->all = acc(SQL_ALL); return true; }
  void addSet(RSel* s, RSetOp* o) { if (!s->sets) s->sets = newRV<RSetOp*>(); s->sets->add(o); }
  RSel* selectInSet() { if (is('(')) return selectWithParen(); RSel* s = selectClause(); RSetOp* o; if (setOp(&o)) { o->sel = selectInSet(); addSet(s, o); } return s; }
  RSel* selectNoParen() {
    RSel* s = selectClause(); RSetOp* o;
    if (setOp(&o)) { o->sel = selectInSet(); addSet(s, o); o->order = optOrder(); o->limit = optLimit(); s->locks = optLocks(); return s; }
    s->order = optOrder(); RLimit* l = optLimit(); if (l) s->limit = l; s->locks = optLocks(); return s;
  }
  RSel* selectWithParen() { exp('('); RSel* s = is('(') ? selectWithParen() : selectNoParen(); exp(')'); return s; }
  RSel* selectStatement() {
    RV<RWith*>* w = nullptr;
    if (acc(SQL_WITH)) { w = newRV<RWith*>(); do { RWith* d = mk<RWith>(); d->alias = ident(); exp(SQL_AS); d->sel = selectWithParen(); w->add(d); } while (acc(',')); }
    RSel* s; RSetOp* o;
    if (is('(')) { s = selectWithParen(); if (setOp(&o)) { o->sel = selectInSet(); addSet(s, o); o->order = optOrder(); o->limit = optLimit(); } }
    else s = selectNoParen();
    s->with = w; return s;
  }
  // ---------------------------------------------------------------- other statements
  RStmt* ns(int kind, int sub) { RStmt* s = mk<RStmt>(); s->kind = kind; s->sub = sub; return s; }
  bool ifNot() { if (!acc(SQL_IF)) return false; exp(SQL_NOT); exp(SQL_EXISTS); return true; }
  bool ifEx() { if (!acc(SQL_IF)) return false; exp(SQL_EXISTS); return true; }
  int fileType() { int st = p; const char* s = ident(); if (err) return 0; if (ieq(s, "csv")) return hsql::kImportCSV; if (ieq(s, "tbl")) return hsql::kImportTbl; if (ieq(s, "binary") || ieq(s, "bin")) return hsql::kImportBinary; semErr(st, "File type is unknown"); return 0; }
  void options(RStmt* s) {
    s->sub = hsql::kImportAuto; if (err) return;
    int st = p + (code() == SQL_WITH ? 2 : 1); bool par = false; if (acc(SQL_WITH)) { exp('('); par = true; } else if (acc('(')) par = true; if (!par) return;
    do {
      if (acc(SQL_FORMAT)) { int f = fileType(); if (err) return; if (s->sub != hsql::kImportAuto) { semErr(st, "File type must only be provided once"); return; } if (s->csv && f != hsql::kImportCSV) { semErr(st, "only allowed for CSV"); return; } s->sub = f; }
      else if (acc(SQL_ENCODING)) { const char* e = str(); if (err) return; if (s->enc) { semErr(st, "ncoding"); return; } s->enc = e; }
      else {
        const char** slot; int q = p;
        if (acc(SQL_NULL)) { const char* v = str(); if (err) return; slot = &s->csvNull; if (!opt(s, slot, v, st)) return; }
        else if (is(SQL_IDENTIFIER)) { const char* nm = ident(); const char* v = str(); if (err) return; if (ieq(nm, "delimiter")) slot = &s->csvDelim; else if (ieq(nm, "quote")) slot = &s->csvQuote; else { semErr(q, "Unknown CSV option"); return; } if (!opt(s, slot, v, st)) return; }
        else { fail(); return; }
      }
    } while (acc(','));
    exp(')');
  }
  bool opt(RStmt* s, const char** slot, const char* v, int st) { if (s->sub != hsql::kImportAuto && s->sub != hsql::kImportCSV) { semErr(st, "only allowed for CSV"); return false; } if (*slot) { semErr(st, "more than once"); return false; } *slot = v; s->csv = true; return true; }
  RRef* refSpec() { exp(SQL_REFERENCES); RRef* r = mk<RRef>(); tableName(&r->schema, &r->table); r->cols = optCols(); return r; }
  void tableElem(RStmt* s) {
    if (err) return;
    if (acc(SQL_PRIMARY)) { exp(SQL_KEY); RTabCon* c = mk<RTabCon>(); c->kind = C_PK; exp('('); c->cols = names(); exp(')'); s->cons->add(c); return; }
    if (acc(SQL_UNIQUE)) { RTabCon* c = mk<RTabCon>(); c->kind = C_UNIQUE; exp('('); c->cols = names(); exp(')'); s->cons->add(c); return; }
    if (acc(SQL_FOREIGN)) { exp(SQL_KEY); RTabCon* c = mk<RTabCon>(); c->kind = C_FK; exp('('); c->cols = names(); exp(')'); c->ref = refSpec(); s->cons->add(c); return; }
    int st = p; RCol* c = mk<RCol>(); c->name = ident(); c->t = colType(); c->refs = newRV<RRef*>();
    for (;;) { if (err) return; if (acc(SQL_PRIMARY)) { exp(SQL_KEY); c->mask |= C_PK; } else if (acc(SQL_UNIQUE)) c->mask |= C_UNIQUE; else if (acc(SQL_NULL)) c->mask |= C_NULL; else if (acc(SQL_NOT)) { exp(SQL_NULL); c->mask |= C_NOTNULL; } else if (is(SQL_REFERENCES)) { c->mask |= C_FK; c->refs->add(refSpec()); } else break; }
    c->nullable = !(c->mask & (C_NOTNULL | C_PK)); if (!c->nullable && (c->mask & C_NULL)) semErr(st, "nullability", c->name); s->defs->add(c);
  }
  RStmt* create() {
    p++; RStmt* s;
    if (acc(SQL_TABLE)) {
      s = ns(hsql::kStmtCreate, hsql::kCreateTable); s->flag = ifNot(); tableName(&s->schema, &s->name); if (err) return s;
      if (acc(SQL_FROM)) { s->sub = hsql::kCreateTableFromTbl; const char* f = ident(); exp(SQL_FILE); s->file = str(); if (!err && !ieq(f, "tbl")) semErr(st0, "File type is unknown"); return s; }
      if (acc(SQL_AS)) { s->sel = selectStatement(); return s; }
      exp('('); s->defs = newRV<RCol*>(); s->cons = newRV<RTabCon*>(); do tableElem(s); while (acc(',')); exp(')'); return s;
    }
    if (acc(SQL_INDEX)) { s = ns(hsql::kStmtCreate, hsql::kCreateIndex); s->flag = ifNot(); if (is(SQL_IDENTIFIER)) s->name2 = ident(); exp(SQL_ON); tableName(&s->schema, &s->name); exp('('); s->cols = names(); exp(')'); return s; }
    s = ns(hsql::kStmtCreate, hsql::kCreateView); exp(SQL_VIEW); s->flag = ifNot(); tableName(&s->schema, &s->name); s->cols = optCols(); exp(SQL_AS); if (!err) s->sel = selectStatement(); return s;
  }
  RStmt* statement() {
    RStmt* s; bool hints = true;
    switch (code()) {
      case SQL_SELECT: case '(': case SQL_WITH: s = ns(hsql::kStmtSelect, 0); s->sel = selectStatement(); break;
      case SQL_PREPARE: p++; s = ns(hsql::kStmtPrepare, 0); s->name = ident(); exp(SQL_FROM); s->name2 = str(); break;
      case SQL_CREATE: s = create(); break;
      case SQL_INSERT: p++; exp(SQL_INTO); s = ns(hsql::kStmtInsert, 0); tableName(&s->schema, &s->name); s->cols = optCols(); if (acc(SQL_VALUES)) { s->sub = hsql::kInsertValues; exp('('); s->exprs = litList(); exp(')'); } else { s->sub = hsql::kInsertSelect; if (!err) s->sel = selectNoParen(); } break;
      case SQL_DELETE: p++; exp(SQL_FROM); s = ns(hsql::kStmtDelete, 0); tableName(&s->schema, &s->name); if (acc(SQL_WHERE)) s->where = expr(); break;
      case SQL_TRUNCATE: p++; s = ns(hsql::kStmtDelete, 0); tableName(&s->schema, &s->name); break;
      case SQL_UPDATE: p++; s = ns(hsql::kStmtUpdate, 0); s->tab = mk<RTab>(); s->tab->type = hsql::kTableName; tableName(&s->tab->schema, &s->tab->name); exp(SQL_SET); s->upd = newRV<RUpd*>();
        do { RUpd* u = mk<RUpd>(); u->col = ident(); exp('='); u->val = expr(); s->upd->add(u); } while (acc(',')); if (acc(SQL_WHERE)) s->where = expr(); break;
      case SQL_DROP: p++; s = ns(hsql::kStmtDrop, 0);
        if (acc(SQL_TABLE)) { s->sub = hsql::kDropTable; s->flag = ifEx(); tableName(&s->schema, &s->name); } else if (acc(SQL_VIEW)) { s->sub = hsql::kDropView; s->flag = ifEx(); tableName(&s->schema, &s->name); }
        else { exp(SQL_INDEX); s->sub = hsql::kDropIndex; s->flag = ifEx(); s->name2 = ident(); } break;
      case SQL_DEALLOCATE: p++; exp(SQL_PREPARE); s = ns(hsql::kStmtDrop, hsql::kDropPreparedStatement); s->name = ident(); break;
      case SQL_ALTER: p++; exp(SQL_TABLE); s = ns(hsql::kStmtAlter, 0); s->flag = ifEx(); tableName(&s->schema, &s->name); exp(SQL_DROP); exp(SQL_COLUMN); s->flag2 = ifEx(); s->name2 = ident(); break;
      case SQL_EXECUTE: p++; s = ns(hsql::kStmtExecute, 0); s->name = ident(); if (acc('(')) { if (!is(')')) s->exprs = litList(); exp(')'); } break;
      case SQL_BEGIN: case SQL_ROLLBACK: case SQL_COMMIT: s = ns(hsql::kStmtTransaction, code() == SQL_BEGIN ? hsql::kBeginTransaction : code() == SQL_COMMIT ? hsql::kCommitTransaction : hsql::kRollbackTransaction); p++; acc(SQL_TRANSACTION); break;
      case SQL_SHOW: p++; hints = false; s = ns(hsql::kStmtShow, hsql::kShowTables); if (acc(SQL_TABLES)) break; exp(SQL_COLUMNS); s->sub = hsql::kShowColumns; tableName(&s->schema, &s->name); break;
      case SQL_DESCRIBE: p++; hints = false; s = ns(hsql::kStmtShow, hsql::kShowColumns); tableName(&s->schema, &s->name); break;
      case SQL_IMPORT: p++; hints = false; s = ns(hsql::kStmtImport, 0); exp(SQL_FROM); s->sub = fileType(); exp(SQL_FILE); s->file = str(); exp(SQL_INTO); tableName(&s->schema, &s->name); break;
      case SQL_COPY: { p++; hints = false; s = ns(hsql::kStmtExport, 0);
        if (is('(')) { s->sel = selectWithParen(); exp(SQL_TO); s->file = str(); options(s); break; }
        tableName(&s->schema, &s->name); if (acc(SQL_TO)) { s->file = str(); options(s); break; }
        exp(SQL_FROM); s->kind = hsql::kStmtImport; s->file = str(); options(s); if (acc(SQL_WHERE)) s->where = expr(); break; }
      default: fail(); return nullptr;
    }
    if (err) return s;
    if (hints && acc(SQL_WITH)) {
      exp(SQL_HINT); exp('('); s->hints = newRV<RExpr*>();
      do { RExpr* h = nx(hsql::kExprHint); h->name = ident(); if (acc('(')) { h->list = litList(); exp(')'); } s->hints->add(h); } while (acc(','));
      exp(')');
    }
    return s;
  }
  // Parse the tokens up to the end of input.
  int st0;
  bool parse(TokStream* toks) {
    ts = toks; st0 = 0; p = 0; err = sem = false; lo = hi = 0; why = whyName = nullptr; stmts = newRV<RStmt*>(); params = newRV<RExpr*>(); int start = 0;
    for (;;) {
      st0 = p; RStmt* s = statement(); if (err) return false; stmts->add(s);
      if (is(';')) { s->len = at(p).endpos - start; start = at(p).endpos; p++; if (!code()) return true; continue; }
      if (!code()) { s->len = at(p).endpos - start; return true; }   // the end token ends where the input ends
      fail(); return false;
    }
  }
};
