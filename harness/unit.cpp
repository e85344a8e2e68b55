// Histories of operations on result objects, and the helpers and factories of the syntax tree.
#include "check.h"
#include <algorithm>
using namespace hsql;
// ------------------------------------------------------------------------------------------------ result objects
struct Model { bool valid, known, haveParams; int nmsg; char msg[8]; bool hasMsg, msgKnown; int line, col; std::vector<SQLStatement*> st; std::vector<Expr*> par; };
static void fresh(Model& m, SQLParserResult& f) { m.valid = f.isValid(); m.known = m.haveParams = m.msgKnown = true; m.hasMsg = false; m.line = f.errorLine(); m.col = f.errorColumn(); m.st.clear(); m.par.clear(); }
static void text(Model& m, const char* t) { m.hasMsg = true; m.msgKnown = true; int i = 0; for (; t[i] && i < 7; i++) m.msg[i] = t[i]; m.msg[i] = 0; }
static void agree(SQLParserResult& r, Model& m) {
  if (m.known) {
    if (r.isValid() != m.valid) sx_fail("a result object has the wrong verdict after a history of operations");
    sx_assert(r.errorLine() == m.line && r.errorColumn() == m.col, "a result object has the wrong error position after a history of operations");
    if (m.msgKnown && (r.errorMsg() != nullptr) != m.hasMsg) sx_fail("a result object has a wrong error message after a history of operations");
    if (m.msgKnown && m.hasMsg) for (int i = 0; m.msg[i]; i++) if (r.errorMsg()[i] != m.msg[i]) { sx_fail("a result object has a wrong error message after a history of operations"); break; }
  }
  if (r.size() != m.st.size() || r.getStatements().size() != m.st.size()) { sx_fail("a result object holds the wrong number of statements after a history of operations"); return; }
  for (size_t i = 0; i < m.st.size(); i++) { if (r.getStatement(i) != m.st[i] || r.getMutableStatement(i) != m.st[i] || r.getStatements()[i] != m.st[i]) { sx_fail("a result object holds the wrong statements after a history of operations"); return; } if (m.st[i]->type() == kStmtError) sx_fail("a statement has lost its kind"); }
  if (m.haveParams) { if (r.parameters().size() != m.par.size()) { sx_fail("a result object lists the wrong number of placeholders after a history of operations"); return; } for (size_t i = 0; i < m.par.size(); i++) if (r.parameters()[i] != m.par[i]) { sx_fail("a result object lists the wrong placeholders after a history of operations"); return; } }
}
// What is known after parsing into an object that was in use: the statements it owned are still owned by someone (the leak check decides), the rest is read back.
static void adopt(SQLParserResult& r, Model& m) { m.valid = r.isValid(); m.hasMsg = r.errorMsg() != nullptr; m.msgKnown = false; m.known = true; m.line = r.errorLine(); m.col = r.errorColumn(); m.st = r.getStatements(); m.haveParams = false; m.par.clear(); }
static const char* const GOOD = "SELECT ?,?;COMMIT";
static const char* const BAD[] = {"SELECT a FROM", "SELECT DATE 'x'", "SELECT 'x", ""};
static bool isNew(Model& m) { return m.known && m.haveParams && m.st.empty() && m.par.empty() && m.msgKnown && !m.hasMsg && !m.valid; }
static void history(int n, int first) {
  SQLParserResult* o[2]; Model m[2]; std::vector<SQLStatement*> out; std::vector<Expr*> extra; SQLParserResult base;
  for (int i = 0; i < 2; i++) { o[i] = new SQLParserResult(); fresh(m[i], *o[i]); agree(*o[i], m[i]); }
  for (int s = 0; s < n; s++) {
    int w = s == 0 && first >= 0 ? first & 1 : (int)sx_value(sx_choice(2, "object")), v = 1 - w; int op = s == 0 && first >= 0 ? first >> 1 : (int)sx_value(sx_choice(16, "operation"));
    SQLParserResult& r = *o[w]; Model& q = m[w];
    switch (op) {
      case 0: { bool was = isNew(q); SQLParser::parse(GOOD, &r); if (!was) { adopt(r, q); break; }
        if (!r.isValid() || r.size() != 2 || r.getStatement(0)->type() != kStmtSelect || r.getStatement(1)->type() != kStmtTransaction) { sx_fail("parsing into an empty result object gives a wrong result"); break; }
        q.valid = true; q.st = r.getStatements(); const SelectStatement* sel = (const SelectStatement*)q.st[0]; q.par.push_back((*sel->selectList)[0]); q.par.push_back((*sel->selectList)[1]); q.line = r.errorLine(); q.col = r.errorColumn(); break; }
      case 1: case 2: case 3: case 4: { bool was = isNew(q); SQLParser::parse(BAD[op - 1], &r); if (r.isValid()) sx_fail("a result object is valid after input that is not of the language"); if (was && (r.size() || !r.parameters().empty() || !r.errorMsg() || !r.errorMsg()[0])) sx_fail("parsing input that is not of the language into an empty result object gives a wrong result"); std::vector<Expr*> none; adopt(r, q); if (was) { q.haveParams = true; q.msgKnown = true; q.hasMsg = true; text(q, r.errorMsg()); } break; }
      case 5: r = std::move(*o[v]); q = m[v]; fresh(m[v], base); break;
      case 6: { SQLParserResult* t = new SQLParserResult(std::move(r)); Model f; fresh(f, base); agree(r, f); delete o[w]; o[w] = t; break; }
      case 7: { SQLParserResult& a = r; a = std::move(r); break; }
      case 8: { std::vector<SQLStatement*> got = r.releaseStatements(); if (got.size() != q.st.size()) { sx_fail("releasing hands over the wrong number of statements"); break; } for (size_t i = 0; i < got.size(); i++) { if (got[i] != q.st[i]) sx_fail("releasing hands over the wrong statements"); out.push_back(got[i]); } bool hp = q.haveParams && q.par.empty(); adopt(r, q); q.haveParams = hp; if (r.size()) sx_fail("releasing leaves statements behind"); break; }
      case 9: r.reset(); fresh(q, base); break;
      case 10: { SQLStatement* t = new TransactionStatement(kCommitTransaction); r.addStatement(t); q.st.push_back(t); break; }
      case 15: { int n = (int)extra.size(); bool front = n && sx_value(sx_choice(2, "smaller")); Expr* e = Expr::makeParameter(front ? -n : 100 + n); extra.push_back(e); r.addParameter(e); if (front) q.par.insert(q.par.begin(), e); else q.par.push_back(e); std::stable_sort(q.par.begin(), q.par.end(), [](const Expr* a, const Expr* b) { return a->ival < b->ival; }); break; }
      case 11: { if (sx_value(sx_choice(2, "no message"))) { r.setErrorDetails(nullptr, 3, 4); q.hasMsg = false; q.msgKnown = true; q.line = 3; q.col = 4; break; } char* e = strdup("oops"); int l = (int)sx_u64("line"), c = (int)sx_u64("column"); r.setErrorDetails(e, l, c); text(q, "oops"); q.line = l; q.col = c; break; }
      case 12: delete o[w]; o[w] = new SQLParserResult(); fresh(q, base); break;
      case 13: { SQLStatement* t = new TransactionStatement(kBeginTransaction); delete o[w]; o[w] = new SQLParserResult(t); fresh(q, base); q.st.push_back(t); break; }
      case 14: { bool b = sx_value(sx_choice(2, "verdict")); r.setIsValid(b); q.valid = b; break; }
    }
    agree(*o[0], m[0]); agree(*o[1], m[1]);
  }
  int w = (int)sx_value(sx_choice(2, "destroyed first")); delete o[w]; agree(*o[1 - w], m[1 - w]); delete o[1 - w];
  for (SQLStatement* s : out) { if (s->type() == kStmtSelect) { if (!((SelectStatement*)s)->selectList || ((SelectStatement*)s)->selectList->size() != 2) sx_fail("a released statement is damaged"); } delete s; }
  for (Expr* e : extra) delete e;
  sx_reach(9);
}
// ------------------------------------------------------------------------------------------------ nodes
struct X { Expr *e1 = nullptr, *e2 = nullptr; std::vector<Expr*>* list = nullptr; SelectStatement* sel = nullptr; char *name = nullptr, *table = nullptr, *schema = nullptr, *alias = nullptr; uint64_t f = 0; int64_t i = 0, i2 = 0; DatetimeField d = kDatetimeNone; ColumnType ct{DataType::UNKNOWN, 0}; bool b = false; OperatorType op = kOpNone; bool dist = false; WindowDescription* w = nullptr; bool anyList = false; };
static uint64_t bits(double v) { uint64_t u; memcpy(&u, &v, 8); return u; }
static void holds(Expr* e, ExprType t, const X& x) {
  if (!e) { sx_fail("a factory makes no node"); return; }
  sx_reach(10);
  if (e->type != t || e->opType != x.op) sx_fail("a factory makes a node of the wrong kind");
  if (e->expr != x.e1 || e->expr2 != x.e2 || (!x.anyList && e->exprList != x.list) || e->select != x.sel || e->windowDescription != x.w) sx_fail("a factory makes a node with the wrong operands");
  if (e->name != x.name || e->table != x.table || e->schema != x.schema || e->alias != x.alias) sx_fail("a factory makes a node with the wrong names");
  sx_assert(bits(e->fval) == x.f && e->ival == x.i && e->ival2 == x.i2, "a factory makes a node with a wrong value");
  if (e->datetimeField != x.d || e->isBoolLiteral != x.b || e->distinct != x.dist) sx_fail("a factory makes a node with wrong flags");
  sx_assert(e->columnType.data_type == x.ct.data_type && e->columnType.length == x.ct.length && e->columnType.precision == x.ct.precision && e->columnType.scale == x.ct.scale, "a factory makes a node with a wrong type");
}
static char* dup2() { char* s = (char*)malloc(3); s[0] = (char)sx_byte("char"); s[1] = (char)sx_byte("char"); s[2] = 0; return s; }
static Expr* leaf() { return new Expr(kExprStar); }
static SelectStatement* query() { return new SelectStatement(); }
static std::vector<Expr*>* some(int n) { std::vector<Expr*>* v = new std::vector<Expr*>(); for (int i = 0; i < n; i++) v->push_back(leaf()); return v; }
static OperatorType anyOp() { return (OperatorType)sx_value(sx_choice(kOpExists + 1, "operator")); }
static DatetimeField anyField() { return (DatetimeField)sx_value(sx_choice(kDatetimeYear + 1, "field")); }
static ColumnType anyType() { ColumnType c((DataType)sx_choice((int)DataType::VARCHAR + 1, "data type"), (int64_t)sx_u64("length"), (int64_t)sx_u64("precision"), (int64_t)sx_u64("scale")); return c; }
static void factories() {
  X x; Expr* e = nullptr; ExprType t = kExprOperator;
  switch (sx_value(sx_choice(32, "factory"))) {
    case 0: t = (ExprType)sx_value(sx_choice(kExprCast + 1, "kind")); e = Expr::make(t); break;
    case 1: x.op = anyOp(); x.e1 = leaf(); e = Expr::makeOpUnary(x.op, x.e1); break;
    case 2: x.op = anyOp(); x.e1 = leaf(); x.e2 = leaf(); e = Expr::makeOpBinary(x.e1, x.op, x.e2); break;
    case 3: { x.op = kOpBetween; x.e1 = leaf(); Expr *l = leaf(), *r = leaf(); e = Expr::makeBetween(x.e1, l, r); x.anyList = true; if (!e->exprList || e->exprList->size() != 2 || (*e->exprList)[0] != l || (*e->exprList)[1] != r) sx_fail("makeBetween has wrong bounds"); break; }
    case 4: { Expr *w = leaf(), *y = leaf(); x.op = kOpCaseListElement; x.e1 = w; x.e2 = y; e = Expr::makeCaseListElement(w, y); break; }
    case 5: case 6: { int n = (int)sx_value(sx_choice(5, "branches")) + 1; bool base = sx_value(sx_choice(2, "operand")), els = sx_value(sx_choice(2, "else")); Expr* el[6]; Expr* l = nullptr;
      for (int i = 0; i < n; i++) { el[i] = Expr::makeCaseListElement(leaf(), leaf()); l = i ? Expr::caseListAppend(l, el[i]) : Expr::makeCaseList(el[i]); }
      if (!l->exprList || (int)l->exprList->size() != n) sx_fail("a list of CASE branches has the wrong length");
      x.op = kOpCase; x.e1 = base ? leaf() : nullptr; x.e2 = els ? leaf() : nullptr; x.anyList = true; e = Expr::makeCase(x.e1, l, x.e2);
      if (!e->exprList || (int)e->exprList->size() != n) { sx_fail("makeCase loses branches"); break; } for (int i = 0; i < n; i++) if ((*e->exprList)[i] != el[i]) sx_fail("makeCase has wrong branches"); break; }
    case 7: t = kExprLiteralInt; x.i = (int64_t)sx_u64("value"); e = Expr::makeLiteral(x.i); break;
    case 8: { t = kExprLiteralFloat; x.f = sx_u64("value"); double d; memcpy(&d, &x.f, 8); e = Expr::makeLiteral(d); break; }
    case 9: t = kExprLiteralString; x.name = dup2(); e = Expr::makeLiteral(x.name); break;
    case 10: t = kExprLiteralInt; x.b = true; x.i = sx_value(sx_choice(2, "value")); e = Expr::makeLiteral((bool)x.i); break;
    case 11: t = kExprLiteralNull; e = Expr::makeNullLiteral(); break;
    case 12: t = kExprLiteralDate; x.name = dup2(); e = Expr::makeDateLiteral(x.name); break;
    case 13: t = kExprLiteralInterval; x.i = (int64_t)sx_u64("value"); x.d = anyField(); e = Expr::makeIntervalLiteral(x.i, x.d); break;
    case 14: t = kExprColumnRef; x.name = dup2(); e = Expr::makeColumnRef(x.name); break;
    case 15: t = kExprColumnRef; x.table = dup2(); x.name = dup2(); e = Expr::makeColumnRef(x.table, x.name); break;
    case 16: t = kExprStar; e = Expr::makeStar(); break;
    case 17: t = kExprStar; x.table = dup2(); e = Expr::makeStar(x.table); break;
    case 18: t = kExprFunctionRef; x.name = dup2(); x.list = some(2); x.dist = sx_value(sx_choice(2, "distinct")); if (sx_value(sx_choice(2, "window"))) x.w = new WindowDescription(nullptr, nullptr, nullptr); e = Expr::makeFunctionRef(x.name, x.list, x.dist, x.w); break;
    case 19: t = kExprFunctionRef; x.name = dup2(); x.schema = dup2(); x.list = some(1); x.dist = sx_value(sx_choice(2, "distinct")); if (sx_value(sx_choice(2, "window"))) x.w = new WindowDescription(nullptr, nullptr, nullptr); e = Expr::makeFunctionRef(x.name, x.schema, x.list, x.dist, x.w); break;
    case 20: t = kExprArray; x.list = some(3); e = Expr::makeArray(x.list); break;
    case 21: t = kExprArrayIndex; x.e1 = leaf(); x.i = (int64_t)sx_u64("value"); e = Expr::makeArrayIndex(x.e1, x.i); break;
    case 22: { t = kExprParameter; int id = (int)sx_u64("value"); x.i = id; e = Expr::makeParameter(id); break; }
    case 23: t = kExprSelect; x.sel = query(); e = Expr::makeSelect(x.sel); break;
    case 24: x.op = kOpExists; x.sel = query(); e = Expr::makeExists(x.sel); break;
    case 25: x.op = kOpIn; x.e1 = leaf(); x.list = some(2); e = Expr::makeInOperator(x.e1, x.list); break;
    case 26: x.op = kOpIn; x.e1 = leaf(); x.sel = query(); e = Expr::makeInOperator(x.e1, x.sel); break;
    case 27: t = kExprExtract; x.d = anyField(); x.e1 = leaf(); e = Expr::makeExtract(x.d, x.e1); break;
    case 28: t = kExprCast; x.e1 = leaf(); x.ct = anyType(); e = Expr::makeCast(x.e1, x.ct); break;
    case 29: { FrameBound b((int64_t)sx_u64("value"), (FrameBoundType)sx_value(sx_choice(3, "bound")), sx_value(sx_choice(2, "unbounded"))); (void)b; e = leaf(); t = kExprStar; break; }
    case 30: { auto s = (OrderType)sx_value(sx_choice(2, "direction")); auto nn = (NullOrdering)sx_value(sx_choice(3, "nulls")); OrderDescription o(s, leaf(), nn); if (o.type != s || !o.expr || o.null_ordering != nn) sx_fail("OrderDescription holds other parts than given"); Expr *a = leaf(), *b = leaf(); LimitDescription l(a, b); if (l.limit != a || l.offset != b) sx_fail("LimitDescription holds other parts than given"); e = leaf(); t = kExprStar; break; }
    case 31: { int64_t off = (int64_t)sx_u64("value"); auto bt = (FrameBoundType)sx_value(sx_choice(3, "bound")); bool ub = sx_value(sx_choice(2, "unbounded")); FrameBound* a = new FrameBound(off, bt, ub); FrameBound* b = new FrameBound(1, kFollowing, false); sx_assert(a->offset == off, "FrameBound holds another offset than given"); if (a->type != bt || a->unbounded != ub) sx_fail("FrameBound holds other parts than given"); auto ft = (FrameType)sx_value(sx_choice(3, "frame")); FrameDescription* f = new FrameDescription(ft, a, b); if (f->type != ft || f->start != a || f->end != b) sx_fail("FrameDescription holds other parts than given"); auto* p = some(1); auto* od = new std::vector<OrderDescription*>(); WindowDescription* w = new WindowDescription(p, od, f); if (w->partitionList != p || w->orderList != od || w->frameDescription != f) sx_fail("WindowDescription holds other parts than given"); x.w = w; x.name = dup2(); x.list = some(0); t = kExprFunctionRef; e = Expr::makeFunctionRef(x.name, x.list, false, w); break; }
  }
  holds(e, t, x); delete e;
}
static void predicates() {
  ExprType t = (ExprType)sx_value(sx_choice(kExprCast + 1, "kind")); Expr e(t);
  ExprType u = (ExprType)sx_value(sx_choice(kExprCast + 1, "asked"));
  if (e.isType(u) != (t == u)) sx_fail("isType disagrees with the kind of the node");
  bool lit = t == kExprLiteralFloat || t == kExprLiteralString || t == kExprLiteralInt || t == kExprLiteralNull || t == kExprLiteralDate || t == kExprLiteralInterval || t == kExprParameter;
  e.ival = (int64_t)sx_u64("value"); e.isBoolLiteral = sx_value(sx_choice(2, "boolean")); e.opType = anyOp();
  if (e.isLiteral() != lit) sx_fail("isLiteral disagrees with the kind of the node");
  if (sx_value(sx_choice(2, "has name"))) e.name = dup2(); if (sx_value(sx_choice(2, "has table"))) e.table = dup2(); if (sx_value(sx_choice(2, "has alias"))) e.alias = dup2(); if (sx_value(sx_choice(2, "has schema"))) e.schema = dup2();
  if (e.hasAlias() != (e.alias != nullptr)) sx_fail("hasAlias disagrees with the alias"); if (e.hasTable() != (e.table != nullptr)) sx_fail("hasTable disagrees with the table");
  if (e.getName() != (e.alias ? e.alias : e.name)) sx_fail("getName is neither alias nor name");
  sx_reach(10);
}
static void tables() {
  auto t = (TableRefType)sx_value(sx_choice(4, "kind")); TableRef r(t); if (r.type != t || r.schema || r.name || r.alias || r.select || r.list || r.join) sx_fail("a new table reference is not empty");
  if (sx_value(sx_choice(2, "has name"))) r.name = dup2(); if (sx_value(sx_choice(2, "has schema"))) r.schema = dup2(); if (sx_value(sx_choice(2, "has alias"))) { char* n = dup2(); std::vector<char*>* c = nullptr; if (sx_value(sx_choice(2, "has columns"))) { c = new std::vector<char*>(); c->push_back(dup2()); } r.alias = new Alias(n, c); if (r.alias->name != n || r.alias->columns != c) sx_fail("Alias holds other parts than given"); }
  if (r.hasSchema() != (r.schema != nullptr)) sx_fail("hasSchema disagrees with the schema"); if (r.getName() != (r.alias ? r.alias->name : r.name)) sx_fail("getName of a table is neither alias nor name");
  JoinDefinition j; if (j.left || j.right || j.condition || j.namedColumns || j.type != kJoinInner) sx_fail("a new join is not empty"); sx_reach(10);
}
static void types() {
  ColumnType a = anyType(), b = anyType(); bool same = a == b, diff = a != b;
  bool want = a.data_type == b.data_type && a.length == b.length && a.precision == b.precision && a.scale == b.scale;
  if (same != want) sx_fail("equality of column types is not equality of all their parts"); if (diff == same) sx_fail("inequality of column types is not the opposite of equality");
  int64_t l = (int64_t)sx_u64("length"); ColumnType c(DataType::CHAR, l); sx_assert(c.length == l && c.precision == 0 && c.scale == 0 && c.data_type == DataType::CHAR, "a column type holds other parts than given"); sx_reach(10);
}
static void csv() {
  { CsvOptions o; char* have[3] = {nullptr, nullptr, nullptr}; if (o.delimiter || o.null || o.quote) sx_fail("new CSV options are not empty");
    for (int i = 0; i < 5; i++) { int k = (int)sx_value(sx_choice(3, "option")); char* v = dup2(); std::pair<CsvOptionType, char*> p(k == 0 ? CsvOptionType::Delimiter : k == 1 ? CsvOptionType::Null : CsvOptionType::Quote, v); bool ok = o.accept_csv_option(&p); if (ok != !have[k]) sx_fail("the CSV options accept an option twice or reject a new one"); if (!have[k]) have[k] = v; else free(v);
      if (o.delimiter != have[0] || o.null != have[1] || o.quote != have[2]) { sx_fail("accepting a CSV option changes the wrong one"); return; } } }
  ImportExportOptions e; if (e.format != kImportAuto || e.encoding || e.csv_options) sx_fail("new import options are not empty"); sx_reach(10);
}
#define EMPTY(c) do { if (!(c)) sx_fail("a new statement is not empty"); } while (0)
static void kinds() {
  SQLStatement* s = nullptr; StatementType t = kStmtError;
  switch (sx_value(sx_choice(14, "statement"))) {
    case 0: { auto* p = new SelectStatement(); s = p; t = kStmtSelect; EMPTY(!p->fromTable && !p->selectDistinct && !p->selectList && !p->whereClause && !p->groupBy && !p->setOperations && !p->order && !p->withDescriptions && !p->limit && !p->lockings); break; }
    case 1: { auto k = (InsertType)sx_value(sx_choice(2, "kind")); auto* p = new InsertStatement(k); s = p; t = kStmtInsert; EMPTY(p->type == k && !p->schema && !p->tableName && !p->columns && !p->values && !p->select); break; }
    case 2: { auto* p = new UpdateStatement(); s = p; t = kStmtUpdate; EMPTY(!p->table && !p->updates && !p->where); break; }
    case 3: { auto* p = new DeleteStatement(); s = p; t = kStmtDelete; EMPTY(!p->schema && !p->tableName && !p->expr); break; }
    case 4: { auto k = (CreateType)sx_value(sx_choice(4, "kind")); auto* p = new CreateStatement(k); s = p; t = kStmtCreate; EMPTY(p->type == k && !p->ifNotExists && !p->filePath && !p->schema && !p->tableName && !p->indexName && !p->indexColumns && !p->columns && !p->tableConstraints && !p->viewColumns && !p->select); break; }
    case 5: { auto k = (DropType)sx_value(sx_choice(5, "kind")); auto* p = new DropStatement(k); s = p; t = kStmtDrop; EMPTY(p->type == k && !p->ifExists && !p->schema && !p->name && !p->indexName); break; }
    case 6: { auto* p = new PrepareStatement(); s = p; t = kStmtPrepare; EMPTY(!p->name && !p->query); break; }
    case 7: { auto* p = new ExecuteStatement(); s = p; t = kStmtExecute; EMPTY(!p->name && !p->parameters); break; }
    case 8: { auto k = (ImportType)sx_value(sx_choice(4, "kind")); auto* p = new ExportStatement(k); s = p; t = kStmtExport; EMPTY(p->type == k && !p->filePath && !p->schema && !p->tableName && !p->select && !p->encoding && !p->csv_options); break; }
    case 9: { auto k = (ImportType)sx_value(sx_choice(4, "kind")); auto* p = new ImportStatement(k); s = p; t = kStmtImport; EMPTY(p->type == k && !p->filePath && !p->schema && !p->tableName && !p->whereClause && !p->encoding && !p->csv_options); break; }
    case 10: { char *n = dup2(), *c = dup2(); auto* d = new DropColumnAction(c); if (d->type != DropColumn || d->columnName != c || d->ifExists) sx_fail("DropColumnAction holds other parts than given"); auto* p = new AlterStatement(n, d); s = p; t = kStmtAlter; EMPTY(!p->schema && !p->ifTableExists && p->name == n && p->action == d); break; }
    case 11: { auto k = (ShowType)sx_value(sx_choice(2, "kind")); auto* p = new ShowStatement(k); s = p; t = kStmtShow; EMPTY(p->type == k && !p->schema && !p->name); break; }
    case 12: { auto k = (TransactionCommand)sx_value(sx_choice(3, "kind")); auto* p = new TransactionStatement(k); s = p; t = kStmtTransaction; EMPTY(p->command == k); break; }
    case 13: { t = (StatementType)sx_value(sx_choice(kStmtTransaction + 1, "kind")); s = new SQLStatement(t); SetOperation o; EMPTY(!o.nestedSelectStatement && !o.resultOrder && !o.resultLimit && !o.isAll); GroupByDescription g; EMPTY(!g.columns && !g.having); break; }
  }
  EMPTY(!s->hints && s->stringLength == 0);
  auto u = (StatementType)sx_value(sx_choice(kStmtTransaction + 1, "asked")); if (s->type() != t || s->isType(u) != (t == u) || s->is(u) != (t == u)) sx_fail("the kind of a statement and its predicates disagree");
  if (sx_value(sx_choice(2, "hints"))) { s->hints = new std::vector<Expr*>(); s->hints->push_back(leaf()); }
  delete s; sx_reach(10);
}
static void columns() {
  int mask = (int)sx_value(sx_choice(32, "constraints")); static const ConstraintType K[5] = {ConstraintType::ForeignKey, ConstraintType::NotNull, ConstraintType::Null, ConstraintType::PrimaryKey, ConstraintType::Unique};
  { auto* set = new std::unordered_set<ConstraintType>(); bool up = sx_value(sx_choice(2, "order")); for (int i = 0; i < 5; i++) { int k = up ? i : 4 - i; if (mask >> k & 1) set->insert(K[k]); } char* n = dup2(); ColumnType ct = anyType(); auto* refs = new std::vector<ReferencesSpecification*>();
    ColumnDefinition d(n, ct, set, refs); if (d.name != n || d.column_constraints != set || d.references != refs || !d.nullable) sx_fail("ColumnDefinition holds other parts than given"); sx_assert(d.type.data_type == ct.data_type && d.type.length == ct.length && d.type.precision == ct.precision && d.type.scale == ct.scale, "ColumnDefinition holds another type than given");
    bool nn = mask >> 1 & 1, nl = mask >> 2 & 1, pk = mask >> 3 & 1; bool ok = d.trySetNullableExplicit(); if (ok != !((nn || pk) && nl)) sx_fail("NULL together with NOT NULL or PRIMARY KEY is not rejected, or something else is"); if (ok && d.nullable != !(nn || pk)) sx_fail("wrong nullability of a column"); }
  CreateStatement c(kCreateTable); std::vector<TableElement*> el; std::vector<ColumnDefinition*> cd; std::vector<TableConstraint*> tc;
  for (int i = 0; i < 4; i++) switch (sx_value(sx_choice(3, "element"))) {
    case 0: { auto* d = new ColumnDefinition(dup2(), ColumnType(DataType::INT), new std::unordered_set<ConstraintType>(), new std::vector<ReferencesSpecification*>()); cd.push_back(d); el.push_back(d); break; }
    case 1: { auto* v = new std::vector<char*>(); v->push_back(dup2()); auto* d = new TableConstraint(ConstraintType::Unique, v); if (d->type != ConstraintType::Unique || d->columnNames != v) sx_fail("TableConstraint holds other parts than given"); tc.push_back(d); el.push_back(d); break; }
    case 2: { char *s = dup2(), *t = dup2(); auto* rc = new std::vector<char*>(); auto* r = new ReferencesSpecification(s, t, rc); if (r->schema != s || r->table != t || r->columns != rc) sx_fail("ReferencesSpecification holds other parts than given"); auto* v = new std::vector<char*>(); auto* d = new ForeignKeyConstraint(v, r); if (d->type != ConstraintType::ForeignKey || d->columnNames != v || d->references != r) sx_fail("ForeignKeyConstraint holds other parts than given"); tc.push_back(d); el.push_back(d); break; }
  }
  c.setColumnDefsAndConstraints(&el);
  if (!c.columns || !c.tableConstraints || *c.columns != cd || *c.tableConstraints != tc) sx_fail("column definitions and table constraints are sorted wrongly"); sx_reach(10);
}
static const char* typeName(int t) { static const char* const N[] = {"UNKNOWN", "BIGINT", "BOOLEAN", "CHAR", "DATE", "DATETIME", "DECIMAL", "DOUBLE", "FLOAT", "INT", "LONG", "REAL", "SMALLINT", "TEXT", "TIME", "VARCHAR"}; return N[t]; }
// What the helpers print for nodes made by hand: kinds of constraints and types, expressions, ORDER BY and windows at any indentation.
static void prints() {
  RPrint p; p.base = (int)sx_value(sx_choice(4, "indentation")); int b = p.base;
  switch (sx_value(sx_choice(6, "printer"))) {
    case 0: { static const ConstraintType K[5] = {ConstraintType::ForeignKey, ConstraintType::NotNull, ConstraintType::Null, ConstraintType::PrimaryKey, ConstraintType::Unique}; static const char* const N[5] = {"FOREIGN KEY", "NOT NULL", "NULL", "PRIMARY KEY", "UNIQUE"}; int k = (int)sx_value(sx_choice(5, "constraint")); p.s(N[k]); printJudge(p, [&] { std::cout << K[k]; }); break; }
    case 1: { int t = (int)sx_value(sx_choice((int)DataType::VARCHAR + 1, "data type")); int64_t l = (int64_t)sx_u64("length"); ColumnType c((DataType)t, l, 3, 4); p.s(typeName(t)); if (c.data_type == DataType::CHAR || c.data_type == DataType::VARCHAR) { p.ch('('); p.num(l); p.ch(')'); } printJudge(p, [&] { std::cout << c; }); break; }
    case 2: { OperatorType o = anyOp(); int n = (int)sx_value(sx_choice(3, "operands")); Expr* e = n == 1 ? Expr::makeOpUnary(o, Expr::makeNullLiteral()) : n == 2 ? Expr::makeOpBinary(Expr::makeStar(), o, Expr::makeNullLiteral()) : Expr::makeInOperator(Expr::makeStar(), some(2)); if (!n) e->opType = o;
      p.line(RPrint::op(o), 0); if (n != 1) p.line("*", 1); if (n == 0) { p.line("*", 1); p.line("*", 1); } else p.line("NULL", 1); printJudge(p, [&] { printExpression(e, b); }); delete e; break; }
    case 3: { int n = (int)sx_value(sx_choice(4, "terms")); std::vector<OrderDescription*> v; for (int i = 0; i < n; i++) { int64_t x = (int64_t)sx_u64("value"); bool d = sx_value(sx_choice(2, "direction")); v.push_back(new OrderDescription(d ? kOrderDesc : kOrderAsc, Expr::makeLiteral(x), NullOrdering::Undefined)); p.nline(x, 0); p.line(d ? "descending" : "ascending", 0); } printJudge(p, [&] { printOrderBy(&v, b); }); for (auto* o : v) delete o; break; }
    case 4: { static const FrameType T[3] = {kRange, kRows, kGroups}; static const char* const N[3] = {"RANGE", "ROWS", "GROUPS"}; int t = (int)sx_value(sx_choice(3, "frame")); RBound r[2]; FrameBound* f[2];
      for (int i = 0; i < 2; i++) { r[i].type = (int)sx_value(sx_choice(3, "bound")); r[i].unb = sx_value(sx_choice(2, "unbounded")); r[i].off = (int64_t)sx_u64("value"); f[i] = new FrameBound(r[i].off, (FrameBoundType)r[i].type, r[i].unb); }
      int np = (int)sx_value(sx_choice(3, "partition")); WindowDescription w(np ? some(np) : nullptr, nullptr, new FrameDescription(T[t], f[0], f[1])); p.line("OVER", 0); if (np) { p.line("PARTITION BY", 1); for (int i = 0; i < np; i++) p.line("*", 2); } p.ind(1); p.s(N[t]); p.s(" BETWEEN "); p.bound(r[0]); p.s(" AND "); p.bound(r[1]); p.ch('\n'); printJudge(p, [&] { printWindowDescription(&w, b); }); break; }
    case 5: { Expr* e; int64_t v = (int64_t)sx_u64("value"); switch (sx_value(sx_choice(5, "kind"))) {
        case 0: e = Expr::makeLiteral(v); p.nline(v, 0); break; case 1: { int id = (int)sx_value(sx_choice(3, "number")); e = Expr::makeParameter(id); p.nline(id, 0); break; } case 2: { DatetimeField d = anyField(); e = Expr::makeIntervalLiteral(v, d); p.line("INTERVAL", 0); p.nline(v, 1); p.line(RPrint::field(d), 1); break; }
        case 3: e = Expr::makeArrayIndex(Expr::makeArray(some(2)), v); p.line("*", 2); p.line("*", 2); p.nline(v, 0); break; default: { DatetimeField d = anyField(); e = Expr::makeExtract(d, Expr::makeStar()); p.line("EXTRACT", 0); p.line(RPrint::field(d), 1); p.line("*", 1); } }
      if (sx_value(sx_choice(2, "has alias"))) { e->alias = strdup("al"); p.line("Alias", 1); p.line("al", 2); } printJudge(p, [&] { printExpression(e, b); printExpression(nullptr, b); }); delete e; break; }
  }
  sx_reach(10);
}
// Placeholders come out of a result in the order of their numbers and statements in the order they were added, however many there are.
static void results() {
  auto judge = [](SQLParserResult& r, const std::vector<Expr*>& put) { auto& v = r.parameters(); if (v.size() != put.size()) sx_fail("a result holds other placeholders than given");
    for (size_t i = 0; i < v.size(); i++) { if (i && v[i - 1]->ival > v[i]->ival) sx_fail("the placeholders are not sorted by their number"); bool f = false; for (Expr* e : put) f |= e == v[i]; if (!f) sx_fail("a result holds other placeholders than given"); } };
  std::vector<Expr*> put; std::vector<SQLStatement*> st;
  { SQLParserResult r; auto add = [&](int id) { Expr* e = Expr::makeParameter(id); put.push_back(e); r.addParameter(e); judge(r, put); };
    switch (sx_value(sx_choice(3, "order"))) {
      case 0: { int used = 0; for (int i = 0; i < 6; i++) { int k = (int)sx_value(sx_choice(6, "number")); if (used >> k & 1) break; used |= 1 << k; add(k); } break; }
      case 1: { static const int N[] = {11, 17, 23, 41}; int n = N[sx_value(sx_choice(4, "placeholders"))], st = 1 + (int)sx_value(sx_choice(10, "stride")); for (int i = 0; i < n; i++) add((i * st + 3) % n); break; }
      case 2: { static const int N[] = {16, 17, 33}; int n = N[sx_value(sx_choice(3, "placeholders"))]; for (int i = n; i--;) add(i * 5); break; } }
    int n = (int)sx_value(sx_choice(20, "statements")); for (int i = 0; i < n; i++) { SQLStatement* s = i % 3 ? (SQLStatement*)new DropStatement(kDropTable) : new ShowStatement(kShowTables); st.push_back(s); r.addStatement(s); }
    if (r.size() != (size_t)n) sx_fail("a result holds other statements than given"); for (int i = 0; i < n; i++) if (r.getStatement(i) != st[i] || r.getMutableStatement(i) != st[i]) sx_fail("a result holds other statements than given");
    if (r.isValid()) sx_fail("a result is valid before parse said so"); judge(r, put);
    switch (sx_value(sx_choice(3, "end"))) {
      case 0: { auto v = r.releaseStatements(); if (v != st || r.size()) sx_fail("releasing gives other statements than the result held"); for (auto* s : v) delete s; judge(r, put); break; }
      case 1: { SQLParserResult q(std::move(r)); if (q.size() != (size_t)n || r.size()) sx_fail("moving a result leaves statements behind"); for (int i = 0; i < n; i++) if (q.getStatement(i) != st[i]) sx_fail("a moved result holds other statements"); judge(q, put); break; }
      default: r.reset(); if (r.size() || !r.parameters().empty() || r.isValid()) sx_fail("a result that was reset holds something"); } }
  for (Expr* e : put) delete e; sx_reach(10);
}
extern "C" {
// A history of n operations on two result objects; the first operation is given (or symbolic when negative).
void job_history(int n, int first) { sx_heap_mark(); history(n, first); sx_check_leaks("after a history of operations on result objects"); }
// Helpers and factories with symbolic fields.
void job_nodes(int which) {
  sx_heap_mark();
  switch (which) { case 0: factories(); break; case 1: predicates(); break; case 2: tables(); break; case 3: types(); break; case 4: csv(); break; case 5: kinds(); break; case 6: columns(); break; case 7: prints(); break; case 8: results(); break; }
  sx_check_leaks("after deleting the nodes");
}
}
