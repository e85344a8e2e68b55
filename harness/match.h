// Field by field comparison of the tree the real parser built with the reference tree.
#pragma once
#include "ref.h"
#include <cstring>
struct Match {
  bool ok = true;
  void bad(const char* m) { if (ok) { ok = false; sx_fail(m); } }
#define MK(c, m) do { if (!ok) return; if (!(c)) { bad(m); return; } } while (0)
#define MV(c, m) do { if (!ok) return; sx_assert(c, m); } while (0)
  static bool seq(const char* a, const char* b) { for (int i = 0;; i++) { if (a[i] != b[i]) return false; if (!a[i]) return true; } }
  void str(const char* a, const char* r, const char* m) { MK(!a == !r, m); if (!a || a == r) return; MK(seq(a, r), m); }
  void names(const std::vector<char*>* a, const RNames* r, const char* m) { MK(!a == !r, m); if (!a) return; MK((int)a->size() == r->n, m); for (int i = 0; i < r->n; i++) str((*a)[i], r->a[i], m); }
  void exprs(const std::vector<hsql::Expr*>* a, const RV<RExpr*>* r, const char* m) { MK(!a == !r, m); if (!a) return; MK((int)a->size() == r->n, m); for (int i = 0; i < r->n; i++) expr((*a)[i], r->a[i], m); }
  void type(const hsql::ColumnType& a, const RType& r, const char* m) { MK((int)a.data_type == r.dt, m); MV(a.length == r.len, m); MV(a.precision == r.prec, m); MV(a.scale == r.scale, m); }
  void expr(const hsql::Expr* a, const RExpr* r, const char* m) {
    MK(!a == !r, m); if (!a) return;
    MK((int)a->type == r->type, "an expression has the wrong kind");
    if (r->type == hsql::kExprOperator) MK((int)a->opType == r->op, "an operator expression has the wrong operator or grouping");
    str(a->name, r->name, "wrong name or text of an expression"); str(a->table, r->table, "wrong table of a column or star"); str(a->schema, r->schema, "wrong schema of a function"); str(a->alias, r->alias, "wrong alias of an expression");
    MK(a->distinct == r->distinct, "wrong DISTINCT flag of a function call"); MK(a->isBoolLiteral == r->isBool, "wrong boolean flag of a literal");
    switch (r->type) {
      case hsql::kExprLiteralInt: MV(a->ival == r->ival, "wrong value of an integer or boolean literal"); break;
      case hsql::kExprLiteralFloat: { uint64_t x, y; memcpy(&x, &a->fval, 8); memcpy(&y, &r->fval, 8); MV(x == y, "wrong value of a float literal"); break; }
      case hsql::kExprLiteralInterval: MV(a->ival == r->ival, "wrong duration of an interval"); MK((int)a->datetimeField == r->dt, "wrong unit of an interval"); break;
      case hsql::kExprParameter: MK(a->ival == r->ival, "wrong number of a placeholder"); MK(a->ival2 == r->ival, "wrong position of a placeholder"); MK(!params || ((size_t)r->ival < params->size() && (*params)[r->ival] == a), "the list of placeholders does not hold the placeholder of the tree"); break;
      case hsql::kExprArrayIndex: MV(a->ival == r->ival, "wrong array position"); break;
      case hsql::kExprExtract: MK((int)a->datetimeField == r->dt, "wrong field of EXTRACT"); break;
      case hsql::kExprCast: type(a->columnType, r->ct, "wrong type of a cast"); break;
      default: break;
    }
    expr(a->expr, r->e1, "wrong operand of an expression"); expr(a->expr2, r->e2, "wrong second operand of an expression"); exprs(a->exprList, r->list, "wrong list of arguments or elements of an expression"); sel(a->select, r->sel, "wrong subquery of an expression");
    MK(!a->windowDescription == !r->win, "wrong window of a function call");
    if (r->win && ok) { const hsql::WindowDescription* w = a->windowDescription; exprs(w->partitionList, r->win->part, "wrong PARTITION BY"); order(w->orderList, r->win->order); MK(w->frameDescription, "missing frame"); MK((int)w->frameDescription->type == r->win->ftype, "wrong frame type"); bound(w->frameDescription->start, r->win->s, "wrong frame start"); bound(w->frameDescription->end, r->win->e, "wrong frame end"); }
  }
  void bound(const hsql::FrameBound* a, const RBound& r, const char* m) { MK(a, m); MV(a->offset == r.off, m); MK((int)a->type == r.type, m); MK(a->unbounded == r.unb, m); }
  void order(const std::vector<hsql::OrderDescription*>* a, const RV<ROrder*>* r) {
    MK(!a == !r, "wrong ORDER BY"); if (!a) return; MK((int)a->size() == r->n, "wrong number of ORDER BY terms");
    for (int i = 0; i < r->n && ok; i++) { MK((*a)[i], "missing ORDER BY term"); MK((int)(*a)[i]->type == r->a[i]->dir, "wrong sort direction"); MK((int)(*a)[i]->null_ordering == r->a[i]->nulls, "wrong null ordering"); expr((*a)[i]->expr, r->a[i]->e, "wrong ORDER BY term"); }
  }
  void limit(const hsql::LimitDescription* a, const RLimit* r) { MK(!a == !r, "wrong LIMIT"); if (!a) return; expr(a->limit, r->lim, "wrong LIMIT value"); expr(a->offset, r->off, "wrong OFFSET value"); }
  void alias(const hsql::Alias* a, const RAlias* r) { MK(!a == !r, "wrong table alias"); if (!a) return; str(a->name, r->name, "wrong table alias"); names(a->columns, r->cols, "wrong column aliases"); }
  void tab(const hsql::TableRef* a, const RTab* r, const char* m) {
    MK(!a == !r, m); if (!a) return; MK((int)a->type == r->type, "a table reference has the wrong kind or nesting");
    str(a->schema, r->schema, "wrong schema of a table"); str(a->name, r->name, "wrong name of a table"); alias(a->alias, r->alias); sel(a->select, r->sel, "wrong subquery in FROM");
    MK(!a->list == !r->list, "wrong table list"); if (r->list) { MK((int)a->list->size() == r->list->n, "wrong number of tables"); for (int i = 0; i < r->list->n; i++) tab((*a->list)[i], r->list->a[i], "missing table"); }
    bool j = r->type == hsql::kTableJoin; MK(!!a->join == j, "wrong join");
    if (j && ok) { MK((int)a->join->type == r->jtype, "wrong join type"); tab(a->join->left, r->l, "missing left table"); tab(a->join->right, r->r, "missing right table"); expr(a->join->condition, r->cond, "wrong join condition"); names(a->join->namedColumns, r->named, "wrong USING columns"); }
  }
  void sel(const hsql::SelectStatement* a, const RSel* r, const char* m) {
    MK(!a == !r, m); if (!a) return; MK(a->type() == hsql::kStmtSelect, "a query is no SELECT statement");
    MK(a->selectDistinct == r->distinct, "wrong DISTINCT flag of a query"); MK(a->selectList, "missing select list"); exprs(a->selectList, r->list, "wrong select list"); tab(a->fromTable, r->from, "wrong FROM clause"); expr(a->whereClause, r->where, "wrong WHERE clause");
    MK(!a->groupBy == !r->group, "wrong GROUP BY"); if (r->group && ok) { exprs(a->groupBy->columns, r->group, "wrong GROUP BY"); expr(a->groupBy->having, r->having, "wrong HAVING"); }
    order(a->order, r->order); limit(a->limit, r->limit);
    MK(!a->setOperations == !r->sets, "wrong set operations");
    if (r->sets && ok) { MK((int)a->setOperations->size() == r->sets->n, "wrong number of set operations"); for (int i = 0; i < r->sets->n && ok; i++) { const hsql::SetOperation* o = (*a->setOperations)[i]; const RSetOp* q = r->sets->a[i]; MK(o, "missing set operation"); MK((int)o->setType == q->type, "wrong kind of set operation"); MK(o->isAll == q->all, "wrong ALL flag"); sel(o->nestedSelectStatement, q->sel, "wrong operand of a set operation"); order(o->resultOrder, q->order); limit(o->resultLimit, q->limit); } }
    MK(!a->withDescriptions == !r->with, "wrong WITH clause");
    if (r->with && ok) { MK((int)a->withDescriptions->size() == r->with->n, "wrong number of common table expressions"); for (int i = 0; i < r->with->n && ok; i++) { const hsql::WithDescription* d = (*a->withDescriptions)[i]; MK(d, "missing common table expression"); str(d->alias, r->with->a[i]->alias, "wrong name of a common table expression"); sel(d->select, r->with->a[i]->sel, "wrong common table expression"); } }
    MK(!a->lockings == !r->locks, "wrong locking clause");
    if (r->locks && ok) { MK((int)a->lockings->size() == r->locks->n, "wrong number of locking clauses"); for (int i = 0; i < r->locks->n && ok; i++) { const hsql::LockingClause* k = (*a->lockings)[i]; const RLock* q = r->locks->a[i]; MK(k, "missing locking clause"); MK((int)k->rowLockMode == q->mode, "wrong lock mode"); MK((int)k->rowLockWaitPolicy == q->wait, "wrong lock wait policy"); names(k->tables, q->tabs, "wrong tables of a locking clause"); } }
    MK(!a->hints || a->hints->empty() || inTop, "hints on a nested query");
  }
  bool inTop = false, lens = true; const std::vector<hsql::Expr*>* params = nullptr;
  void ref(const hsql::ReferencesSpecification* a, const RRef* r, const char* m) { MK(!a == !r, m); if (!a) return; str(a->schema, r->schema, m); str(a->table, r->table, m); names(a->columns, r->cols, m); }
  static int kindBit(hsql::ConstraintType c) { switch (c) { case hsql::ConstraintType::ForeignKey: return C_FK; case hsql::ConstraintType::NotNull: return C_NOTNULL; case hsql::ConstraintType::Null: return C_NULL; case hsql::ConstraintType::PrimaryKey: return C_PK; case hsql::ConstraintType::Unique: return C_UNIQUE; } return 0; }
  void create(const hsql::CreateStatement* a, const RStmt* r) {
    MK((int)a->type == r->sub, "wrong kind of CREATE"); MK(a->ifNotExists == r->flag, "wrong IF NOT EXISTS flag"); str(a->filePath, r->file, "wrong file of CREATE TABLE"); str(a->schema, r->schema, "wrong schema of CREATE"); str(a->tableName, r->name, "wrong name in CREATE"); str(a->indexName, r->name2, "wrong index name");
    names(a->indexColumns, r->sub == hsql::kCreateIndex ? r->cols : nullptr, "wrong index columns"); names(a->viewColumns, r->sub == hsql::kCreateView ? r->cols : nullptr, "wrong view columns"); sel(a->select, r->sel, "wrong query of CREATE");
    MK(!a->columns == !r->defs, "wrong column definitions"); MK(!a->tableConstraints == !r->cons, "wrong table constraints");
    if (r->defs && ok) { MK((int)a->columns->size() == r->defs->n, "wrong number of column definitions");
      for (int i = 0; i < r->defs->n && ok; i++) { const hsql::ColumnDefinition* c = (*a->columns)[i]; const RCol* q = r->defs->a[i]; MK(c, "missing column definition"); str(c->name, q->name, "wrong column name"); type(c->type, q->t, "wrong column type"); MK(c->nullable == !!q->nullable, "wrong nullability");
        int mask = 0, cnt = 0; MK(c->column_constraints, "missing constraint set"); for (auto k : *c->column_constraints) { mask |= kindBit(k); cnt++; } MK(mask == q->mask && cnt == __builtin_popcount(q->mask), "wrong column constraints");
        MK(c->references ? (int)c->references->size() == q->refs->n : q->refs->n == 0, "wrong number of references"); for (int k = 0; k < q->refs->n; k++) ref((*c->references)[k], q->refs->a[k], "wrong reference of a column"); } }
    if (r->cons && ok) { MK((int)a->tableConstraints->size() == r->cons->n, "wrong number of table constraints");
      for (int i = 0; i < r->cons->n && ok; i++) { const hsql::TableConstraint* c = (*a->tableConstraints)[i]; const RTabCon* q = r->cons->a[i]; MK(c, "missing table constraint"); MK(kindBit(c->type) == q->kind, "wrong kind of table constraint"); MK(c->columnNames, "missing columns of a table constraint"); names(c->columnNames, q->cols, "wrong columns of a table constraint");
        if (q->kind == C_FK) { const hsql::ForeignKeyConstraint* f = static_cast<const hsql::ForeignKeyConstraint*>(c); ref(f->references, q->ref, "wrong reference of a foreign key"); } } }
  }
  void csv(const hsql::CsvOptions* a, const RStmt* r) { MK(!!a == r->csv, "wrong CSV options"); if (!a) return; str(a->delimiter, r->csvDelim, "wrong DELIMITER"); str(a->null, r->csvNull, "wrong NULL option"); str(a->quote, r->csvQuote, "wrong QUOTE"); }
  void stmt(const hsql::SQLStatement* a0, const RStmt* r) {
    MK(a0, "missing statement"); MK((int)a0->type() == r->kind, "a statement has the wrong kind"); MK(a0->isType((hsql::StatementType)r->kind) && a0->is((hsql::StatementType)r->kind), "isType disagrees with type");
    exprs(a0->hints, r->hints, "wrong hints"); if (lens) MV((int64_t)a0->stringLength == r->len, "wrong length of a statement");
    switch (r->kind) {
      case hsql::kStmtSelect: inTop = true; sel((const hsql::SelectStatement*)a0, r->sel, "missing query"); break;
      case hsql::kStmtCreate: create((const hsql::CreateStatement*)a0, r); break;
      case hsql::kStmtPrepare: { auto* a = (const hsql::PrepareStatement*)a0; str(a->name, r->name, "wrong name in PREPARE"); str(a->query, r->name2, "wrong text in PREPARE"); break; }
      case hsql::kStmtInsert: { auto* a = (const hsql::InsertStatement*)a0; MK((int)a->type == r->sub, "wrong kind of INSERT"); str(a->schema, r->schema, "wrong schema in INSERT"); str(a->tableName, r->name, "wrong table in INSERT"); names(a->columns, r->cols, "wrong columns in INSERT"); exprs(a->values, r->exprs, "wrong values in INSERT"); sel(a->select, r->sel, "wrong query in INSERT"); break; }
      case hsql::kStmtDelete: { auto* a = (const hsql::DeleteStatement*)a0; str(a->schema, r->schema, "wrong schema in DELETE or TRUNCATE"); str(a->tableName, r->name, "wrong table in DELETE or TRUNCATE"); expr(a->expr, r->where, "wrong condition in DELETE or TRUNCATE"); break; }
      case hsql::kStmtUpdate: { auto* a = (const hsql::UpdateStatement*)a0; tab(a->table, r->tab, "wrong table in UPDATE"); MK(a->updates && (int)a->updates->size() == r->upd->n, "wrong number of assignments"); for (int i = 0; i < r->upd->n && ok; i++) { MK((*a->updates)[i], "missing assignment"); str((*a->updates)[i]->column, r->upd->a[i]->col, "wrong column of an assignment"); expr((*a->updates)[i]->value, r->upd->a[i]->val, "wrong value of an assignment"); } expr(a->where, r->where, "wrong condition in UPDATE"); break; }
      case hsql::kStmtDrop: { auto* a = (const hsql::DropStatement*)a0; MK((int)a->type == r->sub, "wrong kind of DROP"); MK(a->ifExists == r->flag, "wrong IF EXISTS flag"); str(a->schema, r->schema, "wrong schema in DROP"); str(a->name, r->name, "wrong name in DROP"); str(a->indexName, r->name2, "wrong index name in DROP"); break; }
      case hsql::kStmtAlter: { auto* a = (const hsql::AlterStatement*)a0; str(a->schema, r->schema, "wrong schema in ALTER"); str(a->name, r->name, "wrong table in ALTER"); MK(a->ifTableExists == r->flag, "wrong IF EXISTS flag of the table"); MK(a->action && a->action->type == hsql::DropColumn, "wrong action of ALTER"); auto* d = static_cast<const hsql::DropColumnAction*>(a->action); MK(d->ifExists == r->flag2, "wrong IF EXISTS flag of the column"); str(d->columnName, r->name2, "wrong column in ALTER"); break; }
      case hsql::kStmtExecute: { auto* a = (const hsql::ExecuteStatement*)a0; str(a->name, r->name, "wrong name in EXECUTE"); if (!r->exprs && a->parameters) MK(a->parameters->empty(), "wrong arguments of EXECUTE"); else exprs(a->parameters, r->exprs, "wrong arguments of EXECUTE"); break; }
      case hsql::kStmtTransaction: MK((int)((const hsql::TransactionStatement*)a0)->command == r->sub, "wrong transaction command"); break;
      case hsql::kStmtShow: { auto* a = (const hsql::ShowStatement*)a0; MK((int)a->type == r->sub, "wrong kind of SHOW"); str(a->schema, r->schema, "wrong schema in SHOW"); str(a->name, r->name, "wrong table in SHOW"); break; }
      case hsql::kStmtImport: { auto* a = (const hsql::ImportStatement*)a0; MK((int)a->type == r->sub, "wrong format of an import"); str(a->filePath, r->file, "wrong file of an import"); str(a->schema, r->schema, "wrong schema of an import"); str(a->tableName, r->name, "wrong table of an import"); expr(a->whereClause, r->where, "wrong condition of an import"); str(a->encoding, r->enc, "wrong encoding of an import"); csv(a->csv_options, r); break; }
      case hsql::kStmtExport: { auto* a = (const hsql::ExportStatement*)a0; MK((int)a->type == r->sub, "wrong format of an export"); str(a->filePath, r->file, "wrong file of an export"); str(a->schema, r->schema, "wrong schema of an export"); str(a->tableName, r->name, "wrong table of an export"); sel(a->select, r->sel, "wrong query of an export"); str(a->encoding, r->enc, "wrong encoding of an export"); csv(a->csv_options, r); break; }
    }
  }
};
