// What is checked about one parse: the real outcome against the reference.
#pragma once
#include "match.h"
#include "ref_lex.h"
#include "util/sqlhelper.h"
#include "print.h"
#include "names.h"
#include <string>
#include <vector>
#ifdef SX_NATIVE
#include <cstdio>
#include <cstdlib>
#include <thread>
#endif
enum { M_LOC = 1, M_LEAK = 2, M_LEN = 4, M_TOK = 8, M_PRINT = 16, M_GLOBAL = 32, M_NOTREE = 64, M_API = 128, M_CSTR = 256, M_TWICE = 512, M_QUIET = 1024, M_SAME = 2048, M_MSG = 4096 };
using hsql::SQLParser; using hsql::SQLParserResult;

inline bool gStubbed;   // the real message was replaced (token windows)
struct Checker {
  int mode; bool valid = false;
  explicit Checker(int m) : mode(m) {}
  // P01: the shape of the outcome
  static void outcome(bool ran, SQLParserResult& r) {
    sx_assert(ran, "parse reports that it could not run");
    if (r.isValid()) {
      sx_reach(1);
      if (!r.size()) sx_fail("a valid result holds no statement");
      if (r.errorMsg()) sx_fail("a valid result has an error message");
      for (size_t i = 0; i < r.size(); i++) { const hsql::SQLStatement* s = r.getStatement(i); if (!s) sx_fail("a valid result holds a null statement"); int k = s->type(); if (k <= hsql::kStmtError || k > hsql::kStmtTransaction) sx_fail("a statement is of no known kind"); }
    } else {
      sx_reach(2);
      if (r.size()) sx_fail("an invalid result holds statements");
      if (!r.parameters().empty()) sx_fail("an invalid result holds parameters");
      if (!r.errorMsg() || !r.errorMsg()[0]) sx_fail("an invalid result has no error message");
      if (r.errorLine() < 0 || r.errorColumn() < 0) sx_fail("the position of an error is negative");
    }
  }
  static bool before(int l1, int c1, int l2, int c2) { return l1 < l2 || (l1 == l2 && c1 < c2); }
  void location(SQLParserResult& r, Ref& ref) {
    int l = r.errorLine(), c = r.errorColumn();
    Tok a = ref.at(ref.lo), b = ref.at(ref.hi); bool ok;
    int sl = a.line, sc = a.col;
    if (!a.code && ref.lo > 0) { const Tok& q = ref.at(ref.lo - 1); sl = q.line; sc = q.col; } else if (!a.code) { sl = 0; sc = 0; }
    if (!b.code || !a.code) ok = !before(l, c, sl, sc) && !before(b.eline, b.ecol, l, c);   // the input ends too early
    else ok = !before(l, c, sl, sc) && before(l, c, b.eline, b.ecol);
    sx_reach(ref.sem ? 5 : 3);
    if (!ok) sx_fail(ref.sem ? "an error of content is located outside its construct" : "a syntax error is located outside the offending token");
  }
  // P30: what the message must say
  static bool has(const char* t, const char* w) { for (; *t; t++) { int i = 0; while (w[i] && t[i] == w[i]) i++; if (!w[i]) return true; } return false; }
  static const char* eat(const char* m, const char* w) { if (!m) return nullptr; while (*w) if (*m++ != *w++) return nullptr; return m; }
  static const char* eatToken(const char* m, int code) { if (code > 0 && code < 256) { char t[4] = {'\'', (char)code, '\'', 0}; if (const char* e = eat(m, t)) return e; return eat(m, "invalid token"); } return eat(m, code ? tokenName(code) : "end of file"); }
  static const char* eatAny(const char* m) {   // the name of some token
    if (*m == '\'') return m[1] && m[2] == '\'' ? m + 3 : nullptr;
    if (const char* e = eat(m, "end of file")) return e;
    const char* e = m; while ((*e >= 'A' && *e <= 'Z') || *e == '_') e++;
    for (int i = 0; i < TOKENS; i++) { int k = 0; while (TOKEN_NAME[i][k] && m + k < e && m[k] == TOKEN_NAME[i][k]) k++; if (!TOKEN_NAME[i][k] && m + k == e) return e; }
    return nullptr; }
  static bool syntaxMessage(const char* m, int code) {
    m = eat(m, "syntax error"); if (!m) return false;
    if (gStubbed && !*m) return true;
    m = eatToken(eat(m, ", unexpected "), code); if (!m) return false;
    if (!*m) return true;
    m = eat(m, ", expecting "); for (;;) { if (!m) return false; m = eatAny(m); if (!m) return false; if (!*m) return true; m = eat(m, " or "); }
  }
  void message(SQLParserResult& r, Ref& ref) {
    const char* m = r.errorMsg(); sx_reach(13); if (!m) return;   // outcome() reports it
    if (!ref.sem) { if (!syntaxMessage(m, ref.at(ref.lo).code)) sx_fail("the message does not name the offending token"); return; }
    if (has(m, ref.why) && (!ref.whyName || has(m, ref.whyName))) return;
    if (!syntaxMessage(m, ref.at(ref.hi).code)) sx_fail("the message does not say what is wrong with the content");   // the token after the construct may be wrong as well
  }
  void compare(bool ran, SQLParserResult& r, Ref& ref) {
    outcome(ran, r); valid = r.isValid();
    if (mode & M_NOTREE) return;
    bool ok = !ref.err;
    if (r.isValid() && !ok) sx_fail("input outside the language is accepted");
    if (!r.isValid() && ok) sx_fail("input of the language is rejected");
    if (ok) tree(r, ref);
    else if (mode & M_LOC) location(r, ref);
    if (!ok && (mode & M_MSG)) message(r, ref);
  }
  void tree(SQLParserResult& r, Ref& ref) {
    if ((int)r.size() != ref.stmts->n) { sx_fail("wrong number of statements"); return; }
    Match m; m.lens = mode & M_LEN; m.params = &r.parameters();
    for (int i = 0; i < ref.stmts->n && m.ok; i++) { if (r.getStatement(i) != r.getStatements()[i] || r.getMutableStatement(i) != r.getStatement(i)) m.bad("accessors of the result disagree"); m.stmt(r.getStatement(i), ref.stmts->a[i]); }
    if ((int)r.parameters().size() != ref.params->n) { sx_fail("wrong number of placeholders"); return; }
    for (int i = 0; i < ref.params->n && m.ok; i++) { const hsql::Expr* e = r.parameters()[i]; if (!e || e->type != hsql::kExprParameter || e->ival != i) m.bad("the list of placeholders is out of order"); }
    sx_reach(4);
  }
};

// The text under test.
static RLex gLex;
static bool lexMore() { return gLex.next(); }
static void lexStart(const char* s, int n) { gLex.init(s, n); gLex.ts.more = lexMore; gLex.next(); }

static void printAll(SQLParserResult& r, Ref& ref) { for (size_t i = 0; i < r.size() && (int)i < ref.stmts->n; i++) printCheck(r.getStatement(i), ref.stmts->a[i]); }

static void unchanged(const std::string& sql, const char* s, int n) { if ((int)sql.size() != n || memcmp(sql.data(), s, n)) sx_fail("side effect: the input is changed"); }
static void checkTokens(const char* s, int n, int mode) {
  if (mode & M_LEAK) sx_heap_mark();
  {
    std::string sql(s, n); std::vector<int16_t> out; out.push_back(-7); out.push_back(12);
    if (mode & M_GLOBAL) sx_forbid_global_writes(1);
    if (mode & M_QUIET) sx_watch(1);
    bool ok = SQLParser::tokenize(sql, &out);
    if (mode & M_QUIET) { bool diag = sx_watch(0); unchanged(sql, s, n); bool bad = false; for (int16_t t : out) bad |= t == SQL_INVALID; if (diag && !bad) sx_fail("side effect: tokenizing writes to standard error though every token is known"); sx_reach(14); }
    if (mode & M_GLOBAL) sx_forbid_global_writes(0);
    sx_assert(ok, "tokenize reports a failure");
    lexStart(s, n); size_t k = 2;
    if (out.size() < 2 || out[0] != -7 || out[1] != 12) sx_fail("tokenize changes what was in the output list");
    for (int i = 0;; i++) {
      const Tok& t = gLex.ts.at(i);
      if (!t.code) { if (out.size() != k) sx_fail("tokenize yields too many tokens"); sx_reach(7); break; }
      if (k >= out.size()) { sx_fail("tokenize yields too few tokens"); break; }
      if (t.code == SQL_INVALID) { if (out[k] != SQL_INVALID) sx_fail("tokenize takes a character outside the language for a token"); sx_reach(8); break; }
      if (out[k] != t.code) sx_fail("tokenize yields a wrong token");
      k++;
    }
    if (mode & M_TWICE) { std::vector<int16_t> o2; sx_assert(SQLParser::tokenize(sql, &o2), "tokenize reports a failure"); if (o2.size() + 2 != out.size()) sx_fail("tokenize depends on what was in the output list"); for (size_t i = 0; i < o2.size(); i++) if (o2[i] != out[i + 2]) sx_fail("tokenize depends on what was in the output list"); }
  }
  if (mode & M_LEAK) sx_check_leaks("after tokenizing");
}

// P29: the other entry points tell the same about the text.
static void sameAs(bool ran, SQLParserResult& r, bool ran2, SQLParserResult& q) {
  if (ran != ran2) sx_fail("entry points differ in what they return");
  if (r.isValid() != q.isValid()) sx_fail("entry points differ in their verdict");
  if (r.size() != q.size() || r.parameters().size() != q.parameters().size()) sx_fail("entry points differ in the number of statements or placeholders");
  if (r.errorLine() != q.errorLine() || r.errorColumn() != q.errorColumn()) sx_fail("entry points differ in the position of the error");
  const char *a = r.errorMsg(), *b = q.errorMsg(); if (!a != !b || (a && strcmp(a, b))) sx_fail("entry points differ in their message");
  for (size_t i = 0; i < r.size() && i < q.size(); i++) if (r.getStatement(i)->type() != q.getStatement(i)->type() || r.getStatement(i)->stringLength != q.getStatement(i)->stringLength) sx_fail("entry points differ in a statement");
}
static void same(const std::string& sql, bool ran, SQLParserResult& r, int mode) {
  bool nul = false; for (char c : sql) nul |= c == 0;
  if (!(mode & M_CSTR) || !nul) { SQLParserResult q; bool k = SQLParser::parseSQLString(sql, &q); sameAs(ran, r, k, q); }
  SQLParserResult q; bool k = SQLParser::parseSQLString(sql.c_str(), &q);
  if (!nul) { sameAs(ran, r, k, q); sx_reach(15); }
  else { SQLParserResult p; bool pk = SQLParser::parse(std::string(sql.c_str()), &p); sameAs(pk, p, k, q); }
}
// Parse the text with the real parser and judge the outcome. Returns whether it was accepted.
static bool checkText(const char* s, int n, int mode) {
#ifdef SX_NATIVE
  if (getenv("SX_SHOW")) { printf("input (%d bytes): ", n); for (int i = 0; i < n; i++) { unsigned char c = s[i]; if (c >= 32 && c < 127 && c != '\\') putchar(c); else printf("\\x%02x", c); } putchar('\n'); fflush(stdout); }
#endif
#ifdef SX_NATIVE
  if (getenv("SX_THREADS")) { auto work = [&] { for (int i = 0; i < 30; i++) { std::string sql(s, n); SQLParserResult r; SQLParser::parse(sql, &r); std::vector<int16_t> t; SQLParser::tokenize(sql, &t); } }; std::thread a(work), b(work); a.join(); b.join(); return true; }
#endif
  if (mode & M_LEAK) sx_heap_mark();
  bool valid;
  {
    std::string sql(s, n); SQLParserResult r; int n0 = n;
    if (mode & M_GLOBAL) sx_forbid_global_writes(1);
    if (mode & M_QUIET) sx_watch(1);
    bool ran = mode & M_CSTR ? SQLParser::parseSQLString(sql.c_str(), &r) : mode & M_API ? SQLParser::parseSQLString(sql, &r) : SQLParser::parse(sql, &r);
    if (mode & M_CSTR) n = (int)strlen(sql.c_str());   // the other two take null characters
    if (mode & M_GLOBAL) sx_forbid_global_writes(0);
    if (mode & M_QUIET) { bool diag = sx_watch(0); unchanged(sql, s, n0); if (diag && r.isValid()) sx_fail("side effect: accepted input makes the parser write to standard error"); sx_reach(14); }
    if (mode & M_SAME) same(sql, ran, r, mode);
#ifdef SX_NATIVE
    if (getenv("SX_SHOW")) printf("outcome: %s%s%s (line %d, column %d)\n", r.isValid() ? "valid" : "invalid: ", r.isValid() ? "" : r.errorMsg() ? r.errorMsg() : "(null)", "", r.errorLine(), r.errorColumn());
#endif
    Checker c(mode);
    if (mode & M_NOTREE) { Ref none; c.compare(ran, r, none); }
    else {
      lexStart(s, n); Ref ref; ref.parse(&gLex.ts); c.compare(ran, r, ref);
      if ((mode & M_PRINT) && r.isValid() && !ref.err) { printAll(r, ref); sx_reach(6); c.tree(r, ref); }
    }
    valid = c.valid;
  }
  if (mode & M_LEAK) sx_check_leaks("after parsing and destroying the result");
  if (mode & M_TOK) checkTokens(s, n, mode);
  return valid;
}
