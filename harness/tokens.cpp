// Real parses of symbolic token sequences: the scanner is replaced by a stream of tokens, some of them symbolic.
#include "check.h"
#include "seeds.h"
static struct { int seed, k, d, lo, hi; TokStream src; int pos, left, skip; bool used, ended; TokStream ts; int cap; } W;
static int gCur; static bool gSpace;
static Tok* slot(int& idx) { if (W.ts.n == W.cap) { int c = W.cap ? W.cap * 2 : 64; Tok* b = (Tok*)sx_alloc(sizeof(Tok) * c); for (int i = 0; i < W.ts.n; i++) b[i] = W.ts.t[i]; W.ts.t = b; W.cap = c; } idx = W.ts.n++; Tok* t = &W.ts.t[idx]; t->text = nullptr; t->ival = 0; t->fval = 0; t->line = t->eline = 0; t->startpos = t->col = 3 * idx; t->endpos = t->ecol = 3 * idx + 2; return t; }
static void endTok() { int i; Tok* t = slot(i); t->code = 0; t->endpos = t->ecol = t->col = t->startpos = 3 * i; W.ended = true; }
static bool tokMore() {
  if (W.ended) return false;
  if (!W.used && W.left == 0 && W.pos >= W.lo && W.pos <= W.hi) { if (sx_value(sx_choice(2, "window here"))) { W.used = true; W.left = W.k; W.skip = W.d; if (!W.left) { for (; W.skip && W.src.at(W.pos).code; W.skip--) W.pos++; } } }
  if (W.left > 0) {
    uint32_t x = sx_choice(ALPHA, "token"); if (x == 0) { endTok(); return true; }
    int i; Tok* t = slot(i); int code = A_CODE[x];
    if (code == SQL_IDENTIFIER || code == SQL_STRING) { char* b = (char*)sx_alloc(20); for (int j = 0; j < 20; j++) b[j] = A_TEXT[x][j]; t->text = b; }
    else if (code == SQL_INTVAL) t->ival = (int64_t)(sx_u64("integer") >> 1);
    else if (code == SQL_FLOATVAL) t->fval = 0.5;
    t->code = code;
    if (--W.left == 0) for (; W.skip && W.src.at(W.pos).code; W.skip--) W.pos++;
    return true;
  }
  const Tok& q = W.src.at(W.pos); if (!q.code) { endTok(); return true; }
  W.pos++; int i; Tok* t = slot(i); int a = t->startpos, b = t->endpos; *t = q; t->line = t->eline = 0; t->startpos = t->col = a; t->endpos = t->ecol = b; return true;
}
static void start(int seed, int k, int d, int lo, int hi) {
  const char* s = SEED[seed]; lexStart(s, (int)strlen(s)); while (gLex.next()) {}
  W.src = gLex.ts; W.src.more = nullptr; W.k = k; W.d = d; W.lo = lo; W.hi = hi; W.pos = W.left = W.skip = 0; W.used = W.ended = false; W.ts.t = nullptr; W.ts.n = 0; W.cap = 0; W.ts.more = tokMore; gCur = 0; gSpace = false;
}
#ifndef SX_NATIVE
static void locate(HSQL_LTYPE* yylloc, const char* yytext, int yyleng) {
#ifdef YY_USER_ACTION
  YY_USER_ACTION
#else
  yylloc->first_line = yylloc->last_line; yylloc->first_column = yylloc->last_column; yylloc->total_column += yyleng; yylloc->string_length += yyleng; yylloc->last_column += yyleng;
#endif
}
extern "C" int sxrepl_hsql_lex(HSQL_STYPE* lv, HSQL_LTYPE* ll, void*) {
  if (gSpace) { locate(ll, " ", 1); gSpace = false; }
  Tok t = W.ts.at(gCur); if (!t.code) return 0;
  gCur++; gSpace = true; locate(ll, "xx", 2);
  if (t.code == SQL_IDENTIFIER || t.code == SQL_STRING) { bool fixed = t.text != nullptr && sx_is_sym((uint8_t)t.text[0]); int n = fixed ? 20 : (int)strlen(t.text) + 1; char* b = (char*)malloc(n); for (int i = 0; i < n; i++) b[i] = t.text[i]; lv->sval = b; }
  else if (t.code == SQL_INTVAL) lv->ival = t.ival; else if (t.code == SQL_FLOATVAL) lv->fval = t.fval;
  return t.code;
}
extern "C" int sxstub_yysyntax_error(long*, char** m, const void*) { gStubbed = true; const char* t = "syntax error"; int i = 0; do (*m)[i] = t[i]; while (t[i++]); return 0; }
static void run(int mode) {
  if (mode & M_LEAK) sx_heap_mark();
  {
    SQLParserResult r; gStubbed = false; sx_split(3); bool ran = SQLParser::parse("tokens", &r); sx_split(0);
    Ref ref; ref.parse(&W.ts); Checker c(mode); c.compare(ran, r, ref);
    if ((mode & M_PRINT) && r.isValid() && !ref.err) { printAll(r, ref); sx_reach(6); c.tree(r, ref); }
  }
  if (mode & M_LEAK) sx_check_leaks("after parsing and destroying the result");
}
#else
static void run(int mode) {   // render the token sequence and judge the real parse of the text
  while (!W.ended) tokMore();
  std::string s;
  for (int i = 0; i + 1 < W.ts.n; i++) {
    const Tok& t = W.ts.t[i]; if (i) s += ' ';
    if (t.code == SQL_IDENTIFIER) { bool q = false; int dummy; (void)dummy; for (const char* p = t.text; *p; p++) if (!RLex::word(*p)) q = true; if (!RLex::word(t.text[0]) || RLex::digit(t.text[0]) || t.text[0] == '_') q = true; int node = 0; for (const char* p = t.text; *p && !q; p++) { node = KW_TRIE[node][KW_CLS[(unsigned char)*p]]; if (node == 1) break; if (!p[1] && KW_CODE[node]) q = true; } s += q ? "\"" + std::string(t.text) + "\"" : std::string(t.text); }
    else if (t.code == SQL_STRING) { s += '\''; for (const char* p = t.text; *p; p++) { if (*p == '\'') s += '\''; s += *p; } s += '\''; }
    else if (t.code == SQL_INTVAL) s += std::to_string(t.ival);
    else if (t.code == SQL_FLOATVAL) { char b[64]; snprintf(b, sizeof b, "%.17g", t.fval); s += b; if (!strpbrk(b, ".")) s += '.'; }
    else for (int x = 1; x < ALPHA; x++) if (A_CODE[x] == t.code) { s += A_TEXT[x]; break; }
  }
  char* b = (char*)malloc(s.size() + 1); memcpy(b, s.data(), s.size()); checkText(b, (int)s.size(), mode); free(b);
}
#endif
extern "C" {
// In the token sequence of the seed, at some position in [lo, hi], d tokens are replaced by k symbolic ones.
void job_tokens(int seed, int k, int d, int lo, int hi, int mode) { start(seed, k, d, lo, hi); run(mode); }
}
