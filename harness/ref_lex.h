// Reference scanner of the SQL dialect: written from the description of the tokens (see P05-P08), one
// token at a time, over bytes that may be symbolic. Shares nothing with the generated scanner.
#pragma once
#include "ref.h"
#include "kw.h"
struct RLex {
  const char* s; int n; int i, line, col; TokStream ts; int cap; bool ended;
  static bool word(char c) { return KW_CLS[(unsigned char)c] != 0; }
  static bool digit(char c) { return c >= '0' && c <= '9'; }
  void adv() { if (s[i] == '\n') { line++; col = 0; } else col++; i++; }
  void advTo(int j) { while (i < j) adv(); }
  // position after white space and comments starting at j
  int blanks(int j, bool needEol) const {
    for (;;) {
      if (j < n && (s[j] == ' ' || s[j] == '\t' || s[j] == '\n')) { j++; continue; }
      if (j + 1 < n && s[j] == '-' && s[j + 1] == '-') { int k = j; while (k < n && s[k] != '\n') k++; if (k == n && needEol) return j; j = k; continue; }
      return j;
    }
  }
  bool wordIs(int j, const char* w) const { int k = 0; for (; w[k]; k++) { if (j + k >= n) return false; char c = s[j + k]; if (c != w[k] && c != (char)(w[k] + 32)) return false; } return j + k >= n || !word(s[j + k]); }
  const char* copy(int a, int b) { char* t = (char*)sx_alloc(b - a + 1); for (int k = a; k < b; k++) t[k - a] = s[k]; t[b - a] = 0; return t; }
  Tok& put(int code, int end) {
    if (ts.n == cap) { int c = cap ? cap * 2 : 32; Tok* b = (Tok*)sx_alloc(sizeof(Tok) * c); for (int k = 0; k < ts.n; k++) b[k] = ts.t[k]; ts.t = b; cap = c; }
    Tok& t = ts.t[ts.n++]; t.code = code; t.text = nullptr; t.ival = 0; t.fval = 0; t.line = line; t.col = col; t.startpos = i; advTo(end); t.eline = line; t.ecol = col; t.endpos = end; return t; }
  bool next() {
    if (ended) return false;
    advTo(blanks(i, false));
    if (i >= n) { ended = true; put(0, n); return true; }
    char c = s[i]; char d = i + 1 < n ? s[i + 1] : 0;
    if (word(c) && !digit(c) && c != '_') {
      int node = 0, j = i; bool dead = false;
      while (j < n && word(s[j])) { if (!dead) { node = KW_TRIE[node][KW_CLS[(unsigned char)s[j]]]; if (j > i && node == 1) dead = true; } j++; }
      int code = dead ? 0 : KW_CODE[node];
      if (code == -1 || code == -2) { int k = blanks(j, true); const char* w = code == -1 ? "ROW" : "VARYING"; if (k > j && wordIs(k, w)) { put(code == -1 ? SQL_CURRENT_ROW : SQL_CHARACTER_VARYING, k + (code == -1 ? 3 : 7)); return true; } code = 0; }
      if (code) { put(code, j); return true; }
      const char* t = copy(i, j); put(SQL_IDENTIFIER, j).text = t; return true;
    }
    if (c == '-' && i + 20 <= n) {   // the smallest integer has no positive counterpart and is one literal
      static const char* const M = "-9223372036854775808"; int k = 0; while (k < 20 && s[i + k] == M[k]) k++;
      if (k == 20 && !(i + 20 < n && (digit(s[i + 20]) || s[i + 20] == '.'))) { put(SQL_INTVAL, i + 20).ival = -9223372036854775807LL - 1; return true; }
    }
    if (digit(c) || (c == '.' && digit(d))) {
      int j = i; while (j < n && digit(s[j])) j++;
      if (j < n && s[j] == '.') { j++; while (j < n && digit(s[j])) j++; double f = sx_uf_double(s + i, j - i); put(SQL_FLOATVAL, j).fval = f; return true; }
      uint64_t v = 0; bool over = false;
      for (int k = i; k < j; k++) { uint64_t g = (uint64_t)(s[k] - '0'); if (v >= (1UL << 59) && v > (9223372036854775807UL - g) / 10) { over = true; break; } v = v * 10 + g; }
      put(over ? SQL_INVALID : SQL_INTVAL, j).ival = (int64_t)v; return true;
    }
    if (c == '\'') {
      int j = i + 1, m = 0; char* t = (char*)sx_alloc(n - i + 1);
      for (;;) { if (j >= n || s[j] == 0) { put(SQL_INVALID, j < n ? j + 1 : n); return true; } if (s[j] == '\'') { if (j + 1 < n && s[j + 1] == '\'') { t[m++] = '\''; j += 2; continue; } break; } t[m++] = s[j++]; }
      t[m] = 0; put(SQL_STRING, j + 1).text = t; return true;
    }
    if (c == '"') {
      int j = i + 1; while (j < n && s[j] != '"' && s[j] != '\n' && s[j] != 0) j++;
      if (j == i + 1 || j >= n || s[j] != '"') { put(SQL_INVALID, i + 1); return true; }
      const char* t = copy(i + 1, j); put(SQL_IDENTIFIER, j + 1).text = t; return true;
    }
    if (c == '=' && d == '=') { put(SQL_EQUALS, i + 2); return true; }
    if ((c == '!' && d == '=') || (c == '<' && d == '>')) { put(SQL_NOTEQUALS, i + 2); return true; }
    if (c == '<' && d == '=') { put(SQL_LESSEQ, i + 2); return true; }
    if (c == '>' && d == '=') { put(SQL_GREATEREQ, i + 2); return true; }
    if (c == '|' && d == '|') { put(SQL_CONCAT, i + 2); return true; }
    put(CH_SINGLE[(unsigned char)c] ? (int)(unsigned char)c : (int)SQL_INVALID, i + 1); return true;
  }
  void init(const char* text, int len) { s = text; n = len; i = line = col = 0; ts.t = nullptr; ts.n = 0; cap = 0; ended = false; }
};
