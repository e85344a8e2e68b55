// Real parses of real texts with windows of symbolic bytes.
#include "check.h"
#include "seeds.h"
static char gBuf[1 << 17]; static int gLen;
static unsigned char symByte(int cls) {
  unsigned char b = sx_byte("byte");
  if (cls == 1) sx_assume(b >= '0' && b <= '9');
  else if (cls == 2) sx_assume(RLex::word((char)b));
  else if (cls == 4) sx_assume(b == ' ' || b == '\t' || b == '\n' || b == '\r' || b == '-' || b == ';' || b == '\'' || b == '"' || b == 'a' || b == '0' || b == 0);
  else if (cls == 5) sx_assume(RLex::digit((char)b) || b == '-' || b == '+' || b == ' ' || b == '.' || b == 'd');
  else if (cls == 6) sx_assume((b >= 'a' && b <= 'z') || (b >= 'A' && b <= 'Z'));
  else if (cls == 7) sx_assume(b == '\'' || b == '\\' || b == 'a');
  else if (cls == 8) sx_assume(b == '"' || b == ' ' || b == 'A');
  else if (cls == 3) sx_assume(b != '\n' && b != '\0' && b != '\'' && b != '"');
  return b;
}
// Placeholders: ~ any byte, ` a digit, @ a letter, digit or underscore, \x7f any but newline, NUL and quotes,
// # a separator, quote, letter or digit, \x06 a digit, sign, blank, dot or letter, \x05 a letter,
// \x04 a quote, backslash or letter, \x03 a double quote, blank or letter
static void fill(const char* s) { gLen = 0; for (; *s; s++) { char c = *s; if (c == '~') c = symByte(0); else if (c == '`') c = symByte(1); else if (c == '@') c = symByte(2); else if (c == '\x7f') c = symByte(3); else if (c == '#') c = symByte(4); else if (c == 6) c = symByte(5); else if (c == 5) c = symByte(6); else if (c == 4) c = symByte(7); else if (c == 3) c = symByte(8); gBuf[gLen++] = c; } }
// One sentence of a template: {x|y|z} is a symbolic choice; at most gDev times it is not the first alternative.
static char gSent[1 << 14]; static int gSentLen, gDev;
static const char* skipAlt(const char* p) { int d = 0; for (;; p++) { if (*p == '\\') p++; else if (*p == '{') d++; else if (*p == '}') { if (!d--) return p; } else if (*p == '|' && !d) return p; } }
static const char* genSeq(const char* p) {   // up to the end, or to the | or } that ends the alternative
  for (;; p++) {
    char c = *p;
    if (!c || c == '|' || c == '}') return p;
    if (c == '\\') c = *++p; else if (c == '{') {
      const char* alt[64]; int n = 0; for (const char* q = p;;) { alt[n++] = q + 1; q = skipAlt(q + 1); if (*q == '}') { p = q; break; } }
      int k = 0; if (n > 1 && gDev > 0) { k = (int)sx_value(sx_choice(n, "alternative")); if (k) gDev--; }
      genSeq(alt[k]); continue;
    }
    gSent[gSentLen++] = c;
  }
}
// Names of one letter and numbers of one digit in it become symbolic.
static void genText(int t, int dev) {
  gSentLen = 0; gDev = dev; genSeq(GEN[t]); gSent[gSentLen] = 0;
  for (int i = 0, q = 0; i < gSentLen; i++) {
    char c = gSent[i]; if (c == '\'' || c == '"') { q = q == c ? 0 : q ? q : c; continue; }
    if (q || (i && (RLex::word(gSent[i - 1]) || gSent[i - 1] == '.')) || RLex::word(gSent[i + 1]) || gSent[i + 1] == '.') continue;
    if (RLex::digit(c)) gSent[i] = '`'; else if (c >= 'a' && c <= 'z') gSent[i] = 5;
  }
}
static int wordStart() {
  int at[512], n = 0; for (int i = 1; i <= gSentLen && n < 512; i++) { char c = gSent[i], b = gSent[i - 1]; if (!c || b == ' ' || b == '(' || b == ',' || c == '(' || c == ')' || c == ',') at[n++] = i; }
  return at[sx_value(sx_choice(n, "position"))];
}
static void insert(int o, const char* d) { int k = (int)strlen(d); for (int i = gSentLen; i >= o; i--) gSent[i + k] = gSent[i]; for (int i = 0; i < k; i++) gSent[o + i] = d[i]; gSentLen += k; }
extern "C" {
// The sentences of a template with at most dev unusual choices.
void job_gen(int t, int dev, int mode) { genText(t, dev); fill(gSent); checkText(gBuf, gLen, mode); }
// The same, broken off or disturbed by a stray token before one of its words.
void job_cut(int t, int dev, int mode) {
  genText(t, dev); int o = wordStart(), w = (int)sx_value(sx_choice(4, "disturbance")); static const char* const D[] = {"", " ) ", " zz ", " 'y' "};
  if (w) insert(o, D[w]); else gSent[gSentLen = o] = 0;
  fill(gSent); checkText(gBuf, gLen, mode);
}
// The same with k symbolic bytes of a class before one of its words.
void job_poke(int t, int dev, int k, int cls, int mode) {
  genText(t, dev); static const char C[] = "~`@\x7f#\x06\x05\x04\x03"; char in[8]; for (int i = 0; i < k; i++) in[i] = C[cls]; in[k] = 0;
  insert(wordStart(), in); fill(gSent); checkText(gBuf, gLen, mode);
}
// At some offset in [lo, hi] of the seed, d characters are replaced by k symbolic bytes of a class.
void job_text(int seed, int k, int d, int lo, int hi, int cls, int mode) {
  const char* s = SEED[seed]; int n = (int)strlen(s);
  if (hi > n) hi = n; if (lo > hi) return;
  int o = lo + (int)sx_value(sx_choice(hi - lo + 1, "offset"));
  if (o + d > n) d = n - o;
  gLen = 0; for (int i = 0; i < o; i++) gBuf[gLen++] = s[i];
  for (int i = 0; i < k; i++) gBuf[gLen++] = symByte(cls);
  for (int i = o + d; i < n; i++) gBuf[gLen++] = s[i];
  checkText(gBuf, gLen, mode);
}
// Every letter of the seed outside quotes may be in upper or lower case.
void job_case(int seed, int mode) {
  const char* s = SEED[seed]; char q = 0; gLen = 0;
  for (; *s; s++) { char c = *s; if (q) { if (c == q) q = 0; } else if (c == '\'' || c == '"') q = c; else { char l = c | 32; if (l >= 'a' && l <= 'z') { char b = (char)sx_byte("case"); sx_assume(b == l || b == l - 32); c = b; } } gBuf[gLen++] = c; }
  checkText(gBuf, gLen, mode);
}
// The seed with its placeholders filled with symbolic bytes.
void job_fill(int seed, int mode) { fill(SEED[seed]); checkText(gBuf, gLen, mode); }
// The same with tokenize only.
void job_tokenize(int seed, int mode) { fill(SEED[seed]); checkTokens(gBuf, gLen, mode | M_TWICE); }
// Two parses in a row: the second must be what it is alone.
void job_twice(int a, int b, int k, int mode) {
  const char* s = SEED[a]; int n = (int)strlen(s); int o = (int)sx_value(sx_choice(n + 1, "offset"));
  gLen = 0; for (int i = 0; i < o; i++) gBuf[gLen++] = s[i]; for (int i = 0; i < k; i++) gBuf[gLen++] = symByte(0); for (int i = o; i < n; i++) gBuf[gLen++] = s[i];
  switch (sx_value(sx_choice(4, "first operation"))) {
    case 0: { SQLParserResult r; SQLParser::parse(std::string(gBuf, gLen), &r); break; }
    case 1: { std::vector<int16_t> t; SQLParser::tokenize(std::string(gBuf, gLen), &t); break; }
    case 2: { SQLParserResult r; SQLParser::parse(std::string(gBuf, gLen), &r); r.reset(); SQLParser::parse("SELECT 'x", &r); break; }
    case 3: { static SQLParserResult* kept; kept = new SQLParserResult(); SQLParser::parse(std::string(gBuf, gLen), kept); fill(SEED[b]); checkText(gBuf, gLen, mode); delete kept; return; }
  }
  fill(SEED[b]); checkText(gBuf, gLen, mode);
}
// All seeds in a row, each judged on its own, then one with a symbolic window.
void job_chain(int n, int step, int first, int seed, int k, int d, int mode) {
  for (int i = 0; i < n; i++) { const char* s = SEED[(first + i * step) % n]; gLen = 0; for (; *s; s++) gBuf[gLen++] = *s; checkText(gBuf, gLen, (mode & ~M_GLOBAL) | (i & 1 ? M_TOK : 0)); }
  job_text(seed, k, d, 0, 9999, 0, mode);
}
}
