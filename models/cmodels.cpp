// Models of the C library functions the parser calls. They replace the real libc in the symbolic
// run (environment), and are compiled to bitcode so that the engine executes them symbolically.
typedef unsigned long u64; typedef unsigned char u8; typedef long i64;
#define MODEL extern "C" __attribute__((section("sxmodel"), noinline))
extern "C" {
void* malloc(u64); void free(void*);
double sx_uf_double(const char*, u64);
u64 sx_value(u64);
}
static inline int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static inline bool space(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static inline bool digit(int c) { return c >= '0' && c <= '9'; }

MODEL u64 strlen(const char* s) { u64 n = 0; while (s[n]) n++; return n; }
MODEL u64 strnlen(const char* s, u64 m) { u64 n = 0; while (n < m && s[n]) n++; return n; }
MODEL int strcmp(const char* a, const char* b) { for (;; a++, b++) { u8 x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
MODEL int strncmp(const char* a, const char* b, u64 n) { for (; n; a++, b++, n--) { u8 x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
MODEL int strcasecmp(const char* a, const char* b) { for (;; a++, b++) { int x = lower((u8)*a), y = lower((u8)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
MODEL int strncasecmp(const char* a, const char* b, u64 n) { for (; n; a++, b++, n--) { int x = lower((u8)*a), y = lower((u8)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
MODEL char* strdup(const char* s) { u64 n = strlen(s); char* r = (char*)malloc(n + 1); for (u64 i = 0; i <= n; i++) r[i] = s[i]; return r; }
MODEL char* strndup(const char* s, u64 m) { u64 n = strnlen(s, m); char* r = (char*)malloc(n + 1); for (u64 i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; return r; }
MODEL char* strcpy(char* d, const char* s) { u64 i = 0; do d[i] = s[i]; while (s[i++]); return d; }
MODEL char* stpcpy(char* d, const char* s) { u64 i = 0; for (; s[i]; i++) d[i] = s[i]; d[i] = 0; return d + i; }
MODEL char* strncpy(char* d, const char* s, u64 n) { u64 i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
MODEL char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
MODEL char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
MODEL char* strrchr(const char* s, int c) { char* r = nullptr; for (;; s++) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
MODEL char* strstr(const char* h, const char* n) { for (;; h++) { u64 i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char*)h; if (!*h) return nullptr; } }
MODEL int memcmp(const void* a, const void* b, u64 n) { const u8 *x = (const u8*)a, *y = (const u8*)b; for (u64 i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
MODEL int bcmp(const void* a, const void* b, u64 n) { return memcmp(a, b, n); }
MODEL void* memchr(const void* a, int c, u64 n) { const u8* x = (const u8*)a; for (u64 i = 0; i < n; i++) if (x[i] == (u8)c) return (void*)(x + i); return nullptr; }
MODEL int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
MODEL int tolower(int c) { return lower(c); }
MODEL int isspace(int c) { return space(c); }
MODEL int isdigit(int c) { return digit(c); }
MODEL int isalpha(int c) { return lower(c) >= 'a' && lower(c) <= 'z'; }
MODEL int isalnum(int c) { return isdigit(c) || isalpha(c); }

static int sxm_errno;
MODEL int* __errno_location() { return &sxm_errno; }
static const int ERANGE_ = 34;

// strtoll for base 0, 8, 10 and 16 (other bases through the same digit loop).
MODEL i64 strtoll(const char* s, char** end, int base) {
  const char* p = s; while (space((u8)*p)) p++;
  bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) {
    int c = lower((u8)p[2]); if (digit(c) || (c >= 'a' && c <= 'f')) { p += 2; base = 16; } else if (base == 0) base = 8;
  } else if (base == 0) base = p[0] == '0' ? 8 : 10;
  u64 v = 0; bool over = false, any = false; const u64 lim = neg ? (1UL << 63) : (1UL << 63) - 1;
  for (;; p++) {
    int c = lower((u8)*p); u64 d;
    if (digit(c)) d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else break;
    if (d >= (u64)base) break;
    any = true;
    if (!over) {
      u64 t;
      if (v >= (1UL << 59)) { if (v > (lim - d) / base) { over = true; continue; } }
      t = v * base + d; v = t;
    }
  }
  if (end) *end = (char*)(any ? p : s);
  if (over) { sxm_errno = ERANGE_; return neg ? -9223372036854775807L - 1 : 9223372036854775807L; }
  return neg ? (i64)(0 - v) : (i64)v;
}
MODEL i64 strtol(const char* s, char** e, int b) { return strtoll(s, e, b); }
MODEL i64 __isoc23_strtoll(const char* s, char** e, int b) { return strtoll(s, e, b); }
MODEL i64 __isoc23_strtol(const char* s, char** e, int b) { return strtoll(s, e, b); }
MODEL int atoi(const char* s) { return (int)strtoll(s, nullptr, 10); }
MODEL i64 atoll(const char* s) { return strtoll(s, nullptr, 10); }
MODEL i64 atol(const char* s) { return strtoll(s, nullptr, 10); }
// Decimal text to double: an uninterpreted function of the accepted characters (exact when they are concrete).
MODEL double strtod(const char* s, char** end) {
  const char* p = s; while (space((u8)*p)) p++;
  const char* b = p; if (*p == '-' || *p == '+') p++;
  bool any = false; while (digit((u8)*p)) { p++; any = true; }
  if (*p == '.') { p++; while (digit((u8)*p)) { p++; any = true; } }
  if (any && (*p == 'e' || *p == 'E')) { const char* q = p + 1; if (*q == '-' || *q == '+') q++; if (digit((u8)*q)) { while (digit((u8)*q)) q++; p = q; } }
  if (end) *end = (char*)(any ? p : s);
  if (!any) return 0.0;
  return sx_uf_double(b, p - b);
}
MODEL double atof(const char* s) { return strtod(s, nullptr); }

// sscanf for %d/%i/%ld/%lld with width, %s with width, %c, %n, literals and white space.
MODEL int sxm_sscanf(const char* s, const char* f, u64* args) {
  int done = 0; const char* p = s;
  for (; *f; f++) {
    if (space((u8)*f)) { while (space((u8)*p)) p++; continue; }
    if (*f != '%') { if (*p != *f) return (!*p && !done) ? -1 : done; p++; continue; }
    f++; if (*f == '%') { while (space((u8)*p)) p++; if (*p != '%') return done; p++; continue; }
    bool sup = false; if (*f == '*') { sup = true; f++; }
    int w = 0; while (digit((u8)*f)) { w = w * 10 + (*f - '0'); f++; }
    int l = 0; while (*f == 'l' || *f == 'j' || *f == 'z') { l++; f++; }
    if (*f == 'n') { if (!sup) { if (l) *(i64*)*args++ = p - s; else *(int*)*args++ = (int)(p - s); } continue; }
    if (*f == 'c') { if (!w) w = 1; char* o = sup ? nullptr : (char*)*args++; for (int i = 0; i < w; i++) { if (!*p) return done ? done : -1; if (o) o[i] = *p; p++; } if (o) done++; continue; }
    while (space((u8)*p)) p++;
    if (!*p) return done ? done : -1;
    if (*f == 's') { char* o = sup ? nullptr : (char*)*args++; int n = 0; while (*p && !space((u8)*p) && (!w || n < w)) { if (o) o[n] = *p; n++; p++; } if (o) { o[n] = 0; done++; } continue; }
    if (*f == 'd' || *f == 'u' || *f == 'i') {
      int n = 0; bool neg = false; int lim = w ? w : 1 << 30;
      if ((*p == '-' || *p == '+')) { neg = *p == '-'; p++; n++; }
      if (n >= lim || !digit((u8)*p)) return done;
      u64 v = 0; bool over = false; const u64 mx = neg ? (1UL << 63) : (1UL << 63) - 1;
      while (n < lim && digit((u8)*p)) { u64 d = *p - '0'; if (!over && v >= (1UL << 59) && v > (mx - d) / 10) { over = true; v = mx; } if (!over) v = v * 10 + d; p++; n++; }
      i64 r = over ? (neg ? -9223372036854775807L - 1 : 9223372036854775807L) : neg ? (i64)(0 - v) : (i64)v;
      if (!sup) { if (l) *(i64*)*args++ = r; else *(int*)*args++ = (int)r; done++; }
      continue;
    }
    __builtin_trap();
  }
  return done;
}
static char* putu(char* o, char* e, u64 v, u64& n) { char t[24]; int k = 0; do { t[k++] = '0' + v % 10; v /= 10; } while (v); while (k) { k--; if (o < e) *o++ = t[k]; n++; } return o; }
MODEL int sxm_snprintf(char* o, u64 cap, const char* f, u64* a) {
  char* e = cap ? o + cap - 1 : o; char* st = o; u64 n = 0; (void)st;
  for (; *f; f++) {
    if (*f != '%') { if (o < e) *o++ = *f; n++; continue; }
    f++; int l = 0; while (*f == 'l' || *f == 'z' || *f == 'j') { l++; f++; }
    if (*f == '%') { if (o < e) *o++ = '%'; n++; }
    else if (*f == 's') { const char* s = (const char*)*a++; for (; *s; s++) { if (o < e) *o++ = *s; n++; } }
    else if (*f == 'c') { if (o < e) *o++ = (char)*a; a++; n++; }
    else if (*f == 'd') { i64 v = l ? (i64)*a : (i64)(int)*a; a++; if (v < 0) { if (o < e) *o++ = '-'; n++; o = putu(o, e, 0 - (u64)v, n); } else o = putu(o, e, v, n); }
    else if (*f == 'u') { u64 v = l ? *a : (u64)(unsigned)*a; a++; o = putu(o, e, v, n); }
    else __builtin_trap();
  }
  if (cap) *o = 0;
  return (int)n;
}
MODEL int sxm_sprintf(char* o, const char* f, u64* a) { return sxm_snprintf(o, 1UL << 30, f, a); }
// ---- character tables of the C locale
enum { cUpper = 1 << 8, cLower = 1 << 9, cAlpha = 1 << 10, cDigit = 1 << 11, cXdigit = 1 << 12, cSpace = 1 << 13, cPrint = 1 << 14, cGraph = 1 << 15, cBlank = 1 << 0, cCntrl = 1 << 1, cPunct = 1 << 2, cAlnum = 1 << 3 };
static unsigned short sxm_ct[384]; static const unsigned short* sxm_ctp; static int sxm_lo[384], sxm_up[384]; static const int *sxm_lop, *sxm_upp;
static void sxm_tables() {
  for (int i = 0; i < 384; i++) { int c = i - 128; sxm_lo[i] = c; sxm_up[i] = c; sxm_ct[i] = 0; if (c < 0 || c > 127) continue;
    bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', di = digit(c); sxm_lo[i] = up ? c + 32 : c; sxm_up[i] = lo ? c - 32 : c;
    sxm_ct[i] = (up ? cUpper : 0) | (lo ? cLower : 0) | (up || lo ? cAlpha : 0) | (di ? cDigit : 0) | (di || (lower(c) >= 'a' && lower(c) <= 'f') ? cXdigit : 0) | (space(c) ? cSpace : 0) | (c >= 32 && c < 127 ? cPrint : 0) | (c > 32 && c < 127 ? cGraph : 0) | (c == 32 || c == 9 ? cBlank : 0) | (c < 32 || c == 127 ? cCntrl : 0) | (c > 32 && c < 127 && !up && !lo && !di ? cPunct : 0) | (up || lo || di ? cAlnum : 0); }
  sxm_ctp = sxm_ct + 128; sxm_lop = sxm_lo + 128; sxm_upp = sxm_up + 128;
}
extern "C" void sx_tables_init() { sxm_tables(); }
MODEL const unsigned short** __ctype_b_loc() { return &sxm_ctp; }
MODEL const int** __ctype_tolower_loc() { return &sxm_lop; }
MODEL const int** __ctype_toupper_loc() { return &sxm_upp; }
MODEL int isupper(int c) { return c >= 'A' && c <= 'Z'; }
MODEL int islower(int c) { return c >= 'a' && c <= 'z'; }
MODEL int isxdigit(int c) { return digit(c) || (lower(c) >= 'a' && lower(c) <= 'f'); }
MODEL int isprint(int c) { return c >= 32 && c < 127; }
MODEL int ispunct(int c) { return isprint(c) && c != 32 && !isalnum(c); }
MODEL u64 strspn(const char* s, const char* a) { u64 n = 0; for (; s[n]; n++) { const char* p = a; while (*p && *p != s[n]) p++; if (!*p) break; } return n; }
MODEL u64 strcspn(const char* s, const char* a) { u64 n = 0; for (; s[n]; n++) { const char* p = a; while (*p && *p != s[n]) p++; if (*p) break; } return n; }
MODEL char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : nullptr; }
MODEL char* strncat(char* d, const char* s, u64 n) { char* e = d + strlen(d); u64 i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
MODEL void* memrchr(const void* a, int c, u64 n) { const u8* x = (const u8*)a; while (n--) if (x[n] == (u8)c) return (void*)(x + n); return nullptr; }
MODEL u64 strtoull(const char* s, char** end, int base) { return (u64)strtoll(s, end, base); }
MODEL i64 labs(i64 v) { return v < 0 ? 0 - v : v; }
MODEL int abs(int v) { return v < 0 ? 0 - v : v; }
MODEL void qsort(void* a, u64 n, u64 w, int (*f)(const void*, const void*)) { u8* b = (u8*)a; for (u64 i = 1; i < n; i++) for (u64 j = i; j && f(b + (j - 1) * w, b + j * w) > 0; j--) for (u64 k = 0; k < w; k++) { u8 t = b[(j - 1) * w + k]; b[(j - 1) * w + k] = b[j * w + k]; b[j * w + k] = t; } }
MODEL void* bsearch(const void* key, const void* a, u64 n, u64 w, int (*f)(const void*, const void*)) { u64 l = 0, h = n; while (l < h) { u64 m = (l + h) / 2; const u8* p = (const u8*)a + m * w; int c = f(key, p); if (!c) return (void*)p; if (c < 0) h = m; else l = m + 1; } return nullptr; }
extern "C" void sx_guard(int);
MODEL int pthread_mutex_lock(void*) { sx_guard(1); return 0; }
MODEL int pthread_mutex_unlock(void*) { sx_guard(0); return 0; }
