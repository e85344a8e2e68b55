// Native stand-in for the symbolic executor: recorded inputs are replayed against the real code.
//   replay FILE [SHOW]    FILE holds cases: "J id entry args...", lines "label<TAB>value", and "." at the end of a case
// Every case runs in a process of its own; prints "id code": 0 ok, 77 assertion violated, 78 inputs do not fit,
// 200+n killed by signal n, other codes as the program ended.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <utility>
#include <vector>
static std::vector<std::pair<std::string, uint64_t>> in; static size_t at;
static uint64_t nxt(const char* l) { if (at >= in.size()) return 0; if (in[at].first != l) { fprintf(stderr, "replay: expected %s, recorded %s\n", l, in[at].first.c_str()); fflush(stdout); _exit(78); } return in[at++].second; }
// ---- live heap blocks since the mark (plain build only; the sanitizers bring their own allocator)
#ifdef SX_PLAIN
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); }
static bool tracking; static const int HN = 1 << 20; static void** live; static size_t nlive;
static void trackAdd(void* p) { if (!tracking || !p) return; size_t h = ((size_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 44; while (live[h] && live[h] != (void*)1) h = (h + 1) & (HN - 1); live[h] = p; nlive++; }
static void trackDel(void* p) { if (!live || !nlive || !p) return; size_t h = ((size_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 44; while (live[h]) { if (live[h] == p) { live[h] = (void*)1; nlive--; return; } h = (h + 1) & (HN - 1); } }
extern "C" {
void* malloc(size_t n) { void* p = __libc_malloc(n); if (n && p && n < (1u << 26)) memset(p, 0xCD, n); trackAdd(p); return p; }   // fresh memory is not zero
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); trackAdd(p); return p; }
void* realloc(void* q, size_t n) { trackDel(q); void* p = __libc_realloc(q, n); trackAdd(p); return p; }
void free(void* p) { trackDel(p); __libc_free(p); }
}
#endif
static void* arena(uint64_t n) { static char* p; static uint64_t left; n = (n + 31) & ~15ull; if (n > left) { uint64_t m = n > (1u << 20) ? n : (1u << 20); p = (char*)mmap(nullptr, m, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); left = m; } char* r = p; p += n; left -= n; return r; }
extern "C" {
uint8_t sx_byte(const char* l) { return (uint8_t)nxt(l); }
uint64_t sx_u64(const char* l) { return nxt(l); }
uint32_t sx_choice(uint32_t, const char* l) { return (uint32_t)nxt(l); }
void sx_assume(bool c) { if (!c) { puts("replay: the recorded inputs do not meet an assumption"); fflush(stdout); _exit(78); } }
void sx_fail(const char* m) { printf("replay: %s\n", m); fflush(stdout); _exit(77); }
void sx_assert(bool c, const char* m) { if (!c) sx_fail(m); }
void sx_reach(uint32_t) {}
static bool child;
void sx_done() { throw 1; }
uint64_t sx_value(uint64_t v) { return v; }
bool sx_is_sym(uint64_t) { return false; }
uint64_t sx_pick(uint64_t v) { return v; }
uint64_t sx_simplify(uint64_t v) { return v; }
void* sx_alloc(uint64_t n) { return arena(n ? n : 1); }
#ifdef SX_PLAIN
void sx_heap_mark() { if (!live) live = (void**)mmap(nullptr, sizeof(void*) * HN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); for (int i = 0; i < HN && nlive; i++) live[i] = nullptr; nlive = 0; tracking = true; }
static bool warm;   // the first of two runs: what it leaves behind may be a cache
void sx_check_leaks(const char* m) { tracking = false; if (nlive && !warm) { std::string t = std::string(m) + ": memory is never freed"; sx_fail(t.c_str()); } }
#else
void sx_heap_mark() {}
void sx_check_leaks(const char*) {}
#endif
// Effects beyond the memory of the process: output is caught in memory files, calls are intercepted.
static bool watching; static const char* seen; static int saved[2], mem[2];
static long written(int i) { struct stat st; fstat(mem[i], &st); return (long)st.st_size; }
static void flushAll() { fflush(nullptr); std::cout.flush(); std::cerr.flush(); std::clog.flush(); }
bool sx_watch(int on) {
  if (on) { flushAll(); for (int i = 0; i < 2; i++) { saved[i] = dup(i + 1); mem[i] = memfd_create("out", 0); dup2(mem[i], i + 1); } seen = nullptr; watching = true; return false; }
  watching = false; flushAll(); long a = written(0), b = written(1); for (int i = 0; i < 2; i++) { dup2(saved[i], i + 1); close(saved[i]); close(mem[i]); }
  if (seen) { std::string t = std::string("side effect: the call reaches outside, through ") + seen; sx_fail(t.c_str()); }
  if (a) sx_fail("side effect: output to standard output");
  return b != 0;
}
void sx_effect(int) {}
void sx_forbid_global_writes(int) {}
void sx_split(int) {}
double sx_uf_double(const char* p, uint64_t n) { std::string s(p, n); return strtod(s.c_str(), nullptr); }
void sx_log(const char* l, int64_t v) { printf("%s %ld\n", l, (long)v); }
}
#ifdef SX_PLAIN
#define WRAP(ret, name, params, args) ret name params { if (watching) seen = #name; static ret (*real) params = (ret(*) params)dlsym(RTLD_NEXT, #name); return real args; }
extern "C" {
#undef fopen
#undef open
WRAP(FILE*, fopen, (const char* a, const char* b), (a, b)) WRAP(FILE*, fopen64, (const char* a, const char* b), (a, b))
int open(const char* a, int b, ...) { if (watching) seen = "open"; va_list v; va_start(v, b); mode_t m = va_arg(v, mode_t); va_end(v); static auto r = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open"); return r(a, b, m); }
int open64(const char* a, int b, ...) { if (watching) seen = "open"; va_list v; va_start(v, b); mode_t m = va_arg(v, mode_t); va_end(v); static auto r = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open64"); return r(a, b, m); }
WRAP(int, remove, (const char* a), (a)) WRAP(int, unlink, (const char* a) noexcept, (a)) WRAP(int, rename, (const char* a, const char* b) noexcept, (a, b)) WRAP(int, mkdir, (const char* a, mode_t m) noexcept, (a, m)) WRAP(int, chdir, (const char* a) noexcept, (a)) WRAP(int, system, (const char* a), (a)) WRAP(FILE*, popen, (const char* a, const char* b), (a, b))
WRAP(char*, getenv, (const char* a) noexcept, (a)) WRAP(char*, secure_getenv, (const char* a) noexcept, (a)) WRAP(int, setenv, (const char* a, const char* b, int c) noexcept, (a, b, c)) WRAP(int, unsetenv, (const char* a) noexcept, (a)) WRAP(int, putenv, (char* a) noexcept, (a)) WRAP(char*, setlocale, (int a, const char* b) noexcept, (a, b))
WRAP(time_t, time, (time_t* a) noexcept, (a)) WRAP(clock_t, clock, () noexcept, ()) WRAP(int, gettimeofday, (struct timeval* a, void* b) noexcept, (a, b)) WRAP(int, clock_gettime, (clockid_t a, struct timespec* b) noexcept, (a, b)) WRAP(int, rand, () noexcept, ()) WRAP(void, srand, (unsigned a) noexcept, (a)) WRAP(long, random, () noexcept, ()) WRAP(void, srandom, (unsigned a) noexcept, (a))
WRAP(pid_t, getpid, () noexcept, ()) WRAP(unsigned, sleep, (unsigned a), (a)) WRAP(int, usleep, (useconds_t a), (a)) WRAP(int, nanosleep, (const struct timespec* a, struct timespec* b), (a, b)) WRAP(int, socket, (int a, int b, int c) noexcept, (a, b, c)) WRAP(int, pthread_create, (pthread_t* a, const pthread_attr_t* b, void* (*c)(void*), void* d) noexcept, (a, b, c, d))
}
#endif
int runEntry(const char* name, const long* a);
static char id[256], entry[256]; static long args[24];
static int runCase() {
#ifdef SX_PLAIN
  warm = true; at = 0; try { runEntry(entry, args); } catch (int) {} warm = false;
#endif
  at = 0; int r = 0; try { r = runEntry(entry, args); } catch (int) {} fflush(stdout); in.clear(); in.shrink_to_fit(); return r; }
int main(int argc, char** argv) {
  FILE* f = fopen(argv[1], "r"); if (!f) return 79; char line[4096]; setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
  bool single = argc > 2;   // in this process (for debuggers and leak checkers)
  while (fgets(line, sizeof line, f)) {
    size_t n = strlen(line); while (n && line[n - 1] == '\n') line[--n] = 0;
    if (line[0] == 'J' && line[1] == ' ') { in.clear(); memset(args, 0, sizeof args); int k = 0, i = 0; for (char* t = strtok(line + 2, " "); t; t = strtok(nullptr, " "), i++) { if (i == 0) snprintf(id, sizeof id, "%s", t); else if (i == 1) snprintf(entry, sizeof entry, "%s", t); else if (k < 24) args[k++] = strtol(t, nullptr, 10); } continue; }
    if (!strcmp(line, ".")) {
      if (single) { fclose(f); return runCase(); }
      fflush(stdout); pid_t p = fork(); if (!p) { child = true; alarm(20); int r = runCase(); fflush(stdout); _exit(r); }
      int st = 0; waitpid(p, &st, 0); printf("RESULT %s %d\n", id, WIFEXITED(st) ? WEXITSTATUS(st) : 200 + WTERMSIG(st)); continue; }
    char* t = strchr(line, '\t'); if (t) { *t = 0; in.push_back({line, strtoull(t + 1, nullptr, 10)}); }
  }
  fclose(f); return 0;
}
