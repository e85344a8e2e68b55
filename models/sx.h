// Interface between harnesses and the symbolic executor (or the native replay runtime).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint8_t sx_byte(const char* label);             // a symbolic byte
uint64_t sx_u64(const char* label);             // a symbolic 64-bit value
uint32_t sx_choice(uint32_t n, const char* label);  // a symbolic value below n (n <= 256)
void sx_assume(bool c);
void sx_assert(bool c, const char* msg);
void sx_fail(const char* msg);
void sx_reach(uint32_t k);
void sx_done();
uint64_t sx_value(uint64_t v);                  // fork over the values of v
bool sx_is_sym(uint64_t v);
uint64_t sx_pick(uint64_t v);                   // representative value (recorded as a cut)
uint64_t sx_simplify(uint64_t v);
void* sx_alloc(uint64_t n);                      // memory of the harness, never freed and no leak
void sx_heap_mark();
void sx_check_leaks(const char* msg);
void sx_forbid_global_writes(int on);
void sx_split(int on);
bool sx_watch(int on);                           // watch for effects outside the process's own memory; off: was there output to standard error?
void sx_effect(int kind);                        // 1: output to standard output, 2: to standard error
void sx_guard(int on);                           // a function-local static is being initialised
double sx_uf_double(const char* p, uint64_t n);
void sx_log(const char* label, int64_t v);
}
