// Harness interface. In the symbolic engine these are intrinsics; in a native replay env/native.cc implements them
// from a recorded input file.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifndef KS_NATIVE
#define KS_NATIVE 0
#endif
extern "C" {
int ks_symbolic(void);                                    // 1 in the engine, 0 natively
uint64_t ks_u(const char *name, unsigned bits);           // arbitrary value
uint64_t ks_range(const char *name, uint64_t lo, uint64_t hi); // arbitrary value in lo..hi
void ks_bytes(void *p, size_t n, const char *name);       // n arbitrary bytes
void *ks_lazy(size_t cap, const char *name);              // object of cap arbitrary bytes
void ks_assume(bool c);
void ks_check(bool c, const char *msg);                   // the property
void ks_reach(const char *name);                          // vacuity mark
void ks_note(const char *name);
void ks_observe(const char *tag, uint64_t v);             // compared between engine and native run
unsigned ks_choose(unsigned n, const char *name);         // arbitrary value below n, explored by forking
uint64_t ks_concretize(uint64_t v);
int ks_is_sym(uint64_t v);
uint64_t ks_live_heap(void);                              // number of live heap blocks
int ks_spawn(void (*fn)(void *), void *arg);
void ks_switch(int tid);
int ks_self(void);
void ks_end(void) __attribute__((noreturn));
void ks_incomplete(const char *why) __attribute__((noreturn));
int ks_fmt_double(char *buf, size_t n, const char *fmt, uint64_t bits);
}
#define KS_HARNESS extern "C" void
