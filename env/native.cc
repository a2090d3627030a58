// Native implementation of the harness interface: replays a recorded input assignment against the really compiled code.
// Exit codes: 0 finished, 70 a ks_check failed, 77 the replay diverged from the recording, 78 inputs exhausted, 79 assumption false.
#include "ks.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <pthread.h>
#include <unistd.h>
#include <atomic>
struct In { char kind; std::string name; uint64_t v; std::string bytes; std::map<uint64_t, uint8_t> lazy; };
static std::vector<In> *ins; static size_t pos = 0; static long live = 0; static bool hooked = false;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cvs[64]; static int curT = 0, nT = 1; static __thread int selfT = 0;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
static std::atomic<long> liveCnt(0);
static void mh(const volatile void *p, size_t) { if (p) ++liveCnt; } static void fh(const volatile void *p) { if (p) --liveCnt; }
static void load(const char *f) {
  ins = new std::vector<In>; FILE *fp = fopen(f, "r"); if (!fp) { perror(f); _exit(76); }
  static char line[1 << 20]; while (fgets(line, sizeof line, fp)) { In i; char name[256]; char k; int off = 0; if (sscanf(line, "%c %255s%n", &k, name, &off) < 2) continue; i.kind = k; i.name = name; char *p = line + off; while (*p == ' ') p++;
    if (k == 'u') i.v = strtoull(p, 0, 10); else if (k == 'b') { while (p[0] && p[1] && p[0] != '\n') { char h[3] = {p[0], p[1], 0}; i.bytes += (char)strtoul(h, 0, 16); p += 2; } } else { char *t = strtok(p, " \n"); i.v = t ? strtoull(t, 0, 10) : 0; while ((t = strtok(0, " \n"))) { char *c = strchr(t, ':'); if (c) i.lazy[strtoull(t, 0, 10)] = (uint8_t)atoi(c + 1); } }
    ins->push_back(i); }
  fclose(fp);
}
static void out(const char *a, const char *b, uint64_t v, bool num) { char l[600]; int n = num ? snprintf(l, sizeof l, "%s %s %llu\n", a, b, (unsigned long long)v) : snprintf(l, sizeof l, "%s %s\n", a, b); if (write(1, l, n)) {} }
static void san(char *d, const char *s) { size_t i = 0; for (; s[i] && i < 250; i++) d[i] = s[i] == ' ' ? '_' : s[i]; d[i] = 0; if (!i) { d[0] = '_'; d[1] = 0; } }
static In &next(char k, const char *name) {
  if (pos >= ins->size()) { out("EXHAUSTED", name, 0, false); _exit(78); }
  In &i = (*ins)[pos++]; char n[256]; san(n, name);
  if (i.kind != k || i.name != n) { char b[600]; snprintf(b, sizeof b, "wanted %c %s, recorded %c %s", k, n, i.kind, i.name.c_str()); out("DIVERGED", b, 0, false); _exit(77); }
  return i;
}
extern "C" {
int ks_symbolic(void) { return 0; }
uint64_t ks_u(const char *n, unsigned) { return next('u', n).v; }
uint64_t ks_range(const char *n, uint64_t lo, uint64_t hi) { uint64_t v = next('u', n).v; if (v < lo || v > hi) { out("ASSUME-FALSE", n, 0, false); _exit(79); } return v; }
void ks_bytes(void *p, size_t n, const char *name) { In &i = next('b', name); memcpy(p, i.bytes.data(), n < i.bytes.size() ? n : i.bytes.size()); }
void *ks_lazy(size_t cap, const char *name) { In &i = next('l', name); uint8_t *p = (uint8_t *)calloc(cap ? cap : 1, 1); for (auto &x : i.lazy) if (x.first < cap) p[x.first] = x.second; return p; }
void ks_assume(bool c) { if (!c) { out("ASSUME-FALSE", "", 0, false); _exit(79); } }
void ks_check(bool c, const char *m) { if (!c) { out("CHECKFAIL", m, 0, false); _exit(70); } }
void ks_reach(const char *) {}
void ks_note(const char *n) { out("NOTE", n, 0, false); }
void ks_observe(const char *t, uint64_t v) { char n[256]; san(n, t); out("OBS", n, v, true); }
unsigned ks_choose(unsigned n, const char *name) { return n <= 1 ? 0 : (unsigned)next('u', name).v; }
uint64_t ks_concretize(uint64_t v) { return v; }
int ks_is_sym(uint64_t) { return 0; }
uint64_t ks_live_heap(void) { return (uint64_t)liveCnt.load(); }
void ks_end(void) { out("DONE", "", 0, false); _exit(0); }
void ks_incomplete(const char *w) { out("INCOMPLETE", w, 0, false); _exit(75); }
int ks_fmt_double(char *b, size_t n, const char *f, uint64_t bits) { double d; memcpy(&d, &bits, 8); return snprintf(b, n, f, d); }
struct Sp { void (*fn)(void *); void *a; int id; };
static void *tmain(void *p) { Sp s = *(Sp *)p; selfT = s.id; pthread_mutex_lock(&mx); while (curT != s.id) pthread_cond_wait(&cvs[s.id], &mx); pthread_mutex_unlock(&mx); s.fn(s.a); out("THREAD-RETURNED", "", 0, false); _exit(74); }
int ks_spawn(void (*fn)(void *), void *a) { static Sp sp[64]; int id = nT++; sp[id] = {fn, a, id}; pthread_t t; pthread_attr_t at; pthread_attr_init(&at); pthread_create(&t, &at, tmain, &sp[id]); return id; }
void ks_switch(int t) { if (t == selfT) return; pthread_mutex_lock(&mx); curT = t; pthread_cond_broadcast(&cvs[t]); while (curT != selfT) pthread_cond_wait(&cvs[selfT], &mx); pthread_mutex_unlock(&mx); }
int ks_self(void) { return selfT; }
void KS_ENTRY(void);
}
__attribute__((constructor(101))) static void early() { for (auto &c : cvs) pthread_cond_init(&c, 0); }
int main(int argc, char **argv) {
  if (argc < 2) return 76;
  load(argv[1]); 
  setvbuf(stdout, 0, _IONBF, 0);
  if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(mh, fh);
  KS_ENTRY(); out("DONE", "", 0, false); _exit(0);
}
