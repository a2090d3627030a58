#include "file.h"
#include <errno.h>
#include <string.h>
#include <time.h>
long ks_tz = 0; int ks_localtime_errno = 0;
KFile k_file[K_STREAMS]; KNode k_node[K_NODES]; int k_nfile, k_nnode, k_nopen; bool k_root = true;
size_t (*k_fwrite_hook)(int, const void *, size_t); void (*k_remove_hook)(int, const char *); void (*k_opened_hook)(int); void (*k_closed_hook)(int); void (*k_flushed_hook)(int); int (*k_mkdir_hook)(const char *); void (*k_abort_hook)();
static KFile *mine(void *f) { return (char *)f >= (char *)k_file && (char *)f < (char *)(k_file + K_STREAMS) ? (KFile *)f : nullptr; }
int k_find(const char *n) { for (int i = 0; i < k_nnode; i++) if (k_node[i].exists && !strcmp(k_node[i].name, n)) return i; return -1; }
int k_add(const char *n, bool dir, unsigned mode) { if (k_nnode == K_NODES) ks_incomplete("too many files"); KNode &k = k_node[k_nnode]; if (strlen(n) >= sizeof k.name) ks_incomplete("file name too long"); strcpy(k.name, n); k.exists = true; k.dir = dir; k.mode = mode; k.size = k.flushed = 0; k.opens = 0; return k_nnode++; }
static int parent(const char *n) { // errno if the directory of n doesn't permit entries
  const char *s = strrchr(n, '/'); if (!s || s == n) return 0; char d[160]; size_t k = s - n; while (k > 1 && d[0] && n[k - 1] == '/') k--; memcpy(d, n, k); d[k] = 0; int i = k_find(d); if (i < 0) return ENOENT; if (!k_node[i].dir) return ENOTDIR; if (!k_root && (k_node[i].mode & 0300) != 0300) return EACCES; return 0; }
const char *k_hostname = "host"; int k_pid = 4242;
extern "C" {
void *env_fopen(const char *n, const char *mode) {
  ks_check(mode[0] == 'a', "a log file is opened for appending"); int e = parent(n); if (e) { errno = e; return nullptr; } int i = k_find(n); if (i >= 0 && k_node[i].dir) { errno = EISDIR; return nullptr; } if (i < 0) i = k_add(n, false, 0644);
  if (k_nfile == K_STREAMS) ks_incomplete("too many streams"); KFile &f = k_file[k_nfile++]; f.open = true; f.err = false; f.id = i; k_node[i].opens++; k_nopen++; if (k_opened_hook) k_opened_hook(i); return &f; }
size_t env_fwrite(const void *p, size_t sz, size_t n, void *fp) { KFile *f = mine(fp); if (!f) return n; ks_check(f->open, "a closed file is not written to"); size_t k = sz * n; size_t r = k_fwrite_hook ? (errno = 0, k_fwrite_hook(f->id, p, k)) : k; if (r < k && errno) f->err = true; k_node[f->id].size += r; return sz ? r / sz : 0; }
int env_fflush(void *fp) { KFile *f = mine(fp); if (!f) return 0; ks_check(f->open, "a closed file is not flushed"); k_node[f->id].flushed = k_node[f->id].size; if (k_flushed_hook) k_flushed_hook(f->id); return 0; }
int env_fflush_unlocked(void *fp) { return env_fflush(fp); }
int env_fclose(void *fp) { KFile *f = mine(fp); if (!f) return 0; ks_check(f->open, "a file is closed once"); env_fflush(fp); f->open = false; k_node[f->id].opens--; k_nopen--; if (k_closed_hook) k_closed_hook(f->id); return 0; }
int env_ferror(void *fp) { KFile *f = mine(fp); return f && f->err; }
void env_clearerr(void *fp) { KFile *f = mine(fp); if (f) f->err = false; }
int env_feof(void *) { return 0; }
int env_fileno(void *fp) { KFile *f = mine(fp); return f ? 20 + (int)(f - k_file) : 1; }
int env_setvbuf(void *fp, char *, int, size_t) { KFile *f = mine(fp); if (f) ks_check(f->open, "a closed file gets no buffer"); return 0; }
void env_setbuffer(void *, char *, size_t) {}
int env_fputs(const char *, void *) { return 1; }
int env_mkdir(const char *n, mode_t m) { if (k_mkdir_hook) { int e = k_mkdir_hook(n); if (e) { errno = e; return -1; } } if (!*n) { errno = ENOENT; return -1; } int e = parent(n); if (e) { errno = e; return -1; } if (k_find(n) >= 0) { errno = EEXIST; return -1; } k_add(n, true, m); return 0; }
int env_remove(const char *n) { int i = k_find(n); if (k_remove_hook) k_remove_hook(i, n); if (i < 0) { errno = ENOENT; return -1; } if (k_node[i].dir) { errno = ENOTEMPTY; return -1; } k_node[i].exists = false; return 0; }
int env_unlink(const char *n) { return env_remove(n); }
void env_abort() { if (k_abort_hook) k_abort_hook(); ks_check(false, "abort() reached"); ks_end(); }
size_t env_strftime(char *b, size_t n, const char *f, const struct tm *t) {
  size_t o = 0; auto num = [&](long v, int w) { char d[20]; int k = 0; if (v < 0) v = -v; do { d[k++] = '0' + v % 10; v /= 10; } while (v); while (k < w) d[k++] = '0'; while (k && o + 1 < n) b[o++] = d[--k]; };
  for (; *f; f++) { if (*f != '%') { if (o + 1 < n) b[o++] = *f; continue; } switch (*++f) { case 'Y': num(t->tm_year + 1900, 1); break; case 'y': num(t->tm_year % 100, 2); break; case 'm': num(t->tm_mon + 1, 2); break; case 'd': num(t->tm_mday, 2); break; case 'H': num(t->tm_hour, 2); break; case 'M': num(t->tm_min, 2); break; case 'S': num(t->tm_sec, 2); break; case 'j': num(t->tm_yday + 1, 3); break; case 'F': num(t->tm_year + 1900, 1); if (o + 1 < n) b[o++] = '-'; num(t->tm_mon + 1, 2); if (o + 1 < n) b[o++] = '-'; num(t->tm_mday, 2); break; case 'T': num(t->tm_hour, 2); if (o + 1 < n) b[o++] = ':'; num(t->tm_min, 2); if (o + 1 < n) b[o++] = ':'; num(t->tm_sec, 2); break; case 's': break; case '%': if (o + 1 < n) b[o++] = '%'; break; default: ks_incomplete("strftime conversion"); } }
  if (n) b[o] = 0; return o; }
// process, time zone and error texts
int env_gethostname(char *n, size_t k) { size_t l = strlen(k_hostname) + 1; if (k < l) { memcpy(n, k_hostname, k); errno = ENAMETOOLONG; return -1; } memcpy(n, k_hostname, l); return 0; }
int env_getpid() { return k_pid; }
struct tm *env_localtime_r(const time_t *t, struct tm *r) {
  static const int md[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; long l = *t + ks_tz, d = l / 86400, s = l % 86400; if (s < 0) { s += 86400; d--; }
  r->tm_hour = s / 3600; r->tm_min = s / 60 % 60; r->tm_sec = s % 60; r->tm_wday = ((d + 4) % 7 + 7) % 7; r->tm_isdst = 0; long y = 1970; auto leap = [](long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }; while (d >= 365 + leap(y)) { d -= 365 + leap(y); y++; } r->tm_yday = d; int m = 0; while (d >= md[m] + (m == 1 && leap(y))) { d -= md[m] + (m == 1 && leap(y)); m++; } r->tm_mday = d + 1; r->tm_mon = m; r->tm_year = y - 1900; r->tm_gmtoff = ks_tz; r->tm_zone = "LOC"; if (ks_localtime_errno) errno = ks_localtime_errno; return r; }
static struct tm tmLocal; struct tm *env_localtime(const time_t *t) { return env_localtime_r(t, &tmLocal); }
static char *errText(int e, char *t) { memcpy(t, "Error 00 text", 14); t[6] = '0' + e / 10 % 10; t[7] = '0' + e % 10; return t; }
static char errTexts[100][16];
char *env_strerror(int e) { return errText(e, errTexts[e % 100]); }
char *env_strerror_r(int e, char *, size_t) { return errText(e, errTexts[e % 100]); } // like glibc: the text of known errors is not put into the buffer
int env___xpg_strerror_r(int e, char *b, size_t n) { char t[16]; errText(e, t); if (n < 14) return ERANGE; memcpy(b, t, 14); return 0; }
}
