// Resolver model: the harness decides the results.
#include <netdb.h>
int (*k_resolve)(const char *, const char *, const addrinfo *, addrinfo **); void (*k_resolved_free)(addrinfo *);
extern "C" {
int env_getaddrinfo(const char *h, const char *s, const addrinfo *hint, addrinfo **r) { return k_resolve(h, s, hint, r); }
void env_freeaddrinfo(addrinfo *p) { k_resolved_free(p); }
const char *env_gai_strerror(int) { return "resolver error"; }
}
