// Native side of sx.h: feeds the recorded counterexample bytes.
#define _GNU_SOURCE
#include "sx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
static FILE *f;
static FILE *openf(const char *p) { int d = open(p, O_RDONLY); return d < 0 ? 0 : fdopen(d, "r"); }   // a harness may define its own fopen
static int next(unsigned char *out, size_t n, const char *name)
{
    char line[4096];
    if (!f) { const char *p = getenv("SX_REPLAY"); f = p ? openf(p) : 0; if (!f) { fprintf(stderr, "SX: no replay file\n"); _Exit(70); } }
    for (;;) {
        if (!fgets(line, sizeof line, f)) { memset(out, 'a', n); return 0; }
        if (strncmp(line, "in ", 3)) continue;
        char *h = strrchr(line, ' ') + 1;   // names may hold blanks
        for (size_t i = 0; i < n; ++i) { unsigned v = 'a'; if (sscanf(h + 2 * i, "%2x", &v) != 1) v = 'a'; out[i] = (unsigned char)v; }
        return 1;
    }
}
void sx_bytes(void *p, size_t n, const char *name) { if (n) next((unsigned char*)p, n, name); else { unsigned char d; next(&d, 0, name); } }
int sx_choice(int n, const char *name) { unsigned char c = 0; next(&c, 1, name); return c % n; }
void sx_assume(int c) { if (!c) { fprintf(stderr, "SX-ASSUME-FAILED\n"); fflush(0); _Exit(71); } }
void sx_assert_(int c, const char *msg) { if (!c) { fprintf(stderr, "SX-ASSERT-FAILED: %s\n", msg); fflush(0); _Exit(72); } }
void sx_known(const char *id) { }
void sx_reach(const char *l) { }
int sx_concrete(int v) { return v; }
#ifdef SX_ASAN
size_t __sanitizer_get_current_allocated_bytes(void);
uint64_t sx_live_objects(void) { return __sanitizer_get_current_allocated_bytes(); }
#else
uint64_t sx_live_objects(void) { return 0; }
#endif
void sx_budget(uint64_t n) { }
int sx_memeq(const void *a, const void *b, size_t n) { return !memcmp(a, b, n); }
int sx_native(void) { return 1; }
#include <dlfcn.h>
extern void xmlInitParser(void);
static char ob[65536], ib[65536];
int main(void)
{
    void (*entry)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, getenv("SX_ENTRY"));
    if (!entry) { fprintf(stderr, "SX: no entry\n"); return 70; }
    xmlInitParser(); setvbuf(stdout, ob, _IOFBF, sizeof ob);
    const char *rp = getenv("SX_REPLAY"); f = rp ? openf(rp) : 0; if (f) setvbuf(f, ib, _IOFBF, sizeof ib);
    entry(); fprintf(stderr, "SX-PASSED\n"); return 0;
}
