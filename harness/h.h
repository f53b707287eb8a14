// Shared by all harnesses. B(q,t): bound used in the quick / thorough tier.
#ifndef H_H
#define H_H
#include "sx.h"
#include "parts/xmq_internals.h"
#include "parts/text.h"
#include "parts/utf8.h"
#include "xmq.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#ifndef TIER
#define TIER 0
#endif
#define B(q, t) (TIER ? (t) : (q))
// n arbitrary bytes in a heap object of exactly n bytes (so that reading *stop is an out of bounds access)
static inline char *sym_buf(size_t n, const char *name) { char *b = malloc(n ? n : 1); sx_bytes(b, n, name); return b; }
// n arbitrary bytes followed by a NUL
static inline char *sym_str(size_t n, const char *name) { char *b = malloc(n + 1); sx_bytes(b, n, name); b[n] = 0; return b; }
// same, but none of the bytes is NUL
static inline char *sym_cstr(size_t n, const char *name) { char *b = sym_str(n, name); for (size_t i = 0; i < n; ++i) sx_assume(b[i] != 0); return b; }
static inline int in_set(unsigned char c, const char *set) { int r = 0; for (; *set; ++set) r |= c == (unsigned char)*set; return r; }
// n bytes, each any member of the given alphabet (exact size)
static inline char *sym_alpha(size_t n, const char *alphabet, const char *name)
{
  char *b = sym_buf(n, name);
  for (size_t i = 0; i < n; ++i) sx_assume(in_set(b[i], alphabet));
  return b;
}
// valid UTF-8 (no overlongs, no surrogates, at most U+10FFFF); written without branches on the data
static inline int is_utf8(const char *s, size_t n)
{
  const unsigned char *u = (const unsigned char*)s;
  // need[k]: bytes still expected before position k; computed symbolically position by position
  int need = 0, ok = 1, lo = 0x80, hi = 0xbf;
  for (size_t i = 0; i < n; ++i)
  {
    int c = u[i];
    if (need) { if (c < lo || c > hi) return 0; lo = 0x80; hi = 0xbf; need--; continue; }
    if (c < 0x80) continue;
    if (c < 0xc2 || c > 0xf4) return 0;
    if (c < 0xe0) need = 1;
    else if (c < 0xf0) { need = 2; if (c == 0xe0) lo = 0xa0; if (c == 0xed) hi = 0x9f; }
    else { need = 3; if (c == 0xf0) lo = 0x90; if (c == 0xf4) hi = 0x8f; }
  }
  return ok && !need;
}
// a character XML 1.0 allows in content (libxml2 and thus XMQ documents cannot carry others)
static inline int xml_ascii(unsigned char c) { return (c >= 32 && c != 127) | (c == '\t') | (c == '\n') | (c == '\r'); }
#endif
