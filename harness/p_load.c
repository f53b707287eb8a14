// C23 loading of files and standard input. The operating system is a model: every read may deliver any part of what is left,
// may be interrupted or fail, opening may fail, and the source may or may not be seekable.
#include "h.h"
#include <libxml/tree.h>
#include <errno.h>
#include <sys/types.h>
static const char *src; static size_t srcn, pos; static int shorts, opens, closes, closed0, failat, calls, failed, nofile, seekable, err, eofseen, intr, coarse;
static size_t some(size_t max)
{
  // how much of max bytes is delivered
  if (max <= 1) return max;
  if (!coarse) return 1 + sx_choice(max > 3 ? 3 : (int)max, "part");
  if (coarse > 1 && !shorts) return max;
  switch (sx_choice(3, "part")) { case 0: return max; case 1: shorts--; return 1; default: shorts--; return max / 2; }
}
static long got(void *p, size_t n)
{
  if (failat && ++calls == failat) { failed = 1; errno = EIO; return -1; }
  if (intr && sx_choice(2, "interrupted")) { intr--; errno = EINTR; return -1; }
  size_t left = srcn - pos; if (n > left) n = left;
  n = some(n); memcpy(p, src + pos, n); pos += n; return n;
}
static char handle[8];
FILE *fopen(const char *p, const char *m) { if (nofile) { errno = ENOENT; return NULL; } opens++; return (FILE*)handle; }
int fclose(FILE *f) { closes++; return 0; }
size_t fread(void *p, size_t s, size_t n, FILE *f)
{
  size_t k = 0; if (s * n == 0) return 0;
  // fread itself repeats short reads, but it may also return early
  int i = intr; intr = 0; long r = got(p, s * n); intr = i;
  if (r < 0) { err = 1; return 0; }
  if (r == 0) { eofseen = 1; return 0; }
  k = r / s; if (k * s != r) pos -= r - k * s; return k;
}
int ferror(FILE *f) { return err; }
int feof(FILE *f) { return eofseen; }
int fgetc(FILE *f) { unsigned char c; return fread(&c, 1, 1, f) == 1 ? c : EOF; }
int getc(FILE *f) { return fgetc(f); }
int fseek(FILE *f, long o, int w) { if (!seekable) { errno = ESPIPE; return -1; } pos = w == SEEK_SET ? o : w == SEEK_CUR ? pos + o : srcn + o; if (pos > srcn) pos = srcn; eofseen = 0; return 0; }
long ftell(FILE *f) { if (!seekable) { errno = ESPIPE; return -1; } return pos; }
void rewind(FILE *f) { fseek(f, 0, SEEK_SET); err = 0; }
ssize_t read(int fd, void *p, size_t n) { sx_assert(fd == 0 && !closed0, "reads an open descriptor"); return got(p, n); }
int close(int fd) { sx_assert(fd == 0, "closes the descriptor it read"); closed0++; return 0; }
static void source(const char *b, size_t n) { src = b; srcn = n; pos = 0; opens = closes = closed0 = calls = failed = err = eofseen = 0; }
enum { FILE_TYPE, STDIN_TYPE, PARSE_FILE, TOKENIZE_FILE, TOKENIZE_STDIN };
// what one of the ways to load tells about the content; NULL when it failed
static char *load(int way, XMQContentType ct, size_t *len, int from_buffer)
{
  char *r = NULL, *e = NULL; *len = 0; int ok;
  if (way < TOKENIZE_FILE)
  {
    XMQDoc *d = xmqNewDoc();
    if (from_buffer) { char *b = malloc(srcn + 1); memcpy(b, src, srcn); b[srcn] = 0; ok = way == PARSE_FILE ? (xmqDetectContentType(b, b + srcn) == XMQ_CONTENT_XMQ && xmqParseBuffer(d, b, b + srcn, NULL, 0)) : xmqParseBufferWithType(d, b, b + srcn, NULL, ct, 0); free(b); }
    else if (way == PARSE_FILE) ok = xmqParseFile(d, "f", NULL, 0);
    else ok = xmqParseFileWithType(d, way == STDIN_TYPE ? NULL : "f", NULL, ct, 0);
    if (!ok && !from_buffer) sx_assert(xmqDocErrno(d) != 0 && xmqDocError(d) && *xmqDocError(d), "a failure has an error number and a message");
    if (ok && ct == XMQ_CONTENT_TEXT && way != PARSE_FILE)
    {
      xmlNode *n = ((xmlDoc*)xmqGetImplementationDoc(d))->children; const char *c = n && n->content ? (char*)n->content : "";
      *len = strlen(c); r = malloc(*len + 1); memcpy(r, c, *len + 1);
    }
    else if (ok)
    {
      XMQOutputSettings *os = xmqNewOutputSettings(); xmqSetOutputFormat(os, XMQ_CONTENT_XMQ); xmqSetCompact(os, true);
      xmqSetupPrintMemory(os, &r, &e); xmqPrint(d, os); xmqFreeOutputSettings(os); *len = e - r;
      if (!r) r = calloc(1, 1);
    }
    xmqFreeDoc(d);
    return r;
  }
  XMQOutputSettings *os = xmqNewOutputSettings(); xmqSetupPrintMemory(os, &r, &e);
  XMQParseCallbacks *c = xmqNewParseCallbacks(); xmqSetupParseCallbacksDebugTokens(c);
  XMQParseState *st = xmqNewParseState(c, os);
  if (from_buffer) { char *b = malloc(srcn + 1); memcpy(b, src, srcn); b[srcn] = 0; ok = xmqTokenizeBuffer(st, b, b + srcn); free(b); }
  else ok = xmqTokenizeFile(st, way == TOKENIZE_STDIN ? NULL : "f");
  if (!ok) sx_assert(xmqStateErrno(st) != 0 && xmqStateErrorMsg(st) && *xmqStateErrorMsg(st), "a failure has an error number and a message");
  xmqFreeParseState(st); xmqFreeParseCallbacks(c); xmqFreeOutputSettings(os);
  if (ok) { *len = e - r; if (!r) r = calloc(1, 1); } else { free(r); r = NULL; }
  return r;
}
static int is_stdin(int way) { return way == STDIN_TYPE || way == TOKENIZE_STDIN; }
// loading gives what parsing the whole buffer gives, and everything is released
static void same(int way, XMQContentType ct, const char *b, size_t n)
{
  static int warm; size_t l1, l2;
  source(b, n);
  char *want = load(way, ct, &l1, 1);
  source(b, n);
  uint64_t live = sx_live_objects();
  char *have = load(way, ct, &l2, 0);
  sx_assert(failed || (!want == !have), "loading accepts what the parser accepts");
  sx_assert(!failed || !have, "a failed read is an error");
  if (want && have) { sx_assert(l1 == l2 && (!l1 || sx_memeq(want, have, l1)), "the whole input arrives"); sx_reach("same"); } else sx_reach("failed");
  sx_assert(opens == closes && (is_stdin(way) ? opens == 0 && closed0 <= 1 : closed0 == 0), "what was opened is closed once");
  free(have);
  if (!sx_native()) sx_assert(sx_live_objects() == live, "nothing is leaked");
  free(want);
}
static const XMQContentType T = XMQ_CONTENT_TEXT;
static void text(int way, int n) { char *b = sym_cstr(n, "content"); sx_assume(!(n >= 3 && (unsigned char)b[0] == 0xef)); sx_assume(n < 2 || ((unsigned char)b[0] != 0xff && (unsigned char)b[0] != 0xfe)); same(way, T, b, n); free(b); }
void h_load_splits(void) { seekable = sx_choice(2, "seekable"); intr = 2; text(sx_choice(2, "way"), sx_choice(1 + B(6, 8), "n")); }
void h_load_fails(void) { seekable = sx_choice(2, "seekable"); failat = 1 + sx_choice(B(5, 7), "failat"); intr = 1; text(sx_choice(2, "way"), sx_choice(1 + B(4, 5), "n")); }
// sizes at the limits of the blocks that are read
void h_load_big(void)
{
  static const int sizes[2][8] = { { 9999, 10000, 10001, 20000, 20001, 1023, 30001, 0 }, { 1022, 1023, 1024, 1025, 2048, 2049, 3100, 0 } };
  int way = sx_choice(2, "way"), n = sizes[way][sx_choice(8, "size")]; seekable = sx_choice(2, "seekable"); coarse = 2; shorts = B(2, 3);   // so many short reads
  char *b = malloc(n + 1); for (int i = 0; i < n; ++i) b[i] = 'a' + i % 23;
  for (int i = 0; i < 3 && n; ++i) { int at = i == 0 ? 0 : i == 1 ? n - 1 : n / 2; sx_bytes(b + at, 1, "content"); sx_assume(b[at] > 0); }
  b[n] = 0; same(way, T, b, n); free(b);
}
// the other ways to load, with XMQ content
static const char *const docs[] = { "a=@", "a{b='@'}", "@", "a(b=@){c}//d" };
static void xmq(int n)
{
  int way = sx_choice(5, "way"); seekable = sx_choice(2, "seekable"); intr = is_stdin(way);
  const char *s = docs[sx_choice(4, "doc")], *p = strchr(s, '@'); size_t a = p - s, z = strlen(p + 1);
  char *b = malloc(a + n + z + 1), *h = sym_alpha(n, "ab'= {", "hole"); memcpy(b, s, a); memcpy(b + a, h, n); memcpy(b + a + n, p + 1, z + 1); free(h);
  same(way, XMQ_CONTENT_DETECT, b, a + n + z); free(b);
}
void h_load_xmq(void) { coarse = 1; xmq(sx_choice(1 + B(2, 3), "n")); }
void h_load_xmq_fails(void) { coarse = 1; failat = 1 + sx_choice(3, "failat"); xmq(sx_choice(2, "n")); }
// no such file
void h_load_missing(void)
{
  int way = sx_choice(3, "way"); way = way == 0 ? FILE_TYPE : way == 1 ? PARSE_FILE : TOKENIZE_FILE; size_t l; nofile = 1; source("a", 1);
  uint64_t live = sx_live_objects();
  char *r = load(way, XMQ_CONTENT_DETECT, &l, 0);
  sx_assert(!r && opens == closes, "a missing file is an error");
  if (!sx_native()) sx_assert(sx_live_objects() == live, "nothing is leaked");
  XMQDoc *d = xmqNewDoc(), *g = xmqNewDoc();
  sx_assert(!xmqParseFileWithIXML(d, "f", g, 0) && xmqDocErrno(d) && xmqDocError(d), "a missing file is an error");
  xmqFreeDoc(d); xmqFreeDoc(g);
  sx_reach("failed");
}
