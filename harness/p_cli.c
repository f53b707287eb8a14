// C29 the commands that edit a document, C30 for-each, C31 messages: the xmq program itself, run inside of the harness.
// Its standard output and error are collected, exit() returns to the harness and fork()/execve() only record what they were given.
#include "h.h"
#include <stdarg.h>
#include <setjmp.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <ctype.h>
#include <assert.h>
#include "canon.h"
#include "parts/hashmap.h"
#include "parts/membuffer.h"
#include "parts/ixml.h"
#include "parts/xml.h"
#include "parts/yaep.h"
#include <signal.h>
#include <sys/ioctl.h>
#include <termios.h>
#include <libxml/tree.h>
#include <libxml/xpath.h>
#include <libxml/xmlschemas.h>
#include <libxslt/documents.h>
#include <libxslt/xslt.h>
#include <libxslt/xsltInternals.h>
#include <libxslt/transform.h>
#include <libxslt/xsltutils.h>
static S out_, err_; static int exit_code; static jmp_buf exit_;
static S *stream_of(void *f) { return f == (void*)stderr ? &err_ : &out_; }
static void cli_vprintf(S *s, const char *f, va_list ap)
{
  va_list a2; va_copy(a2, ap); int n = vsnprintf(NULL, 0, f, ap); char *t = malloc(n + 1); vsnprintf(t, n + 1, f, a2); va_end(a2); sput(s, t, n); free(t);
}
static int cli_printf(const char *f, ...) { va_list ap; va_start(ap, f); cli_vprintf(&out_, f, ap); va_end(ap); return 0; }
static int cli_fprintf(void *fp, const char *f, ...) { va_list ap; va_start(ap, f); cli_vprintf(stream_of(fp), f, ap); va_end(ap); return 0; }
static int cli_vfprintf(void *fp, const char *f, va_list ap) { cli_vprintf(stream_of(fp), f, ap); return 0; }
static int cli_vprintf_(const char *f, va_list ap) { cli_vprintf(&out_, f, ap); return 0; }
static int cli_fputs(const char *s, void *fp) { sputs(stream_of(fp), s); return 0; }
static int cli_fputc(int c, void *fp) { sput1(stream_of(fp), c); return c; }
static int cli_puts(const char *s) { sputs(&out_, s); sput1(&out_, '\n'); return 0; }
static void cli_exit(int rc) { exit_code = rc; longjmp(exit_, 1); }
// what the shell would have been given; the child runs until it is the shell or ends, then the parent goes on
typedef struct { char *path, *cmd; char **env; int n; } Shell;
static Shell shells[40]; static int nshells, shell_fails, ended; static jmp_buf parent_;
static char *no_env[] = { "HOME=/x", "n=old", 0 }; char **cli_environ = no_env;
static int cli_execve(const char *path, char *const argv[], char *const env[])
{
  if (shell_fails) return -1;
  sx_assert(nshells < 40, "bound of the harness"); Shell *s = &shells[nshells++];
  sx_assert(argv[0] && argv[1] && !strcmp(argv[1], "-c") && argv[2] && !argv[3], "sh -c command"); s->path = strdup(path); s->cmd = strdup(argv[2]);
  for (s->n = 0; env[s->n]; s->n++) ; s->env = malloc((s->n + 1) * sizeof(char*)); for (int i = 0; i < s->n; ++i) s->env[i] = strdup(env[i]); s->env[s->n] = 0;
  longjmp(parent_, 1);
}
static void cli_end(int rc) { sx_assert(shell_fails && rc != 0, "only a child without a shell ends by itself"); ended++; longjmp(parent_, 1); }
// the files there are, and everything that can go wrong with them
static struct { const char *name, *content; } files[] = { { "in.xmq", "r { f = 'file' }" }, { "g.ixml", "s = 'a'*." }, { "t.txt", "a text" }, { "s.xslq", "s(v=('x' &#66;)) { t = &#65; &e; u = 'two  lines' }" }, { "bad.xslq", "s {" } };
static const char *stdin_ = "s = stdin"; static S saved; static char *saved_name; static size_t at_; static const char *reading; static int read_fails, open_fails, write_fails, close_fails, handles; static char handle_[8];
FILE *fopen(const char *p, const char *m)
{
  if (m[0] == 'w') { if (open_fails) return NULL; saved_name = strdup(p); saved.n = 0; handles++; return (FILE*)handle_; }
  for (size_t i = 0; i < sizeof files / sizeof *files; ++i) if (!strcmp(p, files[i].name)) { reading = files[i].content; at_ = 0; handles++; return (FILE*)handle_; }
  return NULL;
}
static size_t take(void *p, size_t n) { size_t left = strlen(reading) - at_; if (n > left) n = left; memcpy(p, reading + at_, n); at_ += n; return n; }
// (the compiler knows that fopen returns something new, so the handle is not compared with anything)
int fclose(FILE *f) { handles--; return close_fails ? -1 : 0; }
size_t fread(void *p, size_t s, size_t n, FILE *f) { return read_fails ? 0 : take(p, s * n) / s; }
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { if (f == stdout || f == stderr) { if (f == stdout) sput(&out_, p, s * n); return n; } if (write_fails) n /= 2; sput(&saved, p, s * n); return n; }
int ferror(FILE *f) { return read_fails; }
int feof(FILE *f) { return 1; }
int fseek(FILE *f, long o, int w) { return -1; }
long ftell(FILE *f) { return -1; }
ssize_t read(int fd, void *p, size_t n) { if (reading != stdin_) { reading = stdin_; at_ = 0; } return read_fails ? -1 : take(p, n); }
int close(int fd) { return 0; }
static int cli_open(void) { return -1; }
#define open(...) cli_open()
#define printf cli_printf
#define fprintf cli_fprintf
#define puts cli_puts
#define vfprintf cli_vfprintf
#define vprintf cli_vprintf_
#define fputs cli_fputs
#define fputc cli_fputc
#define putc cli_fputc
#define putchar(c) cli_fputc(c, (void*)stdout)
#define exit cli_exit
#define fork() (setjmp(parent_) ? 1234 : 0)
#define _exit cli_end
#define execve cli_execve
#define waitpid(p, s, o) (*(s) = 0)
#define perror(x) 0
#ifdef PAGER
#define isatty(x) 1
static long key_byte(void *p); static int cli_winsize(struct winsize *w);
#define ioctl(fd, what, w) cli_winsize(w)
#define tcgetattr(fd, t) 0
#define tcsetattr(fd, how, t) 0
#define fflush(f) 0
#define read(fd, p, n) key_byte(p)
#else
#ifdef TERMINAL
static int tty_, alarms_, raw_, rawest_; static long answer(void *p); static char *env_of(const char *n); static int create(const char *name, int flags, int mode); static long put(int fd, const void *p, size_t n); static int run(const char *c);
#undef open
#define open create
#define write put
#define system run
#define isatty(x) tty_
#define read(fd, p, n) (fd == STDOUT_FILENO ? answer(p) : read(fd, p, n))
#define sigaction(n, a, b) 0
#define sigemptyset(s) 0
#define alarm(n) (alarms_ = n)
#define tcgetattr(fd, t) 0
#define tcsetattr(fd, how, t) (raw_++)
#define atexit(f) 0
#define fflush(f) 0
#else
#define isatty(x) 0
#endif
#endif
#ifdef XSLT
static xsltStylesheetPtr sheet_new(xmlDocPtr d); static xmlDocPtr sheet_apply(xsltStylesheetPtr s, xmlDocPtr d, const char **params); static void sheet_free(xsltStylesheetPtr s);
static xmlSchemaParserCtxtPtr schema_ctxt(xmlDocPtr d); static xmlSchemaPtr schema_parse(xmlSchemaParserCtxtPtr c); static void schema_free(xmlSchemaPtr s); static int schema_validate(xmlSchemaValidCtxtPtr c, xmlDocPtr d);
typedef void (*Complain)(void *ctx, const char *msg, ...); static Complain parse_err, parse_warn, valid_err, valid_warn; static void *parse_ctx, *valid_ctx; static int live_parsers, live_validators; static xmlSchemaPtr validator_of; static int schema_ok_;
#define xsltParseStylesheetDoc sheet_new
#define xsltApplyStylesheet sheet_apply
#define xsltFreeStylesheet sheet_free
#define xsltSetLoaderFunc(f) 0
#define xmlSchemaNewDocParserCtxt schema_ctxt
#define xmlSchemaSetParserErrors(c, e, w, x) (parse_err = e, parse_warn = w, parse_ctx = x)
#define xmlSchemaParse schema_parse
#define xmlSchemaFreeParserCtxt(c) (live_parsers--)
#define xmlSchemaNewValidCtxt(s) (live_validators++, validator_of = s, (xmlSchemaValidCtxtPtr)&live_validators)
#define xmlSchemaSetValidErrors(c, e, w, x) (valid_err = e, valid_warn = w, valid_ctx = x)
#define xmlSchemaIsValid(c) schema_ok_
#define xmlSchemaValidateDoc schema_validate
#define xmlSchemaFreeValidCtxt(c) (live_validators--)
#define xmlSchemaFree schema_free
#endif
#ifdef TERMINAL
#define getenv env_of
#else
#define getenv(x) NULL
#endif
#define environ cli_environ
#define main cli_main
#include "xmq-cli.c"
#undef open
#undef printf
#undef fprintf
#undef puts
#undef vfprintf
#undef vprintf
#undef fputs
#undef fputc
#undef putc
#undef putchar
#undef exit
#undef fork
#undef _exit
#undef execve
#undef waitpid
#undef perror
#undef isatty
#ifdef TERMINAL
#undef write
#undef system
#undef read
#undef sigaction
#undef sigemptyset
#undef alarm
#undef tcgetattr
#undef tcsetattr
#undef atexit
#undef fflush
#endif
#ifdef PAGER
#undef ioctl
#undef tcgetattr
#undef tcsetattr
#undef fflush
#undef read
#endif
#undef getenv
#ifdef XSLT
#undef xsltParseStylesheetDoc
#undef xsltApplyStylesheet
#undef xsltFreeStylesheet
#undef xsltSetLoaderFunc
#undef xmlSchemaNewDocParserCtxt
#undef xmlSchemaSetParserErrors
#undef xmlSchemaParse
#undef xmlSchemaFreeParserCtxt
#undef xmlSchemaNewValidCtxt
#undef xmlSchemaSetValidErrors
#undef xmlSchemaIsValid
#undef xmlSchemaValidateDoc
#undef xmlSchemaFreeValidCtxt
#undef xmlSchemaFree
#endif
#undef environ
#undef main
static const char *args[24]; static int nargs;
static void arg(const char *a) { args[nargs++] = a; }
static int xmq(void)
{
  out_.n = err_.n = 0; args[nargs] = NULL; reading = NULL; sput1(&out_, 0); out_.n = 0; sput1(&err_, 0); err_.n = 0;
  if (sx_native()) for (int i = 0; i < nargs; ++i) fprintf(stderr, "[%s] ", args[i]);
  int rc; if (setjmp(exit_)) rc = exit_code; else rc = cli_main(nargs, args);
  if (sx_native()) fprintf(stderr, "-> %d\n%.*s%.*s\n", rc, (int)out_.n, out_.b, (int)err_.n, err_.b);
  return rc;
}
static void begin(const char *src) { nargs = 0; arg("xmq"); arg("-i"); if (src) arg(src); }

// ---- C29: a document and what a command should make of it, written side by side
typedef struct { S b, a; } Pair;                      // before, after
static void both(Pair *p, const char *s) { sputs(&p->b, s); sputs(&p->a, s); }
static void only(Pair *p, const char *s) { sputs(&p->b, s); }
enum { NONE, DEL_A, DEL_X, DEL_COMMENT, DEL_TEXT, DEL_ENTITY, REPLACE, KINDS, SELECT_A, SELECT_X, SUBSTITUTE };
static S picked[40]; static int npicked;              // what select should find, in the order of the document
static const char *with = "'new'";
static S result(int cmd)
{
  S r = {0}; XMQDoc *d = xmqNewDoc(); sx_assert(xmqParseBuffer(d, out_.b, out_.b + out_.n, NULL, 0), "the output is XMQ");
  r = canon_doc(d); xmqFreeDoc(d); return r;
}
static S meaning(S src)
{
  XMQDoc *d = xmqNewDoc(); int ok = xmqParseBuffer(d, src.b, src.b + src.n, NULL, 0); sx_assert(ok, "the harness writes XMQ");
  S r = canon_doc(d); xmqFreeDoc(d); return r;
}
static void entity_item(Pair *p, int cmd, const char *e)
{
  if (cmd == SUBSTITUTE && !strcmp(e, "e")) { only(p, "&#x41;"); sputs(&p->a, "'A'"); return; }
  only(p, "&"); only(p, e); only(p, ";");
  if (!strcmp(e, "e") && cmd == DEL_ENTITY) return;
  if (!strcmp(e, "e") && cmd == REPLACE) { sputs(&p->a, with); return; }
  sputs(&p->a, "&"); sputs(&p->a, e); sputs(&p->a, ";");
}
static void value(Pair *p, int cmd, int in_attr)
{
  switch (sx_choice(5, "value"))
  {
    case 0: both(p, in_attr || cmd != DEL_TEXT ? "t" : "''"); break;
    case 1: both(p, "('' "); entity_item(p, cmd, "e"); both(p, ")"); break;
    case 2: both(p, "('p' "); entity_item(p, cmd, "ef"); both(p, " "); entity_item(p, cmd, "e"); both(p, " 'q')"); break;
    case 3: both(p, "('' "); entity_item(p, cmd, "e"); both(p, " "); entity_item(p, cmd, "e"); both(p, ")"); break;
    default: both(p, "''");
  }
}
static void items(Pair *p, int cmd, int depth, int n)
{
  for (int i = 0; i < n; ++i)
  {
    int k = sx_choice(depth ? 8 : 6, "item");
    if (k == 0) { if (cmd == DEL_TEXT) only(p, " 'u' "); else both(p, " 'u' "); }
    else if (k == 1) { both(p, " "); entity_item(p, cmd, "e"); both(p, " "); }
    else if (k == 2) { both(p, " "); entity_item(p, cmd, "ef"); both(p, " "); }
    else if (k == 3) { if (cmd == DEL_COMMENT) only(p, "\n/* c */\n"); else both(p, "\n/* c */\n"); }
    else if (k == 4 && cmd == SELECT_A) { only(p, " a "); sputs(&picked[npicked++], " a "); }
    else if (k == 5 && cmd == SELECT_X) { Pair q = {0}; both(&q, " b(x="); value(&q, cmd, 1); both(&q, sx_choice(2, "two") ? " x2=q) " : ") "); sput(&p->b, q.b.b, q.b.n); sput(&picked[npicked++], q.b.b, q.b.n); }
    else if (k == 4) { if (cmd == DEL_A) only(p, " a "); else both(p, " a "); }
    else if (k == 5) { both(p, " b("); if (cmd == DEL_X) only(p, "x="); else both(p, "x="); Pair v = {0}; value(cmd == DEL_X ? &v : p, cmd, 1); if (cmd == DEL_X && v.b.n) sput(&p->b, v.b.b, v.b.n); both(p, " y=z) "); }
    else if (k == 6 && cmd == SELECT_A) { Pair q = {0}; int at = npicked++; both(&q, " a { "); items(&q, cmd, depth - 1, sx_choice(B(2, 3), "children")); both(&q, " } "); sput(&p->b, q.b.b, q.b.n); sput(&picked[at], q.a.b, q.a.n); }
    else if (k == 6) { Pair q = {0}; both(&q, "a { "); items(&q, cmd, depth - 1, sx_choice(B(2, 3), "children")); both(&q, " } "); sput(&p->b, q.b.b, q.b.n); if (cmd != DEL_A) sput(&p->a, q.a.b, q.a.n); }
    else { both(p, " b { "); items(p, cmd, depth - 1, sx_choice(B(2, 3), "children")); both(p, " } "); }
  }
}
static const char *const commands[][3] = { { "to-xmq" }, { "delete", "//a" }, { "delete", "//@x" }, { "delete", "//comment()" }, { "delete", "//text()" }, { "delete-entity", "e" }, { "replace-entity", "e", "new" } };
static void edit(int n, int depth)
{
  int cmd = sx_choice(KINDS, "command"), before = sx_choice(2, "before");
  Pair p = {0};
  if (before) { if (cmd == DEL_COMMENT) only(&p, "/* first */\n"); else both(&p, "/* first */\n"); }
  both(&p, "r { "); items(&p, cmd, depth, n); both(&p, " }"); sput1(&p.b, 0);
  begin(p.b.b); p.b.n--; for (int i = 0; i < 3 && commands[cmd][i]; ++i) arg(commands[cmd][i]);
  if (sx_native()) { sput1(&p.a, 0); p.a.n--; fprintf(stderr, "expected: %s\n", p.a.b); }
  int rc = xmq(); sx_assert(rc == 0, "the command succeeds");
  S want = meaning(p.a), got = result(cmd); if (sx_native() && !same(want, got)) { show("want", want); show("got", got); }
  sx_assert(same(want, got), "the command changes exactly what it names"); sx_reach("done");
}
void h_edit_flat(void) { edit(B(3, 4), 0); }
void h_edit_nested(void) { edit(2, 1); }
static void compare(S src, int cmd);
static char *source(Pair *p);
// longer runs of texts and entities
void h_edit_runs(void)
{
  static const int cmds[] = { DEL_ENTITY, REPLACE, SUBSTITUTE, DEL_TEXT }; int cmd = cmds[sx_choice(4, "command")], attr = sx_choice(2, "attribute"), n = sx_choice(B(6, 7), "n"); if (attr && cmd == DEL_TEXT) sx_assume(0);
  Pair p = {0}; both(&p, attr ? "r(x=('' " : "r { ");
  for (int i = 0; i < n; ++i) switch (sx_choice(attr ? 3 : 4, "item")) { case 0: if (cmd == DEL_TEXT) only(&p, "'u' "); else both(&p, "'u' "); break; case 1: entity_item(&p, cmd, "e"); both(&p, " "); break; case 2: entity_item(&p, cmd, "ef"); both(&p, " "); break; default: both(&p, "b "); }
  both(&p, attr ? "))" : "}");
  if (cmd == SUBSTITUTE) { nargs = 0; arg("xmq"); arg("--no-merge"); arg("-i"); arg(source(&p)); arg("substitute-char-entities"); } else { begin(source(&p)); for (int i = 0; i < 3 && commands[cmd][i]; ++i) arg(commands[cmd][i]); }
  int rc = xmq(); sx_assert(rc == 0, "the command succeeds"); compare(p.a, cmd);
}
// every text, in a document where everything around it is edited
void h_edit_text(void)
{
  int cmd = sx_choice(KINDS, "command"), where = sx_choice(3, "where"); size_t n = 1 + sx_choice(B(4, 6), "n"); char *t = sym_buf(n, "text"); sx_assume(is_utf8(t, n));
  for (size_t i = 0; i < n; ++i) sx_assume(xml_ascii(t[i]) && t[i] != '\r' && t[i] != '\n' && t[i] != '\'');
  char *q = malloc(n + 3); q[0] = '\''; memcpy(q + 1, t, n); q[n + 1] = '\''; q[n + 2] = 0;
  Pair p = {0}; both(&p, "r { "); Pair a = {0};
  if (where == 0) { if (cmd == DEL_TEXT) only(&p, q); else both(&p, q); both(&p, " "); entity_item(&p, cmd, "e"); both(&p, " "); }
  both(&a, "a { "); entity_item(&a, cmd, "e"); both(&a, " "); if (where == 1) { if (cmd == DEL_TEXT) only(&a, q); else both(&a, q); } both(&a, " } ");
  sput(&p.b, a.b.b, a.b.n); if (cmd != DEL_A) sput(&p.a, a.a.b, a.a.n);
  Pair x = {0}; both(&x, "x="); if (where == 2) both(&x, q); else { both(&x, "("); entity_item(&x, cmd, "e"); both(&x, " '')"); }
  both(&p, "b("); sput(&p.b, x.b.b, x.b.n); if (cmd != DEL_X) sput(&p.a, x.a.b, x.a.n); both(&p, " y=z) "); if (cmd == DEL_COMMENT) only(&p, "/* c */ "); else both(&p, "/* c */ ");
  both(&p, "} "); sput1(&p.b, 0); begin(p.b.b); p.b.n--; for (int i = 0; i < 3 && commands[cmd][i]; ++i) arg(commands[cmd][i]);
  int rc = xmq(); sx_assert(rc == 0, "the command succeeds");
  S want = meaning(p.a), got = result(cmd); if (sx_native() && !same(want, got)) { show("want", want); show("got", got); }
  sx_assert(same(want, got), "the command changes exactly what it names"); sx_reach("done");
}
// every name of an entity against every other: only the entity of that name is edited
void h_edit_names(void)
{
  int cmd = sx_choice(3, "command"); size_t n = 1 + sx_choice(B(5, 7), "n"), m = 1 + sx_choice(B(5, 7), "m"); char *e = sym_str(n, "entity"), *g = sym_str(m, "given");
  for (size_t i = 0; i < n; ++i) sx_assume((e[i] >= 'a' && e[i] <= 'z') || (e[i] >= 'A' && e[i] <= 'Z')); for (size_t i = 0; i < m; ++i) sx_assume(g[i] > ' ' && g[i] < 127 && (i || g[0] != '-'));
  Pair p = {0}; both(&p, "r(k=('' "); Pair q = {0}; only(&q, "&"); only(&q, e); only(&q, "; "); int is = n == m && !memcmp(e, g, n);
  S r = is ? (S){0} : q.b; if (is && cmd) sputs(&r, "'new' ");
  for (int i = 0; i < 2; ++i) { sput(&p.b, q.b.b, q.b.n); sput(&p.a, r.b, r.n); both(&p, i ? "'t' " : ")) { x "); } both(&p, "y } ");
  begin(source(&p)); arg(cmd ? "replace-entity" : "delete-entity"); arg(g); if (cmd == 1) arg("new"); else if (cmd == 2) arg("--with-text-file=t.txt");
  if (cmd == 2) files[2].content = "new"; int rc = xmq(); sx_assert(rc == 0, "the command succeeds"); compare(p.a, 0);
}
static S joined(void) { S r = {0}; for (int i = npicked - 1; i >= 0; --i) sput(&r, picked[i].b, picked[i].n); return r; }
static void compare(S src, int cmd)
{
  if (sx_native()) { sput1(&src, 0); src.n--; fprintf(stderr, "expected: %s\n", src.b); }
  S want = meaning(src), got = result(cmd); if (sx_native() && !same(want, got)) { show("want", want); show("got", got); }
  sx_assert(same(want, got), "the command makes exactly what it promises"); sx_reach("done");
}
static char *source(Pair *p) { sput1(&p->b, 0); p->b.n--; return p->b.b; }
static void selecting(int n, int depth)
{
  int cmd = SELECT_A + sx_choice(2, "what"), then = sx_choice(3, "then"); Pair p = {0};
  if (sx_choice(2, "before")) only(&p, "/* first */\n");
  only(&p, "r { "); items(&p, cmd, depth, n); only(&p, " }");
  begin(source(&p)); arg("select"); arg(cmd == SELECT_A ? "//a" : "//b/@*");
  if (then == 1) { arg("add-root"); arg("w"); }
  if (then == 2) { arg("delete"); arg("//a"); }
  sx_assume(npicked > 0);
  int rc = xmq(); sx_assert(rc == 0, "the command succeeds");
  S want = joined();
  if (then == 1) { S w = {0}; sputs(&w, "w { "); sput(&w, want.b, want.n); sputs(&w, " }"); want = w; }
  if (then == 2 && cmd == SELECT_A) { sx_assert(out_.n == 0 || (out_.n == 1 && out_.b[0] == '\n'), "nothing is left"); sx_reach("done"); return; }
  compare(want, cmd);
}
void h_select_flat(void) { selecting(B(3, 4), 0); }
void h_select_nested(void) { selecting(2, 1); }
void h_substitute(void)
{
  Pair p = {0}; int cmd = SUBSTITUTE, before = sx_choice(2, "before"), named = sx_choice(2, "named"); if (before) both(&p, "/* first */\n");
  both(&p, "r { "); items(&p, cmd, 1, 2); both(&p, " }"); if (sx_choice(2, "after")) both(&p, "\n/* last */\n");
  nargs = 0; arg("xmq"); arg("--no-merge"); arg("-i"); arg(source(&p));
  if (named) { arg("substitute-entity"); arg("#x41"); } else arg("substitute-char-entities");
  int rc = xmq(); sx_assert(rc == 0, "the command succeeds");
  sx_assert(!strstr((sput1(&out_, 0), out_.n--, out_.b), "&#"), "no character entity is left");
  compare(p.a, cmd);
}
// the replacement is any text
static void replacement(char *t, size_t n)
{
  for (size_t i = 0; i < n; ++i) sx_assume(xml_ascii(t[i]) && t[i] != '\r');
  char *w = malloc(n + 1); memcpy(w, t, n); w[n] = 0; sx_assume(w[0] != '-');
  static const char *const src[] = { "r = &e;", "r { 'p' &e; 'q' }", "r { a &e; b }", "r(x=('p' &e;))", "r { a { &e; } &f; }", "r { &e; &e; }" };
  int k = sx_choice(6, "place"); begin(src[k]); arg("replace-entity"); arg("e"); arg(w);
  int rc = xmq(); sx_assert(rc == 0, "the command succeeds");
  S got = result(0), want = {0};
  static const char *const pre[] = { "\1<r\1{\1T", "\1<r\1{\1Tp", "\1<r\1{\1<a\1{\1}\1T", "\1<r\1@x\1=p", "\1<r\1{\1<a\1{\1T", "\1<r\1{\1T" }, *const post[] = { "\1}", "q\1}", "\1<b\1{\1}\1}", "\1{\1}", "\1}\1T\1&f;\1}", "\1}" };
  sputs(&want, pre[k]); sputs(&want, w); if (k == 5) sputs(&want, w); sputs(&want, post[k]);
  if (sx_native() && !same(want, got)) { show("want", want); show("got", got); }
  sx_assert(same(want, got), "the entity is replaced by the text"); sx_reach("done");
}
void h_replace_bytes(void) { int n = 1 + sx_choice(B(4, 5), "n"); char *t = sym_buf(n, "text"); sx_assume(is_utf8(t, n)); replacement(t, n); }
void h_replace_syntax(void) { int n = 1 + sx_choice(B(4, 5), "n"); replacement(sym_alpha(n, "' a\n&{;", "text"), n); }
// the replacement is a file
void h_replace_file(void)
{
  static const char *const content[][3] = { { "w { a 'x' }", 0, "'x'" }, { "w { 'x' b = &g; }\n/* d */\na='z'", 0, "'x' &g; 'z'" }, { "!DOCTYPE=w\nw(k=v) { 'x' }", "w(k=v) { 'x' }", "'x'" }, { "!DOCTYPE=w\n/* d */", "/* d */", "''" }, { "w", 0, "''" }, { "&e;", 0, "&e;" }, { "a=&e;", 0, "&e;" } };
  int k = sx_choice(7, "content"), n = sx_choice(3, "n"), m = sx_choice(3, "m"); files[0].content = content[k][0]; const char *tree = content[k][1] ? content[k][1] : content[k][0];
  Pair p = {0}; both(&p, "r(k=('' "); for (int i = 0; i < n; ++i) if (sx_choice(2, "part")) { only(&p, "&e; "); sputs(&p.a, content[k][2]); both(&p, " "); } else both(&p, "'u' ");
  both(&p, ")) { "); for (int i = 0; i < m; ++i) switch (sx_choice(4, "item")) { case 0: only(&p, "&e; "); sputs(&p.a, tree); both(&p, " "); break; case 1: both(&p, "'u' "); break; case 2: both(&p, "b { 't' "); only(&p, "&e;"); sputs(&p.a, tree); both(&p, " } "); break; default: both(&p, "&f; "); }
  both(&p, "} "); begin(source(&p)); arg("replace-entity"); arg("e"); arg("--with-file=in.xmq"); int rc = xmq(); sx_assert(rc == 0, "the command succeeds"); compare(p.a, 0);
}
// add, add-root
void h_add(void)
{
  Pair p = {0}; int n = sx_choice(3, "n"), k = sx_choice(5, "added"), root = sx_choice(2, "root");
  static const char *const more[] = { "x=1", "x { y 'z' }", "/* c */ x(k=v)", "'text'", "x y" };
  both(&p, "r { "); items(&p, NONE, 1, n); both(&p, " } ");
  if (sx_choice(2, "empty")) { nargs = 0; arg("xmq"); arg("-z"); p.a.n = 0; } else begin(source(&p));
  arg("add"); arg(more[k]); sputs(&p.a, more[k]);
  S want = p.a; if (root) { arg("add-root"); arg("w"); S w = {0}; sputs(&w, "w { "); sput(&w, want.b, want.n); sputs(&w, " }"); want = w; }
  int rc = xmq(); sx_assert(rc == 0, "the command succeeds"); compare(want, 0);
}
// statistics
static size_t cnt[10];
static void count(xmlNode *n)
{
  for (; n; n = n->next)
  {
    if (n->type == XML_ELEMENT_NODE)
    {
      cnt[0]++; cnt[1] += strlen((char*)n->name);
      for (xmlAttr *a = n->properties; a; a = a->next) { cnt[4]++; cnt[5] += strlen((char*)a->name); for (xmlNode *t = a->children; t; t = t->next) if (t->type == XML_TEXT_NODE) cnt[6] += strlen((char*)t->content); }
      count(n->children);
    }
    if (n->type == XML_TEXT_NODE) { cnt[2]++; cnt[3] += strlen((char*)n->content); }
    if (n->type == XML_COMMENT_NODE) { cnt[7]++; cnt[8] += strlen((char*)n->content); }
  }
}
void h_statistics(void)
{
  Pair p = {0}; if (sx_choice(2, "before")) both(&p, "/* first */\n"); both(&p, "r { "); items(&p, NONE, 1, 2); both(&p, " } ");
  char *s = source(&p); XMQDoc *d = xmqNewDoc(); sx_assert(xmqParseBuffer(d, s, s + p.b.n, NULL, 0), "the harness writes XMQ"); count(((xmlDocPtr)xmqGetImplementationDoc(d))->children);
  begin(s); arg("statistics"); int rc = xmq(); sx_assert(rc == 0, "the command succeeds");
  static const char *const key[] = { "num_elements", "size_element_names", "num_text_nodes", "size_text_nodes", "num_attributes", "size_attribute_names", "size_attribute_content", "num_comments", "size_comments" };
  S w = {0}; char t[80]; snprintf(t, 80, "statistics { size_source = %zu ", p.b.n); sputs(&w, t);
  for (int i = 0; i < 9; ++i) if (cnt[i]) { snprintf(t, 80, "%s = %zu ", key[i], cnt[i]); sputs(&w, t); }
  snprintf(t, 80, "sum_meta = %zu sum_text = %zu }", cnt[1] + cnt[5] + cnt[6], cnt[3]); sputs(&w, t);
  compare(w, 0);
}
// ---- C30: for-each
static char safe(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' ? c : '_'; }
static void each(const char *tmpl, size_t n, const char *rep, const char *src, int count, const char *dot, const char *name_n, const char *elem)
{
  char *cmd = malloc(n + 1); memcpy(cmd, tmpl, n); cmd[n] = 0; char *opt = malloc(n + 9); strcpy(opt, "--shell="); strcat(opt, cmd);
  begin(src); if (rep) { arg("replace-entity"); arg("e"); arg(rep); } arg("for-each"); arg("//a"); arg(opt); nshells = 0;
  int rc = xmq(); sx_assert(rc == 0 && out_.n == 0, "the command succeeds, and the document is not printed"); sx_assert(nshells == count, "one shell for each match");
  // what the shell should get
  char *want = strdup(cmd); S env[12] = { { 0 } }; int envs = 0;
  for (; no_env[envs]; ++envs) sputs(&env[envs], no_env[envs]);
  for (size_t i = 0; i + 2 < n; ++i)
  {
    if (want[i] != '$' || want[i + 1] != '{') continue;
    size_t e = i + 2; while (e < n && want[e] != '}') e++; if (e == n) continue;
    sx_assert(envs < 12, "bound of the harness"); S *v = &env[envs++], nm = {0};
    for (size_t k = i + 2; k < e; ++k) { char c = want[k]; want[k] = safe(c); sput1(&nm, c); }
    sput(v, want + i + 2, e - i - 2); sput1(v, '='); sput1(&nm, 0);
    sputs(v, !strcmp(nm.b, ".") ? dot : !strcmp(nm.b, "..") ? elem : !strcmp(nm.b, "n") ? name_n : "");
    i = i + 1;
  }
  for (int k = 0; k < count; ++k)
  {
    sx_assert(!strcmp(shells[k].path, "/bin/sh"), "the shell"); sx_assert(!strcmp(shells[k].cmd, want), "the command is passed as it is, with safe variable names; no content gets into it");
    sx_assert(shells[k].n == envs, "as many variables as names");
    for (int i = 0; i < envs; ++i) { sput1(&env[i], 0); env[i].n--; sx_assert(!strcmp(shells[k].env[i], env[i].b), "the variable has the content"); }
  }
  sx_reach("done");
}
void h_each_template(void)
{
  size_t n = 1 + sx_choice(B(9, 11), "n"); char *t = sym_alpha(n, "${}.na-", "command");
  each(t, n, NULL, "r { a { b 'p' n = 'v' n = ('w' &#65; &x;) } }", 1, "pvwA&x;", "vwA&x;", "a");
}
void h_each_name(void)
{
  size_t n = 1 + sx_choice(B(4, 5), "n"); char *name = sym_buf(n, "name"); for (size_t i = 0; i < n; ++i) sx_assume(name[i] != 0);
  char t[32]; strcpy(t, "echo ${"); memcpy(t + 7, name, n); strcpy(t + 7 + n, "}$x");
  each(t, n + 10, NULL, "r { a { n = v /* c */ e } n = no }", 1, "v", "v", "a");
}
void h_each_content(void)
{
  size_t n = 1 + sx_choice(B(6, 8), "n"); char *c = sym_str(n, "content"); sx_assume(c[0] != '-'); sx_assume(is_utf8(c, n)); for (size_t i = 0; i < n; ++i) sx_assume(xml_ascii(c[i]) && c[i] != '\r');
  each("echo '${n}' ${.} \"${..}\"", 23, c, "r { a { n = &e; } b { a { n = &e; } } }", 2, c, c, "a");
}
void h_each_match(void)
{
  static const char *const src[] = { "r { a { 'x' a { n = y 'z' } } }", "r { a(n=k) { n { 'v' b = w } } }", "r { b = q }", "a { n = '' }", "r { a { n = v n = w } 'a' a = t }" };
  int k = sx_choice(5, "document");
  begin(src[k]); arg("for-each"); arg("//a"); arg("--shell=echo ${n} ${.} ${..} ${zz}"); if (sx_choice(2, "then")) { arg("for-each"); arg("//a"); arg("--shell=true"); }
  shell_fails = sx_choice(2, "no shell"); nshells = ended = 0; int rc = xmq(); sx_assert(rc == 0 && out_.n == 0, "the command succeeds");
  static const char *const want[][3] = { { "n=\0_=xyz\0__=a", "n=y\0_=yz\0__=a" }, { "n=v\0_=vw\0__=a" }, { 0 }, { "n=\0_=\0__=a" }, { "n=vw\0_=vw\0__=a", "n=\0_=t\0__=a" } };
  int matches = 0; while (want[k][matches]) matches++;
  if (shell_fails) { sx_assert(nshells == 0 && (ended == matches || ended == 2 * matches), "every child ends when there is no shell"); sx_reach("done"); return; }
  for (int m = 0; m < matches; ++m)
  {
    sx_assert(shells[m].n == 6 && !strcmp(shells[m].env[5], "zz="), "the variables"); const char *w = want[k][m];
    for (int i = 2; i < 5; ++i) { sx_assert(!strcmp(shells[m].env[i], w), "the variable has the content of the match"); w += strlen(w) + 1; }
    sx_assert(!strcmp(shells[m].cmd, "echo ${n} ${_} ${__} ${zz}"), "the command");
  }
  sx_assert(nshells == matches || nshells == 2 * matches, "one shell for each match"); sx_reach("done");
}
// the content of matches and children that have several parts
static void parts(S *src, S *all, S *own, int n, int deep)
{
  for (int i = 0; i < n; ++i) switch (sx_choice(deep ? 6 : 5, "part"))
  {
    case 0: sputs(src, " 'u' "); sput1(all, 'u'); sput1(own, 'u'); break;
    case 1: sputs(src, " /* c */ "); break;
    case 2: sputs(src, " &e; "); sputs(all, "&e;"); sputs(own, "&e;"); break;
    case 3: sputs(src, " &#65; "); sput1(all, 'A'); sput1(own, 'A'); break;
    case 4: sputs(src, " z "); break;
    default: sputs(src, " b { "); { S skip = {0}; parts(src, all, &skip, 1 + sx_choice(2, "parts"), 0); } sputs(src, " } "); break;
  }
}
void h_each_parts(void)
{
  S src = {0}, all = {0}, own = {0}; int n = sx_choice(3, "children"); sputs(&src, "r { a(k=q) { ");
  for (int i = 0; i < n; ++i)
  {
    if (sx_choice(2, "text")) { sputs(&src, " 't' "); sput1(&all, 't'); } 
    S skip = {0}; int is = n < 2 || sx_choice(2, "named"); sputs(&src, is ? "n { " : "nn { "); parts(&src, &all, is ? &own : &skip, sx_choice(n > 1 ? B(2, 2) : B(3, 4), "parts"), 1); sputs(&src, "} ");
  }
  sputs(&src, "} n = 'no' }"); sput1(&src, 0); S env = {0}, dot = {0}; sputs(&env, "n="); sput(&env, own.b ? own.b : "", own.n); sput1(&env, 0); sputs(&dot, "_="); sput(&dot, all.b ? all.b : "", all.n); sput1(&dot, 0);
  begin(src.b); arg("for-each"); arg("//a"); arg("--shell=x ${n} ${.}"); nshells = shell_fails = 0; int rc = xmq(); sx_assert(rc == 0 && nshells == 1 && shells[0].n == 4, "one shell");
  if (sx_native()) fprintf(stderr, "%s | %s | want %s | %s\n", shells[0].env[2], shells[0].env[3], env.b, dot.b);
  sx_assert(!strcmp(shells[0].env[2], env.b), "the content of the children with the name"); sx_assert(!strcmp(shells[0].env[3], dot.b), "all text of the match"); sx_reach("done");
}
// no command misuses memory, whatever it matches
void h_edit_any(void)
{
  static const char *const paths[] = { "/", "//@*", "//node()", "//text()", "//comment()", "//*", "//a", "//r", "/r/node()", "//b/@x" }, *const what[] = { "select", "delete", "for-each" };
  Pair p = {0}; int n = sx_choice(2, "n"), empty = sx_choice(3, "empty"); both(&p, "/* first */\nr { "); items(&p, NONE, 1, n); both(&p, " } ");
  if (empty == 1) { nargs = 0; arg("xmq"); arg("-z"); } else begin(empty == 2 ? "" : source(&p));
  for (int i = 0; i < 2; ++i)
  {
    int k = sx_choice(i ? 7 : 6, "command");
    if (k < 3) { arg(what[k]); arg(paths[sx_choice(10, "path")]); if (k == 2) arg("--shell=echo ${.} ${..} ${a}"); }
    else if (k == 3) { arg("replace-entity"); arg("e"); arg("t"); } else if (k == 4) { arg("delete-entity"); arg("e"); } else if (k == 5) arg("substitute-char-entities");
  }
  xmq(); sx_reach("done");
}

// ---- C31: the program and its command line
// Every sequence of words is carried out or refused with a message.
static const char *const words[] = { "to-xmq", "to-json", "to-text", "to-clines", "to-htmq", "render-html", "render-terminal", "render-tex", "render-raw", "tokenize", "print", "no-output", "delete", "delete-entity",
  "replace", "replace-entity", "select", "for-each", "add", "add-root", "statistics", "substitute-entity", "substitute-char-entities", "quote-c", "unquote-c", "help", "save-to", "load" };
static const char *const more_args[] = { "//a", "e", "--compact", "--shell=x", "'t' b=", "--indent=2", "" };
static int told_elsewhere;   // the library itself writes what is wrong with a text for a grammar
static int last_rc;
static void check_words(void)
{
  int rc = last_rc = xmq(); sx_assert(rc == 0 || rc == 1, "a status"); sx_assert(rc == 0 || told_elsewhere || out_.n || err_.n, "a refusal comes with a message"); sx_reach("done");
}
static void word(int args) { arg(words[sx_choice(28, "command")]); int n = sx_choice(args + 1, "args"); for (int i = 0; i < n; ++i) arg(more_args[sx_choice(7, "arg")]); }
static void source_of(void)
{
  switch (sx_choice(4, "source")) { case 0: begin("r { a(x=1) { &e; } 't' &#65; }"); break; case 1: begin("{\"a\":[1,null]}"); break; case 2: begin(""); break; default: nargs = 0; arg("xmq"); arg("-z"); }
}
void h_words_one(void) { source_of(); word(B(2, 3)); check_words(); }
void h_words_two(void) { begin("r { a(x=1) { &e; } 't' &#65; }"); word(B(0, 1)); word(B(0, 1)); check_words(); }
void h_words_global(void)
{
  static const char *const g[] = { "-i", "-z", "--xmq", "--json", "--text", "--clines", "--root=x", "--lines", "--no-merge", "--trim=none", "--trim=heuristic", "--trim=x", "--ixml=g.ixml", "--ixml=g", "--xml-of-ixml", "--version", "-", "a=1", "--log-xmq", "in.xmq" };
  nargs = 0; arg("xmq"); int n = sx_choice(B(3, 4), "n"); for (int i = 0; i < n; ++i) { int k = sx_choice(20, "option"); arg(g[k]); told_elsewhere |= k == 12; } check_words();
}
void h_words_bytes(void)
{
  source_of(); int n = sx_choice(B(3, 4), "n"); char *w = sym_cstr(n, "word"); sx_assume(strcmp(w, "br") && strcmp(w, "pa"));
  int src = nargs > 2, place = sx_choice(6, "place");
  switch (place)
  {
    case 0: arg(w); break; case 1: sx_assume(n <= 2); arg("to-xmq"); { char *o = malloc(n + 10); strcpy(o, "--indent="); strcat(o, w); arg(o); } break; case 2: arg("add"); arg(w); break; case 3: arg("add-root"); arg(w); break;
    case 4: arg("replace-entity"); arg("e"); arg(w); break; default: arg("help"); arg(w);
  }
  check_words();
  if (place == 1 && src) { int digits = 1; for (int i = 0; i < n; ++i) digits &= (w[i] >= '0') & (w[i] <= '9'); sx_assert(digits ? last_rc == 0 : last_rc == 1 && out_.n + err_.n > 0, "an indentation is a number"); }
  if (place == 0 && src && cmd_from(w) == XMQ_CLI_CMD_NONE) { int named = 0; const char *q = strchr((sput1(&err_, 0), err_.n--, err_.b), '"'); if (q && q + 1 + n <= err_.b + err_.n && !memcmp(q + 1, w, n)) named = 1; else for (size_t i = 0; i + n <= err_.n; ++i) named |= sx_memeq(err_.b + i, w, n); sx_assert(err_.n > 0 && named && out_.n == 0, "a word that is not a command is refused by its name"); sx_reach("no command"); }
}
void h_files(void)
{
  int in = sx_choice(4, "input"), out = sx_choice(3, "output"), edit = sx_choice(2, "edit"); nargs = 0; arg("xmq");
  if (in == 1) arg("-"); if (in == 2) arg("in.xmq"); if (in == 3) arg("none.xmq"); if (edit) { arg("delete"); arg("//f"); } if (out == 1) arg("to-json"); if (out == 2) { arg("to-xmq"); arg("--compact"); }
  int rc = xmq(), ok = in != 3; sx_assert((rc == 0) == ok && (out_.n > 0) == ok && (err_.n > 0) == !ok, "the file is printed, or there is a message"); S printed = out_; out_ = (S){0};
  if (ok && !edit) sx_assert(strstr(printed.b, in == 2 ? "file" : "stdin") != NULL, "the content of the source");
  arg("save-to"); arg("out.x"); open_fails = sx_choice(2, "open fails"); write_fails = sx_choice(2, "write fails"); close_fails = sx_choice(2, "close fails"); read_fails = sx_choice(2, "read fails");
  rc = xmq(); int fine = ok && !open_fails && !write_fails && (!close_fails) && !read_fails; sx_assert((rc == 0) == fine, "the status says if the file was saved"); sx_assert((err_.n > 0) == !fine, "a failure has a message"); sx_assert(out_.n == 0, "nothing is printed");
  if (fine) sx_assert(same(saved, printed) && !strcmp(saved_name, "out.x"), "what is saved is what is printed"); sx_assert(handles == 0, "every file is closed"); sx_reach("done");
}
// The program prints what the library makes of a source, or the error of the library.
static void same_as_library(char *src, size_t n)
{
  static const struct { const char *cmd, *opt; XMQContentType ct; int compact, esc; } outs[] = { { NULL, NULL, XMQ_CONTENT_XMQ }, { "to-xmq", "--compact", XMQ_CONTENT_XMQ, 1 }, { "to-xmq", "--escape-newlines", XMQ_CONTENT_XMQ, 0, 1 }, { "to-json", NULL, XMQ_CONTENT_JSON },
    { "to-text", NULL, XMQ_CONTENT_TEXT }, { "to-clines", NULL, XMQ_CONTENT_CLINES }, { "no-output", NULL, 0 } };
  int flag = sx_choice(2, "flag"), k = sx_choice(7, "to"); nargs = 0; arg("xmq"); if (flag) arg("--trim=none"); arg("-i"); arg(src); if (outs[k].cmd) arg(outs[k].cmd); if (outs[k].opt) arg(outs[k].opt);
  XMQDoc *d = xmqNewDoc(); int ok = xmqParseBufferWithType(d, src, src + n, NULL, XMQ_CONTENT_DETECT, flag ? XMQ_FLAG_TRIM_NONE : 0); char *b = NULL, *e = NULL;
  if (ok && outs[k].ct)
  {
    XMQOutputSettings *os = xmqNewOutputSettings(); xmqSetCompact(os, outs[k].compact); xmqSetAddIndent(os, outs[k].compact ? 0 : 4); xmqSetEscapeNewlines(os, outs[k].esc); xmqSetOutputFormat(os, outs[k].ct);
    xmqSetRenderFormat(os, XMQ_RENDER_PLAIN); xmqSetupPrintMemory(os, &b, &e); xmqPrint(d, os); xmqFreeOutputSettings(os);
  }
  int rc = xmq(); sx_assert((rc != 0) == !ok, "the status says if the source was accepted");
  size_t have = out_.n, want = b ? e - b : 0; 
  if (ok) sx_assert(have == want && sx_memeq(out_.b, b ? b : "", have), "the program prints what the library prints");
  if (ok) sx_assert(err_.n == 0, "no message"); else { sx_assert(have == 0, "nothing is printed"); const char *m = xmqDocError(d); sx_assert(m && err_.n == strlen(m) && sx_memeq(err_.b, m, err_.n), "the error message of the library"); }
  sx_reach("done");
}
void h_same_syntax(void) { int n = 1 + sx_choice(B(4, 5), "n"); char *s = sym_alpha(n, "a={}'&%;/*(1\" \n", "source"), *t = malloc(n + 1); memcpy(t, s, n); t[n] = 0; same_as_library(t, n); }
void h_same_bytes(void) { int n = 1 + sx_choice(B(2, 3), "n"); char *s = sym_cstr(n, "source"); sx_assume(s[0] != '-' && cmd_from(s) == XMQ_CLI_CMD_NONE); for (int i = 0; i < n; ++i) sx_assume(s[i] != '<'); same_as_library(s, n); }
