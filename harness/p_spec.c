// C28: the document is what the specification (doc/xmq.tex) says about the source
#include "h.h"
#include "templates.h"
#include "canon.h"
#include "trim.h"
// A parser written from the specification. It gives the canonical form of the tree, rejects, or leaves it open: names with
// unusual characters, namespaces, doctypes, processing instructions, carriage returns and text that is not ASCII between the tokens.
typedef struct { const char *b, *i, *e; S out; int open, text, nodes; } R;
static int at_ws(R *r) { return r->i < r->e && (*r->i == ' ' || *r->i == '\n'); }
static int peek(R *r) { if (r->i >= r->e) return -1; if ((*r->i & 0x80) || (*r->i < ' ' && *r->i != '\t' && *r->i != '\n')) { r->open = 1; return -1; } return *r->i; }
static void skip(R *r) { peek(r); while (at_ws(r)) r->i++; peek(r); }
static int letter(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static int name_char(int c) { return letter(c) || (c >= '0' && c <= '9') || c == '-' || c == '.'; }
static size_t column(R *r, const char *p) { size_t c = 0; for (const char *i = r->b; i < p; ++i) if (*i == '\n') c = 0; else if ((*i & 0xc0) != 0x80) c++; return c; }
static void text(R *r, const char *t, size_t n) { if (!n) return; if (!r->text) sputs(&r->out, "\x01T"); r->text = 1; sput(&r->out, t, n); }
static int quote(R *r)
{
  const char *start = r->i; size_t d = 0; while (r->i < r->e && *r->i == '\'') { r->i++; d++; }
  if (d == 2) return 1;
  // an opening run of 4 or more quotes may be read in several ways when nothing else is inside
  const char *c = r->i; size_t run = 0;
  while (r->i < r->e && run < d) { if (*r->i == '\r') r->open = 1; run = *r->i == '\'' ? run + 1 : 0; r->i++; }
  if (run < d) return 0;
  if (r->i < r->e && *r->i == '\'') r->open = 1;
  size_t n = r->i - c - d;
  split_tab = 0; char *t = trim_ref(column(r, start) + d, c, n); if (split_tab) r->open = 1;
  text(r, t, strlen(t)); free(t); return 1;
}
static int entity(R *r)
{
  const char *s = ++r->i; while (r->i < r->e && (name_char(*r->i) || *r->i == '#')) r->i++;
  if (r->i == r->e) { r->open = 1; return 0; }
  int c = peek(r); if (c != ';') { int hex = 1; for (const char *p = s; p < r->i; ++p) hex &= (*p >= '0' && *p <= '9') || (*p >= 'a' && *p <= 'f'); if (hex || c < 0 || r->i == s || !in_set(c, " \t\n(){}'\"")) { r->open = 1; } return 0; }
  size_t n = r->i - s; if (n == 0) { r->open = 1; return 0; }
  if (*s == '#')
  {
    long v = 0; int hex = n > 1 && s[1] == 'x'; if (n < 2 + (size_t)hex) { r->open = 1; return 0; }
    for (size_t k = 1 + hex; k < n; ++k) { int h = s[k] >= '0' && s[k] <= '9' ? s[k] - '0' : hex && (s[k] | 32) >= 'a' && (s[k] | 32) <= 'f' ? (s[k] | 32) - 'a' + 10 : -1; if (h < 0) { r->open = 1; return 0; } v = v * (hex ? 16 : 10) + h; if (v > 0x110000) v = 0x110000; }
    if (v == 0 || v >= 0x110000 || (v >= 0xd800 && v < 0xe000) || v == '\r') { r->open = 1; return 0; }
  }
  else for (size_t k = 0; k < n; ++k) if (s[k] == '#' || (k == 0 && !letter(s[k]))) { r->open = 1; return 0; }
  char *x = malloc(n + 1); memcpy(x, s, n); x[n] = 0; S t = {0}; ref(&t, x); text(r, t.b, t.n); free(t.b); free(x);
  r->i++; return 1;
}
static int value_char(int c) { return c > ' ' && !in_set((char)c, "(){}'\""); }
static int value(R *r)
{
  skip(r); int c = peek(r);
  if (c < 0 || c == '}' || c == ')') { r->open = 1; return 0; }  // no value
  if (c == '\'') return quote(r);
  if (c == '&') return entity(r);
  if (c == '(')
  {
    r->i++;
    for (;;) { skip(r); c = peek(r); if (c == ')') { r->i++; return 1; } if (c == '\'') { if (!quote(r)) return 0; } else if (c == '&') { if (!entity(r)) return 0; } else return 0; }
  }
  if (c == '=' || (c == '/' && r->i + 1 < r->e && (r->i[1] == '/' || r->i[1] == '*')) || c < 0 || !value_char(c)) return 0;
  const char *s = r->i; while ((c = peek(r)) >= 0 && value_char(c)) { r->i++; }
  if (c >= 0 && c < ' ' && c != '\t' && c != '\n') r->open = 1;
  text(r, s, r->i - s); return 1;
}
static int name(R *r, const char **s, size_t *n)
{
  *s = r->i; int c = peek(r);
  if (!letter(c)) { if (c >= 0 && !in_set((char)c, "=(){}'&\t\"")) r->open = 1; return 0; }
  while ((c = peek(r)) >= 0 && name_char(c)) r->i++;
  *n = r->i - *s;
  if (c >= 0 && !in_set((char)c, " \t\n=(){}'&\"/")) r->open = 1;
  if (*n >= 3 && (**s | 32) == 'x' && ((*s)[1] | 32) == 'm' && ((*s)[2] | 32) == 'l') r->open = 1;
  return !r->open;
}
static int nodes(R *r, int depth);
static int element(R *r)
{
  const char *s; size_t n; if (!name(r, &s, &n)) return 0;
  if (peek(r) == '/') r->open = 1;
  r->text = 0; sputs(&r->out, "\x01<"); sput(&r->out, s, n);
  skip(r);
  if (peek(r) == '(')
  {
    r->i++;
    for (;;)
    {
      skip(r); int c = peek(r); if (c == ')') { r->i++; break; }
      if (!name(r, &s, &n)) return 0;
      sputs(&r->out, "\x01@"); sput(&r->out, s, n); sputs(&r->out, "\x01=");
      skip(r); if (peek(r) == '=') { r->i++; r->text = 1; if (!value(r)) return 0; }
      if (r->open) return 0;
    }
    r->text = 0; skip(r);
  }
  sputs(&r->out, "\x01{"); r->text = 0;
  int c = peek(r);
  if (c == '=') { r->i++; if (!value(r)) return 0; }
  else if (c == '{') { r->i++; if (!nodes(r, 1)) return 0; r->i++; }
  sputs(&r->out, "\x01}"); r->text = 0; return 1;
}
static int comment(R *r)
{
  size_t d = 0; while (r->i < r->e && *r->i == '/') { r->i++; d++; }
  S c = {0}; int ok = 1;
  if (r->i < r->e && *r->i == '*')
  {
    for (;;)
    {
      r->i++; const char *s = r->i;
      for (;; r->i++)
      {
        if (r->i >= r->e) { ok = 0; break; }
        if (*r->i == '\r') r->open = 1;
        if (*r->i == '*') { size_t k = 0; while (r->i + 1 + k < r->e && k < d && r->i[1 + k] == '/') k++; if (k == d) break; }
      }
      if (!ok) break;
      char *t = trim_ref(column(r, s), s, r->i - s); sputs(&c, t); free(t); r->i += 1 + d;
      if (r->i < r->e && *r->i == '/') r->open = 1;
      if (r->i < r->e && *r->i == '*') { sput1(&c, '\n'); continue; }
      break;
    }
  }
  else if (d < 2) ok = 0;
  else
  {
    if (d > 2) r->open = 1;   // more slashes than needed
    const char *s = r->i; while (r->i < r->e && *r->i != '\n') { if (*r->i == '\r') r->open = 1; r->i++; }
    sput(&c, s, r->i - s);
  }
  if (ok) { sput1(&c, 0); r->text = 0; sputs(&r->out, "\x01#"); canon_comment(&r->out, c.b); }
  free(c.b); return ok;
}
static int nodes(R *r, int depth)
{
  for (;;)
  {
    skip(r); int c = peek(r);
    if (r->open) return 0;
    if (c < 0) return depth == 0;
    if (c == '}') return depth > 0;
    r->nodes = 1;
    int ok = c == '\'' ? quote(r) : c == '&' ? entity(r) : c == '/' ? comment(r) : element(r);
    if (!ok || r->open) return 0;
  }
}
static void means(char *b, size_t n)
{
  sx_assume(is_utf8(b, n)); for (size_t i = 0; i < n; ++i) sx_assume(b[i] != 0);
  size_t f = 0; while (f < n && (b[f] == ' ' || b[f] == '\n' || b[f] == '\t')) f++;
  static const char *const words[] = { "true", "false", "null" }; for (int i = 0; i < 3; ++i) { size_t l = strlen(words[i]); sx_assume(n - f < l || memcmp(b + f, words[i], l)); }  // JSON
  R r = { b, b, b + n, {0}, 0, 0, 0 }; canon_mode = 1;
  int want = nodes(&r, 0); sx_assume(!r.open && r.nodes);
  XMQDoc *d = xmqNewDoc(); int got = xmqParseBuffer(d, b, b + n, NULL, 0);
  if (sx_native()) fprintf(stderr, "%.*s\nwant %d, got %d\n", (int)n, b, want, got);
  sx_assert(want || !got, "text that breaks the grammar is rejected"); sx_assert(got || !want, "text of the grammar is accepted");
  if (want)
  {
    S s = canon_doc(d); if (sx_native() && !same(s, r.out)) { show("want", r.out); show("got", s); }
    sx_assert(same(s, r.out), "the document is what the source says"); free(s.b); sx_reach("accepted");
  }
  else sx_reach("rejected");
  free(r.out.b); xmqFreeDoc(d);
}
void h_spec_template(void) { size_t n; char *b = template(sx_choice(1 + B(4, 5), "holes"), &n); means(b, n); }
void h_spec_edit(void) { size_t n; char *b = edited(sx_choice(1 + B(2, 2), "holes"), &n); means(b, n); }
void h_spec_bytes(void) { int n = 1 + sx_choice(B(5, 6), "n"); means(sym_buf(n, "src"), n); }
void h_spec_syntax(void) { int n = B(7, 8); means(sym_alpha(n, "a='\n(){}/*& ", "src"), n); }
void h_spec_quotes(void) { int n = B(8, 10), v = sx_choice(3, "place"); static const char *const pre[] = { "", "a=", "a(b=" }, *const post[] = { "", "", ")" }; char *q = sym_alpha(n, "'a\n ", "q"), *b = malloc(n + 8); size_t l = strlen(pre[v]); memcpy(b, pre[v], l); memcpy(b + l, q, n); memcpy(b + l + n, post[v], strlen(post[v])); n += l + strlen(post[v]); char *x = malloc(n); memcpy(x, b, n); means(x, n); }
void h_spec_comments(void) { int n = B(10, 12); means(sym_alpha(n, "/*a\n", "c"), n); }
void h_spec_values(void) { int n = B(7, 9); char *q = sym_alpha(n, "a'(&#1;) =/{", "q"), *b = malloc(n + 2); b[0] = 'a'; b[1] = '='; memcpy(b + 2, q, n); means(b, n + 2); }
void h_spec_attrs(void) { int n = B(8, 9); char *q = sym_alpha(n, "ab'(&;) =", "q"), *b = malloc(n + 3); b[0] = 'a'; b[1] = '('; memcpy(b + 2, q, n); b[n + 2] = ')'; means(b, n + 3); }
void h_spec_structure(void) { int n = B(10, 12); means(sym_alpha(n, "a{}= ", "src"), n); }
static const int counts[] = { 5, 8, 9, 16, 17, 33, 65, 130, 257, 4, 6, 7, 10, 12, 15, 31, 32, 64, 100, 127, 128, 129, 255, 256, 300 };
void h_spec_long(void) { nesting = 130; size_t n; char *b = repeated(counts, B(9, 25), sx_choice(1 + B(1, 2), "holes"), &n); means(b, n); }
