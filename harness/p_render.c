// C21: highlighted renderings show the plain text
#include "p_print.c"
static char *render(XMQDoc *d, int format, int compact, int raw, int dark, size_t *len)
{
  XMQOutputSettings *os = xmqNewOutputSettings();
  xmqSetOutputFormat(os, XMQ_CONTENT_XMQ); xmqSetCompact(os, compact); xmqSetRenderFormat(os, format); xmqSetUseColor(os, true); xmqSetRenderRaw(os, raw); xmqSetBackgroundMode(os, dark);
  char *b = NULL, *e = NULL;
  xmqSetupDefaultColors(os);
  xmqSetupPrintMemory(os, &b, &e);
  xmqPrint(d, os);
  xmqFreeOutputSettings(os);
  *len = e - b;
  return b;
}
static const char *find(const char *b, const char *e, const char *w) { size_t l = strlen(w); for (; b + l <= e; ++b) if (!memcmp(b, w, l)) return b; return NULL; }
static int starts(const char *b, const char *e, const char *w) { size_t l = strlen(w); return (size_t)(e - b) >= l && !memcmp(b, w, l); }
static const char *const names[] = { "xmqC", "xmqQ", "xmqE", "xmqNS", "xmqEN", "xmqEK", "xmqEKV", "xmqAK", "xmqAKV", "xmqCP", "xmqNSD", "xmqUW", "xmqXSL" };
enum { NNAMES = 13 };
static int name_at(const char *b, const char *e, char end) { for (int k = 0; k < NNAMES; ++k) { size_t l = strlen(names[k]); if ((size_t)(e - b) > l && !memcmp(b, names[k], l) && b[l] == end) return k; } return -1; }
// what a reader of the rendering sees
static S seen_html(const char *b, const char *e)
{
  S s = {0}; int open[8], n = 0;
  const char *p = find(b, e, "<pre "); sx_assert(p != NULL, "the content is inside of pre");
  while (p < e && *p != '>') p++;
  for (p++;;)
  {
    sx_assert(p < e, "the content ends");
    if (*p == '<')
    {
      if (starts(p, e, "</pre>")) { sx_assert(n == 0, "all elements are closed"); break; }
      if (p[1] == '/') { int k = name_at(p + 2, e, '>'); sx_assert(n > 0 && k == open[n - 1], "elements nest"); n--; p += 3 + strlen(names[k]); }
      else { int k = name_at(p + 1, e, '>'); sx_assert(k >= 0, "only the markup of xmq is in the output"); sx_assert(n < 8, "elements nest"); open[n++] = k; p += 2 + strlen(names[k]); }
    }
    else if (*p == '&')
    {
      if (starts(p, e, "&amp;")) { sput1(&s, '&'); p += 5; } else if (starts(p, e, "&lt;")) { sput1(&s, '<'); p += 4; }
      else if (starts(p, e, "&gt;")) { sput1(&s, '>'); p += 4; } else if (starts(p, e, "&quot;")) { sput1(&s, '"'); p += 6; } else sx_assert(0, "an ampersand of the content is escaped");
    }
    else { sx_assert(*p != '>', "a > of the content is escaped"); sput1(&s, *p++); }
  }
  return s;
}
static S seen_tex(const char *b, const char *e)
{
  S s = {0}; int n = 0;
  const char *p = find(b, e, "\\texttt{\\flushleft\\noindent "); sx_assert(p != NULL, "the content is inside of texttt"); p += 28;
  static const char *const esc[] = { "\\xmqI ", " ", "\\linebreak\n", "\n", "\\&", "&", "\\#", "#", "\\{", "{", "\\}", "}", "\\_", "_", "{'}", "'", "\\$", "$", "\\%", "%", "\\textbackslash{}", "\\", "\\^{}", "^", "\\~{}", "~" };
  for (;;)
  {
    sx_assert(p < e, "the content ends");
    int hit = 0;
    for (int k = 0; k < 26 && !hit; k += 2) if (starts(p, e, esc[k])) { sputs(&s, esc[k + 1]); p += strlen(esc[k]); hit = 1; }
    if (hit) continue;
    if (*p == '\\') { int k = name_at(p + 1, e, '{'); sx_assert(k >= 0, "only the commands of xmq are in the output"); n++; p += 2 + strlen(names[k]); continue; }
    if (*p == '}') { sx_assert(n > 0, "braces match"); n--; p++; continue; }
    if (n == 0 && starts(p, e, "\n}\n")) break;
    sx_assert(!in_set(*p, "{$&#^_%~"), "a special character of the content is escaped");
    sput1(&s, *p++);
  }
  return s;
}
static S seen_terminal(const char *b, const char *e)
{
  S s = {0};
  for (const char *p = b; p < e; )
  {
    if (*p == 27)
    {
      sx_assert(p + 1 < e && p[1] == '[', "only colour codes"); p += 2;
      while (p < e && ((*p >= '0' && *p <= '9') || *p == ';')) p++;
      sx_assert(p < e && *p == 'm', "only colour codes"); p++;
    }
    else sput1(&s, *p++);
  }
  return s;
}
static S seen(int f, const char *b, const char *e) { return f == XMQ_RENDER_HTML ? seen_html(b, e) : f == XMQ_RENDER_TEX ? seen_tex(b, e) : seen_terminal(b, e); }
static int style = 3;
static void rendered_doc(XMQDoc *d, int mode, int f)
{
  static const int fs[] = { XMQ_RENDER_TERMINAL, XMQ_RENDER_HTML, XMQ_RENDER_TEX };
  size_t n, m; char *a = render(d, XMQ_RENDER_PLAIN, mode, 0, 0, &n);
  uint64_t live = sx_live_objects();
  char *b = render(d, fs[f], mode, style & 1, style >> 1, &m);
  sx_assert(sx_live_objects() - live <= (sx_native() ? 2 * m + 200 : 1), "nothing is leaked");
  if (n && a[n - 1] == '\n') n--;
  if (sx_native()) fprintf(stderr, "%.*s\n---\n%.*s\n---\n", (int)n, a, (int)m, b);
  S s = seen(fs[f], b, b + m - (f == 0 && m && b[m - 1] == '\n'));
  if (sx_native()) fprintf(stderr, "%.*s\n---\n%.*s\n---\n%.*s\n", (int)n, a, (int)m, b, (int)s.n, s.b);
  sx_assert(s.n == n && sx_memeq(s.b, a, n), "the rendering shows the plain text");
  sx_reach(f == 0 ? "terminal" : f == 1 ? "html" : "tex");
  free(s.b); free(a); free(b); xmqFreeDoc(d);
}
static void render_text(const char *t, int places)
{
  int place = sx_choice(places, "place"), mode = sx_choice(2, "compact"), f = sx_choice(3, "format");
  XMQDoc *d = xmqNewDoc(); xmlNode *r = el(d, NULL, "a"), *k;
  switch (place)
  {
  case 0: tx(d, el(d, r, "b"), t); el(d, r, "c"); break;
  case 1: at(d, r, "x", t); el(d, r, "b"); break;
  case 2: cm(d, r, t); tx(d, r, t); break;
  case 3: k = el(d, el(d, r, "b"), "c"); tx(d, k, t); er(d, k, "nbsp"); break;
  case 4: pi(d, r, "p", t); break;
  }
  rendered_doc(d, mode, f);
}
void h_render_bytes(void) { char *t = text_bytes(B(2, 3)); for (char *i = t, l = 0; *i; l = *i++) { sx_assume(*i != '\r'); sx_assume(l != '?' || *i != '>'); } render_text(t, 5); }
void h_render_style(void) { style = sx_choice(4, "style"); char *t = text_alpha(2, "<&>a\n\\$'"); render_text(t, 4); }
void h_render_special(void) { char *t = text_alpha(1 + sx_choice(B(3, 4), "n"), "<&>\"'a"); render_text(t, 4); }
void h_render_tex(void) { char *t = text_alpha(1 + sx_choice(B(3, 3), "n"), "\\{}$%#_^~&'"); render_text(t, 4); }
void h_render_blanks(void) { char *t = text_alpha(1 + sx_choice(B(4, 5), "n"), "' a\n\t"); render_text(t, 4); }
// colouring of the tokens of an accepted text
static char *colour(char *b, size_t n, int f, size_t *len)
{
  static const int fs[] = { XMQ_RENDER_TERMINAL, XMQ_RENDER_HTML, XMQ_RENDER_TEX };
  XMQOutputSettings *os = xmqNewOutputSettings(); char *p = NULL, *e = NULL;
  xmqSetRenderFormat(os, fs[f]); xmqSetUseColor(os, true); xmqSetRenderRaw(os, true);
  xmqSetupDefaultColors(os); xmqSetupPrintMemory(os, &p, &e);
  XMQParseCallbacks *c = xmqNewParseCallbacks(); xmqSetupParseCallbacksColorizeTokens(c, fs[f]);
  XMQParseState *st = xmqNewParseState(c, os);
  int ok = xmqTokenizeBuffer(st, b, b + n);
  xmqFreeParseState(st); xmqFreeParseCallbacks(c); xmqFreeOutputSettings(os);
  *len = e - p; return ok ? p : NULL;
}
static void tokens_shown(char *b, size_t n)
{
  static const int fs[] = { XMQ_RENDER_TERMINAL, XMQ_RENDER_HTML, XMQ_RENDER_TEX };
  int f = sx_choice(3, "format"); size_t m;
  for (size_t i = 0; i < n; ++i) sx_assume(b[i] != 27 && (b[i] || 1));
  char *p = colour(b, n, f, &m);
  if (!p) { sx_reach("rejected"); return; }
  S s = seen(fs[f], p, p + m);
  if (sx_native()) fprintf(stderr, "%.*s\n---\n%.*s\n---\n%.*s\n", (int)n, b, (int)m, p, (int)s.n, s.b);
  sx_assert(s.n == n && sx_memeq(s.b, b, n), "the coloured tokens show the text");
  free(s.b); free(p);
  sx_reach("done");
}
void h_colour_template(void) { size_t n; int h = sx_choice(1 + B(2, 3), "holes"); char *b = template(h, &n); tokens_shown(b, n); }
void h_colour_bytes(void) { int n = 1 + sx_choice(B(3, 4), "n"); tokens_shown(sym_buf(n, "src"), n); }
// every sequence of children of every kind, and long texts
void h_render_tree(void)
{
  int mode = sx_choice(2, "compact"), f = sx_choice(3, "format"), n = 1 + sx_choice(B(2, 3), "children");
  XMQDoc *d = xmqNewDoc(); xmlNode *r = el(d, NULL, "a"); if (sx_choice(2, "deep")) { r = el(d, r, "bb"); at(d, r, "x", "y"); }
  for (int i = 0; i < n; ++i) child(d, r, sx_choice(20, "kind"));
  rendered_doc(d, mode, f);
}
void h_render_runs(void) { render_text(text_runs("'\n <\\", "' a\n&"), 4); }
void h_colour_long(void) { nesting = 130; size_t n; char *b = repeated(counts, B(8, 25), sx_choice(1 + B(1, 2), "holes"), &n); tokens_shown(b, n); }
