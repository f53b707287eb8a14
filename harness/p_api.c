// C33 all ways of printing print the same, C34 queries
#include "h.h"
#include "canon.h"
#include <libxml/tree.h>
static S std_, err_, own_; static int parts, reject_at;
int fputs(const char *s, FILE *f) { sputs(f == stdout ? &std_ : &err_, s); return 0; }
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { sput(f == stdout ? &std_ : &err_, p, s * n); return n; }
static bool own(void *w, const char *start, const char *stop)
{
  sx_assert(w == &own_, "the state of the writer"); sx_assert(start != NULL, "there is something to write");
  if (!stop) stop = start + strlen(start);
  sx_assert(start <= stop, "the part begins before its end"); sput(&own_, start, stop - start); parts++; return true;
}
static bool own_error(void *w, const char *start, const char *stop) { sx_assert(0, "printing writes no errors"); return true; }
enum { FORMATS = 10 };
static XMQOutputSettings *settings(int f)
{
  static const XMQContentType ct[] = { XMQ_CONTENT_XMQ, XMQ_CONTENT_XMQ, XMQ_CONTENT_JSON, XMQ_CONTENT_JSON, XMQ_CONTENT_TEXT, XMQ_CONTENT_CLINES, XMQ_CONTENT_XMQ, XMQ_CONTENT_XMQ, XMQ_CONTENT_XMQ, XMQ_CONTENT_XML };
  XMQOutputSettings *os = xmqNewOutputSettings(); xmqSetOutputFormat(os, ct[f]); xmqSetCompact(os, f == 1 || f == 3);
  xmqSetRenderFormat(os, f == 6 ? XMQ_RENDER_HTML : f == 7 ? XMQ_RENDER_TEX : f == 8 ? XMQ_RENDER_TERMINAL : XMQ_RENDER_PLAIN); xmqSetUseColor(os, f >= 6 && f < 9); xmqSetupDefaultColors(os); return os;
}
static S memory(XMQDoc *d, XMQOutputSettings *os)
{
  char *b = NULL, *e = NULL; xmqSetupPrintMemory(os, &b, &e); xmqPrint(d, os); sx_assert(b <= e, "the memory"); S s = {0}; sput(&s, b, e - b); return s;
}
static void writers(const char *p, size_t n)
{
  int f = sx_choice(FORMATS, "format"); if (f >= 6 && f < 9) sx_assume(f == 6 + (int)(n % 3));
  XMQDoc *d = xmqNewDoc();
  if (p) { int ok = xmqParseBuffer(d, p, p + n, NULL, 0); sx_assume(ok); sx_reach("parsed"); }
  XMQOutputSettings *os = settings(f); S m = memory(d, os); xmqFreeOutputSettings(os);
  S tree = canon_doc(d);
  switch (sx_choice(3, "way"))
  {
  case 0: os = settings(f); XMQWriter w = { &own_, own }, we = { NULL, own_error }; xmqSetWriterContent(os, w); xmqSetWriterError(os, we); xmqPrint(d, os);
    if (sx_native()) { show("memory", m); show("writer", own_); } sx_assert(same(own_, m), "a writer is given exactly what is printed to memory"); break;
  case 1:
    os = settings(f); xmqSetupPrintStdOutStdErr(os); xmqPrint(d, os); sx_assert(same(std_, m), "standard output is what is printed to memory"); sx_assert(err_.n == 0, "nothing is written to standard error"); break;
  case 2: os = settings(f); S a = memory(d, os), b = memory(d, os); sx_assert(same(a, m) && same(b, m), "printing again prints the same"); break;
  }
  xmqFreeOutputSettings(os);
  S after = canon_doc(d); sx_assert(same(tree, after), "printing again does not change the document"); xmqFreeDoc(d); sx_reach("done");
}
void h_writers_syntax(void) { size_t n = 1 + sx_choice(B(3, 4), "n"); char *p = sym_alpha(n, "a={}'&;/*(1\" \n", "source"); writers(p, n); }
void h_writers_bytes(void) { size_t n = 1 + sx_choice(B(2, 3), "n"); char *p = sym_buf(n, "source"); for (size_t i = 0; i < n; ++i) sx_assume(p[i] != '<'); writers(p, n); }
void h_writers_text(void) { size_t n = B(2, 3); char *p = malloc(n + 9); memcpy(p, "a(b=1 '", 7); char *t = sym_buf(n, "text"); for (size_t i = 0; i < n; ++i) sx_assume(t[i] != '\''); memcpy(p + 7, t, n); memcpy(p + 7 + n, "')", 2); sx_assume(1); p[1] = '{'; p[8 + n] = '}'; sx_assume(is_utf8(t, n)); writers(p, n + 9); }
void h_writers_none(void) { writers(NULL, 0); }
// XML without its declaration: the same but for the first line
void h_omit_decl(void)
{
  size_t n = sx_choice(B(3, 4), "n"); char *p = sym_alpha(n, "a={}'?/*() \n", "source"); int standalone = (int)sx_choice(3, "standalone") - 1, skips = sx_choice(2, "omit");
  XMQDoc *d = xmqNewDoc(); int ok = n && xmqParseBuffer(d, p, p + n, NULL, 0); if (!ok) sx_reach("nothing"); else sx_reach("parsed");
  xmlDoc *x = xmqGetImplementationDoc(d); x->standalone = standalone == -1 ? -1 : standalone;
  XMQOutputSettings *os = settings(9); S m = memory(d, os); xmqFreeOutputSettings(os);
  os = settings(9); xmqSetOmitDecl(os, skips); size_t skip = 99; xmqSetupPrintSkip(os, &skip); S o = memory(d, os); xmqFreeOutputSettings(os);
  sx_assert(same(o, m), "the output itself stays"); size_t want = 0; if (skips) { while (want < m.n && m.b[want] != '\n') want++; want++; }
  sx_assert(skip == want, "what is skipped is the line of the declaration"); sx_assert(m.n > 6 && !memcmp(m.b, "<?xml ", 6), "the output begins with a declaration"); xmqFreeDoc(d); sx_reach("done");
}

// ---- C34: a document written next to the lists of what its queries should find
enum { TOP_A, ALL_A, ALL_X, B_A, ALL_B, STAR, ABSENT, QUERIES };
static const char *const paths[] = { "/r/a", "//a", "//@x", "/r/b/a", "//b", "/r/*", "/r/none" };
static S doc_; static char want_[QUERIES][64]; static int nwant[QUERIES]; static char next_id = '1';
static void found(int q, char id) { want_[q][nwant[q]++] = id; }
static char new_id(void) { char c = next_id++; if (next_id == ':') next_id = 'A'; if (next_id == '[') next_id = 'd'; return c; }
static void items(int depth, int in_b, int n)
{
  for (int i = 0; i < n; ++i)
  {
    char id = new_id(), t[40]; int k = sx_choice(depth ? 5 : 4, "item");
    int top = depth == 1 && !in_b;
    switch (k)
    {
    case 0: snprintf(t, 40, "a=%c ", id); sputs(&doc_, t); if (top) found(TOP_A, id); else if (depth == 0) found(B_A, id); found(ALL_A, id); if (top) found(STAR, id); break;
    case 1: { char x = new_id(); snprintf(t, 40, "a(x=%c y=q)=%c ", x, id); sputs(&doc_, t); if (top) found(TOP_A, id); else found(B_A, id); found(ALL_A, id); found(ALL_X, x); if (top) found(STAR, id); break; }
    case 2: snprintf(t, 40, "c=%c ", id); sputs(&doc_, t); if (top) found(STAR, id); break;
    case 3: sputs(&doc_, "//none=a\n"); break;
    case 4: sputs(&doc_, "b{'"); sput1(&doc_, id); sputs(&doc_, "' "); found(ALL_B, id); found(STAR, id); items(0, 1, sx_choice(B(2, 3), "inner")); sputs(&doc_, "}"); break;
    }
  }
}
static S got_; static int stop_at, calls; static char *user = "user"; static XMQDoc *d_;
static char only(const char *s) { sx_assert(s && s[0] && !s[1], "the content of the node"); return s[0]; }
static XMQProceed each(XMQDoc *d, XMQNode *n, void *u)
{
  sx_assert(d == d_ && u == user, "the callback is given the document and what it asked for"); calls++; sput1(&got_, only(xmqGetContent(n)));
  sx_assert(!xmqGetName(n)[1] && in_set(xmqGetName(n)[0], "abcx"), "the name of the node");
  return calls == stop_at ? XMQ_STOP : XMQ_CONTINUE;
}
static XMQProceed inner(XMQDoc *d, XMQNode *n, void *u)
{
  sx_assert(!strcmp(xmqGetName(n), "b"), "the name of the node"); S before = {0}; sputs(&before, xmqGetContent(n)); sput1(&before, 0);
  calls = 0; int h = xmqForeachRel(d, "a", each, user, n); if (stop_at == 0) sx_assert(h == calls, "one call for each match");
  sx_assert(!strcmp(before.b, xmqGetContent(n)), "the outer query goes on"); return XMQ_CONTINUE;
}
void h_queries(void)
{
  sputs(&doc_, "r{"); items(1, 0, sx_choice(4, "items")); sputs(&doc_, "}");
  d_ = xmqNewDoc(); sx_assert(xmqParseBuffer(d_, doc_.b, doc_.b + doc_.n, NULL, 0), "the document is XMQ"); int q = sx_choice(QUERIES + 1, "query");
  if (q == QUERIES)
  {
    int h = xmqForeach(d_, "/r/b", inner, NULL); sx_assert(h == nwant[ALL_B], "the number of matches");
    sx_assert(got_.n == (size_t)nwant[B_A] && (!got_.n || !memcmp(got_.b, want_[B_A], got_.n)), "queries relative to a node see its children");
  }
  else
  {
    int n = nwant[q]; stop_at = sx_choice(3, "stop at");
    sx_assert(xmqForeach(d_, paths[q], NULL, user) == n, "without a callback matches are counted");
    int h = xmqForeach(d_, paths[q], each, user), c = stop_at && stop_at < n ? stop_at : n;
    if (sx_native()) { sput1(&doc_, 0); fprintf(stderr, "%s %s: %d hits, %d calls, want %d\n", doc_.b, paths[q], h, calls, n); }
    sx_assert(h == n, "the number of matches"); sx_assert(calls == c, "each match once, until the callback stops");
    sx_assert(got_.n == (size_t)c && (!c || !memcmp(got_.b, want_[q], c)), "matches in the order of the document");
    const char *s = xmqGetString(d_, paths[q]); sx_assert(n ? only(s) == want_[q][0] : s == NULL, "the first match"); sx_assert(xmqGetInt(d_, paths[q]) == (n && want_[q][0] <= '9' ? want_[q][0] - '0' : 0), "the number of the first match");
  }
  S tree = canon_doc(d_); (void)tree; xmqFreeDoc(d_); sx_reach("done");
}
// relative queries, from every element and attribute, with or without children; the harness walks the tree
static int nseen; static xmlNode *seen[16];
static XMQProceed collect(XMQDoc *d, XMQNode *n, void *u) { if (nseen < 16) seen[nseen++] = n->node; return XMQ_CONTINUE; }
static void kids(S *s, int depth, int n)
{
  for (int i = 0; i < n; ++i)
  {
    int k = sx_choice(depth ? 6 : 5, "item");
    if (k < 5) { static const char *const l[] = { "a=1 ", "a(x=012)\n", "a\n", "c(y=1 x=-7)=0x1F ", "//n\n" }; sputs(s, l[k]); continue; }
    sputs(s, sx_choice(2, "attribute") ? "b(x=5){" : "b{"); kids(s, depth - 1, sx_choice(2, "inner")); sputs(s, "}");
  }
}
static long value_of(xmlNode *n) { const char *c = n && n->children ? (char*)n->children->content : NULL; return !c ? 0 : !strcmp(c, "1") ? 1 : !strcmp(c, "012") ? 10 : !strcmp(c, "-7") ? -7 : !strcmp(c, "0x1F") ? 31 : !strcmp(c, "5") ? 5 : 0; }
static void from_node(XMQDoc *d, xmlNode *at)
{
  static const char *const rel[] = { "@x", "*", "a", "b/a", "b/@x", "/r/a", "none" };
  for (int q = 0; q < 7; ++q)
  {
    xmlNode *want[16]; int n = 0; xmlNode *base = q == 5 ? xmlDocGetRootElement((xmlDoc*)xmqGetImplementationDoc(d)) : at, *k = base->type == XML_ELEMENT_NODE ? base->children : NULL; xmlAttr *x = base->type == XML_ELEMENT_NODE ? base->properties : NULL;
    if (q == 0) { for (; x; x = x->next) if (!strcmp((char*)x->name, "x")) want[n++] = (xmlNode*)x; }
    else for (; k; k = k->next)
    {
      if (k->type != XML_ELEMENT_NODE) continue; const char *m = (char*)k->name;
      if (q == 1 || ((q == 2 || q == 5) && !strcmp(m, "a"))) want[n++] = k;
      if (q == 3 && !strcmp(m, "b")) for (xmlNode *j = k->children; j; j = j->next) if (j->type == XML_ELEMENT_NODE && !strcmp((char*)j->name, "a")) want[n++] = j;
      if (q == 4 && !strcmp(m, "b")) for (xmlAttr *j = k->properties; j; j = j->next) want[n++] = (xmlNode*)j;
    }
    XMQNode node; memset(&node, 0, sizeof node); node.node = at; nseen = 0; int h = xmqForeachRel(d, rel[q], collect, NULL, &node);
    if (sx_native()) fprintf(stderr, "%s from %s: %d, want %d\n", rel[q], (char*)at->name, h, n);
    sx_assert(h == n && nseen == n && (!n || !memcmp(seen, want, n * sizeof *want)), "a relative query starts at the node"); sx_assert(node.node == at, "the node is left alone");
    long v = value_of(n ? want[0] : NULL); const char *str = xmqGetStringRel(d, rel[q], &node), *c = n && want[0]->children ? (char*)want[0]->children->content : NULL;
    sx_assert(c ? str && !strcmp(str, c) : str == NULL, "the string relative to the node");
    sx_assert(xmqGetIntRel(d, rel[q], &node) == v && xmqGetLongRel(d, rel[q], &node) == v, "the number relative to the node");
  }
}
static void each_node(XMQDoc *d, xmlNode *n)
{
  for (; n; n = n->next) if (n->type == XML_ELEMENT_NODE) { from_node(d, n); for (xmlAttr *x = n->properties; x; x = x->next) from_node(d, (xmlNode*)x); each_node(d, n->children); }
}
void h_relative(void)
{
  S s = {0}; sputs(&s, "r{"); kids(&s, 2, sx_choice(B(3, 4), "items")); sputs(&s, "}"); XMQDoc *d = xmqNewDoc(); sx_assert(xmqParseBuffer(d, s.b, s.b + s.n, NULL, 0), "the document is XMQ"); if (sx_native()) { sput1(&s, 0); fprintf(stderr, "%s\n", s.b); }
  each_node(d, xmlDocGetRootElement((xmlDoc*)xmqGetImplementationDoc(d))); xmqFreeDoc(d); sx_reach("done");
}
// numbers: decimal with an optional sign, 0x hexadecimal, 0 octal
static int sx_sel_digit(int c) { int l = c | 32, d = (c >= '0') & (c <= '9'), h = (l >= 'a') & (l <= 'z'); return d * (c - '0') + h * (l - 'a' + 10) + !(d | h) * 99; }   // no branches
static void number(size_t min, size_t max, int kind, int where)
{
  size_t n = min + sx_choice(max - min + 1, "n"), o = 0; char *t = malloc(24); int neg = 0; unsigned long v = 0; int base = kind == 0 ? 10 : kind == 1 ? 16 : 8, over = 0;
  if (kind == 0 && sx_choice(2, "minus")) { t[o++] = '-'; neg = 1; } if (kind) t[o++] = '0'; if (kind == 1) t[o++] = 'x';
  for (size_t i = 0; i < n; ++i)
  {
    sx_bytes(t + o, 1, "digit"); char c = t[o++]; sx_assume(kind == 0 ? (c >= '0') & (c <= '9') : kind == 1 ? ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')) : (c >= '0') & (c <= '7'));
    if (!i && kind == 0) sx_assume(n == 1 || c != '0');
    int dg = sx_sel_digit(c); v = v * base + dg;
  }
  t[o] = 0;
  S s = {0}; sputs(&s, where == 0 ? "r{v=" : where == 1 ? "r(v=" : "r{v='"); sputs(&s, t); sputs(&s, where == 0 ? " v=77}" : where == 1 ? " w=77){v=5}" : "'v=9}");
  XMQDoc *d = xmqNewDoc(); sx_assert(xmqParseBuffer(d, s.b, s.b + s.n, NULL, 0), "the document is XMQ");
  const char *x = where == 1 ? "/r/@v" : "/r/v", *g = xmqGetString(d, x); sx_assert(g && strlen(g) == o && sx_memeq(g, t, o), "the string is the content");
  long w = neg ? -(long)v : (long)v;
  long l = xmqGetLong(d, x); if (sx_native()) sput1(&s, 0), fprintf(stderr, "%s: long %ld int %d\n", s.b, l, (int)xmqGetInt(d, x));
  sx_assert(l == w, "the number as long"); 
  if (w >= -2147483647L - 1 && w <= 2147483647L) { sx_assert(xmqGetInt(d, x) == (int)w, "the number as int"); sx_reach("int"); } else sx_reach("long");
  XMQNode node; sx_assert(xmqGetLong(d, "/r/none") == 0 && xmqGetInt(d, "/r/none") == 0 && !xmqGetString(d, "/r/none"), "nothing is found"); (void)node;
  xmqFreeDoc(d); sx_reach("done");
}
void h_number_short(void) { int k = sx_choice(3, "kind"); number(1, B(3, 4), k, sx_choice(3, "where")); }
void h_number_long(void) { int k = sx_choice(3, "kind"); size_t n = k == 0 ? B(11, 12) : k == 1 ? B(9, 12) : 12; number(n, n, k, 0); }
