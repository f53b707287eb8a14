// C05..C08, C14, C20, C22, C24: printing XMQ and reading it back
#include "h.h"
#include "templates.h"
#include "canon.h"
#include <stdarg.h>
// ---- building documents
static xmlDocPtr xml(XMQDoc *d) { return xmqGetImplementationDoc(d); }
static void link1(xmlNode *p, xmlNode *c) { c->parent = p; c->prev = p->last; if (p->last) p->last->next = c; else p->children = c; p->last = c; }   // never merges text
static xmlNode *el(XMQDoc *d, xmlNode *p, const char *name)
{
  xmlNode *n = xmlNewDocNode(xml(d), NULL, (xmlChar*)name, NULL);
  if (p) link1(p, n); else link1((xmlNode*)xml(d), n);
  return n;
}
static xmlNode *tx(XMQDoc *d, xmlNode *p, const char *t) { xmlNode *n = xmlNewDocText(xml(d), (xmlChar*)t); link1(p, n); return n; }
static xmlNode *cm(XMQDoc *d, xmlNode *p, const char *t) { xmlNode *n = xmlNewDocComment(xml(d), (xmlChar*)t); link1(p, n); return n; }
static xmlNode *er(XMQDoc *d, xmlNode *p, const char *t) { xmlNode *n = xmlNewReference(xml(d), (xmlChar*)t); n->children = n->last = NULL; link1(p, n); return n; }
static xmlNode *pi(XMQDoc *d, xmlNode *p, const char *k, const char *t) { xmlNode *n = (xmlNode*)xmlNewDocPI(xml(d), (xmlChar*)k, (xmlChar*)t); link1(p, n); return n; }
static void at(XMQDoc *d, xmlNode *p, const char *k, const char *v) { xmlNewProp(p, (xmlChar*)k, (xmlChar*)v); }
// ---- options
static int indent = 4;
enum { PRETTY = 0, COMPACT = 1, ESC_NL = 2, ESC_TAB = 4, ESC_7BIT = 8 };
static char *print_doc(XMQDoc *d, int mode, size_t *len)
{
  XMQOutputSettings *os = xmqNewOutputSettings();
  xmqSetOutputFormat(os, XMQ_CONTENT_XMQ);
  xmqSetCompact(os, (mode & COMPACT) != 0);
  if (indent != 4) xmqSetAddIndent(os, indent);
  xmqSetEscapeNewlines(os, (mode & ESC_NL) != 0);
  xmqSetEscapeTabs(os, (mode & ESC_TAB) != 0);
  xmqSetEscapeNon7bit(os, (mode & ESC_7BIT) != 0);
  xmqSetRenderFormat(os, XMQ_RENDER_PLAIN);
  char *b = NULL, *e = NULL;
  xmqSetupPrintMemory(os, &b, &e);
  xmqPrint(d, os);
  xmqFreeOutputSettings(os);
  *len = e - b;
  return b;
}
static void no_literal(xmlNode *n, int mode);
static void no_literal_text(const xmlChar *c, int mode)
{
  int bad = 0;
  for (; c && *c; ++c) bad |= ((mode & ESC_NL) && *c == '\n') | ((mode & ESC_TAB) && *c == '\t') | ((mode & ESC_7BIT) && *c > 126);
  sx_assert(!bad, "a character that has to be escaped is printed literally in a value");
}
static void no_literal(xmlNode *n, int mode)
{
  for (; n; n = n->next)
  {
    if (n->type == XML_TEXT_NODE) no_literal_text(n->content, mode);
    if (n->type == XML_ELEMENT_NODE) { for (xmlAttr *a = n->properties; a; a = a->next) no_literal(a->children, mode); no_literal(n->children, mode); }
  }
}
static int oneline(const char *b, size_t n) { if (n && b[n - 1] == '\n') n--; for (size_t i = 0; i < n; ++i) if (b[i] == '\n' || b[i] == '\r') return 0; return 1; }
static XMQDoc *reparse(const char *b, size_t n, const char *what)
{
  char *x = malloc(n ? n : 1); memcpy(x, b, n);
  XMQDoc *d = xmqNewDoc();
  int ok = xmqParseBuffer(d, x, x + n, NULL, 0);
  if (!ok && sx_native()) fprintf(stderr, "%.*s\n%s\n", (int)n, b, xmqDocError(d));
  sx_assert(ok, what);
  free(x); return d;
}
static void roundtrip(XMQDoc *d, int mode)
{
  canon_mode = mode; blank_lines = 0;
  S a = canon_doc(d);
  S o = canon_ordered(d);
  int exact = !blank_lines;
  size_t n; char *b = print_doc(d, mode, &n);
  if (mode & COMPACT) sx_assert(oneline(b, n), "compact output is a single line");
  if (mode & ESC_7BIT) { int bad = 0; for (size_t i = 0; i < n; ++i) bad |= (unsigned char)b[i] > 126; sx_assert(!bad, "only 7 bit characters are printed"); }
  if (mode & ESC_TAB) { int bad = 0; for (size_t i = 0; i < n; ++i) bad |= b[i] == '\t'; sx_assert(!bad, "no tab is printed"); }
  XMQDoc *e = reparse(b, n, "the printed document parses");
  S c = canon_doc(e);
  if (mode & (ESC_NL | ESC_TAB | ESC_7BIT)) { XMQDoc *x = xmqNewDoc(); sx_assert(xmqParseBuffer(x, b, b + n, NULL, XMQ_FLAG_NOMERGE), "parses"); no_literal(xml(x)->children, mode); xmqFreeDoc(x); }
  if (sx_native() && !same(a, c)) { show("before", a); fprintf(stderr, "%.*s\n", (int)n, b); show("after", c); }
  sx_assert(same(a, c), "the document survives");
  S p = canon_ordered(e); exact &= same(o, p); free(o.b); free(p.b);
  size_t n2; char *b2 = print_doc(e, mode, &n2);
  sx_assert(!exact || n == n2 && sx_memeq(b, b2, n), "printing again gives the same text");
  free(a.b); free(c.b); free(b); free(b2); xmqFreeDoc(e); xmqFreeDoc(d);
  sx_reach("done");
}
// ---- C05, C06, C24: a text in every place
static void place_text(int place, int mode, const char *t)
{
  XMQDoc *d = xmqNewDoc(); xmlNode *r = el(d, NULL, "a"), *k;
  switch (place)
  {
  case 0: tx(d, r, t); break;
  case 1: k = el(d, r, "bcd"); tx(d, k, t); el(d, r, "e"); break;
  case 2: el(d, r, "b"); tx(d, r, t); el(d, r, "c"); break;
  case 3: k = el(d, r, "b"); k = el(d, k, "c"); at(d, k, "x", "y"); tx(d, k, t); tx(d, el(d, r, "long"), "1"); break;
  case 4: tx(d, el(d, r, "b"), t); tx(d, el(d, r, "ccc"), t); break;
  case 5: cm(d, r, "c"); tx(d, r, t); cm(d, r, "c"); break;
  case 6: k = el(d, r, "b"); tx(d, k, t); er(d, k, "nbsp"); break;
  case 7: k = el(d, r, "b"); er(d, k, "nbsp"); tx(d, k, t); break;
  case 8: at(d, r, "x", t); break;
  case 9: k = el(d, r, "b"); at(d, k, "x", t); at(d, k, "yyy", t); tx(d, k, "v"); break;
  case 10: k = el(d, r, "b"); at(d, k, "x", "1"); at(d, k, "y", t); el(d, k, "c"); el(d, r, "d"); break;
  }
  roundtrip(d, mode);
}
enum { NPLACE = 8, NATTR = 3 };
static int xml_text(const char *s, size_t n) { int ok = 1; for (size_t i = 0; i < n; ++i) ok &= xml_ascii(s[i]) | (s[i] & 0x80) != 0; return ok; }
static char *text_bytes(int max) { int n = 1 + sx_choice(max, "n"); char *t = sym_cstr(n, "t"); sx_assume(xml_text(t, n)); sx_assume(is_utf8(t, n)); return t; }
static char *text_alpha(int n, const char *al) { char *t = sym_str(n, "t"); for (int i = 0; i < n; ++i) sx_assume(in_set(t[i], al)); return t; }
void h_text_bytes(void) { int p = sx_choice(NPLACE, "place"); place_text(p, PRETTY, text_bytes(B(3, 4))); }
void h_text_quotes(void) { int p = sx_choice(NPLACE, "place"); place_text(p, PRETTY, text_alpha(1 + sx_choice(B(6, 7), "n"), "' a\n")); }
void h_text_delims(void) { int p = sx_choice(NPLACE, "place"); place_text(p, PRETTY, text_alpha(1 + sx_choice(B(4, 5), "n"), "=(){}/*&'a\t")); }
void h_text_blanks(void) { int p = sx_choice(NPLACE, "place"); place_text(p, PRETTY, text_alpha(1 + sx_choice(B(5, 6), "n"), " a\n\r\t")); }
// a long run of one character among free ones
static char *text_runs(const char *runs, const char *al)
{
  static const int len[] = { 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 24, 33, 64, 65, 100 };
  int q = B(0, 1), nl = B(11, 15);
  char c = runs[sx_choice(strlen(runs), "run")]; int k = len[sx_choice(nl, "length")], b = 1 + sx_choice(1 + q, "before"), e = sx_choice(2 + q, "after");
  char *s = text_alpha(b + e, al), *t = malloc(b + k + e + 1);
  memcpy(t, s, b); memset(t + b, c, k); memcpy(t + b + k, s + b, e); t[b + k + e] = 0;
  free(s);
  return t;
}
void h_text_runs(void) { int p = sx_choice(NPLACE, "place"); place_text(p, PRETTY, text_runs("' \n/", "' a\n=/")); }
void h_attr_bytes(void) { int p = NPLACE + sx_choice(NATTR, "place"); place_text(p, PRETTY, text_bytes(B(3, 4))); }
void h_attr_quotes(void) { int p = NPLACE + sx_choice(NATTR, "place"); place_text(p, PRETTY, text_alpha(1 + sx_choice(B(6, 7), "n"), "' a\n")); }
void h_attr_runs(void) { int p = NPLACE + sx_choice(NATTR, "place"); place_text(p, PRETTY, text_runs("' \n", "' a\n=/")); }
void h_ctext_runs(void) { int p = sx_choice(NPLACE + NATTR, "place"); place_text(p, COMPACT, text_runs("' \n", "' a\n=/")); }
void h_ctext_bytes(void) { int p = sx_choice(NPLACE + NATTR, "place"); place_text(p, COMPACT, text_bytes(B(3, 4))); }
void h_ctext_quotes(void) { int p = sx_choice(NPLACE + NATTR, "place"); place_text(p, COMPACT, text_alpha(1 + sx_choice(B(5, 6), "n"), "' a\n")); }
void h_ctext_delims(void) { int p = sx_choice(NPLACE + NATTR, "place"); place_text(p, COMPACT, text_alpha(1 + sx_choice(B(3, 4), "n"), "=(){}/*&'a\t")); }
void h_ctext_blanks(void) { int p = sx_choice(NPLACE + NATTR, "place"); place_text(p, COMPACT, text_alpha(1 + sx_choice(B(4, 5), "n"), " a\n\r\t")); }
// ---- C24: escapes
void h_esc_runs(void) { int p = sx_choice(NPLACE + NATTR, "place"), m = 1 + sx_choice(15, "mode"); place_text(p, m, text_runs("'\n", "' a\n\t")); }
void h_esc_bytes(void) { int p = sx_choice(NPLACE + NATTR, "place"), m = 1 + sx_choice(15, "mode"); char *t = text_bytes(B(2, 3)); place_text(p, m, t); }
void h_esc_mixed(void)
{
  int p = sx_choice(NPLACE + NATTR, "place"), m = 1 + sx_choice(15, "mode");
  // characters out of: a ' space newline tab cr 0xe5 U+20AC U+1F600
  int n = 1 + sx_choice(B(2, 3), "n"); char *t = malloc(4 * n + 1); size_t l = 0;
  for (int i = 0; i < n; ++i) { static const char *const c[] = { "a", "'", " ", "\n", "\t", "\r", "\xc3\xa5", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x7f", "\xc2\xa0" }; const char *x = c[sx_choice(11, "c")]; memcpy(t + l, x, strlen(x)); l += strlen(x); }
  t[l] = 0; place_text(p, m, t);
}
// ---- C08: a comment in every place
static void place_comment(int place, int mode, const char *t)
{
  XMQDoc *d = xmqNewDoc(); xmlNode *r, *k;
  if (place == 4) { cm(d, (xmlNode*)xml(d), t); el(d, NULL, "a"); roundtrip(d, mode); return; }
  r = el(d, NULL, "a");
  switch (place)
  {
  case 0: cm(d, r, t); break;
  case 1: cm(d, r, t); tx(d, el(d, r, "b"), "1"); break;
  case 2: tx(d, el(d, r, "bb"), "1"); cm(d, r, t); el(d, r, "c"); break;
  case 3: k = el(d, r, "b"); at(d, k, "x", "y"); k = el(d, k, "c"); cm(d, k, t); cm(d, k, t); break;
  case 5: cm(d, (xmlNode*)xml(d), t); break;
  case 6: tx(d, r, "x"); cm(d, r, t); tx(d, r, "y"); break;
  case 7: er(d, r, "nbsp"); cm(d, r, t); er(d, r, "nbsp"); break;
  }
  roundtrip(d, mode);
}
// ---- C07: a processing instruction in every place
static void place_pi(int place, int mode, const char *t)
{
  XMQDoc *d = xmqNewDoc(); xmlNode *r, *k;
  if (place == 0) { pi(d, (xmlNode*)xml(d), "p", t); el(d, NULL, "a"); roundtrip(d, mode); return; }
  r = el(d, NULL, "a");
  switch (place)
  {
  case 1: pi(d, r, "pi", t); break;
  case 2: tx(d, el(d, r, "bb"), "1"); pi(d, r, "pi", t); tx(d, r, "x"); break;
  case 3: k = el(d, r, "b"); k = el(d, k, "c"); pi(d, k, "pi", t); pi(d, k, "pi", t); cm(d, k, "c"); break;
  }
  roundtrip(d, mode);
}
enum { NCOMMENT = 8, NPI = 4 };
void h_comment_slashes(void) { int p = sx_choice(NCOMMENT, "place"), m = sx_choice(2, "compact"); place_comment(p, m, text_alpha(1 + sx_choice(B(5, 7), "n"), "/*a\n")); }
void h_comment_syntax(void) { int p = sx_choice(NCOMMENT, "place"), m = sx_choice(2, "compact"); place_comment(p, m, text_alpha(1 + sx_choice(B(3, 4), "n"), "/*{}'&\t a\n")); }
void h_comment_blanks(void) { int p = sx_choice(NCOMMENT, "place"), m = sx_choice(2, "compact"); place_comment(p, m, text_alpha(1 + sx_choice(B(4, 6), "n"), "/ a\n")); }
void h_comment_runs(void) { int p = sx_choice(NCOMMENT, "place"), m = sx_choice(2, "compact"); place_comment(p, m, text_runs("/* \n", "/*a\n")); }
void h_comment_bytes(void)
{
  int p = sx_choice(NCOMMENT, "place"), m = sx_choice(2, "compact"); char *t = text_bytes(B(2, 3));
  for (char *i = t; *i; ++i) sx_assume(*i != '\r');
  place_comment(p, m, t);
}
void h_pi_syntax(void) { int p = sx_choice(NPI, "place"), m = sx_choice(2, "compact"); place_pi(p, m, text_alpha(1 + sx_choice(B(3, 5), "n"), "'={/ a\n\t")); }
void h_pi_bytes(void)
{
  int p = sx_choice(NPI, "place"), m = sx_choice(2, "compact"); char *t = text_bytes(B(2, 3)); char l = 0;
  for (char *i = t; *i; l = *i++) { sx_assume(*i != '\r'); sx_assume(l != '?' || *i != '>'); }
  place_pi(p, m, t);
}
// ---- C07: any accepted document
static void structure(char *b, size_t n, int mode)
{
  sx_assume(is_utf8(b, n));
  for (size_t i = 0; i < n; ++i) sx_assume(b[i] != '\r' || (i + 1 < n && b[i + 1] == '\n'));   // no lone carriage returns (they turn into line breaks)
  XMQDoc *d = xmqNewDoc();
  if (!xmqParseBuffer(d, b, b + n, NULL, 0)) { sx_reach("rejected"); xmqFreeDoc(d); return; }
  roundtrip(d, mode);
}
void h_struct_template(void) { size_t n; int m = sx_choice(2, "compact"), h = sx_choice(1 + B(3, 4), "holes"); char *b = template(h, &n); structure(b, n, m); }
void h_struct_edit(void) { size_t n; int m = sx_choice(2, "compact"), h = sx_choice(1 + B(2, 2), "holes"); char *b = edited(h, &n); structure(b, n, m); }
static const int counts[] = { 5, 8, 9, 16, 17, 33, 65, 130, 257, 4, 6, 7, 10, 12, 15, 31, 32, 64, 100, 127, 128, 129, 255, 256, 300 };
void h_struct_long(void) { nesting = 65; size_t n; int m = sx_choice(2, "compact"); char *b = repeated(counts, B(9, 25), sx_choice(1 + B(1, 2), "holes"), &n); structure(b, n, m); }
// every sequence of children of every kind
static void child(XMQDoc *d, xmlNode *p, int kind)
{
  xmlNode *k = p->last;
  if (kind == 9 || kind == 12 || kind == 16) sx_assume(!k || k->type != XML_TEXT_NODE);   // a parsed document has no adjacent texts
  switch (kind)
  {
  case 0: el(d, p, "b"); break;
  case 1: k = el(d, p, "ccc"); at(d, k, "x", "1"); break;
  case 2: tx(d, el(d, p, "dd"), "v"); break;
  case 3: tx(d, el(d, p, "e"), "one\n two\nthree"); break;
  case 4: k = el(d, p, "ffff"); tx(d, k, "it's "); er(d, k, "nbsp"); break;
  case 5: cm(d, p, "note"); break;
  case 6: cm(d, p, "note\nmore"); break;
  case 7: pi(d, p, "pi", "x y"); break;
  case 8: er(d, p, "nbsp"); break;
  case 9: tx(d, p, "text"); break;
  case 10: k = el(d, p, "g"); el(d, k, "h"); tx(d, el(d, k, "iii"), "2"); break;
  case 11: k = el(d, p, "j"); at(d, k, "x", "1"); at(d, k, "yyyy", "a b"); at(d, k, "z", NULL); at(d, k, "w", "p\nq"); tx(d, k, "x y"); break;
  case 12: tx(d, p, " two words "); break;
  case 13: k = el(d, p, "l"); at(d, k, "x", "1"); cm(d, k, "note"); break;
  case 14: k = el(d, p, "m"); tx(d, k, "t"); el(d, k, "n"); tx(d, k, "u"); break;
  case 15: k = el(d, p, "long_element_name"); at(d, k, "an_attribute_with_a_long_name", "and_a_long_value_that_goes_on"); tx(d, k, "'"); break;
  case 16: tx(d, p, "a\n\nb\n"); break;
  case 17: pi(d, p, "p", "x\ny"); break;
  case 18: tx(d, el(d, p, "o"), ""); break;
  case 19: k = el(d, p, "q"); er(d, k, "#10"); break;
  }
}
void h_struct_tree(void)
{
  int m = sx_choice(2, "compact"), n = sx_choice(1 + B(3, 4), "children"), deep = sx_choice(2, "deep"); indent = 4;
  XMQDoc *d = xmqNewDoc(); xmlNode *r = el(d, NULL, "a"); if (deep) { r = el(d, r, "bb"); at(d, r, "x", "y"); }
  for (int i = 0; i < n; ++i) child(d, r, sx_choice(20, "kind"));
  if (deep) el(d, r->parent, "c");
  roundtrip(d, m);
}
void h_struct_indent(void)
{
  static const int in[] = { 0, 1, 2, 3, 8, 5, 16, 40 };
  indent = in[sx_choice(B(5, 8), "indent")]; int n = 1 + sx_choice(B(2, 3), "children");
  XMQDoc *d = xmqNewDoc(); xmlNode *r = el(d, NULL, "a"); if (sx_choice(2, "deep")) { r = el(d, r, "bb"); at(d, r, "x", "y"); }
  for (int i = 0; i < n; ++i) child(d, r, sx_choice(20, "kind"));
  roundtrip(d, 0);
}
void h_text_indent(void) { static const int in[] = { 0, 1, 2, 3, 8, 5, 16, 40 }; indent = in[sx_choice(B(5, 8), "indent")]; int p = sx_choice(NPLACE + NATTR, "place"); place_text(p, PRETTY, text_alpha(1 + sx_choice(B(4, 5), "n"), "' a\n")); }
void h_comment_indent(void) { static const int in[] = { 0, 1, 2, 3, 8, 5, 16, 40 }; indent = in[sx_choice(B(5, 8), "indent")]; int p = sx_choice(NCOMMENT, "place"); place_comment(p, PRETTY, text_alpha(1 + sx_choice(B(3, 4), "n"), "/* a\n")); }
// children around the root element
void h_struct_around(void)
{
  int m = sx_choice(2, "compact"), n = sx_choice(1 + B(2, 3), "before"), z = sx_choice(1 + B(2, 3), "after"); XMQDoc *d = xmqNewDoc(); xmlNode *t = (xmlNode*)xml(d);
  for (int i = 0; i < n; ++i) { int k = sx_choice(4, "kind"); if (k == 0) cm(d, t, "x"); else if (k == 1) cm(d, t, "x\ny"); else if (k == 2) pi(d, t, "p", "q"); else pi(d, t, "p", "q r\ns"); }
  xmlNode *r = el(d, NULL, "a"); if (sx_choice(2, "value")) tx(d, r, "v"); else if (sx_choice(2, "child")) el(d, r, "b");
  for (int i = 0; i < z; ++i) { int k = sx_choice(4, "kind"); if (k == 0) cm(d, t, "x"); else if (k == 1) cm(d, t, "x\ny"); else if (k == 2) pi(d, t, "p", "q"); else pi(d, t, "p", "q r\ns"); }
  roundtrip(d, m);
}
// ---- C14: a string quoted on its own
static void quoted(const char *t)
{
  uint64_t live = sx_live_objects();
  char *q = xmqCompactQuote(t); size_t n = strlen(q);
  int nl = 0; for (size_t i = 0; i < n; ++i) nl |= (q[i] == '\n') | (q[i] == '\r');
  if (sx_native()) fprintf(stderr, "<%s>\n", q);
  sx_assert(!nl, "a quoted string is a single line");
  char *b = malloc(2 * n + 20); size_t l = 0;
  // as element value, as attribute value, and followed by more
  memcpy(b, "r{a=", 4); l = 4; memcpy(b + l, q, n); l += n; memcpy(b + l, " b(c=", 5); l += 5; memcpy(b + l, q, n); l += n; memcpy(b + l, " d)}", 4); l += 4;
  char *x = malloc(l); memcpy(x, b, l); free(b);
  XMQDoc *d = xmqNewDoc();
  sx_assert(xmqParseBuffer(d, x, x + l, NULL, 0), "a quoted string parses");
  xmlNode *r = xml(d)->children, *a = r ? r->children : NULL, *bb = a ? a->next : NULL;
  sx_assert(r && !r->next && a && bb && !bb->next && !a->properties && bb->properties && bb->properties->next && !bb->properties->next->next && !bb->children, "a quoted string is one value");
  S v = {0}, w = {0}; canon_text(&v, a->children); canon_text(&w, bb->properties->children);
  sx_assert(v.n == strlen(t) && (!v.n || sx_memeq(v.b, t, v.n)), "an element value gives the string back");
  sx_assert(w.n == strlen(t) && (!w.n || sx_memeq(w.b, t, w.n)), "an attribute value gives the string back");
  free(v.b); free(w.b); xmqFreeDoc(d); free(x); free(q);
  sx_assert(sx_live_objects() == live, "nothing is leaked");
  sx_reach("done");
}
void h_quote_bytes(void) { quoted(text_bytes(B(3, 4))); }
void h_quote_quotes(void) { quoted(text_alpha(sx_choice(B(8, 10), "n"), "' a\n")); }
void h_quote_delims(void) { quoted(text_alpha(1 + sx_choice(B(5, 6), "n"), "=(){}/*&'a\t")); }
void h_quote_blanks(void) { quoted(text_alpha(1 + sx_choice(B(6, 8), "n"), " a\n\r\t'")); }
void h_quote_runs(void) { quoted(text_runs("' \n/", "' a\n=/")); }
// ---- C20: log lines
static void has_value(xmlNode *n, const char *name, const char *t)
{
  sx_assert(n && n->type == XML_ELEMENT_NODE && !strcmp((char*)n->name, name) && !n->properties, "a logged key is there");
  S v = {0}; canon_text(&v, n->children); size_t l = strlen(t);
  sx_assert(v.n == l && (!l || sx_memeq(v.b, t, l)), "a logged value is there");
  free(v.b);
}
static XMQDoc *log_line(char *l)
{
  size_t n = strlen(l); int nl = 0; for (size_t i = 0; i < n; ++i) nl |= (l[i] == '\n') | (l[i] == '\r');
  if (sx_native()) fprintf(stderr, "<%s>\n", l);
  sx_assert(!nl, "a log line is a single line");
  char *x = malloc(n); memcpy(x, l, n); free(l);
  XMQDoc *d = xmqNewDoc();
  sx_assert(xmqParseBuffer(d, x, x + n, NULL, 0), "a log line parses"); free(x);
  sx_assert(xml(d)->children && !xml(d)->children->next, "one element per line");
  return d;
}
static void log_values(const char *a, const char *b, int num)
{
  uint64_t live = sx_live_objects();
  XMQLineConfig *lc = xmqNewLineConfig();
  char nb[20]; snprintf(nb, sizeof nb, "%d", num);
  switch (sx_choice(6, "shape"))
  {
  case 0: { XMQDoc *d = log_line(xmqLinePrintf(lc, "e=", "%s", a)); has_value(xml(d)->children, "e", a); xmqFreeDoc(d); break; }
  case 1: { XMQDoc *d = log_line(xmqLinePrintf(lc, "e{", "x=", "%s", a, "}")); xmlNode *c = xml(d)->children->children; has_value(c, "x", a); sx_assert(!c->next, "no more keys"); xmqFreeDoc(d); break; }
  case 2: { XMQDoc *d = log_line(xmqLinePrintf(lc, "e{", "x=", "%s", a, "yy=", "%s", b, "}")); xmlNode *c = xml(d)->children->children; has_value(c, "x", a); has_value(c->next, "yy", b); sx_assert(!c->next->next, "no more keys"); xmqFreeDoc(d); break; }
  case 3: { XMQDoc *d = log_line(xmqLinePrintf(lc, "e{", "x=", "%d", num, "y=", "%s", a, "z=", "%d", num, "}")); xmlNode *c = xml(d)->children->children; has_value(c, "x", nb); has_value(c->next, "y", a); has_value(c->next->next, "z", nb); sx_assert(!c->next->next->next, "no more keys"); xmqFreeDoc(d); break; }
  case 4: { XMQDoc *d = log_line(xmqLinePrintf(lc, "e{", "x=", "%s%s", a, b, "y=", "%d%s", num, a, NULL)); xmlNode *c = xml(d)->children->children; char t[3000]; snprintf(t, sizeof t, "%s%s", a, b); has_value(c, "x", t); snprintf(t, sizeof t, "%d%s", num, a); has_value(c->next, "y", t); sx_assert(!c->next->next, "no more keys"); xmqFreeDoc(d); break; }
  case 5: { XMQDoc *d = log_line(xmqLinePrintf(lc, "%s", a)); has_value(xml(d)->children, "log", a); xmqFreeDoc(d); break; }
  }
  xmqFreeLineConfig(lc);
  sx_assert(sx_live_objects() == live, "nothing is leaked");
  sx_reach("done");
}
void h_line_bytes(void) { log_values(text_bytes(B(2, 3)), "b", 7); }
void h_line_syntax(void) { log_values(text_alpha(sx_choice(B(5, 6), "n"), "' a\n{(=&"), "'", -12); }
void h_line_pair(void) { char *a = text_alpha(sx_choice(B(3, 4), "n"), "' a\n/"); log_values(a, text_alpha(sx_choice(B(3, 4), "m"), "' a\n)"), 0); }
void h_line_runs(void) { log_values(text_runs("' \n", "' a\n{"), "b", 3); }
void h_line_long(void)
{
  // around the sizes at which the buffer has to grow
  int big = sx_choice(B(1, 2), "big"), n = (big ? 2040 : 1016) + sx_choice(10, "n"); char *a = malloc(n + 3); memset(a, 'a', n); char *s = text_alpha(2, "'a \n"); a[n] = s[0]; a[n + 1] = s[1]; a[n + 2] = 0;
  log_values(a, "b", 1);
}
// ---- C22: trimming whitespace
static int wsp(char c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r'); }
// o is t without white space around it and without (part of) the white space around line breaks
static void trimmed_ok(const char *t, const char *o)
{
  size_t i = 0, k = 0, n = strlen(t), m = strlen(o);
  int sofar = 0;
  for (;;)
  {
    // a run of white space in both
    size_t a = i, b = k; while (i < n && wsp(t[i])) i++; while (k < m && wsp(o[k])) k++;
    size_t nt = 0, no = 0; for (size_t x = a; x < i; ++x) nt += t[x] == '\n'; for (size_t x = b; x < k; ++x) no += o[x] == '\n';
    int first = a == 0, last = i == n;
    sx_assert(i - a >= k - b, "trimming adds no white space");
    if (first || last) sx_assert(no <= nt, "trimming adds no line break");
    else if (!nt) { sx_assert(i - a == k - b && sx_memeq(t + a, o + b, i - a), "white space inside of a line is kept"); }
    else
    {
      sx_assert(no == nt, "line breaks inside of a text are kept");
      // what is left in front of the next word is the end of its indentation
      size_t z = 0; while (k > b + z && o[k - 1 - z] != '\n') z++;
      sx_assert(sx_memeq(o + k - z, t + i - z, z), "only indentation is removed");
    }
    if (i == n || k == m) { sx_assert(i == n && k == m, "trimming keeps all words"); break; }
    while (i < n && !wsp(t[i])) { sx_assert(k < m && t[i] == o[k], "trimming keeps every other character"); i++; k++; }
    sx_assert(k == m || wsp(o[k]), "trimming keeps words apart");
  }
}
static int blank_text(const char *t) { for (; *t; ++t) if (!wsp(*t)) return 0; return 1; }
static xmlNode *expect_text(xmlNode *n, const char *t)
{
  if (blank_text(t)) return n;
  sx_assert(n && n->type == XML_TEXT_NODE, "a text that is not just white space is kept");
  trimmed_ok(t, (char*)n->content); return n->next;
}
static xmlNode *expect_el(xmlNode *n, const char *name) { sx_assert(n && n->type == XML_ELEMENT_NODE && !strcmp((char*)n->name, name), "an element is kept"); return n->next; }
static xmlNode *expect_type(xmlNode *n, int type) { sx_assert(n && n->type == type, "a node is kept"); return n->next; }
static void trimmed(int place, const char *t, const char *u)
{
  for (const char *c = t; *c; ++c) sx_assume(*c != '\r' || c[1] == '\n');  // no lone carriage returns
  uint64_t live = sx_live_objects();
  XMQDoc *d = xmqNewDoc(); xmlNode *r = el(d, NULL, "a"), *k, *n;
  switch (place)
  {
  case 0: tx(d, r, t); break;
  case 1: k = el(d, r, "b"); tx(d, r, t); el(d, r, "c"); tx(d, r, u); break;
  case 2: tx(d, r, t); k = el(d, r, "b"); at(d, k, "x", t); tx(d, k, u); break;
  case 3: cm(d, r, t); tx(d, r, u); er(d, r, "nbsp"); tx(d, r, t); break;
  case 4: k = el(d, el(d, r, "b"), "c"); tx(d, k, t); pi(d, r, "p", u); cm(d, (xmlNode*)xml(d), t); break;
  case 5: tx(d, r, t); tx(d, r, u); break;
  }
  xmqTrimWhitespace(d, 0);
  n = r->children;
  switch (place)
  {
  case 0: n = expect_text(n, t); break;
  case 1: n = expect_el(n, "b"); n = expect_text(n, t); n = expect_el(n, "c"); n = expect_text(n, u); break;
  case 2: n = expect_text(n, t); k = n; n = expect_el(n, "b"); sx_assert(!expect_text(k->children, u), "no other node"); sx_assert(k->properties && k->properties->children && !strcmp((char*)k->properties->children->content, t), "attributes are not trimmed"); break;
  case 3: if (!blank_text(t)) { sx_assert(n && n->type == XML_COMMENT_NODE, "a comment is kept"); trimmed_ok(t, (char*)n->content); n = n->next; } n = expect_text(n, u); n = expect_type(n, XML_ENTITY_REF_NODE); n = expect_text(n, t); break;
  case 4: k = n; n = expect_el(n, "b"); k = k->children; sx_assert(!expect_el(k, "c"), "no other node"); sx_assert(!expect_text(k->children, t), "no other node"); sx_assert(n && n->type == XML_PI_NODE && !strcmp((char*)n->content, u), "a processing instruction is kept"); n = n->next; break;
  case 5: n = expect_text(n, t); n = expect_text(n, u); break;
  }
  sx_assert(n == NULL, "nothing is added");
  xmqFreeDoc(d);
  sx_assert(sx_live_objects() == live, "nothing is leaked");
  sx_reach("done");
}
void h_trimws_blanks(void) { int p = sx_choice(6, "place"); trimmed(p, text_alpha(1 + sx_choice(B(7, 9), "n"), " a\n"), " x\n y"); }
void h_trimws_mixed(void) { int p = sx_choice(6, "place"); trimmed(p, text_alpha(1 + sx_choice(B(5, 7), "n"), " a\n\r\t"), "\n  x\n"); }
void h_trimws_two(void) { int p = sx_choice(6, "place"); char *t = text_alpha(1 + sx_choice(B(4, 5), "n"), " a\n"); trimmed(p, t, text_alpha(1 + sx_choice(B(4, 4), "m"), " a\n")); }
void h_trimws_bytes(void) { int p = sx_choice(6, "place"); trimmed(p, text_bytes(B(3, 4)), " \xc3\xa5\n\n x"); }
void h_trimws_runs(void) { int p = sx_choice(6, "place"); trimmed(p, text_runs(" \na", " a\n"), " x\n y"); }
