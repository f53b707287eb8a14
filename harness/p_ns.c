// C27: namespaces are bound to the nearest enclosing declaration
#include "h.h"
#include <libxml/tree.h>
typedef struct { char *b; size_t n; } T;
static void put(T *t, const char *s) { size_t l = strlen(s); memcpy(t->b + t->n, s, l); t->n += l; }
static void putc1(T *t, char c) { t->b[t->n++] = c; }
enum { DEPTH = 3 };
// what the source says about each element
typedef struct { int has_prefix; char prefix; int ndecl; char dp[4], dh[4]; int nattr; char ap[4]; } E;   // dp 0: default namespace, dh 0: empty href
static E es[DEPTH + 1];
static char letter(const char *name, char a, char b) { char c; sx_bytes(&c, 1, name); sx_assume((c == a) | (c == b)); return c; }
static void decl(T *t, E *e, int dflt, int empty)
{
  char p = dflt ? 0 : letter("declared", 'x', 'y'), h = empty ? 0 : letter("href", 'u', 'v');
  for (int i = 0; i < e->ndecl; ++i) sx_assume(e->dp[i] != p);
  put(t, "xmlns"); if (p) { putc1(t, ':'); putc1(t, p); }
  putc1(t, '='); if (h) putc1(t, h); else put(t, "''");
  e->dp[e->ndecl] = p; e->dh[e->ndecl++] = h;
}
static void attr(T *t, E *e)
{
  char p = letter("attr", 'x', 'y');
  for (int i = 0; i < e->nattr; ++i) sx_assume(e->ap[i] != p);
  putc1(t, p); put(t, ":k=1"); e->ap[e->nattr++] = p;
}
static void element(T *t, E *e, int pat, char name)
{
  e->has_prefix = sx_choice(2, "prefix");
  if (e->has_prefix) { e->prefix = letter("letter", 'x', 'y'); putc1(t, e->prefix); putc1(t, ':'); }
  putc1(t, name);
  // d: default namespace, e: empty default namespace, n: declaration, a: attribute with prefix
  static const char *const pats[] = { "", "d", "n", "a", "an", "na", "dn", "nd", "nn", "e", "nna", "ann", "dna", "aan", "dann" };
  int npat = sizeof pats / sizeof *pats; const char *p = pats[pat % npat];
  if (*p) putc1(t, '(');
  for (const char *i = p; *i; ++i)
  {
    if (i > p) putc1(t, ' ');
    if (*i == 'a') attr(t, e); else decl(t, e, *i != 'n', *i == 'e');
  }
  if (*p) putc1(t, ')');
}
// href of a prefix in the scope of element i (parents[]): 0 none
static char lookup(const int *parent, int i, char p, int *found)
{
  *found = 0;
  for (; i >= 0; i = parent[i]) for (int k = 0; k < es[i].ndecl; ++k) if (es[i].dp[k] == p) { *found = 1; return es[i].dh[k]; }
  return 0;
}
static void bound(xmlNs *ns, char p, char h, int found, const char *what)
{
  if (!p && (!found || !h)) { sx_assert(ns == NULL || !ns->href || !ns->href[0], "no namespace without a declaration"); return; }
  sx_assert(ns != NULL, "the namespace is bound");
  if (p) sx_assert(ns->prefix && ns->prefix[0] == (xmlChar)p && !ns->prefix[1], "the prefix is kept"); else sx_assert(!ns->prefix, "the default namespace has no prefix");
  if (found) sx_assert(ns->href && ns->href[0] == (xmlChar)h && !ns->href[1], what);
}
static void check(XMQDoc *d, const int *parent, int n, const char *we, const char *wa)
{
  xmlDocPtr x = xmqGetImplementationDoc(d); xmlNode *nodes[DEPTH + 1];
  for (int i = 0; i < n; ++i)
  {
    xmlNode *k = parent[i] < 0 ? x->children : nodes[parent[i]]->children;
    while (k && (k->type != XML_ELEMENT_NODE || k->name[0] != 'a' + i)) k = k->next;
    sx_assert(k != NULL, "the element is there"); nodes[i] = k;
    sx_assert(k->name[1] == 0, "the name of the element");
    int f; char p = es[i].has_prefix ? es[i].prefix : 0; char h = lookup(parent, i, p, &f);
    bound(k->ns, p, h, f, we);
    int na = 0;
    for (xmlAttr *a = k->properties; a; a = a->next)
    {
      char ap = es[i].ap[na++]; h = lookup(parent, i, ap, &f);
      bound(a->ns, ap, h, f, wa);
    }
    sx_assert(na == es[i].nattr, "the attributes are there");
    for (int q = 0; q < es[i].ndecl; ++q)
    {
      int seen = 0;
      for (xmlNs *s = k->nsDef; s; s = s->next) if (s->prefix ? s->prefix[0] == (xmlChar)es[i].dp[q] : es[i].dp[q] == 0) { seen++; sx_assert(s->href && s->href[0] == (xmlChar)es[i].dh[q], "the href of a declaration"); }
      sx_assert(seen == 1 || (!es[i].dp[q] && !es[i].dh[q] && seen == 0), "each declaration is there once");
    }
  }
}
static void scoped(const int *parent, int n, int pats[])
{
  T t = { malloc(400), 0 }; memset(es, 0, sizeof es);
  int open = -1;
  for (int i = 0; i < n; ++i)
  {
    // close the braces until the parent is the innermost open element
    while (i > 0 && open != parent[i]) { putc1(&t, '}'); open = parent[open]; }
    element(&t, &es[i], pats[i], 'a' + i);
    if (i + 1 < n) { if (parent[i + 1] == i) { putc1(&t, '{'); open = i; } else putc1(&t, ' '); }
  }
  while (open >= 0) { putc1(&t, '}'); open = parent[open]; }
  char *b = malloc(t.n); memcpy(b, t.b, t.n); free(t.b);
  XMQDoc *d = xmqNewDoc();
  int ok = xmqParseBuffer(d, b, b + t.n, NULL, 0);
  if (!ok && sx_native()) fprintf(stderr, "%.*s\n", (int)t.n, b);
  sx_assert(ok, "the document parses");
  check(d, parent, n, "an element belongs to the nearest declaration of its prefix", "an attribute belongs to the nearest declaration of its prefix");
  XMQOutputSettings *os = xmqNewOutputSettings(); xmqSetOutputFormat(os, XMQ_CONTENT_XMQ); xmqSetRenderFormat(os, XMQ_RENDER_PLAIN); xmqSetCompact(os, sx_choice(2, "compact"));
  char *p = NULL, *e = NULL; xmqSetupPrintMemory(os, &p, &e); xmqPrint(d, os); xmqFreeOutputSettings(os);
  if (sx_native()) fprintf(stderr, "%.*s\n%.*s\n", (int)t.n, b, (int)(e - p), p);
  XMQDoc *r = xmqNewDoc(); sx_assert(xmqParseBuffer(r, p, e, NULL, 0), "the printed document parses");
  check(r, parent, n, "an element keeps its namespace when printed and parsed again", "an attribute keeps its namespace when printed and parsed again");
  xmqFreeDoc(r); xmqFreeDoc(d); free(p); free(b);
  sx_reach("done");
}
enum { NPAT = 15 };
void h_ns_one(void) { static const int par[] = { -1 }; int p[] = { sx_choice(NPAT, "a") }; scoped(par, 1, p); }
void h_ns_nested(void) { static const int par[] = { -1, 0 }; int p[] = { sx_choice(B(7, NPAT), "a"), sx_choice(B(11, NPAT), "b") }; scoped(par, 2, p); }
void h_ns_siblings(void) { static const int par[] = { -1, 0, 0 }; int p[] = { sx_choice(B(3, 6), "a"), sx_choice(B(6, 8), "b"), sx_choice(4, "c") }; scoped(par, 3, p); }
void h_ns_deep(void) { static const int par[] = { -1, 0, 1 }; int p[] = { sx_choice(B(4, 7), "a"), sx_choice(B(4, 7), "b"), sx_choice(B(4, 6), "c") }; scoped(par, 3, p); }
void h_ns_after(void) { static const int par[] = { -1, 0, 1, 0 }; int p[] = { sx_choice(3, "a"), sx_choice(3, "b"), sx_choice(3, "c"), sx_choice(2, "d") * 3 }; scoped(par, 4, p); }

// every name of an attribute, with xmlns and xml as beginning
static int name_char(char c, int first) { return ((c >= 'a') & (c <= 'z')) | (c == '_') | (!first & ((c == '-') | (c == '.') | ((c >= '0') & (c <= '9')))); }
void h_ns_names(void)
{
  static const char *const base[] = { "", "xmlns", "xmlns:", "xmln", "x:", "xmlnsq:" }; int k = sx_choice(6, "base"); size_t n = sx_choice(B(4, 6), "n"); char *t = sym_buf(n, "name"), name[32]; strcpy(name, base[k]); size_t l = strlen(name);
  if (k == 0 || k == 2 || k == 4 || k == 5) sx_assume(n > 0);
  int first = l == 0 || name[l - 1] == ':'; for (size_t i = 0; i < n; ++i) sx_assume(name_char(t[i], first && i == 0)); memcpy(name + l, t, n); name[l + n] = 0;
  size_t h = 1 + sx_choice(B(2, 3), "h"); char *href = sym_alpha(h, "abx", "href");
  char src[80]; size_t m = strlen(name); memcpy(src, "a(q=1 ", 6); memcpy(src + 6, name, m); src[6 + m] = '='; memcpy(src + 7 + m, href, h); memcpy(src + 7 + m + h, ")", 1); size_t len = 8 + m + h; char *b = malloc(len); memcpy(b, src, len);
  if (m == 1 && name[0] == 'q') sx_assume(0);
  XMQDoc *d = xmqNewDoc(); if (sx_native()) fprintf(stderr, "%.*s\n", (int)len, b); sx_assert(xmqParseBuffer(d, b, b + len, NULL, 0), "the document parses");
  char *p = NULL, *e = NULL; 
  for (int again = 0; again < 2; ++again)
  {
    xmlNode *r = ((xmlDocPtr)xmqGetImplementationDoc(d))->children; xmlAttr *a = r->properties; sx_assert(a && !strcmp((char*)a->name, "q"), "the first attribute");
    int dflt = m == 5 && !memcmp(name, "xmlns", 5), decl = m > 6 && !memcmp(name, "xmlns:", 6);
    if (dflt || decl)
    {
      sx_assert(!a->next, "a declaration is no attribute"); sx_assert(r->nsDef && !r->nsDef->next, "there is one declaration"); sx_assert(decl ? r->nsDef->prefix && !strcmp((char*)r->nsDef->prefix, name + 6) : !r->nsDef->prefix, "the prefix of the declaration");
      sx_assert(r->nsDef->href && strlen((char*)r->nsDef->href) == h && sx_memeq(r->nsDef->href, href, h), "the href of the declaration"); sx_assert(dflt ? r->ns == r->nsDef : !r->ns, "the namespace of the element"); sx_reach("declaration");
    }
    else
    {
      const char *c = strchr(name, ':'), *local = c ? c + 1 : name; a = a->next; sx_assert(a && !a->next, "it is an attribute"); sx_assert(!strcmp((char*)a->name, local), "the name of the attribute");
      if (c) { sx_assert(a->ns && a->ns->prefix && strlen((char*)a->ns->prefix) == (size_t)(c - name) && !strncmp((char*)a->ns->prefix, name, c - name), "the prefix of the attribute"); sx_reach("prefix"); } else { sx_assert(!a->ns && !r->nsDef, "no namespace"); sx_reach("attribute"); }
      sx_assert(a->children && !a->children->next && strlen((char*)a->children->content) == h && sx_memeq(a->children->content, href, h), "the value of the attribute"); sx_assert(!r->ns, "the element has no namespace");
    }
    if (again) break;
    XMQOutputSettings *os = xmqNewOutputSettings(); xmqSetOutputFormat(os, XMQ_CONTENT_XMQ); xmqSetRenderFormat(os, XMQ_RENDER_PLAIN); xmqSetCompact(os, sx_choice(2, "compact")); xmqSetupPrintMemory(os, &p, &e); xmqPrint(d, os); xmqFreeOutputSettings(os); xmqFreeDoc(d);
    if (sx_native()) fprintf(stderr, "%.*s\n", (int)(e - p), p); d = xmqNewDoc(); sx_assert(xmqParseBuffer(d, p, e, NULL, 0), "the printed document parses");
  }
  xmqFreeDoc(d); free(p); free(b); sx_reach("done");
}
