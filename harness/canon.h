// The canonical form of an XMQ document tree.
#ifndef CANON_H
#define CANON_H
#include <libxml/tree.h>
typedef struct { char *b; size_t n, cap; } S;
static void sput(S *s, const char *p, size_t n) { if (s->n + n + 1 > s->cap) { s->cap = 2 * (s->n + n) + 64; s->b = realloc(s->b, s->cap); } memcpy(s->b + s->n, p, n); s->n += n; }
static void sputs(S *s, const char *p) { if (p) sput(s, p, strlen(p)); }
static void sput1(S *s, char c) { sput(s, &c, 1); }
// ---- canonical form of a tree; text of adjacent text nodes and character references is merged
static void ref(S *s, const char *name)
{
  if (!strcmp(name, "apos")) { sput1(s, '\''); return; }
  if (!strcmp(name, "quot")) { sput1(s, '"'); return; }
  if (!strcmp(name, "amp")) { sput1(s, '&'); return; }
  if (!strcmp(name, "lt")) { sput1(s, '<'); return; }
  if (!strcmp(name, "gt")) { sput1(s, '>'); return; }
  if (name[0] == '#')
  {
    int v = 0; const char *p = name + 1;
    if (*p == 'x') { for (p++; *p; p++) v = v * 16 + (*p <= '9' ? *p - '0' : (*p | 32) - 'a' + 10); } else for (; *p; p++) v = v * 10 + *p - '0';
    char t[4]; int n = 0;
    if (v < 0x80) t[n++] = v; else if (v < 0x800) { t[n++] = 0xc0 | v >> 6; t[n++] = 0x80 | v & 63; } else if (v < 0x10000) { t[n++] = 0xe0 | v >> 12; t[n++] = 0x80 | v >> 6 & 63; t[n++] = 0x80 | v & 63; }
    else { t[n++] = 0xf0 | v >> 18; t[n++] = 0x80 | v >> 12 & 63; t[n++] = 0x80 | v >> 6 & 63; t[n++] = 0x80 | v & 63; }
    sput(s, t, n); return;
  }
  sputs(s, "\x01""&"); sputs(s, name); sput1(s, ';');
}
static void canon_text(S *s, xmlNode *n) { for (; n; n = n->next) { if (n->type == XML_TEXT_NODE || n->type == XML_CDATA_SECTION_NODE) sputs(s, (char*)n->content); else if (n->type == XML_ENTITY_REF_NODE) ref(s, (char*)n->name); else sputs(s, "\x01?"); } }
// The lines of a comment. Blanks at the end of lines, blank lines around it and the common indentation do not count
// (all indentation in compact mode, where every line is printed as a comment of its own).
static int canon_mode, blank_lines;
static int sx_blank(char c) { return (c == ' ') | (c == '\t'); }
static void canon_comment(S *s, const char *t)
{
  size_t n = strlen(t), min = n, pend = 0; int first = 1;
  for (size_t i = 0; i < n || i == 0; )
  {
    size_t e = i; while (e < n && t[e] != '\n' && t[e] != '\r') e++;
    size_t b = i; while (b < e && sx_blank(t[b])) b++;
    if (b < e && b - i < min) min = b - i;
    if (b > i || (e > i && sx_blank(t[e - 1]))) blank_lines = 1;
    i = e + 1;
  }
  if (canon_mode & 1) min = n;
  for (size_t i = 0; i < n; )
  {
    size_t e = i; while (e < n && t[e] != '\n' && t[e] != '\r') e++;
    size_t z = e; while (z > i && sx_blank(t[z - 1])) z--;
    size_t b = i; while (b < z && b - i < min && sx_blank(t[b])) b++;
    if (b == z) pend++;
    else { if (!first) for (size_t k = 0; k <= pend; ++k) sput1(s, '\n'); else if (pend) blank_lines = 1; pend = 0; first = 0; sput(s, t + b, z - b); }
    i = e + 1;
  }
  if (pend || first || t[n - 1] == '\n') blank_lines = 1;
}
// The content of a processing instruction: blanks around it and around its lines do not count. Compact turns newlines into spaces,
// there all runs of blanks are alike.
static void canon_pi(S *s, const char *t)
{
  if (!t) return;
  size_t n = strlen(t), b = 0, sp = 0;
  while (b < n && (sx_blank(t[b]) || t[b] == '\n')) b++;
  while (n > b && (sx_blank(t[n - 1]) || t[n - 1] == '\n')) n--;
  if (b || t[n]) blank_lines = 1;
  for (size_t i = b; i < n; ++i)
  {
    int nl = t[i] == '\n';
    if (sx_blank(t[i]) || ((canon_mode & 1) && nl)) { sp++; if (nl || sp > 1 || t[i] == '\t') blank_lines = 1; continue; }
    if (canon_mode & 1) { if (sp) sput1(s, ' '); }
    else if (!nl && !(i > sp && t[i - sp - 1] == '\n')) sput(s, t + i - sp, sp); else if (sp) blank_lines = 1;
    sp = 0;
    sput1(s, t[i]);
  }
}
static int in_order;
static int before(xmlNs *a, xmlNs *b) { if (!a->prefix || !b->prefix) return !a->prefix && b->prefix; return strcmp((char*)a->prefix, (char*)b->prefix) < 0; }
static void canon_ns(S *s, xmlNs *x) { sputs(s, "\x01%"); sputs(s, (char*)x->prefix); sputs(s, "\x01="); sputs(s, (char*)x->href); }
static void canon(S *s, xmlNode *n)
{
  int text = 0;
  for (; n; n = n->next)
  {
    if (n->type == XML_TEXT_NODE || n->type == XML_CDATA_SECTION_NODE || n->type == XML_ENTITY_REF_NODE)
    {
      size_t o = s->n;
      if (!text) sputs(s, "\x01T");
      if (n->type == XML_ENTITY_REF_NODE) ref(s, (char*)n->name); else { if (!n->content || !n->content[0]) { s->n = o; continue; } sputs(s, (char*)n->content); }
      text = 1; continue;
    }
    text = 0;
    if (n->type == XML_COMMENT_NODE) { sputs(s, "\x01#"); canon_comment(s, (char*)n->content); continue; }
    if (n->type == XML_PI_NODE) { sputs(s, "\x01?"); sputs(s, (char*)n->name); sputs(s, "\x01 "); canon_pi(s, (char*)n->content); continue; }
    if (n->type == XML_DTD_NODE) { sputs(s, "\x01!"); sputs(s, (char*)n->name); continue; }
    if (n->type != XML_ELEMENT_NODE) { sputs(s, "\x01X"); continue; }
    sputs(s, "\x01<"); if (n->ns) { sputs(s, (char*)n->ns->prefix); sput1(s, '|'); sputs(s, (char*)n->ns->href); sput1(s, '|'); }
    sputs(s, (char*)n->name);
    for (xmlAttr *a = n->properties; a; a = a->next)
    {
      sputs(s, "\x01@"); if (a->ns) { sputs(s, (char*)a->ns->prefix); sput1(s, '|'); }
      sputs(s, (char*)a->name); sputs(s, "\x01="); canon_text(s, a->children);
    }
    if (in_order) for (xmlNs *x = n->nsDef; x; x = x->next) canon_ns(s, x);
    else for (xmlNs *done = NULL;;)
    {
      // the order of the declarations does not matter
      xmlNs *m = NULL;
      for (xmlNs *x = n->nsDef; x; x = x->next) if ((!done || before(done, x)) && (!m || before(x, m))) m = x;
      if (!m) break;
      canon_ns(s, m); done = m;
    }
    sputs(s, "\x01{"); canon(s, n->children); sputs(s, "\x01}");
  }
}
static S canon_doc(XMQDoc *d);
static S canon_ordered(XMQDoc *d) { in_order = 1; S s = canon_doc(d); in_order = 0; return s; }
static S canon_doc(XMQDoc *d) { S s = {0}; canon(&s, ((xmlDocPtr)xmqGetImplementationDoc(d))->children); return s; }
static int same(S a, S b) { return a.n == b.n && (a.n == 0 || sx_memeq(a.b, b.b, a.n)); }
static void show(const char *w, S s) { if (sx_native()) { fprintf(stderr, "%s: ", w); for (size_t i = 0; i < s.n; ++i) fprintf(stderr, s.b[i] == 1 ? "\n   " : (unsigned char)s.b[i] < 32 ? "\\x%02x" : "%c", (unsigned char)s.b[i]); fprintf(stderr, "\n"); } }
#endif
