// C32 the outputs that are not meant to be read back: to-text and to-clines. The harness builds a tree and writes down what should come out.
#include "h.h"
#include "canon.h"
static XMQDoc *d; static S text_, lines_; static int vary; static char *hole_;
static xmlDoc *xml(void) { return (xmlDoc*)xmqGetImplementationDoc(d); }
static xmlNode *link_(xmlNode *p, xmlNode *n)
{
  if (p) { n->parent = p; n->prev = p->last; if (p->last) p->last->next = n; else p->children = n; p->last = n; }
  else { n->parent = (xmlNode*)xml(); n->prev = xml()->last; if (xml()->last) xml()->last->next = n; else xml()->children = n; xml()->last = n; }
  return n;
}
static xmlNode *ref_(const char *name) { xmlNode *n = xmlNewReference(xml(), (xmlChar*)name); n->children = n->last = NULL; return n; }
static void line(const char *path, const char *v) { sputs(&lines_, path); sput1(&lines_, 1); sputs(&lines_, v); sput1(&lines_, 2); }
static const char *piece(int k) { return k == 0 ? hole_ : k == 1 ? "p" : k == 2 ? "A" : k == 3 ? "&foo;" : "\xe2\x82\xac"; }
static const char *const refs[] = { 0, 0, "#65", "foo", "#x20AC" };
static void element(xmlNode *p, const char *path, int depth);
static void content(xmlNode *e, const char *path, int depth, int max)
{
  int n = sx_choice(max + 1, "children"), last = 0;
  for (int i = 0; i < n; ++i)
  {
    int k = sx_choice(depth ? 8 : 7, "child");
    if (k < 5)
    {
      if (k < 2) { if (last) sx_assume(0); last = 1; link_(e, xmlNewDocText(xml(), (xmlChar*)piece(k))); } else { last = 0; link_(e, ref_(refs[k])); }
      sputs(&text_, piece(k)); line(path, piece(k)); continue;
    }
    last = 0;
    if (k == 5) { link_(e, xmlNewDocComment(xml(), (xmlChar*)"c")); if (n == 1) sx_assume(0); }
    else if (k == 6) { xmlNode *q = link_(e, xmlNewDocNode(xml(), NULL, (xmlChar*)"i", NULL)); (void)q; char t[64]; snprintf(t, 64, "%s/i", path); line(t, ""); }
    else element(e, path, depth - 1);
  }
  if (!n) line(path, "");
}
static void element(xmlNode *p, const char *path, int depth)
{
  char t[64]; snprintf(t, 64, "%s/e", path); xmlNode *e = link_(p, xmlNewDocNode(xml(), NULL, (xmlChar*)"e", NULL));
  int a = p && !vary ? 0 : sx_choice(vary ? 4 : 2, "attributes"); char u[80]; snprintf(u, 80, "%s/@x", t);
  if (a == 1) { xmlNewProp(e, (xmlChar*)"x", (xmlChar*)hole_); line(u, hole_); }
  if (a == 2) { xmlNewProp(e, (xmlChar*)"x", NULL); line(u, ""); }
  if (a == 3)
  {
    xmlAttr *at = xmlNewProp(e, (xmlChar*)"x", NULL); S v = {0};
    for (int i = 0; i < 2; ++i) { int k = 1 + sx_choice(4, "value"); if (i) sx_assume(k != 1 || at->last->type != XML_TEXT_NODE); link_((xmlNode*)at, k == 1 ? xmlNewDocText(xml(), (xmlChar*)"p") : ref_(refs[k])); sputs(&v, piece(k)); }
    sput1(&v, 0); line(u, v.b); snprintf(u, 80, "%s/@y", t); xmlNewProp(e, (xmlChar*)"y", (xmlChar*)"z"); line(u, "z");
  }
  content(e, t, depth, vary ? 1 : p ? B(1, 2) : B(2, 3));
}
static S printed(XMQContentType ct)
{
  XMQOutputSettings *os = xmqNewOutputSettings(); char *b = 0, *e = 0; xmqSetOutputFormat(os, ct); xmqSetRenderFormat(os, XMQ_RENDER_PLAIN); xmqSetupPrintMemory(os, &b, &e);
  xmqPrint(d, os); xmqFreeOutputSettings(os); S r = {0}; if (b) sput(&r, b, e - b); sput1(&r, 0); r.n--; if (sx_native()) show("printed", r); return r;
}
// the lines  path="escaped"  as records
static S records(S o)
{
  S r = {0};
  for (size_t i = 0; i < o.n; )
  {
    while (i < o.n && o.b[i] != '=') sput1(&r, o.b[i++]);
    sx_assert(i + 1 < o.n && o.b[i + 1] == '"', "path=\"value\""); i += 2; sput1(&r, 1);
    for (;; ++i)
    {
      sx_assert(i < o.n, "the value ends on its line"); char c = o.b[i]; if (c == '"') break;
      sx_assert((unsigned char)c >= 32 && c != 127, "no control character is printed as it is");
      if (c == '\\')
      {
        sx_assert(i + 1 < o.n, "an escape"); c = o.b[++i]; const char *p = strchr("a\ab\bt\tn\nv\vf\fr\r\"\"\\\\", c);
        if (c == 'x') { int v = 0; for (int k = 0; k < 2; ++k) { char h = o.b[++i]; v = v * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10); } c = v; } else { sx_assert(p != NULL, "an escape of C"); c = p[1]; }
      }
      sput1(&r, c);
    }
    sx_assert(i + 1 < o.n && o.b[i + 1] == '\n', "one value on a line"); i += 2; sput1(&r, 2);
  }
  return r;
}
static void out(const char *h, int depth)
{
  d = xmqNewDoc(); hole_ = (char*)h; 
  if (sx_choice(2, "before")) link_(NULL, xmlNewDocComment(xml(), (xmlChar*)"c"));
  element(NULL, "", depth); if (sx_choice(2, "after")) { link_(NULL, xmlNewDocComment(xml(), (xmlChar*)"c")); }
  if (sx_choice(2, "lines")) { S r = records(printed(XMQ_CONTENT_CLINES)); if (sx_native()) { show("want", lines_); show("got", r); } sx_assert(same(r, lines_), "a line for each text and attribute, in order"); }
  else { S r = printed(XMQ_CONTENT_TEXT); sx_assert(same(r, text_), "all text, in order"); }
  xmqFreeDoc(d); sx_reach("done");
}
void h_out_tree(void) { out("q\"\\ \n", 1); }
void h_out_attrs(void) { vary = 1; out("q\"\\ \n", B(1, 2)); }
void h_out_text(void) { size_t n = 1 + sx_choice(B(3, 4), "n"); char *t = sym_cstr(n, "text"); sx_assume(is_utf8(t, n));
  d = xmqNewDoc(); xmlNode *e = link_(NULL, xmlNewDocNode(xml(), NULL, (xmlChar*)"e", NULL)); int a = sx_choice(2, "attribute");
  if (a) xmlNewProp(e, (xmlChar*)"x", (xmlChar*)t), line("/e/@x", t), line("/e", ""); else link_(e, xmlNewDocText(xml(), (xmlChar*)t)), line("/e", t), sputs(&text_, t);
  S r = records(printed(XMQ_CONTENT_CLINES)); sx_assert(same(r, lines_), "the value can be read back"); r = printed(XMQ_CONTENT_TEXT); sx_assert(same(r, text_), "the text as it is"); xmqFreeDoc(d); sx_reach("done"); }
