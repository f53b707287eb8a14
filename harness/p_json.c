// C11 the JSON parser, C12 JSON output and round trips
#include "h.h"
#include "templates.h"
#include "canon.h"
// ---- a JSON reader (RFC 8259). strict: exactly JSON. Otherwise also accepted: a comma before a closing bracket, control characters
// in strings, white space of Unicode. Writes a canonical form of the value to out (strings decoded).
typedef struct { const char *i, *e; int strict, unstorable, special; S *out; } JR;
static int jpeek(JR *r) { return r->i < r->e ? (unsigned char)*r->i : -1; }
static void jws(JR *r)
{
  for (;;)
  {
    int c = jpeek(r);
    if (c == ' ' || c == '\t' || c == '\n' || c == '\r') { r->i++; continue; }
    // other white space of XMQ: U+00A0, U+1680, U+2000..200A, U+202F, U+205F, U+3000, vertical tab, form feed
    if (!r->strict && (c == 0xc2 || c == 0xe1 || c == 0xe2 || c == 0xe3)) { size_t l = c == 0xc2 ? 2 : 3; if ((size_t)(r->e - r->i) >= l) { r->i += l; continue; } }
    if (!r->strict && (c == 11 || c == 12)) { r->i++; continue; }
    return;
  }
}
static void jout(JR *r, const char *p, size_t n) { if (r->out) sput(r->out, p, n); }
static int jhex(JR *r) { int v = 0; for (int k = 0; k < 4; ++k) { int c = jpeek(r), d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) return -1; v = v * 16 + d; r->i++; } return v; }
static void jcp(JR *r, int v)
{
  char t[4]; int n = 0;
  if (v < 0x80) t[n++] = v; else if (v < 0x800) { t[n++] = 0xc0 | v >> 6; t[n++] = 0x80 | v & 63; } else if (v < 0x10000) { t[n++] = 0xe0 | v >> 12; t[n++] = 0x80 | v >> 6 & 63; t[n++] = 0x80 | v & 63; }
  else { t[n++] = 0xf0 | v >> 18; t[n++] = 0x80 | v >> 12 & 63; t[n++] = 0x80 | v >> 6 & 63; t[n++] = 0x80 | v & 63; }
  jout(r, t, n);
}
static int jstring(JR *r)
{
  if (jpeek(r) != '"') return 0;
  r->i++; jout(r, "\"", 1);
  for (;;)
  {
    int c = jpeek(r); if (c < 0) return 0;
    r->i++;
    if (c == '"') { jout(r, "\x02", 1); return 1; }
    if (c == '\\')
    {
      c = jpeek(r); r->i++;
      switch (c)
      {
      case '"': case '\\': case '/': { char t = c; jout(r, &t, 1); break; }
      case 'b': jout(r, "\b", 1); break; case 'f': jout(r, "\f", 1); break; case 'n': jout(r, "\n", 1); break; case 'r': jout(r, "\r", 1); break; case 't': jout(r, "\t", 1); break;
      case 'u':
      {
        int v = jhex(r); if (v < 0) return 0;
        if (v >= 0xd800 && v < 0xdc00 && r->e - r->i >= 6 && r->i[0] == '\\' && r->i[1] == 'u') { JR q = *r; q.i += 2; int w = jhex(&q); if (w >= 0xdc00 && w < 0xe000) { v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); r->i = q.i; } }
        if (v == 0 || (v >= 0xd800 && v < 0xe000)) r->unstorable = 1;
        jcp(r, v); break;
      }
      default: return 0;
      }
      continue;
    }
    if (c < 32) { if (r->strict) return 0; if (!c) r->unstorable = 1; }
    char t = c; jout(r, &t, 1);
  }
}
static int jdigits(JR *r) { int n = 0; while (jpeek(r) >= '0' && jpeek(r) <= '9') { r->i++; n++; } return n; }
static int jword(JR *r, const char *w) { size_t l = strlen(w); if ((size_t)(r->e - r->i) < l || memcmp(r->i, w, l)) return 0; r->i += l; jout(r, w, l); return 1; }
static int jvalue(JR *r)
{
  jws(r);
  int c = jpeek(r);
  if (c == '"') { if (!jstring(r)) return 0; }
  else if (c == 't') { if (!jword(r, "true")) return 0; } else if (c == 'f') { if (!jword(r, "false")) return 0; } else if (c == 'n') { if (!jword(r, "null")) return 0; }
  else if (c == '-' || (c >= '0' && c <= '9'))
  {
    const char *s = r->i; if (c == '-') r->i++;
    if (jpeek(r) == '0') r->i++; else if (!jdigits(r)) return 0;
    if (jpeek(r) == '.') { r->i++; if (!jdigits(r)) return 0; }
    if (jpeek(r) == 'e' || jpeek(r) == 'E') { r->i++; if (jpeek(r) == '+' || jpeek(r) == '-') r->i++; if (!jdigits(r)) return 0; }
    jout(r, s, r->i - s);
  }
  else if (c == '[' || c == '{')
  {
    int close = c == '[' ? ']' : '}', first = 1; char t = c;
    r->i++; jout(r, &t, 1);
    for (;;)
    {
      jws(r);
      if (jpeek(r) == close && (first || !r->strict)) break;
      if (c == '{')
      {
        size_t k = r->out ? r->out->n : 0;
        if (!jstring(r)) return 0;
        if (r->out) { const char *key = r->out->b + k + 1; size_t l = r->out->n - k - 2; if (l && (key[0] == '_' || key[0] == '|' || key[0] == '/' || key[0] == '!' || key[0] == '&')) r->special = 1; for (size_t x = 0; x < l; ++x) if (key[x] == ':' || key[x] == ']') r->special = 1; }
        jws(r); if (jpeek(r) != ':') return 0; r->i++; jout(r, ":", 1);
      }
      if (!jvalue(r)) return 0;
      first = 0;
      if (jpeek(r) == ',') { r->i++; jout(r, ",", 1); if (r->strict) { jws(r); if (jpeek(r) == close) return 0; } continue; }
      if (jpeek(r) == close) break;
      return 0;
    }
    r->i++; t = close; jout(r, &t, 1);
  }
  else return 0;
  jws(r);
  return 1;
}
static int json(const char *b, size_t n, int strict, int *unstorable, int *special, S *out) { JR r = { b, b + n, strict, 0, 0, out }; int ok = jvalue(&r) && r.i == r.e; if (unstorable) *unstorable = r.unstorable; if (special) *special = r.special; return ok; }
// ---- C11
static void parse(char *b, size_t n)
{
  uint64_t live = sx_live_objects();
  XMQDoc *d = xmqNewDoc();
  int ok = xmqParseBufferWithType(d, b, b + n, NULL, XMQ_CONTENT_JSON, 0);
  int unstorable = 0, valid = json(b, n, 1, &unstorable, NULL, NULL);
  if (ok) { sx_assert(xmqDocErrno(d) == 0, "success has no error number"); sx_assert(((xmlDocPtr)xmqGetImplementationDoc(d))->children != NULL, "success gives a document"); sx_reach("accepted"); }
  else { sx_assert(xmqDocErrno(d) != 0 && xmqDocError(d) && *xmqDocError(d), "failure has an error number and a message"); sx_reach("rejected"); }
  for (size_t i = 0; i + 1 < n; ++i) if (b[i] == '!' && b[i + 1] == 'D') unstorable = 1;   // the key of a doctype
  sx_assert(!valid || ok || unstorable, "valid JSON is accepted");
  size_t bom = n >= 3 && !memcmp(b, "\xef\xbb\xbf", 3) ? 3 : 0;
  if (ok && !valid) sx_assert(json(b + bom, n - bom, 0, NULL, NULL, NULL), "broken JSON is rejected");
  xmqFreeDoc(d);
  sx_assert(sx_live_objects() == live, "nothing is leaked");
}
static const char *const jt[] = { "{\"a\":@}", "[1,@]", "{\"@\":1}", "\"\\u@\"", "{\"a\":{\"b\":[@]},\"c\":2}", "{\"_\":\"@\"}", "{\"_a\":@}", "{\"//\":@}", "{\"|\":@}", "{\"!DOCTYPE\":\"@\",\"_\":\"x\"}", "{\"_xmlns@\":\"u\"}",
  "{\"x:a\":\"@\"}", "[{\"a\":1}@]", "[\"\\@\"]", "{\"a\":\"x\"@,\"a\":2}", "{\"_\":\"p:x\",\"_xmlns:p\":\"@\"}", "{\"_//\":\"c\",\"_\":\"a\",\"_//@\":\"d\"}", "-@", "1@", "tru@", "{\"a\":nul@}", "[\"\\ud83d@\"]", "{\"a[1@]\":2}", "[[],{@},\"\"]", "{\"a\":\"@\",\"b\":null}", "{\"x@\":{}}" };
enum { NJT = sizeof jt / sizeof *jt };
static char *jtemplate(int holes, size_t *len)
{
  const char *s = jt[sx_choice(NJT, "template")], *at = strchr(s, '@'); size_t a = at - s, z = strlen(at + 1);
  char *b = malloc(a + holes + z); memcpy(b, s, a); sx_bytes(b + a, holes, "hole"); memcpy(b + a + holes, at + 1, z);
  *len = a + holes + z; return b;
}
static char *jedited(int holes, size_t *len)
{
  const char *s = jt[sx_choice(NJT, "template")]; size_t n = strlen(s);
  char *c = malloc(n + 1); size_t m = 0; for (size_t i = 0; i < n; ++i) { if (s[i] != '@') c[m++] = s[i]; }
  size_t at = sx_choice(m + 1, "at"), skip = sx_choice(3, "skip"); size_t z = skip == 2 ? m : at + skip; if (z > m) z = m;
  char *b = malloc(at + holes + m - z); memcpy(b, c, at); sx_bytes(b + at, holes, "hole"); memcpy(b + at + holes, c + z, m - z);
  *len = at + holes + m - z; free(c); return b;
}
void h_json_bytes(void) { int n = 1 + sx_choice(B(5, 6), "n"); parse(sym_buf(n, "src"), n); }
void h_json_syntax(void) { int n = 1 + sx_choice(B(9, 11), "n"); parse(sym_alpha(n, "{}[],:\"1 a", "src"), n); }
void h_json_numbers(void) { int n = 1 + sx_choice(B(8, 10), "n"); parse(sym_alpha(n, "0.1eE+- \n]", "src"), n); }
void h_json_strings(void) { int n = sx_choice(B(10, 12), "n"); char *s = sym_alpha(n, "\\\"u0dDca/", "src"), *b = malloc(n + 1); *b = '"'; memcpy(b + 1, s, n); free(s); parse(b, n + 1); }
void h_json_template(void) { size_t n; char *b = jtemplate(sx_choice(1 + B(4, 5), "holes"), &n); parse(b, n); }
void h_json_edit(void) { size_t n; char *b = jedited(sx_choice(1 + B(2, 3), "holes"), &n); parse(b, n); }

// ---- C12
static char *print(XMQDoc *d, size_t *len)
{
  XMQOutputSettings *os = xmqNewOutputSettings();
  xmqSetOutputFormat(os, XMQ_CONTENT_JSON); xmqSetRenderFormat(os, XMQ_RENDER_PLAIN);
  char *b = NULL, *e = NULL; xmqSetupPrintMemory(os, &b, &e);
  xmqPrint(d, os); xmqFreeOutputSettings(os);
  *len = e - b; return b;
}
// any document gives JSON
static void printed(XMQDoc *d)
{
  size_t n; char *p = print(d, &n);
  if (sx_native()) fprintf(stderr, "%.*s\n", (int)n, p);
  sx_assert(json(p, n, 1, NULL, NULL, NULL), "the output is JSON");
  xmqFreeDoc(d); free(p);
  sx_reach("done");
}
static void print_xmq(char *b, size_t n)
{
  sx_assume(is_utf8(b, n));
  uint64_t live = sx_live_objects();
  XMQDoc *d = xmqNewDoc();
  int good = xmqParseBuffer(d, b, b + n, NULL, 0), roots = 0;
  // one element, and comments or a doctype around it
  if (good) for (xmlNode *i = ((xmlDocPtr)xmqGetImplementationDoc(d))->children; i; i = i->next) { if (i->type == XML_ELEMENT_NODE) roots++; else if (i->type != XML_COMMENT_NODE && (i->type != XML_DTD_NODE || roots)) good = 0; }
  if (!good || roots != 1) { sx_reach("rejected"); xmqFreeDoc(d); return; }
  printed(d);
  sx_assert(sx_live_objects() == live, "nothing is leaked");
}
static const char *const jp[] = { "_(A){_=1 _=@ _(S)=true}", "a{b(A){@} c(A) d}", "a(A @){b}", "a{'x' @ 'y'}", "a{b c b @}", "a(_=@){_(_='x y')=@ _}", "_(S @)", "_{_(@){b} _(A){_{_(A @)}}}", "//c @\na=b //@",
  "a{b=('x' &foo; @)}", "a=&@;", "a{?p=@ //@\n}", "a(x=@ y){b(x=@)}", "a(xmlns=@){_(xmlns:p=@)=1}", "!DOCTYPE=html //a\n html(@){b=@}//c", "a=@", "_(S)=@", "a{b=0@}", "a{b(S @)=1}", "_(A){'x' //c\n &e; @}" };
static char *jptemplate(int holes, const char *alpha, size_t *len)
{
  const char *s = jp[sx_choice(sizeof jp / sizeof *jp, "template")]; size_t l = strlen(s), n = 0; char *h = malloc(holes + 1), *b = malloc(l + 3 * holes);
  sx_bytes(h, holes, "hole"); if (alpha) for (int i = 0; i < holes; ++i) sx_assume(in_set(h[i], alpha));
  for (; *s; ++s) if (*s == '@') { memcpy(b + n, h, holes); n += holes; } else b[n++] = *s;
  char *x = malloc(n); memcpy(x, b, n); free(b); free(h); *len = n; return x;
}
void h_jprint_nodes(void) { size_t n; char *b = jptemplate(sx_choice(1 + B(2, 3), "holes"), NULL, &n); print_xmq(b, n); }
void h_jprint_nodes_syntax(void) { size_t n; char *b = jptemplate(1 + sx_choice(B(3, 4), "holes"), "_SA='&;(){}1/", &n); print_xmq(b, n); }
void h_jprint_template(void) { size_t n; char *b = template(sx_choice(1 + B(2, 3), "holes"), &n); print_xmq(b, n); }
void h_jprint_edit(void) { size_t n; char *b = edited(sx_choice(1 + B(1, 2), "holes"), &n); print_xmq(b, n); }
void h_jprint_syntax(void) { int n = 1 + sx_choice(B(5, 6), "n"); print_xmq(sym_alpha(n, "a='&{}()/* A\"_", "src"), n); }
// every text of a document arrives in the JSON unchanged
static xmlNode *el(xmlDoc *x, xmlNode *p, const char *name) { xmlNode *n = xmlNewDocNode(x, NULL, (xmlChar*)name, NULL); if (p) xmlAddChild(p, n); else { x->children = x->last = n; n->parent = (xmlNode*)x; } return n; }
static void print_text(const char *t, size_t n)
{
  sx_assume(is_utf8(t, n)); for (size_t i = 0; i < n; ++i) sx_assume(t[i] != 0);
  XMQDoc *d = xmqNewDoc(); xmlDoc *x = xmqGetImplementationDoc(d);
  xmlNode *a, *b; const char *pre, *post, *q = "\"", *z = "\x02";
  switch (sx_choice(6, "place"))
  {
  case 0: a = el(x, NULL, "a"); b = el(x, a, "b"); xmlAddChild(b, xmlNewDocText(x, (xmlChar*)t)); pre = "{\"_\x02"":\"a\x02"",\"b\x02"":"; post = "}"; if (json(t, n, 1, NULL, NULL, NULL) && t[0] > ' ' && t[n - 1] > ' ' && t[0] != '[' && t[0] != '{' && t[0] != '"') q = z = ""; break;
  case 1: a = el(x, NULL, "a"); xmlNewProp(a, (xmlChar*)"x", (xmlChar*)t); el(x, a, "c"); pre = "{\"_\x02"":\"a\x02"",\"_x\x02"":"; post = ",\"c\x02"":{}}"; break;
  case 2: a = el(x, NULL, "a"); el(x, a, "b"); xmlAddChild(a, xmlNewDocText(x, (xmlChar*)t)); el(x, a, "c"); pre = "{\"_\x02"":\"a\x02"",\"b\x02"":{},\"|\x02"":"; post = ",\"c\x02"":{}}"; break;
  case 3: a = el(x, NULL, "a"); xmlAddChild(a, xmlNewDocComment(x, (xmlChar*)t)); el(x, a, "c"); pre = "{\"_\x02"":\"a\x02"",\"//\x02"":"; post = ",\"c\x02"":{}}"; break;
  case 4: a = el(x, NULL, "_"); xmlNewProp(a, (xmlChar*)"A", NULL); b = el(x, a, "_"); xmlNewProp(b, (xmlChar*)"S", NULL); xmlAddChild(b, xmlNewDocText(x, (xmlChar*)t)); pre = "["; post = "]"; break;
  default: a = el(x, NULL, "_"); b = el(x, a, "_"); xmlNewProp(b, (xmlChar*)"_", (xmlChar*)t); xmlAddChild(b, xmlNewDocText(x, (xmlChar*)"v")); pre = "{"; post = ":\"v\x02""}"; break;
  }
  S want = {0}, got = {0}; sput(&want, pre, strlen(pre)); sput(&want, q, strlen(q)); sput(&want, t, n); sput(&want, z, strlen(z)); sput(&want, post, strlen(post));
  size_t m; char *p = print(d, &m);
  if (sx_native()) fprintf(stderr, "want %.*s\ngot  %.*s\n", (int)want.n, want.b, (int)m, p);
  sx_assert(json(p, m, 1, NULL, NULL, &got), "the output is JSON");
  sx_assert(want.n == got.n && sx_memeq(want.b, got.b, want.n), "the text is the same");
  free(want.b); free(got.b); free(p); xmqFreeDoc(d);
  sx_reach("done");
}
static void ptext(int n, const char *alpha) { char *s = sym_alpha(n, alpha, "src"), *b = malloc(n + 1); memcpy(b, s, n); b[n] = 0; free(s); print_text(b, n); free(b); }
void h_jtext_bytes(void) { int n = 1 + sx_choice(B(3, 4), "n"); char *s = sym_buf(n, "src"), *b = malloc(n + 1); memcpy(b, s, n); b[n] = 0; free(s); print_text(b, n); free(b); }
void h_jtext_words(void) { ptext(1 + sx_choice(B(6, 7), "n"), "true1.-e\"\\ n"); }
// JSON that is read and printed denotes the same value
static void back(char *b, size_t n)
{
  int unstorable, special; S want = {0}, got = {0};
  sx_assume(is_utf8(b, n));
  sx_assume(json(b, n, 1, &unstorable, &special, &want)); sx_assume(!unstorable && !special);
  XMQDoc *d = xmqNewDoc();
  sx_assert(xmqParseBufferWithType(d, b, b + n, NULL, XMQ_CONTENT_JSON, 0), "JSON is accepted");
  size_t m; char *p = print(d, &m);
  if (sx_native()) fprintf(stderr, "%.*s\n%.*s\n", (int)n, b, (int)m, p);
  sx_assert(json(p, m, 1, NULL, NULL, &got), "the output is JSON");
  sx_assert(want.n == got.n && sx_memeq(want.b, got.b, want.n), "the value is the same");
  free(want.b); free(got.b); free(p); xmqFreeDoc(d);
  sx_reach("done");
}
static const char *const jb[] = { "{\"a\":@}", "[1,@]", "{\"@\":1}", "{\"a\":\"@\"}", "{\"a\":{\"b\":[@]},\"c\":2}", "@", "[{\"a\":1},@,[]]", "{\"a\":\"x@\",\"b\":2}", "[\"@\",\"@\"]", "{\"b@\":{\"c\":null},\"a\":true}", "[[],{@},\"\",[[1]]]", "{\"a\":[@],\"b\":{}}", "{\"c@\":[],\"d\":\"1\"}", "[[@],1]", "{\"@\":\"x\",\"b\":{\"@\":2}}", "{\"@\":{\"a\":1},\"b\":[{\"x\":\"@\"}]}", "{\"@\":[1,\"\"],\"b\":\"true\"}", "{\"@\":{},\"b\":-1.5e+3}" };
enum { NJB = sizeof jb / sizeof *jb };
static char *jbtemplate(int holes, const char *alpha, size_t *len)
{
  const char *s = jb[sx_choice(NJB, "template")]; size_t l = strlen(s), n = 0; char *h = malloc(holes + 1), *b = malloc(l + 3 * holes);
  sx_bytes(h, holes, "hole"); if (alpha) for (int i = 0; i < holes; ++i) sx_assume(in_set(h[i], alpha));
  if (strstr(s, "@\":")) sx_assume(holes <= B(2, 3));   // keys are hashed, which is hard to decide for many bytes
  if (strstr(s, "\"b\"") && holes == 1) sx_assume(h[0] != 'b');   // keys that differ
  for (; *s; ++s) if (*s == '@') { memcpy(b + n, h, holes); n += holes; } else b[n++] = *s;
  char *x = malloc(n); memcpy(x, b, n); free(b); free(h); *len = n; return x;
}
void h_jback_bytes(void) { size_t n; char *b = jbtemplate(sx_choice(1 + B(3, 4), "holes"), NULL, &n); back(b, n); }
void h_jback_syntax(void) { size_t n; char *b = jbtemplate(1 + sx_choice(B(6, 7), "holes"), "[]{}\",:1a", &n); back(b, n); }
void h_jback_strings(void) { size_t n; char *b = jbtemplate(sx_choice(1 + B(5, 6), "holes"), "\"\\ntru1 ", &n); back(b, n); }
void h_jback_numbers(void) { size_t n; char *b = jbtemplate(sx_choice(1 + B(6, 7), "holes"), "-0.1eE+", &n); back(b, n); }
// literals and numbers as strings and as values, next to keys of every kind
static const char *const jw[] = { "{\"a b\":\"@\"}", "{\"a b\":\"@\",\"c\":2}", "{\"a b\":@}", "{\"c\":1,\"a b\":@}", "{\"\":\"@\"}", "{\"\":@,\"a\":1}", "[\"@\"]", "[[\"@\"],@]", "{\"a\":[{\"b c\":\"@\"}]}", "{\"a b\":[\"@\"]}", "{\"a b\":{\"c\":\"@\"}}", "{\"1\":\"@\"}", "\"@\"", "{\"\u00e5\":\"@\",\"x\":\"@\"}", "{\"A\":\"@\",\"S\":@}" };
void h_jback_words(void)
{
  const char *s = jw[sx_choice(sizeof jw / sizeof *jw, "template")]; int holes = sx_choice(1 + B(5, 6), "holes"); size_t l = strlen(s), n = 0; char *h = malloc(holes + 1), *b = malloc(l + 3 * holes);
  sx_bytes(h, holes, "hole"); for (int i = 0; i < holes; ++i) sx_assume(in_set(h[i], "truefalsn1.- "));
  for (; *s; ++s) if (*s == '@') { memcpy(b + n, h, holes); n += holes; } else b[n++] = *s;
  char *x = malloc(n); memcpy(x, b, n); free(b); free(h); back(x, n);
}

// ---- C13: content detection
static int ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static int alnum(char c) { return (c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'z'); }
static const char *word(const char *i, const char *e, const char *w)
{
  for (; *w; ++w, ++i) if (i >= e || (*i != *w && !((*w >= 'a' && *w <= 'z') && *i == *w - 32))) return NULL;
  return i == e || !alnum(*i) ? i : NULL;
}
static const char *skip(const char *i, const char *e) { while (i < e && ws(*i)) i++; return i; }
static int starts(const char *i, const char *e, const char *w) { size_t l = strlen(w); return (size_t)(e - i) >= l && !memcmp(i, w, l); }
// the type a user expects; 0 where both HTML and XML are fine
static int expected(const char *b, const char *e)
{
  const char *i = skip(b, e), *j;
  if (i == e) return XMQ_CONTENT_XMQ;
  if (*i == '<')
  {
    if (starts(i, e, "<?xml")) return XMQ_CONTENT_XML;
    while (starts(i, e, "<!--"))
    {
      if (starts(i, e, "<!-->") || starts(i, e, "<!--->")) return 0;   // a comment in HTML, an error in XML
      for (i += 4; i < e && !starts(i, e, "-->"); ++i) { }
      if (i == e) return XMQ_CONTENT_XML;
      i = skip(i + 3, e);
    }
    if (i == e || *i != '<') return XMQ_CONTENT_XML;
    if (word(skip(i + 1, e), e, "html")) return XMQ_CONTENT_HTML;
    if ((j = word(i, e, "<!doctype"))) { if (j < e && !ws(*j)) return 0; return word(skip(j, e), e, "html") ? XMQ_CONTENT_HTML : XMQ_CONTENT_XML; }
    return XMQ_CONTENT_XML;
  }
  if (*i == '{' || *i == '[' || *i == '"' || (*i >= '0' && *i <= '9')) return XMQ_CONTENT_JSON;
  if (*i == '-' && e - i > 1 && i[1] >= '0' && i[1] <= '9') return XMQ_CONTENT_JSON;
  const char *lit[] = { "true", "false", "null" };
  for (int k = 0; k < 3; ++k) if (starts(i, e, lit[k]) && skip(i + strlen(lit[k]), e) == e) return XMQ_CONTENT_JSON;
  return XMQ_CONTENT_XMQ;
}
static void detect(const char *b, size_t n)
{
  int got = xmqDetectContentType(b, b + n), want = expected(b, b + n);
  sx_assert(want ? got == want : got == XMQ_CONTENT_HTML || got == XMQ_CONTENT_XML, "the type is the expected one");
  if (got == XMQ_CONTENT_XMQ) sx_reach("xmq"); else if (got == XMQ_CONTENT_JSON) sx_reach("json"); else if (got == XMQ_CONTENT_HTML) sx_reach("html"); else sx_reach("xml");
}
static const char *const dt[] = { "<!--@-->@<html", "<!doctype@html", "<!DocType html@", "@<hTml>", "@true@", "nul@", "-@", "<@html@", "<!--a-->@<!doctype html>", "<!--@", "@fals@e@", "<@!doctype html", "<?xm@", "@null@", "<!-- --@><html>", "<!d@octype @html>", " \n@{", "<!--a-->\n<!--b-->@<!DOCTYPE@HTML" };
static char *dtemplate(int holes, size_t *len)
{
  const char *s = dt[sx_choice(sizeof dt / sizeof *dt, "template")]; size_t n = 0, l = strlen(s); char *b = malloc(l + 3 * holes), *h = malloc(holes + 1);
  sx_bytes(h, holes, "hole");
  for (; *s; ++s) if (*s == '@') { memcpy(b + n, h, holes); n += holes; } else b[n++] = *s;
  char *x = malloc(n); memcpy(x, b, n); free(b); free(h); *len = n; return x;
}
void h_detect_bytes(void) { int n = sx_choice(1 + B(6, 7), "n"); detect(sym_buf(n, "src"), n); }
void h_detect_words(void) { int n = 1 + sx_choice(B(10, 12), "n"); detect(sym_alpha(n, "<!->htmlHL ", "src"), n); }
void h_detect_template(void) { size_t n; char *b = dtemplate(sx_choice(1 + B(5, 6), "holes"), &n); detect(b, n); }
// JSON is detected as JSON, also without being asked for
static void detect_json(const char *b, size_t n) { sx_assume(json(b, n, 1, NULL, NULL, NULL)); sx_assert(xmqDetectContentType(b, b + n) == XMQ_CONTENT_JSON, "JSON is detected"); sx_reach("done"); }
void h_detect_json(void) { int n = 1 + sx_choice(B(6, 7), "n"); detect_json(sym_buf(n, "src"), n); }
void h_detect_json_template(void) { size_t n; char *b = jtemplate(sx_choice(1 + B(4, 5), "holes"), &n); detect_json(b, n); }
// a byte order mark changes nothing; those of other encodings are an error
static char *outcome(const char *b, size_t n, size_t *len)
{
  XMQDoc *d = xmqNewDoc();
  int ok = xmqParseBufferWithType(d, b, b + n, NULL, XMQ_CONTENT_DETECT, 0);
  char *r; *len = 0;
  if (!ok) { sx_assert(xmqDocErrno(d) != 0 && xmqDocError(d), "a failure is explained"); r = malloc(2); r[0] = 'E'; r[1] = xmqDocErrno(d); *len = 2; }
  else { XMQOutputSettings *os = xmqNewOutputSettings(); xmqSetOutputFormat(os, XMQ_CONTENT_XMQ); xmqSetCompact(os, 1); char *e; r = NULL; e = NULL; xmqSetupPrintMemory(os, &r, &e); xmqPrint(d, os); xmqFreeOutputSettings(os); *len = e - r; }
  xmqFreeDoc(d); return r;
}
static void bom(const char *t, size_t n)
{
  int e = expected(t, t + n); sx_assume(e == XMQ_CONTENT_XMQ || e == XMQ_CONTENT_JSON); sx_assume(is_utf8(t, n)); for (size_t i = 0; i < n; ++i) sx_assume(t[i]);
  sx_assume(!(n >= 3 && !memcmp(t, "\xef\xbb\xbf", 3)));
  char *b = malloc(n + 3); memcpy(b, "\xef\xbb\xbf", 3); memcpy(b + 3, t, n);
  size_t l1, l2; char *o1 = outcome(t, n, &l1), *o2 = outcome(b, n + 3, &l2);
  sx_assert(l1 == l2 && (l1 == 0 || sx_memeq(o1, o2, l1)), "a byte order mark changes nothing");
  free(o1); free(o2); free(b); sx_reach("done");
}
void h_bom_bytes(void) { int n = sx_choice(1 + B(3, 4), "n"); bom(sym_buf(n, "src"), n); }
void h_bom_syntax(void) { int n = sx_choice(1 + B(6, 7), "n"); bom(sym_alpha(n, "a={}'/*1[]\n", "src"), n); }
void h_bom_utf16(void)
{
  static const char *const m[] = { "\xff\xfe", "\xfe\xff", "\xff\xfe\0\0", "\0\0\xfe\xff" };
  int k = sx_choice(4, "mark"), ml = k < 2 ? 2 : 4, n = sx_choice(1 + B(4, 5), "n"); char *b = malloc(ml + n); memcpy(b, m[k], ml); sx_bytes(b + ml, n, "src");
  size_t l; char *o = outcome(b, ml + n, &l);
  sx_assert(l == 2 && o[0] == 'E', "other encodings are rejected"); free(o); sx_reach("done");
}

// ---- C12: an XMQ document, printed as JSON, has different keys in every object and gives the same document when it is read
static int jkeys(JR *r)
{
  // keys of one object; the values are checked by recursion
  jws(r); int c = jpeek(r);
  if (c != '{' && c != '[') { JR q = *r; q.out = NULL; int ok = jvalue(&q); r->i = q.i; return ok; }
  S *k = calloc(700, sizeof *k); int n = 0, ok = 1, close = c == '{' ? '}' : ']';
  for (r->i++; ok;)
  {
    jws(r); if (jpeek(r) == close) break;
    if (c == '{') { JR q = *r; q.out = &k[n]; jstring(&q); r->i = q.i; n++; sx_assert(n < 700, "few keys"); jws(r); r->i++; }
    ok = jkeys(r); jws(r); if (jpeek(r) == ',') r->i++;
  }
  r->i++;
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (same(k[i], k[j])) ok = 0;
  for (int i = 0; i < n; ++i) free(k[i].b);
  free(k);
  return ok;
}
static void xmq_json_xmq(XMQDoc *d)
{
  S a = canon_doc(d);
  size_t n; char *p = print(d, &n);
  if (sx_native()) fprintf(stderr, "%.*s\n", (int)n, p);
  sx_assert(json(p, n, 1, NULL, NULL, NULL), "the output is JSON");
  JR r = { p, p + n, 1, 0, 0, NULL }; sx_assert(jkeys(&r), "the keys of an object differ");
  XMQDoc *e = xmqNewDoc();
  sx_assert(xmqParseBufferWithType(e, p, p + n, NULL, XMQ_CONTENT_JSON, 0), "JSON is accepted");
  S c = canon_doc(e);
  if (sx_native() && !same(a, c)) { show("before", a); show("after", c); }
  sx_assert(same(a, c), "the document survives");
  free(a.b); free(c.b); free(p); xmqFreeDoc(e); xmqFreeDoc(d);
  sx_reach("done");
}
// a random document: comments around the root element, children of every kind
static void some_children(xmlDoc *x, xmlNode *p, int max, int depth, int kinds)
{
  int n = sx_choice(max + 1, "children"), text = 0;
  for (int i = 0; i < n; ++i)
  {
    int k = sx_choice(kinds, "kind");
    if (k == 3) { if (text) sx_assume(0); xmlAddChild(p, xmlNewDocText(x, (xmlChar*)(sx_choice(2, "text") ? "12" : "x y"))); text = 1; continue; }
    text = 0;
    if (k == 2) { xmlAddChild(p, xmlNewDocComment(x, (xmlChar*)"c")); continue; }
    xmlNode *c = el(x, p, k == 4 ? "_c" : k ? "bb" : "b");
    if (depth) some_children(x, c, max, depth - 1, kinds);
  }
}
void h_jdoc_children(void)
{
  XMQDoc *d = xmqNewDoc(); xmlDoc *x = xmqGetImplementationDoc(d); xmlNode *r = el(x, NULL, "a");
  some_children(x, r, B(4, 5), 0, 5); xmlNode *c = r->children; sx_assume(!c || c->next || c->type != XML_TEXT_NODE);   // a value alone is a JSON value
  xmq_json_xmq(d);
}
void h_jdoc_nested(void)
{
  XMQDoc *d = xmqNewDoc(); xmlDoc *x = xmqGetImplementationDoc(d); xmlNode *r = el(x, NULL, "a"), *c = el(x, r, "b"); xmlNewProp(c, (xmlChar*)"y", (xmlChar*)"z");
  some_children(x, c, B(4, 5), 0, 5); el(x, r, "b"); xmq_json_xmq(d);
}
void h_jdoc_around(void)
{
  XMQDoc *d = xmqNewDoc(); xmlDoc *x = xmqGetImplementationDoc(d); static const char *const t[] = { "1", "2", "3", "4" };
  int n = sx_choice(B(4, 5), "before"), m = sx_choice(B(4, 5), "after"), k = sx_choice(3, "inside"), w = sx_choice(2, "wide");
  for (int i = 0; i < n; ++i) { xmlNode *c = xmlNewDocComment(x, (xmlChar*)t[i]); c->parent = (xmlNode*)x; c->prev = x->last; if (x->last) x->last->next = c; else x->children = c; x->last = c; }
  xmlNode *r = xmlNewDocNode(x, NULL, (xmlChar*)"a", NULL); r->parent = (xmlNode*)x; r->prev = x->last; if (x->last) x->last->next = r; else x->children = r; x->last = r;
  if (w) el(x, r, "b");
  for (int i = 0; i < k; ++i) xmlAddChild(r, xmlNewDocComment(x, (xmlChar*)t[i]));
  for (int i = 0; i < m; ++i) { xmlNode *c = xmlNewDocComment(x, (xmlChar*)t[i]); c->parent = (xmlNode*)x; c->prev = x->last; if (x->last) x->last->next = c; else x->children = c; x->last = c; }
  xmq_json_xmq(d);
}
void h_jdoc_deep(void)
{
  XMQDoc *d = xmqNewDoc(); xmlDoc *x = xmqGetImplementationDoc(d); xmlNode *r = el(x, NULL, "a"); if (sx_choice(2, "attribute")) xmlNewProp(r, (xmlChar*)"b", (xmlChar*)"1");
  some_children(x, r, 2, B(1, 2), 4); xmlNode *c = r->children; sx_assume(!c || c->next || c->type != XML_TEXT_NODE || r->properties);
  xmq_json_xmq(d);
}
static void jdoc_text(const char *t, size_t n)
{
  sx_assume(is_utf8(t, n)); for (size_t i = 0; i < n; ++i) sx_assume(xml_ascii(t[i]) || (t[i] & 0x80));
  XMQDoc *d = xmqNewDoc(); xmlDoc *x = xmqGetImplementationDoc(d); xmlNode *r = el(x, NULL, "a"), *c;
  switch (sx_choice(6, "place"))
  {
  case 0: c = el(x, r, "b"); xmlAddChild(c, xmlNewDocText(x, (xmlChar*)t)); el(x, r, "b"); break;
  case 1: xmlNewProp(r, (xmlChar*)"y", (xmlChar*)t); el(x, r, "c"); break;
  case 2: el(x, r, "b"); xmlAddChild(r, xmlNewDocText(x, (xmlChar*)t)); el(x, r, "c"); xmlAddChild(r, xmlNewDocText(x, (xmlChar*)t)); break;
  case 3: c = el(x, r, "b"); xmlAddChild(c, xmlNewDocComment(x, (xmlChar*)t)); xmlAddChild(r, xmlNewDocText(x, (xmlChar*)"v")); break;
  case 4: c = el(x, r, "b"); xmlNewProp(c, (xmlChar*)"x", (xmlChar*)t); xmlAddChild(c, xmlNewDocText(x, (xmlChar*)t)); break;
  case 5: el(x, r, "b"); xmlAddChild(r, xmlNewDocComment(x, (xmlChar*)t)); xmlAddChild(r, xmlNewDocComment(x, (xmlChar*)t)); break;
  }
  xmq_json_xmq(d);
}
static void jdtext(int n, const char *alpha) { char *s = alpha ? sym_alpha(n, alpha, "src") : sym_buf(n, "src"), *b = malloc(n + 1); memcpy(b, s, n); b[n] = 0; free(s); for (int i = 0; i < n; ++i) sx_assume(b[i]); jdoc_text(b, n); free(b); }
void h_jdoc_bytes(void) { jdtext(1 + sx_choice(B(3, 4), "n"), NULL); }
void h_jdoc_words(void) { jdtext(1 + sx_choice(B(5, 6), "n"), "true1.-e\"\\ n"); }
// what JSON can hold: elements, attributes, comments and texts without namespaces
static int plain(xmlNode *p)
{
  for (xmlNode *i = p; i; i = i->next)
  {
    if (i->type == XML_COMMENT_NODE) continue;
    if (i->type == XML_TEXT_NODE) { if (i->next && i->next->type == XML_TEXT_NODE) return 0; continue; }
    if (i->type != XML_ELEMENT_NODE || i->ns || i->nsDef || i->name[0] == 0x5f) return 0;   // a key _x is an attribute
    for (const char *c = (char*)i->name; *c; ++c) if (*c == ':') return 0;
    for (xmlAttr *a = i->properties; a; a = a->next)
    {
      if (a->ns || (a->children && (a->children->type != XML_TEXT_NODE || a->children->next))) return 0;
      if (!a->name[1] && (a->name[0] == 'A' || a->name[0] == 'S' || a->name[0] == '_')) return 0;   // mark arrays, strings and keys
      for (const char *c = (char*)a->name; *c; ++c) if (*c == ':') return 0;
      for (xmlAttr *o = a->next; o; o = o->next) if (!strcmp((char*)o->name, (char*)a->name)) return 0;
    }
    if (!plain(i->children)) return 0;
  }
  return 1;
}
static void jdoc_parsed(const char *b, size_t n)
{
  sx_assume(is_utf8(b, n)); XMQDoc *d = xmqNewDoc();
  int good = xmqParseBuffer(d, b, b + n, NULL, 0), roots = 0; xmlNode *first = ((xmlDocPtr)xmqGetImplementationDoc(d))->children;
  if (good) for (xmlNode *i = first; i; i = i->next) if (i->type == XML_TEXT_NODE) good = 0; else if (i->type == XML_ELEMENT_NODE) { roots++; xmlNode *c = i->children; if (c && !c->next && c->type == XML_TEXT_NODE) good = 0; }
  if (!good || roots != 1 || !plain(first)) { sx_reach("rejected"); xmqFreeDoc(d); return; }
  xmq_json_xmq(d);
}
void h_jdoc_template(void) { size_t n; char *b = template(sx_choice(1 + B(2, 3), "holes"), &n); jdoc_parsed(b, n); }
void h_jdoc_edit(void) { size_t n; char *b = edited(sx_choice(1 + B(1, 2), "holes"), &n); jdoc_parsed(b, n); }

// long texts: something repeated many times
static const int jcounts[] = { 5, 8, 9, 16, 17, 33, 65, 130, 257, 4, 6, 7, 10, 12, 15, 31, 32, 64, 100, 127, 128, 129, 255, 256, 300 };
static const Rep jreps[] = {
  { "", "[", "@", "]", "", 3 }, { "", "{\"a\":", "1@", "}", "", 3 }, { "[", "1,", "@", ",2", "]" }, { "\"", "x", "@", "y", "\"" }, { "{\"a\":\"", "\\n", "@", "\\u00e5", "\"}" }, { "", "1", "@", "0", "" }, { "[-0.", "3", "@", "5", "]" },
  { "{\"k\":1", ",\"a\":2", "@", "", "}" }, { "", " ", "@1", "\n", "" }, { "{\"", "n", "@", "m", "\":1}" }, { "[[]", ",[]", "@", ",{}", "]" }, { "{\"a b\":\"", "\\\\", "@", "\xc3\xa5", "\"}" }, { "", "[{\"a\":", "1@", "}]", "", 3 },
  { "{\"a\":[", "true,", "@null", ",false", "]}" }, { "[\"", "\\\"", "@", "/", "\"]" } };
enum { NJREPS = sizeof jreps / sizeof *jreps };
void h_json_long(void) { nesting = 130; size_t n; char *b = repeated_of(jreps, NJREPS, jcounts, B(9, 25), sx_choice(1 + B(1, 2), "holes"), &n); parse(b, n); }
void h_jback_long(void) { nesting = 33; size_t n; char *b = repeated_of(jreps, NJREPS, jcounts, B(9, 25), sx_choice(1 + B(1, 2), "holes"), &n); sx_assume(strncmp(b, "{\"k\"", 4)); sx_assume(n < 4 || b[1] != '"' || b[2] != 'n' || n < 60); back(b, n); }
void h_jprint_long(void) { nesting = 33; size_t n; char *b = repeated(jcounts, B(8, 25), sx_choice(1 + B(1, 2), "holes"), &n); print_xmq(b, n); }
void h_jdoc_long(void) { nesting = 33; size_t n; char *b = repeated(jcounts, B(8, 25), sx_choice(1 + B(1, 2), "holes"), &n); jdoc_parsed(b, n); }
void h_detect_json_long(void) { nesting = 130; size_t n; char *b = repeated_of(jreps, NJREPS, jcounts, B(9, 25), 1, &n); detect_json(b, n); }
void h_detect_blanks(void)
{
  static const int many[] = { 10, 15, 16, 17, 31, 33, 63, 64, 65, 100, 128, 250, 255, 256, 257, 1000, 1024, 1025, 2049, 4097 };
  static const char *const what[] = { "<html>", "<!doctype html>", "<?xml", "<a/>", "{", "[", "\"a\"", "-1", "true", "null", "a=1", "<!--x--><html", "'q'", "<!--x-->@<!DOCTYPE html", "//", "1" };
  int k = many[sx_choice(B(15, 20), "blanks")]; const char *w = what[sx_choice(16, "what")]; size_t l = strlen(w); char *b = malloc(2 * k + l + 1), c, d; size_t n = 0;
  sx_bytes(&c, 1, "blank"); sx_assume(in_set(c, " \n\t\r")); sx_bytes(&d, 1, "last");
  memset(b, c, k); b[k / 2] = ' '; n = k; b[n++] = d;
  for (size_t i = 0; i < l; ++i) if (w[i] == '@') { memset(b + n, '\n', k); n += k; } else b[n++] = w[i];
  char *x = malloc(n); memcpy(x, b, n); free(b); detect(x, n); free(x);
}
// every tree of JSON values
static void value(S *s, int depth, int max)
{
  static const char *const leaf[] = { "1", "\"x\"", "true", "null", "\"\"", "{}", "[]", "\"true\"", "-0.5e3", "\"a b\"", "false", "\"1\"" };
  static const char *const key[] = { "\"a\":", "\"b c\":", "\"\":", "\"A\":", "\"1\":", "\"S\":" };
  int l = B(8, 12), k = sx_choice(depth ? l + 2 : l, "value") + 12 - l;
  if (k < 12) { sputs(s, leaf[11 - k]); return; }
  int n = 1 + sx_choice(max, "members"), used = 0;
  sputs(s, k == 12 ? "[" : "{");
  for (int i = 0; i < n; ++i)
  {
    if (i) sputs(s, ",");
    if (k == 13) { int q = sx_choice(6, "key"); if (used >> q & 1) sx_assume(0); used |= 1 << q; sputs(s, key[q]); }
    value(s, depth - 1, max > 1 ? max - 1 : 1);
  }
  sputs(s, k == 12 ? "]" : "}");
}
void h_jback_tree(void) { S s = {0}; value(&s, 2, B(2, 3)); char *b = malloc(s.n); memcpy(b, s.b, s.n); free(s.b); back(b, s.n); }
void h_jback_nested(void) { S s = {0}; value(&s, B(4, 5), 1); char *b = malloc(s.n); memcpy(b, s.b, s.n); free(s.b); back(b, s.n); }
void h_jback_members(void)
{
  S s = {0}; int k = sx_choice(2, "object"), n = 1 + sx_choice(B(4, 5), "members"), used = 0;
  static const char *const leaf[] = { "1", "\"x\"", "{}", "[2]", "\"true\"", "null" }; static const char *const key[] = { "\"a\":", "\"b c\":", "\"\":", "\"A\":", "\"1\":", "\"S\":" };
  sputs(&s, k ? "{" : "[");
  for (int i = 0; i < n; ++i)
  {
    if (i) sputs(&s, ",");
    if (k) { int q = (i * 5 + sx_choice(2, "key")) % 6; if (used >> q & 1) sx_assume(0); used |= 1 << q; sputs(&s, key[q]); }
    sputs(&s, leaf[sx_choice(6, "value")]);
  }
  sputs(&s, k ? "}" : "]");
  char *b = malloc(s.n); memcpy(b, s.b, s.n); free(s.b); back(b, s.n);
}
