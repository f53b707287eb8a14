// C01 UTF-8, C09 quote trimming, C10 C quoting, C15 XML comment escaping
#include "h.h"
#include <libxml/tree.h>
size_t count_whitespace(const char *i, const char *stop);
char *escape_xml_comment(const char *comment);
char *unescape_xml_comment(const char *comment);
static int sym_int(const char *name) { int v; sx_bytes(&v, sizeof v, name); return v; }

// ---- C01
void h_utf8_code_points(void)
{
  int cp = sym_int("cp"); sx_assume(cp >= 0 && cp <= 0x10ffff);
  UTF8Char u; size_t n = encode_utf8(cp, &u);
  const unsigned char *b = (unsigned char*)u.bytes;
  size_t want = cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4;
  sx_assert(n == want, "length of the encoding");
  if (want == 1) { sx_reach("1"); sx_assert(b[0] == cp, "1 byte"); }
  if (want == 2) { sx_reach("2"); sx_assert(b[0] == 0xc0 + cp / 64 & b[1] == 0x80 + cp % 64, "2 bytes"); }
  if (want == 3) { sx_reach("3"); sx_assert(b[0] == 0xe0 + cp / 4096 & b[1] == 0x80 + cp / 64 % 64 & b[2] == 0x80 + cp % 64, "3 bytes"); }
  if (want == 4) { sx_reach("4"); sx_assert(b[0] == 0xf0 + cp / 262144 & b[1] == 0x80 + cp / 4096 % 64 & b[2] == 0x80 + cp / 64 % 64 & b[3] == 0x80 + cp % 64, "4 bytes"); }
  for (size_t i = n; i < 4; ++i) sx_assert(b[i] == 0, "the rest is zero");
  char *x = malloc(n); memcpy(x, b, n);
  int out = -1; size_t len = 0;
  sx_assert(decode_utf8(x, x + n, &out, &len), "decodes");
  sx_assert(out == cp, "decodes to the same code point"); sx_assert(len == n, "decodes all bytes");
  UTF8Char p; sx_assert(peek_utf8_char(x, x + n, &p) == n, "peeks all bytes");
  sx_assert(p.bytes[0] == u.bytes[0] & p.bytes[1] == u.bytes[1] & p.bytes[2] == u.bytes[2] & p.bytes[3] == u.bytes[3], "peeks the same bytes");
}
void h_utf8_bytes(void)
{
  int n = 1 + sx_choice(B(7, 9), "n"); char *b = sym_buf(n, "b"); unsigned char *u = (unsigned char*)b;
  int want = u[0] < 0x80 ? 1 : u[0] < 0xc0 ? 0 : u[0] < 0xe0 ? 2 : u[0] < 0xf0 ? 3 : u[0] < 0xf8 ? 4 : 0;
  int good = want > 0 && want <= n; for (int i = 1; i < want && i < n; ++i) if ((u[i] & 0xc0) != 0x80) good = 0;
  int cp = -1; size_t len = 99; bool ok = decode_utf8(b, b + n, &cp, &len);
  sx_assert(ok == (good != 0), "decoding succeeds exactly for a complete sequence");
  if (good)
  {
    sx_reach("good");
    int v = want == 1 ? u[0] : want == 2 ? (u[0] - 0xc0) * 64 + (u[1] - 0x80) : want == 3 ? ((u[0] - 0xe0) * 64 + (u[1] - 0x80)) * 64 + (u[2] - 0x80)
      : (((u[0] - 0xf0) * 64 + (u[1] - 0x80)) * 64 + (u[2] - 0x80)) * 64 + (u[3] - 0x80);
    sx_assert(cp == v, "the value"); sx_assert(len == want, "the length");
    char t[32]; UTF8Char p; peek_utf8_char(b, b + n, &p); sx_assert(!memcmp(p.bytes, b, want), "peek gives the bytes");
  }
  else { sx_reach("bad"); sx_assert(len == 1, "invalid input advances one byte"); }
  UTF8Char p; sx_assert(peek_utf8_char(b, b + n, &p) == (good ? want : 0), "peek length");
  // with a NUL terminated text and no stop
  char *z = malloc(n + 1); memcpy(z, b, n); z[n] = 0;
  sx_assert(peek_utf8_char(z, NULL, &p) == (good ? want : 0), "peek length in a string");
  size_t bl, ul; str_b_u_len(b, b + n, &bl, &ul);
  size_t c = 0; for (int i = 0; i < n; ++i) c += (u[i] & 0xc0) != 0x80;
  sx_assert(bl == n, "bytes counted"); sx_assert(ul == c, "characters counted");
  size_t w = count_whitespace(b, b + n);
  size_t ref = u[0] == ' ' || u[0] == '\n' || u[0] == '\t' || u[0] == '\r' ? 1 : n >= 2 && u[0] == 0xc2 && u[1] == 0xa0 ? 2 : n >= 3 && u[0] == 0xe2 && u[1] == 0x80 && u[2] >= 0x80 && u[2] <= 0x83 ? 3 : 0;
  sx_assert(w == ref, "white space length");
}
void h_utf8_codepoint_string(void)
{
  int k = 1 + sx_choice(4, "len"); UTF8Char u; memset(&u, 0, sizeof u); sx_bytes(u.bytes, k, "b");
  unsigned char *b = (unsigned char*)u.bytes;
  sx_assume(k == 1 ? b[0] < 0x80 : k == 2 ? b[0] >= 0xc2 && b[0] < 0xe0 : k == 3 ? (b[0] & 0xf0) == 0xe0 && b[0] != 0xe0 : b[0] >= 0xf1 && b[0] <= 0xf3);
  for (int i = 1; i < k; ++i) sx_assume((b[i] & 0xc0) == 0x80);
  unsigned v = k == 1 ? b[0] : k == 2 ? (b[0] & 31) << 6 | (b[1] & 63) : k == 3 ? (b[0] & 15) << 12 | (b[1] & 63) << 6 | (b[2] & 63) : (b[0] & 7) << 18 | (b[1] & 63) << 12 | (b[2] & 63) << 6 | (b[3] & 63);
  char *buf = malloc(16);
  sx_assert(utf8_char_to_codepoint_string(&u, buf), "a code point");
  sx_assert(buf[0] == 'U' && buf[1] == '+', "prefix");
  unsigned got = 0; int i = 2;
  for (; buf[i]; ++i) { char c = buf[i]; sx_assert((c >= '0' & c <= '9') | (c >= 'A' & c <= 'F'), "hex digit"); got = got * 16 + (c <= '9' ? c - '0' : c - 'A' + 10); }
  sx_assert(i > 2 && (buf[2] != '0' || i == 3), "no leading zeros"); sx_assert(got == v, "the code point is printed in hex");
  sx_reach("done");
}

// ---- C09: rules r6..r10 of doc/xmq.tex over spaces, tabs (8 columns), newlines and letters
#include "trim.h"
static xmlNodePtr root_of(XMQDoc *d) { return xmlDocGetRootElement(xmqGetImplementationDoc(d)); }
static void trim_rules(int v, char *c, size_t n)
{
  // where the quote starts
  static const char *const pre[] = { "a='", "a=   '", "a=\n'", "a=\n     '", "b{a='", "a=\n          '", "a='1'\n /* x\n */ b='" };
  size_t m = strlen(pre[v]); char *s = malloc(m + n + 2); memcpy(s, pre[v], m); memcpy(s + m, c, n); s[m + n] = '\''; s[m + n + 1] = '}';
  size_t col = 0; for (size_t i = 0; i < m; ++i) { if (s[i] == '\n') col = 0; else col++; }
  XMQDoc *d = xmqNewDoc();
  bool ok = xmqParseBuffer(d, s, s + m + n + 1 + (v == 4), v == 6 ? "r" : NULL, 0);
  sx_assert(ok, "parses");
  xmlNodePtr r = root_of(d); if (v == 4) r = r->children; if (v == 6) r = r->last;
  const char *got = r->children && r->children->content ? (const char*)r->children->content : "";
  split_tab = 0;
  char *ref = trim_ref(col, c, n);
  sx_assume(!split_tab);   // a tab is never split
  sx_assert(!strcmp(got, ref), "the trimmed quote");
  sx_reach("done");
  xmqFreeDoc(d);
}
void h_trim_rules(void) { int v = sx_choice(7, "place"), n = 1 + sx_choice(B(8, 10), "n"); trim_rules(v, sym_alpha(n, " a\n", "content"), n); }
void h_trim_tabs(void) { int v = sx_choice(7, "place"), n = 1 + sx_choice(B(7, 9), "n"); trim_rules(v, sym_alpha(n, "\t a\n", "content"), n); }
// lines with up to 20 columns of indentation
void h_trim_deep(void)
{
  int v = sx_choice(7, "place"); char c[200]; size_t n = 0;
  int k = 1 + sx_choice(B(2, 3), "lines");
  for (int i = 0; i < k; ++i)
  {
    if (i || sx_choice(2, "first")) c[n++] = '\n';
    static const int ws[] = { 0, 1, 2, 7, 8, 9, 10, 11, 16, 3, 5, 15, 17, 24, 40 }; int w = ws[sx_choice(B(9, 15), "indent")]; if (sx_choice(2, "tab")) c[n++] = '\t'; for (int x = 0; x < w; ++x) c[n++] = ' ';
    sx_bytes(c + n, 1, "c"); sx_assume(in_set(c[n], "a\n\t ")); n++;
  }
  char *x = malloc(n); memcpy(x, c, n); trim_rules(v, x, n);
}
// two columns: a character counts as one column
void h_trim_columns(void)
{
  int n = 1 + sx_choice(B(7, 9), "n");
  char *c = sym_alpha(n, " a\n", "content");
  char *s = malloc(n + 20); int m = sprintf(s, "b{'\xc3\xa5\xe2\x82\xac\xf0\x9f\x98\x80' '"); memcpy(s + m, c, n); s[m + n] = '\''; s[m + n + 1] = '}';
  XMQDoc *d = xmqNewDoc(); sx_assert(xmqParseBuffer(d, s, s + m + n + 2, NULL, XMQ_FLAG_NOMERGE), "parses");
  xmlNodePtr t = root_of(d)->children; sx_assert(t && t->next == NULL || 1, "");
  char *ref = trim_ref(9, c, n); char *all = malloc(40 + n + strlen(ref)); sprintf(all, "\xc3\xa5\xe2\x82\xac\xf0\x9f\x98\x80%s", ref);
  char *got = malloc(100); got[0] = 0; for (; t; t = t->next) strcat(got, (const char*)t->content);
  sx_assert(!strcmp(got, all), "columns count characters");
  sx_reach("done"); xmqFreeDoc(d);
}
// any bytes: nothing but white space is ever dropped, and memory is respected
void h_trim_bytes(void)
{
  int n = sx_choice(1 + B(5, 6), "n"), indent = sx_choice(4, "indent"); char *c = sym_buf(n, "c");
  for (int i = 0; i < n; ++i) sx_assume(c[i] != 0);
  static char out[64];
  char *t = xmq_trim_quote(indent, sx_choice(2, "space") ? ' ' : 0, c, c + n);
  size_t o = 0; for (const char *p = t; *p; ++p) if (!in_set(*p, " \t\r\n")) { sx_assert(o < n, "nothing is added"); out[o++] = *p; }
  size_t j = 0; for (int i = 0; i < n; ++i) if (!in_set(c[i], " \t\r\n")) { sx_assert(j < o, "no content is dropped"); sx_assert(out[j] == c[i], "content is kept in order"); j++; }
  sx_assert(j == o, "nothing is added");
  size_t nl = 0, nl2 = 0; for (int i = 0; i < n; ++i) nl += (c[i] == '\n') + (c[i] == '\r'); for (const char *p = t; *p; ++p) nl2 += *p == '\n';
  sx_assert(nl2 <= nl, "no line is added");
  sx_reach("done"); free(t);
}

// ---- C10
void h_cquote_roundtrip(void)
{
  int n = sx_choice(1 + B(3, 4), "n"); char *s = sym_cstr(n, "s"); int q = sx_choice(2, "quotes");
  uint64_t live = sx_live_objects();
  char *a = xmq_quote_as_c(s, s + n, q);
  size_t l = strlen(a);
  if (q) sx_assert(l >= 2 && a[0] == '"' && a[l - 1] == '"', "surrounded by quotes");
  for (size_t i = q; i + q < l; ++i)
  {
    unsigned char c = a[i];
    sx_assert((c >= ' ' & c != 127) , "nothing but printable characters");
    if (c == '\\') { i++; sx_assert(i + q < l, "an escape is complete"); sx_assert(in_set(a[i], "\\\"abtnvfrx"), "an escape"); }
    else sx_assert(c != '"', "quotes are escaped");
  }
  char *b = xmq_unquote_as_c(a, a + l, q);
  sx_assert(!strcmp(b, s), "unquoting gives the string back");
  sx_reach("done");
  free(a); free(b); sx_assert(sx_live_objects() == live, "nothing is leaked");
}
void h_cunquote_bytes(void)
{
  int n = sx_choice(1 + B(8, 10), "n"); char *s = sym_buf(n, "s"); 
  uint64_t live = sx_live_objects();
  char *b = xmq_unquote_as_c(s, s + n, sx_choice(2, "quotes"));
  sx_assert(strlen(b) <= (size_t)n || !strcmp(b, "[Not a valid C escaped string]"), "not longer than the input");
  sx_reach("done"); free(b); sx_assert(sx_live_objects() == live, "nothing is leaked");
}

// ---- C15
static void xmlcomment(char *s, size_t n)
{
  uint64_t live = sx_live_objects();
  char *e = escape_xml_comment(s); const char *x = e ? e : s; size_t l = strlen(x);
  for (size_t i = 0; i + 1 < l; ++i) sx_assert(!(x[i] == '-' && x[i + 1] == '-'), "no double hyphen");
  sx_assert(!l || x[l - 1] != '-', "does not end with a hyphen");
  char *u = unescape_xml_comment(x); const char *y = u ? u : x;
  sx_assert(!strcmp(y, s), "unescaping gives the comment back");
  int special = 0; for (size_t i = 0; i < n; ++i) if (s[i] == '-' && (i + 1 == n || s[i + 1] == '-' || s[i + 1] == (char)0xe2)) special = 1;
  if (!special) { sx_assert(!e, "an ordinary comment is stored as it is"); sx_reach("plain"); } else sx_reach("special");
  free(e); free(u);
  sx_assert(sx_live_objects() == live, "nothing is leaked");
}
void h_xmlcomment_bytes(void) { int n = sx_choice(1 + B(8, 10), "n"); xmlcomment(sym_cstr(n, "s"), n); }
void h_xmlcomment_hyphens(void)
{
  int n = B(10, 12); char *s = malloc(3 * n + 1); size_t l = 0;
  char *k = sym_alpha(n, "-a\xe2", "k");
  for (int i = 0; i < n; ++i) { if (k[i] == (char)0xe2) { memcpy(s + l, "\xe2\x90\x90", 3); l += 3; } else s[l++] = k[i]; }
  s[l] = 0; xmlcomment(s, l);
}
