// C17 the ixml grammar parser, C18 character sets, C26 parsing with a grammar.
#include "h.h"
#include "parts/ixml.h"
#include "parts/vector.h"
#include "parts/hashmap.h"
#include <libxml/tree.h>
static void grammar(char *b, size_t n)
{
  uint64_t live = sx_live_objects();
  XMQDoc *d = xmqNewDoc();
  sx_budget(3000000);
  bool ok = xmqParseBufferWithType(d, b, b + n, NULL, XMQ_CONTENT_IXML, 0);
  int e = xmqDocErrno(d); const char *m = xmqDocError(d);
  sx_assert(ok == (e == 0), "the result tells whether there was an error");
  if (!ok) sx_assert(m && *m, "an error has a message");
  if (ok) sx_reach("accepted"); else sx_reach("rejected");
  xmqFreeDoc(d);
  sx_assert(sx_live_objects() == live, "nothing is leaked");
}
static char *cat3(const char *pre, size_t n, const char *post, size_t *len)
{
  size_t a = strlen(pre), c = strlen(post); char *b = malloc(a + n + c);
  memcpy(b, pre, a); memcpy(b + a + n, post, c); *len = a + n + c; return b;
}
static void around(const char *pre, size_t n, const char *alphabet, const char *post)
{
  size_t len; char *b = cat3(pre, n, post, &len), *s = b + strlen(pre);
  sx_bytes(s, n, "grammar");
  if (alphabet) for (size_t i = 0; i < n; ++i) sx_assume(in_set(s[i], alphabet));
  grammar(b, len); free(b);
}
#define SYNTAX "a=:.,;|\"'#[]()~-+*?{}>@^ Z"
// any bytes at all
void h_ixml_bytes(void) { size_t n = sx_choice(B(5, 6), "n"); char *b = sym_buf(n, "grammar"); grammar(b, n); free(b); }
// the characters that mean something in a grammar
void h_ixml_syntax(void) { size_t n = 1 + sx_choice(B(5, 7), "n"); around("", n, SYNTAX, ""); }
// an alternative inside of a rule
void h_ixml_term(void) { size_t n = 1 + sx_choice(B(4, 5), "n"); around("a=", n, SYNTAX, sx_choice(2, "closed") ? "." : ""); }
void h_ixml_second_term(void) { size_t n = 1 + sx_choice(B(3, 5), "n"); around("a=\"b\",", n, SYNTAX, "."); }
void h_ixml_group(void) { size_t n = 1 + sx_choice(B(4, 5), "n"); around("a=(", n, SYNTAX, sx_choice(2, "closed") ? ")." : ").b=a."); }
// inside of a character set
void h_ixml_set(void)
{
  static const char *pre[] = { "a=[", "a=~[", "a=-[", "a=^ ~ [ #61-" };
  size_t n = 1 + sx_choice(B(4, 5), "n"); around(pre[sx_choice(4, "pre")], n, "ab\"'#-;|]~[ {}.LlN9", sx_choice(2, "closed") ? "]." : "");
}
// inside of a string, with bytes that need not be valid text
void h_ixml_string(void)
{
  static const char *pre[] = { "a=\"", "a='", "a=+\"", "a=[\"x" };
  static const char *post[] = { "\".", "'.", "\".", "\"]." };
  int k = sx_choice(4, "kind"); size_t n = sx_choice(B(3, 4), "n"); around(pre[k], n, NULL, sx_choice(2, "closed") ? post[k] : "");
}
// an encoded character
void h_ixml_hex(void)
{
  static const char *pre[] = { "a=#", "a=+#", "a=[#", "a=-#" };
  int k = sx_choice(4, "kind"); size_t n = B(2, 3), z = sx_choice(9, "zeros");
  size_t len; char *b = cat3(pre[k], n + z, sx_choice(2, "closed") ? (k == 2 ? "]." : ".") : "", &len), *s = b + strlen(pre[k]);
  sx_bytes(s, n, "hex"); for (size_t i = 0; i < n; ++i) sx_assume(in_set(s[i], "01aFg. ]")); memset(s + n, '0', z); grammar(b, len); free(b);
}
// comments, also nested and not closed, wherever blanks may be
void h_ixml_comment(void)
{
  static const char *pre[] = { "{", "a{", "a={", "a=-{", "a=~{", "a=[\"b\"{", "a=\"b\"{", "a=\"b\".{" };
  static const char *post[] = { "a=\"b\".", "=\"b\".", "\"b\".", "\"b\".", "[\"b\"].", "-\"c\"].", ".", "" };
  int k = sx_choice(8, "kind"); size_t n = sx_choice(B(5, 7), "n"); around(pre[k], n, "{}\"-x", sx_choice(2, "rest") ? post[k] : "");
}
// the prolog
void h_ixml_prolog(void) { size_t n = sx_choice(B(4, 5), "n"); around("ixml version", n, " \"'.1{}=v", sx_choice(2, "rest") ? ".a=\"b\"." : ""); }
void h_ixml_prolog_name(void) { size_t n = B(4, 6); around("ixml", n, " verison={}:.\"", ""); }
// a character set with many members
void h_ixml_long_set(void)
{
  size_t k = B(70, 90); size_t len = 0; char *b = malloc(4 + k * 17 + 2); memcpy(b, "a=~[", 4); len = 4;
  for (size_t i = 0; i < k; ++i) { memcpy(b + len, i ? ";#10fff0-#10ffff" : " #10fff0-#10ffff", 16); len += 16; }
  memcpy(b + len, "].", 2); len += 2;
  char c; sx_bytes(&c, 1, "c"); sx_assume(in_set(c, "0123456789abcdef")); b[4 + 16 * (k / 2) + 7] = c;
  grammar(b, len); free(b);
}

// parses text with a grammar; the tree that was built, or NULL when the text was rejected
static XMQDoc *with_grammar(const char *g, size_t gn, const char *t, size_t tn)
{
  XMQDoc *gd = xmqNewDoc(), *d = xmqNewDoc();
  char *gb = malloc(gn ? gn : 1), *tb = malloc(tn ? tn : 1); memcpy(gb, g, gn); memcpy(tb, t, tn);
  if (!xmqParseBufferWithType(gd, gb, gb + gn, NULL, XMQ_CONTENT_IXML, 0)) sx_assert(0, "the grammar is accepted");
  bool ok = xmqParseBufferWithIXML(d, tb, tb + tn, gd, 0);
  free(gb); free(tb); xmqFreeDoc(gd);
  if (!ok) { xmqFreeDoc(d); return NULL; }
  return d;
}
// the tree as text: (name@attr=value:children) with texts as they are; *xml is the text alone
static void dump(xmlNode *n, char *o)
{
  for (; n; n = n->next)
  {
    if (n->type == XML_TEXT_NODE) { if (n->content) strcat(o, (char*)n->content); continue; }
    strcat(o, "("); strcat(o, (char*)n->name);
    for (xmlAttr *a = n->properties; a; a = a->next)
    {
      strcat(o, "@"); strcat(o, (char*)a->name); strcat(o, "=");
      for (xmlNode *t = a->children; t; t = t->next) if (t->content) strcat(o, (char*)t->content);
    }
    strcat(o, ":"); dump(n->children, o); strcat(o, ")");
  }
}
// the text is recognised exactly when want is not NULL, and then gives the tree want
static void parses(const char *g, size_t gn, const char *t, size_t tn, const char *want)
{
  XMQDoc *d = with_grammar(g, gn, t, tn);
  xmlNode *root = d ? xmlDocGetRootElement((xmlDoc*)xmqGetImplementationDoc(d)) : NULL;
  if (!want) { sx_assert(!root, "text outside of the language is rejected"); sx_reach("rejected"); }
  else
  {
    sx_assert(d && root, "text of the language is accepted");
    char *o = calloc(1, 400); dump(root, o); sx_assert(!strcmp(o, want), "the tree is what the grammar says"); free(o); sx_reach("accepted");
  }
  if (d) xmqFreeDoc(d);
}

// ---- C18
static size_t put(int c, char *o)
{
  if (c < 0x80) { o[0] = c; return 1; }
  if (c < 0x800) { o[0] = 0xc0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; }
  if (c < 0x10000) { o[0] = 0xe0 | c >> 12; o[1] = 0x80 | (c >> 6 & 63); o[2] = 0x80 | (c & 63); return 3; }
  o[0] = 0xf0 | c >> 18; o[1] = 0x80 | (c >> 12 & 63); o[2] = 0x80 | (c >> 6 & 63); o[3] = 0x80 | (c & 63); return 4;
}
static void member(const char *set, size_t n, int c, int in)
{
  char *g = malloc(n + 3), t[4], want[12]; memcpy(g, "a=", 2); memcpy(g + 2, set, n); g[n + 2] = '.';
  size_t tn = put(c, t); memcpy(want, "(a:", 3); memcpy(want + 3, t, tn); memcpy(want + 3 + tn, ")", 2);
  parses(g, n + 3, t, tn, in ? want : NULL); free(g);
}
static int any_ascii(void) { unsigned char c; sx_bytes(&c, 1, "c"); sx_assume(c > 0 && c < 0x80); return c; }
static int one_of(const char *set, const char *name) { unsigned char c; sx_bytes(&c, 1, name); sx_assume(in_set(c, set)); return c; }
void h_set_range(void)
{
  char s[] = "['?'-'?']"; int x = one_of(B("bf{", "abf{"), "from"), y = one_of(B("`fz", "`bfz"), "to"), c = any_ascii(); s[2] = x; s[6] = y;
  member(s, strlen(s), c, c >= x && c <= y);
}
void h_set_string(void)
{
  char s[] = "[\"??\"]"; int x = one_of("a'&9", "x"), y = one_of("ab]", "y"), c = any_ascii(); s[2] = x; s[3] = y;
  member(s, strlen(s), c, c == x || c == y);
}
// a doubled quote is a quote
void h_set_quotes(void)
{
  char s[] = "[????|'b']"; int q = one_of("\"'", "quote"), c = any_ascii(); memset(s + 1, q, 4);
  member(s, strlen(s), c, c == q || c == 'b');
}
void h_set_hex(void)
{
  char s[] = "[#6?-#?a;#3? ]"; int x = one_of(B("37F", "037aF"), "x"), y = one_of(B("6a", "56a"), "y"), z = one_of(B("0B", "09Bd"), "z"), c = any_ascii(); s[3] = x; s[6] = y; s[11] = z;
#define HV(h) ((h) <= '9' ? (h) - '0' : ((h) | 32) - 'a' + 10)
  member(s, strlen(s), c, (c >= 0x60 + HV(x) && c <= HV(y) * 16 + 10) || c == 0x30 + HV(z));
}
void h_set_mixed(void)
{
  char s[] = "[ 'm'-'?' ; #4? | \"?\";Nd ]"; int x = one_of("amo", "x"), y = one_of("19f", "y"), z = one_of("A$5", "z"), c = any_ascii(); s[7] = x; s[14] = y; s[19] = z;
  member(s, strlen(s), c, (c >= 'm' && c <= x) || c == 0x40 + HV(y) || c == z || (c >= '0' && c <= '9'));
}
void h_set_empty(void) { static const char *s[] = { "[]", "~[]", "[ ]" }; int k = sx_choice(3, "set"), c = one_of("a]\n~", "c"); member(s[k], strlen(s[k]), c, k == 1); }
// excluded: every other character matches
void h_set_not(void)
{
  static const char *s[] = { "~['b'-'d']", "~ [ #62-'d' ]", "~[\"bcd\"]", "~['b';'c'|#64]", "~['d'; 'b'-'c'; 'z'-'a']" };
  int k = sx_choice(5, "set"), c = TIER ? any_ascii() : one_of("`abcdez\n~ \x7f", "c"); member(s[k], strlen(s[k]), c, !(c >= 'b' && c <= 'd'));
}
void h_set_not_category(void)
{
  static const char *s[] = { "~[Nd]", "~[L]", "~[Lu;Ll]", "~['0'-'9';L]", "~[Zs]", "~[P]" };
  int k = sx_choice(6, "set"), c = TIER ? any_ascii() : one_of("/09:@AZ[`az{ _", "c"), d = c >= '0' && c <= '9', l = (c | 32) >= 'a' && (c | 32) <= 'z';
  int in = k == 0 ? d : k == 1 || k == 2 ? l : k == 3 ? d || l : k == 4 ? c == ' ' : in_set(c, "!\"#%&'()*,-./:;?@[\\]_{}");
  member(s[k], strlen(s[k]), c, !in);
}
// characters of two, three and four bytes
void h_set_unicode(void)
{
  static const struct { const char *s; int lo, hi, around; } v[] = {
    { "['\xc3\xa0'-'\xc3\xb6']", 0xe0, 0xf6, 0xe0 }, { "[#e0-#f6]", 0xe0, 0xf6, 0xf0 }, { "[#7e-#81]", 0x7e, 0x81, 0x80 }, { "[#7fe-#801]", 0x7fe, 0x801, 0x800 },
    { "['\xe2\x82\xac']", 0x20ac, 0x20ac, 0x20ac }, { "[#fffd-#10001]", 0xfffd, 0x10001, 0x10000 }, { "['\xf0\x9f\x98\x80'-#1f602]", 0x1f600, 0x1f602, 0x1f600 }, { "[#10fffe-#10ffff]", 0x10fffe, 0x10ffff, 0x10fff0 } };
  int k = sx_choice(8, "set"); unsigned char b; sx_bytes(&b, 1, "c"); sx_assume(b < B(32, 96)); int c = v[k].around - B(16, 48) + b; sx_assume(c <= 0x10ffff && c != 0xfffe && c != 0xffff); member(v[k].s, strlen(v[k].s), c, c >= v[k].lo && c <= v[k].hi);
}
#include "ucd.h"
// every Unicode category over the first characters
void h_set_category(void)
{
  int k = sx_choice(sizeof(cats) / sizeof(*cats), "category"), c; char s[8]; snprintf(s, 8, "[%s]", cats[k].name);
  if (!TIER) c = any_ascii(); else { unsigned char b[2]; sx_bytes(b, 2, "c"); c = b[0] << 8 | b[1]; sx_assume(c > 0 && c < 0x180); }
  unsigned cat = ucd[c]; member(s, strlen(s), c, (cats[k].mask >> cat) & 1);
}

// characters the tables lose: code points of five digits are stored as their first four, and ideographs, surrogates, private and unassigned are missing
void h_set_category_high(void)
{
  static const struct { const char *set, *not_set; int c, n, in; } v[] = {
    { "[Lu]", "~[Lu]", 0x10400, 0x28, 1 }, { "[Ll]", "~[Ll]", 0x10428, 0x28, 1 }, { "[Nd]", "~[Nd]", 0x1d7ce, 50, 1 }, { "[Lo]", "~[Lo]", 0x4e01, 60, 1 }, { "[So]", "~[So]", 0x1f600, 60, 1 },
    { "[Co]", "~[Co]", 0xe000, 60, 1 }, { "[Lu]", "~[Lu]", 0x1040, 3, 0 }, { "[Nd]", "~[Nd]", 0x104a, 1, 0 },
    { "[Ll]", "~[Ll]", 0x10400, 0x28, 0 }, { "[Nd]", "~[Nd]", 0x10400, 0x28, 0 }, { "[Lo]", "~[Lo]", 0x1f600, 60, 0 }, { "[Zs]", "~[Zs]", 0x2000, 11, 1 } };
  int k = sx_choice(12, "set"), neg = TIER ? sx_choice(2, "not") : 0; unsigned char b; sx_bytes(&b, 1, "c"); sx_assume(b < v[k].n && b < B(8, 60));
  if (k < 8) sx_known("unicode-tables");
  const char *s = neg ? v[k].not_set : v[k].set; member(s, strlen(s), v[k].c + b, neg ? !v[k].in : v[k].in);
}

// marks and repetition around a set say what becomes of the character, not which characters are members
void h_set_marks(void)
{
  static const char *mark[] = { "", "-", "^", "- ", "^{c}" }, *set[] = { "['b'-'d']", "~['b'-'d']", "[\"bcd\"]", "~[#62-#64]", "~['b'; 'c'-'d']", "[L]", "~[L]" }, *rep[] = { "", "?", "+", "*" };
  int m = sx_choice(5, "mark"), k = sx_choice(7, "set"), r = sx_choice(B(2, 4), "repeated"), first = sx_choice(2, "first"), c = one_of(B("ae\n5", "abde\n5Z"), "c");
  char g[40], t[2] = { 'x', c }, want[12]; strcpy(g, first ? "a=" : "a='x',"); strcat(g, mark[m]); strcat(g, set[k]); strcat(g, rep[r]); strcat(g, first ? ",'x'." : ".");
  int in = k == 0 || k == 2 ? c >= 'b' && c <= 'd' : k == 5 ? (c | 32) >= 'a' && (c | 32) <= 'z' : k == 6 ? !((c | 32) >= 'a' && (c | 32) <= 'z') : !(c >= 'b' && c <= 'd');
  if (first) { t[0] = c; t[1] = 'x'; }
  char kept[2] = { mark[m][0] == '-' ? 0 : c, 0 };
  strcpy(want, "(a:"); if (!first) strcat(want, "x"); strcat(want, kept); if (first) strcat(want, "x"); strcat(want, ")");
  parses(g, strlen(g), t, 2, in ? want : NULL);
}

// ---- C26: a grammar, all texts up to a length over an alphabet, and what the text means, written by hand
static char T[16], W[400]; static int N, P;
static void text(int max, const char *alphabet)
{
  N = sx_choice(max + 1, "n"); sx_bytes(T, N, "text"); for (int i = 0; i < N; ++i) sx_assume(in_set(T[i], alphabet));
  T[N] = 0; P = 0; W[0] = 0;
}
static void w(const char *s) { strcat(W, s); }
static void wc(char c) { char b[2] = { c, 0 }; strcat(W, b); }
static void run(const char *g, int ok) { parses(g, strlen(g), T, N, ok && P == N ? W : NULL); }
// repetitions
void h_lang_repeat(void)
{
  text(B(4, 5), "abx"); w("(S:(A:"); int ok = 0;
  while (T[P] == 'a') { wc('a'); P++; ok = 1; }
  w(")(B:"); while (T[P] == 'b') { wc('b'); P++; } w("))");
  run("S = A, B. A = 'a'+. B = 'b'*.", ok);
}
void h_lang_option(void)
{
  text(B(4, 5), "abc"); w("(S:"); int ok = 1;
  if (T[P] == 'a') { w("a"); P++; }
  if (T[P] == 'b') { w("b"); P++; } else if (T[P] == 'c') { w("c"); P++; } else ok = 0;
  if (T[P] == 'a' && T[P + 1] == 'b') { w("(d:ab)"); P += 2; }
  w(")"); run("S = 'a'?, ('b' | 'c'), d?. d = \"ab\".", ok);
}
// recursion: left, right, in the middle, through empty alternatives
void h_lang_nested(void)
{
  text(B(5, 6), "()x"); int d = 0; while (T[P] == '(') { w("(S:("); P++; d++; }
  w("(S:)"); int ok = 1; while (d--) { if (T[P] != ')') { ok = 0; break; } w("))"); P++; }
  run("S = '(', S, ')' | .", ok);
}
static int expr(void)
{
  // E = T; E '+' T, as left nesting: the number of opened E is found by looking for the operands first
  int n = 0, d = 0;
  for (int i = P; T[i] && !(T[i] == ')' && d == 0); ++i) { if (T[i] == '(') d++; if (T[i] == ')') d--; if (T[i] == '+' && d == 0) n++; }
  for (int i = 0; i <= n; ++i) w("(E:");
  for (int i = 0; i <= n; ++i)
  {
    if (i) { if (T[P] != '+') return 0; w("+"); P++; }
    w("(T:"); if (T[P] == 'a') { w("a"); P++; } else if (T[P] == '(') { w("("); P++; if (!expr()) return 0; if (T[P] != ')') return 0; w(")"); P++; } else return 0;
    w("))");
  }
  return 1;
}
void h_lang_expression(void) { text(B(4, 5), "a+()"); int ok = expr(); run("E = T; E, '+', T. T = 'a' | '(', E, ')'.", ok); }
void h_lang_empty(void)
{
  text(B(4, 5), "abx"); w("(S:"); int n = 0; while (T[P] == 'a') { w("(A:a"); P++; n++; } w("(A:)"); while (n--) w(")");
  int ok = T[P] == 'x'; if (ok) { w("x"); P++; } w(")"); run("S = A, 'x'. A = ; 'a', A.", ok);
}
// lists with separators, and hidden parts
void h_lang_list(void)
{
  text(B(4, 5), "[],ab"); w("(S:"); int ok = T[P] == '['; if (ok) P++;
  if (T[P] == 'a' || T[P] == 'b') for (;;)
  {
    if (T[P] != 'a' && T[P] != 'b') { ok = 0; break; }
    w("(x:"); while (T[P] == 'a' || T[P] == 'b') wc(T[P++]); w(")");
    if (T[P] != ',') break; P++;
  }
  if (T[P] == ']') P++; else ok = 0; w(")"); run("S = -'[', x**(-','), -']'. x = ['a'-'b']+.", ok);
}
void h_lang_list_plus(void)
{
  text(B(4, 5), "a,;"); w("(S:"); int ok = 1;
  for (;;) { if (T[P] != 'a') { ok = 0; break; } w("(x:a)"); P++; if (T[P] == ',') w(","); else if (T[P] == ';') w("(semi:;)"); else break; P++; }
  w(")"); run("S = x++(',' | semi). x = 'a'. semi = ';'.", ok);
}
void h_lang_not(void)
{
  text(B(3, 4), "a\"b\\"); w("(S:"); int ok = T[P] == '"'; if (ok) P++;
  while (P < N && T[P] != '"') { if (T[P] == '\\') { P++; if (P >= N) break; w("(e:"); wc(T[P]); w(")"); P++; } else wc(T[P++]); }
  if (T[P] == '"') P++; else ok = 0; w(")"); run("S = -'\"', (~['\"\\'] | e)*, -'\"'. e = -'\\', ~[].", ok);
}
// marks: attributes, hidden rules, overridden marks, renamed rules
void h_lang_marks(void)
{
  text(B(4, 5), "abcd"); int ok = 1; char k = T[P], v;
  if (k != 'a' && k != 'b') ok = 0; else P++;
  v = T[P]; if (ok && (v == 'c' || v == 'd')) P++; else ok = 0;
  w("(S@k="); wc(k ? k : '?'); w(":"); wc(v ? v : '?'); while (T[P] == 'a') { w("(m:a)"); P++; } if (T[P] == 'd') { P++; } w(")");
  run("S = @k, v, ^m*, -w?. k = 'a' | 'b'. -v = 'c' | 'd'. @m = 'a'. w = -'d'.", ok);
}
void h_lang_attribute(void)
{
  // the value of an attribute is its text without what is hidden
  text(B(4, 5), "ab="); w("(S@k="); int ok = 0, q = P;
  while (T[q] == 'a') { w("a"); q++; ok = 1; } if (ok && T[q] == '=') { q++; int b = 0; while (T[q] == 'b') { w("b"); q++; b = 1; } ok = b; } else ok = 0;
  P = q; w(":)"); run("S = k. @k = n, -'=', -o. n = 'a'+. o = 'b'+.", ok);
}
void h_lang_rename(void)
{
  text(B(3, 4), "ab"); int ok = T[0] == 'a' || T[0] == 'b'; w("(S:(z:"); if (ok) wc(T[P++]); w(")"); while (T[P] == 'b') { w("(y:b)"); P++; } w(")");
  run("S = x, y*. x>z = 'a'; 'b'. y = 'b'.", ok);
}
// the mark of one term says nothing about the next
void h_lang_mark_scope(void)
{
  text(B(4, 5), "abc"); w("(S@x=a:"); int ok = T[P] == 'a'; if (ok) P++;
  while (T[P] == 'b') { w("b"); P++; } if (T[P] == 'c') { w("c"); P++; } w(")");
  run(sx_choice(2, "set") ? "S = @x, ['b']*, ('c')?. x = 'a'." : "S = @x, ^['b'-'b']*, (^'c')?. x = 'a'.", ok);
}
void h_lang_hidden_scope(void)
{
  text(B(4, 5), "abcx"); w("(S:"); int ok = T[P] == 'a'; if (ok) P++;
  while (T[P] == 'b') { w("(y:b)"); P++; if (T[P] == 'x') P++; } if (T[P] == 'c') { w("c"); P++; } w(")");
  run("S = -'a', (y, (|-'x'))*, ['c']?. y = 'b'.", ok);
}
// inserted text
void h_lang_insert(void)
{
  text(B(4, 5), "abx"); w("(S:"); int ok = T[P] == 'a'; if (ok) P++; w("a<>");
  if (T[P] == 'b') { P++; w("bA"); } w(")"); run("S = 'a', +'<>', ('b', +#41)?.", ok);
}
// comments, encoded characters, alternatives and quotes in grammars
void h_lang_notation(void)
{
  text(B(4, 5), "a'\"b"); w("(S:"); int ok = T[P] == 'a'; if (ok) { P++; w("a"); }
  if (T[P] == '\'') { w("'"); P++; } else if (T[P] == '"') { w("\""); P++; } else ok = 0;
  if (T[P] == 'b') { w("b"); P++; } w(")");
  run("ixml version '1.0' . { a {nested} comment } S{}:{x}#61{'},('''' ; \"\"\"\"){|},[#62]?{.}.{'}", ok);
}
// characters of several bytes
void h_lang_unicode(void)
{
  int n = sx_choice(B(3, 4), "n"); P = 0; N = 0; W[0] = 0; w("(S:"); int ok = 1, bad = 0; char b[4];
  for (int i = 0; i < n; ++i)
  {
    sx_bytes(b, 3, "text"); sx_assume(in_set(b[0], "\xc3\xe2" "a"));
    if (b[0] == 'a') { T[N++] = 'a'; ok = 0; continue; }
    if ((unsigned char)b[0] == 0xc3) { sx_assume(in_set(b[1], "\xa4\xa5\xb6")); T[N++] = b[0]; T[N++] = b[1]; wc(b[0]); wc(b[1]); if ((unsigned char)b[1] == 0xb6) bad = 1; continue; }
    sx_assume((unsigned char)b[1] == 0x82 && in_set(b[2], "\xac\xad")); if ((unsigned char)b[2] == 0xad) bad = 1;
    T[N++] = b[0]; T[N++] = b[1]; T[N++] = b[2]; w("(e:"); wc(b[0]); wc(b[1]); wc(b[2]); w(")");
  }
  T[N] = 0; P = N; w(")"); run("S = (['\xc3\xa4'-'\xc3\xa5'] | e)*. e = '\xe2\x82\xac'.", ok && !bad);
}
// text that is not valid UTF-8 is rejected and nothing else happens
void h_lang_bytes(void)
{
  N = 1 + sx_choice(3, "n"); sx_bytes(T, N, "text"); for (int i = 0; i < N; ++i) sx_assume(TIER && N < 3 ? T[i] != 0 : in_set(T[i], "a\x80\xc3\xe2\xf0\xbf\xff\n"));
  uint64_t live = sx_live_objects(); XMQDoc *d = with_grammar("S = 'a'*.", 9, T, N); int all = 1; for (int i = 0; i < N; ++i) all &= T[i] == 'a';
  if (is_utf8(T, N)) sx_assert((d != NULL) == all, "only the texts of the language are accepted"); if (d) { xmqFreeDoc(d); sx_reach("accepted"); } else sx_reach("rejected");
  sx_assert(sx_live_objects() == live, "nothing is leaked");
}
// repeated groups of different lengths
void h_lang_groups(void)
{
  text(B(5, 6), "abx"); w("(S:"); int ok = 1;
  while (P < N) { if (T[P] == 'a' && T[P + 1] == 'b') { w("ab"); P += 2; } else if (T[P] == 'b' && T[P + 1] == 'a') { w("b(x:a)"); P += 2; } else break; }
  w(")"); run("S = ('ab' | 'b', x)*. x = 'a'.", ok);
}
void h_lang_between(void)
{
  text(B(5, 6), "abcx"); w("(S:"); int ok = T[P] == 'a'; if (ok) { w("a"); P++; }
  if (T[P] == 'x') for (;;) { if (T[P] != 'x') { ok = 0; break; } w("(x:x)"); P++; if (T[P] != 'b') break; w("b"); P++; }
  if (T[P] == 'c') { w("c"); P++; } else ok = 0; w(")"); run("S = 'a', x**'b', 'c'. x = 'x'.", ok);
}
void h_lang_hidden_set(void)
{
  text(B(4, 5), "abcd"); w("(S:"); int ok = 0; while (T[P] == 'a' || T[P] == 'b') { P++; ok = 1; }
  if (T[P] == 'c') { w("c"); P++; } else ok = 0;
  if (T[P] == 'd') P++; else ok = 0; w(")"); run("S = -['a'-'b']+, ^'c', -~['a'-'c'].", ok);
}
void h_lang_insert_between(void)
{
  text(B(4, 5), "ab,"); w("(S:"); int ok = 1;
  for (;;) { if (T[P] != 'a' && T[P] != 'b') { ok = 0; break; } w("(x:"); wc(T[P]); w("?)"); P++; if (T[P] != ',') break; w("; "); P++; }
  w(")"); run("S = x++(-',', +'; '). x = ('a'|'b'), +\"?\".", ok);
}
// the same set used twice, and sets that overlap
void h_lang_same_set(void)
{
  text(B(4, 5), "abc"); w("(S:"); int ok = (T[P] == 'a' || T[P] == 'b'); if (ok) { wc(T[P]); P++; w("(x:"); if (T[P] == 'b' || T[P] == 'c') { wc(T[P]); P++; } else ok = 0; w(")"); if (T[P] == 'a' || T[P] == 'b') { wc(T[P]); P++; } else ok = 0; }
  w(")"); run("S = ['a'-'b';'b'], x, ['a'-'b';'b']. x = ['b'-'c'; #62].", ok);
}
