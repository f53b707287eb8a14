#ifndef TEMPLATES_H
#define TEMPLATES_H
// templates: arbitrary bytes dropped into a larger document
static const char *const tmpl[] = {
  "alfa(b='x y' c @) { d = 'z' }", "alfa {\n  beta = @\n  gamma\n}\n", "a = (' x ' &#10; @ 'y')", "!DOCTYPE = @\na", "?pi = @\na", "ns:a(xmlns:ns=u x:y@=1){b}",
  "/* one\n */* two @ */ a", "a='''it''s @'''", "a(x=(@'' &#9;))", "a{b{c{d{e = @}}}}", "a(xmlns@)", "\xc3\xa5\xe2\x82\xac@\xf0\x9f\x98\x80=1", "&@; 'x'",
  "a=1\nb=2\nc='\xc3\xa5\n@'\nd", "a(\n b=1\n\n c=@", "////* x *///@",
  "a(xmlns:@=u xmlns:b=v)", "a(xmlns:xm@=u x:xm=v)", "a(xmlns=x xmlns@=y){b(c=@)}", "a(x:b=1 x:c=@ xmlns:x=@u){x:d}", "xm@:a(xm:b)", "?a=@ b", "!DOCTYPE=@ a", "!DOCTYPE='a@' a", "a { 'x' @ 'y' }", "a(b b@)", "a=1 b(c=@)=2", "!DOCTYPE=a b@", "/* x */ /**/@ ////* y *///// b", "x(xmlns=u xmlns:y='v'){y:z(y:w=(&q;'t'))}@" };
#define NT (sizeof tmpl / sizeof *tmpl)
static char *template(int holes, size_t *len)
{
  int t = sx_choice(NT, "template");
  const char *s = tmpl[t]; const char *at = strchr(s, '@');
  size_t a = at - s, z = strlen(at + 1);
  char *b = malloc(a + holes + z);
  memcpy(b, s, a); sx_bytes(b + a, holes, "hole"); memcpy(b + a + holes, at + 1, z);
  *len = a + holes + z;
  return b;
}
// any template cut off after any byte, or with a byte dropped, and arbitrary bytes inserted there
static char *edited(int holes, size_t *len)
{
  const char *s = tmpl[sx_choice(NT, "template")]; size_t n = strlen(s);
  char *c = malloc(n + 1); size_t m = 0; for (size_t i = 0; i < n; ++i) { if (s[i] != '@') c[m++] = s[i]; }
  size_t at = sx_choice(m + 1, "at"), skip = sx_choice(3, "skip"); size_t z = skip == 2 ? m : at + skip; if (z > m) z = m;
  char *b = malloc(at + holes + m - z); memcpy(b, c, at); sx_bytes(b + at, holes, "hole"); memcpy(b + at + holes, c + z, m - z);
  *len = at + holes + m - z; free(c);
  return b;
}
// something repeated many times before and after arbitrary bytes
typedef struct { const char *pre, *one, *mid, *two, *post; int exact; } Rep;
static const Rep reps[] = {
  { "a=", "'", "@", "'", " b" }, { "a=", "'", "x@ ", "'", "" }, { "", "/", "*x @*", "/", "a", 1 }, { "b ", "/", "*@x", "/", "", 1 }, { "", "a{", "@", "}", "b", 2 }, { "a=", "x", "@", "y", " c" }, { "a=(", "'x' ", "@", "&y;", ")" },
  { "a(", "b=1 ", "@", " c", ")" }, { "", "\n", "@", " ", "a" }, { "/*", "\n", "@", " ", "*/a" }, { "/*a", "*", "@", "*", "/b" }, { "/*a*/", "*b*/", "@", "*\n*/", "" }, { "", "//x\n", "@", "/**/", "" },
  { "a='", "\n  ", "@", "\xc3\xa5", "' b" }, { "a=&", "x", "@", "y", "; b" }, { "", "n", "@", "s", ":b" }, { "", "a\n", "@", "b{c}", "d" }, { "\n\n  a='", " ", "@\n", " ", "y' //" }, { "?a=", "b", "@", "c", " d" },
  { "a(b='", "\xe2\x82\xac", "@", "'", "" }, { "a=&#", "0", "@", "1", "; b" }, { "a(x=(", "&#9;", "@", "''", "))b" }, { "!DOCTYPE=", "x", "@", "y", " b" }, { "a", "()", "@", "{}", "" }, { "/*", "\xc3\xa5", "*@", "\n", "*/a" } };
static int nesting = 10000;
static char *repeated_of(const Rep *reps, int nreps, const int *count, int counts, int holes, size_t *len)
{
  int t = sx_choice(nreps, "repeated"), k = count[sx_choice(counts, "count")], m = reps[t].exact & 1 ? k : sx_choice(2, "both") ? k : 1;
  sx_assume(!(reps[t].exact & 2) || k <= nesting);
  size_t lp = strlen(reps[t].pre), l1 = strlen(reps[t].one), l2 = strlen(reps[t].two), lm = strlen(reps[t].mid), le = strlen(reps[t].post), n = 0;
  size_t at = strchr(reps[t].mid, '@') - reps[t].mid;
  char *b = malloc(lp + k * l1 + lm - 1 + holes + m * l2 + le);
  memcpy(b, reps[t].pre, lp); n = lp; for (int i = 0; i < k; ++i, n += l1) memcpy(b + n, reps[t].one, l1);
  memcpy(b + n, reps[t].mid, at); n += at; sx_bytes(b + n, holes, "hole"); n += holes; memcpy(b + n, reps[t].mid + at + 1, lm - at - 1); n += lm - at - 1;
  for (int i = 0; i < m; ++i, n += l2) memcpy(b + n, reps[t].two, l2);
  memcpy(b + n, reps[t].post, le); *len = n + le; return b;
}
static char *repeated(const int *count, int counts, int holes, size_t *len) { return repeated_of(reps, sizeof reps / sizeof *reps, count, counts, holes, len); }
#endif
