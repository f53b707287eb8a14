// C16 containers, C19 numbers, C25 sorting and colours
#include "h.h"
#include "parts/membuffer.h"
#include "parts/hashmap.h"
#include "parts/stack.h"
#include "parts/vector.h"
#include "parts/core.h"
#include "parts/quicksort_strings.h"
#include "parts/colors.h"
#include "parts/quicksort_strings.c"   // not part of xmq.c
#include "xmq.h"
#include <libxml/tree.h>
// ---- C16
static void *sym_ptr(void) { uintptr_t v; sx_bytes(&v, sizeof v, "data"); return (void*)v; }
void h_stack_ops(void)
{
  uint64_t live = sx_live_objects();
  Stack *s = stack_create(); void *ref[16]; int lo = 0, hi = 0, k = B(10, 13);
  for (int i = 0; i < k; ++i)
  {
    int op = sx_choice(hi > lo ? 3 : 1, "op");
    if (op == 0) { ref[hi] = sym_ptr(); stack_push(s, ref[hi++]); }
    else if (op == 1) { void *p = stack_pop(s); sx_assert(p == ref[--hi], "pop gives what was pushed last"); }
    else { void *p = stack_rock(s); sx_assert(p == ref[lo++], "rock gives what was pushed first"); }
    sx_assert(s->size == (size_t)(hi - lo), "the size is the number of elements");
  }
  stack_free(s);
  sx_assert(sx_live_objects() == live, "nothing is leaked"); sx_reach("done");
}
static int freed; static void count_free(void *p) { freed++; free(p); }
static void vector_run(int fill, int steps)
{
  uint64_t live = sx_live_objects();
  Vector *v = vector_create(); void **ref = malloc((fill + steps + 1) * sizeof *ref); size_t n = 0;
  for (; n < (size_t)fill; ++n) { ref[n] = (void*)(n * 8 + 8); vector_push_back(v, ref[n]); }
  for (int i = 0; i < steps; ++i)
  {
    int op = sx_choice(n ? 2 : 1, "op");
    if (op == 0) { ref[n] = sym_ptr(); vector_push_back(v, ref[n++]); }
    else sx_assert(vector_pop_back(v) == ref[--n], "pop gives what was pushed last");
    sx_assert(v->size == n, "the size is the number of elements");
    for (size_t k = n > 8 ? n - 8 : 0; k < n; ++k) sx_assert(vector_element_at(v, k) == ref[k], "elements stay where they are");
  }
  for (size_t k = 0; k < n; ++k) sx_assert(vector_element_at(v, k) == ref[k], "elements stay where they are");
  vector_free(v); free(ref);
  sx_assert(sx_live_objects() == live, "nothing is leaked"); sx_reach("done");
}
void h_vector_ops(void) { static const int fill[] = { 0, 14, 30, 62 }; vector_run(fill[sx_choice(4, "fill")], B(6, 9)); }
void h_vector_big(void) { static const int fill[] = { 510, 1022, 2046 }; vector_run(fill[sx_choice(3, "fill")], 4); }
void h_vector_values(void)
{
  uint64_t live = sx_live_objects();
  Vector *v = vector_create(); int n = sx_choice(B(20, 36), "n"); freed = 0;
  for (int i = 0; i < n; ++i) vector_push_back(v, malloc(1));
  vector_free_and_values(v, count_free);
  sx_assert(freed == n, "every value is freed once"); sx_assert(sx_live_objects() == live, "nothing is leaked"); sx_reach("done");
}
static void map_run(int size, int steps, int len)
{
  uint64_t live = sx_live_objects();
  HashMap *m = hashmap_create(size); char *key[8]; void *val[8]; int n = 0;
  for (int i = 0; i < steps; ++i)
  {
    char *k = sym_cstr(sx_choice(len + 1, "len"), "key");
    int at = -1; for (int x = 0; x < n; ++x) if (!strcmp(key[x], k)) at = x;
    void *old = hashmap_get(m, k);
    sx_assert(old == (at < 0 ? NULL : val[at]), "get gives the last value put for the key");
    void *p = sym_ptr(); sx_assume(p != NULL);
    hashmap_put(m, k, p);
    if (at < 0) { key[n] = k; val[n++] = p; } else { val[at] = p; free(k); }
    sx_assert(hashmap_size(m) == (size_t)n, "the size is the number of different keys");
    for (int x = 0; x < n; ++x) sx_assert(hashmap_get(m, key[x]) == val[x], "get gives the last value put for the key");
  }
  HashMapIterator *it = hashmap_iterate(m); const char *k; void *p; int seen = 0;
  while (hashmap_next_key_value(it, &k, &p))
  {
    int at = -1; for (int x = 0; x < n; ++x) if (!strcmp(key[x], k)) at = x;
    sx_assert(at >= 0 && !(seen >> at & 1) && p == val[at], "the iterator gives every key once with its value"); seen |= 1 << at;
  }
  sx_assert(seen == (1 << n) - 1, "the iterator gives every key");
  hashmap_free_iterator(it); hashmap_free(m);
  for (int x = 0; x < n; ++x) free(key[x]);
  sx_assert(sx_live_objects() == live, "nothing is leaked"); sx_reach("done");
}
void h_map_ops(void) { int s = 1 + sx_choice(B(4, 5), "size"); map_run(s, B(3, 4), 1); }
void h_map_long_keys(void) { int s = 1 + sx_choice(B(2, 3), "size"); map_run(s, B(2, 3), B(2, 2)); }
void h_map_values(void)
{
  uint64_t live = sx_live_objects();
  HashMap *m = hashmap_create(1 + sx_choice(4, "size")); int n = sx_choice(6, "n"); freed = 0;
  for (int i = 0; i < n; ++i) { char k[2] = { 'a' + i, 0 }; hashmap_put(m, k, malloc(1)); }
  hashmap_free_and_values(m, count_free);
  sx_assert(freed == n, "every value is freed once"); sx_assert(sx_live_objects() == live, "nothing is leaked"); sx_reach("done");
}
static void buffer_run(int first, int steps)
{
  uint64_t live = sx_live_objects();
  MemBuffer *mb = new_membuffer(); char *ref = malloc(first + steps * 3000 + 1); size_t n = 0;
  // up to just before a growth
  if (first) { memset(ref, 'x', first); membuffer_append_region(mb, ref, ref + first); n = first; }
  char *data = sym_cstr(8, "bytes");
  char *big = malloc(2501); memset(big, 'b', 2500); big[2500] = 0;
  for (int i = 0; i < steps; ++i)
  {
    switch (sx_choice(9, "op"))
    {
    case 0: membuffer_append_char(mb, data[0]); ref[n++] = data[0]; break;
    case 1: { int l = sx_choice(3, "length") * 4; membuffer_append_region(mb, data, data + l); memcpy(ref + n, data, l); n += l; break; }
    case 2: membuffer_append(mb, data + 4); memcpy(ref + n, data + 4, 4); n += 4; break;
    case 3: { int v; sx_bytes(&v, sizeof v, "int"); membuffer_append_int(mb, v); memcpy(ref + n, &v, sizeof v); n += sizeof v; break; }
    case 4: { void *v = sym_ptr(); membuffer_append_pointer(mb, v); memcpy(ref + n, &v, sizeof v); n += sizeof v; break; }
    case 5: membuffer_append_null(mb); ref[n++] = 0; break;
    case 6: membuffer_drop_last_null(mb); if (n && ref[n - 1] == 0) n--; break;
    case 7: { static const char *const e[] = { " &#32;", "\n&#10;", "\t&#9;", "\r&#13;" }; const char *x = e[sx_choice(4, "entity")]; membuffer_append_entity(mb, x[0]); strcpy(ref + n, x + 1); n += strlen(x + 1); break; }
    case 8: { static const int l[] = { 1023, 1024, 1025, 2500 }; int k = sx_choice(4, "size"); if (sx_choice(2, "region")) membuffer_append_region(mb, big, big + l[k]); else membuffer_append(mb, big + 2500 - l[k]); memcpy(ref + n, big, l[k]); n += l[k]; break; }
    }
    sx_assert(membuffer_used(mb) == n, "the size is the number of bytes appended");
    sx_assert(membuffer_back(mb) == (n ? ref[n - 1] : 0), "back is the last byte");
    size_t f = n > 40 ? n - 40 : 0;
    sx_assert(n == 0 || sx_memeq(mb->buffer_ + f, ref + f, n - f), "the content is what was appended");
  }
  if (sx_choice(2, "keep")) { membuffer_append_null(mb); char *c = free_membuffer_but_return_trimmed_content(mb); sx_assert(sx_memeq(c, ref, n) && c[n] == 0, "the content is what was appended"); free(c); }
  else free_membuffer_and_free_content(mb);
  free(ref); free(data); free(big);
  sx_assert(sx_live_objects() == live, "nothing is leaked"); sx_reach("done");
}
void h_buffer_ops(void) { buffer_run(0, B(3, 4)); }
void h_buffer_growth(void) { static const int at[] = { 1016, 1020, 1023, 1024, 1025, 2040, 2047, 2048 }; buffer_run(at[sx_choice(8, "at")], B(2, 3)); }
// ---- C19
static int val_of(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
// the number s is (C integer literal with a sign), in range of [-2^(bits-1), 2^(bits-1)); all: no other characters
static int number(const char *s, int bits, int64_t *out)
{
  int neg = 0, base = 10, any = 0; uint64_t v = 0, lim = (uint64_t)1 << (bits - 1);
  if (*s == '-') { neg = 1; s++; } else if (*s == '+') s++;
  if (*s == '0' && s[1] == 'x') { base = 16; s += 2; } else if (*s == '0') { base = 8; }
  for (; *s; ++s) { int d = val_of(*s); if (d >= base) return 0; if (v > (lim - d) / base) return 0; v = v * base + d; any = 1; }
  if (!any || (!neg && v == lim)) return 0;
  *out = neg ? (int64_t)(0 - v) : (int64_t)v; return 1;
}
static void int8(char *t)
{
  int64_t want; int8_t got = 77;
  int ok = number(t, 8, &want), r = coreParseI8(t, &got);
  // leading white space and 0X are accepted as well
  int lead = t[0] == ' ' || (t[0] >= 9 && t[0] <= 13); for (char *c = t; *c; ++c) lead |= *c == 'X';
  if (ok) { sx_assert(r, "a number in range is accepted"); sx_assert(got == want, "the value is exact"); sx_reach("accepted"); }
  else if (!lead) { sx_assert(!r, "anything else is rejected"); sx_assert(got == 77, "a rejected text leaves the result alone"); sx_reach("rejected"); }
  free(t);
}
void h_int8(void) { int8(sym_cstr(sx_choice(B(6, 8), "n"), "text")); }
void h_int8_long(void)
{
  static const char *const p[] = { "00000000000000000000", "-", "-0000000000", "0x0000000000000000", "9223372036854775", "1844674407370955161", "-9223372036854775", "0xfffffffffffff" };
  const char *f = p[sx_choice(8, "prefix")]; int n = sx_choice(B(4, 5), "n"); char *s = sym_cstr(n, "text"), *t = malloc(strlen(f) + n + 1);
  sprintf(t, "%s%s", f, ""); memcpy(t + strlen(f), s, n + 1); free(s); int8(t);
}
static XMQDoc *number_doc(char *t, int place)
{
  XMQDoc *d = xmqNewDoc(); xmlDocPtr x = (xmlDocPtr)xmqGetImplementationDoc(d);
  xmlNodePtr r = xmlNewDocNode(x, NULL, (xmlChar*)"r", NULL), a; xmlDocSetRootElement(x, r);
  if (place == 2) { xmlNewProp(r, (xmlChar*)"a", (xmlChar*)t); return d; }
  if (place == 1) xmlAddChild(r, xmlNewDocNode(x, NULL, (xmlChar*)"b", NULL));
  a = xmlNewDocNode(x, NULL, (xmlChar*)"a", NULL); xmlAddChild(r, a); xmlAddChild(a, xmlNewDocText(x, (xmlChar*)t));
  if (place == 1) { xmlNodePtr b = xmlNewDocNode(x, NULL, (xmlChar*)"a", NULL); xmlAddChild(r, b); xmlAddChild(b, xmlNewDocText(x, (xmlChar*)"5")); }
  return d;
}
static void get_number(char *t, int place)
{
  uint64_t live = sx_live_objects();
  XMQDoc *d = number_doc(t, place); int64_t want;
  const char *path = place == 2 ? "/r/@a" : "/r/a";
  const char *c = xmqGetString(d, path);
  sx_assert(c && !strcmp(c, t), "the string of a location is its content");
  int32_t i = xmqGetInt(d, path); int64_t l = xmqGetLong(d, path);
  // a sign in front of a base prefix is not a number for these
  int sign = (t[0] == '-' || t[0] == '+') && t[1] == '0';
  if (!sign)
  {
    if (number(t, 32, &want)) { sx_assert(i == want, "an int is read exactly"); sx_reach("int"); }
    if (number(t, 64, &want)) { sx_assert(l == want, "a long is read exactly"); sx_reach("long"); }
  }
  int blank = 1; for (char *p = t; *p; ++p) blank &= in_set(*p, " \t\n\r\v\f");
  if (blank || in_set(*t, "abxyz{'&.#")) { sx_assert(i == 0 && l == 0, "no number gives 0"); sx_reach("none"); }
  sx_assert(xmqGetInt(d, "/r/none") == 0 && xmqGetLong(d, "/x") == 0 && !xmqGetString(d, "/r/none"), "no content gives 0");
  xmqFreeDoc(d);
  sx_assert(sx_live_objects() == live, "nothing is leaked"); sx_reach("done"); free(t);
}
void h_get_number(void) { int p = sx_choice(3, "place"); char *t = sym_cstr(1 + sx_choice(B(5, 6), "n"), "text"); for (char *c = t; *c; ++c) sx_assume((unsigned char)*c < 128 && xml_ascii(*c)); get_number(t, p); }
void h_get_limits(void)
{
  static const char *const p[] = { "21474836", "-21474836", "0x7ffff", "0177777777", "92233720368547758", "-92233720368547758", "0x7ffffffffffff", "07777777777777777777" };
  static const int left[] = { 2, 2, 3, 2, 2, 2, 3, 2 };
  int k = sx_choice(8, "prefix"), n = sx_choice(left[k] + 1 + B(0, 1), "n"); const char *f = p[k]; char *s = sym_alpha(n + 1, "0123456789abcdefA ", "text"), *t = malloc(strlen(f) + n + 1);
  memcpy(t, f, strlen(f)); memcpy(t + strlen(f), s, n); t[strlen(f) + n] = 0; free(s); get_number(t, 0);
}
// ---- C25
static int cmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
static void sorted(int n, int len, const char *alpha)
{
  const char *a[16], *o[16];
  for (int i = 0; i < n; ++i)
  {
    int l = len < 0 ? -len : sx_choice(len + 1, "len"); char *s;
    if (alpha) { s = malloc(l + 1); sx_bytes(s, l, "item"); for (int k = 0; k < l; ++k) sx_assume(in_set(s[k], alpha)); s[l] = 0; } else s = sym_cstr(l, "item");
    a[i] = o[i] = s;
  }
  quicksort_strings(a, n);
  for (int i = 0; i + 1 < n; ++i) sx_assert(cmp(a[i], a[i + 1]) <= 0, "the result is in order");
  for (int i = 0; i < n; ++i) { int c = 0; for (int k = 0; k < n; ++k) c += a[k] == o[i]; sx_assert(c == 1, "the result is a permutation"); }
  sx_reach("done");
}
void h_sort_bytes(void) { sorted(sx_choice(B(5, 6), "n"), -1, NULL); }
void h_sort_strings(void) { sorted(sx_choice(B(4, 5), "n"), 2, "ab"); }
void h_sort_long(void) { sorted(2 + sx_choice(B(2, 2), "n"), -2, NULL); }
static int hexval(int c, int *v) { *v = val_of(c); return *v < 16; }
void h_colour_def(void)
{
  char *s = sym_cstr(sx_choice(B(13, 15), "n"), "text"); XMQColorDef d;
  int h[6], ok = s[0] == '#', bold = 0, under = 0, twice = 0;
  for (int i = 0; i < 6 && ok; ++i) ok = s[1 + i] && hexval(s[1 + i], &h[i]);
  if (ok)
  {
    const char *m = s + 7; int n = 0;
    for (; n < 2 && m[0] == '_' && (m[1] == 'B' || m[1] == 'U'); ++n, m += 2) { if (m[1] == 'B') { twice |= bold; bold = 1; } else { twice |= under; under = 1; } }
    ok = *m == 0;
  }
  int r = string_to_color_def(s, &d);
  if (ok && twice) return;     // a repeated mark may be accepted or not
  sx_assert(!!r == ok, "exactly #rrggbb with bold and underline marks is accepted");
  if (ok) { sx_assert(d.r == h[0] * 16 + h[1] && d.g == h[2] * 16 + h[3] && d.b == h[4] * 16 + h[5] && d.bold == bold && d.underline == under, "the components are those written"); sx_reach("accepted"); }
  else { sx_assert(d.r == -1 && d.g == -1 && d.b == -1 && !d.bold && !d.underline, "a rejected definition gives no colour"); sx_reach("rejected"); }
  free(s);
}
static int decimal(const char **p, int v) { char t[8]; sprintf(t, "%d", v); size_t l = strlen(t); if (memcmp(*p, t, l)) return 0; *p += l; return 1; }
void h_colour_codes(void)
{
  XMQColorDef d; unsigned char c[3]; sx_bytes(c, 3, "rgb"); int k = sx_choice(3, "free");
  for (int i = 0; i < 3; ++i) if (i != k) sx_assume((c[i] == 0) | (c[i] == 99) | (c[i] == 255));
  d.r = c[0]; d.g = c[1]; d.b = c[2]; d.bold = sx_choice(2, "bold"); d.underline = sx_choice(2, "underline");
  char b[128];
  sx_assert(!generate_ansi_color(b, 31, &d), "a short buffer is refused"); sx_assert(!generate_html_color(b, 63, &d, "x"), "a short buffer is refused"); sx_assert(!generate_tex_color(b, 127, &d, "x"), "a short buffer is refused");
  sx_assert(generate_ansi_color(b, 32, &d), "a code is made");
  const char *p = b; sx_assert(!memcmp(p, "\033[0;", 4), "a code starts with a reset"); p += 4;
  if (d.bold) { sx_assert(!memcmp(p, "1;", 2), "bold"); p += 2; }
  if (d.underline) { sx_assert(!memcmp(p, "4;", 2), "underline"); p += 2; }
  sx_assert(!memcmp(p, "38;2;", 5), "true colour"); p += 5;
  sx_assert(decimal(&p, d.r) && *p++ == ';' && decimal(&p, d.g) && *p++ == ';' && decimal(&p, d.b) && *p == 'm' && !p[1], "the components are those given");
  char w[128]; sprintf(w, "\\definecolor{xmqQ}{RGB}{%d,%d,%d}", d.r, d.g, d.b);
  sx_assert(generate_tex_color(b, 128, &d, "xmqQ") && !strcmp(b, w), "the components are those given");
  char *hb = malloc(72); generate_html_color(hb, 72, &d, "xmqQ");
  sprintf(w, "xmqQ{color:#%02x%02x%02x;%s%s}", d.r, d.g, d.b, d.bold ? "font-weight:600;" : "", d.underline ? "text-decoration:underline;" : "");
  sx_assert(!strcmp(hb, w), "the components are those given"); free(hb);
  sx_reach("done");
}
// more strings, most of them alike
void h_sort_many(void)
{
  int n = 5 + sx_choice(B(6, 7), "n"), c[3] = { 0 }; const char *a[16]; static const char *const v[] = { "a", "ab", "b" };
  for (int i = 0; i < n; ++i) { int k = sx_choice(3, "item"); c[k]++; a[i] = v[k]; }
  quicksort_strings(a, n);
  for (int i = 0, k = 0; i < n; ++i) { while (c[k] == 0) k++; sx_assert(!strcmp(a[i], v[k]), "the result is in order"); c[k]--; }
  sx_reach("done");
}
// many strings in order, in reverse order or alike, two of them arbitrary
void h_sort_runs(void)
{
  int n = 9 + sx_choice(B(24, 30), "n"), how = sx_choice(4, "how"); char *s = malloc(2 * n); const char *a[40];
  for (int i = 0; i < n; ++i) { s[2 * i] = how == 0 ? 'a' + i : how == 1 ? 'a' + n - i : how == 2 ? 'm' : 'a' + (i * 7) % n; s[2 * i + 1] = 0; a[i] = s + 2 * i; }
  int x = sx_choice(n, "at"); sx_bytes(s + 2 * x, 1, "item"); sx_assume(s[2 * x] != 0);
  quicksort_strings(a, n);
  for (int i = 0; i + 1 < n; ++i) sx_assert((unsigned char)a[i][0] <= (unsigned char)a[i + 1][0], "the result is in order");
  for (int i = 0; i < n; ++i) { int k = 0; for (int j = 0; j < n; ++j) k += a[j] == s + 2 * i; sx_assert(k == 1, "the result is a permutation"); }
  sx_reach("done");
}
