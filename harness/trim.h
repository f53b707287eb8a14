// What is left of a quote: rules r6..r10 of doc/xmq.tex
#ifndef TRIM_H
#define TRIM_H
// spaces, tabs (8 columns), newlines and letters
static int split_tab;
static int blank(char c) { return (c == ' ') | (c == '\t'); }
static char *trim_ref(size_t indent, const char *s, size_t n)
{
  char *out = malloc(2 * n + indent + 4); size_t o = 0;
  size_t nl = 0; for (size_t i = 0; i < n; ++i) nl += s[i] == '\n';
  if (!nl) { memcpy(out, s, n); out[n] = 0; return out; }
  // lines
  size_t b[420], e[420], k = 0; sx_assert(nl < 420, "lines"); b[0] = 0; for (size_t i = 0; i <= n; ++i) if (i == n || s[i] == '\n') { e[k++] = i; b[k] = i + 1; }
  size_t ind[420]; int empty[420]; int any = 0;
  for (size_t i = 0; i < k; ++i) { size_t j = b[i]; ind[i] = 0; while (j < e[i] && blank(s[j])) ind[i] += s[j++] == ' ' ? 1 : 8; empty[i] = j == e[i]; if (!empty[i]) any = 1; }
  if (!any) { for (size_t i = 0; i + 1 < nl; ++i) out[o++] = '\n'; if (nl) out[o] = 0; else out[o] = 0; out[o] = 0; return out; }
  size_t f = 0; while (empty[f]) f++;
  size_t l = k - 1; while (empty[l]) l--;
  size_t lead = f ? f - 1 : 0, trail = l < k - 1 ? k - 1 - l - 1 : 0;   // blank lines around the content, leaving one out
  size_t inc = (size_t)-1;
  if (f == 0) inc = indent;
  for (size_t i = f; i <= l; ++i) if (!empty[i] && (i || f) && ind[i] < inc) inc = ind[i];
  for (size_t i = 0; i < lead; ++i) out[o++] = '\n';
  for (size_t i = f; i <= l; ++i)
  {
    size_t from = b[i], to = e[i];
    if (i == 0 && f == 0) for (size_t j = inc; j < indent; ++j) out[o++] = ' ';   // r10
    else if (empty[i]) from = to;
    else for (size_t w = 0; w < inc; ++from) { w += s[from] == ' ' ? 1 : 8; if (w > inc) split_tab = 1; }      // r8
    // r7: spaces before a newline go (the last line only if a newline followed)
    if (i < k - 1) while (to > from && blank(s[to - 1])) to--;
    if (i == 0 && empty[i]) from = to;
    while (from < to) out[o++] = s[from++];
    if (i < l) out[o++] = '\n';
  }
  for (size_t i = 0; i < trail; ++i) out[o++] = '\n';
  out[o] = 0; return out;
}
#endif
