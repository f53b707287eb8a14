// C37 the colors follow the environment and the terminal; C38 browse
#define TERMINAL
#include "p_cli.c"
// the terminal answers the question for its background with reply_, then nothing more or an error
static char *reply_, *theme_, *term_, *fgbg_; static size_t nreply, at_reply; static int silent_, reads_;
static long answer(void *p) { sx_assert(alarms_ > 0, "a silent terminal does not block"); sx_assert(++reads_ < 1000, "it ends"); if (at_reply < nreply) { *(char*)p = reply_[at_reply++]; return 1; } return silent_ ? -1 : 0; }
static char *env_of(const char *n) { return !strcmp(n, "TERM") ? term_ : !strcmp(n, "XMQ_THEME") ? theme_ : !strcmp(n, "COLORFGBG") ? fgbg_ : NULL; }
static int hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
// 0: dark, 1: light, 2: anything, it is not an answer
static int background(void)
{
  static const char form[] = "\033]11;rgb:hhhh/hhhh/hhhh"; long v[3] = {0}; if (nreply < sizeof form) return 2; // with the bell
  for (size_t i = 0, k = 0; i < sizeof form - 1; ++i) { if (form[i] == 'h') { int h = hex(reply_[i]); if (h < 0) return 2; v[k] = v[k] * 16 + h; } else if (reply_[i] != form[i]) return 2; else if (form[i] == '/') k++; }
  if (reply_[sizeof form - 1] != 7) return 2;
  long l = 2126 * v[0] + 7152 * v[1] + 722 * v[2], limit = 153l * 256 * 10000; return l > limit + 10000 ? 1 : l < limit - 10000 ? 0 : 2;
}
static void check_theme(int dark)
{
  bool color = false, bg = false; XMQRenderStyle r = terminal_render_theme(&color, &bg); int mono = theme_ && (strcmp(theme_, "darkbg") && strcmp(theme_, "lightbg"));
  if (mono) { sx_assert(r == XMQ_RENDER_MONO && !color && !bg, "no colors"); sx_reach("mono"); return; }
  sx_assert(color && (r == XMQ_RENDER_COLOR_DARKBG || r == XMQ_RENDER_COLOR_LIGHTBG) && bg == (r == XMQ_RENDER_COLOR_DARKBG), "the theme and the background belong together");
  if (dark == 0) { sx_assert(bg, "colors for a dark background"); sx_reach("dark"); } if (dark == 1) { sx_assert(!bg, "colors for a light background"); sx_reach("light"); }
}
static char *word_of(int k, const char *name) { static const char *const w[] = { "mono", "lightbg", "darkbg", "linux", "xterm", "xterm-256color", "vt100" }; if (k == 8) return NULL; if (k < 7) return strdup(w[k]); int n = sx_choice(B(4, 6), "n"); return sym_cstr(n, name); }
void h_theme_env(void)
{
  int t = sx_choice(9, "theme"), m = sx_choice(9, "term"), f = sx_choice(9, "fgbg"); theme_ = word_of(t, "theme text"); if (t == 8) term_ = word_of(m, "term text"); else term_ = m ? NULL : strdup("xterm");
  if (t == 8 && (m == 7 || m == 8 || m < 3 || m == 6)) { if (f) { int n = sx_choice(B(5, 8), "n"); fgbg_ = sym_cstr(n, "fgbg text"); } } 
  int dark = 0; if (theme_) dark = strcmp(theme_, "lightbg") == 0; else if (term_ && (!strcmp(term_, "linux") || !strcmp(term_, "xterm"))) dark = 0;
  else if (fgbg_) { const char *p = strrchr(fgbg_, ';'); dark = p && strcmp(p, ";0"); }
  check_theme(dark);
}
// the answer of the terminal
static void answered(void) { term_ = sx_choice(2, "term") ? "xterm" : "xterm-256color"; tty_ = 1; silent_ = sx_choice(2, "then"); int b = background(); check_theme(b); sx_assert(alarms_ == 0 && raw_ == 2, "the terminal is as before"); sx_reach("done"); }
void h_theme_bytes(void) { nreply = sx_choice(B(6, 9), "n"); reply_ = sym_buf(nreply, "answer"); answered(); }
void h_theme_colors(void)
{
  static const char *const c[] = { "0000", "ffff", "8000", "9999", "FfFf", "99ff" }; S s = {0}; sputs(&s, "\033]11;rgb:"); for (int i = 0; i < 3; ++i) { if (i) sput1(&s, '/'); sputs(&s, c[sx_choice(6, "color")]); } sput1(&s, 7); reply_ = s.b; nreply = s.n; answered();
}
void h_theme_edit(void)
{
  static const char *const a[] = { "\033]11;rgb:ffff/ffff/dddd\007", "\033]11;rgb:1111/2222/0000\007", "\033]11;rgb:ffff/ffff/ffff\033\\", "\033]11;rgb:ff/ff/ff\007" }; const char *t = a[sx_choice(4, "answer")]; size_t l = strlen(t), at = sx_choice(l + 1, "at"); int n = sx_choice(3, "how"), rest = n < 2 ? at : at + 1 < l ? at + 1 : l;
  S s = {0}; sput(&s, t, at); if (n) { char *x = sym_buf(B(1, 2), "bytes"); sput(&s, x, B(1, 2)); } sputs(&s, t + rest); reply_ = s.b; nreply = s.n; answered();
}
void h_theme_digits(void)
{
  int n = B(1, 2); char *h = sym_buf(n, "digits"); S s = {0}; sputs(&s, "\033]11;rgb:8000/8000/8000\007"); int c = sx_choice(3, "color"); memcpy(s.b + 9 + 5 * c, h, n); for (int i = 0; i < n; ++i) sx_assume(hex(h[i]) >= 0); reply_ = s.b; nreply = s.n; answered();
}
// browse: what is written where, and the command for the shell
static S page_, command_; static char *page_name; static int page_flags, page_fails, put_fails, run_fails, pages_, runs_;
static int create(const char *name, int flags, int mode) { pages_++; page_name = strdup(name); page_flags = flags; return page_fails ? -1 : 77; }
static long put(int fd, const void *p, size_t n) { if (fd < 0) return -1; sx_assert(fd == 77, "the file"); if (put_fails) n /= 2; sput(&page_, p, n); return n; }
static int run(const char *c) { runs_++; command_.n = 0; sputs(&command_, c); return run_fails ? 256 : 0; }
// the words a shell makes of a command, as far as quoting goes; 0 when anything in it is special
static int shell_words(S c, S *w, int max)
{
  int n = 0, in = 0; for (size_t i = 0; i < c.n; ++i)
  {
    char k = c.b[i];
    if (k == ' ') { in = 0; continue; }
    if (!in) { if (n == max) return 0; w[n++] = (S){0}; in = 1; }
    if (k == '\'') { size_t j = i + 1; while (j < c.n && c.b[j] != '\'') j++; if (j == c.n) return 0; sput(&w[n - 1], c.b + i + 1, j - i - 1); i = j; }
    else if (k == '\\') { if (++i == c.n) return 0; if (c.b[i] != '\n') sput1(&w[n - 1], c.b[i]); }
    else if (k == '"') { for (i++; i < c.n && c.b[i] != '"'; ++i) { if (c.b[i] == '$' || c.b[i] == '`') return 0; if (c.b[i] == '\\' && i + 1 < c.n && in_set(c.b[i + 1], "$`\"\\")) i++; sput1(&w[n - 1], c.b[i]); } if (i == c.n) return 0; }
    else if (in_set(k, "\n\t;&|<>()$`*?[#~=%!{}")) return 0; else sput1(&w[n - 1], k);
  }
  return n;
}
static void browsing(const char *in, const char *base)
{
  arg("render-html"); int rc = xmq(); sx_assert(rc == 0, "the page"); S want = {0}; sput(&want, out_.b, out_.n); nargs--; if (sx_choice(2, "implicit")) { arg("render-html"); } arg("browse");
  page_fails = sx_choice(2, "open fails"); put_fails = sx_choice(2, "write fails"); run_fails = sx_choice(2, "the browser fails"); rc = xmq(); int fine = !page_fails && !put_fails;
  S name = {0}; sputs(&name, "xmq_browsing_"); sputs(&name, base); sputs(&name, ".html"); sx_assert(pages_ == 1 && strlen(page_name) == name.n && sx_memeq(page_name, name.b, name.n), "the page is named like the source");
  sx_assert(page_flags & O_NOFOLLOW && page_flags & O_TRUNC && page_flags & O_CREAT, "a new file"); sx_assert(runs_ == fine, "the browser is started for a written page"); sx_assert((fine && !run_fails) == (err_.n == 0), "a message if it was not done"); if (!fine) sx_assert(rc == 1, "the status if it was not written"); if (fine && !run_fails) sx_assert(rc == 0, "the status");
  if (!fine) { sx_reach("failed"); return; }
  sx_assert(same(page_, want), "the page is written"); S w[4]; int n = shell_words(command_, w, 4); sx_assert(n == 2 && w[0].n == 4 && !memcmp(w[0].b, "open", 4) && same(w[1], name), "the browser is given the page and nothing else is run"); sx_reach("done");
}
void h_browse_name(void)
{
  int dir = sx_choice(3, "dir"), n = 1 + sx_choice(B(3, 5), "n"); char *f = sym_cstr(n, "name"); for (int i = 0; i < n; ++i) sx_assume(f[i] != '/' && f[i] != '\\');
  sx_assume(f[0] != '-' && (n > 1 || f[0] != '.')); S s = {0}; if (dir) sputs(&s, dir == 1 ? "d/" : "/d e/"); sputs(&s, f); sput1(&s, 0); sx_assume(cmd_from(s.b) == XMQ_CLI_CMD_NONE);
  files[0].name = s.b; nargs = 0; arg("xmq"); arg(s.b); browsing(s.b, f);
}
void h_browse_stdin(void) { nargs = 0; arg("xmq"); arg("-"); browsing("-", "stdin"); }
