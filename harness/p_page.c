// C35 the pager: every screen against the rows of the text
#define PAGER
#include "p_cli.c"
static const char *text_; static size_t len_; static int keys_left, width_, height_, rows, now, drop_, ended_; static size_t row_at[40], line_at[40];
// the rows of the text: width_ visible characters, or less at the end of a line; row_at[rows] is the end of the text
static void layout(void)
{
  size_t line = 0, i = 0; int col = 0; rows = 0; row_at[0] = line_at[0] = 0; if (len_) rows = 1;
  while (i < len_)
  {
    if (text_[i] == 27) { while (i < len_ && text_[i] != 'm') i++; if (i < len_) i++; continue; }
    if (text_[i] == '\n') { line = ++i; col = 0; if (i < len_) { row_at[rows] = line_at[rows] = i; rows++; } continue; }
    if ((text_[i] & 0xc0) == 0x80) { i++; continue; }                                                 // the rest of a character
    if (col == width_) { row_at[rows] = i; line_at[rows++] = line; col = 0; }
    col++; i++;
  }
  row_at[rows] = line_at[rows] = len_;
}
static int below(int k) { return k + 1 < rows || (k + 1 == rows && len_ && text_[len_ - 1] == '\n') ? k + 1 : k; }
static int above(int k) { return k > 0 ? k - 1 : 0; }
static void screen(void)
{
  static const char tail[] = "\033[0m\n:"; size_t n = out_.n, t = sizeof tail - 1; const char *o = out_.b;
  if (drop_) { static const char head[] = "\033[2J\033[H"; size_t h = sizeof head - 1; sx_assert(n >= h && !memcmp(o, head, h), "the screen is cleared"); o += h; n -= h; } drop_ = 1;
  sx_assert(n >= t && !memcmp(o + n - t, tail, t), "the prompt"); n -= t;
  int last = now + height_ < rows ? now + height_ : rows; size_t from = line_at[now], to = row_at[last];
  if (to > from && last < rows && line_at[last] == to && text_[to - 1] == '\n') to--;              // the last row ends without its newline
  if (last == rows && now + height_ == rows && to > from && text_[to - 1] == '\n') to--;
  if (sx_native()) { sput1(&out_, 0); fprintf(stderr, "row %d of %d: [%.*s] want [%.*s]\n", now, rows, (int)n, o, (int)(to - from), text_ + from); }
  sx_assert(n == to - from && sx_memeq(o, text_ + from, n), "the screen shows the rows from here on"); out_.n = 0;
}
static int no_size; static int cli_winsize(struct winsize *w) { if (no_size) { width_ = 80; height_ = 24; if (no_size == 2) { w->ws_row = w->ws_col = 0; return 0; } return -1; } w->ws_row = height_ + 1; w->ws_col = width_; return 0; }
enum { DOWN, UP, PGDN, PGUP, FIRST, LAST, OTHER, EOF_, KEYS };
static const char *sends[] = { "\n", "\033[A", " ", "\033[5~", "<", ">", "x" }; static const char *pending;
static long key_byte(void *p)
{
  if (pending && *pending) { *(char*)p = *pending++; return 1; }
  screen(); int k;
  if (!keys_left--) { k = sx_choice(3, "end"); ended_++; if (k == 2) return 0; if (k == 1) return -1; *(char*)p = 'q'; return 1; }
  k = sx_choice(7, "key"); pending = sends[k];
  if (k == DOWN && sx_choice(2, "arrow")) pending = "\033[B"; if (k == PGDN && sx_choice(2, "page down")) pending = "\033[6~";
  int n = k == PGDN || k == PGUP || k == LAST ? height_ : 1; if (k == LAST) now = rows; if (k == FIRST) now = 0;
  for (int i = 0; i < n; ++i) { if (k == DOWN || k == PGDN) now = below(now); if (k == UP || k == PGUP || k == LAST) now = above(now); }
  *(char*)p = *pending++; return 1;
}
static void pages(size_t n, int keys)
{
  width_ = 1 + sx_choice(3, "width"); height_ = 1 + sx_choice(2, "height"); char *t = malloc(n ? n : 1); text_ = t; len_ = n;
  sx_bytes(t, n, "text"); for (size_t i = 0; i < n; ++i) sx_assume(t[i] != 0);
  for (size_t i = 0; i < n; ++i) if (t[i] == 27) { size_t j = i; while (j < n && t[j] != 'm' && t[j] != '\n') j++; sx_assume(j < n && t[j] == 'm'); }   // escapes end on their line
  keys_left = keys; layout(); sput1(&out_, 0); out_.n = 0; page(t, t + n); sx_assert(ended_ == 1, "the pager ends with q or with its input"); sx_reach("done");
}
void h_pager_short(void) { pages(sx_choice(B(5, 7), "n"), 1); }
void h_pager_keys(void) { pages(sx_choice(B(4, 5), "n"), B(2, 3)); }
void h_pager_wide(void)
{
  // longer lines: every text of runs of characters and newlines
  S s = {0}; int n = 1 + sx_choice(B(2, 3), "lines"); for (int i = 0; i < n; ++i) { static const char *const l[] = { "", "ab", "abcd", "a\033[0;36mbcde", "abcdefg", "\033[31mabc\033[0m", "\303\244\342\202\254bc\360\237\230\200d" }; sputs(&s, l[sx_choice(7, "line")]); if (i + 1 < n || sx_choice(2, "newline at the end")) sput1(&s, '\n'); }
  width_ = 2 + sx_choice(3, "width"); height_ = 1 + sx_choice(2, "height"); no_size = sx_choice(3, "size"); if (no_size) width_ = 80, height_ = 24; char *t = malloc(s.n ? s.n : 1); memcpy(t, s.b, s.n); text_ = t; len_ = s.n;
  keys_left = 2; layout(); sput1(&out_, 0); out_.n = 0; page(t, t + s.n); sx_assert(ended_ == 1, "the pager ends with q or with its input"); sx_reach("done");
}
