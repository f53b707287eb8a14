// C02 parser totality and safety, C03 token tiling, C04 token positions
#include "h.h"
#include "templates.h"
enum { T_none,
#define X(T) T_##T,
LIST_OF_XMQ_TOKENS
#undef X
T_num };
static const char *bstart, *bstop, *bnext;   // bnext: where the next token has to start
static int mode;                              // 0 safety, 1 tiling, 2 positions
static int apar, cpar, brace, ntok, last;
static size_t ref_line, ref_col; static const char *ref_at;
static int ws(const char *i) { return *i == ' ' || *i == '\n' || *i == '\r'; }
static void token(int t, XMQParseState *st, size_t line, size_t col, const char *start, const char *stop, const char *suffix)
{
  ntok++;
  sx_assert(start <= stop && start >= bstart && stop <= bstop, "a token lies inside the buffer");
  if (mode == 1)
  {
    sx_assert(start == bnext, "tokens are consecutive: nothing is skipped or delivered twice");
    bnext = stop;
    size_t n = stop - start;
    char c = n ? *start : 0;
    switch (t)
    {
    case T_whitespace: for (const char *i = start; i < stop; ++i) sx_assert(*i != '\t' && (ws(i) || (unsigned char)*i >= 0x80), "whitespace tokens hold whitespace and no tab"); break;
    case T_equals: sx_assert(n == 1 && c == '=', "equals token"); break;
    case T_ns_colon: sx_assert(n == 1 && c == ':', "colon token"); break;
    case T_brace_left: sx_assert(n == 1 && c == '{', "brace_left token"); brace++; break;
    case T_brace_right: sx_assert(n == 1 && c == '}' && brace > 0, "brace_right token closes an open brace"); brace--; break;
    case T_apar_left: sx_assert(n == 1 && c == '(' && !apar && !cpar, "apar_left token"); apar++; break;
    case T_apar_right: sx_assert(n == 1 && c == ')' && apar == 1 && !cpar, "apar_right token"); apar--; break;
    case T_cpar_left: sx_assert(n == 1 && c == '(' && !cpar && last == T_equals, "cpar_left follows equals"); cpar++; break;
    case T_cpar_right: sx_assert(n == 1 && c == ')' && cpar == 1, "cpar_right token"); cpar--; break;
    case T_quote: case T_element_value_quote: case T_element_value_compound_quote: case T_attr_value_quote: case T_attr_value_compound_quote:
    {
      size_t d = 0; while (d < n && start[d] == '\'') d++;
      if (d == n) sx_assert(n == 2, "a quote of nothing but quotes is the empty quote");
      else
      {
        sx_assert(d != 2 && n > 2 * d, "quote depth");
        size_t run = 0;
        for (size_t i = d; i < n - d; ++i) { run = start[i] == '\'' ? run + 1 : 0; sx_assert(run < d, "no run of as many quotes inside the quote"); }
        sx_assert(start[n - d - 1] != '\'' || d == 0, "closing run is exact");
        for (size_t i = n - d; i < n; ++i) sx_assert(start[i] == '\'', "quote closed by as many quotes");
      }
      int v = t == T_quote ? 0 : 1;
      sx_assert((t == T_element_value_compound_quote || t == T_attr_value_compound_quote) == (cpar == 1), "compound quotes only inside a compound");
      sx_assert((t == T_attr_value_quote || t == T_attr_value_compound_quote) == (apar == 1), "attribute quotes only inside attributes");
      break;
    }
    case T_entity: case T_element_value_entity: case T_element_value_compound_entity: case T_attr_value_entity: case T_attr_value_compound_entity:
      sx_assert(c == '&', "an entity starts with &"); break;
    case T_comment: sx_assert(n >= 2 && c == '/' && (start[1] == '/' || start[1] == '*'), "comment token"); 
      if (!(start[1] == '/' && stop == bstop) && stop[-1] != '\n') sx_assert(stop[-1] == '/' || start[1] == '/', "comment is closed"); break;
    case T_comment_continuation: sx_assert(n >= 3 && c == '*' && stop[-1] == '/' && (last == T_comment || last == T_comment_continuation), "continuation token"); break;
    case T_element_value_text: case T_attr_value_text:
      sx_assert(last == T_equals, "a value text follows equals");
      for (const char *i = start; i < stop; ++i) sx_assert(!in_set(*i, " \t\r\n(){}'\""), "value text has no delimiter");
      break;
    case T_element_name: case T_element_key: case T_element_ns: case T_attr_key: case T_attr_ns: case T_ns_declaration:
      for (const char *i = start; i < stop; ++i) sx_assert(!in_set(*i, " \t\r\n(){}'\"=&"), "names have no delimiter");
      sx_assert((t == T_attr_key || t == T_attr_ns || t == T_ns_declaration) == (apar == 1), "attribute keys only inside attributes");
      break;
    default: sx_assert(0, "unknown token"); 
    }
    if (t != T_whitespace) last = t;
  }
  if (mode == 2)
  {
    while (ref_at < start) { char ch = *ref_at++; if (ch == '\n') { ref_line++; ref_col = 1; } else if ((ch & 0xc0) != 0x80) ref_col++; }
    sx_assert(line == ref_line, "token line");
    sx_assert(col == ref_col, "token column");
  }
}
#define X(T) static void cb_##T(XMQParseState *st, size_t line, size_t col, const char *start, const char *stop, const char *suffix) { token(T_##T, st, line, col, start, stop, suffix); }
LIST_OF_XMQ_TOKENS
#undef X
static void tokenize(char *b, size_t n, int m)
{
  uint64_t live = sx_live_objects();
  mode = m; bstart = bnext = ref_at = b; bstop = b + n; ref_line = ref_col = 1;
  XMQOutputSettings *os = xmqNewOutputSettings(); xmqSetupPrintStdOutStdErr(os);
  XMQParseCallbacks *c = xmqNewParseCallbacks(); xmqSetupParseCallbacksDebugTokens(c);
#define X(T) c->handle_##T = cb_##T;
  LIST_OF_XMQ_TOKENS
#undef X
  XMQParseState *st = xmqNewParseState(c, os);
  bool ok = xmqTokenizeBuffer(st, b, b + n);
  if (ok)
  {
    sx_reach("accepted");
    sx_assert(xmqStateErrno(st) == 0, "no error number after success");
    if (m == 1) sx_assert(bnext == bstop && !apar && !cpar && !brace, "the tokens of an accepted buffer cover it and all parentheses are closed");
  }
  else
  {
    sx_reach("rejected");
    sx_assert(xmqStateErrno(st) != 0, "an error number after failure");
    const char *msg = xmqStateErrorMsg(st);
    sx_assert(msg && *msg, "an error message after failure");
    if (m == 2 && st->error_nr != XMQ_ERROR_NOT_XMQ)
    {
      // "source:line:col: error: ..." must denote a position of the buffer
      const char *p = strchr(msg, ':');
      size_t l = 0, co = 0; sx_assert(p != NULL, "position in message");
      for (p++; *p >= '0' && *p <= '9'; ++p) l = l * 10 + (*p - '0');
      sx_assert(*p == ':', "line:col in message");
      for (p++; *p >= '0' && *p <= '9'; ++p) co = co * 10 + (*p - '0');
      sx_assert(*p == ':', "line:col in message");
      size_t line = 1, width = 1; int found = 0;
      for (const char *i = b;; ++i)
      {
        if (line == l && width == co) found = 1;
        if (i == b + n) break;
        if (*i == '\n') { line++; width = 1; } else if ((*i & 0xc0) != 0x80) width++;
      }
      sx_assert(found, "the reported line and column exist in the buffer");
      sx_reach("error position");
    }
  }
  xmqFreeParseState(st); xmqFreeParseCallbacks(c); xmqFreeOutputSettings(os);
  sx_assert(sx_live_objects() == live, "nothing is leaked");
}
static const char *root; static int flags;
static void parse_doc(char *b, size_t n)
{
  uint64_t live = sx_live_objects();
  XMQDoc *d = xmqNewDoc();
  bool ok = xmqParseBufferWithType(d, b, b + n, root, XMQ_CONTENT_XMQ, flags);
  if (ok) { sx_reach("accepted"); sx_assert(xmqDocErrno(d) == 0, "no error number after success"); sx_assert(xmqGetImplementationDoc(d) != NULL, "a document after success"); }
  else { sx_reach("rejected"); sx_assert(xmqDocErrno(d) != 0, "an error number after failure"); const char *m = xmqDocError(d); sx_assert((m && *m) || xmqDocErrno(d) == XMQ_ERROR_EXPECTED_XMQ, "an error message after failure"); }
  xmqFreeDoc(d);
  sx_assert(sx_live_objects() == live, "nothing is leaked");
}
static char *ascii_above(char *b, size_t n, size_t limit) { if (n > limit) for (size_t i = 0; i < n; ++i) sx_assume(b[i] > 0); return b; }

// all byte strings (ASCII only above 4/5 bytes)
void h_tok_bytes(void) { int n = sx_choice(1 + B(5, 7), "n"); tokenize(ascii_above(sym_buf(n, "src"), n, B(4, 5)), n, 0); }
void h_doc_bytes(void) { int n = sx_choice(1 + B(4, 6), "n"); parse_doc(ascii_above(sym_buf(n, "src"), n, B(3, 4)), n); }
void h_tile_bytes(void) { int n = sx_choice(1 + B(5, 6), "n"); tokenize(ascii_above(sym_buf(n, "src"), n, B(4, 5)), n, 1); }
void h_pos_bytes(void) { int n = sx_choice(1 + B(5, 6), "n"); tokenize(ascii_above(sym_buf(n, "src"), n, B(4, 5)), n, 2); }

// longer texts over the delimiter alphabet
static const char *syntax = "a='\n(){}/*& ";
static void alpha(int m, int q, int t) { int n = B(q, t); tokenize(sym_alpha(n, syntax, "src"), n, m); }
void h_tok_syntax(void) { alpha(0, 7, 8); }
void h_tile_syntax(void) { alpha(1, 7, 8); }
void h_pos_syntax(void) { alpha(2, 6, 7); }
void h_doc_syntax(void) { int n = B(6, 7); parse_doc(sym_alpha(n, syntax, "src"), n); }
// quotes: runs of quotes of any depth, over {' a newline}
static void quotes(int m) { int n = m == 2 ? B(8, 11) : B(11, 13); char *b = sym_alpha(n, "'a\n", "q"); tokenize(b, n, m); }
void h_tok_quotes(void) { quotes(0); }
void h_tile_quotes(void) { quotes(1); }
void h_pos_quotes(void) { quotes(2); }
void h_doc_quotes(void) { int n = B(10, 13); char *b = sym_alpha(n, "'a\n", "q"); parse_doc(b, n); }
// comments: slashes and asterisks
static void comments(int m) { int n = B(10, 13); char *b = sym_alpha(n, "/*a\n", "c"); tokenize(b, n, m); }
void h_tok_comments(void) { comments(0); }
void h_tile_comments(void) { comments(1); }
void h_pos_comments(void) { comments(2); }
void h_doc_comments(void) { int n = B(9, 12); char *b = sym_alpha(n, "/*a\n", "c"); parse_doc(b, n); }
void h_tok_template(void) { size_t n; int h = sx_choice(1 + B(3, 4), "holes"); char *b = template(h, &n); tokenize(b, n, 0); }
void h_tile_template(void) { size_t n; int h = sx_choice(1 + B(3, 4), "holes"); char *b = template(h, &n); tokenize(b, n, 1); }
void h_pos_template(void) { size_t n; int h = sx_choice(1 + B(2, 3), "holes"); char *b = template(h, &n); tokenize(b, n, 2); }
void h_doc_template(void) { size_t n; int h = sx_choice(1 + B(3, 4), "holes"); char *b = template(h, &n); parse_doc(b, n); }
void h_tok_edit(void) { size_t n; int h = sx_choice(1 + B(1, 2), "holes"); char *b = edited(h, &n); tokenize(b, n, 0); }
void h_tile_edit(void) { size_t n; int h = sx_choice(1 + B(1, 2), "holes"); char *b = edited(h, &n); tokenize(b, n, 1); }
void h_pos_edit(void) { size_t n; int h = sx_choice(1 + B(1, 2), "holes"); char *b = edited(h, &n); tokenize(b, n, 2); }
void h_doc_edit(void) { size_t n; int h = sx_choice(1 + B(1, 2), "holes"); char *b = edited(h, &n); parse_doc(b, n); }

// with an implicit root, and without merging of text
void h_doc_options(void)
{
  static const char *const roots[] = { NULL, "a", "b", "" };
  root = roots[sx_choice(4, "root")]; flags = sx_choice(2, "nomerge") ? XMQ_FLAG_NOMERGE : 0;
  int n = sx_choice(1 + B(5, 6), "n"); parse_doc(sym_alpha(n, "ab='{}(&#1;/ ", "src"), n);
}


// long texts: something repeated many times
static const int counts[] = { 5, 8, 9, 16, 17, 33, 65, 130, 257, 4, 6, 7, 10, 12, 15, 31, 32, 64, 100, 127, 128, 129, 255, 256, 300 };
void h_tile_long(void) { size_t n; char *b = repeated(counts, B(9, 25), sx_choice(1 + B(1, 2), "holes"), &n); tokenize(b, n, 1); }
void h_pos_long(void) { size_t n; char *b = repeated(counts, B(9, 25), sx_choice(1 + B(1, 2), "holes"), &n); tokenize(b, n, 2); }
void h_doc_long(void) { size_t n; char *b = repeated(counts, B(9, 25), sx_choice(1 + B(1, 2), "holes"), &n); parse_doc(b, n); }
void h_doc_huge(void) { static const int huge[] = { 1023, 1024, 1025, 2048, 4097 }; nesting = 0; size_t n; char *b = repeated(huge, B(3, 5), 1, &n); sx_budget(60000000); parse_doc(b, n); }
