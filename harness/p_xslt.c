// C36 transform and validate: libxslt and the schemas of libxml2 are stand-ins that record what they are given and succeed or fail
#define XSLT
#include "p_cli.c"
static const char *const results[] = { "out = 'new'", "r { x = 1 &#10; /*c*/ y(k=v) }", "/* c */\nout" };
static struct { xmlDocPtr doc; S was; int freed; } sheets[4]; static int nsheets, nresult, result_[4], sheet_fails, apply_fails; static S given_; static int odd; static char *odd_text; static struct { char *key, *val; } given[8]; static int ngiven, applied;
static S canon_of(xmlDocPtr d) { S s = {0}; if (d) canon(&s, d->children); return s; }
static S canon_src(const char *t) { XMQDoc *d = xmqNewDoc(); sx_assert(xmqParseBuffer(d, t, t + strlen(t), NULL, 0), "a document of the harness"); S s = canon_doc(d); xmqFreeDoc(d); return s; }
static xsltStylesheetPtr sheet_new(xmlDocPtr d)
{
  S is = canon_of(d), want = canon_src("s(v=xB) { t = 'A' &e; u = 'two  lines' }"); if (!same(is, want)) { show("is", is); show("want", want); }
  sx_assert(same(is, want), "the stylesheet that was named, with characters instead of their entities");
  if (sheet_fails) return NULL;
  sx_assert(nsheets < 4, "bound of the harness"); sheets[nsheets].doc = d; return (xsltStylesheetPtr)&sheets[nsheets++];
}
static xmlDocPtr sheet_apply(xsltStylesheetPtr s, xmlDocPtr d, const char **params)
{
  if (!s) return NULL;
  int k = ((char*)s - (char*)sheets) / sizeof *sheets; sx_assert(k < nsheets && !sheets[k].freed, "a stylesheet that is still there");
  given_ = canon_of(d); ngiven = 0; applied++;
  for (int i = 0; params && params[i]; i += 2) { sx_assert(ngiven < 8 && params[i + 1], "each parameter has a value"); given[ngiven].key = strdup(params[i]); given[ngiven++].val = strdup(params[i + 1]); }
  if (apply_fails) return NULL;
  if (odd)
  {
    // a result need not have an element
    xmlDocPtr o = xmlNewDoc((xmlChar*)"1.0"); if (odd & 1) xml_add_root_child(o, xmlNewDocComment(o, (xmlChar*)"c")); if (odd & 2) xml_add_root_child(o, xmlNewDocText(o, (xmlChar*)odd_text)); if (odd & 4) xml_add_root_child(o, xmlNewDocNode(o, NULL, (xmlChar*)"x", NULL)); return o;
  }
  const char *t = results[result_[nresult++]]; XMQDoc *n = xmqNewDoc(); sx_assert(xmqParseBuffer(n, t, t + strlen(t), NULL, 0), "a document of the harness");
  xmlDocPtr r = xmqGetImplementationDoc(n); xmqSetImplementationDoc(n, NULL); xmqFreeDoc(n); return r;
}
static void sheet_free(xsltStylesheetPtr s) { if (!s) return; int k = ((char*)s - (char*)sheets) / sizeof *sheets; sx_assert(k < nsheets && !sheets[k].freed, "a stylesheet is freed once"); sheets[k].freed = 1; xmlFreeDoc(sheets[k].doc); }
// what is left of the command line, done with the result
static void like(const char *src, const char *c1, const char *c2, S *out, int *rc)
{
  int n = nargs; const char *keep[24]; memcpy(keep, args, sizeof args); begin(src); if (c1) arg(c1); if (c2) arg(c2);
  *rc = xmq(); *out = (S){0}; sput(out, out_.b, out_.n); memcpy(args, keep, sizeof args); nargs = n;
}
static const char *const then_[][2] = { { NULL }, { "to-xml" }, { "to-json" }, { "to-text" }, { "to-clines" }, { "delete", "//y" }, { "select", "//y" }, { "to-htmq" }, { "add", "z" }, { "add-root", "w" } };
static void after(int k) { if (then_[k][0]) arg(then_[k][0]); if (then_[k][1]) arg(then_[k][1]); }
void h_transform(void)
{
  int n = 1 + sx_choice(2, "n"), k = sx_choice(10, "then"), fail = sx_choice(4, "fails"), at = fail ? sx_choice(n, "at") : -1; for (int i = 0; i < n; ++i) result_[i] = sx_choice(3, "result");
  S want; int wrc; like(results[result_[n - 1]], then_[k][0], then_[k][1], &want, &wrc);
  begin("r { a { &e; } x = 1 }"); if (sx_choice(2, "edit")) { arg("delete"); arg("//a"); }
  for (int i = 0; i < n; ++i) { arg("transform"); if (at != i) arg("s.xslq"); else if (fail == 1) arg("none.xslq"); else if (fail == 2) arg("bad.xslq"); }
  int edited = nargs > 3 && !strcmp(args[3], "delete"); after(k);
  int rc = xmq();
  if (at >= 0) { sx_assert(rc == 1, "the status says that it failed"); sx_assert(out_.n + err_.n > 0, "a message"); sx_reach("done"); return; }
  sx_assert(applied == n, "every stylesheet is applied"); if (n == 1) sx_assert(same(given_, canon_src(edited ? "r { x = 1 }" : "r { a { &e; } x = 1 }")), "to the document as it is"); else sx_assert(same(given_, canon_src(results[result_[0]])), "to what the first made");
  sx_assert(rc == wrc && same(out_, want), "the commands after it work on the result"); for (int i = 0; i < nsheets; ++i) sx_assert(sheets[i].freed, "stylesheets are freed"); sx_reach("done");
}
void h_transform_fails(void)
{
  int k = sx_choice(10, "then"); sheet_fails = sx_choice(2, "the stylesheet is not one"); apply_fails = !sheet_fails; begin("r { a { &e; } x = 1 }"); arg("transform"); arg("s.xslq"); after(k);
  int rc = xmq(); sx_assert(rc == 1, "the status says that it failed"); sx_assert(out_.n + err_.n > 0, "a message"); if (apply_fails) sx_assert(out_.n == 0 && err_.n > 0, "nothing is printed"); sx_reach("done");
}
void h_transform_odd(void)
{
  int k = sx_choice(10, "then"), n = 1 + sx_choice(B(3, 4), "n"); odd = 1 + sx_choice(8, "odd"); if (!(odd & 2)) n = 0; odd_text = sym_cstr(n, "text"); sx_assume(is_utf8(odd_text, n)); for (int i = 0; i < n; ++i) sx_assume(xml_ascii(odd_text[i])); 
  begin("r"); arg("transform"); arg("s.xslq"); after(k); int rc = xmq(); sx_assert(rc == 0, "it is carried out"); if (k == 3) sx_assert(out_.n == n && sx_memeq(out_.b, odd_text, n), "the text"); sx_reach("done");
}
// parameters: an expression is given as it is, a string as a literal with this value
void h_transform_params(void)
{
  int n = 1 + sx_choice(3, "n"), ok = 1; begin("r"); arg("transform"); char *key[3], *val[3]; int str[3], last = sx_choice(2, "after the stylesheet"); if (last) arg("s.xslq");
  for (int i = 0; i < n; ++i)
  {
    static const char *const keys[] = { "k", "", "kk", "k" }; str[i] = sx_choice(2, "string"); size_t len = i || n > 2 ? 1 : sx_choice(B(4, 6), "len"); char *v = sym_cstr(len, "value"); key[i] = (char*)keys[sx_choice(3, "key")]; val[i] = v;
    S a = {0}; sputs(&a, str[i] ? "--stringparam=" : "--param="); sputs(&a, key[i]); sput1(&a, '='); sput(&a, v, len); sput1(&a, 0); arg(a.b);
    if (str[i] && strchr(v, '\'') && strchr(v, '"')) ok = 0;
  }
  if (!last) arg("s.xslq"); arg("no-output");
  int rc = xmq(); if (!ok) { sx_assert(rc == 1 && out_.n + err_.n > 0 && !applied, "a string with both quotes cannot be a parameter"); sx_reach("refused"); return; }
  sx_assert(rc == 0 && applied == 1, "the stylesheet is applied"); int keys = 0, last_of[3]; for (int i = 0; i < n; ++i) { last_of[i] = 1; for (int j = i + 1; j < n; ++j) if (!strcmp(key[i], key[j])) last_of[i] = 0; keys += last_of[i]; } sx_assert(ngiven == keys, "as many parameters as there are names");
  for (int i = 0; i < n; ++i) if (last_of[i])
  {
    int found = 0;
    for (int j = 0; j < ngiven; ++j) if (!strcmp(given[j].key, key[i]))
    {
      char *g = given[j].val; size_t l = strlen(val[i]); found++; if (!str[i]) { sx_assert(!strcmp(g, val[i]), "the expression"); continue; }
      sx_assert(strlen(g) == l + 2 && (g[0] == '\'' || g[0] == '"') && g[l + 1] == g[0] && sx_memeq(g + 1, val[i], l) && !memchr(val[i], g[0], l), "a literal with the value");
    }
    sx_assert(found == 1, "each parameter is given once");
  }
  sx_reach("done");
}
// schemas
static int schema_says, doc_says, schemas, schemas_freed; static S validated;
static xmlSchemaParserCtxtPtr schema_ctxt(xmlDocPtr d) { sx_assert(same(canon_of(d), canon_src("s(v=('x' &#66;)) { t = &#65; &e; u = 'two  lines' }")), "the schema that was named"); live_parsers++; return (xmlSchemaParserCtxtPtr)&live_parsers; }
static xmlSchemaPtr schema_parse(xmlSchemaParserCtxtPtr c)
{
  if (schema_says == 1) { parse_err(parse_ctx, "no %s\n", "schema"); return NULL; }
  if (schema_says == 2) parse_warn(parse_ctx, "strange %s\n", "schema");
  if (schema_says == 3) return NULL;
  schemas++; return (xmlSchemaPtr)&schemas;
}
static void schema_free(xmlSchemaPtr s) { if (s) schemas_freed++; }
static int schema_validate(xmlSchemaValidCtxtPtr c, xmlDocPtr d)
{
  if (!validator_of) return -1;
  sx_assert(schemas_freed < schemas, "the schema is still there"); validated = canon_of(d);
  if (doc_says == 1) { valid_err(valid_ctx, "not %s\n", "valid"); return 1; }
  if (doc_says == 2) { valid_warn(valid_ctx, "strange %s\n", "document"); return 0; }
  if (doc_says == 3) return 17;
  if (doc_says == 4) return -1;
  return 0;
}
void h_validate(void)
{
  static const char *src = "r { a { &e; } x = 1 }"; int k = sx_choice(10, "then"), named = sx_choice(4, "schema named"), silent = sx_choice(2, "silent"); schema_says = sx_choice(4, "the schema"); doc_says = sx_choice(5, "the document"); schema_ok_ = sx_choice(3, "valid schema") == 0 ? 1 : 0;
  S want; int wrc; like(src, then_[k][0], then_[k][1], &want, &wrc); begin(src); arg("validate"); if (silent) arg("--silent"); if (named == 1) arg("none.xslq"); else if (named == 2) arg("bad.xslq"); else if (named == 0) arg("s.xslq"); after(k);
  int rc = xmq(), schema = named == 0 && schema_says != 1 && schema_says != 3 && schema_ok_, fine = schema && (doc_says == 0 || doc_says == 2);
  if (!fine)
  {
    sx_assert(rc == 1, "the status says that the document was not found valid"); if (!(silent && schema)) sx_assert(out_.n + err_.n > 0, "a message");
    if (schema && !silent) { sput1(&out_, 0); out_.n--; sx_assert(strstr(out_.b, "s.xslq") != NULL, "the message names the schema"); }
    if (schema) sx_assert(same(validated, canon_src(src)), "the document was validated"); sx_reach("done"); return;
  }
  sx_assert(rc == wrc && same(validated, canon_src(src)), "the document was validated"); sx_assert(live_parsers == 0 && live_validators == 0 && schemas == schemas_freed, "all is freed");
  if (schema_says == 2) sx_assert(err_.n > 0 || out_.n > want.n, "the warning is shown"); else if (doc_says == 2) { if (!silent) sx_assert(out_.n > want.n && sx_memeq(out_.b + out_.n - want.n, want.b, want.n), "the warning is shown before the output"); }
  else sx_assert(same(out_, want) && err_.n == 0, "the output is the same as without it");
  if (doc_says == 2 && silent && schema_says == 0) sx_assert(same(out_, want) && err_.n == 0, "no warning"); sx_reach("done");
}
