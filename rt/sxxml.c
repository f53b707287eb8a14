// Model of the libxml2 2.9 tree functions that libxmq calls, written from their documented behaviour (tree.h). Counterexamples
// are replayed against the real libxml2, so a discrepancy shows as a counterexample that does not reproduce.
#include <libxml/tree.h>
#include <libxml/xmlstring.h>
#include <string.h>
#include <stdlib.h>
static xmlChar *dup(const xmlChar *s) { return s ? (xmlChar*)strdup((const char*)s) : NULL; }
static void xfree(void *p) { free(p); }
static xmlFreeFunc freefn = xfree;
xmlFreeFunc xmlFree = xfree;
xmlFreeFunc *__xmlFree(void) { return &freefn; }
void xmlCheckVersion(int v) { }
const xmlChar xmlStringText[] = "text", xmlStringTextNoenc[] = "textnoenc", xmlStringComment[] = "comment";
static xmlNodePtr mk(xmlElementType t, const xmlChar *name, xmlDocPtr doc) { xmlNodePtr n = calloc(1, sizeof(xmlNode)); n->type = t; n->name = name; n->doc = doc; return n; }
xmlDocPtr xmlNewDoc(const xmlChar *version)
{
    xmlDocPtr d = calloc(1, sizeof(xmlDoc));
    d->type = XML_DOCUMENT_NODE; d->version = dup(version); d->standalone = -1; d->compression = -1; d->doc = d; d->parseFlags = 0; d->charset = XML_CHAR_ENCODING_UTF8;
    return d;
}
xmlNodePtr xmlNewDocText(const xmlDoc *doc, const xmlChar *c) { xmlNodePtr n = mk(XML_TEXT_NODE, xmlStringText, (xmlDocPtr)doc); n->content = dup(c); return n; }
xmlNodePtr xmlNewText(const xmlChar *c) { return xmlNewDocText(NULL, c); }
xmlNodePtr xmlNewDocTextLen(xmlDocPtr doc, const xmlChar *c, int len) { xmlNodePtr n = mk(XML_TEXT_NODE, xmlStringText, doc); if (c) n->content = (xmlChar*)strndup((const char*)c, len); return n; }
xmlNodePtr xmlNewComment(const xmlChar *c) { xmlNodePtr n = mk(XML_COMMENT_NODE, xmlStringComment, NULL); n->content = dup(c); return n; }
xmlNodePtr xmlNewDocComment(xmlDocPtr doc, const xmlChar *c) { xmlNodePtr n = xmlNewComment(c); n->doc = doc; return n; }
xmlNodePtr xmlNewPI(const xmlChar *name, const xmlChar *c) { if (!name) return NULL; xmlNodePtr n = mk(XML_PI_NODE, dup(name), NULL); n->content = dup(c); return n; }
xmlNodePtr xmlNewDocPI(xmlDocPtr doc, const xmlChar *name, const xmlChar *c) { xmlNodePtr n = xmlNewPI(name, c); if (n) n->doc = doc; return n; }
xmlNodePtr xmlNewNode(xmlNsPtr ns, const xmlChar *name) { if (!name) return NULL; xmlNodePtr n = mk(XML_ELEMENT_NODE, dup(name), NULL); n->ns = ns; return n; }
xmlNodePtr xmlNewDocNode(xmlDocPtr doc, xmlNsPtr ns, const xmlChar *name, const xmlChar *c) { xmlNodePtr n = xmlNewNode(ns, name); if (n) n->doc = doc; if (c) abort(); return n; }
xmlNodePtr xmlNewReference(const xmlDoc *doc, const xmlChar *name)
{
    if (!name) return NULL;
    xmlNodePtr n = mk(XML_ENTITY_REF_NODE, NULL, (xmlDocPtr)doc);
    if (name[0] == '&') { int len; name++; len = (int)strlen((const char*)name); if (len > 0 && name[len - 1] == ';') n->name = (xmlChar*)strndup((const char*)name, len - 1); else n->name = (xmlChar*)strndup((const char*)name, len); }
    else n->name = dup(name);
    return n;
}
xmlNodePtr xmlNewCharRef(xmlDocPtr doc, const xmlChar *name) { return xmlNewReference(doc, name); }
static void setdoc(xmlNodePtr n, xmlDocPtr doc)
{
    for (; n; n = n->next) { n->doc = doc; if (n->type == XML_ELEMENT_NODE) { for (xmlAttrPtr a = n->properties; a; a = a->next) { a->doc = doc; setdoc(a->children, doc); } } if (n->type != XML_ENTITY_REF_NODE && n->children) setdoc(n->children, doc); }
}
static void setdoc1(xmlNodePtr n, xmlDocPtr doc) { xmlNodePtr nx = n->next; n->next = NULL; setdoc(n, doc); n->next = nx; }
void xmlSetTreeDoc(xmlNodePtr n, xmlDocPtr d) { if (n) setdoc1(n, d); }
static void freenode(xmlNodePtr n);
static void freelist(xmlNodePtr n) { while (n) { xmlNodePtr nx = n->next; freenode(n); n = nx; } }
static void freens(xmlNsPtr ns) { while (ns) { xmlNsPtr nx = ns->next; free((void*)ns->href); free((void*)ns->prefix); free(ns); ns = nx; } }
static void freenode(xmlNodePtr n)
{
    if (n->type == XML_ATTRIBUTE_NODE) { xmlAttrPtr a = (xmlAttrPtr)n; freelist(a->children); free((void*)a->name); free(a); return; }
    if (n->type == XML_DTD_NODE) { xmlDtdPtr d = (xmlDtdPtr)n; freelist(d->children); free((void*)d->name); free((void*)d->ExternalID); free((void*)d->SystemID); free(d); return; }
    if (n->type != XML_ENTITY_REF_NODE && n->children) freelist(n->children);
    if (n->type == XML_ELEMENT_NODE) {
        for (xmlAttrPtr a = n->properties; a;) { xmlAttrPtr nx = a->next; freelist(a->children); free((void*)a->name); free(a); a = nx; }
        freens(n->nsDef);
    }
    if (n->type != XML_ELEMENT_NODE && n->type != XML_ENTITY_REF_NODE && n->content) free(n->content);
    if (n->name && n->type != XML_TEXT_NODE && n->type != XML_COMMENT_NODE) free((void*)n->name);
    free(n);
}
void xmlFreeNode(xmlNodePtr n) { if (n) freenode(n); }
void xmlFreeNodeList(xmlNodePtr n) { freelist(n); }
void xmlUnlinkNode(xmlNodePtr c)
{
    if (!c) return;
    if (c->type == XML_DTD_NODE) { xmlDocPtr d = c->doc; if (d) { if (d->intSubset == (xmlDtdPtr)c) d->intSubset = NULL; if (d->extSubset == (xmlDtdPtr)c) d->extSubset = NULL; } }
    if (c->parent && c->type == XML_ATTRIBUTE_NODE) { if (c->parent->properties == (xmlAttrPtr)c) c->parent->properties = (xmlAttrPtr)c->next; c->parent = NULL; }
    if (c->parent) { if (c->parent->children == c) c->parent->children = c->next; if (c->parent->last == c) c->parent->last = c->prev; c->parent = NULL; }
    if (c->next) c->next->prev = c->prev;
    if (c->prev) c->prev->next = c->next;
    c->next = c->prev = NULL;
}
void xmlFreeDtd(xmlDtdPtr d) { if (d) freenode((xmlNodePtr)d); }
void xmlFreeDoc(xmlDocPtr d)
{
    if (!d) return;
    xmlDtdPtr i = d->intSubset, e = d->extSubset; if (i == e) e = NULL;
    if (e) { xmlUnlinkNode((xmlNodePtr)e); d->extSubset = NULL; xmlFreeDtd(e); }
    if (i) { xmlUnlinkNode((xmlNodePtr)i); d->intSubset = NULL; xmlFreeDtd(i); }
    freelist(d->children); freens(d->oldNs); free((void*)d->version); free((void*)d->encoding); free((void*)d->URL); free(d);
}
void xmlNodeAddContentLen(xmlNodePtr c, const xmlChar *s, int len)
{
    if (!c || len <= 0) return;
    if (c->type == XML_ELEMENT_NODE) { xmlNodePtr n = xmlNewDocTextLen(c->doc, s, len); xmlNodePtr last = c->last; xmlNodePtr r = xmlAddChild(c, n); (void)last; (void)r; return; }
    if (c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE || c->type == XML_PI_NODE || c->type == XML_COMMENT_NODE || c->type == XML_NOTATION_NODE) {
        size_t o = c->content ? strlen((char*)c->content) : 0; size_t k = strnlen((const char*)s, len);
        xmlChar *b = malloc(o + k + 1); if (o) memcpy(b, c->content, o); memcpy(b + o, s, k); b[o + k] = 0; free(c->content); c->content = b; return;
    }
}
void xmlNodeAddContent(xmlNodePtr c, const xmlChar *s) { if (c && s) xmlNodeAddContentLen(c, s, (int)strlen((const char*)s)); }
void xmlNodeSetContent(xmlNodePtr c, const xmlChar *s)
{
    if (!c) return;
    if (c->type == XML_TEXT_NODE || c->type == XML_COMMENT_NODE || c->type == XML_PI_NODE || c->type == XML_CDATA_SECTION_NODE) { free(c->content); c->content = dup(s); return; }
    abort();
}
void xmlNodeSetName(xmlNodePtr c, const xmlChar *name) { if (!c || !name) return; xmlChar *o = (xmlChar*)c->name; c->name = dup(name); free(o); }
xmlNodePtr xmlAddChild(xmlNodePtr p, xmlNodePtr c)
{
    if (!p || !c || p == c) return NULL;
    if (c->type == XML_TEXT_NODE) {
        if ((p->type == XML_TEXT_NODE) && p->content != NULL && p->name == c->name) { xmlNodeAddContent(p, c->content); freenode(c); return p; }
        if (p->last && p->last->type == XML_TEXT_NODE && p->last->name == c->name && p->last != c) { xmlNodeAddContent(p->last, c->content); freenode(c); return p->last; }
    }
    xmlNodePtr was = c->parent; c->parent = p;
    if (c->doc != p->doc) setdoc1(c, p->doc);
    if (was == p) return c;
    if (p->children == NULL) { p->children = c; p->last = c; }
    else { xmlNodePtr pr = p->last; pr->next = c; c->prev = pr; p->last = c; }
    return c;
}
xmlNodePtr xmlAddNextSibling(xmlNodePtr cur, xmlNodePtr e)
{
    if (!cur || !e || cur == e) return NULL;
    xmlUnlinkNode(e);
    if (e->type == XML_TEXT_NODE) {
        if (cur->type == XML_TEXT_NODE) { xmlNodeAddContent(cur, e->content); freenode(e); return cur; }
        if (cur->next && cur->next->type == XML_TEXT_NODE && cur->name == cur->next->name) { xmlNodeAddContent(e, cur->next->content); xmlNodeSetContent(cur->next, e->content); freenode(e); return cur->next; }
    }
    if (e->doc != cur->doc) setdoc1(e, cur->doc);
    e->parent = cur->parent; e->prev = cur; e->next = cur->next; cur->next = e;
    if (e->next) e->next->prev = e;
    if (e->parent && e->parent->last == cur) e->parent->last = e;
    return e;
}
xmlNodePtr xmlAddPrevSibling(xmlNodePtr cur, xmlNodePtr e)
{
    if (!cur || !e || cur == e) return NULL;
    xmlUnlinkNode(e);
    if (e->type == XML_TEXT_NODE) {
        if (cur->type == XML_TEXT_NODE) { xmlNodeAddContent(e, cur->content); xmlNodeSetContent(cur, e->content); freenode(e); return cur; }
        if (cur->prev && cur->prev->type == XML_TEXT_NODE && cur->name == cur->prev->name) { xmlNodeAddContent(cur->prev, e->content); freenode(e); return cur->prev; }
    }
    if (e->doc != cur->doc) setdoc1(e, cur->doc);
    e->parent = cur->parent; e->next = cur; e->prev = cur->prev; cur->prev = e;
    if (e->prev) e->prev->next = e;
    if (e->parent && e->parent->children == cur) e->parent->children = e;
    return e;
}
xmlNodePtr xmlAddSibling(xmlNodePtr cur, xmlNodePtr e)
{
    if (!cur || !e || cur == e) return NULL;
    while (cur->next) cur = cur->next;
    xmlUnlinkNode(e);
    if (cur->type == XML_TEXT_NODE && e->type == XML_TEXT_NODE && cur->name == e->name) { xmlNodeAddContent(cur, e->content); freenode(e); return cur; }
    if (e->doc != cur->doc) setdoc1(e, cur->doc);
    e->next = NULL; e->prev = cur; cur->next = e; e->parent = cur->parent; if (e->parent) e->parent->last = e;
    return e;
}
xmlNodePtr xmlReplaceNode(xmlNodePtr old, xmlNodePtr cur)
{
    if (old == cur) return NULL;
    if (!old || !old->parent) return NULL;
    if (!cur) { xmlUnlinkNode(old); return old; }
    xmlUnlinkNode(cur); setdoc1(cur, old->doc); cur->parent = old->parent; cur->next = old->next; if (cur->next) cur->next->prev = cur; cur->prev = old->prev; if (cur->prev) cur->prev->next = cur;
    if (cur->parent) { if (cur->parent->children == old) cur->parent->children = cur; if (cur->parent->last == old) cur->parent->last = cur; }
    old->next = old->prev = NULL; old->parent = NULL;
    return old;
}
xmlNodePtr xmlDocGetRootElement(const xmlDoc *d) { if (!d) return NULL; xmlNodePtr r = d->children; while (r && r->type != XML_ELEMENT_NODE) r = r->next; return r; }
xmlNodePtr xmlDocSetRootElement(xmlDocPtr d, xmlNodePtr root)
{
    if (!d || !root) return NULL;
    xmlUnlinkNode(root); setdoc1(root, d); root->parent = (xmlNodePtr)d;
    xmlNodePtr old = d->children; while (old && old->type != XML_ELEMENT_NODE) old = old->next;
    if (!old) { if (!d->children) { d->children = root; d->last = root; } else xmlAddSibling(d->children, root); }
    else xmlReplaceNode(old, root);
    return old;
}
xmlNsPtr xmlNewNs(xmlNodePtr node, const xmlChar *href, const xmlChar *prefix)
{
    if (node && node->type != XML_ELEMENT_NODE) return NULL;
    if (prefix && !strcmp((const char*)prefix, "xml") && href && !strcmp((const char*)href, (const char*)XML_XML_NAMESPACE)) return NULL;
    if (node) for (xmlNsPtr p = node->nsDef; p; p = p->next) { if ((!p->prefix && !prefix) || (p->prefix && prefix && !strcmp((const char*)p->prefix, (const char*)prefix))) return NULL; }
    xmlNsPtr ns = calloc(1, sizeof(xmlNs)); ns->type = XML_LOCAL_NAMESPACE; ns->href = dup(href); ns->prefix = dup(prefix);
    if (node) { if (!node->nsDef) node->nsDef = ns; else { xmlNsPtr p = node->nsDef; while (p->next) p = p->next; p->next = ns; } }
    return ns;
}
void xmlSetNs(xmlNodePtr n, xmlNsPtr ns) { if (n && (n->type == XML_ELEMENT_NODE || n->type == XML_ATTRIBUTE_NODE)) n->ns = ns; }
xmlNsPtr xmlSearchNs(xmlDocPtr doc, xmlNodePtr node, const xmlChar *pfx)
{
    if (!node) return NULL;
    if (pfx && !strcmp((const char*)pfx, "xml")) { static xmlNs xns; xns.type = XML_LOCAL_NAMESPACE; xns.href = XML_XML_NAMESPACE; xns.prefix = (const xmlChar*)"xml"; return &xns; }
    xmlNodePtr orig = node;
    while (node) {
        if (node->type == XML_ENTITY_REF_NODE || node->type == XML_ENTITY_NODE) return NULL;
        if (node->type == XML_ELEMENT_NODE) {
            for (xmlNsPtr c = node->nsDef; c; c = c->next) { if (!c->prefix && !pfx && c->href) return c; if (c->prefix && pfx && c->href && !strcmp((const char*)c->prefix, (const char*)pfx)) return c; }
            if (orig != node) { xmlNsPtr c = node->ns; if (c) { if (!c->prefix && !pfx && c->href) return c; if (c->prefix && pfx && c->href && !strcmp((const char*)c->prefix, (const char*)pfx)) return c; } }
        }
        node = node->parent;
    }
    return NULL;
}
xmlNsPtr *xmlGetNsList(const xmlDoc *doc, const xmlNode *node)
{
    xmlNsPtr *r = NULL; int n = 0;
    if (!node || node->type == XML_NAMESPACE_DECL) return NULL;
    for (; node; node = node->parent) if (node->type == XML_ELEMENT_NODE) for (xmlNsPtr c = node->nsDef; c; c = c->next) {
        int i; for (i = 0; i < n; ++i) if (c->prefix == r[i]->prefix || (c->prefix && r[i]->prefix && !strcmp((const char*)c->prefix, (const char*)r[i]->prefix))) break;
        if (i >= n) { r = realloc(r, (n + 2) * sizeof(xmlNsPtr)); r[n++] = c; r[n] = NULL; }
    }
    return r;
}
static xmlAttrPtr newprop(xmlNodePtr node, xmlNsPtr ns, const xmlChar *name, const xmlChar *value)
{
    if (node && node->type != XML_ELEMENT_NODE) return NULL;
    xmlAttrPtr a = calloc(1, sizeof(xmlAttr)); a->type = XML_ATTRIBUTE_NODE; a->parent = node; a->ns = ns; a->name = dup(name);
    if (node) a->doc = node->doc;
    if (value) { a->children = xmlNewDocText(a->doc, value); for (xmlNodePtr t = a->children; t; t = t->next) { t->parent = (xmlNodePtr)a; if (!t->next) a->last = t; } }
    if (node) { if (!node->properties) node->properties = a; else { xmlAttrPtr p = node->properties; while (p->next) p = p->next; p->next = a; a->prev = p; } }
    return a;
}
xmlAttrPtr xmlNewProp(xmlNodePtr n, const xmlChar *name, const xmlChar *v) { if (!name) return NULL; return newprop(n, NULL, name, v); }
xmlAttrPtr xmlNewNsProp(xmlNodePtr n, xmlNsPtr ns, const xmlChar *name, const xmlChar *v) { if (!name) return NULL; return newprop(n, ns, name, v); }
xmlAttrPtr xmlHasProp(const xmlNode *n, const xmlChar *name) { if (!n || n->type != XML_ELEMENT_NODE || !name) return NULL; for (xmlAttrPtr a = n->properties; a; a = a->next) if (!strcmp((const char*)a->name, (const char*)name)) return a; return NULL; }
xmlChar *xmlNodeListGetString(xmlDocPtr doc, const xmlNode *list, int inl)
{
    if (!list) return NULL;
    size_t cap = 1; for (const xmlNode *n = list; n; n = n->next) { if (n->content) cap += strlen((char*)n->content); if (n->type == XML_ENTITY_REF_NODE && n->name) cap += strlen((char*)n->name) + 2; }
    char *r = malloc(cap); size_t k = 0; r[0] = 0; int any = 0;
    for (const xmlNode *n = list; n; n = n->next) {
        if (n->type == XML_TEXT_NODE || n->type == XML_CDATA_SECTION_NODE) { if (n->content) { size_t l = strlen((char*)n->content); memcpy(r + k, n->content, l); k += l; any = 1; } }
        else if (n->type == XML_ENTITY_REF_NODE) { r[k++] = '&'; size_t l = strlen((char*)n->name); memcpy(r + k, n->name, l); k += l; r[k++] = ';'; any = 1; }
    }
    r[k] = 0;
    if (!any) { free(r); return NULL; }
    return (xmlChar*)r;
}
xmlNodePtr xmlTextMerge(xmlNodePtr a, xmlNodePtr b) { if (!a) return b; if (!b) return a; if (a->type != XML_TEXT_NODE || b->type != XML_TEXT_NODE || a->name != b->name) return a; xmlNodeAddContent(a, b->content); xmlUnlinkNode(b); freenode(b); return a; }
xmlDtdPtr xmlNewDtd(xmlDocPtr doc, const xmlChar *name, const xmlChar *e, const xmlChar *s) { if (doc && doc->extSubset) return NULL; xmlDtdPtr d = calloc(1, sizeof(xmlDtd)); d->type = XML_DTD_NODE; d->name = dup(name); d->ExternalID = dup(e); d->SystemID = dup(s); if (doc) doc->extSubset = d; d->doc = doc; return d; }
xmlBufferPtr xmlBufferCreate(void) { xmlBufferPtr b = calloc(1, sizeof(xmlBuffer)); b->content = calloc(1, 1); return b; }
void xmlBufferFree(xmlBufferPtr b) { if (b) { free(b->content); free(b); } }
const xmlChar *xmlBufferContent(const xmlBuffer *b) { return b ? b->content : NULL; }
static void badd(xmlBufferPtr b, const char *s) { size_t l = strlen(s); b->content = realloc(b->content, b->use + l + 1); memcpy(b->content + b->use, s, l + 1); b->use += l; }
int xmlNodeDump(xmlBufferPtr b, xmlDocPtr d, xmlNodePtr n, int lv, int fmt)
{
    if (n->type == XML_DTD_NODE) { badd(b, "<!DOCTYPE "); badd(b, (char*)n->name); badd(b, ">"); return b->use; }
    if (n->type == XML_PI_NODE) { badd(b, "<?"); badd(b, (char*)n->name); if (n->content) { badd(b, " "); badd(b, (char*)n->content); } badd(b, "?>"); return b->use; }
    abort();
}

// xmlDocDumpMemoryEnc without formatting
static void besc(xmlBufferPtr b, const char *s, int attr)
{
    for (; *s; ++s)
    {
        char t[2] = { *s, 0 };
        if (*s == '&') badd(b, "&amp;"); else if (*s == '<') badd(b, "&lt;"); else if (*s == '>') badd(b, "&gt;"); else if (*s == '\r') badd(b, "&#13;");
        else if (attr && *s == '"') badd(b, "&quot;"); else if (attr && *s == '\n') badd(b, "&#10;"); else if (attr && *s == '\t') badd(b, "&#9;"); else badd(b, t);
    }
}
static void bname(xmlBufferPtr b, xmlNsPtr ns, const xmlChar *n) { if (ns && ns->prefix) { badd(b, (char*)ns->prefix); badd(b, ":"); } badd(b, (char*)n); }
static void btree(xmlBufferPtr b, xmlNodePtr n, int attr)
{
    for (; n; n = n->next) switch (n->type)
    {
    case XML_TEXT_NODE: if (n->content) besc(b, (char*)n->content, attr); break;
    case XML_ENTITY_REF_NODE: badd(b, "&"); badd(b, (char*)n->name); badd(b, ";"); break;
    case XML_COMMENT_NODE: badd(b, "<!--"); if (n->content) badd(b, (char*)n->content); badd(b, "-->"); break;
    case XML_ELEMENT_NODE:
        badd(b, "<"); bname(b, n->ns, n->name);
        for (xmlNsPtr x = n->nsDef; x; x = x->next) { badd(b, x->prefix ? " xmlns:" : " xmlns"); if (x->prefix) badd(b, (char*)x->prefix); badd(b, "=\""); besc(b, (char*)x->href, 1); badd(b, "\""); }
        for (xmlAttrPtr a = n->properties; a; a = a->next) { badd(b, " "); bname(b, a->ns, a->name); badd(b, "=\""); btree(b, a->children, 1); badd(b, "\""); }
        if (!n->children) { badd(b, "/>"); break; }
        badd(b, ">"); btree(b, n->children, 0); badd(b, "</"); bname(b, n->ns, n->name); badd(b, ">"); break;
    default: xmlNodeDump(b, 0, n, 0, 0);
    }
}
void xmlDocDumpMemoryEnc(xmlDocPtr d, xmlChar **p, int *size, const char *enc)
{
    *p = NULL; *size = 0; if (!d) return;
    xmlBufferPtr b = xmlBufferCreate(); badd(b, "<?xml version=\"1.0\" encoding=\""); badd(b, enc); badd(b, d->standalone == 1 ? "\" standalone=\"yes\"?>\n" : d->standalone == 0 ? "\" standalone=\"no\"?>\n" : "\"?>\n");
    for (xmlNodePtr n = d->children; n; n = n->next) { xmlNodePtr next = n->next; n->next = NULL; btree(b, n, 0); n->next = next; badd(b, "\n"); }
    *p = b->content; *size = b->use; free(b);
}

// The push parser, for what parse_doctype_raw feeds it: "<!DOCTYPE name><foo></foo>". Only ASCII name characters and blanks are
// modelled as name, anything else (internal subsets, system ids) is outside of the bounds.
#include <libxml/parser.h>
#include "sx.h"
xmlParserCtxtPtr xmlCreatePushParserCtxt(xmlSAXHandlerPtr sax, void *ud, const char *chunk, int size, const char *fn)
{
    xmlParserCtxtPtr c = calloc(1, sizeof(xmlParserCtxt)); c->_private = xmlBufferCreate(); return c;
}
void xmlFreeParserCtxt(xmlParserCtxtPtr c) { if (!c) return; xmlBufferFree(c->_private); free(c); }
static int dblank(char c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r'); }
static int dstart(char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_') | (c == ':'); }
static int dname(char c) { return dstart(c) | ((c >= '0') & (c <= '9')) | (c == '-') | (c == '.'); }
int xmlParseChunk(xmlParserCtxtPtr c, const char *p, int n, int terminate)
{
    xmlBufferPtr b = c->_private;
    b->content = realloc(b->content, b->use + n + 1); memcpy(b->content + b->use, p, n); b->use += n; b->content[b->use] = 0;
    if (!terminate) return 0;
    const char *s = (char*)b->content, *tail = "><foo></foo>"; size_t len = b->use, i = 10, st;
    if (len < 22 || strncmp(s, "<!DOCTYPE ", 10) || strcmp(s + len - 12, tail)) abort();
    for (i = 10; i < len - 12; ++i) sx_assume(dblank(s[i]) | dname(s[i]));
    c->myDoc = xmlNewDoc((xmlChar*)"1.0");
    for (i = 10; dblank(s[i]); ++i) {}
    st = i;
    if (!dstart(s[i])) { c->wellFormed = 0; return 1; }
    while (dname(s[i])) i++;
    xmlChar *name = (xmlChar*)strndup(s + st, i - st);
    while (dblank(s[i])) i++;
    xmlDtdPtr d = calloc(1, sizeof(xmlDtd)); d->type = XML_DTD_NODE; d->name = name; d->doc = c->myDoc;
    c->myDoc->intSubset = d; xmlAddChild((xmlNodePtr)c->myDoc, (xmlNodePtr)d);
    c->wellFormed = i == len - 12;
    return !c->wellFormed;
}
xmlDtdPtr xmlCopyDtd(xmlDtdPtr d)
{
    if (!d) return NULL;
    xmlDtdPtr r = calloc(1, sizeof(xmlDtd)); r->type = XML_DTD_NODE; r->name = dup(d->name); r->ExternalID = dup(d->ExternalID); r->SystemID = dup(d->SystemID); return r;
}
// ---- copies (documents whose names have no namespace)
xmlNodePtr xmlCopyNode(xmlNodePtr n, int ext)
{
    if (!n) return NULL;
    if (n->type == XML_DTD_NODE) return (xmlNodePtr)xmlCopyDtd((xmlDtdPtr)n);
    if (n->type == XML_ENTITY_REF_NODE) return xmlNewReference(n->doc, n->name);
    if (n->ns || n->nsDef && n->type == XML_ELEMENT_NODE || n->type == XML_DOCUMENT_NODE) abort();   // outside of the model
    xmlNodePtr r = mk(n->type, n->type == XML_TEXT_NODE || n->type == XML_COMMENT_NODE ? n->name : n->name ? dup(n->name) : NULL, NULL);
    if (n->type != XML_ELEMENT_NODE) { if (n->content) r->content = dup(n->content); return r; }
    if (!ext) return r;
    for (xmlAttrPtr a = n->properties; a; a = a->next)
    {
        xmlAttrPtr b = newprop(r, NULL, a->name, NULL);
        for (xmlNodePtr t = a->children; t; t = t->next) { xmlNodePtr u = xmlCopyNode(t, 1); u->parent = (xmlNodePtr)b; u->prev = b->last; if (b->last) b->last->next = u; else b->children = u; b->last = u; }
    }
    if (ext == 2) return r;
    for (xmlNodePtr t = n->children; t; t = t->next) { xmlNodePtr u = xmlCopyNode(t, 1); u->parent = r; u->prev = r->last; if (r->last) r->last->next = u; else r->children = u; r->last = u; }
    return r;
}
// ---- XPath: paths of steps, absolute (/a/b) or relative (a/b), // before a step for descendants; a step is a name, *, @name, @*,
// text(), comment() or node(); "/" is the document
#include <libxml/xpath.h>
xmlXPathContextPtr xmlXPathNewContext(xmlDocPtr d) { xmlXPathContextPtr c = calloc(1, sizeof *c); c->doc = d; c->node = 0; return c; }
void xmlXPathFreeContext(xmlXPathContextPtr c) { free(c); }
int xmlXPathSetContextNode(xmlNodePtr n, xmlXPathContextPtr c) { c->node = n; return 0; }
static void xp_add(xmlNodeSetPtr s, xmlNodePtr n) { s->nodeTab = realloc(s->nodeTab, (s->nodeNr + 1) * sizeof n); s->nodeTab[s->nodeNr++] = n; }
static int xp_is(const char *p, size_t l, const char *w) { return strlen(w) == l && !memcmp(p, w, l); }
static int xp_test(xmlNodePtr n, const char *p, size_t l)
{
  if (xp_is(p, l, "node()")) return 1;
  if (xp_is(p, l, "text()")) return n->type == XML_TEXT_NODE || n->type == XML_CDATA_SECTION_NODE;
  if (xp_is(p, l, "comment()")) return n->type == XML_COMMENT_NODE;
  if (n->type != XML_ELEMENT_NODE) return 0;
  return xp_is(p, l, "*") || (!n->ns && xp_is(p, l, (char*)n->name));
}
static void xp_walk(xmlNodeSetPtr s, xmlNodePtr kids, xmlAttrPtr attrs, const char *p)
{
  int deep = *p == '/'; if (deep) p++;
  const char *e = p; while (*e && *e != '/') e++;
  size_t l = e - p;
  if (*p == '@') for (; attrs; attrs = attrs->next) if (xp_is(p + 1, l - 1, "*") || xp_is(p + 1, l - 1, (char*)attrs->name)) xp_add(s, (xmlNodePtr)attrs);
  for (; kids; kids = kids->next)
  {
    if (kids->type == XML_DTD_NODE) continue;
    xmlNodePtr down = kids->type == XML_ENTITY_REF_NODE ? 0 : kids->children; xmlAttrPtr at = kids->type == XML_ELEMENT_NODE ? kids->properties : 0;
    if (*p != '@' && xp_test(kids, p, l)) { if (*e) xp_walk(s, down, at, e + 1); else xp_add(s, kids); }
    if (deep) xp_walk(s, down, at, p - 1);
  }
}
xmlNodeSetPtr xmlXPathNodeSetCreate(xmlNodePtr n) { xmlNodeSetPtr s = calloc(1, sizeof *s); if (n) xp_add(s, n); return s; }
int xmlXPathNodeSetAddUnique(xmlNodeSetPtr s, xmlNodePtr n) { xp_add(s, n); return 0; }
int xmlXPathNodeSetAdd(xmlNodeSetPtr s, xmlNodePtr n) { for (int i = 0; i < s->nodeNr; ++i) if (s->nodeTab[i] == n) return 0; xp_add(s, n); return 0; }
static int xp_rank(xmlNodePtr kids, xmlNodePtr n, int *k)
{
  for (; kids; kids = kids->next)
  {
    (*k)++; if (kids == n) return 1;
    if (kids->type == XML_ELEMENT_NODE) for (xmlAttrPtr a = kids->properties; a; a = a->next) { (*k)++; if ((xmlNodePtr)a == n) return 1; }
    if (kids->type == XML_ELEMENT_NODE && xp_rank(kids->children, n, k)) return 1;
  }
  return 0;
}
static int xp_order(xmlNodePtr n) { int k = 0; return n->doc && xp_rank(n->doc->children, n, &k) ? k : 0; }
void xmlXPathNodeSetSort(xmlNodeSetPtr s) { for (int i = 1; i < s->nodeNr; ++i) for (int j = i; j > 0 && xp_order(s->nodeTab[j - 1]) > xp_order(s->nodeTab[j]); --j) { xmlNodePtr t = s->nodeTab[j]; s->nodeTab[j] = s->nodeTab[j - 1]; s->nodeTab[j - 1] = t; } }
void xmlXPathFreeNodeSet(xmlNodeSetPtr s) { if (!s) return; for (int i = 0; i < s->nodeNr; ++i) if (s->nodeTab[i]->type == XML_NAMESPACE_DECL) abort(); free(s->nodeTab); free(s); }
xmlXPathObjectPtr xmlXPathEvalExpression(const xmlChar *x, xmlXPathContextPtr c)
{
  xmlXPathObjectPtr o = calloc(1, sizeof *o); o->nodesetval = calloc(1, sizeof *o->nodesetval);
  const char *p = (const char*)x;
  if (*p == '/' && !p[1]) xp_add(o->nodesetval, (xmlNodePtr)c->doc);
  else if (*p == '/') xp_walk(o->nodesetval, c->doc->children, 0, p + 1); else if (c->node) xp_walk(o->nodesetval, c->node->children, c->node->type == XML_ELEMENT_NODE ? c->node->properties : 0, p);   // without a context node a relative path finds nothing
  return o;
}
void xmlXPathFreeObject(xmlXPathObjectPtr o)
{
  for (int i = 0; i < o->nodesetval->nodeNr; ++i) if (o->nodesetval->nodeTab[i] && o->nodesetval->nodeTab[i]->type == XML_NAMESPACE_DECL) abort();   // libxml2 looks at the type too
  free(o->nodesetval->nodeTab); free(o->nodesetval); free(o);
}

xmlChar *xmlStrdup(const xmlChar *s) { return s ? (xmlChar*)strdup((const char*)s) : NULL; }
