From ae804ccc9f334ce7d0b90cfafee8876c84d5c587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 01/74] fix: do not loop forever on a tab or an invalid
 character in attributes or a compound

---
 src/main/c/parts/xmq_parser.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index 3131a1a..10509f1 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -819,7 +819,7 @@ void parse_xmq_attributes(XMQParseState *state)
     {
         char c = *(state->i);
 
-        if (is_xml_whitespace(c)) parse_xmq_whitespace(state);
+        if (is_xmq_token_whitespace(c)) parse_xmq_whitespace(state);
         else if (c == ')') return;
         else if (is_xmq_attribute_key_start(c)) parse_xmq_attribute(state);
         else break;
@@ -840,6 +840,13 @@ void parse_xmq_attribute(XMQParseState *state)
     eat_xmq_text_name(state, &name_start, &name_stop, &ns_start, &ns_stop);
     const char *stop = state->i;
 
+    if (stop == name_start && !ns_start)
+    {
+        // Not a single character was eaten, this cannot be an attribute key.
+        state->error_nr = *stop == '\t' ? XMQ_ERROR_UNEXPECTED_TAB : XMQ_ERROR_INVALID_CHAR;
+        longjmp(state->error_handler, 1);
+    }
+
     if (!ns_start)
     {
         // No colon found, we have either a normal: key=123
@@ -947,13 +954,13 @@ void parse_xmq_compound_children(XMQParseState *state, Level level)
     {
         char c = *(state->i);
 
-        if (is_xml_whitespace(c)) parse_xmq_whitespace(state);
+        if (is_xmq_token_whitespace(c)) parse_xmq_whitespace(state);
         else if (c == ')') break;
         else if (is_xmq_quote_start(c)) parse_xmq_quote(state, level);
         else if (is_xmq_entity_start(c)) parse_xmq_entity(state, level);
         else
         {
-            state->error_nr = XMQ_ERROR_COMPOUND_MAY_NOT_CONTAIN;
+            state->error_nr = c == '\t' ? XMQ_ERROR_UNEXPECTED_TAB : XMQ_ERROR_COMPOUND_MAY_NOT_CONTAIN;
             longjmp(state->error_handler, 1);
         }
     }
-- 
2.43.0


From a0fafeeed5ee1ccd6331665a603ca5268a7f036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 02/74] fix: do not read past the end of the buffer when a
 value is missing after =

---
 src/main/c/parts/xmq_parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index 10509f1..88c7be3 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -638,7 +638,8 @@ void parse_xmq_value(XMQParseState *state, Level level)
     }
     else
     {
-        char cc = *(state->i+1);
+        char cc = 0;
+        if (state->i+1 < state->buffer_stop) cc = *(state->i+1);
         if (unsafe_value_start(c, cc))
         {
             state->error_nr = XMQ_ERROR_VALUE_CANNOT_START_WITH;
-- 
2.43.0


From 755f4563e614e5110674e1dc9fffcf3199713ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 03/74] fix: do not read before the start of the buffer when
 the first character is = { or (

---
 src/main/c/parts/xmq_parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index 88c7be3..0415347 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -987,6 +987,9 @@ bool possibly_lost_content_after_equals(XMQParseState *state)
     const char *i = state->i-1;
     const char *start = state->buffer_start;
 
+    // Nothing before this character, then nothing could be lost.
+    if (i < start) return false;
+
     // Scan backwards for newline accepting only texts and xml whitespace.
     while (i > start && *i != '\n' && (is_xmq_text_name(*i) || is_xml_whitespace(*i))) i--;
     if (i == start || *i != '\n') return false;
-- 
2.43.0


From 62a6e95c92c4811533ec23c3959b36b6917746ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 04/74] fix: do not overflow the code point buffer when
 reporting an invalid char

---
 src/main/c/parts/xmq_internals.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/c/parts/xmq_internals.c b/src/main/c/parts/xmq_internals.c
index 2e7f78f..4bb4baa 100644
--- a/src/main/c/parts/xmq_internals.c
+++ b/src/main/c/parts/xmq_internals.c
@@ -92,7 +92,7 @@ void generate_state_error_message(XMQParseState *state, XMQParseError error_nr,
     {
         UTF8Char utf8_char;
         peek_utf8_char(statei, stop, &utf8_char);
-        char utf8_codepoint[8];
+        char utf8_codepoint[16];
         utf8_char_to_codepoint_string(&utf8_char, utf8_codepoint);
 
         snprintf(buf, 32, " \"%s\" %s", utf8_char.bytes, utf8_codepoint);
-- 
2.43.0


From fb138fc29b23014bbe89b33fda997821b3555e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 05/74] fix: do not read outside of the buffer or leave the
 char uninitialised when peeking invalid utf8

---
 src/main/c/parts/text.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/main/c/parts/text.c b/src/main/c/parts/text.c
index 68ae86f..4191bae 100644
--- a/src/main/c/parts/text.c
+++ b/src/main/c/parts/text.c
@@ -179,8 +179,20 @@ size_t num_utf8_bytes(char c)
 */
 size_t peek_utf8_char(const char *start, const char *stop, UTF8Char *uc)
 {
+    memset(uc, 0, sizeof(*uc));
+
+    if (stop && start >= stop) return 0;
+
     char a = *start;
     size_t n = num_utf8_bytes(a);
+    uc->bytes[0] = a;
+    if (n == 0) return 0;
+
+    // Stop before the end of the buffer and before a byte that does not continue the utf8 char.
+    for (size_t i = 1; i < n; ++i)
+    {
+        if ((stop && start+i >= stop) || (start[i] & 0xc0) != 0x80) return 0;
+    }
 
     if (n == 1)
     {
-- 
2.43.0


From d2a16a6d5d32415253131959d7f6d2150d6d8267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 06/74] fix: do not crash when = { or ( follows a comment
 ending with =

---
 src/main/c/parts/xmq_parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index 0415347..9328f40 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -1002,7 +1002,8 @@ bool possibly_lost_content_after_equals(XMQParseState *state)
         i--;
     }
 
-    return *i == '=';
+    // An = inside a comment or quote is not an equals token.
+    return *i == '=' && state->last_equals_start != NULL;
 }
 
 bool possibly_need_more_quotes(XMQParseState *state)
-- 
2.43.0


From 68f6922fe18d14e4cdcd04b7474335b27e96b860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:55 +0000
Subject: [PATCH 07/74] fix: free pending names when a parse stops on an error

---
 src/main/c/xmq.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 8691d85..eb34c05 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1734,6 +1734,13 @@ void xmqFreeParseState(XMQParseState *state)
     }
     stack_free(state->element_stack);
     state->element_stack = NULL;
+    // These are still set when the parse stopped on an error.
+    free((char*)state->pi_name);
+    state->pi_name = NULL;
+    free(state->element_namespace);
+    state->element_namespace = NULL;
+    free(state->attribute_namespace);
+    state->attribute_namespace = NULL;
     // Settings are not freed here.
     state->output_settings = NULL;
 
-- 
2.43.0


From 71f96b66998b44ec51285f46cb9fa42746c77d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:55 +0000
Subject: [PATCH 08/74] fix: do not skip content or read past the end when
 trimming a short line in a quote

---
 src/main/c/xmq.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index eb34c05..e27de49 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1517,6 +1517,8 @@ char *xmq_trim_quote(size_t indent, char space, const char *start, const char *s
             while (n > 0)
             {
                 char c = *i;
+                // A line can be shorter than the incidental indentation, only skip indentation.
+                if (c != ' ' && c != '\t') break;
                 i++;
                 if (c == ' ') n--;
                 else if (c == '\t')
-- 
2.43.0


From 5ac33875229aeb3dd86673fbdaca7d8a176f083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 09/74] fix: detect a byte order mark that ends the buffer and
 set an error for utf16

---
 src/main/c/xmq.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index e27de49..30774ff 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1805,7 +1805,7 @@ void xmqFreeDoc(XMQDoc *doq)
 
 const char *skip_any_potential_bom(const char *start, const char *stop)
 {
-    if (start + 3 < stop)
+    if (start + 3 <= stop)
     {
         int a = (unsigned char)*(start+0);
         int b = (unsigned char)*(start+1);
@@ -1817,7 +1817,7 @@ const char *skip_any_potential_bom(const char *start, const char *stop)
         }
     }
 
-    if (start+2 < stop)
+    if (start+2 <= stop)
     {
         unsigned char a = *(start+0);
         unsigned char b = *(start+1);
@@ -4069,7 +4069,12 @@ bool xmqParseBufferWithType(XMQDoc *doq,
 
     // Unicode files might lead with a byte ordering mark.
     start = skip_any_potential_bom(start, stop);
-    if (!start) return false;
+    if (!start)
+    {
+        doq->errno_ = XMQ_ERROR_NOT_XMQ;
+        doq->error_ = build_error_message("xmq: cannot handle utf16 content\n");
+        return false;
+    }
 
     XMQContentType detected_ct = XMQ_CONTENT_UNKNOWN;
     if (ct != XMQ_CONTENT_IXML) detected_ct = xmqDetectContentType(start, stop);
-- 
2.43.0


From 88287f6e8fdf98aaf335c85d66ce385af80bb265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 10/74] fix: do not attach the value, attributes or children of
 a doctype or pi to another node

---
 src/main/c/parts/text.c        |  4 ++--
 src/main/c/parts/xmq_parser.c  | 25 +++++++++++++++++++++++++
 src/main/c/parts/xmq_printer.c |  5 ++++-
 src/main/c/xmq.c               | 12 ++++++++++++
 4 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/main/c/parts/text.c b/src/main/c/parts/text.c
index 4191bae..085e022 100644
--- a/src/main/c/parts/text.c
+++ b/src/main/c/parts/text.c
@@ -612,8 +612,8 @@ char *xmq_unquote_as_c(const char *start, const char *stop, bool remove_quotes)
 char *potentially_add_leading_ending_space(const char *start, const char *stop)
 {
     char *content = NULL;
-    int prefix = *start == '\'' ? 1 : 0;
-    int postfix = *(stop-1) == '\'' ? 1 : 0;
+    int prefix = start < stop && *start == '\'' ? 1 : 0;
+    int postfix = start < stop && *(stop-1) == '\'' ? 1 : 0;
     if (prefix || postfix)
     {
         size_t len = stop-start;
diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index 9328f40..c15cebc 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -713,6 +713,19 @@ void parse_xmq_element_internal(XMQParseState *state, bool doctype, bool pi)
     c = *state->i;
     if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = *state->i; }
 
+    if (doctype && (state->i >= state->buffer_stop || c != '='))
+    {
+        // A doctype without content would swallow the value of the next element.
+        state->error_nr = XMQ_ERROR_BAD_DOCTYPE;
+        longjmp(state->error_handler, 1);
+    }
+    if ((doctype || pi) && (c == '(' || c == '{'))
+    {
+        // A doctype and a processing instruction have neither attributes nor children.
+        state->error_nr = XMQ_ERROR_INVALID_CHAR;
+        longjmp(state->error_handler, 1);
+    }
+
     if (c == '(')
     {
         const char *start = state->i;
@@ -762,6 +775,18 @@ void parse_xmq_element_internal(XMQParseState *state, bool doctype, bool pi)
 
         DO_CALLBACK(equals, state, start_line, start_col, start, stop, stop);
 
+        if (doctype || pi)
+        {
+            // The content of a doctype or a processing instruction is a text or a quote.
+            c = *state->i;
+            if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = *state->i; }
+            if (is_xmq_entity_start(c) || is_xmq_compound_start(c))
+            {
+                state->error_nr = XMQ_ERROR_INVALID_CHAR;
+                longjmp(state->error_handler, 1);
+            }
+        }
+
         parse_xmq_value(state, LEVEL_ELEMENT_VALUE);
         return;
     }
diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 5d86065..7129b86 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -432,7 +432,10 @@ void print_pi_node(XMQPrintState *ps, xmlNode *node)
     {
         n-=2;
     }
-    char *content = potentially_add_leading_ending_space(c+name_len+3, c+n);
+    // There is no space after the name if the pi has no content.
+    size_t offset = name_len+3;
+    if (offset > n) offset = n;
+    char *content = potentially_add_leading_ending_space(c+offset, c+n);
     n = strlen(content);
     char *end = content+n;
 
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 30774ff..284db16 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -2591,6 +2591,18 @@ void do_element_name(XMQParseState *state,
                      const char *suffix)
 {
     create_node(state, start, stop);
+
+    if (state->parsing_pi)
+    {
+        // No equals follows, this is a processing instruction without content.
+        xmlNodePtr n = (xmlNodePtr)xmlNewPI((xmlChar*)state->pi_name, NULL);
+        xmlNodePtr parent = (xmlNode*)state->element_stack->top->data;
+        xmlAddChild(parent, n);
+
+        state->parsing_pi = false;
+        free((char*)state->pi_name);
+        state->pi_name = NULL;
+    }
 }
 
 void do_element_key(XMQParseState *state,
-- 
2.43.0


From 371f0e2eb2ff108d411417d5fdff93243655ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 11/74] fix: free the previous href when a namespace is
 declared more than once

---
 src/main/c/xmq.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 284db16..97bb5c0 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -2406,6 +2406,8 @@ void update_namespace_href(XMQParseState *state,
     if (!stop) stop = start+strlen(start);
 
     char *href = strndup(start, stop-start);
+    // The same namespace can be declared more than once.
+    if (ns->href) xmlFree((void*)ns->href);
     ns->href = (const xmlChar*)href;
     debug("xmq=", "update namespace prefix=%s with href=%s", ns->prefix, href);
 
-- 
2.43.0


From 39a63c866ffd9c18d26e3354681a116747f25b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 12/74] fix: do not use the value of an attribute as the value
 of a previous namespace declaration

---
 src/main/c/xmq.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 97bb5c0..1125fb8 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -2368,6 +2368,10 @@ void do_attr_key(XMQParseState *state,
     xmlNodePtr parent = (xmlNode*)state->element_stack->top->data;
     xmlAttrPtr attr = NULL;
 
+    // A namespace declared without a value must not swallow the value of this attribute.
+    state->declaring_xmlns = false;
+    state->declaring_xmlns_namespace = NULL;
+
     if (!state->attribute_namespace)
     {
         // A normal attribute with no namespace.
@@ -2663,6 +2667,8 @@ void do_apar_right(XMQParseState *state,
                   const char *stop,
                   const char *suffix)
 {
+    state->declaring_xmlns = false;
+    state->declaring_xmlns_namespace = NULL;
     state->element_last = stack_pop(state->element_stack);
 }
 
-- 
2.43.0


From 87517933bf99f0f8dc67d8fad35e0d24c452db6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 13/74] fix: do not read the byte after the end of the buffer
 when parsing or detecting content

---
 src/main/c/parts/xmq_parser.c | 42 ++++++++++++++++++++---------------
 src/main/c/xmq.c              |  6 ++---
 2 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index c15cebc..e9d82a2 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -20,6 +20,13 @@ void eat_xmq_text_name(XMQParseState *state, const char **content_start, const c
                        const char **namespace_start, const char **namespace_stop);
 bool possibly_lost_content_after_equals(XMQParseState *state);
 bool possibly_need_more_quotes(XMQParseState *state);
+char peek_xmq_char(XMQParseState *state);
+
+/** Return the current char, or 0 at the end of the buffer which must not be dereferenced. */
+char peek_xmq_char(XMQParseState *state)
+{
+    return state->i < state->buffer_stop ? *state->i : 0;
+}
 
 size_t count_xmq_quotes(const char *i, const char *stop)
 {
@@ -138,7 +145,6 @@ void eat_xmq_entity(XMQParseState *state)
     if (c == ';')
     {
         increment(c, 1, &i, &line, &col);
-        c = *i;
         expect_semicolon = false;
     }
     if (expect_semicolon)
@@ -419,7 +425,7 @@ size_t count_xmq_slashes(const char *i, const char *stop, bool *found_asterisk)
 
     while (i < stop && *i == '/') i++;
 
-    if (*i == '*') *found_asterisk = true;
+    if (i < stop && *i == '*') *found_asterisk = true;
     else *found_asterisk = false;
 
     return i-start;
@@ -616,12 +622,12 @@ void parse_xmq_text_value(XMQParseState *state, Level level)
 
 void parse_xmq_value(XMQParseState *state, Level level)
 {
-    char c = *state->i;
+    char c = peek_xmq_char(state);
 
     if (is_xml_whitespace(c))
     {
         parse_xmq_whitespace(state);
-        c = *state->i;
+        c = peek_xmq_char(state);
     }
 
     if (is_xmq_quote_start(c))
@@ -710,8 +716,8 @@ void parse_xmq_element_internal(XMQParseState *state, bool doctype, bool pi)
     }
 
 
-    c = *state->i;
-    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = *state->i; }
+    c = peek_xmq_char(state);
+    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = peek_xmq_char(state); }
 
     if (doctype && (state->i >= state->buffer_stop || c != '='))
     {
@@ -740,8 +746,8 @@ void parse_xmq_element_internal(XMQParseState *state, bool doctype, bool pi)
 
         parse_xmq_attributes(state);
 
-        c = *state->i;
-        if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = *state->i; }
+        c = peek_xmq_char(state);
+        if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = peek_xmq_char(state); }
         if (c != ')')
         {
             state->error_nr = XMQ_ERROR_ATTRIBUTES_NOT_CLOSED;
@@ -759,8 +765,8 @@ void parse_xmq_element_internal(XMQParseState *state, bool doctype, bool pi)
         DO_CALLBACK(apar_right, state, start_line, start_col, parentheses_right_start, parentheses_right_stop, stop);
     }
 
-    c = *state->i;
-    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = *state->i; }
+    c = peek_xmq_char(state);
+    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = peek_xmq_char(state); }
 
     if (c == '=')
     {
@@ -778,8 +784,8 @@ void parse_xmq_element_internal(XMQParseState *state, bool doctype, bool pi)
         if (doctype || pi)
         {
             // The content of a doctype or a processing instruction is a text or a quote.
-            c = *state->i;
-            if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = *state->i; }
+            c = peek_xmq_char(state);
+            if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = peek_xmq_char(state); }
             if (is_xmq_entity_start(c) || is_xmq_compound_start(c))
             {
                 state->error_nr = XMQ_ERROR_INVALID_CHAR;
@@ -804,8 +810,8 @@ void parse_xmq_element_internal(XMQParseState *state, bool doctype, bool pi)
         DO_CALLBACK(brace_left, state, start_line, start_col, start, stop, stop);
 
         parse_xmq(state);
-        c = *state->i;
-        if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = *state->i; }
+        c = peek_xmq_char(state);
+        if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = peek_xmq_char(state); }
         if (c != '}')
         {
             state->error_nr = XMQ_ERROR_BODY_NOT_CLOSED;
@@ -916,8 +922,8 @@ void parse_xmq_attribute(XMQParseState *state)
         }
     }
 
-    c = *state->i;
-    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = *state->i; }
+    c = peek_xmq_char(state);
+    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = peek_xmq_char(state); }
 
     if (c == '=')
     {
@@ -954,8 +960,8 @@ void parse_xmq_compound(XMQParseState *state, Level level)
 
     parse_xmq_compound_children(state, enter_compound_level(level));
 
-    char c = *state->i;
-    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = *state->i; }
+    char c = peek_xmq_char(state);
+    if (is_xml_whitespace(c)) { parse_xmq_whitespace(state); c = peek_xmq_char(state); }
 
     if (c != ')')
     {
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 1125fb8..1895442 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1033,10 +1033,10 @@ const char *find_word_ignore_case(const char *start, const char *stop, const cha
     size_t len = strlen(word);
 
     while (i < stop && is_xml_whitespace(*i)) i++;
-    if (!strncasecmp(i, word, len))
+    if ((ptrdiff_t)len <= stop-i && !strncasecmp(i, word, len))
     {
         const char *next = i+len;
-        if (next <= stop && (is_xml_whitespace(*next) || *next == 0 || !isalnum(*next)))
+        if (next == stop || (is_xml_whitespace(*next) || *next == 0 || !isalnum(*next)))
         {
             // The word was properly terminated with a 0, or a whitespace or something not alpha numeric.
             return i+strlen(word);
@@ -1183,7 +1183,7 @@ bool find_line(const char *start, // Start scanning the line from here.
     {
         if (*i == '\n' || *i == '\r')
         {
-            if (*i == '\r' && *(i+1) == '\n') i++;
+            if (*i == '\r' && i+1 < stop && *(i+1) == '\n') i++;
             i++;
             has_nl = true;
             break;
-- 
2.43.0


From 7c7a3be3351a90e691cf01a44501ae17f1f34361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 14/74] fix: do not read after the buffer for an empty
 namespace or a short last comment line

---
 src/main/c/xmq.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 1895442..456eb79 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1514,7 +1514,7 @@ char *xmq_trim_quote(size_t indent, char space, const char *start, const char *s
             // For all lines except the first. And for the first line if ignore_first_indent is true.
             // Skip the incidental indentation.
             size_t n = incidental;
-            while (n > 0)
+            while (n > 0 && i < stop)
             {
                 char c = *i;
                 // A line can be shorter than the incidental indentation, only skip indentation.
@@ -2415,7 +2415,7 @@ void update_namespace_href(XMQParseState *state,
     ns->href = (const xmlChar*)href;
     debug("xmq=", "update namespace prefix=%s with href=%s", ns->prefix, href);
 
-    if (start[0] == 0 && ns == state->default_namespace)
+    if (href[0] == 0 && ns == state->default_namespace)
     {
         xmlNodePtr element = (xmlNode*)state->element_stack->top->data;
         debug("xmq=", "remove default namespace in element %s", element->name);
-- 
2.43.0


From b34d26e93cd5ff93b473660056f78841d966ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 15/74] fix: see the equals after unicode whitespace when
 parsing a processing instruction

---
 src/main/c/parts/xmq_parser.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index e9d82a2..c3528c4 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -453,15 +453,15 @@ bool peek_xmq_next_is_equal(XMQParseState *state)
 {
     const char *i = state->i;
     const char *stop = state->buffer_stop;
-    char c = 0;
 
     while (i < stop)
     {
-        c = *i;
-        if (!is_xml_whitespace(c)) break;
-        i++;
+        // Skip the same whitespace as eat_xmq_token_whitespace does.
+        size_t nw = count_whitespace(i, stop);
+        if (!nw) break;
+        i += nw;
     }
-    return c == '=';
+    return i < stop && *i == '=';
 }
 
 void parse_xmq(XMQParseState *state)
-- 
2.43.0


From 2d7ce5386aecaa81bd8f0da1b6cc1d08b75d0038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:43 +0000
Subject: [PATCH 16/74] fix: unquote backslash and hex escapes and do not leak
 or read past the end on bad c quotes

---
 src/main/c/parts/text.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/main/c/parts/text.c b/src/main/c/parts/text.c
index 085e022..2c21a0a 100644
--- a/src/main/c/parts/text.c
+++ b/src/main/c/parts/text.c
@@ -3,6 +3,7 @@
 
 #include"always.h"
 #include"text.h"
+#include<ctype.h>
 #include<stdio.h>
 #include<stdlib.h>
 #include<assert.h>
@@ -573,11 +574,15 @@ char *xmq_unquote_as_c(const char *start, const char *stop, bool remove_quotes)
     if (remove_quotes)
     {
         for (; i < stop && is_xml_whitespace(*i); ++i);
-        if (*i != '"') return strdup("[Not a valid C escaped string]");
+        if (i >= stop || *i != '"')
+        {
+            free(buf);
+            return strdup("[Not a valid C escaped string]");
+        }
         i++;
     }
 
-    for (; i < stop && (!remove_quotes || *i != '"'); ++i, real++)
+    for (; i < stop && (!remove_quotes || *i != '"'); ++i)
     {
         char c = *i;
         if (c == '\\') {
@@ -585,6 +590,13 @@ char *xmq_unquote_as_c(const char *start, const char *stop, bool remove_quotes)
             if (i >= stop) break;
             c = *i;
             if (c == '"') *o++ = '"';
+            else if (c == '\\') *o++ = '\\';
+            else if (c == 'x' && stop-i > 2 && isxdigit((unsigned char)i[1]) && isxdigit((unsigned char)i[2]))
+            {
+                char hex[3] = { i[1], i[2], 0 };
+                *o++ = (char)strtol(hex, NULL, 16);
+                i += 2;
+            }
             else if (c == 'n') *o++ = '\n';
             else if (c == 'a') *o++ = '\a';
             else if (c == 'b') *o++ = '\b';
@@ -601,10 +613,14 @@ char *xmq_unquote_as_c(const char *start, const char *stop, bool remove_quotes)
     }
     if (remove_quotes)
     {
-        if (*i != '"') return strdup("[Not a valid C escaped string]");
+        if (i >= stop || *i != '"')
+        {
+            free(buf);
+            return strdup("[Not a valid C escaped string]");
+        }
     }
-    real++;
-    *o = 0;
+    *o++ = 0;
+    real = o-buf;
     buf = (char*)realloc(buf, real);
     return buf;
 }
-- 
2.43.0


From f92ee6c629a92ffb96952d0597c31c951c136bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:43 +0000
Subject: [PATCH 17/74] fix: escape a hyphen that ends an xml comment

---
 src/main/c/xmq.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 456eb79..dfeb9c1 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -3186,7 +3186,7 @@ char *escape_xml_comment(const char *comment)
     const char *i = comment;
     for (; *i; ++i)
     {
-        if (*i == '-' && ( *(i+1) == '-' ||
+        if (*i == '-' && ( *(i+1) == '-' || *(i+1) == 0 ||
                            (*(const unsigned char*)(i+1) == 0xe2 &&
                             *(const unsigned char*)(i+2) == 0x90 &&
                             *(const unsigned char*)(i+3) == 0x90)))
@@ -3207,7 +3207,7 @@ char *escape_xml_comment(const char *comment)
     for (; *i; ++i)
     {
         *j++ = *i;
-        if (*i == '-' && ( *(i+1) == '-' ||
+        if (*i == '-' && ( *(i+1) == '-' || *(i+1) == 0 ||
                            (*(const unsigned char*)(i+1) == 0xe2 &&
                             *(const unsigned char*)(i+2) == 0x90 &&
                             *(const unsigned char*)(i+3) == 0x90)))
-- 
2.43.0


From 5493b828660050443e187cb5784e61e4557fabd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 18/74] fix: print quotes so that spaces before newlines,
 surrounding blanks and runs of single quotes survive

---
 src/main/c/parts/xmq_printer.c | 63 +++++++++++++++++++++++++++++++++-
 src/main/c/xmq.c               |  3 ++
 2 files changed, 65 insertions(+), 1 deletion(-)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 7129b86..1322d23 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -1134,6 +1134,44 @@ const char *find_next_line_end(XMQPrintState *ps, const char *start, const char
     return i;
 }
 
+/**
+   is_newline_after_space: Spaces and tabs before a newline inside a quote are trimmed away when parsing.
+*/
+bool is_newline_after_space(const char *start, const char *i)
+{
+    return *i == '\n' && i > start && (*(i-1) == ' ' || *(i-1) == '\t');
+}
+
+bool is_three_quotes(const char *i, const char *stop)
+{
+    return stop-i > 2 && i[0] == '\'' && i[1] == '\'' && i[2] == '\'';
+}
+
+/**
+   find_split_of_surrounding_space: A text that starts or ends with a single quote, or contains three single quotes,
+   is printed on its own lines between the xmq quotes. Then spaces or newlines at the beginning or end of
+   the text would be trimmed when parsing. If so, return where to split the text to prevent this, otherwise return stop.
+*/
+const char *find_split_of_surrounding_space(const char *start, const char *stop)
+{
+    if (start == stop || has_all_quotes(start, stop)) return stop;
+
+    bool own_lines = has_leading_ending_quote(start, stop);
+    for (const char *i = start; i < stop && !own_lines; ++i)
+    {
+        if (is_three_quotes(i, stop)) own_lines = true;
+    }
+    if (!own_lines) return stop;
+
+    const char *i = start;
+    while (i < stop && is_xml_whitespace(*i)) i++;
+    if (i > start) return i;
+
+    i = stop;
+    while (i > start && is_xml_whitespace(*(i-1))) i--;
+    return i;
+}
+
 const char *find_next_char_that_needs_escape(XMQPrintState *ps, const char *start, const char *stop)
 {
     bool compact = ps->output_settings->compact;
@@ -1158,13 +1196,17 @@ const char *find_next_char_that_needs_escape(XMQPrintState *ps, const char *star
     {
         int c = (int)((unsigned char)*i);
         if (compact && c == '\'' && i == pre_stop) break;
+        if (compact && is_three_quotes(i, stop)) break;
         if (newlines && c == '\n') break;
         if (non7bit && c > 126) break;
         if (c < 32 && c != '\t' && c != '\n') break;
         if (c == '\t' && escape_tabs) break;
+        if (is_newline_after_space(start, i)) break;
         i++;
     }
 
+    if (!compact) i = find_split_of_surrounding_space(start, i);
+
     // Now move backwards, perhaps there was newlines before this problematic character...
     // Then we have to escape those as well since they are ending the previous quote.
     /*
@@ -1200,9 +1242,9 @@ void print_value_internal_text(XMQPrintState *ps, const char *start, const char
         // compared to &apos;&apos;&apos;&apos;
         // The &apos; solution takes a little bit more space, but works for compact too,
         // lets use that for both normal and compact formatting.
-        check_space_before_entity_node(ps);
         for (const char *i = start; i < stop; ++i)
         {
+            check_space_before_entity_node(ps);
             print_utf8(ps, level_to_entity_color(level), 1, "&apos;", NULL);
         }
         return;
@@ -1272,6 +1314,7 @@ void print_value_internal_text(XMQPrintState *ps, const char *start, const char
     for (const char *from = start; from < stop; )
     {
         const char *to = find_next_char_that_needs_escape(ps, from, stop);
+        if (is_newline_after_space(start, from)) to = from;
         if (from == to)
         {
             check_space_before_entity_node(ps);
@@ -1366,6 +1409,15 @@ bool quote_needs_compounded(XMQPrintState *ps, const char *start, const char *st
         if (*start == '\t') return false;
     }
 
+    // Several single quotes become several &apos;
+    if (start < stop && has_all_quotes(start, stop)) return true;
+
+    // A mix of whitespace becomes several quotes and entities.
+    bool all_space = false;
+    bool only_newlines = false;
+    if (has_all_whitespace(start, stop, &all_space, &only_newlines) &&
+        !all_space && (compact || !only_newlines)) return true;
+
     size_t only_leading_newlines = 0;
     const char *ls = has_leading_space_nl(start, stop, &only_leading_newlines);
     if (ls != NULL && only_leading_newlines == 0) return true;
@@ -1385,6 +1437,12 @@ bool quote_needs_compounded(XMQPrintState *ps, const char *start, const char *st
         if (has_leading_ending_quote(start, stop)) return true;
     }
 
+    else
+    {
+        // The quote has to be split if the spaces around it would be trimmed.
+        if (find_split_of_surrounding_space(start, stop) != stop) return true;
+    }
+
     bool newlines = ps->output_settings->escape_newlines;
     bool non7bit = ps->output_settings->escape_non_7bit;
 
@@ -1392,6 +1450,9 @@ bool quote_needs_compounded(XMQPrintState *ps, const char *start, const char *st
     {
         int c = (int)(unsigned char)(*i);
         if (newlines && c == '\n') return true;
+        if (is_newline_after_space(start, i)) return true;
+        // More than three quotes around a quote needs newlines, which are not possible in compact.
+        if (compact && is_three_quotes(i, stop)) return true;
         if (non7bit && c > 126) return true;
         if (c < 32 && c != '\t' && c != '\n') return true;
         if (c == '\t' && escape_tabs) return true;
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index dfeb9c1..d02b93f 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -100,6 +100,7 @@ void do_whitespace(XMQParseState *state, size_t line, size_t col, const char *st
 bool find_line(const char *start, const char *stop, size_t *indent, const char **after_last_non_space, const char **eol);
 const char *find_next_line_end(XMQPrintState *ps, const char *start, const char *stop);
 const char *find_next_char_that_needs_escape(XMQPrintState *ps, const char *start, const char *stop);
+const char *find_split_of_surrounding_space(const char *start, const char *stop);
 void fixup_html(XMQDoc *doq, xmlNode *node, bool inside_cdata_declared);
 void fixup_comments(XMQDoc *doq, xmlNode *node, int depth);
 void generate_dom_from_yaep_node(xmlDocPtr doc, xmlNodePtr node, YaepTreeNode *n, int depth, int index);
@@ -112,7 +113,9 @@ void handle_yaep_syntax_error(YaepParseRun *pr,
                               void *start_recovered_tok_attr);
 
 bool has_leading_ending_quote(const char *start, const char *stop);
+bool is_newline_after_space(const char *start, const char *i);
 bool is_safe_char(const char *i, const char *stop);
+bool is_three_quotes(const char *i, const char *stop);
 size_t line_length(const char *start, const char *stop, int *numq, int *lq, int *eq);
 bool load_file(XMQDoc *doq, const char *file, size_t *out_fsize, const char **out_buffer);
 bool load_stdin(XMQDoc *doq, size_t *out_fsize, const char **out_buffer);
-- 
2.43.0


From 218dffe72a117544beeed76c22f97406993b95de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 19/74] fix: separate a compact text value that ends with ; or
 / from what follows

---
 src/main/c/parts/xmq_printer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 1322d23..f563a13 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -1283,6 +1283,8 @@ void print_value_internal_text(XMQPrintState *ps, const char *start, const char
     {
         // This is a key_node text value or an attribute text value, ie key = 123 or color=blue, ie no quoting needed.
         print_utf8(ps, level_to_quote_color(level), 1, start, stop);
+        // The text might end with ; or / but it still has to be separated from what follows.
+        ps->last_char = 1;
         return;
     }
 
-- 
2.43.0


From 12ea9a7e040f7368450dcb4d1d33b8d0d3da68b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 20/74] fix: bind default and prefixed namespaces to the
 nearest declaration

---
 src/main/c/xmq.c | 162 ++++++++++++++++++++---------------------------
 1 file changed, 69 insertions(+), 93 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index d02b93f..7b6df91 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -2272,6 +2272,42 @@ void do_attr_ns(XMQParseState *state,
     }
 }
 
+bool same_namespace_prefix(xmlNsPtr ns, const char *prefix)
+{
+    if (!ns->prefix || !prefix) return !ns->prefix && !prefix;
+    return !strcmp((const char*)ns->prefix, prefix);
+}
+
+/** Find or create the declaration of a prefix (NULL is the default namespace) inside the element.
+    It is found if the prefix was used by the element name or by an attribute before the declaration,
+    eg abc:element(abc:alfa=1 xmlns:abc=uri), or if it is declared twice. */
+xmlNsPtr declare_namespace(xmlNodePtr element, const char *prefix)
+{
+    for (xmlNsPtr i = element->nsDef; i; i = i->next)
+    {
+        if (same_namespace_prefix(i, prefix)) return i;
+    }
+    return xmlNewNs(element, NULL, (const xmlChar *)prefix);
+}
+
+/** Find the namespace of a prefix used by an element name or by an attribute. */
+xmlNsPtr find_or_add_namespace(XMQParseState *state, xmlNodePtr node, const char *prefix)
+{
+    // The search below does not see a namespace that still has no href.
+    for (xmlNsPtr i = node->nsDef; i; i = i->next)
+    {
+        if (same_namespace_prefix(i, prefix)) return i;
+    }
+
+    xmlNsPtr ns = xmlSearchNs(state->doq->docptr_.xml, node, (const xmlChar *)prefix);
+    if (ns) return ns;
+
+    // The namespaces does not yet exist. Lets hope it will be declared
+    // inside the attributes of this node. Use a temporary href for now.
+    debug("xmq=", "create namespace prefix=%s in element %s", prefix, node->name);
+    return xmlNewNs(node, NULL, (const xmlChar *)prefix);
+}
+
 void do_ns_declaration(XMQParseState *state,
                        size_t line,
                        size_t col,
@@ -2284,74 +2320,31 @@ void do_ns_declaration(XMQParseState *state,
     // We can see the difference here since the parser will invoke with suffix
     // either pointing to stop (xmlns=) or after stop (xmlns:foo=)
     xmlNodePtr element = (xmlNode*)state->element_stack->top->data;
-    xmlNsPtr ns = NULL;
-    if (stop == suffix)
-    {
-        // Stop is the same as suffix, so no prefix has been added.
-        // I.e. this is a default namespace, eg: xmlns=uri
-        ns = xmlNewNs(element,
-                      NULL,
-                      NULL);
-        debug("xmq=", "create default namespace in element %s", element->name);
-        if (!ns)
-        {
-            // Oups, this element already has a default namespace.
-            // This is probably due to multiple xmlns=uri declarations. Is this an error or not?
-            xmlNsPtr *list = xmlGetNsList(state->doq->docptr_.xml,
-                                          element);
-            for (int i = 0; list[i]; ++i)
-            {
-                if (!list[i]->prefix)
-                {
-                    ns = list[i];
-                    break;
-                }
-            }
-            free(list);
-        }
-        if (element->ns == NULL)
-        {
-            debug("xmq=", "set default namespace in element %s prefix=%s href=%s", element->name, ns->prefix, ns->href);
-            xmlSetNs(element, ns);
-        }
-        state->default_namespace = ns;
-    }
-    else
+    char *prefix = NULL;
+
+    if (stop != suffix)
     {
         // This a new namespace with a prefix. xmlns:prefix=uri
         // Stop points to the colon, suffix points to =.
         // The prefix starts at stop+1.
-        size_t len = suffix-(stop+1);
-        char *name = strndup(stop+1, len);
-        ns = xmlNewNs(element,
-                      NULL,
-                      (const xmlChar *)name);
-
-        if (!ns)
-        {
-            // Oups, this namespace has already been created, for example due to the namespace prefix
-            // of the element itself, eg: abc:element(xmlns:abc = uri)
-            // Lets pick this ns up and reuse it.
-            xmlNsPtr *list = xmlGetNsList(state->doq->docptr_.xml,
-                                          element);
-            for (int i = 0; list[i]; ++i)
-            {
-                if (list[i]->prefix && !strcmp((char*)list[i]->prefix, name))
-                {
-                    ns = list[i];
-                    break;
-                }
-            }
-            free(list);
-        }
-        free(name);
+        prefix = strndup(stop+1, suffix-(stop+1));
     }
 
-    if (!ns)
+    xmlNsPtr ns = declare_namespace(element, prefix);
+    assert(ns);
+
+    // The declaration is valid for the element itself and for its attributes, even those that came before it.
+    if (element->ns ? same_namespace_prefix(element->ns, prefix) : prefix == NULL)
     {
-        fprintf(stderr, "Internal error: expected namespace to be created/found.\n");
-        assert(ns);
+        debug("xmq=", "set namespace in element %s prefix=%s href=%s", element->name, ns->prefix, ns->href);
+        xmlSetNs(element, ns);
     }
+    for (xmlAttrPtr a = element->properties; a; a = a->next)
+    {
+        if (prefix && a->ns && same_namespace_prefix(a->ns, prefix)) a->ns = ns;
+    }
+    free(prefix);
+
     state->declaring_xmlns = true;
     state->declaring_xmlns_namespace = ns;
 }
@@ -2382,17 +2375,7 @@ void do_attr_key(XMQParseState *state,
     }
     else
     {
-        xmlNsPtr ns = xmlSearchNs(state->doq->docptr_.xml,
-                                  parent,
-                                  (const xmlChar *)state->attribute_namespace);
-        if (!ns)
-        {
-            // The namespaces does not yet exist. Lets create it.. Lets hope it will be declared
-            // inside the attributes of this node. Use a temporary href for now.
-            ns = xmlNewNs(parent,
-                          NULL,
-                          (const xmlChar *)state->attribute_namespace);
-        }
+        xmlNsPtr ns = find_or_add_namespace(state, parent, state->attribute_namespace);
         attr = xmlNewNsProp(parent, ns, (xmlChar*)key, NULL);
         free(state->attribute_namespace);
         state->attribute_namespace = NULL;
@@ -2418,13 +2401,15 @@ void update_namespace_href(XMQParseState *state,
     ns->href = (const xmlChar*)href;
     debug("xmq=", "update namespace prefix=%s with href=%s", ns->prefix, href);
 
-    if (href[0] == 0 && ns == state->default_namespace)
+    xmlNodePtr element = (xmlNode*)state->element_stack->top->data;
+    if (href[0] == 0 && !ns->prefix && ns == element->ns)
     {
-        xmlNodePtr element = (xmlNode*)state->element_stack->top->data;
         debug("xmq=", "remove default namespace in element %s", element->name);
         xmlSetNs(element, NULL);
-        state->default_namespace = NULL;
-        return;
+    }
+    else if (href[0] != 0 && !ns->prefix && !element->ns)
+    {
+        xmlSetNs(element, ns);
     }
 }
 
@@ -2540,30 +2525,21 @@ void create_node(XMQParseState *state, const char *start, const char *stop)
         if (state->element_namespace)
         {
             // Have a namespace before the element name, eg abc:work
-            xmlNsPtr ns = xmlSearchNs(state->doq->docptr_.xml,
-                                      new_node,
-                                      (const xmlChar *)state->element_namespace);
-            if (!ns)
-            {
-                // The namespaces does not yet exist. Lets hope it will be declared
-                // inside the attributes of this node. Use a temporary href for now.
-                ns = xmlNewNs(new_node,
-                              NULL,
-                              (const xmlChar *)state->element_namespace);
-                debug("xmq=", "created namespace prefix=%s in element %s", state->element_namespace, name);
-            }
+            xmlNsPtr ns = find_or_add_namespace(state, new_node, state->element_namespace);
             debug("xmq=", "setting namespace prefix=%s for element %s", state->element_namespace, name);
             xmlSetNs(new_node, ns);
             free(state->element_namespace);
             state->element_namespace = NULL;
         }
-        else if (state->default_namespace)
+        else
         {
-            // We have a default namespace.
-            xmlNsPtr ns = (xmlNsPtr)state->default_namespace;
-            assert(ns->prefix == NULL);
-            debug("xmq=", "set default namespace with href=%s for element %s", ns->href, name);
-            xmlSetNs(new_node, ns);
+            // Is there a default namespace declared by a surrounding element?
+            xmlNsPtr ns = xmlSearchNs(state->doq->docptr_.xml, new_node, NULL);
+            if (ns && ns->href[0])
+            {
+                debug("xmq=", "set default namespace with href=%s for element %s", ns->href, name);
+                xmlSetNs(new_node, ns);
+            }
         }
 
         state->element_last = new_node;
-- 
2.43.0


From 962318d297146e9065fbe7275cb9999433116924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 21/74] fix: put entities and compound values of a namespace
 declaration into its href and print them so

---
 src/main/c/parts/xmq_printer.c |  7 +++-
 src/main/c/xmq.c               | 72 ++++++++++++++++++++++++++++++++++
 2 files changed, 78 insertions(+), 1 deletion(-)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index f563a13..35ec058 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -919,7 +919,12 @@ void print_namespace_declaration(XMQPrintState *ps, xmlNs *ns, size_t align)
 
         if (!ps->output_settings->compact) print_white_spaces(ps, 1);
 
-        print_value_internal_text(ps, v, NULL, LEVEL_ATTR_VALUE);
+        // The href might need a compound value, just like any other attribute value.
+        xmlNode text;
+        memset(&text, 0, sizeof(text));
+        text.type = XML_TEXT_NODE;
+        text.content = (xmlChar*)v;
+        print_value(ps, &text, LEVEL_ATTR_VALUE);
     }
 }
 
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 7b6df91..e5546b6 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -2413,6 +2413,42 @@ void update_namespace_href(XMQParseState *state,
     }
 }
 
+void clear_namespace_href(XMQParseState *state)
+{
+    xmlNsPtr ns = (xmlNsPtr)state->declaring_xmlns_namespace;
+    if (ns->href) xmlFree((void*)ns->href);
+    ns->href = NULL;
+}
+
+/** Append a part of a compound value to the href of the namespace being declared. */
+void append_namespace_href(XMQParseState *state, const char *text)
+{
+    xmlNsPtr ns = (xmlNsPtr)state->declaring_xmlns_namespace;
+    size_t n = ns->href ? strlen((const char*)ns->href) : 0;
+    size_t m = strlen(text);
+    char *href = (char*)malloc(n+m+1);
+    if (n) memcpy(href, ns->href, n);
+    memcpy(href+n, text, m+1);
+    update_namespace_href(state, ns, href, NULL);
+    free(href);
+}
+
+/** The text of a char entity like &#10; A named entity is kept as is. */
+char *entity_to_text(const char *start, const char *stop)
+{
+    if (stop-start < 3 || start[1] != '#') return strndup(start, stop-start);
+
+    char *tmp = strndup(start, stop-start);
+    UTF8Char uni;
+    int uc = 0;
+    if (tmp[2] == 'x') uc = strtol(tmp+3, NULL, 16);
+    else uc = strtol(tmp+2, NULL, 10);
+    free(tmp);
+    size_t len = encode_utf8(uc, &uni);
+
+    return strndup(uni.bytes, len);
+}
+
 void do_attr_value_text(XMQParseState *state,
                         size_t line,
                         size_t col,
@@ -2459,6 +2495,16 @@ void do_attr_value_entity(XMQParseState *state,
                           const char *stop,
                           const char *suffix)
 {
+    if (state->declaring_xmlns)
+    {
+        char *text = entity_to_text(start, stop);
+        clear_namespace_href(state);
+        append_namespace_href(state, text);
+        state->declaring_xmlns = false;
+        state->declaring_xmlns_namespace = NULL;
+        free(text);
+        return;
+    }
     create_entity(state, line, col, start, stop, suffix, (xmlNode*)state->element_last);
 }
 
@@ -2469,6 +2515,13 @@ void do_attr_value_compound_quote(XMQParseState *state,
                                   const char *stop,
                                   const char *suffix)
 {
+    if (state->declaring_xmlns)
+    {
+        char *trimmed = (state->no_trim_quotes)?strndup(start, stop-start):xmq_un_quote(col-1, ' ', start, stop, true);
+        append_namespace_href(state, trimmed);
+        free(trimmed);
+        return;
+    }
     do_quote(state, line, col, start, stop, suffix);
 }
 
@@ -2479,6 +2532,13 @@ void do_attr_value_compound_entity(XMQParseState *state,
                                              const char *stop,
                                              const char *suffix)
 {
+    if (state->declaring_xmlns)
+    {
+        char *text = entity_to_text(start, stop);
+        append_namespace_href(state, text);
+        free(text);
+        return;
+    }
     do_entity(state, line, col, start, stop, suffix);
 }
 
@@ -2658,6 +2718,12 @@ void do_cpar_left(XMQParseState *state,
                   const char *stop,
                   const char *suffix)
 {
+    if (state->declaring_xmlns)
+    {
+        // A namespace is not a node, the parts of the compound are appended to its href.
+        clear_namespace_href(state);
+        return;
+    }
     stack_push(state->element_stack, state->element_last);
 }
 
@@ -2668,6 +2734,12 @@ void do_cpar_right(XMQParseState *state,
                    const char *stop,
                    const char *suffix)
 {
+    if (state->declaring_xmlns)
+    {
+        state->declaring_xmlns = false;
+        state->declaring_xmlns_namespace = NULL;
+        return;
+    }
     state->element_last = stack_pop(state->element_stack);
 }
 
-- 
2.43.0


From bd54684e9d9ead905d974aa0be41b72143be5a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 22/74] fix: use enough slashes around a compact comment that
 contains */

---
 src/main/c/parts/xmq_printer.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 35ec058..b6cc2e9 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -269,7 +269,15 @@ void print_comment_node(XMQPrintState *ps, xmlNode *node)
     {
         if (ps->output_settings->compact)
         {
-            print_utf8(ps, COLOR_comment, 3, "/*", NULL, start, stop, "*/", NULL);
+            if (count_necessary_slashes(start, stop) == 1)
+            {
+                print_utf8(ps, COLOR_comment, 3, "/*", NULL, start, stop, "*/", NULL);
+            }
+            else
+            {
+                // The comment contains */ which needs more slashes.
+                print_comment_lines(ps, start, stop, true);
+            }
             ps->last_char = '/';
         }
         else
-- 
2.43.0


From 6daf90dcdb76ae333a725c170609774c2d435b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 23/74] fix: print an attribute value that begins with an empty
 quote before an entity

---
 src/main/c/parts/xml.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/c/parts/xml.c b/src/main/c/parts/xml.c
index 8a0be51..8752401 100644
--- a/src/main/c/parts/xml.c
+++ b/src/main/c/parts/xml.c
@@ -181,6 +181,7 @@ bool is_single_empty_text_node(xmlNodePtr node)
 {
     if (is_entity_node(node)) return false;
     if (node->type != XML_TEXT_NODE) return false;
+    if (node->next) return false;
     const char *c = (const char*)node->content;
     if (c != NULL && *c != 0) return false;
     return true;
-- 
2.43.0


From 50e6b0e601985ff414154bcde46a5d83f91a956c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 24/74] fix: reject character entities that are not a code
 point

---
 src/main/c/parts/xmq_parser.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index c3528c4..ef52a82 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -18,6 +18,7 @@ void eat_xmq_doctype(XMQParseState *state, const char **text_start, const char *
 void eat_xmq_pi(XMQParseState *state, const char **text_start, const char **text_stop);
 void eat_xmq_text_name(XMQParseState *state, const char **content_start, const char **content_stop,
                        const char **namespace_start, const char **namespace_stop);
+bool is_valid_char_entity(const char *start, const char *stop);
 bool possibly_lost_content_after_equals(XMQParseState *state);
 bool possibly_need_more_quotes(XMQParseState *state);
 char peek_xmq_char(XMQParseState *state);
@@ -123,6 +124,33 @@ void eat_xmq_quote(XMQParseState *state, const char **start, const char **stop)
     }
 }
 
+/** Does the char entity &#...; or &#x...; denote a unicode code point that can be part of a text? */
+bool is_valid_char_entity(const char *start, const char *stop)
+{
+    const char *i = start+2;
+    int base = 10;
+    if (i < stop && *i == 'x')
+    {
+        base = 16;
+        i++;
+    }
+
+    const char *digits = i;
+    long uc = 0;
+    for (; i < stop && *i != ';'; ++i)
+    {
+        int d = -1;
+        if (*i >= '0' && *i <= '9') d = *i-'0';
+        else if (base == 16 && *i >= 'a' && *i <= 'f') d = *i-'a'+10;
+        else if (base == 16 && *i >= 'A' && *i <= 'F') d = *i-'A'+10;
+        if (d < 0) return false;
+        uc = uc*base+d;
+        if (uc > 0x10ffff) return false;
+    }
+
+    return i > digits && uc > 0 && (uc < 0xd800 || uc > 0xdfff);
+}
+
 void eat_xmq_entity(XMQParseState *state)
 {
     const char *i = state->i;
@@ -152,6 +180,11 @@ void eat_xmq_entity(XMQParseState *state)
         state->error_nr = XMQ_ERROR_ENTITY_NOT_CLOSED;
         longjmp(state->error_handler, 1);
     }
+    if (i - state->i > 1 && state->i[1] == '#' && !is_valid_char_entity(state->i, i))
+    {
+        state->error_nr = XMQ_ERROR_INVALID_CHAR;
+        longjmp(state->error_handler, 1);
+    }
 
     state->i = i;
     state->line = line;
-- 
2.43.0


From 9a068095f748b3bce5a17ba1b30eadcbe5cad4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 25/74] fix: end the prefix of a name at its first colon and
 never leave the name empty

---
 src/main/c/parts/xmq_parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/c/parts/xmq_parser.c b/src/main/c/parts/xmq_parser.c
index ef52a82..ba4e8f4 100644
--- a/src/main/c/parts/xmq_parser.c
+++ b/src/main/c/parts/xmq_parser.c
@@ -307,7 +307,8 @@ void eat_xmq_text_name(XMQParseState *state,
     {
         char c = *i;
         if (!is_xmq_text_name(c)) break;
-        if (c == ':') colon = i;
+        // The first colon between two characters of the name ends the prefix.
+        if (c == ':' && !colon && i > *text_start && i+1 < end && is_xmq_text_name(*(i+1))) colon = i;
         increment(c, 1, &i, &line, &col);
     }
 
-- 
2.43.0


From 762439dd021a550527c81a20c7f68314c92232b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 26/74] fix: print the content of a pi and a doctype as one
 value that can be parsed

---
 src/main/c/parts/xmq_printer.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index b6cc2e9..ccfdf9c 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -394,6 +394,33 @@ void print_element_with_children(XMQPrintState *ps,
     print_utf8(ps, COLOR_brace_right, 1, "}", NULL);
 }
 
+/** The value of a doctype or a processing instruction is a single text or quote, it has no entities.
+    Therefore blanks before a newline and trailing whitespace with newlines are dropped. */
+void print_value_without_entities(XMQPrintState *ps, char *start, char *stop, Level level)
+{
+    char *to = start;
+    for (char *i = start; i < stop; ++i)
+    {
+        if (*i == '\n') while (to > start && is_xml_whitespace(*(to-1)) && *(to-1) != '\n') to--;
+        *to++ = *i;
+    }
+    stop = to;
+    while (to > start && is_xml_whitespace(*(to-1)))
+    {
+        to--;
+        if (*to == '\n') stop = to;
+    }
+
+    if (start == stop || is_xmq_text_value(start, stop))
+    {
+        print_value_internal_text(ps, start, stop, level);
+        return;
+    }
+
+    check_space_before_quote(ps, level);
+    print_safe_leaf_quote(ps, level_to_quote_color(level), start, stop);
+}
+
 void print_doctype(XMQPrintState *ps, xmlNode *node)
 {
     if (!node) return;
@@ -416,7 +443,7 @@ void print_doctype(XMQPrintState *ps, xmlNode *node)
             if (*i == '\n') *i = ' ';
         }
     }
-    print_value_internal_text(ps, c+10, c+strlen(c)-1, LEVEL_ELEMENT_VALUE);
+    print_value_without_entities(ps, c+10, c+strlen(c)-1, LEVEL_ELEMENT_VALUE);
     xmlBufferFree(buffer);
 }
 
@@ -455,7 +482,7 @@ void print_pi_node(XMQPrintState *ps, xmlNode *node)
         }
     }
 
-    print_value_internal_text(ps, content, end, LEVEL_ELEMENT_VALUE);
+    print_value_without_entities(ps, content, end, LEVEL_ELEMENT_VALUE);
 
     free(content);
     xmlBufferFree(buffer);
@@ -1064,7 +1091,7 @@ void print_safe_leaf_quote(XMQPrintState *ps,
             {
                 // We have a nonzero indentation and number of quotes is 1 or 3.
                 // Then the actual source indentation will be +1 or +3.
-                if (numq < 4)
+                if (numq < 4 || ps->output_settings->compact)
                 {
                     // e.g. quote at 4 will have source at 5.
                     // |    'alfa beta
-- 
2.43.0


From 9b4ad5135a01cff5c4a34278c37a0dc358633b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:22 +0000
Subject: [PATCH 27/74] fix: reject a doctype without a name and do not leak
 the doctype that could not be parsed

---
 src/main/c/xmq.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index e5546b6..d583457 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -2146,6 +2146,12 @@ void do_element_value_text(XMQParseState *state,
         char *tmp = (char*)malloc(l+1);
         memcpy(tmp, start, l);
         tmp[l] = 0;
+        if (tmp[0] == 0)
+        {
+            free(tmp);
+            state->error_nr = XMQ_ERROR_BAD_DOCTYPE;
+            longjmp(state->error_handler, 1);
+        }
         state->doq->docptr_.xml->intSubset = xmlNewDtd(state->doq->docptr_.xml, (xmlChar*)tmp, NULL, NULL);
         xmlNodePtr n = (xmlNodePtr)state->doq->docptr_.xml->intSubset;
         xmlNodePtr parent = (xmlNode*)state->element_stack->top->data;
@@ -2194,6 +2200,8 @@ void do_element_value_quote(XMQParseState *state,
         xmlDtdPtr dtd = parse_doctype_raw(state->doq, buf, buf+n-1);
         if (!dtd)
         {
+            free(buf);
+            free(trimmed);
             state->error_nr = XMQ_ERROR_BAD_DOCTYPE;
             longjmp(state->error_handler, 1);
         }
@@ -4360,6 +4368,7 @@ xmlDtdPtr parse_doctype_raw(XMQDoc *doq, const char *start, const char *stop)
     xmlFreeParserCtxt(ctxt);
 
     if (!rc) {
+        xmlFreeDoc(doc);
         return NULL;
     }
 
-- 
2.43.0


From a2ea20fac98d73455fb03bce46cc06d7ad0548bc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:13:37 +0000
Subject: [PATCH 28/74] fix: separate adjacent quotes in a compact quote

---
 src/main/c/xmq.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index d583457..a24c94d 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -4775,6 +4775,7 @@ char *xmqCompactQuote(const char *content)
     os.content.write = (XMQWrite)(void*)membuffer_append_region;
     os.error.writer_state = os.output_buffer;
     os.error.write = (XMQWrite)(void*)membuffer_append_region;
+    os.indentation_space = " ";
     os.explicit_space = " ";
     os.explicit_tab = "\t";
 
-- 
2.43.0


From 76ec5c132e1ca1f849009a4051388ccdcdff332a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:14:09 +0000
Subject: [PATCH 29/74] fix: do not reuse the arguments when a log line does
 not fit, do not leak its quote

---
 src/main/c/xmq.c | 66 ++++++++++--------------------------------------
 1 file changed, 14 insertions(+), 52 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index a24c94d..e2b9344 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -4816,23 +4816,20 @@ char *xmqLineDoc(XMQLineConfig *lc, XMQDoc *doc)
     return strdup("{howdy}");
 }
 
+/** Print into an allocated buffer that is large enough. Consumes the arguments of the format from ap. */
 char *buf_vsnprintf(const char *format, va_list ap);
 char *buf_vsnprintf(const char *format, va_list ap)
 {
-    size_t buf_size = 1024;
+    va_list aq;
+    va_copy(aq, ap);
+    int n = vsnprintf(NULL, 0, format, aq);
+    va_end(aq);
+
+    size_t buf_size = n < 0 ? 1 : (size_t)n+1;
     char *buf = (char*)malloc(buf_size);
+    buf[0] = 0;
+    vsnprintf(buf, buf_size, format, ap);
 
-    for (;;)
-    {
-        size_t n = vsnprintf(buf, buf_size, format, ap);
-        if (n < buf_size) break;
-        buf_size *= 2;
-        free(buf);
-        // Why not realloc? Well, we are goint to redo the printf anyway overwriting
-        // the buffer again. So why allow realloc to spend time copying the content before
-        // it is overwritten?
-        buf = (char*)malloc(buf_size);
-    }
     return buf;
 }
 
@@ -4881,10 +4878,6 @@ char *xmq_line_vprintf_hr(XMQLineConfig *lc, const char *element_name, va_list a
     membuffer_append(mb, element_name);
     membuffer_append(mb, ") ");
 
-    char *buf = (char*)malloc(1024);
-    size_t buf_size = 1024;
-    memset(buf, 0, buf_size);
-
     bool first = true;
 
     for (;;)
@@ -4911,25 +4904,11 @@ char *xmq_line_vprintf_hr(XMQLineConfig *lc, const char *element_name, va_list a
         membuffer_append(mb, ":");
 
         const char *format = va_arg(ap, const char *);
-        for (;;)
-        {
-            size_t n = vsnprintf(buf, buf_size, format, ap);
-
-            if (n < buf_size)
-            {
-                // The generated output fitted in the allocated buffer.
-                break;
-            }
-
-            buf_size *= 2;
-            free(buf);
-            buf = (char*)malloc(buf_size);
-            memset(buf, 0, buf_size);
-        }
+        char *buf = buf_vsnprintf(format, ap);
         membuffer_append(mb, buf);
+        free(buf);
     }
 
-    free(buf);
     membuffer_append_null(mb);
 
     return free_membuffer_but_return_trimmed_content(mb);
@@ -4970,6 +4949,7 @@ char *xmq_line_vprintf_xmq(XMQLineConfig *lc, const char *element_name, va_list
         char *q = xmqCompactQuote(buf);
         free(buf);
         membuffer_append(mb, q);
+        free(q);
         membuffer_append_null(mb);
         return free_membuffer_but_return_trimmed_content(mb);
     }
@@ -4977,10 +4957,6 @@ char *xmq_line_vprintf_xmq(XMQLineConfig *lc, const char *element_name, va_list
     MemBuffer *mb = new_membuffer();
     membuffer_append(mb, element_name);
 
-    char *buf = (char*)malloc(1024);
-    size_t buf_size = 1024;
-    memset(buf, 0, buf_size);
-
     for (;;)
     {
         const char *key = va_arg(ap, const char*);
@@ -5003,28 +4979,14 @@ char *xmq_line_vprintf_xmq(XMQLineConfig *lc, const char *element_name, va_list
         // The key has an = sign at the end. E.g. size=
         membuffer_append(mb, key);
         const char *format = va_arg(ap, const char *);
-        for (;;)
-        {
-            size_t n = vsnprintf(buf, buf_size, format, ap);
-
-            if (n < buf_size)
-            {
-                // The generated output fitted in the allocated buffer.
-                break;
-            }
-
-            buf_size *= 2;
-            free(buf);
-            buf = (char*)malloc(buf_size);
-            memset(buf, 0, buf_size);
-        }
+        char *buf = buf_vsnprintf(format, ap);
 
         char *quote = xmqCompactQuote(buf);
+        free(buf);
         membuffer_append(mb, quote);
         free(quote);
     }
 
-    free(buf);
     membuffer_append(mb, "}");
     membuffer_append_null(mb);
 
-- 
2.43.0


From 598073118ba831d2504e73143a54ba8533a0a575 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:19:32 +0000
Subject: [PATCH 30/74] fix: end the color of a quote that has only newlines

---
 src/main/c/parts/xmq_printer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index ccfdf9c..1a44051 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -1047,6 +1047,8 @@ void print_quote_lines_and_color_uwhitespace(XMQPrintState *ps,
         }
         else
         {
+            // The last newline has already started the color again.
+            if (post) write(writer_state, post, NULL);
             ps->current_indent = 0;
             ps->last_char = 0;
             print_white_spaces(ps, ps->line_indent);
-- 
2.43.0


From c7e657550327c6e91876a85fe276c3dcaf2b6cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:20:08 +0000
Subject: [PATCH 31/74] fix: escape every character that is special in TeX

---
 src/main/c/parts/xmq_internals.c | 6 +++++-
 src/main/c/xmq.c                 | 9 +++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/main/c/parts/xmq_internals.c b/src/main/c/parts/xmq_internals.c
index 4bb4baa..46b7b74 100644
--- a/src/main/c/parts/xmq_internals.c
+++ b/src/main/c/parts/xmq_internals.c
@@ -291,9 +291,13 @@ const char *needs_escape(XMQRenderFormat f, const char *start, const char *stop)
     else if (f == XMQ_RENDER_TEX)
     {
         char c = *start;
-        if (c == '\\') return "\\backslash;";
+        if (c == '\\') return "\\textbackslash{}";
         if (c == '&') return "\\&";
         if (c == '#') return "\\#";
+        if (c == '$') return "\\$";
+        if (c == '%') return "\\%";
+        if (c == '^') return "\\^{}";
+        if (c == '~') return "\\~{}";
         if (c == '{') return "\\{";
         if (c == '}') return "\\}";
         if (c == '_') return "\\_";
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index e2b9344..d57c43e 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -534,6 +534,7 @@ void setup_tex_coloring(XMQOutputSettings *os, XMQTheme *theme, bool dark_mode,
         *p = 0;
 
         theme->style.pre = style_pre;
+        os->free_me = style_pre;
 
         theme->body.pre = "\n\\begin{document}\n";
         theme->body.post = "\n\\end{document}\n";
@@ -840,12 +841,8 @@ void write_safe_tex(XMQWrite write, void *writer_state, const char *start, const
 {
     for (const char *i = start; i < stop; ++i)
     {
-        const char *amp = "\\&";
-        const char *bs = "\\\\";
-        const char *us = "\\_";
-        if (*i == '&') write(writer_state, amp, amp+2);
-        else if (*i == '\\') write(writer_state, bs, bs+2);
-        else if (*i == '_') write(writer_state, us, us+2);
+        const char *e = needs_escape(XMQ_RENDER_TEX, i, i+1);
+        if (e) write(writer_state, e, e+strlen(e));
         else write(writer_state, i, i+1);
     }
 }
-- 
2.43.0


From ba73d147b9e8a89785290d8db9742b14ecc1067c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 32/74] fix: do not read past the end of a color definition and
 reject unknown marks

---
 src/main/c/parts/colors.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/main/c/parts/colors.c b/src/main/c/parts/colors.c
index 731a96e..8574264 100644
--- a/src/main/c/parts/colors.c
+++ b/src/main/c/parts/colors.c
@@ -107,16 +107,11 @@ bool string_to_color_def(const char *s, XMQColorDef *def)
     if (!ok) return false;
 
     s+=6;
-    if (*s == '_')
+    for (int n = 0; n < 2 && *s == '_'; ++n)
     {
         if (*(s+1) == 'B') bold = true;
-        if (*(s+1) == 'U') underline = true;
-        s += 2;
-    }
-    if (*s == '_')
-    {
-        if (*(s+1) == 'B') bold = true;
-        if (*(s+1) == 'U') underline = true;
+        else if (*(s+1) == 'U') underline = true;
+        else return false;
         s += 2;
     }
     if (*s != 0) return false;
-- 
2.43.0


From 12e43f45e3147615499395a136b0d780bf696003 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 33/74] fix: accept exactly the numbers of json

---
 src/main/c/parts/json.c | 82 +++++++++--------------------------------
 1 file changed, 18 insertions(+), 64 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index cf03fa3..c34c07d 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -34,7 +34,6 @@ void parse_json_number(XMQParseState *state, const char *key_start, const char *
 void parse_json_object(XMQParseState *state, const char *key_start, const char *key_stop);
 void parse_json_quote(XMQParseState *state, const char *key_start, const char *key_stop);
 
-bool has_number_ended(char c);
 bool has_attr_other_than_AS_(xmlNode *node);
 const char *is_jnumber(const char *start, const char *stop);
 bool is_json_boolean(XMQParseState *state);
@@ -498,78 +497,33 @@ void parse_json_null(XMQParseState *state, const char *key_start, const char *ke
     DO_CALLBACK(element_value_text, state, start_line, start_col, start, stop, stop);
 }
 
-bool has_number_ended(char c)
-{
-    return c == ' ' || c == '\n' || c == ',' || c == '}' || c == ']';
-}
-
 const char *is_jnumber(const char *start, const char *stop)
 {
     if (stop == NULL) stop = start+strlen(start);
-    if (start == stop) return NULL;
 
-    bool found_e = false;
-    bool found_e_sign = false;
-    bool leading_zero = false;
-    bool last_is_digit = false;
-    bool found_dot = false;
+    // -? (0 | [1-9][0-9]*) (. [0-9]+)? ([eE] [+-]? [0-9]+)?
+    const char *i = start;
 
-    const char *i;
-    for (i = start; i < stop; ++i)
-    {
-        char c = *i;
+    if (i < stop && *i == '-') i++;
 
-        last_is_digit = false;
-        bool current_is_not_digit = (c < '0' || c > '9');
+    if (i == stop || *i < '0' || *i > '9') return NULL;
+    if (*i == '0') i++;
+    else while (i < stop && *i >= '0' && *i <= '9') i++;
 
-        if (i == start)
-        {
-            if (current_is_not_digit && c != '-' ) return NULL;
-            if (c == '0') leading_zero = true;
-            if (c != '-') last_is_digit = true;
-            continue;
-        }
-
-        if (leading_zero)
-        {
-            leading_zero = false;
-            if (has_number_ended(c)) return i;
-            if (c != '.') return NULL;
-            found_dot = true;
-        }
-        else if (c == '.')
-        {
-            if (found_dot) return NULL;
-            found_dot = true;
-        }
-        else if (c == 'e' || c == 'E')
-        {
-            if (found_e) return NULL;
-            found_e = true;
-        }
-        else if (found_e && !found_e_sign)
-        {
-            if (has_number_ended(c)) return i;
-            if (current_is_not_digit && c != '-' && c != '+') return NULL;
-            if (c == '+' || c == '-')
-            {
-                found_e_sign = true;
-            }
-            else
-            {
-                last_is_digit = true;
-            }
-        }
-        else
-        {
-            found_e_sign = false;
-            if (has_number_ended(c)) return i;
-            if (current_is_not_digit) return NULL;
-            last_is_digit = true;
-        }
+    if (i < stop && *i == '.')
+    {
+        i++;
+        if (i == stop || *i < '0' || *i > '9') return NULL;
+        while (i < stop && *i >= '0' && *i <= '9') i++;
     }
 
-    if (last_is_digit == false) return NULL;
+    if (i < stop && (*i == 'e' || *i == 'E'))
+    {
+        i++;
+        if (i < stop && (*i == '+' || *i == '-')) i++;
+        if (i == stop || *i < '0' || *i > '9') return NULL;
+        while (i < stop && *i >= '0' && *i <= '9') i++;
+    }
 
     return i;
 }
-- 
2.43.0


From 363275ba7a83e2106d19aa3c18255ca8f1425b7f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 34/74] fix: report truncated or unbalanced json instead of
 aborting, looping or reading past the end

---
 src/main/c/parts/json.c | 52 +++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index c34c07d..d021ba7 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -40,6 +40,7 @@ bool is_json_boolean(XMQParseState *state);
 bool is_json_null(XMQParseState *state);
 bool is_json_number(XMQParseState *state);
 bool is_json_quote_start(char c);
+char json_peek(XMQParseState *state);
 bool is_json_whitespace(char c);
 void json_print_namespace_declaration(XMQPrintState *ps, xmlNs *ns);
 void json_print_attribute(XMQPrintState *ps, xmlAttrPtr a);
@@ -83,6 +84,12 @@ bool is_json_whitespace(char c)
     return c == ' ' || c == '\t' || c == '\n' || c == '\r';
 }
 
+char json_peek(XMQParseState *state)
+{
+    // Zero at the end of the buffer.
+    return state->i < state->buffer_stop ? *(state->i) : 0;
+}
+
 bool is_json_quote_start(char c)
 {
     return c == '"';
@@ -101,8 +108,14 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
 
     increment('"', 1, &i, &line, &col);
 
-    while (i < stop)
+    for (;;)
     {
+        if (i >= stop)
+        {
+            free_membuffer_and_free_content(buf);
+            state->error_nr = XMQ_ERROR_QUOTE_NOT_CLOSED;
+            longjmp(state->error_handler, 1);
+        }
         char c = *i;
         if (c == '"')
         {
@@ -112,7 +125,7 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
         if (c == '\\')
         {
             increment(c, 1, &i, &line, &col);
-            c = *i;
+            c = i < stop ? *i : 0;
             if (c == '"' || c == '\\' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't')
             {
                 increment(c, 1, &i, &line, &col);
@@ -130,7 +143,6 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
             else if (c == 'u')
             {
                 increment(c, 1, &i, &line, &col);
-                c = *i;
                 if (i+3 < stop)
                 {
                     // Woot? Json can only escape unicode up to 0xffff ? What about 10000 up to 10ffff?
@@ -157,6 +169,7 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
                     }
                 }
             }
+            free_membuffer_and_free_content(buf);
             state->error_nr = XMQ_ERROR_JSON_INVALID_ESCAPE;
             longjmp(state->error_handler, 1);
         }
@@ -767,22 +780,24 @@ void parse_json_array(XMQParseState *state, const char *key_start, const char *k
 
     DO_CALLBACK_SIM(brace_left, state, state->line, state->col, leftbrace, leftbrace+1, leftbrace+1);
 
-    const char *stop = state->buffer_stop;
-
     c = ',';
 
-    while (state->i < stop && c == ',')
+    while (c == ',')
     {
         eat_xml_whitespace(state, NULL, NULL);
-        c = *(state->i);
+        c = json_peek(state);
         if (c == ']') break;
 
         parse_json(state, NULL, NULL);
-        c = *state->i;
+        c = json_peek(state);
         if (c == ',') increment(c, 1, &state->i, &state->line, &state->col);
     }
 
-    assert(c == ']');
+    if (c != ']')
+    {
+        state->error_nr = XMQ_ERROR_JSON_INVALID_CHAR;
+        longjmp(state->error_handler, 1);
+    }
     increment(c, 1, &state->i, &state->line, &state->col);
 
     DO_CALLBACK_SIM(brace_right, state, state->line, state->col, rightbrace, rightbrace+1, rightbrace+1);
@@ -792,7 +807,7 @@ void parse_json(XMQParseState *state, const char *key_start, const char *key_sto
 {
     eat_xml_whitespace(state, NULL, NULL);
 
-    char c = *(state->i);
+    char c = json_peek(state);
 
     if (is_json_quote_start(c)) parse_json_quote(state, key_start, key_stop);
     else if (is_json_boolean(state)) parse_json_boolean(state, key_start, key_stop);
@@ -1006,14 +1021,12 @@ void parse_json_object(XMQParseState *state, const char *key_start, const char *
 
     DO_CALLBACK_SIM(brace_left, state, state->line, state->col, leftbrace, leftbrace+1, leftbrace+1);
 
-    const char *stop = state->buffer_stop;
-
     c = ',';
 
-    while (state->i < stop && c == ',')
+    while (c == ',')
     {
         eat_xml_whitespace(state, NULL, NULL);
-        c = *(state->i);
+        c = json_peek(state);
         if (c == '}') break;
 
         if (!is_json_quote_start(c))
@@ -1028,7 +1041,7 @@ void parse_json_object(XMQParseState *state, const char *key_start, const char *
         eat_json_quote(state, &new_key_start, &new_key_stop);
 
         eat_xml_whitespace(state, NULL, NULL);
-        c = *(state->i);
+        c = json_peek(state);
 
         if (c == ':')
         {
@@ -1043,12 +1056,15 @@ void parse_json_object(XMQParseState *state, const char *key_start, const char *
         parse_json(state, new_key_start, new_key_stop);
         free(new_key_start);
 
-        c = *state->i;
+        c = json_peek(state);
         if (c == ',') increment(c, 1, &state->i, &state->line, &state->col);
     }
-    while (c == ',');
 
-    assert(c == '}');
+    if (c != '}')
+    {
+        state->error_nr = XMQ_ERROR_JSON_INVALID_CHAR;
+        longjmp(state->error_handler, 1);
+    }
     increment(c, 1, &state->i, &state->line, &state->col);
 
     DO_CALLBACK_SIM(brace_right, state, state->line, state->col, rightbrace, rightbrace+1, rightbrace+1);
-- 
2.43.0


From 02ef8030bc77364802409e371e855a053540a2fa Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 35/74] fix: free decoded json strings when the parse stops on
 an error

---
 src/main/c/parts/json.c          | 32 ++++++++++++++++++++++++--------
 src/main/c/parts/xmq_internals.h |  1 +
 src/main/c/xmq.c                 |  3 +++
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index d021ba7..bfdb56a 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -66,6 +66,7 @@ bool json_is_number(const char *start);
 bool json_is_keyword(const char *start);
 void json_print_leaf_node(XMQPrintState *ps, xmlNode *container, xmlNode *node, size_t total, size_t used);
 
+void json_free_string(XMQParseState *state, char *s);
 void trim_index_suffix(const char *key_start, const char **stop);
 
 bool xmq_tokenize_buffer_json(XMQParseState *state, const char *start, const char *stop);
@@ -100,6 +101,10 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
     const char *start = state->i;
     const char *stop = state->buffer_stop;
 
+    state->last_quote_start = state->i;
+    state->last_quote_start_line = state->line;
+    state->last_quote_start_col = state->col;
+
     MemBuffer *buf = new_membuffer();
 
     const char *i = start;
@@ -189,6 +194,17 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
     char *quote = free_membuffer_but_return_trimmed_content(buf);
     *content_start = quote;
     *content_stop = quote+len-1; // Drop the zero byte.
+
+    // Remember it in case the parse stops on an error before it is used.
+    if (!state->json_strings) state->json_strings = stack_create();
+    stack_push(state->json_strings, quote);
+}
+
+void json_free_string(XMQParseState *state, char *s)
+{
+    void *top = stack_pop(state->json_strings);
+    assert(top == s);
+    free(top);
 }
 
 void trim_index_suffix(const char *key_start, const char **stop)
@@ -263,7 +279,7 @@ void parse_json_quote(XMQParseState *state, const char *key_start, const char *k
     {
         // This is "|":"symbol" which means a pure text node in xml.
         DO_CALLBACK_SIM(quote, state, start_line, 1, content_start, content_stop, content_stop);
-        free(content_start);
+        json_free_string(state, content_start);
         return;
     }
 
@@ -271,7 +287,7 @@ void parse_json_quote(XMQParseState *state, const char *key_start, const char *k
     {
         // This is "//":"symbol" which means a comment node in xml.
         DO_CALLBACK_SIM(comment, state, start_line, start_col, content_start, content_stop, content_stop);
-        free(content_start);
+        json_free_string(state, content_start);
         return;
     }
 
@@ -283,7 +299,7 @@ void parse_json_quote(XMQParseState *state, const char *key_start, const char *k
         DO_CALLBACK_SIM(comment, state, start_line, start_col, content_start, content_stop, content_stop);
         if (!state->root_found) state->add_pre_node_before = NULL;
         else                    state->add_post_node_after = NULL;
-        free(content_start);
+        json_free_string(state, content_start);
         return;
     }
 
@@ -322,7 +338,7 @@ void parse_json_quote(XMQParseState *state, const char *key_start, const char *k
         free(name);
         if (do_return)
         {
-            free(content_start);
+            json_free_string(state, content_start);
             // This will be set many times.
             state->root_found = true;
             return;
@@ -340,7 +356,7 @@ void parse_json_quote(XMQParseState *state, const char *key_start, const char *k
             state->add_pre_node_before = (xmlNode*)state->element_stack->top->data;
             DO_CALLBACK_SIM(element_value_quote, state, state->line, state->col, content_start, content_stop, content_stop);
             state->add_pre_node_before = NULL;
-            free(content_start);
+            json_free_string(state, content_start);
             return;
         }
     }
@@ -389,7 +405,7 @@ void parse_json_quote(XMQParseState *state, const char *key_start, const char *k
             DO_CALLBACK_SIM(attr_key, state, state->line, state->col, key_start+1, key_stop, key_stop);
             DO_CALLBACK_SIM(attr_value_quote, state, start_line, start_col, content_start, content_stop, content_stop);
         }
-        free(content_start);
+        json_free_string(state, content_start);
         return;
     }
 
@@ -424,7 +440,7 @@ void parse_json_quote(XMQParseState *state, const char *key_start, const char *k
     }
 
     DO_CALLBACK_SIM(element_value_text, state, start_line, start_col, content_start, content_stop, content_stop);
-    free(content_start);
+    json_free_string(state, content_start);
 }
 
 bool is_json_null(XMQParseState *state)
@@ -1054,7 +1070,7 @@ void parse_json_object(XMQParseState *state, const char *key_start, const char *
         }
 
         parse_json(state, new_key_start, new_key_stop);
-        free(new_key_start);
+        json_free_string(state, new_key_start);
 
         c = json_peek(state);
         if (c == ',') increment(c, 1, &state->i, &state->line, &state->col);
diff --git a/src/main/c/parts/xmq_internals.h b/src/main/c/parts/xmq_internals.h
index 0d168b2..fa8a0eb 100644
--- a/src/main/c/parts/xmq_internals.h
+++ b/src/main/c/parts/xmq_internals.h
@@ -292,6 +292,7 @@ struct XMQParseState
     XMQDoc *doq;
     const char *implicit_root; // Assume that this is the first element name
     Stack *element_stack; // Top is last created node
+    Stack *json_strings; // Decoded json strings not yet used.
     void *element_last; // Last added sibling to stack top node.
     bool parsing_doctype; // True when parsing a doctype.
     void *add_pre_node_before; // Used when retrofitting pre-root comments and doctype found in json.
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index d57c43e..f07cf98 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1737,6 +1737,9 @@ void xmqFreeParseState(XMQParseState *state)
     stack_free(state->element_stack);
     state->element_stack = NULL;
     // These are still set when the parse stopped on an error.
+    while (state->json_strings && state->json_strings->top) free(stack_pop(state->json_strings));
+    stack_free(state->json_strings);
+    state->json_strings = NULL;
     free((char*)state->pi_name);
     state->pi_name = NULL;
     free(state->element_namespace);
-- 
2.43.0


From 287e4a5f23794b18cdf2bbd1d32f7312118c9a3c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 36/74] fix: decode json surrogate pairs and \/, reject escapes
 that are not a character

---
 src/main/c/parts/json.c | 44 ++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index bfdb56a..05bd4a2 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -40,6 +40,7 @@ bool is_json_boolean(XMQParseState *state);
 bool is_json_null(XMQParseState *state);
 bool is_json_number(XMQParseState *state);
 bool is_json_quote_start(char c);
+int json_hex4(const char *i, const char *stop);
 char json_peek(XMQParseState *state);
 bool is_json_whitespace(char c);
 void json_print_namespace_declaration(XMQPrintState *ps, xmlNs *ns);
@@ -96,6 +97,19 @@ bool is_json_quote_start(char c)
     return c == '"';
 }
 
+int json_hex4(const char *i, const char *stop)
+{
+    // Return the value of 4 hex digits or -1.
+    if (stop-i < 4) return -1;
+    int v = 0;
+    for (int n = 0; n < 4; ++n)
+    {
+        if (!is_hex(i[n])) return -1;
+        v = (v<<4)|hex_value(i[n]);
+    }
+    return v;
+}
+
 void eat_json_quote(XMQParseState *state, char **content_start, char **content_stop)
 {
     const char *start = state->i;
@@ -131,7 +145,7 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
         {
             increment(c, 1, &i, &line, &col);
             c = i < stop ? *i : 0;
-            if (c == '"' || c == '\\' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't')
+            if (c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't')
             {
                 increment(c, 1, &i, &line, &col);
                 switch(c)
@@ -148,21 +162,23 @@ void eat_json_quote(XMQParseState *state, char **content_start, char **content_s
             else if (c == 'u')
             {
                 increment(c, 1, &i, &line, &col);
-                if (i+3 < stop)
+                int uc = json_hex4(i, stop);
+                if (uc >= 0)
                 {
-                    // Woot? Json can only escape unicode up to 0xffff ? What about 10000 up to 10ffff?
-                    if (is_hex(*(i+0)) && is_hex(*(i+1)) && is_hex(*(i+2)) && is_hex(*(i+3)))
+                    for (int n = 0; n < 4; ++n) increment(*i, 1, &i, &line, &col);
+                    if (uc >= 0xd800 && uc <= 0xdbff && i+1 < stop && i[0] == '\\' && i[1] == 'u')
+                    {
+                        // A code point above 0xffff is stored as two surrogates.
+                        int lo = json_hex4(i+2, stop);
+                        if (lo >= 0xdc00 && lo <= 0xdfff)
+                        {
+                            for (int n = 0; n < 6; ++n) increment(*i, 1, &i, &line, &col);
+                            uc = 0x10000+((uc-0xd800)<<10)+(lo-0xdc00);
+                        }
+                    }
+                    // The code point 0 and a lone surrogate cannot be stored in a document.
+                    if (uc != 0 && (uc < 0xd800 || uc > 0xdfff))
                     {
-                        unsigned char c1 = hex_value(*(i+0));
-                        unsigned char c2 = hex_value(*(i+1));
-                        unsigned char c3 = hex_value(*(i+2));
-                        unsigned char c4 = hex_value(*(i+3));
-                        increment(c, 1, &i, &line, &col);
-                        increment(c, 1, &i, &line, &col);
-                        increment(c, 1, &i, &line, &col);
-                        increment(c, 1, &i, &line, &col);
-
-                        int uc = (c1<<12)|(c2<<8)|(c3<<4)|c4;
                         UTF8Char utf8;
                         size_t n = encode_utf8(uc, &utf8);
 
-- 
2.43.0


From 57f2ce0e405428ba8e2f0260bb1f0b969aa3fadd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 37/74] fix: escape control characters and namespaces the json
 way when printing json

---
 src/main/c/parts/json.c | 57 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 7 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 05bd4a2..88102b7 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -43,6 +43,7 @@ bool is_json_quote_start(char c);
 int json_hex4(const char *i, const char *stop);
 char json_peek(XMQParseState *state);
 bool is_json_whitespace(char c);
+char *json_quote(const char *start, const char *stop, bool add_quotes);
 void json_print_namespace_declaration(XMQPrintState *ps, xmlNs *ns);
 void json_print_attribute(XMQPrintState *ps, xmlAttrPtr a);
 void json_print_attributes(XMQPrintState *ps, xmlNodePtr node);
@@ -81,6 +82,46 @@ char rightbrace[] = "}";
 char array[] = "A";
 char string[] = "S";
 
+char *json_quote(const char *start, const char *stop, bool add_quotes)
+{
+    // Json has no \a \v or \x escapes.
+    MemBuffer *buf = new_membuffer();
+
+    if (add_quotes) membuffer_append_char(buf, '"');
+
+    for (const char *i = start; i < stop; ++i)
+    {
+        UTF8Char uc;
+        size_t n = peek_utf8_char(i, stop, &uc);
+        if (n > 1)
+        {
+            membuffer_append_region(buf, i, i+n);
+            i += n-1;
+            continue;
+        }
+        char c = *i;
+        if (c == '\\') membuffer_append(buf, "\\\\");
+        else if (c == '"') membuffer_append(buf, "\\\"");
+        else if (c == '\b') membuffer_append(buf, "\\b");
+        else if (c == '\t') membuffer_append(buf, "\\t");
+        else if (c == '\n') membuffer_append(buf, "\\n");
+        else if (c == '\f') membuffer_append(buf, "\\f");
+        else if (c == '\r') membuffer_append(buf, "\\r");
+        else if (c >= ' ' && c <= 126) membuffer_append_char(buf, c);
+        else
+        {
+            char tmp[7];
+            snprintf(tmp, sizeof(tmp), "\\u%04x", (unsigned char)c);
+            membuffer_append(buf, tmp);
+        }
+    }
+
+    if (add_quotes) membuffer_append_char(buf, '"');
+    membuffer_append_null(buf);
+
+    return free_membuffer_but_return_trimmed_content(buf);
+}
+
 bool is_json_whitespace(char c)
 {
     return c == ' ' || c == '\t' || c == '\n' || c == '\r';
@@ -1149,7 +1190,7 @@ void json_print_value(XMQPrintState *ps, xmlNode *from, xmlNode *to, Level level
                     const char *value = xml_element_content(node);
                     if (value)
                     {
-                        char *quoted_value = xmq_quote_as_c(value, value+strlen(value), false);
+                        char *quoted_value = json_quote(value, value+strlen(value), false);
                         print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
                         free(quoted_value);
                     }
@@ -1218,7 +1259,7 @@ void json_print_attribute(XMQPrintState *ps, xmlAttr *a)
 
     json_check_comma(ps);
 
-    char *quoted_key = xmq_quote_as_c(key, key+strlen(key), false);
+    char *quoted_key = json_quote(key, key+strlen(key), false);
     print_utf8(ps, COLOR_none, 1, "\"_", NULL);
     if (prefix)
     {
@@ -1231,7 +1272,7 @@ void json_print_attribute(XMQPrintState *ps, xmlAttr *a)
     if (a->children != NULL)
     {
         char *value = (char*)xmlNodeListGetString(a->doc, a->children, 1);
-        char *quoted_value = xmq_quote_as_c(value, value+strlen(value), true);
+        char *quoted_value = json_quote(value, value+strlen(value), true);
         print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
         free(quoted_value);
         xmlFree(value);
@@ -1264,7 +1305,9 @@ void json_print_namespace_declaration(XMQPrintState *ps, xmlNs *ns)
 
     if (v != NULL)
     {
-        print_utf8(ps, COLOR_none, 3, "\"", NULL, v, NULL, "\"", NULL);
+        char *quoted_value = json_quote(v, v+strlen(v), true);
+        print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
+        free(quoted_value);
     }
     else
     {
@@ -1406,7 +1449,7 @@ void json_print_element_name(XMQPrintState *ps, xmlNode *container, xmlNode *nod
             // The key was stored inside the attribute because it could not
             // be used as the element name.
             char *value = (char*)xmlNodeListGetString(node->doc, a->children, 1);
-            char *quoted_value = xmq_quote_as_c(value, value+strlen(value), false);
+            char *quoted_value = json_quote(value, value+strlen(value), false);
             print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
             free(quoted_value);
             xmlFree(value);
@@ -1504,7 +1547,7 @@ void json_print_doctype_node(XMQPrintState *ps, xmlNodePtr node)
     xmlBuffer *buffer = xmlBufferCreate();
     xmlNodeDump(buffer, (xmlDocPtr)ps->doq->docptr_.xml, node, 0, 0);
     char *c = (char*)xmlBufferContent(buffer);
-    char *quoted_value = xmq_quote_as_c(c+10, c+strlen(c)-1, true);
+    char *quoted_value = json_quote(c+10, c+strlen(c)-1, true);
     print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
     free(quoted_value);
     xmlBufferFree(buffer);
@@ -1525,7 +1568,7 @@ void json_print_standalone_quote(XMQPrintState *ps, xmlNodePtr container, xmlNod
 {
     json_check_comma(ps);
     const char *value = xml_element_content(node);
-    char *quoted_value = xmq_quote_as_c(value, value+strlen(value), false);
+    char *quoted_value = json_quote(value, value+strlen(value), false);
     if (total == 1)
     {
         print_utf8(ps, COLOR_none, 3, "\"|\":\"", NULL, quoted_value, NULL, "\"", NULL);
-- 
2.43.0


From 95b82f852d6a42bbd59cf396b928895bbeb86c4d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 38/74] fix: do not read the byte after the end of the buffer
 when skipping whitespace

---
 src/main/c/parts/xmq_internals.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/c/parts/xmq_internals.c b/src/main/c/parts/xmq_internals.c
index 46b7b74..dabb9c9 100644
--- a/src/main/c/parts/xmq_internals.c
+++ b/src/main/c/parts/xmq_internals.c
@@ -134,6 +134,8 @@ void generate_state_error_message(XMQParseState *state, XMQParseError error_nr,
 
 size_t count_whitespace(const char *i, const char *stop)
 {
+    if (i >= stop) return 0;
+
     unsigned char c = *i;
     if (c == ' ' || c == '\n' || c == '\t' || c == '\r')
     {
-- 
2.43.0


From e131b28efcd3035ba0d262b216fb9ee0259aa9fe Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 39/74] fix: parse negative numbers as json when asked to and
 explain a mismatching content type

---
 src/main/c/xmq.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index f07cf98..bcec3dd 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -4172,6 +4172,11 @@ bool xmqParseBufferWithType(XMQDoc *doq,
                 // This is fine! We might be loading a fragment of html
                 // that is detected as xml.
             }
+            else if (detected_ct == XMQ_CONTENT_XMQ && ct == XMQ_CONTENT_JSON)
+            {
+                // This is fine! Lonely words and negative numbers are detected as xmq.
+                // The json parser reports an error if this is not json.
+            }
             else
             {
                 switch (ct) {
@@ -4182,6 +4187,7 @@ bool xmqParseBufferWithType(XMQDoc *doq,
                 case XMQ_CONTENT_JSON: doq->errno_ = XMQ_ERROR_EXPECTED_JSON; break;
                 default: break;
                 }
+                doq->error_ = build_error_message("xmq: %s\n", xmqParseErrorToString(doq->errno_));
                 ok = false;
                 goto exit;
             }
-- 
2.43.0


From 6d213b4705ee471df0661b84637abfd37349aa71 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 40/74] fix: print the key of an empty object or array whose
 key is not a name

---
 src/main/c/parts/json.c | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 88102b7..168cd34 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -1607,18 +1607,11 @@ void json_print_leaf_node(XMQPrintState *ps,
     XMQOutputSettings *output_settings = ps->output_settings;
     XMQWrite write = output_settings->content.write;
     void *writer_state = output_settings->content.writer_state;
-    const char *name = xml_element_name(node);
 
     json_check_comma(ps);
 
-    if (name)
-    {
-        if (!(name[0] == '_' && name[1] == 0))
-        {
-            json_print_element_name(ps, container, node, total, used);
-            write(writer_state, ":", NULL);
-        }
-    }
+    json_print_element_name(ps, container, node, total, used);
+    write(writer_state, ":", NULL);
 
     if (xml_get_attribute(node, "A"))
     {
-- 
2.43.0


From 2b150bfa2792910b1de29406eed504d0cd860fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 41/74] fix: keep unknown entities and &amp; in a text that is
 printed as json

---
 src/main/c/parts/xml.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/main/c/parts/xml.c b/src/main/c/parts/xml.c
index 8752401..4b37359 100644
--- a/src/main/c/parts/xml.c
+++ b/src/main/c/parts/xml.c
@@ -232,7 +232,7 @@ char *xml_collapse_text(xmlNode *node)
         }
         else
         {
-            // &apos;
+            // &apos; or an unknown entity, which is kept as &name;
             len += 2 + strlen((const char*)i->name);
             num_entities++;
         }
@@ -257,11 +257,22 @@ char *xml_collapse_text(xmlNode *node)
         else
         {
             int uc = decode_entity_ref((const char *)i->name);
-            UTF8Char utf8;
-            size_t n = encode_utf8(uc, &utf8);
-            for (size_t j = 0; j < n; ++j)
+            if (uc == 0)
             {
-                *out++ = utf8.bytes[j];
+                size_t l = strlen((const char *)i->name);
+                *out++ = '&';
+                memcpy(out, i->name, l);
+                out += l;
+                *out++ = ';';
+            }
+            else
+            {
+                UTF8Char utf8;
+                size_t n = encode_utf8(uc, &utf8);
+                for (size_t j = 0; j < n; ++j)
+                {
+                    *out++ = utf8.bytes[j];
+                }
             }
         }
         i = next;
@@ -274,6 +285,7 @@ char *xml_collapse_text(xmlNode *node)
 
 int decode_entity_ref(const char *name)
 {
+    if (!strcmp(name, "amp")) return '&';
     if (!strcmp(name, "apos")) return '\'';
     if (!strcmp(name, "gt")) return '>';
     if (!strcmp(name, "lt")) return '<';
@@ -281,7 +293,7 @@ int decode_entity_ref(const char *name)
     if (!strcmp(name, "nbsp")) return 160;
     if (name[0] != '#') return 0;
     if (name[1] == 'x') {
-        long v = strtol((const char*)name, NULL, 16);
+        long v = strtol((const char*)name+2, NULL, 16);
         return (int)v;
     }
     return atoi(name+1);
-- 
2.43.0


From dc4323a85be236d00bda4ddb489163d8bb114f0b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 42/74] fix: print texts, comments, entities and empty elements
 in a json array without crashing

---
 src/main/c/parts/json.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index 168cd34..d9a827f 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -953,13 +953,25 @@ void json_print_array_nodes(XMQPrintState *ps, xmlNode *container, xmlNode *from
     while (i)
     {
         json_check_comma(ps);
-        bool force_string = xml_get_attribute(i, "S");
-        bool is_number = xml_element_content(i) && json_is_number(xml_element_content(i));
-        bool is_keyword = xml_element_content(i) && json_is_keyword(xml_element_content(i));
+        bool force_string = is_element_node(i) && xml_get_attribute(i, "S");
 
-        if (force_string || is_number || is_keyword)
+        if (is_content_node(i))
         {
-            json_print_value(ps, xml_first_child(i), xml_last_child(i), LEVEL_ELEMENT_VALUE, force_string);
+            // A text, which is not the value of an element, is a string in the array.
+            json_print_value(ps, i, i, LEVEL_ELEMENT_VALUE, true);
+        }
+        else if (is_comment_node(i) || is_entity_node(i))
+        {
+            // A comment or an entity needs an object for its key.
+            print_utf8(ps, COLOR_brace_left, 1, "{", NULL);
+            ps->last_char = '{';
+            json_print_node(ps, NULL, i, 1, 0);
+            print_utf8(ps, COLOR_brace_right, 1, "}", NULL);
+            ps->last_char = '}';
+        }
+        else if (force_string && is_key_value_node(i))
+        {
+            json_print_value(ps, xml_first_child(i), xml_last_child(i), LEVEL_ELEMENT_VALUE, true);
         }
         else
         {
@@ -1444,7 +1456,7 @@ void json_print_element_name(XMQPrintState *ps, xmlNode *container, xmlNode *nod
     else
     {
         xmlAttr *a = xml_get_attribute(node, "_");
-        if (a)
+        if (a && a->children)
         {
             // The key was stored inside the attribute because it could not
             // be used as the element name.
-- 
2.43.0


From 37000d5b6f1474864e9b2c17db21e7ddf348477b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 43/74] fix: detect json that is a negative number or a word
 followed by blanks, and html after comments and blanks

---
 src/main/c/xmq.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index bcec3dd..f9f046f 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1054,6 +1054,11 @@ XMQContentType xmqDetectContentType(const char *start, const char *stop)
         char c = *i;
         if (!is_xml_whitespace(c))
         {
+            if (c == '-' && i+1 < stop && *(i+1) >= '0' && *(i+1) <= '9')
+            {
+                debug("xmq=", "content detected as json since a negative number was found");
+                return XMQ_CONTENT_JSON;
+            }
             if (c == '<')
             {
                 if (i+4 < stop &&
@@ -1066,10 +1071,11 @@ XMQContentType xmqDetectContentType(const char *start, const char *stop)
                     return XMQ_CONTENT_XML;
                 }
 
-                if (i+3 < stop &&
-                    *(i+1) == '!' &&
-                    *(i+2) == '-' &&
-                    *(i+3) == '-')
+                while (i+3 < stop &&
+                       *(i+0) == '<' &&
+                       *(i+1) == '!' &&
+                       *(i+2) == '-' &&
+                       *(i+3) == '-')
                 {
                     // This is a comment, zip past it.
                     while (i+2 < stop &&
@@ -1080,18 +1086,18 @@ XMQContentType xmqDetectContentType(const char *start, const char *stop)
                         i++;
                     }
                     i += 3;
+                    // Zip past any whitespace after the comment.
+                    while (i < stop && is_xml_whitespace(*i)) i++;
                     // No closing comment, return as xml.
                     if (i >= stop)
                     {
                         debug("xmq=", "content detected as xml since comment start found");
                         return XMQ_CONTENT_XML;
                     }
-                    // Pick up after the comment.
-                    c = *i;
                 }
 
                 // Starts with <html or < html
-                const char *is_html = find_word_ignore_case(i+1, stop, "html");
+                const char *is_html = *i == '<' ? find_word_ignore_case(i+1, stop, "html") : NULL;
                 if (is_html)
                 {
                     debug("xmq=", "content detected as html since html found");
@@ -1131,7 +1137,9 @@ XMQContentType xmqDetectContentType(const char *start, const char *stop)
             {
                 if (i+l-1 < stop)
                 {
-                    if (i+l == stop || (*(i+l) == '\n' && i+l+1 == stop))
+                    const char *end = i+l;
+                    while (end < stop && is_xml_whitespace(*end)) end++;
+                    if (end == stop)
                     {
                         if (!strncmp(i, "true", 4) ||
                             !strncmp(i, "false", 5) ||
-- 
2.43.0


From 180d571dc5a823aee422ecf6f2405beaa9a28b82 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 44/74] fix: load pipes and unseekable files without
 overflowing the buffer, report and clean up after every failed load

---
 src/main/c/xmq.c | 120 ++++++++++++++---------------------------------
 1 file changed, 35 insertions(+), 85 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index f9f046f..478cb18 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1003,7 +1003,13 @@ bool xmqTokenizeFile(XMQParseState *state, const char *file)
         xmqSetDocSourceName(doq, "-");
         rc = load_stdin(doq, &fsize, &buffer);
     }
-    if (!rc) return false;
+    if (!rc)
+    {
+        state->generated_error_msg = strdup(xmqDocError(doq));
+        state->error_nr = xmqDocErrno(doq);
+        xmqFreeDoc(doq);
+        return false;
+    }
 
     xmqSetStateSourceName(state, file);
 
@@ -1886,63 +1892,20 @@ bool xmqParseBuffer(XMQDoc *doq, const char *start, const char *stop, const char
 bool xmqParseFile(XMQDoc *doq, const char *file, const char *implicit_root, int flags)
 {
     bool ok = true;
-    char *buffer = NULL;
+    const char *buffer = NULL;
     size_t fsize = 0;
     XMQContentType content = XMQ_CONTENT_XMQ;
-    size_t block_size = 0;
-    size_t n = 0;
 
     xmqSetDocSourceName(doq, file);
 
-    FILE *f = fopen(file, "rb");
-    if (!f) {
-        doq->errno_ = XMQ_ERROR_CANNOT_READ_FILE;
-        doq->error_ = build_error_message("xmq: %s: No such file or directory\n", file);
-        ok = false;
-        goto exit;
-    }
-
-    fseek(f, 0, SEEK_END);
-    fsize = ftell(f);
-    fseek(f, 0, SEEK_SET);
-
-    buffer = (char*)malloc(fsize + 1);
-    if (!buffer)
-    {
-        doq->errno_ = XMQ_ERROR_OOM;
-        doq->error_ = build_error_message("xmq: %s: File too big, out of memory\n", file);
-        ok = false;
-        goto exit;
-    }
-
-    block_size = fsize;
-    if (block_size > 10000) block_size = 10000;
-    n = 0;
-    do {
-        // We need to read smaller blocks because of a bug in Windows C-library..... blech.
-        if (n + block_size > fsize) block_size = fsize - n;
-        size_t r = fread(buffer+n, 1, block_size, f);
-        debug("xmq=", "read %zu bytes total %zu", r, n);
-        if (!r) break;
-        n += r;
-    } while (n < fsize);
-
-    debug("xmq=", "read total %zu bytes", n);
-
-    if (n != fsize)
-    {
-        ok = false;
-        doq->errno_ = XMQ_ERROR_CANNOT_READ_FILE;
-        goto exit;
-    }
-    fclose(f);
-    buffer[fsize] = 0;
+    if (!load_file(doq, file, &fsize, &buffer)) return false;
 
     content = xmqDetectContentType(buffer, buffer+fsize);
     if (content != XMQ_CONTENT_XMQ)
     {
         ok = false;
         doq->errno_ = XMQ_ERROR_NOT_XMQ;
+        doq->error_ = build_error_message("xmq: %s: the content is not xmq\n", file);
         goto exit;
     }
 
@@ -1950,7 +1913,7 @@ bool xmqParseFile(XMQDoc *doq, const char *file, const char *implicit_root, int
 
     exit:
 
-    free(buffer);
+    free((void*)buffer);
 
     return ok;
 }
@@ -4260,6 +4223,9 @@ bool load_stdin(XMQDoc *doq, size_t *out_fsize, const char **out_buffer)
             }
             PRINT_ERROR("Could not read stdin errno=%d\n", errno);
             close(fd);
+            free_membuffer_and_free_content(mb);
+            doq->errno_ = XMQ_ERROR_CANNOT_READ_FILE;
+            doq->error_ = build_error_message("xmq: Cannot read stdin\n");
 
             return false;
         }
@@ -4277,10 +4243,11 @@ bool load_stdin(XMQDoc *doq, size_t *out_fsize, const char **out_buffer)
 
 bool load_file(XMQDoc *doq, const char *file, size_t *out_fsize, const char **out_buffer)
 {
-    bool rc = false;
-    char *buffer = NULL;
-    size_t block_size = 0;
+    // We need to read smaller blocks because of a bug in Windows C-library..... blech.
+    char block[10000];
     size_t n = 0;
+    bool ok = true;
+    MemBuffer *mb = NULL;
 
     FILE *f = fopen(file, "rb");
     if (!f) {
@@ -4289,48 +4256,31 @@ bool load_file(XMQDoc *doq, const char *file, size_t *out_fsize, const char **ou
         return false;
     }
 
-    fseek(f, 0, SEEK_END);
-    size_t fsize = ftell(f);
-    fseek(f, 0, SEEK_SET);
-
-    debug("xmq=", "file size %zu", fsize);
-
-    buffer = (char*)malloc(fsize + 1);
-    if (!buffer)
+    // Read until the end, the size is not known in advance for a pipe.
+    mb = new_membuffer();
+    while ((n = fread(block, 1, sizeof(block), f)) > 0)
     {
-        doq->errno_ = XMQ_ERROR_OOM;
-        doq->error_ = build_error_message("xmq: %s: File too big, out of memory\n", file);
-        goto exit;
+        debug("xmq=", "read %zu bytes", n);
+        membuffer_append_region(mb, block, block + n);
     }
+    ok = !ferror(f);
+    fclose(f);
 
-    block_size = fsize;
-    if (block_size > 10000) block_size = 10000;
-    n = 0;
-    do {
-        if (n + block_size > fsize) block_size = fsize - n;
-        size_t r = fread(buffer+n, 1, block_size, f);
-        debug("xmq=", "read %zu bytes total %zu", r, n);
-        if (!r) break;
-        n += r;
-    } while (n < fsize);
-
-    debug("xmq=", "read total %zu bytes fsize %zu bytes", n, fsize);
-
-    if (n != fsize) {
-        rc = false;
+    if (!ok)
+    {
+        free_membuffer_and_free_content(mb);
         doq->errno_ = XMQ_ERROR_CANNOT_READ_FILE;
         doq->error_ = build_error_message("xmq: %s: Cannot read file\n", file);
-        goto exit;
+        return false;
     }
-    fclose(f);
-    buffer[fsize] = 0;
-    rc = true;
 
-exit:
+    membuffer_append_null(mb);
+    debug("xmq=", "read total %zu bytes", mb->used_-1);
 
-    *out_fsize = fsize;
-    *out_buffer = buffer;
-    return rc;
+    *out_fsize = mb->used_-1;
+    *out_buffer = free_membuffer_but_return_trimmed_content(mb);
+
+    return true;
 }
 
 bool xmqParseFileWithType(XMQDoc *doq,
-- 
2.43.0


From d3b17640ce6611f9e9d65cd7e42f4a49a148f40d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 45/74] fix: read text and grammar files of the cli until their
 end, also when they are pipes

---
 src/main/c/xmq-cli.c | 45 +++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 9f2f889..5a0806b 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -1019,20 +1019,8 @@ bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command
         {
             const char *file = arg+17;
             verbose_("xmq=", "reading text file %s", file);
-            FILE *f = fopen(file, "rb");
-            if (!f)
-            {
-                error_("xmq.err=", "%s: No such file or directory", file);
-                return false;
-            }
-            fseek(f, 0L, SEEK_END);
-            size_t sz = ftell(f);
-            fseek(f, 0L, SEEK_SET);
-            char *buf = (char*)malloc(sz+1);
-            size_t n = fread(buf, 1, sz, f);
-            buf[sz] = 0;
-            if (n != sz) printf("ARRRRRGGGG\n");
-            fclose(f);
+            char *buf = load_file_into_buffer(file);
+            if (!buf) return false;
             command->content = buf;
             return true;
         }
@@ -4095,14 +4083,29 @@ char *load_file_into_buffer(const char *file)
         fprintf(stderr, "xmq: %s: No such file or directory\n", file);
         return NULL;
     }
-    fseek(f, 0L, SEEK_END);
-    size_t sz = ftell(f);
-    fseek(f, 0L, SEEK_SET);
-    char *buf = (char*)malloc(sz+1);
-    size_t n = fread(buf, 1, sz, f);
-    buf[sz] = 0;
-    if (n != sz) printf("ARRRRRGGGG\n");
+    // Read until the end, the size is not known in advance for a pipe.
+    size_t max = 10000;
+    size_t used = 0;
+    size_t n = 0;
+    char *buf = (char*)malloc(max+1);
+    while ((n = fread(buf+used, 1, max-used, f)) > 0)
+    {
+        used += n;
+        if (used == max)
+        {
+            max *= 2;
+            buf = (char*)realloc(buf, max+1);
+        }
+    }
+    bool ok = !ferror(f);
     fclose(f);
+    if (!ok)
+    {
+        fprintf(stderr, "xmq: %s: Cannot read file\n", file);
+        free(buf);
+        return NULL;
+    }
+    buf[used] = 0;
     return buf;
 }
 
-- 
2.43.0


From 4d533db95e7dd65be610d60a08cd96ca7c41655b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 46/74] fix: free the output buffer when nothing could be
 printed into it

---
 src/main/c/xmq.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 478cb18..b827e8c 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -714,6 +714,12 @@ void xmqFreeOutputSettings(XMQOutputSettings *os)
         free(os->free_and_me);
         os->free_and_me = NULL;
     }
+    if (os->output_buffer && os->output_buffer_start && os->output_buffer_stop)
+    {
+        // The buffer was never handed over, since nothing could be printed.
+        free_membuffer_and_free_content(os->output_buffer);
+        os->output_buffer = NULL;
+    }
     free(os);
 }
 
@@ -977,6 +983,7 @@ bool xmqTokenizeBuffer(XMQParseState *state, const char *start, const char *stop
     {
         size_t size = membuffer_used(output_settings->output_buffer);
         char *buffer = free_membuffer_but_return_trimmed_content(output_settings->output_buffer);
+        output_settings->output_buffer = NULL;
         *output_settings->output_buffer_start = buffer;
         *output_settings->output_buffer_stop = buffer+size;
     }
@@ -3047,6 +3054,7 @@ void xmqPrint(XMQDoc *doq, XMQOutputSettings *output_settings)
     {
         size_t size = membuffer_used(output_settings->output_buffer);
         char *buffer = free_membuffer_but_return_trimmed_content(output_settings->output_buffer);
+        output_settings->output_buffer = NULL;
         *output_settings->output_buffer_start = buffer;
         *output_settings->output_buffer_stop = buffer+size;
         if (output_settings->output_skip)
-- 
2.43.0


From 2a22d479177cbb792d7d1c6ec0b37a6ed68c3788 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 47/74] fix: end ixml comments that are not closed, and skip
 comments and doubled quotes when looking ahead in a grammar

---
 src/main/c/parts/ixml.c | 68 +++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 37 deletions(-)

diff --git a/src/main/c/parts/ixml.c b/src/main/c/parts/ixml.c
index cb02efe..fda8240 100644
--- a/src/main/c/parts/ixml.c
+++ b/src/main/c/parts/ixml.c
@@ -232,8 +232,11 @@ bool is_ixml_charset_start(XMQParseState *state)
 
     skip_tmark(&i);
 
-    if (*i == '~') i++;
-    while (is_ixml_whitespace_char(*i)) i++;
+    if (*i == '~')
+    {
+        i++;
+        skip_whitespace(&i);
+    }
 
     if (*i == '[') return true;
 
@@ -375,7 +378,7 @@ bool is_ixml_range_start(XMQParseState *state)
         if (*j == '-') return true;
         return false;
     }
-    else if (is_ixml_encoded_start(state))
+    else if (*j == '#')
     {
         skip_encoded(&j);
         skip_whitespace(&j);
@@ -723,9 +726,9 @@ void parse_ixml_comment(XMQParseState *state)
     IXML_STEP(comment, state);
     assert (*(state->i) == '{');
 
-    EAT(comment_start, 1);
-
-    for (;;)
+    // Comments can be nested.
+    size_t depth = 0;
+    do
     {
         if (is_ixml_eob(state))
         {
@@ -733,14 +736,12 @@ void parse_ixml_comment(XMQParseState *state)
             state->error_info = "comment is not closed";
             longjmp(state->error_handler, 1);
         }
-        if (*(state->i) == '{')
-        {
-            parse_ixml_comment(state);
-        }
-        if (*(state->i) == '}') break;
+        char c = *(state->i);
+        if (c == '{') depth++;
+        if (c == '}') depth--;
         EAT(comment_inside, 1);
     }
-    EAT(comment_stop, 1);
+    while (depth > 0);
 
     IXML_DONE(comment, state);
 }
@@ -1565,14 +1566,15 @@ void skip_comment(const char **i)
 {
     const char *j = *i;
     ASSERT(*j == '{');
-    for (;;)
+    // Comments can be nested. A comment that is not closed extends to the end.
+    size_t depth = 0;
+    while (*j != 0)
     {
+        if (*j == '{') depth++;
+        if (*j == '}') depth--;
         j++;
-        if (*j == '{') skip_comment(&j);
-        if (*j == '}') break;
-        if (*j == 0) return;
+        if (depth == 0) break;
     }
-    j++;
     *i = j;
 }
 
@@ -1592,7 +1594,7 @@ void skip_mark(const char **i)
     if (c == '^' || c == '-' || c == '@') // mark
     {
         j++;
-        while (is_ixml_whitespace_char(*j)) j++;
+        skip_whitespace(&j);
     }
     *i = j;
 }
@@ -1600,30 +1602,22 @@ void skip_mark(const char **i)
 void skip_string(const char **i)
 {
     const char *j = *i;
-    if (*j == '"') // mark
-    {
-        j++;
-        while (*j != '"')
-        {
-            if (*j == 0) return; // Ouch string not closed.
-            if (*j == '"' && *(j+1) == '"') j++;
-            j++;
-        }
-        // Move past the last "
-        j++;
-    }
-    else
-    if (*j == '\'') // mark
+    char q = *j;
+    if (!is_ixml_quote_start(q)) return;
+    j++;
+    for (;;)
     {
-        j++;
-        while (*j != '\'')
+        if (*j == 0) return; // Ouch string not closed.
+        if (*j == q)
         {
-            if (*j == 0) return; // Ouch string not closed.
-            if (*j == '\'' && *(j+1) == '\'') j++;
+            // A double '' or "" means a single ' or " inside the string.
+            if (*(j+1) != q) break;
             j++;
         }
         j++;
     }
+    // Move past the last quote.
+    j++;
     *i = j;
 }
 
@@ -1634,7 +1628,7 @@ void skip_tmark(const char **i)
     if (c == '^' || c == '-') // tmark
     {
         j++;
-        while (is_ixml_whitespace_char(*j)) j++;
+        skip_whitespace(&j);
     }
     *i = j;
 }
-- 
2.43.0


From 65cb245a2e913c6c1aa14efc7f0f366186bc1adc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 48/74] fix: report malformed ixml grammars as errors instead
 of crashing, and free everything after an error

---
 src/main/c/parts/ixml.c | 76 +++++++++++++++++++++++++----------------
 src/main/c/parts/ixml.h |  3 ++
 src/main/c/xmq.c        | 20 +++++++++--
 3 files changed, 67 insertions(+), 32 deletions(-)

diff --git a/src/main/c/parts/ixml.c b/src/main/c/parts/ixml.c
index fda8240..212f533 100644
--- a/src/main/c/parts/ixml.c
+++ b/src/main/c/parts/ixml.c
@@ -598,6 +598,7 @@ void parse_ixml_alts(XMQParseState *state)
         char mark = state->ixml_rule->mark;
         state->ixml_rule = new_ixml_rule();
         state->ixml_rule->rule_name->name = strdup(name->name);
+        if (name->alias) state->ixml_rule->rule_name->alias = strdup(name->alias);
         state->ixml_rule->mark = mark;
         vector_push_back(state->ixml_rules, state->ixml_rule);
     }
@@ -717,6 +718,7 @@ void parse_ixml_charset(XMQParseState *state)
     IXMLNonTerminal *nt = new_ixml_nonterminal();
     nt->name = generate_charset_terminal_name(state->ixml_charset, tmark);
     nt->charset = state->ixml_charset;
+    state->ixml_charset = NULL;
     add_yaep_nonterminal(state, nt);
     add_yaep_term_to_rule(state, tmark, NULL, nt);
 }
@@ -792,19 +794,27 @@ void parse_ixml_encoded(XMQParseState *state, bool add_terminal)
 void parse_ixml_factor(XMQParseState *state)
 {
     IXML_STEP(factor, state);
-    ASSERT(is_ixml_factor_start(state));
+
+    if (!is_ixml_factor_start(state))
+    {
+        state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
+        state->error_info = "expected factor";
+        longjmp(state->error_handler, 1);
+    }
 
     if (is_ixml_terminal_start(state))
     {
+        bool is_literal = is_ixml_literal_start(state);
+
         allocate_yaep_tmp_terminals(state);
 
         parse_ixml_terminal(state);
 
-        if (has_ixml_tmp_terminals(state))
+        if (is_literal)
         {
-            if (has_more_than_one_ixml_tmp_terminals(state))
+            if (!has_ixml_tmp_terminals(state) || has_more_than_one_ixml_tmp_terminals(state))
             {
-                // Create a group.
+                // Create a group, the empty literal is an empty group.
                 IXMLNonTerminal *nt = new_ixml_nonterminal();
                 nt->name = generate_rule_name(state);
                 add_yaep_nonterminal(state, nt);
@@ -839,6 +849,7 @@ void parse_ixml_factor(XMQParseState *state)
 
         add_yaep_nonterminal(state, state->ixml_nonterminal);
         add_yaep_term_to_rule(state, state->ixml_mark, NULL, state->ixml_nonterminal);
+        state->ixml_nonterminal = NULL;
     }
     else  if (is_ixml_insertion_start(state))
     {
@@ -863,7 +874,7 @@ void parse_ixml_group(XMQParseState *state)
 
     parse_ixml_whitespace(state);
 
-    if (is_ixml_alt_start(state))
+    if (is_ixml_alt_start(state) || is_ixml_group_end(state))
     {
         IXMLNonTerminal *nt = new_ixml_nonterminal();
         nt->name = generate_rule_name(state);
@@ -883,7 +894,7 @@ void parse_ixml_group(XMQParseState *state)
 
         state->ixml_rule = (IXMLRule*)stack_pop(state->ixml_rule_stack);
     }
-    else if (*(state->i) != ')')
+    else
     {
         state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
         state->error_info = "expected alts in group";
@@ -914,8 +925,15 @@ void parse_ixml_hex(XMQParseState *state, int *value)
     }
     const char *stop = state->i;
     char *hex = strndup(start, stop-start);
-    *value = (int)strtol(hex, NULL, 16);
+    long code = strtol(hex, NULL, 16);
     free(hex);
+    if (code > 0x10ffff)
+    {
+        state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
+        state->error_info = "hex is not a unicode character";
+        longjmp(state->error_handler, 1);
+    }
+    *value = (int)code;
 
     IXML_DONE(hex, state);
 }
@@ -953,9 +971,10 @@ void parse_ixml_insertion(XMQParseState *state)
     }
     else if (is_ixml_encoded_start(state))
     {
-        parse_ixml_encoded(state, true);
+        parse_ixml_encoded(state, false);
         UTF8Char c;
-        encode_utf8(state->ixml_encoded, &c);
+        size_t len = encode_utf8(state->ixml_encoded, &c);
+        c.bytes[len] = 0;
         add_insertion_rule(state, c.bytes);
     }
     else
@@ -991,7 +1010,12 @@ void parse_ixml_name(XMQParseState *state, const char **name_start, const char *
 {
     IXML_STEP(name,state);
 
-    assert(is_ixml_name_start(*(state->i)));
+    if (!is_ixml_name_start(*(state->i)))
+    {
+        state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
+        state->error_info = "expected a name";
+        longjmp(state->error_handler, 1);
+    }
     *name_start = state->i;
     EAT(name_start, 1);
 
@@ -1024,12 +1048,6 @@ void parse_ixml_naming(XMQParseState *state,
     }
     parse_ixml_whitespace(state);
 
-    if (!is_ixml_name_start(*(state->i)))
-    {
-        state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
-        state->error_info = "expected a name";
-        longjmp(state->error_handler, 1);
-    }
     const char *name_start, *name_stop;
     parse_ixml_name(state, &name_start, &name_stop);
     *name = strndup(name_start, (name_stop-name_start));
@@ -1259,6 +1277,7 @@ void parse_ixml_string(XMQParseState *state, int **content)
     {
         if (is_ixml_eob(state))
         {
+            free_membuffer_and_free_content(buf);
             state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
             state->error_info = "string not terminated";
             longjmp(state->error_handler, 1);
@@ -1283,8 +1302,10 @@ void parse_ixml_string(XMQParseState *state, int **content)
         bool ok = decode_utf8(state->i, state->buffer_stop, &uc, &len);
         if (!ok)
         {
-            fprintf(stderr, "xmq: broken utf8\n");
-            exit(1);
+            free_membuffer_and_free_content(buf);
+            state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
+            state->error_info = "broken utf8 in string";
+            longjmp(state->error_handler, 1);
         }
         membuffer_append_int(buf, uc);
         EAT(string_inside, len);
@@ -1301,18 +1322,8 @@ void parse_ixml_string(XMQParseState *state, int **content)
 void parse_ixml_term(XMQParseState *state)
 {
     IXML_STEP(term, state);
-    ASSERT(is_ixml_factor_start(state));
 
-    if (is_ixml_factor_start(state))
-    {
-        parse_ixml_factor(state);
-    }
-    else
-    {
-        state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
-        state->error_info = "expected factor";
-        longjmp(state->error_handler, 1);
-    }
+    parse_ixml_factor(state);
 
     char factor_mark = state->ixml_mark;
     char c = *(state->i);
@@ -1956,6 +1967,8 @@ void free_ixml_nonterminal(IXMLNonTerminal *nt)
 {
     if (nt->name) free(nt->name);
     nt->name = NULL;
+    free(nt->alias);
+    nt->alias = NULL;
     if (nt->charset) free_ixml_charset(nt->charset);
     nt->charset = NULL;
     free(nt);
@@ -2017,7 +2030,10 @@ char *generate_rule_name(XMQParseState *state)
 
 char *generate_charset_terminal_name(IXMLCharset *cs, char mark)
 {
-    char *buf = (char*)malloc(1024);
+    // Each part needs at most: ;#10ffff-#10ffff
+    size_t num_parts = 0;
+    for (IXMLCharsetPart *p = cs->first; p; p = p->next) num_parts++;
+    char *buf = (char*)malloc(num_parts*16 + 8);
     buf[0] = 0;
 
     if (cs->exclude) strcat(buf, "~");
diff --git a/src/main/c/parts/ixml.h b/src/main/c/parts/ixml.h
index 14d3579..90c9191 100644
--- a/src/main/c/parts/ixml.h
+++ b/src/main/c/parts/ixml.h
@@ -38,6 +38,8 @@ struct IXMLTerminal;
 typedef struct IXMLTerminal IXMLTerminal;
 struct IXMLNonTerminal;
 typedef struct IXMLNonTerminal IXMLNonTerminal;
+struct IXMLCharset;
+typedef struct IXMLCharset IXMLCharset;
 
 bool ixml_build_yaep_grammar(YaepParseRun *pr,
                              YaepGrammar *g,
@@ -50,6 +52,7 @@ bool ixml_build_yaep_grammar(YaepParseRun *pr,
 void free_ixml_rule(IXMLRule *r);
 void free_ixml_terminal(IXMLTerminal *t);
 void free_ixml_nonterminal(IXMLNonTerminal *nt);
+void free_ixml_charset(IXMLCharset *cs);
 const char *ixml_to_yaep_read_terminal(YaepParseRun *pr,
                                        YaepGrammar *g,
                                        int *code);
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index b827e8c..214fa74 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -1789,6 +1789,14 @@ void xmqFreeParseState(XMQParseState *state)
     if (state->ixml_rule_stack) stack_free(state->ixml_rule_stack);
     state->ixml_rule_stack = NULL;
 
+    // These are still set when the grammar parse stopped on an error.
+    if (state->ixml_nonterminal) free_ixml_nonterminal(state->ixml_nonterminal);
+    state->ixml_nonterminal = NULL;
+    if (state->ixml_charset) free_ixml_charset(state->ixml_charset);
+    state->ixml_charset = NULL;
+    if (state->ixml_tmp_terminals) vector_free_and_values(state->ixml_tmp_terminals, (FreeFuncPtr)free_ixml_terminal);
+    state->ixml_tmp_terminals = NULL;
+
     free(state);
 }
 
@@ -4420,16 +4428,24 @@ bool xmq_parse_buffer_ixml(XMQDoc *ixml_grammar,
     if (xmqDebugging()) run->debug = run->verbose = true;
     if (xmqTracing()) run->trace = run->debug = run->verbose = true;
 
+    // The ixml parser looks ahead and relies on the grammar being null terminated.
+    char *copy = (char*)malloc(stop-start+1);
+    memcpy(copy, start, stop-start);
+    copy[stop-start] = 0;
+
     // Lets parse the ixml source to construct a yaep grammar.
     // This yaep grammar is cached in ixml_grammar->yaep_grammar_.
     ixml_build_yaep_grammar((YaepParseRun*)ixml_grammar->yaep_parse_run_,
                             (YaepGrammar*)ixml_grammar->yaep_grammar_,
                             state,
-                            start,
-                            stop,
+                            copy,
+                            copy+(stop-start),
                             NULL,
                             NULL);
 
+    free(copy);
+    state->buffer_start = state->buffer_stop = state->i = NULL;
+
     if (xmqStateErrno(state))
     {
         rc = false;
-- 
2.43.0


From 174e3642d9de1513a9607fd8e62d57db77001fda Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 49/74] fix: an ixml terminal without a mark has no mark

---
 src/main/c/parts/yaep.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/c/parts/yaep.c b/src/main/c/parts/yaep.c
index 562033b..3ff6b90 100644
--- a/src/main/c/parts/yaep.c
+++ b/src/main/c/parts/yaep.c
@@ -6805,6 +6805,7 @@ static YaepTreeNode *build_parse_tree(YaepParseState *ps, bool *ambiguous_p)
                     node->type = YAEP_TERM;
                     node->val.terminal.code = symb->u.terminal.code;
                     // IXML
+                    node->val.terminal.mark = 0;
                     if (rule->marks && rule->marks[pos])
                     {
                         // Copy the mark from the rhs position on to the terminal.
-- 
2.43.0


From b7cd5fb5f6a18a9e8e0debfbcb1bf5826a14861d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 50/74] fix: report text that an ixml grammar rejects as an
 error, without exiting, jumping out or reading past its end

---
 src/main/c/parts/ixml.c |  7 ++++---
 src/main/c/parts/ixml.h |  2 +-
 src/main/c/xmq.c        | 22 ++++++++++++++++++----
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/main/c/parts/ixml.c b/src/main/c/parts/ixml.c
index 212f533..1036be0 100644
--- a/src/main/c/parts/ixml.c
+++ b/src/main/c/parts/ixml.c
@@ -1717,7 +1717,7 @@ void add_insertion_rule(XMQParseState *state, const char *content)
     add_yaep_term_to_rule(state, 0, NULL, nt);
 }
 
-void scan_content_fixup_charsets(XMQParseState *state, const char *start, const char *stop)
+bool scan_content_fixup_charsets(XMQParseState *state, const char *start, const char *stop)
 {
     const char *i = start;
     // We allocate a byte for every possible unicode. Yes, a bit excessive, 1 megabyte. Can be fixed though.
@@ -1732,8 +1732,8 @@ void scan_content_fixup_charsets(XMQParseState *state, const char *start, const
         bool ok = decode_utf8(i, stop, &uc, &len);
         if (!ok)
         {
-            fprintf(stderr, "xmq: broken utf8\n");
-            exit(1);
+            free(used);
+            return false;
         }
         i += len;
 
@@ -1868,6 +1868,7 @@ void scan_content_fixup_charsets(XMQParseState *state, const char *start, const
     }
 
     free(used);
+    return true;
 }
 
 void add_yaep_tmp_terminals_to_rule(XMQParseState *state, IXMLRule *rule, char mark)
diff --git a/src/main/c/parts/ixml.h b/src/main/c/parts/ixml.h
index 90c9191..2c6bc51 100644
--- a/src/main/c/parts/ixml.h
+++ b/src/main/c/parts/ixml.h
@@ -65,7 +65,7 @@ const char *ixml_to_yaep_read_rule(YaepParseRun *pr,
                                    char *mark,
                                    char **marks);
 
-void scan_content_fixup_charsets(XMQParseState *state, const char *start, const char *stop);
+bool scan_content_fixup_charsets(XMQParseState *state, const char *start, const char *stop);
 
 void ixml_print_grammar(XMQParseState *state);
 
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 214fa74..76d6a27 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -4497,6 +4497,8 @@ void handle_yaep_syntax_error(YaepParseRun *pr,
     if (start < 0) start = 0;
     int stop = err_tok_num + 20;
 
+    if (stop > pr->buffer_stop - pr->buffer_start) stop = pr->buffer_stop - pr->buffer_start;
+
     for (int i = start; i < stop && pr->buffer_start[i] != 0; ++i)
     {
         printf("%c", pr->buffer_start[i]);
@@ -4682,7 +4684,13 @@ bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XM
 
     // Now add all character terminals in the content (not yead added ) to the grammar.
     // And rewrite charsets into rules with multiple choice shrunk the the actual usage of characters in the input.
-    scan_content_fixup_charsets(state, start, stop);
+    if (!scan_content_fixup_charsets(state, start, stop))
+    {
+        doc->errno_ = XMQ_ERROR_INVALID_CHAR;
+        doc->error_ = build_error_message("%s\n", xmqParseErrorToString(XMQ_ERROR_INVALID_CHAR));
+        fprintf(stderr, "xmq: broken utf8\n");
+        return false;
+    }
 
     ixml_print_grammar(state);
 
@@ -4694,10 +4702,8 @@ bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XM
 
     if (rc != 0)
     {
-        state->error_nr = XMQ_ERROR_IXML_SYNTAX_ERROR;
-        state->error_info = "internal error, yaep did not accept generated yaep grammar";
         printf("xmq: could not parse input using ixml grammar: %s\n", yaep_error_message(xmq_get_yaep_grammar(ixml_grammar)));
-        longjmp(state->error_handler, 1);
+        return false;
     }
 
     yaep_set_one_parse_flag(xmq_get_yaep_grammar(ixml_grammar),
@@ -4723,6 +4729,14 @@ bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XM
         return false;
     }
 
+    if (!run->root)
+    {
+        // The syntax error has already been printed.
+        doc->errno_ = XMQ_ERROR_IXML_SYNTAX_ERROR;
+        doc->error_ = build_error_message("%s\n", xmqParseErrorToString(XMQ_ERROR_IXML_SYNTAX_ERROR));
+        return false;
+    }
+
     if (run->ambiguous_p && !(flags & XMQ_FLAG_IXML_ALL_PARSES))
     {
         fprintf(stderr, "ixml: Warning! The input can be parsed in multiple ways, ie it is ambiguous!\n");
-- 
2.43.0


From 13a3a66111b2b9184d2d58ebe29124ec7d6b4a96 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 51/74] fix: allow every unicode character in an ixml grammar
 and its input

---
 src/main/c/parts/yaep.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/c/parts/yaep.c b/src/main/c/parts/yaep.c
index 3ff6b90..49ac6c8 100644
--- a/src/main/c/parts/yaep.c
+++ b/src/main/c/parts/yaep.c
@@ -2264,9 +2264,9 @@ typedef long int terminal_bitset_t;
 #define YAEP_MAX_ERROR_MESSAGE_LENGTH 200
 #endif
 
-/* As of Unicode 16 there are 155_063 allocated unicode code points.
-   Lets pick 200_000 as the max, it shrinks to max-min code point anyway.*/
-#define MAX_SYMB_CODE_TRANS_VECT_SIZE 200000
+/* Any unicode code point up to 0x10ffff can be used and a few negative codes are reserved,
+   it shrinks to max-min code point anyway.*/
+#define MAX_SYMB_CODE_TRANS_VECT_SIZE (0x110000+16)
 
 /* The initial length of array(in tokens) in which input tokens are placed.*/
 #ifndef NUM_INITIAL_YAEP_INIT_TOKENS
-- 
2.43.0


From 3a7c844f5e5977baaec257d985ce67be97602958 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 52/74] fix: ixml alternatives can be empty before ;, and the
 mark of a term does not leak into a set, group or insertion after it

---
 src/main/c/parts/ixml.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/main/c/parts/ixml.c b/src/main/c/parts/ixml.c
index 1036be0..4e89540 100644
--- a/src/main/c/parts/ixml.c
+++ b/src/main/c/parts/ixml.c
@@ -566,8 +566,9 @@ void parse_ixml_alts(XMQParseState *state)
             is_ixml_rule_end(*(state->i)) ||
             is_ixml_group_end(state)) break;
 
+        // An alternative can be empty.
         char c = *(state->i);
-        if (c != '|')
+        if (!is_ixml_alt_end(c))
         {
             if (!is_ixml_alt_start(state))
             {
@@ -720,7 +721,9 @@ void parse_ixml_charset(XMQParseState *state)
     nt->charset = state->ixml_charset;
     state->ixml_charset = NULL;
     add_yaep_nonterminal(state, nt);
-    add_yaep_term_to_rule(state, tmark, NULL, nt);
+    // The rule of the charset is never visible, the tmark is applied to its characters.
+    add_yaep_term_to_rule(state, '-', NULL, nt);
+    state->ixml_mark = '-';
 }
 
 void parse_ixml_comment(XMQParseState *state)
@@ -874,7 +877,7 @@ void parse_ixml_group(XMQParseState *state)
 
     parse_ixml_whitespace(state);
 
-    if (is_ixml_alt_start(state) || is_ixml_group_end(state))
+    if (is_ixml_alt_start(state) || is_ixml_alt_end(*(state->i)) || is_ixml_group_end(state))
     {
         IXMLNonTerminal *nt = new_ixml_nonterminal();
         nt->name = generate_rule_name(state);
@@ -911,6 +914,9 @@ void parse_ixml_group(XMQParseState *state)
 
     parse_ixml_whitespace(state);
 
+    // A group has no mark.
+    state->ixml_mark = 0;
+
     IXML_DONE(factor, state);
 }
 
@@ -984,6 +990,9 @@ void parse_ixml_insertion(XMQParseState *state)
         longjmp(state->error_handler, 1);
     }
 
+    // An insertion has no mark.
+    state->ixml_mark = 0;
+
     IXML_DONE(insertion, state);
 }
 
-- 
2.43.0


From 236dd1c65ab41f2d0f353f27ce8a267de2fef587 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 53/74] fix: a JSON key that only begins with _xmlns is an
 attribute, not a namespace declaration

---
 src/main/c/parts/json.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/c/parts/json.c b/src/main/c/parts/json.c
index d9a827f..07b56ad 100644
--- a/src/main/c/parts/json.c
+++ b/src/main/c/parts/json.c
@@ -439,7 +439,8 @@ void parse_json_quote(XMQParseState *state, const char *key_start, const char *k
     if (*key_start == '_' && key_stop > key_start+1)
     {
         // Check if this is an xmlns ns declaration.
-        if (key_start+6 <= key_stop && !strncmp(key_start, "_xmlns", 6))
+        if (key_start+6 <= key_stop && !strncmp(key_start, "_xmlns", 6) &&
+            (key_start+6 == key_stop || key_start+6 == colon))
         {
             // Declaring the use of a namespace.
             if (colon)
-- 
2.43.0


From 7c39cfd10fb46661967ebea5459e0cf47e41abff Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:12:01 +0000
Subject: [PATCH 54/74] fix: an error message that quotes the source is not a
 format string

---
 src/main/c/xmq-cli.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 5a0806b..86ac4a1 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -1102,7 +1102,7 @@ bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command
             if (!ok)
             {
                 const char *error = xmqDocError(doq);
-                fprintf(stderr, error, command->in);
+                fprintf(stderr, "%s", error);
                 xmqFreeDoc(doq);
                 return false;
             }
@@ -1156,7 +1156,7 @@ bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command
             if (!ok)
             {
                 const char *error = xmqDocError(doq);
-                fprintf(stderr, error, command->in);
+                fprintf(stderr, "%s", error);
                 xmqFreeDoc(doq);
                 return false;
             }
@@ -1901,7 +1901,7 @@ bool cmd_load(XMQCliCommand *command)
         {
             const char *error = xmqDocError(command->env->doc);
             if (error) {
-                fprintf(stderr, error, command->in);
+                fprintf(stderr, "%s", error);
             }
             xmqFreeDoc(command->env->doc);
             command->env->doc = NULL;
@@ -2299,7 +2299,7 @@ bool cmd_add(XMQCliCommand *command)
     if (!ok)
     {
         const char *error = xmqDocError(doq);
-        fprintf(stderr, error, command->in);
+        fprintf(stderr, "%s", error);
         xmqFreeDoc(doq);
         return false;
     }
@@ -3932,7 +3932,7 @@ xmqDocDefaultLoaderFunc(const xmlChar * URI,
     {
         const char *error = xmqDocError(doq);
         if (error) {
-            fprintf(stderr, error, URI);
+            fprintf(stderr, "%s", error);
         }
         xmqFreeDoc(doq);
         return NULL;
-- 
2.43.0


From b372c29af50b77af995902b7426071535b029cfd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:12:01 +0000
Subject: [PATCH 55/74] fix: delete does not use the deleted nodes afterwards,
 nor free the document

---
 src/main/c/xmq-cli.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 86ac4a1..986876c 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -2563,10 +2563,18 @@ bool delete_xpath(XMQCliCommand *command)
     // Unlink in reverse order which means unlink deeper nodes first.
     for(int i = size-1; i >= 0; i--)
     {
-        assert(nodes->nodeTab[i]);
+        xmlNode *n = nodes->nodeTab[i];
+        assert(n);
+
+        // The document itself and namespace nodes cannot be deleted.
+        if (n->type == XML_DOCUMENT_NODE ||
+            n->type == XML_HTML_DOCUMENT_NODE ||
+            n->type == XML_NAMESPACE_DECL) continue;
 
-        xmlUnlinkNode(nodes->nodeTab[i]);
-        xmlFreeNode(nodes->nodeTab[i]);
+        // Freeing the xpath object must not look at the freed node.
+        nodes->nodeTab[i] = NULL;
+        xmlUnlinkNode(n);
+        xmlFreeNode(n);
     }
 
     xmlXPathFreeObject(objects);
-- 
2.43.0


From e84afc4171c2b423fee7289019fe9b2d8f8becf5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:12:01 +0000
Subject: [PATCH 56/74] fix: delete-entity deletes the entities in attributes
 too

---
 src/main/c/xmq-cli.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 986876c..be03012 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -2509,6 +2509,19 @@ void delete_all_entities(XMQDoc *doq, xmlNode *node, const char *entity)
         return;
     }
 
+    xmlAttr *a = is_element_node(node) ? xml_first_attribute(node) : NULL;
+    while (a)
+    {
+        xmlNode *j = a->children;
+        while (j)
+        {
+            xmlNode *next = j->next; // j might be freed in delete_all_entities.
+            delete_all_entities(doq, j, entity);
+            j = next;
+        }
+        a = xml_next_attribute(a);
+    }
+
     xmlNode *i = node->children;
     while (i)
     {
-- 
2.43.0


From b2a695e0526aaeaa26caa44c420382beb00eb958 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:12:01 +0000
Subject: [PATCH 57/74] fix: replace-entity does not take the declarations of a
 doctype for attributes

---
 src/main/c/xmq-cli.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index be03012..2d3a8df 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -2641,7 +2641,8 @@ xmlNode *replace_entity(xmlDoc *doc, xmlNode *node, const char *entity, const ch
         return next;
     }
 
-    xmlAttr *a = xml_first_attribute(node);
+    // Only an element has attributes, a doctype and its declarations do not.
+    xmlAttr *a = is_element_node(node) ? xml_first_attribute(node) : NULL;
     while (a)
     {
         if (a->children != NULL)
-- 
2.43.0


From 6e8614185acecd23aed2d6d8165fd7554b16b197 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:12:01 +0000
Subject: [PATCH 58/74] fix: replace and substitute work on empty documents,
 all top level nodes and attributes

---
 src/main/c/xmq-cli.c | 53 +++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 2d3a8df..9911ecd 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -349,6 +349,7 @@ const char *render_format_to_string(XMQRenderFormat rt);
 xmlNodePtr replace_entity(xmlDoc *doc, xmlNodePtr node, const char *entity, const char *content, xmlNodePtr node_content);
 void replace_entities(xmlDoc *doc, const char *entity, const char *content, xmlNodePtr node_content);
 void substitute_entity(xmlDoc *doc, xmlNodePtr node, const char *entity, bool only_chars);
+void substitute_entities(xmlDoc *doc, const char *entity, bool only_chars);
 bool query_xterm_bgcolor();
 XMQRenderStyle terminal_render_theme(bool *use_color, bool *bg_dark_mode);
 void restoreStdinTerminal();
@@ -1115,10 +1116,8 @@ bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command
             {
                 // We want to be able to use char entities in the xslq by default.
                 // So we replace any explicit &#10; with actual newlines etc.
-                xmlNodePtr root = xmlDocGetRootElement(xslt);
-                while (root->prev) root = root->prev;
                 // Replace all char entities! I.e. &#10; is replaced with a newline.
-                substitute_entity(xslt, root, NULL, true);
+                substitute_entities(xslt, NULL, true);
             }
             command->xslt_doq = doq;
             command->xslt = xsltParseStylesheetDoc(xslt);
@@ -2534,8 +2533,8 @@ void delete_all_entities(XMQDoc *doq, xmlNode *node, const char *entity)
 void delete_entities(XMQDoc *doq, const char *entity)
 {
     xmlDocPtr doc = (xmlDocPtr)xmqGetImplementationDoc(doq);
+    if (!doc) return;
     xmlNodePtr i = doc->children;
-    if (!doq || !i) return;
 
     while (i)
     {
@@ -2667,23 +2666,19 @@ xmlNode *replace_entity(xmlDoc *doc, xmlNode *node, const char *entity, const ch
 
 void replace_entities(xmlDoc *doc, const char *entity, const char *content, xmlNodePtr node_content)
 {
-    xmlNodePtr i = doc->children;
-    if (!doc || !i) return;
+    if (!doc) return;
 
+    xmlNodePtr i = doc->children;
     while (i)
     {
-        replace_entity(doc, i, entity, content, node_content);
-        i = i->next;
+        // The entity might itself be replaced.
+        i = replace_entity(doc, i, entity, content, node_content);
     }
 }
 
 bool cmd_replace(XMQCliCommand *command)
 {
     xmlDocPtr doc = (xmlDocPtr)xmqGetImplementationDoc(command->env->doc);
-    xmlNodePtr root = xmlDocGetRootElement(doc);
-
-    while (root->prev) root = root->prev;
-    assert(root != NULL);
 
     if (command->xpath)
     {
@@ -2738,6 +2733,19 @@ void substitute_entity(xmlDoc *doc, xmlNode *node, const char *entity, bool only
         return;
     }
 
+    xmlAttr *a = is_element_node(node) ? xml_first_attribute(node) : NULL;
+    while (a)
+    {
+        xmlNode *j = a->children;
+        while (j)
+        {
+            xmlNode *next = j->next;
+            substitute_entity(doc, j, entity, only_chars);
+            j = next;
+        }
+        a = xml_next_attribute(a);
+    }
+
     xmlNode *i = node->children;
     while (i)
     {
@@ -2747,25 +2755,34 @@ void substitute_entity(xmlDoc *doc, xmlNode *node, const char *entity, bool only
     }
 }
 
+void substitute_entities(xmlDoc *doc, const char *entity, bool only_chars)
+{
+    if (!doc) return;
+
+    xmlNode *i = doc->children;
+    while (i)
+    {
+        xmlNode *next = i->next;
+        substitute_entity(doc, i, entity, only_chars);
+        i = next;
+    }
+}
+
 bool cmd_substitute(XMQCliCommand *command)
 {
     xmlDocPtr doc = (xmlDocPtr)xmqGetImplementationDoc(command->env->doc);
-    xmlNodePtr root = xmlDocGetRootElement(doc);
-
-    while (root->prev) root = root->prev;
-    assert(root != NULL);
 
     if (command->cmd == XMQ_CLI_CMD_SUBSTITUTE_ENTITY)
     {
         verbose_("xmq=", "substituting entity %s", command->entity);
 
-        substitute_entity(doc, root, command->entity, false);
+        substitute_entities(doc, command->entity, false);
     }
     if (command->cmd == XMQ_CLI_CMD_SUBSTITUTE_CHAR_ENTITIES)
     {
         verbose_("xmq=", "substituting all char entities");
 
-        substitute_entity(doc, root, NULL, true);
+        substitute_entities(doc, NULL, true);
     }
 
     return true;
-- 
2.43.0


From fba802b33212e86819b6962c1bc0196431599cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:12:01 +0000
Subject: [PATCH 59/74] fix: select and for-each handle matches without an
 element and several matches in the same element

---
 src/main/c/xmq-cli.c | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 9911ecd..36c75e1 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -59,6 +59,7 @@ char *strndup(const char *s, size_t l);
 #include<libxml/tree.h>
 #include<libxml/xpath.h>
 #include<libxml/xpathInternals.h>
+#include<libxml/xpathInternals.h>
 #include<libxml/xmlschemas.h>
 #include<libxml/parserInternals.h>
 #include<libxslt/documents.h>
@@ -2216,17 +2217,36 @@ bool cmd_select(XMQCliCommand *command)
     xmlNodeSetPtr nodes = objects->nodesetval;
     int size = (nodes) ? nodes->nodeNr : 0;
 
-    // Copy and unlink in reverse order which means copy unlink deeper nodes first.
-    for(int i = size-1; i >= 0; i--)
+    // Several matches, like the attributes of an element, can stand for the same node. Sort them to find these.
+    xmlNodeSetPtr selected = xmlXPathNodeSetCreate(NULL);
+    for(int i = 0; i < size; i++)
     {
         assert(nodes->nodeTab[i]);
         xmlNode *n = nodes->nodeTab[i];
 
+        // A namespace node is not a real node, it points to its element.
+        if (n->type == XML_NAMESPACE_DECL) n = (xmlNode*)((xmlNs*)n)->next;
+
         while (n && !is_element_node(n) && !is_content_node(n))
         {
             // We found an attribute move to parent.
             n = n->parent;
         }
+        if (n) xmlXPathNodeSetAddUnique(selected, n);
+    }
+    xmlXPathNodeSetSort(selected);
+    // Free the xpath object before its nodes are freed.
+    xmlXPathFreeObject(objects);
+    xmlXPathFreeContext(ctx);
+
+    // Copy and unlink in reverse order which means copy unlink deeper nodes first.
+    xmlNode *prev = NULL;
+    for(int i = selected->nodeNr-1; i >= 0; i--)
+    {
+        xmlNode *n = selected->nodeTab[i];
+        if (n == prev) continue;
+        prev = n;
+
         xmlNodePtr new_node = xmlCopyNode(n, 1);
         xml_add_root_child(new_doc, new_node);
 
@@ -2234,8 +2254,9 @@ bool cmd_select(XMQCliCommand *command)
         xmlFreeNode(n);
     }
 
-    xmlXPathFreeObject(objects);
-    xmlXPathFreeContext(ctx);
+    // The nodes are gone.
+    selected->nodeNr = 0;
+    xmlXPathFreeNodeSet(selected);
 
     xmlFreeDoc(doc);
     xmqSetImplementationDoc(command->env->doc, new_doc);
@@ -2268,15 +2289,15 @@ bool cmd_for_each(XMQCliCommand *command)
         assert(nodes->nodeTab[i]);
         xmlNode *n = nodes->nodeTab[i];
 
-        if (n)
+        // A namespace node is not a real node, it points to its element.
+        if (n->type == XML_NAMESPACE_DECL) n = (xmlNode*)((xmlNs*)n)->next;
+
+        while (n && !is_element_node(n))
         {
-            while (n && !is_element_node(n))
-            {
-                // We found an attribute move to parent.
-                n = n->parent;
-            }
-            invoke_shell(n, command->content);
+            // We found an attribute move to parent.
+            n = n->parent;
         }
+        if (n) invoke_shell(n, command->content);
     }
 
     xmlXPathFreeObject(objects);
-- 
2.43.0


From 146014fd2c9d67e8bb4b6e5ddc5a19345f95ede3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:12:42 +0000
Subject: [PATCH 60/74] fix: a node added to a document knows its document

---
 src/main/c/parts/xml.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/c/parts/xml.c b/src/main/c/parts/xml.c
index 4b37359..6d9bc8e 100644
--- a/src/main/c/parts/xml.c
+++ b/src/main/c/parts/xml.c
@@ -301,6 +301,10 @@ int decode_entity_ref(const char *name)
 
 void xml_add_root_child(xmlDoc *doc, xmlNode *node)
 {
+    // Without these links the node cannot be unlinked from the document.
+    xmlSetTreeDoc(node, doc);
+    node->parent = (xmlNode*)doc;
+
     if (doc->children == NULL)
     {
         doc->children = node;
-- 
2.43.0


From ceecff0d79e29c65fdea2a3a4bf05a266bd19b49 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:24:09 +0000
Subject: [PATCH 61/74] fix: for-each passes on the entities of the content,
 and its child ends when there is no shell

---
 src/main/c/xmq-cli.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 36c75e1..b448f2e 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -3341,7 +3341,19 @@ void append_text_node(MemBuffer *buf, xmlNode *node)
     }
     else if (is_entity_node(node))
     {
-        membuffer_append(buf, "TODO");
+        int uc = decode_entity_ref((const char*)node->name);
+        if (uc == 0)
+        {
+            membuffer_append(buf, "&");
+            membuffer_append(buf, (const char*)node->name);
+            membuffer_append(buf, ";");
+        }
+        else
+        {
+            UTF8Char utf8;
+            size_t n = encode_utf8(uc, &utf8);
+            membuffer_append_region(buf, utf8.bytes, utf8.bytes+n);
+        }
     }
     else if (is_element_node(node))
     {
@@ -3383,9 +3395,9 @@ char *grab_content(xmlNode *n, const char *name)
                 xmlNode *j = i->children;
                 while (j)
                 {
-                    if (is_text_node(j))
+                    if (!is_element_node(j))
                     {
-                        membuffer_append(buf, (char*)j->content);
+                        append_text_node(buf, j);
                     }
                     j = j->next;
                 }
@@ -3451,7 +3463,7 @@ void invoke_shell(xmlNode *n, const char *shell_command)
     char **env = (void*)free_membuffer_but_return_trimmed_content(envbuf);
 
     pid_t pid = fork();
-    int status;
+    int status = 0;
     if (pid == 0)
     {
         // I am the child!
@@ -3463,6 +3475,7 @@ void invoke_shell(xmlNode *n, const char *shell_command)
 #endif
         perror("Execvp failed:");
         //error_("(shell) invoking %s failed!\n", program.c_str());
+        _exit(127);
     } else {
         if (pid == -1) {
             perror("(shell) could not fork!\n");
-- 
2.43.0


From 7c7f418035b02a5f25c855f44735f1bcac69a76e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:29:48 +0000
Subject: [PATCH 62/74] fix: refuse commands without their arguments or
 document, fail when the output cannot be saved

---
 src/main/c/xmq-cli.c | 62 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 59 insertions(+), 3 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index b448f2e..8fd94f8 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -327,6 +327,7 @@ void find_next_page(const char **line_offset, const char **in_line_offset, const
 void find_prev_page(const char **line_offset, const char **in_line_offset, const  char *start, const char *stop, int width, int height);
 void find_next_line(const char **line_offset, const char **in_line_offset, const  char *start, const char *stop, int width);
 void find_prev_line(const char **line_offset, const char **in_line_offset, const  char *start, const char *stop, int width);
+bool check_arguments(XMQCliCommand *load_command);
 bool has_log_xmq(int argc, const char **argv);
 bool has_trace(int argc, const char **argv);
 bool has_debug(int argc, const char **argv);
@@ -1812,6 +1813,7 @@ bool cmd_load(XMQCliCommand *command)
     }
 
     if (command->in &&
+        !command->in_is_content &&
         command->in[0] == '-' &&
         command->in[1] == 0)
     {
@@ -2016,15 +2018,21 @@ bool cmd_output(XMQCliCommand *command)
             return false;
         }
         size_t wrote = fwrite(command->env->out_start + command->env->out_skip, 1, len, f);
-        if (wrote != len)
+        bool ok = wrote == len;
+        if (!ok)
         {
             fprintf(stderr, "xmq: Failed to write all bytes to %s wrote %zu but expected %zu\n",
                     command->save_file, wrote, len);
         }
         free(command->env->out_start);
-        fclose(f);
+        // The last bytes might be written when the file is closed.
+        if (fclose(f) != 0 && ok)
+        {
+            fprintf(stderr, "xmq: %s: Failed to write file\n", command->save_file);
+            ok = false;
+        }
 
-        return true;
+        return ok;
     }
 
     return false;
@@ -2087,6 +2095,7 @@ bool cmd_quote_unquote(XMQCliCommand *command)
     if (command->cmd == XMQ_CLI_CMD_QUOTE_C)
     {
         char *value = (char*)xmlNodeListGetString(doc, doc->children, 1);
+        if (!value) value = (char*)xmlStrdup((const xmlChar*)"");
         char *quoted_value = xmq_quote_as_c(value, value+strlen(value), true);
         xmlFree(value);
 
@@ -2115,6 +2124,7 @@ bool cmd_quote_unquote(XMQCliCommand *command)
     if (command->cmd == XMQ_CLI_CMD_UNQUOTE_C)
     {
         char *value = (char*)xmlNodeListGetString(doc, doc->children, 1);
+        if (!value) value = (char*)xmlStrdup((const xmlChar*)"");
         char *unquoted_value = xmq_unquote_as_c(value, value+strlen(value), true);
         xmlFree(value);
 
@@ -3859,6 +3869,52 @@ bool xmq_parse_cmd_line(int argc, const char **argv, XMQCliCommand *load_command
         verbose_("xmq=", "added print command");
     }
 
+    return check_arguments(load_command);
+}
+
+/**
+   check_arguments:
+
+   Check that each command got the arguments it needs, and that there is a document for it.
+*/
+bool check_arguments(XMQCliCommand *load_command)
+{
+    if (load_command->cmd == XMQ_CLI_CMD_LOAD && load_command->in_is_content &&
+        !load_command->no_input && load_command->in == NULL)
+    {
+        fprintf(stderr, "xmq: missing content after -i\n");
+        return false;
+    }
+
+    for (XMQCliCommand *c = load_command->next; c; c = c->next)
+    {
+        XMQCliCmdGroup group = cmd_group(c->cmd);
+        const char *missing = NULL;
+
+        if (group == XMQ_CLI_CMD_GROUP_XPATH && !c->xpath) missing = c->cmd == XMQ_CLI_CMD_ADD_ROOT ? "name" : "xpath";
+        if (group == XMQ_CLI_CMD_GROUP_ADD_XMQ && !c->add_xmq) missing = "xmq";
+        if (group == XMQ_CLI_CMD_GROUP_FOR_EACH && !c->content) missing = "--shell=<command>";
+        if (group == XMQ_CLI_CMD_GROUP_FOR_EACH && !c->xpath) missing = "xpath";
+        if (c->cmd == XMQ_CLI_CMD_REPLACE_ENTITY && !c->content && !c->node_content) missing = "content";
+        if (group == XMQ_CLI_CMD_GROUP_ENTITY && !c->entity) missing = "entity";
+        if (c->cmd == XMQ_CLI_CMD_SUBSTITUTE_ENTITY && !c->entity) missing = "entity";
+
+        if (missing)
+        {
+            fprintf(stderr, "xmq: command \"%s\" is missing its argument %s\n", cmd_name(c->cmd), missing);
+            return false;
+        }
+
+        // The tokenize command does not load any document.
+        if (load_command->cmd != XMQ_CLI_CMD_LOAD &&
+            group != XMQ_CLI_CMD_GROUP_TOKENIZE &&
+            group != XMQ_CLI_CMD_GROUP_OUTPUT &&
+            group != XMQ_CLI_CMD_GROUP_HELP)
+        {
+            fprintf(stderr, "xmq: you cannot use the command \"%s\" together with tokenize.\n", cmd_name(c->cmd));
+            return false;
+        }
+    }
     return true;
 }
 
-- 
2.43.0


From 2d5b23e8e81b3dafee4cceec68226fff2cc33dbd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 63/74] fix: text and clines output show the entities, also in
 attributes, and skip doctypes

---
 src/main/c/parts/xml.c | 19 +++++++++++++++++++
 src/main/c/parts/xml.h |  2 ++
 src/main/c/xmq.c       | 25 +++++++++++++------------
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/main/c/parts/xml.c b/src/main/c/parts/xml.c
index 6d9bc8e..363a836 100644
--- a/src/main/c/parts/xml.c
+++ b/src/main/c/parts/xml.c
@@ -283,6 +283,25 @@ char *xml_collapse_text(xmlNode *node)
     return buf;
 }
 
+char *xml_entity_text(const xmlNode *node)
+{
+    const char *name = (const char*)node->name;
+    char *buf = (char*)malloc(strlen(name)+1+MAX_NUM_UTF8_BYTES+2);
+    int uc = decode_entity_ref(name);
+    if (uc == 0)
+    {
+        sprintf(buf, "&%s;", name);
+    }
+    else
+    {
+        UTF8Char utf8;
+        size_t n = encode_utf8(uc, &utf8);
+        memcpy(buf, utf8.bytes, n);
+        buf[n] = 0;
+    }
+    return buf;
+}
+
 int decode_entity_ref(const char *name)
 {
     if (!strcmp(name, "amp")) return '&';
diff --git a/src/main/c/parts/xml.h b/src/main/c/parts/xml.h
index 513a84d..96dc94a 100644
--- a/src/main/c/parts/xml.h
+++ b/src/main/c/parts/xml.h
@@ -58,6 +58,8 @@ bool is_leaf_node(xmlNode *node);
 bool has_attributes(xmlNodePtr node);
 char *xml_collapse_text(xmlNode *node);
 int decode_entity_ref(const char *name);
+// The character of a character entity, or &name; for any other entity. Must be freed.
+char *xml_entity_text(const xmlNode *node);
 void xml_add_root_child(xmlDoc *doc, xmlNode *node);
 
 #define XML_MODULE
diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 76d6a27..1bebdaa 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -2846,9 +2846,9 @@ void text_print_node(XMQPrintState *ps, xmlNode *node)
     }
     else if (is_entity_node(node))
     {
-        const char *name = xml_element_name(node);
-        write(writer_state, "<ENTITY>", NULL);
-        write(writer_state, name, NULL);
+        char *text = xml_entity_text(node);
+        write(writer_state, text, NULL);
+        free(text);
     }
     else if (is_element_node(node))
     {
@@ -2900,23 +2900,25 @@ void cline_print_node(XMQPrintState *ps, xmlNode *node)
     XMQWrite write = output_settings->content.write;
     void *writer_state = output_settings->content.writer_state;
 
-    if (has_attributes(node))
+    // Only an element has attributes, a doctype does not.
+    if (is_element_node(node) && has_attributes(node))
     {
         cline_print_attributes(ps, node);
     }
-    if (is_content_node(node))
+    if (is_content_node(node) || is_entity_node(node))
     {
         cline_print_xpath(ps, node->parent);
         write(writer_state, "=", NULL);
-        const char *content = xml_element_content(node);
+        char *content = is_entity_node(node) ? xml_entity_text(node) : strdup(xml_element_content(node));
         char *q = xmq_quote_as_c(content, NULL, false);
+        free(content);
         write(writer_state, "\"", NULL);
         write(writer_state, q, NULL);
         write(writer_state, "\"", NULL);
         free(q);
         write(writer_state, "\n", NULL);
     }
-    else if (node->children)
+    else if (is_element_node(node) && node->children)
     {
         cline_print_nodes(ps, node->children);
     }
@@ -2925,9 +2927,6 @@ void cline_print_node(XMQPrintState *ps, xmlNode *node)
         cline_print_xpath(ps, node);
         write(writer_state, "=\"\"\n", NULL);
     }
-    else if (is_entity_node(node))
-    {
-    }
 }
 
 void cline_print_nodes(XMQPrintState *ps, xmlNode *from)
@@ -2970,11 +2969,13 @@ void cline_print_attr(XMQPrintState *ps, xmlAttr *a)
 
     if (a->children != NULL)
     {
-        char *value = (char*)xmlNodeListGetString(a->doc, a->children, 1);
+        // The value can have entities.
+        char *value = xml_collapse_text((xmlNode*)a);
+        if (!value) value = strdup((const char*)a->children->content);
         char *quoted_value = xmq_quote_as_c(value, value+strlen(value), true);
         print_utf8(ps, COLOR_none, 1, quoted_value, NULL);
         free(quoted_value);
-        xmlFree(value);
+        free(value);
     }
     else
     {
-- 
2.43.0


From 8230a543c5fe0a755a9d87aef82f1dbf73112cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 64/74] fix: replace-entity inserts every node of a file, and
 only its text in an attribute

---
 src/main/c/xmq-cli.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 8fd94f8..72a6142 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -2626,6 +2626,27 @@ bool delete_xpath(XMQCliCommand *command)
     return true;
 }
 
+/* Insert copies of content and its siblings before node. Return the last inserted node, or last if there is none. */
+xmlNode *insert_content(xmlNode *node, xmlNode *content, xmlNode *last)
+{
+    bool in_attribute = node->parent && is_attribute_node(node->parent);
+
+    for (xmlNodePtr i = content; i; i = i->next)
+    {
+        if (is_doctype_node(i)) continue;
+        if (!in_attribute || is_content_node(i) || is_entity_node(i))
+        {
+            last = xmlAddPrevSibling(node, xmlCopyNode(i, 1));
+        }
+        else if (is_element_node(i))
+        {
+            // An attribute can only store the text of the element.
+            last = insert_content(node, i->children, last);
+        }
+    }
+    return last;
+}
+
 xmlNode *replace_entity(xmlDoc *doc, xmlNode *node, const char *entity, const char *content, xmlNodePtr node_content)
 {
     if (!node) return NULL;
@@ -2646,11 +2667,12 @@ xmlNode *replace_entity(xmlDoc *doc, xmlNode *node, const char *entity, const ch
             }
             else if (node_content)
             {
-                xmlNodePtr new_node = xmlCopyNode(node_content, 1);
-                xmlReplaceNode(node, new_node);
+                xmlNodePtr new_node = insert_content(node, node_content, NULL);
+                next = node->next;
+                xmlUnlinkNode(node);
                 xmlFreeNode(node);
+                if (!new_node) return next;
                 node = new_node;
-                next = node->next;
             }
             else
             {
-- 
2.43.0


From 335324fd4ce45af996097761653f778fb4ecddcf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:24:32 +0000
Subject: [PATCH 65/74] fix: do not give the writer a missing part (colors
 without a start or end)

---
 src/main/c/parts/xmq_internals.c | 2 +-
 src/main/c/parts/xmq_printer.c   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/c/parts/xmq_internals.c b/src/main/c/parts/xmq_internals.c
index dabb9c9..67f228c 100644
--- a/src/main/c/parts/xmq_internals.c
+++ b/src/main/c/parts/xmq_internals.c
@@ -340,7 +340,7 @@ void print_color_post(XMQPrintState *ps, XMQColor color)
     {
         write(writer_state, post, NULL);
     }
-    else
+    else if (ps->replay_active_color_pre)
     {
         write(writer_state, ps->replay_active_color_pre, NULL);
     }
diff --git a/src/main/c/parts/xmq_printer.c b/src/main/c/parts/xmq_printer.c
index 1a44051..98d548d 100644
--- a/src/main/c/parts/xmq_printer.c
+++ b/src/main/c/parts/xmq_printer.c
@@ -584,13 +584,13 @@ void print_explicit_spaces(XMQPrintState *ps, XMQColor c, int num)
     const char *post = NULL;
     getThemeStrings(os, c, &pre, &post);
 
-    write(writer_state, pre, NULL);
+    if (pre) write(writer_state, pre, NULL);
     for (int i=0; i<num; ++i)
     {
         write(writer_state, os->explicit_space, NULL);
     }
     ps->current_indent += num;
-    write(writer_state, post, NULL);
+    if (post) write(writer_state, post, NULL);
 }
 
 void print_quoted_spaces(XMQPrintState *ps, XMQColor color, int num)
-- 
2.43.0


From 560544230413e94125aacf512f3e107f0b6f9a2c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:24:52 +0000
Subject: [PATCH 66/74] fix: XML and HTML are printed with any writer, not only
 to memory

---
 src/main/c/xmq.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 1bebdaa..70f58b2 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -2769,9 +2769,17 @@ void xmq_print_xml(XMQDoc *doq, XMQOutputSettings *output_settings)
                         &size,
                         "utf-8");
 
-    membuffer_reuse(output_settings->output_buffer,
-                    (char*)buffer,
-                    size);
+    if (output_settings->output_buffer)
+    {
+        membuffer_reuse(output_settings->output_buffer,
+                        (char*)buffer,
+                        size);
+    }
+    else
+    {
+        output_settings->content.write(output_settings->content.writer_state, (char*)buffer, (char*)buffer+size);
+        xmlFree(buffer);
+    }
 
     debug("xmq=", "xmq_print_xml wrote %zu bytes", size);
 }
@@ -2784,9 +2792,8 @@ void xmq_print_html(XMQDoc *doq, XMQOutputSettings *output_settings)
     {
         htmlDocContentDumpOutput(out, doq->docptr_.html, "utf8");
         const xmlChar *buffer = xmlBufferContent((xmlBuffer *)out->buffer);
-        MemBuffer *membuf = output_settings->output_buffer;
-        membuffer_append(membuf, (char*)buffer);
-        debug("xmq=", "xmq_print_html wrote %zu bytes", membuf->used_);
+        output_settings->content.write(output_settings->content.writer_state, (char*)buffer, NULL);
+        debug("xmq=", "xmq_print_html wrote %zu bytes", strlen((char*)buffer));
         xmlOutputBufferClose(out);
     }
     /*
-- 
2.43.0


From 888660a79a86c3b17cece417740b5fe9ea4322b0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:24:52 +0000
Subject: [PATCH 67/74] fix: clines gives the writer no missing name for the
 document

---
 src/main/c/xmq.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index 70f58b2..cbc02bb 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -2898,7 +2898,9 @@ void cline_print_xpath(XMQPrintState *ps, xmlNode *node)
         cline_print_xpath(ps, node->parent);
         write(writer_state, "/", NULL);
     }
-    write(writer_state, xml_element_name(node), NULL);
+    // The document itself has no name.
+    const char *name = xml_element_name(node);
+    if (name) write(writer_state, name, NULL);
 }
 
 void cline_print_node(XMQPrintState *ps, xmlNode *node)
-- 
2.43.0


From e7d1f176e76f148e9c8dfb17b27e9928c8150942 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:24:52 +0000
Subject: [PATCH 68/74] fix: omit-decl leaves out the whole declaration,
 whatever it holds

---
 src/main/c/xmq.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/c/xmq.c b/src/main/c/xmq.c
index cbc02bb..f413b55 100644
--- a/src/main/c/xmq.c
+++ b/src/main/c/xmq.c
@@ -3080,8 +3080,9 @@ void xmqPrint(XMQDoc *doq, XMQOutputSettings *output_settings)
             *output_settings->output_skip = 0;
             if (output_settings->output_format == XMQ_CONTENT_XML && output_settings->omit_decl)
             {
-                // Skip <?xml version="1.0" encoding="utf-8"?>\n
-                *output_settings->output_skip = 39;
+                // Skip <?xml version="1.0" encoding="utf-8"?>\n or with any other declaration.
+                const char *nl = size > 5 && !strncmp(buffer, "<?xml", 5) ? memchr(buffer, '\n', size) : NULL;
+                if (nl) *output_settings->output_skip = nl+1-buffer;
             }
         }
     }
-- 
2.43.0


From c5eed4e87016186b774ea0701a100e5d8694cd4c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:54:38 +0000
Subject: [PATCH 69/74] fix: page shows whole rows, finds the previous row and
 the end of short texts, and ends with its input

---
 src/main/c/xmq-cli.c | 134 ++++++++++---------------------------------
 1 file changed, 30 insertions(+), 104 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 72a6142..4beb60a 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -321,8 +321,6 @@ void disable_stdout_raw_input_mode();
 void enable_stdout_raw_input_mode();
 void enableAnsiColorsWindowsConsole();
 void enableRawStdinTerminal();
-const char *skip_ansi_backwards(const char *i, const char *start);
-size_t count_non_ansi_chars(const char *start, const char *stop);
 void find_next_page(const char **line_offset, const char **in_line_offset, const  char *start, const char *stop, int width, int height);
 void find_prev_page(const char **line_offset, const char **in_line_offset, const  char *start, const char *stop, int width, int height);
 void find_next_line(const char **line_offset, const char **in_line_offset, const  char *start, const char *stop, int width);
@@ -2943,55 +2941,6 @@ void prepare_command(XMQCliCommand *c, XMQCliCommand *load_command)
     }
 }
 
-size_t count_non_ansi_chars(const char *start, const char *stop)
-{
-    const char *i = start;
-    size_t n = 0;
-
-    while (i < stop)
-    {
-        if (*i == 27)
-        {
-            // Skip ansi escape sequence.
-            while (i < stop)
-            {
-                char c = *i++;
-                if (c == 'm') continue;
-            }
-        }
-        i++;
-        n++;
-    }
-
-    return n;
-}
-
-const char *skip_ansi_backwards(const char *i, const char *start)
-{
-    // An ansi escape looks like: \033[38m
-    if (*i != 'm') return i;
-    // Check that we have space to look for ansi. Minimum ansi: \033[0m which is 4 bytes.
-    if (i-4 < start) return i;
-    // Must be a digit before m.
-    if (!isdigit(*(i-1))) return i;
-
-    const char *org_i = i;
-    while (i > start)
-    {
-        char c = *i;
-        // Stop at [
-        if (c == '[') break;
-        // Abort if not digits nor ;
-        if (!isdigit(c) && c != ';') return org_i;
-        i--;
-    }
-    if (i <= start) return org_i;
-    i--;
-    if (i < start) return org_i;
-    if (*i != '\033') return org_i;
-    return i-1;
-}
-
 void print_until_newline(const char *info, const char *i, const char *stop);
 
 void print_until_newline(const char *info, const char *i, const char *stop)
@@ -3002,43 +2951,18 @@ void print_until_newline(const char *info, const char *i, const char *stop)
     fprintf(stderr, "%s >%.*s<\n", info, (int)n, start);
 }
 
-const char *skip_line_width_backwards(const char *lo, const char *ilo, const char *start, const char *stop, int width);
-
-const char *skip_line_width_backwards(const char *lo, const char *ilo, const char *start, const char *stop, int width)
-{
-    assert(width > 0);
-    const char *i = ilo;
-    while (i > start)
-    {
-        i = skip_ansi_backwards(i, start);
-        width--;
-        i--;
-        if (*i == '\n') return i+1; // This is an error....
-        if (i == lo) return i; // This is an error....
-        if (width == 0) return i; // Good, we skipped backwards in a wrapped line.
-    }
-    return start;
-}
-
 const char *find_prev_line_start(const char *lo, const char *ilo, const char *start, const char *stop);
 
 const char *find_prev_line_start(const char *lo, const char *ilo, const char *start, const char *stop)
 {
     if (ilo > lo) return lo;
+    if (lo <= start) return start;
     // *lo is the first character in the current line.
     // *(lo-1) is the newline ending the previous line.
-    // *(lo-2) is the last character on the previous line.
-    // Start searching from the last character on the previous line.
-    const char *i = lo-2;
-    while (i > start)
-    {
-        if (*i == '\n')
-        {
-            return i+1;
-        }
-        i--;
-    }
-    return start;
+    // Start searching from there for the newline before the previous line.
+    const char *i = lo-1;
+    while (i > start && *(i-1) != '\n') i--;
+    return i;
 }
 
 void find_prev_line(const char **line_offset,
@@ -3059,19 +2983,19 @@ void find_prev_line(const char **line_offset,
     const char *prev_lo = find_prev_line_start(lo, ilo, start, stop);
     // Prev_lo is now lo or the line before.
 
-    // How far is it from the prev line start to the ilo?
-    int diff = count_non_ansi_chars(prev_lo, ilo);
-
-    if (diff > width)
+    // Find the last row of this line that starts before ilo.
+    const char *row = prev_lo;
+    for (;;)
     {
-        // We have a wrapped line move backwards the width within the line.
-        *line_offset = prev_lo;
-        *in_line_offset = skip_line_width_backwards(lo, ilo, start, stop, width);
-        return;
+        const char *next_lo = prev_lo;
+        const char *next_row = row;
+        find_next_line(&next_lo, &next_row, start, stop, width);
+        if (next_row >= ilo || next_row == row) break;
+        row = next_row;
     }
 
     *line_offset = prev_lo;
-    *in_line_offset = prev_lo;
+    *in_line_offset = row;
 }
 
 void find_next_page(const char **line_offset, const char **in_line_offset, const  char *start, const char *stop, int width, int height)
@@ -3114,6 +3038,7 @@ void find_next_line(const char **line_offset, const char **in_line_offset, const
                 i++;
                 if (c == 'm') break;
             }
+            continue;
         }
 
         if (*i == '\n')
@@ -3123,13 +3048,13 @@ void find_next_line(const char **line_offset, const char **in_line_offset, const
             break;
         }
 
-        col++;
         if (col >= width)
         {
             // We reached a new wrapped line. Stop here.
             ilo = i;
             break;
         }
+        col++;
         i++;
     }
 
@@ -3144,8 +3069,8 @@ int get_char()
 {
 #ifndef PLATFORM_WINAPI
     unsigned char c;
-    size_t n = read(STDOUT_FILENO, &c, sizeof(char));
-    if (n == -1) return -1;
+    ssize_t n = read(STDOUT_FILENO, &c, sizeof(char));
+    if (n != 1) return -1;
     return c;
 #else
     return _getch();
@@ -3554,10 +3479,13 @@ void page(const char *start, const char *stop)
     }
 #ifndef PLATFORM_WINAPI
     struct winsize max;
-    ioctl(STDOUT_FILENO, TIOCGWINSZ , &max);
-    height = max.ws_row - 1;
-    width = max.ws_col;
-
+    height = 24;
+    width = 80;
+    if (ioctl(STDOUT_FILENO, TIOCGWINSZ , &max) == 0 && max.ws_row > 1 && max.ws_col > 0)
+    {
+        height = max.ws_row - 1;
+        width = max.ws_col;
+    }
 #else
     CONSOLE_SCREEN_BUFFER_INFO csbi;
 
@@ -3602,16 +3530,13 @@ void page(const char *start, const char *stop)
                 }
                 else
                 {
-                    col++;
                     if (col >= width)
                     {
                         row++;
                         col = 0;
-                        if (row >= height) {
-                            membuffer_append_char(buffer, *i);
-                            break;
-                        }
+                        if (row >= height) break;
                     }
+                    col++;
                 }
             }
             membuffer_append_char(buffer, *i);
@@ -3647,10 +3572,11 @@ void page(const char *start, const char *stop)
         }
         else if (key == CHARACTER && c == '>')
         {
-            line_offset = in_line_offset = stop-100;
+            line_offset = in_line_offset = stop;
+            find_prev_page(&line_offset, &in_line_offset, start, stop, width, height);
         }
         else if (key == CHARACTER &&
-                 (c == 27 || c == 'q' || c == 'Q'))
+                 (c == 27 || c == -1 || c == 'q' || c == 'Q'))
         {
             printf("\033[2K\r");
             break;
-- 
2.43.0


From 4dee12d49f8edce513a90021977f5bdd30bfc19f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:22:10 +0000
Subject: [PATCH 70/74] fix: a transform without result or stylesheet and
 validate without schema are errors

---
 src/main/c/xmq-cli.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 4beb60a..5837557 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -2072,9 +2072,6 @@ bool cmd_transform(XMQCliCommand *command)
         hashmap_free_iterator(i);
         free(params);
     }
-    xmlFreeDoc(doc);
-    xmqSetImplementationDoc(command->env->doc, new_doc);
-
     xsltFreeStylesheet(command->xslt);
     // The xslt free has freed the internal implementation doc as well.
     // Mark it as null to prevent double free.
@@ -2082,6 +2079,15 @@ bool cmd_transform(XMQCliCommand *command)
     xmqFreeDoc(command->xslt_doq);
     command->xslt = NULL;
 
+    if (!new_doc)
+    {
+        fprintf(stderr, "xmq: transform failed, there is no result\n");
+        return false;
+    }
+
+    xmlFreeDoc(doc);
+    xmqSetImplementationDoc(command->env->doc, new_doc);
+
     return true;
 }
 
@@ -2173,7 +2179,7 @@ bool cmd_validate(XMQCliCommand *command)
 
     if (ok != 0)
     {
-        printf("xmq: Document failed validation agains %s\n", command->in);
+        printf("xmq: Document failed validation against %s\n", command->xsd_name);
         return false;
     }
 
@@ -3845,6 +3851,8 @@ bool check_arguments(XMQCliCommand *load_command)
         if (group == XMQ_CLI_CMD_GROUP_FOR_EACH && !c->xpath) missing = "xpath";
         if (c->cmd == XMQ_CLI_CMD_REPLACE_ENTITY && !c->content && !c->node_content) missing = "content";
         if (group == XMQ_CLI_CMD_GROUP_ENTITY && !c->entity) missing = "entity";
+        if (group == XMQ_CLI_CMD_GROUP_TRANSFORM && !c->xslt) missing = "stylesheet";
+        if (group == XMQ_CLI_CMD_GROUP_VALIDATE && !c->xsd) missing = "schema";
         if (c->cmd == XMQ_CLI_CMD_SUBSTITUTE_ENTITY && !c->entity) missing = "entity";
 
         if (missing)
-- 
2.43.0


From 0d13252ced439beb8f0015592533ac998ebdd3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:24:39 +0000
Subject: [PATCH 71/74] fix: a COLORFGBG that ends with ; is not read past its
 end

---
 src/main/c/xmq-cli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 5837557..4cb6779 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -1411,7 +1411,7 @@ XMQRenderStyle terminal_render_theme(bool *use_color, bool *bg_dark_mode)
         // Or 15;0 or 7;0 etc
         const char *p = strrchr(colorfgbg, ';');
         // If the string ends with ;0 then it is dark mode.
-	if (p == NULL || (*(p+2) == 0 && *(p+1) == '0'))
+	if (p == NULL || !strcmp(p, ";0"))
 	{
 	    *use_color = true;
             *bg_dark_mode = true;
-- 
2.43.0


From 484119eabb49e608d5710585e65975912706379b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:25:13 +0000
Subject: [PATCH 72/74] fix: browse quotes the file name for the shell, and
 fails when the page cannot be written

---
 src/main/c/xmq-cli.c | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 4cb6779..a4c3909 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -334,7 +334,7 @@ bool handle_global_option(const char *arg, XMQCliCommand *command);
 bool handle_option(const char *arg, const char *arg_next, XMQCliCommand *command);
 void invoke_shell(xmlNode *n, const char *cmd);
 void page(const char *start, const char *stop);
-void browse(XMQCliCommand *c);
+bool browse(XMQCliCommand *c);
 void open_browser(const char *file);
 bool perform_command(XMQCliCommand *c);
 void prepare_command(XMQCliCommand *c, XMQCliCommand *load_command);
@@ -1996,9 +1996,9 @@ bool cmd_output(XMQCliCommand *command)
     if (command->cmd == XMQ_CLI_CMD_BROWSER)
     {
         verbose_("xmq=", "cmd-browser output");
-        browse(command);
+        bool ok = browse(command);
         free(command->env->out_start);
-        return true;
+        return ok;
     }
     if (command->cmd == XMQ_CLI_CMD_SAVE_TO)
     {
@@ -3108,9 +3108,25 @@ void open_browser(const char *file)
 #ifdef PLATFORM_WINAPI
     ShellExecute(NULL, "open", file, NULL, NULL, SW_SHOWNORMAL);
 #else
-    char buf[2049];
-    memset(buf, 0, 2049);
-    snprintf(buf, 2048, "open %s", file);
+    // Quote the file name, the shell must not interpret any character in it.
+    char buf[5000];
+    size_t n = 0;
+    memset(buf, 0, sizeof(buf));
+    strcpy(buf, "open '");
+    n = strlen(buf);
+    for (const char *i = file; *i && n < sizeof(buf)-6; ++i)
+    {
+        if (*i == '\'')
+        {
+            strcpy(buf+n, "'\\''");
+            n += 4;
+        }
+        else
+        {
+            buf[n++] = *i;
+        }
+    }
+    buf[n] = '\'';
     int rc = system(buf);
     if (rc != 0)
     {
@@ -3207,7 +3223,7 @@ KEY read_key(int *c)
 }
 
 
-void browse(XMQCliCommand *c)
+bool browse(XMQCliCommand *c)
 {
     const char *file;
 
@@ -3238,17 +3254,17 @@ void browse(XMQCliCommand *c)
     int fd = open(tmpfile, O_CREAT | O_TRUNC | O_NOFOLLOW | O_RDWR, 0666);
 #endif
     size_t len = c->env->out_stop - c->env->out_start - c->env->out_skip;
-    size_t wrote = write(fd, c->env->out_start, len);
+    size_t wrote = write(fd, c->env->out_start + c->env->out_skip, len);
     close(fd);
 
-    if (wrote == len)
-    {
-        open_browser(tmpfile);
-    }
-    else
+    if (wrote != len)
     {
         fprintf(stderr, "xmq: Failed to write content to %s\n", tmpfile);
+        return false;
     }
+
+    open_browser(tmpfile);
+    return true;
 }
 
 bool shell_safe(char *i)
-- 
2.43.0


From b8ad94b820fc004f30d555ebcfcd1c944a6ceb39 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:34:41 +0000
Subject: [PATCH 73/74] fix: name the word that is not a command

---
 src/main/c/xmq-cli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index a4c3909..44523ab 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -3719,7 +3719,7 @@ bool xmq_parse_cmd_line(int argc, const char **argv, XMQCliCommand *load_command
         command->cmd = cmd_from(argv[i]);
         if (command->cmd == XMQ_CLI_CMD_NONE)
         {
-            fprintf(stderr, "xmq: no such command \"%s\"\n", argv[i-1]);
+            fprintf(stderr, "xmq: no such command \"%s\"\n", argv[i]);
             exit(1);
         }
 
-- 
2.43.0


From 76610bcb0e93b80052d21a8a65720f225ab0d16c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:34:41 +0000
Subject: [PATCH 74/74] fix: page gives every utf8 character one column

---
 src/main/c/xmq-cli.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main/c/xmq-cli.c b/src/main/c/xmq-cli.c
index 44523ab..4c809a4 100644
--- a/src/main/c/xmq-cli.c
+++ b/src/main/c/xmq-cli.c
@@ -3054,13 +3054,16 @@ void find_next_line(const char **line_offset, const char **in_line_offset, const
             break;
         }
 
-        if (col >= width)
+        // The bytes after the first byte of a utf8 character take no column.
+        bool starts_char = (*i & 0xc0) != 0x80;
+
+        if (starts_char && col >= width)
         {
             // We reached a new wrapped line. Stop here.
             ilo = i;
             break;
         }
-        col++;
+        if (starts_char) col++;
         i++;
     }
 
@@ -3550,7 +3553,7 @@ void page(const char *start, const char *stop)
                     col = 0;
                     if (row >= height) break;
                 }
-                else
+                else if ((*i & 0xc0) != 0x80) // The rest of a utf8 character takes no column.
                 {
                     if (col >= width)
                     {
-- 
2.43.0

