#!/usr/bin/env python3
"""Source of properties.jsonl: run to regenerate it."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'src/main/c/'
L = []
def p(id, title, statement, text, why, files, mech, over=('inputs',), obs=()):
    assert len(title) <= 80, title
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
      anchors=dict(files=[C + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(obs), hook_needed=None)))

p('C01', 'UTF-8 encoding and decoding are inverse and never read outside the text',
  'Encoding any Unicode code point gives its UTF-8 byte sequence and decoding that sequence gives the code point back with the same length. Decoding, measuring and peeking at arbitrary bytes never reads outside of the buffer, always advances, and never reports a character that is not there.',
  'every code point 0..0x10FFFF, and every byte string up to the bound with every position in it',
  'Tests decode a few literals; the boundary code points of each length and truncated or invalid sequences at the end of a buffer are not sampled.',
  ['parts/utf8.c', 'parts/text.c'], [('encode_utf8/decode_utf8/peek_utf8_char', 'parts/utf8.c, parts/text.c'), ('str_b_u_len', 'parts/text.c')])
p('C02', 'The XMQ parser is total, memory safe and reports every failure',
  'Tokenizing or parsing any bytes as XMQ terminates without crashing, without touching memory outside the buffer and without leaking. It either succeeds and gives a document with error number 0, or fails with a non-zero error number and a non-empty error message.',
  'every byte string, every implicit root and merge flag',
  'The suite parses a fixed set of files; malformed input at every position of every construct is not reachable by examples.',
  ['parts/xmq_parser.c', 'xmq.c', 'parts/xmq_internals.c'], [('parse_xmq and eat_xmq_*', 'parts/xmq_parser.c'), ('longjmp error handling, build_error_message', 'xmq.c'), ('handlers building the tree', 'xmq.c')],
  obs=['xmqTokenizeBuffer', 'xmqParseBufferWithType', 'xmqDocErrno', 'xmqDocError'])
p('C03', 'The tokens of a parse tile the input exactly',
  'The tokens delivered by the tokenizer are consecutive: together they cover every byte of an accepted input exactly once and in order. Every token has the shape its kind promises (quotes are closed by as many quotes as opened them, comments are closed, names and text values contain no delimiters), and braces, attribute and compound parentheses are properly nested.',
  'every byte string accepted (and the accepted prefix of every rejected one)',
  'Tests compare token dumps of a few documents; syntax highlighting and every tool built on tokens rely on it for all documents.',
  ['parts/xmq_parser.c'], [('DO_CALLBACK ranges and eat_* functions', 'parts/xmq_parser.c')], obs=['xmqTokenizeBuffer callbacks'])
p('C04', 'Token and error positions are the true line and column',
  'The line and column passed with a token are the line and the column, counted in characters, at which the token starts in the input. The position printed in an error message denotes an existing line and column of the input.',
  'every byte string', 'Tests check the positions in a handful of error messages; multi-byte characters, newlines inside quotes and comments, and errors at the end of the input combine in unbounded ways.',
  ['parts/xmq_parser.c', 'parts/xmq_internals.c'], [('increment / line, col in XMQParseState', 'parts/xmq_internals.c'), ('find_line_col', 'parts/xmq_internals.c')], obs=['token callbacks', 'xmqStateErrorMsg'])
p('C05', 'Any text value survives being printed as XMQ and parsed again',
  'For any element holding any XML-valid text, printing the document as pretty XMQ and parsing the output gives an element with exactly the same text. No content (quotes, newlines, leading or trailing blanks, control or Unicode spaces, delimiters) is ever lost, added, or able to end the value early.',
  'every valid UTF-8 text up to the bound as element content, at several nesting depths and next to siblings',
  'Round-trip tests use some files; the choice between plain text, quote depth, multi-line quotes, entities and compounds depends on rare character combinations.',
  ['parts/xmq_printer.c', 'parts/text.c', 'parts/xmq_parser.c'], [('print_value_internal_text, print_safe_leaf_quote, count_necessary_quotes', 'parts/xmq_printer.c, parts/text.c'), ('xmq_trim_quote', 'xmq.c')], obs=['xmqPrint', 'xmqParseBuffer'])
p('C06', 'Compact printing stays on one line and loses nothing',
  'Printing a document in compact mode gives a single line without line breaks, and parsing that line gives a document with the same elements, attribute values and text. The same holds for attribute values in pretty mode.',
  'every valid text up to the bound as element content or attribute value', 'Compact output is tested on a few files; newlines, quotes and blanks in attribute values are rare there.',
  ['parts/xmq_printer.c'], [('print_value in compact mode, add_compound_entities', 'parts/xmq_printer.c')], obs=['xmqPrint with xmqSetCompact'])
p('C07', 'Document structure survives printing as XMQ and parsing again',
  'Elements, their nesting and order, attributes, namespaces, comments, character entities, processing instructions and mixed text that were parsed from XMQ are all present and in the same order after printing (pretty or compact) and parsing the output. Printing the re-parsed document gives the same bytes again.',
  'every accepted XMQ document up to the bound', 'Tests format fixed documents; adjacency of nodes (quote next to quote, entity, comment or element) is what decides the separators.',
  ['parts/xmq_printer.c', 'xmq.c'], [('print_node / print_nodes and need_separation_before_*', 'parts/xmq_printer.c')], obs=['xmqParseBuffer, xmqPrint'])
p('C08', 'Comments survive printing and can never break out',
  'A comment with any content, printed as XMQ in pretty or compact mode and parsed again, is still exactly one comment with the same lines and nothing of it becomes markup. Single line and multi line comments, and comments holding any run of slashes and asterisks, are covered.',
  'every comment text up to the bound', 'Tests hold a few comments; the number of slashes needed depends on the text.',
  ['parts/xmq_printer.c', 'parts/text.c', 'xmq.c'], [('count_necessary_slashes, print_comment_line(s)', 'parts/xmq_printer.c'), ('xmq_un_comment', 'xmq.c')], obs=['xmqPrint'])
p('C09', 'Quote trimming follows the documented indentation rules',
  'Reading a quoted text removes exactly the surrounding quotes, a leading and a trailing blank line, and the incidental indentation common to its lines, and keeps every other byte; a tab counts as 8 columns of indentation. Trimming is safe for every content and every column the quote can start at.',
  'every quote content up to the bound and every start column up to the bound', 'Tests have a dozen quotes; short lines, carriage returns, blank-only lines and column offsets interact.',
  ['xmq.c', 'parts/text.c'], [('xmq_un_quote, xmq_trim_quote', 'xmq.c')], obs=['parsed text'])
p('C10', 'C-style quoting and unquoting are inverse and safe',
  'Quoting any string as a C string literal gives printable output delimited by double quotes, and unquoting that output gives the original string. Unquoting arbitrary text never reads outside of it.',
  'every byte string up to the bound', 'Tests quote a few strings; control bytes, backslashes and quotes in every order are not covered.',
  ['parts/text.c'], [('xmq_quote_as_c, xmq_unquote_as_c', 'parts/text.c')])
p('C11', 'The JSON parser is total, memory safe and rejects malformed JSON',
  'Parsing any bytes as JSON terminates without crashing, aborting or reading outside of the buffer, and either builds a document or reports an error number and message. Every valid JSON text (RFC 8259) is accepted, unless it holds \\u0000, a lone surrogate or the reserved key !DOCTYPE, which a document cannot store. Text that breaks the JSON grammar (unbalanced or missing brackets, quotes, commas or colons, malformed numbers, words or escapes) is rejected; a comma before a closing bracket, raw control characters in a string and Unicode white space are tolerated.',
  'every byte string up to the bound', 'Tests parse valid files; malformed JSON at every position is not sampled.',
  ['parts/json.c'], [('parse_json and parse_json_*', 'parts/json.c')], obs=['xmqParseBufferWithType(XMQ_CONTENT_JSON)'])
p('C12', 'JSON survives conversion to XMQ and back and output is valid JSON',
  'Whatever document with exactly one root element (comments around it, a doctype before it) is printed as JSON, the output is one syntactically valid JSON text (RFC 8259), and the texts of its elements, attributes, comments and keys arrive in it unchanged as JSON strings (a number, true, false or null as itself unless marked as a string). A JSON text, whose keys are all different and do not use the characters reserved for XML (a leading _ | / ! &, a : or ]), that was parsed and is printed again denotes the same JSON value: the same nesting, keys, strings, numbers, booleans and nulls in the same order. A document that is not just a value, and holds only elements, attributes, texts and comments (no namespaces, entities or processing instructions, no names with a leading _ or a colon), is the same document again when its JSON is read, and the keys of every object in it differ.',
  'every document, text and JSON text up to the bound', 'Tests convert fixed files; escapes, control characters, empty strings, keys that are not names, and strings that look like numbers are rare there.',
  ['parts/json.c'], [('parse_json_*, json_print_*', 'parts/json.c')], obs=['xmqPrint with XMQ_CONTENT_JSON'])
p('C13', 'Content detection is safe, prefers the right type and honours byte order marks',
  'Detecting the content type of any buffer never reads outside of it and gives the type its first characters stand for: XML or HTML for < (HTML if html or a doctype html follows, also after comments), JSON for every JSON text, XMQ otherwise, no matter how much leading white space precedes the content. When content is loaded (xmqParseBufferWithType, xmqParseFileWithType) a UTF-8 byte order mark is skipped and UTF-16 or UTF-32 marks are rejected with an error.',
  'every byte string up to the bound', 'Tests detect a dozen literals; prefixes that end early are not covered.',
  ['xmq.c', 'parts/xmq_internals.c'], [('xmqDetectContentType, is_xml_start, is_json_start, is_html_start', 'xmq.c')], obs=['xmqDetectContentType', 'xmqParseBuffer'])
p('C14', 'Quoting a single string as XMQ round trips',
  'The single-line quote produced for any string parses as one XMQ value whose text is the string, and contains no line break.',
  'every valid UTF-8 string up to the bound', 'Tests quote a handful of strings.',
  ['xmq.c', 'parts/xmq_printer.c'], [('xmqCompactQuote', 'xmq.c')], obs=['xmqCompactQuote'])
p('C15', 'Comments that XML cannot hold are escaped reversibly',
  'Any comment text stored as an XML comment contains no double hyphen and does not end with a hyphen, and restoring it gives the original text. Text without double hyphens is stored unchanged apart from the escape character itself.',
  'every comment text up to the bound', 'Tests convert a few comments; runs of hyphens mixed with the escape character are not covered.',
  ['parts/xml.c', 'parts/text.c'], [('escape_xml_comment, unescape_xml_comment', 'parts/text.c')])
p('C16', 'The container types behave like their abstract counterparts',
  'The growable buffer holds exactly the bytes appended to it, the map returns the last value stored for each key, the stack and the vector return what was pushed in order, and none of them corrupts memory or leaks, whatever sequence of operations is applied.',
  'every operation sequence up to the bound with arbitrary sizes, keys and values', 'Tests run a few short sequences; growth at exact capacity and colliding keys are rare.',
  ['parts/membuffer.c', 'parts/hashmap.c', 'parts/stack.c', 'parts/vector.c'], [('MemBuffer, HashMap, Stack, Vector', 'parts/*.c')], over=('histories', 'inputs'))
p('C17', 'The ixml grammar parser is total and memory safe',
  'Parsing any bytes as an ixml grammar terminates without crashing, without reading outside of the buffer, and either accepts the grammar or reports an error number and message.',
  'every byte string up to the bound', 'Tests parse valid grammars; malformed grammars at every position are not sampled.',
  ['parts/ixml.c'], [('parse_ixml and parse_ixml_*', 'parts/ixml.c')], obs=['xmqParseBufferWithType(XMQ_CONTENT_IXML)'])
p('C18', 'ixml character sets match exactly the characters they denote',
  'A character set built from ranges, literal strings, hex characters and Unicode categories, optionally negated, matches a character exactly when the character belongs to it.',
  'every code point against every set up to the bound', 'Tests match a few characters.',
  ['parts/ixml.c', 'parts/text.c'], [('is_category_code / category_has_code, ixml charset', 'parts/text.c, parts/ixml.c')])
p('C19', 'Numbers in text are read exactly and out of range 8 bit values rejected',
  'Reading the content of a location as a 32 or 64 bit integer gives exactly the number it holds if it is a decimal, hexadecimal (0x) or octal (leading 0) number in the range of the type, and 0 if there is no content or it does not begin with a number. Parsing text as an 8 bit signed integer succeeds with the exact value if the text is such a number (with an optional sign) in the range -128..127; it fails for any other text and leaves the result alone.',
  'every text up to the bound', 'Tests parse a few numbers; the limits and overflowing digits need exact inputs.',
  ['parts/core.c', 'xmq.c'], [('coreParseI8', 'parts/core.c'), ('xmqGetInt, xmqGetLong', 'xmq.c')])
p('C20', 'Structured log lines parse back to the values that were logged',
  'A line printed from keys and formatted values is one line of XMQ that parses back to exactly these keys and values, for values of any content and length.',
  'every string value up to the bound, in every position', 'Tests print a few lines; values needing quotes, entities or long buffers are rare.',
  ['xmq.c', 'parts/xmq_internals.c'], [('xmqLinePrintf, xmqLineVPrintf, buf_vsnprintf', 'xmq.c')], obs=['xmqLinePrintf'])
p('C21', 'Highlighted renderings show the same text and escape markup',
  'The HTML and TeX renderings of an XMQ text, with the markup removed and the escapes decoded, show exactly the characters of the plain text, and no character of the content can act as HTML or TeX markup. The terminal rendering with the colour codes removed is the plain text.',
  'every content up to the bound', 'Tests compare a few renderings; each special character in each token kind is not covered.',
  ['parts/xmq_printer.c', 'parts/xmq_internals.c', 'parts/colors.c'], [('print_utf8_escaped, xmq_tokenizer colorize callbacks', 'parts/xmq_internals.c')], obs=['xmqPrint with a render format', 'xmqSetupParseCallbacksColorizeTokens'])
p('C22', 'Heuristic whitespace trimming only removes whitespace',
  'Trimming the whitespace of a document removes only leading and trailing white space, whitespace-only text between elements and incidental indentation; every other character, and the order of nodes, is kept.',
  'every text up to the bound in a set of tree shapes', 'Tests trim fixed files.',
  ['xmq.c'], [('xmqTrimWhitespace, trim_node, trim_text_node', 'xmq.c')], obs=['xmqTrimWhitespace'])
p('C23', 'Loading delivers the whole input whatever the read sizes',
  'Loading from a file, a pipe or standard input gives the parser exactly the bytes of the source, no matter how the operating system splits the reads, and a failing read or missing file is reported as an error without leaking.',
  'every split of the input into reads up to the bound, and a failure at every read', 'Tests read ordinary files, where every read is full; short reads and errors never happen.',
  ['xmq.c', 'parts/xmq_internals.c'], [('load_file, load_stdin, xmqParseFile', 'xmq.c')], over=('fault_sequences', 'inputs'))
p('C24', 'Escaping output to 7 bit ASCII loses nothing',
  'With escaping of newlines, tabs or non-7-bit characters switched on, printed XMQ contains none of these characters literally in values and still parses back to the same text.',
  'every valid UTF-8 text up to the bound', 'Tests use two samples.',
  ['parts/xmq_printer.c'], [('find_next_char_that_needs_escape, print_char_entity', 'parts/xmq_printer.c')], obs=['xmqSetEscapeNon7bit, xmqSetEscapeNewlines, xmqSetEscapeTabs'])
p('C25', 'Sorting helpers give a sorted permutation and colours round trip',
  'Sorting any array of strings gives the same strings in order. Parsing a colour definition of the form #rrggbb with its optional bold and underline marks gives exactly these components, and anything else is rejected.',
  'every array up to the bound; every definition up to the bound', 'Tests sort and parse single examples.',
  ['parts/quicksort_strings.c', 'parts/colors.c'], [('quicksort_strings', 'parts/quicksort_strings.c'), ('string_to_color_def', 'parts/colors.c')])
p('C26', 'Parsing text with an ixml grammar recognises exactly its language',
  'With a given unambiguous ixml grammar, an input is accepted exactly when it belongs to the language of the grammar, and the text of the produced tree is the input without the parts the grammar hides.',
  'every input up to the bound for each of a set of grammars', 'Tests run the suite on fixed inputs.',
  ['parts/ixml.c', 'parts/yaep.c', 'xmq.c'], [('xmqParseBufferWithIXML', 'xmq.c'), ('yaep_parse', 'parts/yaep.c')], over=('inputs', 'programs'))
p('C27', 'Names belong to the namespace of the nearest enclosing declaration',
  'Every element, and every attribute with a prefix, of a parsed XMQ document is bound to the declaration of its prefix (or of the default namespace, for elements without prefix) on the element itself or on its nearest ancestor that declares it, whatever the order of the attributes. Siblings and following elements are not affected, and printing and parsing the document again keeps the bindings.',
  'every choice of prefixes, declarations and attributes in trees up to the bound', 'Tests parse a few namespaced files; shadowing, declarations after their use and redeclarations in siblings combine.',
  ['xmq.c', 'parts/xmq_printer.c'], [('do_ns_declaration, do_ns_uri, do_attr_key, create_node', 'xmq.c')], obs=['xmqParseBuffer, libxml2 tree'])
p('C28', 'The parsed document is what the grammar says about the source',
  'XMQ source is accepted exactly when it follows the grammar of the specification, and the document then holds exactly the elements, attributes, comments and text that the specification derives from it, in the order of the source: nothing is lost, merged, moved to another parent or added, quotes and comments are trimmed by the rules of the specification, and character entities stand for their characters.',
  'every source up to the bound', 'Tests compare a number of documents. Comments, quotes, entities, parentheses and braces combine, and a mistake only shows where certain tokens meet.',
  ['xmq.c', 'parts/xmq_parser.c', 'parts/xmq_internals.c', 'parts/text.c'], [('xmqParseBuffer, parse_xmq', 'parts/xmq_parser.c'), ('do_* handlers, create_quote, create_entity, create_node', 'xmq.c'), ('xmq_trim_quote', 'xmq.c')], obs=['xmqParseBuffer, libxml2 tree'], over=('inputs', 'programs'))
p('C29', 'The editing commands change exactly what they name',
  'The commands delete, delete-entity, replace-entity, substitute-entity, substitute-char-entities, select, add, add-root and statistics of the xmq program change exactly the nodes that they name, wherever these are (top level, nested, in attribute values), and nothing else: the output parses to the document that results from this change. Whatever they match, they do not misuse memory.',
  'every document up to the bound with each command, and every replacement text up to the bound', 'Tests run each command on one or two documents; matches at the top level, next to each other, in attributes and in each other combine.',
  ['xmq-cli.c', 'parts/xml.c'], [('cmd_delete, cmd_replace, cmd_substitute, cmd_select, cmd_add', 'xmq-cli.c'), ('xml_add_root_child', 'parts/xml.c')], obs=['output of the xmq program'], over=('inputs', 'programs'))
p('C30', 'for-each runs the given shell command, content reaches it only as variables',
  'The for-each command runs /bin/sh -c once for each match, in order, with the command that was given. In it only the characters of names in ${...} that are not letters, digits or _ are replaced with _. The content of the document never becomes part of the command: it is passed as environment variables, one for each ${name}, with the exact content of the match (., all its text), its name (..) or its children with that name, added to the original environment.',
  'every command, name and content up to the bound', 'Tests run three commands with harmless content; quotes, $ and newlines in the content, odd names and failing children are not tested.',
  ['xmq-cli.c'], [('cmd_for_each, invoke_shell, grab_name, make_shell_safe_name, grab_content', 'xmq-cli.c')], obs=['arguments and environment given to execve'])
p('C31', 'The xmq program carries out a command line or refuses it with a message',
  'Every command line is carried out or refused, with status 0 or 1, and a refusal comes with a message; nothing crashes on missing or odd arguments, and a word that is not a command is refused by its name. For a source the program prints exactly what the library prints with the same settings, or prints nothing and gives the error message of the library, word by word. The status is 0 only when the input was read completely and the output was written completely.',
  'every sequence of words and every source up to the bound, with every combination of failing reads and writes', 'Tests use well-formed command lines; missing arguments, commands that do not go together, special characters in messages and full disks are not tested.',
  ['xmq-cli.c'], [('xmq_parse_cmd_line, handle_option, check_arguments, perform_command', 'xmq-cli.c'), ('cmd_load, cmd_to, cmd_output', 'xmq-cli.c')], obs=['output and status of the xmq program'], over=('inputs', 'fault_sequences'))
p('C32', 'Text and line output show all text and attributes',
  'The text output is the text of the document in order, with each character entity as its character and any other entity as &name;. The line output has one line path="value" for each text, entity, attribute and empty element, in the order of the document, with the value as a C string that decodes to exactly the content.',
  'every document and text up to the bound', 'Tests print one document as lines; entities, attributes made of entities, control characters and quotes are not covered.',
  ['xmq.c', 'parts/text.c', 'parts/xml.c'], [('text_print_node, cline_print_node, cline_print_attr', 'xmq.c'), ('xmq_quote_as_c', 'parts/text.c'), ('xml_collapse_text', 'parts/xml.c')], obs=['xmqPrint with XMQ_CONTENT_TEXT and XMQ_CONTENT_CLINES'])
p('C33', 'Every way of printing gives the same output and leaves the document alone',
  'Whatever the format, a custom writer and standard output are given exactly the bytes that are printed to memory, in order and without a missing or reversed part; nothing is written as an error. Printing a document again with the same settings gives the same output and does not change the document. When the declaration of XML is to be omitted, exactly its line is skipped.',
  'every document up to the bound, every format and way of printing', 'Tests and the program print to memory only, once for each document.',
  ['xmq.c', 'parts/xmq_printer.c', 'parts/utf8.c', 'parts/membuffer.c'], [('xmqPrint, xmqSetupPrintMemory, xmqSetupPrintStdOutStdErr, xmqSetWriterContent, xmqSetupPrintSkip', 'xmq.c'), ('print_utf8, print_color_post', 'parts/utf8.c, parts/xmq_internals.c')], obs=['output of xmqPrint'])
p('C34', 'Queries find each match once, in order, and give its content as written',
  'xmqForeach and xmqForeachRel call the callback once for each match, in the order of the document, with the document, the node and the given user data, until it returns XMQ_STOP, and return the number of matches; queries nested in a callback do not disturb the outer one, and relative queries start at the given node. xmqGetString, xmqGetInt and xmqGetLong give the content of the first match, if that is written as a single text: decimal with an optional minus, hexadecimal after 0x, octal after 0; without a match they give NULL and 0.',
  'every document and number up to the bound with each query', 'Tests read a few values of one document; stopping, nesting, repeated matches and the limits of the numbers are not tested.',
  ['xmq.c'], [('xmqForeachRel, xmqGetStringRel, xmqGetIntRel, xmqGetLongRel, xmqGetContent, xmqGetName', 'xmq.c')], obs=['calls of the callback and results'], over=('inputs', 'programs'))
p('C35', 'The pager shows the text row by row, without losing or repeating any of it',
  'Each screen of the page command shows exactly the rows of the text from the current row on, as many as fit on the terminal, where a row ends at a newline or at the width of the terminal, each UTF-8 character takes one column and color escapes take no space. Down and up move by one row, page down and page up by one screen, < goes to the first and > to the last screen, and no move leaves the text. q or the end of the input ends the pager. Whatever the text, the terminal size and the keys, memory is not misused.',
  'every text up to the bound, every sequence of keys, small terminals', 'The pager needs a terminal, no test runs it.',
  ['xmq-cli.c'], [('page, find_next_line, find_prev_line, find_prev_line_start, find_next_page, find_prev_page, read_key', 'xmq-cli.c')], obs=['what page writes to the terminal for each key'], over=('inputs', 'programs'))
p('C36', 'Transform and validate do what the command line says and report failure',
  'transform gives the document as it is at that point, the named stylesheet (with characters in place of character entities) and exactly the given parameters to the XSLT processor: an expression as it is written, a string as a literal with exactly this value. The commands after it work on the result, whatever nodes it has. validate checks the document as it is against the named schema, and does not change it; --silent leaves out its messages. A missing or unusable stylesheet or schema, a transform without a result and a document that is not valid give status 1 and (unless silent) a message. Nothing crashes, stylesheets and schemas are freed once.',
  'every value of a parameter up to the bound, every way in which the processor answers', 'Tests run stylesheets and schemas that work.',
  ['xmq-cli.c'], [('cmd_transform, cmd_validate, handle_option, check_arguments', 'xmq-cli.c')], obs=['calls of libxslt and the schemas of libxml2, output and status'], over=('inputs', 'faults'))
p('C37', 'The colors follow XMQ_THEME, the terminal type, its answer and COLORFGBG',
  'XMQ_THEME mono, lightbg or darkbg decides the theme, any other value means no colors. Without it the linux console is dark, an xterm is asked for its background when the output is a terminal and else taken as dark; any other terminal is light if COLORFGBG holds a ; and does not end with ;0, else dark. An answer rgb:hhhh/hhhh/hhhh means light exactly when its brightness is more than 60 percent. Whatever the environment holds and the terminal answers (nothing, an error, a part, any bytes), memory is not misused, it ends, and the terminal is left as it was.',
  'every value of the variables and every answer up to the bound', 'Tests run without a terminal.',
  ['xmq-cli.c'], [('terminal_render_theme, query_xterm_bgcolor', 'xmq-cli.c')], obs=['result of terminal_render_theme'], over=('inputs', 'faults'))
p('C38', 'browse writes the page and opens only that page',
  'The browse command writes exactly what render-html prints to a new file xmq_browsing_NAME.html, without following a symbolic link, where NAME is the name of the source without its directory. Then it runs open with this one file name, whatever characters the name has, and no other command. If the page cannot be written nothing is opened and the status is 1, with a message.',
  'every file name up to the bound, every fault', 'Tests do not start a browser.',
  ['xmq-cli.c'], [('browse, open_browser', 'xmq-cli.c')], obs=['file written and command given to the shell'], over=('inputs', 'faults'))
with open(V + '/properties.jsonl', 'w') as f:
    for x in L: f.write(json.dumps(x) + '\n')
