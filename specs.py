# What each check runs. P(id, jobs...): jobs are (file, entry, quick bounds, thorough bounds, required reach labels)
ASSUMPTIONS = [
    'LLVM bitcode from clang -O1 stands for the compiled program (x86-64 Linux); violations are replayed on a clang -O0 AddressSanitizer build (uninitialised reads under valgrind)',
    'libc string/memory/stdio functions and the libxml2 tree API are replaced by the models in rt/sxlc.c and rt/sxxml.c; they are written from the documented behaviour and cross-checked by replaying witnesses and counterexamples against the real libraries',
    'malloc never fails',
]
PROPS = {}
def J(file, entry, quick, thorough=None, reach=(), **kw):
    return dict(file=file, entry=entry, bounds={'quick': quick, 'thorough': thorough or quick}, reach=list(reach), **kw)
def P(pid, *jobs, **kw):
    PROPS[pid] = dict(jobs=list(jobs), **kw)

S13 = "bytes over the 13 characters a='\\n(){}/*& and space"
LONG = '25 documents with something repeated 5..257 times (quotes, slashes, nesting, names, attributes, comments, lines, ...) around 0..1 arbitrary bytes'
P('C02',
  J('p_parse.c', 'h_doc_template', '30 documents with every sequence of 0..3 arbitrary bytes inserted', '... 0..4 bytes', ['accepted', 'rejected']),
  J('p_parse.c', 'h_doc_edit', 'every one of 30 documents cut after or with a byte dropped at any position and 0..1 arbitrary bytes inserted there', '... 0..2 bytes', ['accepted', 'rejected']),
  J('p_parse.c', 'h_doc_options', 'all texts of 0..5 characters over 12 characters, 4 implicit roots, merge on/off', '0..6', ['accepted', 'rejected']),
  J('p_parse.c', 'h_doc_syntax', S13 + ', length 6', 'length 7', ['accepted', 'rejected']),
  J('p_parse.c', 'h_doc_quotes', "length 10 over {' a newline}", 'length 13', ['accepted', 'rejected']),
  J('p_parse.c', 'h_doc_comments', 'length 9 over {/ * a newline}', 'length 12', ['accepted', 'rejected']),
  J('p_parse.c', 'h_doc_bytes', 'all byte strings up to 4 bytes (ASCII at 4)', 'up to 6 (ASCII above 4)', ['accepted', 'rejected']),
  J('p_parse.c', 'h_tok_template', '30 documents with 0..3 arbitrary bytes inserted, tokenizer only', '0..4', ['accepted', 'rejected']),
  J('p_parse.c', 'h_tok_edit', 'every one of 30 documents cut after or with a byte dropped at any position and 0..1 arbitrary bytes inserted there', '... 0..2 bytes', ['accepted', 'rejected']),
  J('p_parse.c', 'h_tok_bytes', 'tokenizer, all byte strings up to 5 bytes (ASCII at 5)', 'up to 7 (ASCII above 5)', ['accepted', 'rejected']),
  J('p_parse.c', 'h_tok_syntax', 'tokenizer, ' + S13 + ', length 7', 'length 8', ['accepted', 'rejected']),
  J('p_parse.c', 'h_doc_long', LONG, '4..300 times, 0..2 bytes', ['accepted', 'rejected'], max_instr=4000000),
  J('p_parse.c', 'h_doc_huge', 'the same with 1023..1025 repetitions', '1023..4097', ['accepted', 'rejected'], max_instr=70000000),
  outside='longer inputs, nesting deep enough to exhaust the stack, file descriptors')
P('C03',
  J('p_parse.c', 'h_tile_template', '30 documents with 0..3 arbitrary bytes inserted', '0..4', ['accepted', 'rejected']),
  J('p_parse.c', 'h_tile_edit', 'every one of 30 documents cut after or with a byte dropped at any position and 0..1 arbitrary bytes inserted there', '... 0..2 bytes', ['accepted', 'rejected']),
  J('p_parse.c', 'h_tile_bytes', 'all byte strings up to 5 bytes (ASCII at 5)', 'up to 6 (ASCII above 5)', ['accepted', 'rejected']),
  J('p_parse.c', 'h_tile_comments', 'length 10 over {/ * a newline}', 'length 13', ['accepted', 'rejected']),
  J('p_parse.c', 'h_tile_quotes', "length 11 over {' a newline}", 'length 13', ['accepted', 'rejected']),
  J('p_parse.c', 'h_tile_syntax', S13 + ', length 7', 'length 8', ['accepted', 'rejected']),
  J('p_parse.c', 'h_tile_long', LONG, '4..300 times, 0..2 bytes', ['accepted', 'rejected'], max_instr=4000000))
P('C04',
  J('p_parse.c', 'h_pos_template', '30 documents with 0..2 arbitrary bytes inserted', '0..3', ['accepted', 'rejected', 'error position']),
  J('p_parse.c', 'h_pos_edit', 'every one of 30 documents cut after or with a byte dropped at any position and 0..1 arbitrary bytes inserted there', '... 0..2 bytes', ['accepted', 'rejected', 'error position']),
  J('p_parse.c', 'h_pos_quotes', "length 8 over {' a newline}", 'length 11', ['accepted', 'error position']),
  J('p_parse.c', 'h_pos_bytes', 'all byte strings up to 5 bytes (ASCII at 5)', 'up to 6 (ASCII above 5)', ['accepted', 'error position']),
  J('p_parse.c', 'h_pos_comments', 'length 10 over {/ * a newline}', 'length 13', ['accepted', 'error position']),
  J('p_parse.c', 'h_pos_syntax', S13 + ', length 6', 'length 7', ['accepted', 'error position']),
  J('p_parse.c', 'h_pos_long', LONG, '4..300 times, 0..2 bytes', ['accepted', 'error position'], max_instr=4000000))
P('C01',
  J('p_text.c', 'h_utf8_code_points', 'every code point 0..0x10FFFF', None, ['1', '2', '3', '4']),
  J('p_text.c', 'h_utf8_bytes', 'every byte string of 1..7 bytes', '1..9', ['good', 'bad']),
  J('p_text.c', 'h_utf8_codepoint_string', 'every well-formed character of 1..4 bytes', None, ['done']),
  outside='overlong and surrogate encodings, which the decoder accepts by design, are not claimed to be rejected')
P('C09',
  J('p_text.c', 'h_trim_rules', 'all quote contents of 1..8 characters over {space, newline, letter} at 7 places', '1..10', ['done']),
  J('p_text.c', 'h_trim_tabs', 'all quote contents of 1..7 characters over {tab, space, newline, letter} at 7 places', '1..9', ['done']),
  J('p_text.c', 'h_trim_deep', '1..2 lines indented by 0..16 blanks with or without a tab, each with one arbitrary character, 7 places', '3 lines of up to 40', ['done']),
  J('p_text.c', 'h_trim_columns', 'contents of 1..7 characters after multi-byte characters', '1..9', ['done']),
  J('p_text.c', 'h_trim_bytes', 'xmq_trim_quote: all NUL-free byte strings up to 5 bytes, 4 columns', 'up to 6', ['done']))
P('C10',
  J('p_text.c', 'h_cquote_roundtrip', 'all NUL-free byte strings up to 3 bytes, with and without quotes', 'up to 4', ['done']),
  J('p_text.c', 'h_cunquote_bytes', 'all byte strings up to 8 bytes', 'up to 10', ['done']))
P('C15',
  J('p_text.c', 'h_xmlcomment_bytes', 'all comments up to 8 bytes', 'up to 10', ['plain', 'special']),
  J('p_text.c', 'h_xmlcomment_hyphens', '10 characters over {-, a, U+2410}', '12', ['plain', 'special']))
PT = 'element content at 8 places (alone, next to siblings, comments, entities, nested, mixed content)'
PA = PT + ' or attribute value at 3 places'
P('C05',
  J('p_print.c', 'h_text_bytes', 'every valid XML text of 1..3 bytes as ' + PT, '1..4 bytes', ['done']),
  J('p_print.c', 'h_text_quotes', "texts of 1..6 characters over {' space a newline}, same places", '1..7', ['done']),
  J('p_print.c', 'h_text_delims', "texts of 1..4 characters over {=(){}/*&'a tab}, same places", '1..5', ['done']),
  J('p_print.c', 'h_text_blanks', 'texts of 1..5 characters over {space a newline cr tab}, same places', '1..6', ['done']),
  J('p_print.c', 'h_text_indent', "1..4 characters over {' space a newline} at 8 places and 3 attribute places, indentation by 0, 1, 2, 3 or 8", '1..5, also by 5, 16, 40', ['done']),
  J('p_print.c', 'h_text_runs', "a run of 6..24 of one of {' space newline /}, 1 character before and 0..1 after it over {' space a newline = /}, same places", 'up to 100, 2 or 3 characters around', ['done']),
  outside='longer texts, other positions, themes and colors')
P('C06',
  J('p_print.c', 'h_attr_bytes', 'pretty: every valid XML text of 1..3 bytes as attribute value at 3 places', '1..4', ['done']),
  J('p_print.c', 'h_attr_quotes', "pretty: attribute values of 1..6 characters over {' space a newline}", '1..7', ['done']),
  J('p_print.c', 'h_attr_runs', "a run of 6..24 of one of {' space newline}, 1 character before and 0..1 after it over {' space a newline = /}, pretty, 3 places", 'up to 100, 2 or 3 characters around', ['done']),
  J('p_print.c', 'h_ctext_bytes', 'compact: every valid XML text of 1..3 bytes as ' + PA, '1..4', ['done']),
  J('p_print.c', 'h_ctext_quotes', "compact: 1..5 characters over {' space a newline}, same places", '1..6', ['done']),
  J('p_print.c', 'h_ctext_delims', "compact: 1..3 characters over {=(){}/*&'a tab}, same places", '1..4', ['done']),
  J('p_print.c', 'h_ctext_blanks', 'compact: 1..4 characters over {space a newline cr tab}, same places', '1..5', ['done']),
  J('p_print.c', 'h_ctext_runs', "a run of 6..24 of one of {' space newline}, 1 character before and 0..1 after it over {' space a newline = /}, compact, same places", 'up to 100, 2 or 3 characters around', ['done']),
  outside='longer texts, other positions, themes and colors')
P('C07',
  J('p_print.c', 'h_struct_template', '30 documents with every sequence of 0..3 arbitrary bytes inserted, pretty and compact', '0..4 bytes', ['done', 'rejected']),
  J('p_print.c', 'h_pi_syntax', "processing instruction holding 1..3 characters over {'={/ space a newline tab} at 4 places, pretty and compact", '1..5', ['done']),
  J('p_print.c', 'h_pi_bytes', 'processing instruction holding every valid XML text of 1..2 bytes at 4 places, pretty and compact', '1..3', ['done']),
  J('p_print.c', 'h_struct_edit', 'every one of 30 documents cut after or with a byte dropped at any position and 0..2 arbitrary bytes inserted there, pretty and compact', None, ['done', 'rejected']),
  J('p_print.c', 'h_struct_tree', '0..3 children of any of 20 kinds (elements, attributes, texts, comments, entities, processing instructions), 2 depths, pretty and compact', '0..4', ['done']),
  J('p_print.c', 'h_struct_around', '0..2 comments or processing instructions before and after the root element', '0..3', ['done']),
  J('p_print.c', 'h_struct_indent', '1..2 children of any of 20 kinds, indentation by 0, 1, 2, 3 or 8', '1..3, also by 5, 16, 40', ['done']),
  J('p_print.c', 'h_struct_long', LONG + ', pretty and compact', '4..300 times, 0..2 bytes', ['done', 'rejected'], max_instr=5000000),
  outside='larger documents; lone carriage returns; doctypes with an internal subset; the order of namespace declarations; compact prints the newlines of a processing instruction as spaces; blanks around the lines of comments and processing instructions')
P('C08',
  J('p_print.c', 'h_comment_slashes', '1..5 characters over {/ * a newline} at 8 places, pretty and compact', '1..7', ['done']),
  J('p_print.c', 'h_comment_syntax', "1..3 characters over {/*{}'& tab space a newline}, same places", '1..4', ['done']),
  J('p_print.c', 'h_comment_blanks', '1..4 characters over {/ space a newline}, same places', '1..6', ['done']),
  J('p_print.c', 'h_comment_indent', '1..3 characters over {/ * space a newline}, pretty, same places, indentation by 0, 1, 2, 3 or 8', '1..4, also by 5, 16, 40', ['done']),
  J('p_print.c', 'h_comment_bytes', 'every valid XML text of 1..2 bytes, same places', '1..3', ['done']),
  J('p_print.c', 'h_comment_runs', "a run of 6..24 of one of {/ * space newline}, 1 character before and 0..1 after it over {/ * a newline}, same places", 'up to 100, 2 or 3 characters around', ['done']),
  outside='longer comments; carriage returns; blanks at the ends of lines, blank lines around a comment and common indentation, which XMQ drops by design')
NS = 'every prefix over {x, y, none}, every href over {u, v} and every of the listed attribute patterns, pretty and compact; '
P('C27',
  J('p_ns.c', 'h_ns_one', NS + '1 element, 15 patterns', None, ['done']),
  J('p_ns.c', 'h_ns_nested', NS + '2 nested elements, 7 x 11 patterns', '15 x 15', ['done']),
  J('p_ns.c', 'h_ns_deep', NS + '3 nested elements, 4 x 4 x 4 patterns', '7 x 7 x 6', ['done']),
  J('p_ns.c', 'h_ns_siblings', NS + 'an element with 2 children, 3 x 6 x 4 patterns', '6 x 8 x 4', ['done']),
  J('p_ns.c', 'h_ns_names', 'every attribute name of {nothing, xmlns, xmlns:, xmln, x:, xmlnsq:} and 0..3 characters, hrefs of 1..2 characters', '0..5, 1..3', ['declaration', 'prefix', 'attribute', 'done']),
  J('p_ns.c', 'h_ns_after', NS + 'a child after a nested child, 3 x 3 x 3 x 2 patterns', None, ['done']),
  outside='longer prefixes and hrefs, more than 4 elements, xsl prefixes')
R = 'against a parser written from the grammar: '
P('C28',
  J('p_spec.c', 'h_spec_template', R + 'every template with 0..4 symbolic bytes in its hole', '0..5', ['accepted', 'rejected']),
  J('p_spec.c', 'h_spec_edit', R + 'every template, 0..2 symbolic bytes at any of the places in the text, replacing up to 2 bytes', 'more places', ['accepted', 'rejected']),
  J('p_spec.c', 'h_spec_bytes', R + 'every text of 1..5 bytes', '1..6', ['accepted', 'rejected']),
  J('p_spec.c', 'h_spec_syntax', R + "every text of 7 characters over {a = ' newline ( ) { } / * & space}", '8', ['accepted', 'rejected']),
  J('p_spec.c', 'h_spec_quotes', R + "8 characters over {' a newline space}, at the top, as value, as attribute", '10', ['accepted', 'rejected']),
  J('p_spec.c', 'h_spec_comments', R + '10 characters over {/ * a newline}', '12', ['accepted', 'rejected']),
  J('p_spec.c', 'h_spec_values', R + "a= followed by 7 characters over {a ' ( ) & # 1 ; = / { space}", '9', ['accepted', 'rejected']),
  J('p_spec.c', 'h_spec_attrs', R + "a( and ) around 8 characters over {a b ' ( ) & ; = space}", '9', ['accepted', 'rejected']),
  J('p_spec.c', 'h_spec_structure', R + '10 characters over {a { } = space}', '12', ['accepted', 'rejected']),
  J('p_spec.c', 'h_spec_long', R + 'parts of the templates repeated 5 to 257 times, 0..1 symbolic bytes after them', 'more counts, 0..2 bytes', ['accepted', 'rejected'], max_instr=8000000),
  outside='namespaces, doctypes, processing instructions, names that are not ASCII, carriage returns; sources the parser reads more leniently than the grammar: a missing value, an entity of hexadecimal digits without semicolon, a quote or comment closed by a longer run')
P('C24',
  J('p_print.c', 'h_esc_bytes', 'every valid XML text of 1..2 bytes, all 15 combinations of compact, escape newlines, tabs, non-7bit, as ' + PA, '1..3', ['done']),
  J('p_print.c', 'h_esc_mixed', '1..2 characters out of 11 (1 to 4 byte, blanks, quote), same modes and places', '1..3', ['done']),
  J('p_print.c', 'h_esc_runs', "a run of 6..24 of one of {' newline}, 1 character before and 0..1 after it over {' space a newline tab}, same modes and places", 'up to 100, 2 or 3 characters around', ['done']),
  outside='longer texts')
P('C14',
  J('p_print.c', 'h_quote_bytes', 'every valid XML text of 1..3 bytes, as element value and as attribute value followed by more', '1..4', ['done']),
  J('p_print.c', 'h_quote_quotes', "0..7 characters over {' space a newline}", '0..9', ['done']),
  J('p_print.c', 'h_quote_delims', "1..5 characters over {=(){}/*&'a tab}", '1..6', ['done']),
  J('p_print.c', 'h_quote_blanks', "1..6 characters over {' space a newline cr tab}", '1..8', ['done']),
  J('p_print.c', 'h_quote_runs', "a run of 6..24 of one of {' space newline /}, 1 character before and 0..1 after it over {' space a newline = /}", 'up to 100, 2 or 3 characters around', ['done']))
LS = '6 shapes of a line (one value, log value, 1..3 keys, values of several formats)'
P('C20',
  J('p_print.c', 'h_line_bytes', LS + ', every valid XML text of 1..2 bytes', '1..3', ['done']),
  J('p_print.c', 'h_line_syntax', LS + ", 0..4 characters over {' space a newline { ( = &}", '0..5', ['done']),
  J('p_print.c', 'h_line_pair', LS + ", two values of 0..2 characters over {' space a newline / or )}", '0..3', ['done']),
  J('p_print.c', 'h_line_runs', "a run of 6..24 of one of {' space newline}, 1 character before and 0..1 after it over {' space a newline {}", 'up to 100, 2 or 3 characters around', ['done']),
  J('p_print.c', 'h_line_long', LS + ", 1016..1025 letters and 2 characters over {' a newline space}", 'also 2040..2049 letters', ['done']),
  outside='longer values, the human readable form, keys that are not names')
RS = 'terminal, HTML and TeX, pretty and compact, '
P('C21',
  J('p_render.c', 'h_render_bytes', RS + 'every valid XML text of 1..2 bytes at 5 places (element, attribute, comment, mixed, pi)', '1..3', ['terminal', 'html', 'tex']),
  J('p_render.c', 'h_render_special', RS + """1..3 characters over {<&>"'a} at 4 places""", '1..4', ['terminal', 'html', 'tex']),
  J('p_render.c', 'h_render_tex', RS + "1..3 characters over {\\{}$%#_^~&'} at 4 places", None, ['terminal', 'html', 'tex']),
  J('p_render.c', 'h_render_blanks', RS + "1..4 characters over {' space a newline tab} at 4 places", '1..5', ['terminal', 'html', 'tex']),
  J('p_render.c', 'h_render_style', RS + "2 characters over {<&>a newline \\ $ '}, raw and framed, dark and light", None, ['terminal', 'html', 'tex']),
  J('p_render.c', 'h_render_tree', RS + '1..2 children of any of 20 kinds at 2 depths', '1..3', ['terminal', 'html', 'tex']),
  J('p_render.c', 'h_render_runs', RS + "a run of 6..24 of one of {' newline space < backslash}, 1 character before and 0..1 after it over {' space a newline &} at 4 places", 'up to 100, 2 or 3 characters around', ['terminal', 'html', 'tex']),
  J('p_render.c', 'h_colour_template', 'tokens of 30 documents with 0..2 arbitrary bytes inserted, 3 formats', '0..3', ['done', 'rejected']),
  J('p_render.c', 'h_colour_bytes', 'tokens of all texts up to 3 bytes, 3 formats', 'up to 4', ['done', 'rejected']),
  J('p_render.c', 'h_colour_long', LONG + ', 3 formats', '4..300 times, 0..2 bytes', ['done', 'rejected'], max_instr=5000000),
  outside='themes other than the default one, user supplied colours, escape characters in the text of a terminal rendering')
TT = '6 trees (text alone, between and before elements, next to comment, entity, pi and another text)'
P('C22',
  J('p_print.c', 'h_trimws_blanks', TT + ', texts of 1..7 characters over {space a newline}', '1..9', ['done']),
  J('p_print.c', 'h_trimws_mixed', TT + ', texts of 1..5 characters over {space a newline cr tab}', '1..7', ['done']),
  J('p_print.c', 'h_trimws_two', TT + ', two texts of 1..4 characters over {space a newline}', '1..5 and 1..4', ['done']),
  J('p_print.c', 'h_trimws_runs', "a run of 6..24 of one of {space newline a}, 1 character before and 0..1 after it over {space a newline}, same trees", 'up to 100, 2 or 3 characters around', ['done']),
  J('p_print.c', 'h_trimws_bytes', TT + ', every valid XML text of 1..3 bytes', '1..4', ['done']),
  outside='lone carriage returns (they become line breaks); longer texts')
P('C16',
  J('p_core.c', 'h_stack_ops', 'stack: every sequence of 10 push/pop/rock operations, arbitrary values', '13 operations', ['done']),
  J('p_core.c', 'h_vector_ops', 'vector: every sequence of 6 push/pop operations starting with 0, 14, 30 or 62 elements, arbitrary values', '9 operations', ['done']),
  J('p_core.c', 'h_vector_big', 'vector: every sequence of 4 operations starting with 510, 1022 or 2046 elements', None, ['done']),
  J('p_core.c', 'h_vector_values', 'vector: freeing 0..19 values', '0..35', ['done']),
  J('p_core.c', 'h_map_ops', 'map: 3 puts and every get, keys of 0..1 arbitrary bytes, arbitrary values, 1..4 slots', '4 puts, 1..5 slots', ['done']),
  J('p_core.c', 'h_map_long_keys', 'map: 2 puts, keys of 0..2 arbitrary bytes, 1..2 slots', '3 puts, 1..3 slots', ['done']),
  J('p_core.c', 'h_map_values', 'map: freeing 0..5 values', None, ['done']),
  J('p_core.c', 'h_buffer_ops', 'buffer: every sequence of 3 of 9 operations (sizes 0..8 and 1023, 1024, 1025, 2500), arbitrary bytes', '4 operations', ['done']),
  J('p_core.c', 'h_buffer_growth', 'buffer: 2 operations when 1016, 1020, 1023, 1024, 1025, 2040, 2047 or 2048 bytes are used', '3 operations', ['done']),
  outside='longer histories; popping an empty container (the caller has to check)')
P('C19',
  J('p_core.c', 'h_int8', 'coreParseI8: all texts of 0..5 bytes', '0..7', ['accepted', 'rejected']),
  J('p_core.c', 'h_int8_long', 'coreParseI8: 0..3 arbitrary bytes after 8 prefixes (leading zeros, 64 bit limits, signs, hex)', '0..4', ['accepted', 'rejected']),
  J('p_core.c', 'h_get_number', 'xmqGetInt, xmqGetLong: all ASCII contents of 1..5 characters at 3 places', '1..6', ['int', 'long', 'none', 'done']),
  J('p_core.c', 'h_get_limits', 'xmqGetInt, xmqGetLong: 0..3 digits, hex digits or blanks after 8 prefixes at the 32 and 64 bit limits', 'one more digit', ['int', 'long', 'done']),
  outside='XPath itself (modelled for paths of names); numbers out of range; coreParseI16..I64, which are stubs that reject everything; floating point')
P('C11',
  J('p_json.c', 'h_json_bytes', 'all texts of 1..5 bytes', '1..6', ['accepted', 'rejected']),
  J('p_json.c', 'h_json_syntax', 'texts of 1..9 characters over { } [ ] , : " 1 space a}', '1..11', ['accepted', 'rejected']),
  J('p_json.c', 'h_json_numbers', 'texts of 1..8 characters over {0 . 1 e E + - space newline ]}', '1..10', ['accepted', 'rejected']),
  J('p_json.c', 'h_json_strings', 'a quote and 0..9 characters over {\\ " u 0 d D c a /}', '0..11', ['accepted', 'rejected']),
  J('p_json.c', 'h_json_template', 'every template with 0..4 arbitrary bytes inserted', '0..5', ['accepted', 'rejected']),
  J('p_json.c', 'h_json_edit', 'every template cut after or with a byte dropped at any position and 0..2 arbitrary bytes inserted there', '0..3', ['accepted', 'rejected']),
  J('p_json.c', 'h_json_long', '15 JSON texts with something repeated 5..257 times (brackets, members, digits, characters, escapes, blanks) around 0..1 arbitrary bytes', '4..300 times, 0..2 bytes', ['accepted', 'rejected'], max_instr=8000000),
  outside='longer texts; trailing commas, raw control characters and Unicode white space, which are accepted as well; !DOCTYPE keys, \\u0000 and lone surrogates')
P('C12',
  J('p_json.c', 'h_jprint_template', 'XMQ documents (30 templates) with 0..2 arbitrary bytes inserted', '0..3', ['done', 'rejected']),
  J('p_json.c', 'h_jprint_edit', 'XMQ documents cut after or with a byte dropped at any position and 0..1 arbitrary bytes inserted there', '0..2', ['done', 'rejected']),
  J('p_json.c', 'h_jprint_nodes', 'XMQ documents made for JSON (20 templates: arrays, forced strings, odd keys, mixed content) with 0..2 arbitrary bytes inserted', '0..3', ['done', 'rejected']),
  J('p_json.c', 'h_jprint_nodes_syntax', "the same with 1..3 characters over {_ S A = ' & ; ( ) { } 1 /}", '1..4', ['done', 'rejected']),
  J('p_json.c', 'h_jprint_syntax', "all XMQ documents of 1..5 characters over {a = ' & { } ( ) / * space A \" _}", '1..6', ['done', 'rejected']),
  J('p_json.c', 'h_jtext_bytes', 'every UTF-8 text of 1..3 bytes as element value, attribute value, text between elements, comment, array string, key', '1..4', ['done']),
  J('p_json.c', 'h_jtext_words', 'texts of 1..6 characters over {t r u e 1 . - " \\ space n}, same places', '1..7', ['done']),
  J('p_json.c', 'h_jback_bytes', 'JSON texts (18 templates) with 0..3 arbitrary bytes inserted (keys 0..2)', '0..4 (keys 0..3)', ['done']),
  J('p_json.c', 'h_jback_syntax', 'the same with 1..6 characters over {[ ] { } " , : 1 a}', '1..7', ['done']),
  J('p_json.c', 'h_jback_strings', 'the same with 0..5 characters over {" \\ n t r u 1 space}', '0..6', ['done']),
  J('p_json.c', 'h_jback_numbers', 'the same with 0..6 characters over {- 0 . 1 e E +}', '0..7', ['done']),
  J('p_json.c', 'h_jback_words', '15 JSON texts (keys that are no names, empty keys, arrays) with 0..5 characters over {t r u e f a l s n 1 . - space}', '0..6', ['done']),
  J('p_json.c', 'h_jback_long', '15 JSON texts with something repeated 5..257 times (brackets, members, digits, characters, escapes, blanks) around 0..1 arbitrary bytes (nested up to 33 times)', '4..300 times, 0..2 bytes', ['done'], max_instr=8000000),
  J('p_json.c', 'h_jback_tree', 'every JSON value of depth 2 with arrays and objects of 1..2 members, 6 keys, 8 leaves', '1..3 members, 12 leaves', ['done']),
  J('p_json.c', 'h_jback_nested', 'every JSON value of depth 4 with one member each', 'depth 5', ['done']),
  J('p_json.c', 'h_jback_members', 'every array and object of 1..4 members out of 6 kinds', '1..5', ['done']),
  J('p_json.c', 'h_jprint_long', LONG, '4..300 times, 0..2 bytes', ['done', 'rejected'], max_instr=8000000),
  J('p_json.c', 'h_jdoc_children', 'XMQ to JSON to XMQ: a root element with 0..4 elements, comments and texts in any order', '0..5', ['done']),
  J('p_json.c', 'h_jdoc_nested', 'the same one level deeper, next to a sibling with the same name', '0..5', ['done']),
  J('p_json.c', 'h_jdoc_around', '0..3 comments before and after the root element and 0..2 inside', '0..4', ['done']),
  J('p_json.c', 'h_jdoc_deep', 'nested children of children', None, ['done']),
  J('p_json.c', 'h_jdoc_bytes', 'every UTF-8 text of 1..3 bytes as content, attribute and comment', '1..4', ['done']),
  J('p_json.c', 'h_jdoc_words', 'the same with 1..5 characters over {t r u e 1 . - quote backslash space n}', '1..6', ['done']),
  J('p_json.c', 'h_jdoc_template', 'XMQ to JSON to XMQ: 30 documents with 0..2 arbitrary bytes inserted, where nothing is beyond JSON (namespaces, entities, processing instructions)', '0..3', ['done', 'rejected']),
  J('p_json.c', 'h_jdoc_edit', 'the same, cut after or with a byte dropped at any position and 0..1 arbitrary bytes inserted there', '0..2', ['done', 'rejected']),
  J('p_json.c', 'h_jdoc_long', LONG, '4..300 times, 0..2 bytes', ['done', 'rejected'], max_instr=8000000),
  outside='documents without exactly one root element; the content of processing instructions; keys that begin with _ | / ! & or contain : or ] (reserved for XML), duplicate keys; longer keys')
P('C13',
  J('p_json.c', 'h_detect_bytes', 'all texts of 0..6 bytes', '0..7', ['xmq', 'json', 'xml']),
  J('p_json.c', 'h_detect_words', 'texts of 1..10 characters over {< ! - > h t m l H L space}', '1..12', ['xml', 'xmq', 'html']),
  J('p_json.c', 'h_detect_template', '18 templates (comments, doctypes, html, words, numbers) with 0..5 arbitrary bytes inserted', '0..6', ['xmq', 'json', 'html', 'xml']),
  J('p_json.c', 'h_detect_json', 'all JSON texts of 1..6 bytes', '1..7', ['done']),
  J('p_json.c', 'h_detect_json_template', 'JSON templates with 0..4 arbitrary bytes inserted', '0..5', ['done']),
  J('p_json.c', 'h_detect_json_long', '15 JSON texts with something repeated 5..257 times (brackets, members, digits, characters, escapes, blanks) around 0..1 arbitrary bytes', '4..300 times, 0..2 bytes', ['done']),
  J('p_json.c', 'h_detect_blanks', '10..257 blanks and one arbitrary byte before 16 beginnings', 'up to 4097 blanks', ['xmq', 'json', 'html', 'xml']),
  J('p_json.c', 'h_bom_bytes', 'a byte order mark before 0..3 bytes', '0..4', ['done']),
  J('p_json.c', 'h_bom_syntax', "a byte order mark before 0..6 characters over {a = { } ' / * 1 [ ] newline}", '0..7', ['done']),
  J('p_json.c', 'h_bom_utf16', 'UTF-16 and UTF-32 marks before 0..4 bytes', '0..5', ['done']),
  outside='longer texts; byte order marks given to xmqParseBuffer and xmqTokenizeBuffer directly')
P('C23',
  J('p_load.c', 'h_load_splits', 'files, pipes and stdin of 0..6 arbitrary bytes, reads of 1 to 3 or all bytes, up to 2 interruptions', '0..8 bytes', ['same']),
  J('p_load.c', 'h_load_fails', 'the same, 0..4 bytes, one of the first 5 reads fails', '0..5 bytes, 7 reads', ['same', 'failed']),
  J('p_load.c', 'h_load_big', '8 sizes at the limits of the blocks (up to 30001 bytes), 3 arbitrary bytes, any 2 reads short', '3 reads short', ['same'], max_instr=9000000),
  J('p_load.c', 'h_load_xmq', '4 documents with 0..2 arbitrary characters through xmqParseFile, xmqParseFileWithType, xmqTokenizeFile', '0..3', ['same', 'failed']),
  J('p_load.c', 'h_load_xmq_fails', 'the same, one of the first 3 reads fails', None, ['same', 'failed']),
  J('p_load.c', 'h_load_missing', 'no such file', None, ['failed']),
  outside='the operating system is a model (reads deliver any part or fail, files are seekable or not); failures of fclose; memory exhaustion')
P('C25',
  J('p_core.c', 'h_sort_bytes', '0..4 strings of 1 arbitrary byte', '0..5', ['done']),
  J('p_core.c', 'h_sort_strings', '0..3 strings of 0..2 characters over {a b}', '0..4', ['done']),
  J('p_core.c', 'h_sort_long', '2..3 strings of 2 arbitrary bytes', None, ['done']),
  J('p_core.c', 'h_sort_many', '5..10 strings over 3 values', '5..11', ['done']),
  J('p_core.c', 'h_sort_runs', '9..32 strings that are sorted, reversed, alike or mixed, one of them arbitrary', None, ['done']),
  J('p_core.c', 'h_colour_def', 'all definitions of 0..12 bytes', '0..14', ['accepted', 'rejected']),
  J('p_core.c', 'h_colour_codes', 'ANSI, HTML and TeX code of every colour with one free component (others 0, 99, 255), bold, underline', None, ['done']),
  outside='larger arrays')
P('C17',
  J('p_ixml.c', 'h_ixml_bytes', 'all grammars of 0..4 bytes', '0..5', ['accepted', 'rejected']),
  J('p_ixml.c', 'h_ixml_syntax', 'grammars of 1..5 characters over 27 characters (a Z = : . , ; | quotes # [ ] ( ) ~ - + * ? { } > @ ^ and space)', '1..7', ['accepted', 'rejected']),
  J('p_ixml.c', 'h_ixml_term', 'the same, 1..4 characters inside of a rule', '1..5', ['accepted', 'rejected']),
  J('p_ixml.c', 'h_ixml_second_term', 'the same, 1..3 characters after a term', '1..5', ['accepted', 'rejected']),
  J('p_ixml.c', 'h_ixml_group', 'the same, 1..4 characters inside of a group', '1..5', ['accepted', 'rejected']),
  J('p_ixml.c', 'h_ixml_set', '1..4 of 20 characters inside of a character set', '1..5', ['accepted', 'rejected']),
  J('p_ixml.c', 'h_ixml_string', 'strings of 0..2 arbitrary bytes at 4 places', '0..3', ['accepted', 'rejected']),
  J('p_ixml.c', 'h_ixml_hex', '2 of 8 characters and 0..8 zeros after # at 4 places', '3 of 8 characters', ['accepted', 'rejected']),
  J('p_ixml.c', 'h_ixml_comment', '0..4 characters over {{ } " - x} at 8 places where blanks may be', '0..6', ['accepted', 'rejected']),
  J('p_ixml.c', 'h_ixml_prolog', '0..3 of 10 characters after ixml version', '0..4', ['accepted', 'rejected']),
  J('p_ixml.c', 'h_ixml_prolog_name', '4 of 14 characters after ixml', '6', ['accepted', 'rejected']),
  J('p_ixml.c', 'h_ixml_long_set', 'a set of 70 ranges, one arbitrary hex digit', '90', ['accepted'], max_instr=4000000),
  outside='longer grammars, groups nested deep enough to exhaust the stack')
P('C18',
  J('p_ixml.c', 'h_set_range', 'a range with 3x3 arbitrary ends, every ASCII character', '4x4', ['accepted', 'rejected'], max_instr=20000000),
  J('p_ixml.c', 'h_set_string', 'a string of 2 characters from 4x3, every ASCII character', None, ['accepted', 'rejected'], max_instr=20000000),
  J('p_ixml.c', 'h_set_quotes', 'a doubled quote of each kind, every ASCII character', None, ['accepted', 'rejected'], max_instr=20000000),
  J('p_ixml.c', 'h_set_hex', 'hex ranges and a hex character with 3 arbitrary digits (3x2x2), every ASCII character', '5x3x4', ['accepted', 'rejected'], max_instr=20000000),
  J('p_ixml.c', 'h_set_mixed', 'range, hex character, string and category together (3x3x3), every ASCII character', None, ['accepted', 'rejected'], max_instr=20000000),
  J('p_ixml.c', 'h_set_empty', 'empty sets and their complement', None, ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_set_not', '5 excluding sets, 11 characters at the borders', 'every ASCII character', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_set_not_category', '6 excluding sets with categories, 14 characters', 'every ASCII character', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_set_unicode', '8 sets at the limits of the UTF-8 lengths, the 32 characters around them', '96 characters', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_set_category', 'each of the 38 Unicode categories, every ASCII character', 'every character below U+0180', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_set_category_high', '6 categories, 12 windows of 8 characters', 'windows of up to 60, also excluded', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_set_marks', '5 marks before 7 sets, at 2 places, repeated or not, 4 characters', '4 repetitions, 7 characters', ['accepted', 'rejected'], max_instr=40000000),
  outside='other combinations; categories of characters above U+0180 outside of the windows')
P('C26',
  J('p_ixml.c', 'h_lang_repeat', '+ and *: all texts of up to 4 of 3 characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_lang_option', '? and alternatives: all texts of up to 4 of 3 characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_lang_nested', 'recursion in the middle: all texts of up to 5 of 3 characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_lang_expression', 'left recursion: all texts of up to 4 of 4 characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_lang_empty', 'right recursion through an empty alternative: all texts of up to 4 of 3 characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_lang_list', '** and hidden terminals: all texts of up to 4 of 5 characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_lang_list_plus', '++ with a nonterminal as separator: all texts of up to 4 of 3 characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_lang_not', 'excluding sets and escapes: all texts of up to 3 of 4 characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_lang_marks', 'attributes, hidden rules, marks that override others: all texts of up to 4 of 4 characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_lang_attribute', 'an attribute made of several rules: all texts of up to 4 of 3 characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_lang_rename', 'renamed rules: all texts of up to 3 of 2 characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_lang_mark_scope', 'marks before sets and groups: all texts of up to 4 of 3 characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_lang_hidden_scope', 'hidden terminals before groups: all texts of up to 4 of 4 characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_lang_insert', 'insertions: all texts of up to 4 of 3 characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_lang_notation', 'comments, encoded characters, doubled quotes, the prolog: all texts of up to 4 of 4 characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_lang_unicode', 'characters of 2 and 3 bytes: all texts of up to 2 characters of 6 characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_lang_bytes', 'text that need not be UTF-8: all texts of up to 3 of 8 bytes characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_lang_groups', 'repeated groups: all texts of up to 5 of 3 characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_lang_between', '** between other terms: all texts of up to 5 of 4 characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_lang_hidden_set', 'hidden sets: all texts of up to 4 of 4 characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_lang_insert_between', 'insertions in separators: all texts of up to 4 of 3 characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  J('p_ixml.c', 'h_lang_same_set', 'the same set twice, overlapping sets: all texts of up to 4 of 3 characters', 'one more', ['accepted', 'rejected'], max_instr=40000000),
  outside='other grammars (the encoded ones cover every construct of the notation), ambiguous grammars and all parses, error recovery, longer texts')
NA = {}

ED = 'the program run on a document that is written together with what should become of it; '
P('C29',
  J('p_cli.c', 'h_edit_flat', ED + '3 items out of {text, 2 entities, comment, empty element, element with an attribute of 5 kinds}, 7 commands', '4 items', ['done'], max_instr=8000000),
  J('p_cli.c', 'h_edit_runs', '0..5 items out of {text, 2 entities, element} in an element or attribute, 4 commands', '0..6', ['done'], max_instr=8000000),
  J('p_cli.c', 'h_edit_nested', ED + '2 items that can be elements with 0..1 items', '0..2 items', ['done'], max_instr=8000000),
  J('p_cli.c', 'h_edit_text', 'one text of 1..4 bytes (every valid UTF-8) in a document where everything around it is edited by 7 commands', '1..6 bytes', ['done'], max_instr=8000000),
  J('p_cli.c', 'h_edit_names', 'delete-entity and replace-entity (by text or file) given every name of 1..5 printable characters, on entities with every name of 1..5 letters', '1..7', ['done'], max_instr=8000000),
  J('p_cli.c', 'h_replace_file', 'replace-entity by 7 kinds of files, 0..2 parts in an attribute, 0..2 items', None, ['done'], max_instr=8000000),
  J('p_cli.c', 'h_select_flat', ED + '3 items, select of elements and attributes, followed by nothing, add-root or delete', '4 items', ['done'], max_instr=8000000),
  J('p_cli.c', 'h_select_nested', ED + '2 items that can be elements with 0..1 items', '0..2 items', ['done'], max_instr=8000000),
  J('p_cli.c', 'h_substitute', ED + '2 items with 0..1 items, both substitute commands, comments around', '0..2 items', ['done'], max_instr=8000000),
  J('p_cli.c', 'h_replace_bytes', 'replace-entity with every valid text of 1..4 bytes at 6 places', '1..5', ['done'], max_instr=8000000),
  J('p_cli.c', 'h_replace_syntax', "replace-entity with 1..4 characters over {' a newline & { ; space} at 6 places", '1..5', ['done'], max_instr=8000000),
  J('p_cli.c', 'h_add', ED + '0..2 items, 5 kinds of added content, with and without add-root and document', None, ['done'], max_instr=8000000),
  J('p_cli.c', 'h_statistics', ED + '2 items with 0..1 items, the counts are made from the tree', None, ['done'], max_instr=8000000),
  J('p_cli.c', 'h_edit_any', 'memory safety: 2 commands out of {select, delete, for-each with 10 paths, replace, delete and substitute entities} on 3 kinds of documents', None, ['done'], max_instr=8000000),
  assumptions=['XPath is evaluated by a model of libxml2 for the paths used; counterexamples are replayed with libxml2'],
  outside='transform and validate (libxslt, schemas), other XPath expressions, namespaces with select and add-root, substitution of entities that are not characters, the pager and the browser')
P('C30',
  J('p_cli.c', 'h_each_template', 'every command of 1..9 characters over { $ { } . n a - }', '1..11', ['done'], max_instr=8000000),
  J('p_cli.c', 'h_each_name', 'every name of 1..4 bytes in ${ }', '1..5', ['done'], max_instr=8000000),
  J('p_cli.c', 'h_each_content', 'every valid content of 1..6 bytes, 2 matches', '1..8', ['done'], max_instr=8000000),
  J('p_cli.c', 'h_each_parts', 'a match with 0..2 children of 0..2 parts out of {text, comment, entity, character, element, element of 1..2 parts}', '0..3 parts', ['done'], max_instr=8000000),
  J('p_cli.c', 'h_each_match', '5 documents with 0..2 matches, one or two for-each, with a shell and without one', None, ['done'], max_instr=8000000),
  assumptions=['fork and execve are stand-ins that record what they are given; the child is run until it calls execve'],
  outside='what the shell does with the command, Windows')
P('C31',
  J('p_cli.c', 'h_words_one', '28 commands with 0..2 arguments out of 7, on 4 sources', '0..3', ['done'], max_instr=20000000),
  J('p_cli.c', 'h_words_two', '2 commands out of 28', 'with 0..1 arguments each', ['done'], max_instr=20000000),
  J('p_cli.c', 'h_words_global', '0..2 options out of 20', '0..3', ['done'], max_instr=20000000),
  J('p_cli.c', 'h_words_bytes', 'every word of 0..2 bytes at 6 places of the command line', '0..3 (2 for an indentation)', ['no command', 'done'], max_instr=20000000),
  J('p_cli.c', 'h_files', '4 inputs, 3 outputs, every combination of failing reads, opens, writes and closes', None, ['done'], max_instr=20000000),
  J('p_cli.c', 'h_same_syntax', "every source of 1..4 characters over {a = { } ' & % ; / * ( 1 \" newline space}, 7 outputs", '1..5', ['done'], max_instr=20000000),
  J('p_cli.c', 'h_same_bytes', 'every source of 1..2 bytes without <, 7 outputs', '1..3', ['done'], max_instr=20000000),
  outside='transform, validate, page and browse; sources that libxml2 parses')
P('C32',
  J('p_out.c', 'h_out_tree', 'elements with 0..2 items out of {2 texts, 3 entities, comment, empty element, element with 0..1 items}', '0..2 items of 0..1 items', ['done']),
  J('p_out.c', 'h_out_attrs', 'an element with 4 kinds of attributes, 0..1 items, nested once', 'nested twice', ['done']),
  J('p_out.c', 'h_out_text', 'every valid text of 1..3 bytes as content and as attribute', '1..4', ['done']),
  outside='prefixes of names in lines, documents of only comments, processing instructions')
P('C33',
  J('p_api.c', 'h_writers_syntax', "every source of 1..3 characters over {a = { } ' & ; / * ( 1 \" newline space}, 10 formats, 3 ways", '1..4', ['parsed', 'done']),
  J('p_api.c', 'h_writers_bytes', 'every source of 1..2 bytes without <, 10 formats, 3 ways', 'the same', ['parsed', 'done']),
  J('p_api.c', 'h_writers_text', 'every valid text of 2 bytes in quotes, 10 formats, 3 ways', '3', ['parsed', 'done']),
  J('p_api.c', 'h_writers_none', 'a document without content, 10 formats, 3 ways', None, ['done']),
  J('p_api.c', 'h_omit_decl', "every source of 0..3 characters over {a = { } ' ? / * ( ) newline space}, standalone or not, omitted or not", '0..4', ['parsed', 'nothing', 'done']),
  assumptions=['xmlDocDumpMemoryEnc is a model'],
  outside='HTML documents (libxml2 serializes them); changing settings between two calls; xmqSetupPrintFile and xmqSetupPrintFileDescriptor, which are declared but not implemented')
P('C34',
  J('p_api.c', 'h_relative', 'documents of 0..2 items out of {4 leaves, comment, element with an attribute or not and 0..1 items}, nested twice; 7 queries relative to every element and attribute, compared with a walk of the tree', '0..3 items', ['done']),
  J('p_api.c', 'h_queries', 'documents of 0..3 items out of {2 elements with the name that is looked for, 1 without, comment, element of 0..1 such items}, 8 queries, stopping at 0..2 matches', '0..3 items of 0..2', ['done']),
  J('p_api.c', 'h_number_short', 'every number of 1..3 digits, decimal, hexadecimal and octal, as element, attribute and quote', '1..4', ['int', 'done']),
  J('p_api.c', 'h_number_long', 'every number of 11 decimal, 9 hexadecimal or 12 octal digits', '12', ['int', 'long', 'done']),
  assumptions=['XPath is a model (paths of names, *, // and attributes)'],
  outside='content of several parts (only its first part is given), numbers that do not fit, xmqGetDouble, negative hexadecimal and octal numbers')
P('C35',
  J('p_page.c', 'h_pager_short', 'every text of 0..4 bytes, 1 key out of 9, terminals of 1..3 columns and 1..2 rows', '0..6', ['done']),
  J('p_page.c', 'h_pager_keys', 'every text of 0..3 bytes, 2 keys', '0..4, 3 keys', ['done']),
  J('p_page.c', 'h_pager_wide', '1..2 lines out of 7, 2 keys, terminals of 2..4 columns and 1..2 rows and of unknown size', '1..3 lines', ['done']),
  assumptions=['every escape ends with m on its line', 'the terminal is a model: reading gives one byte of a key, the end or an error'],
  outside='characters that are not one column wide')
P('C36',
  J('p_xslt.c', 'h_transform', '1..2 transforms with 3 results, 10 commands after them, missing, unreadable and absent stylesheets', None, ['done'], max_instr=8000000),
  J('p_xslt.c', 'h_transform_fails', 'a document that is not a stylesheet, a transform without a result, 10 commands after it', None, ['done'], max_instr=8000000),
  J('p_xslt.c', 'h_transform_odd', 'results of 0..3 top level nodes out of {comment, text of 1..3 valid bytes, element}, 10 commands after it', '1..4 bytes', ['done'], max_instr=8000000),
  J('p_xslt.c', 'h_transform_params', '1..3 parameters or string parameters with 3 names and every value of 0..3 bytes', '0..5 bytes', ['refused', 'done'], max_instr=8000000),
  J('p_xslt.c', 'h_validate', '3 kinds of schemas and none, everything the validation can answer, silent or not, 10 commands after it', None, ['done'], max_instr=8000000),
  assumptions=['libxslt and the schemas of libxml2 are stand-ins that check and record what they are given, and succeed, warn or fail in every way'],
  outside='what a stylesheet or schema means; included stylesheets')
P('C37',
  J('p_term.c', 'h_theme_env', 'XMQ_THEME, TERM and COLORFGBG absent, 7 usual values, or every text of 0..3 (COLORFGBG 0..4) bytes', '0..5 (0..7)', ['mono', 'dark', 'light'], max_instr=8000000),
  J('p_term.c', 'h_theme_bytes', 'every answer of 0..5 bytes, then the end or an error', '0..8', ['done'], max_instr=8000000),
  J('p_term.c', 'h_theme_colors', 'answers with 6 values for each color', None, ['dark', 'light', 'done'], max_instr=8000000),
  J('p_term.c', 'h_theme_edit', '4 answers cut after, with a byte inserted or with a byte replaced at any position by every byte', '2 bytes', ['dark', 'light', 'done'], max_instr=8000000),
  J('p_term.c', 'h_theme_digits', 'an answer with 1 arbitrary hexadecimal digit in each color', '2 digits', ['dark', 'light', 'done'], max_instr=8000000),
  assumptions=['the terminal is a model: reading gives one byte, the end or an error; floating point is computed for every value of the digits'],
  outside='the alarm for a terminal that does not answer; a brightness within 1/256 of the limit')
P('C38',
  J('p_term.c', 'h_browse_name', 'every file name of 1..3 bytes in 3 directories, failing to create, write and show the page', '1..5', ['failed', 'done'], max_instr=8000000),
  J('p_term.c', 'h_browse_stdin', 'standard input, failing to create, write and show the page', None, ['failed', 'done'], max_instr=8000000),
  assumptions=['the shell is a model of its quoting that takes any other special character for a violation'],
  outside='names longer than 1000 bytes, Windows')
