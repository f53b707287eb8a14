FIXED = [
 ('C02', 'fix: do not loop forever on a tab or an invalid character in attributes or a compound', 'a(<tab> and a=(x never ended'),
 ('C02', 'fix: do not read past the end of the buffer when a value is missing after =', 'a= read behind the buffer'),
 ('C02', 'fix: do not read before the start of the buffer when the first character is = { or (', 'a leading = read before the buffer'),
 ('C02', 'fix: do not overflow the code point buffer when reporting an invalid char', 'stack overflow while writing U+... for large code points'),
 ('C01', 'fix: do not read outside of the buffer or leave the char uninitialised when peeking invalid utf8', 'a truncated sequence at the end of the buffer was read past the end'),
 ('C02', 'fix: do not crash when = { or ( follows a comment ending with =', '//=<newline>= aborted'),
 ('C02', 'fix: free pending names when a parse stops on an error', 'names leaked when a parse failed'),
 ('C09', 'fix: do not skip content or read past the end when trimming a short line in a quote', "content of lines shorter than the indentation was dropped ('<cr>a')"),
 ('C13', 'fix: detect a byte order mark that ends the buffer and set an error for utf16', 'a lone byte order mark was parsed as content, UTF-16 failed without an error number'),
 ('C07', 'fix: do not attach the value, attributes or children of a doctype or pi to another node', '?foo(a), !DOCTYPE x, ?foo b=c: the value ended up in another element'),
 ('C02', 'fix: free the previous href when a namespace is declared more than once', 'leak on a(xmlns=b xmlns=c)'),
 ('C07', 'fix: do not use the value of an attribute as the value of a previous namespace declaration', 'a(xmlns b=c) changed the namespace to c'),
 ('C02', 'fix: do not read the byte after the end of the buffer when parsing or detecting content', 'a, a=, // and < read the byte at stop'),
 ('C02', 'fix: do not read after the buffer for an empty namespace or a short last comment line', 'a(xmlns:b= at the end of the buffer and //x<cr><tab>'),
 ('C10', 'fix: unquote backslash and hex escapes and do not leak or read past the end on bad c quotes', 'unquoting lost every escaped backslash and control char, leaked and read past the end on a missing quote'),
 ('C15', 'fix: escape a hyphen that ends an xml comment', '//x- became <!--x--->, which is not XML'),
 ('C07', 'fix: see the equals after unicode whitespace when parsing a processing instruction', '?pi <nbsp>= a put the text into another node'),
 ('C05', 'fix: print quotes so that spaces before newlines, surrounding blanks and runs of single quotes survive', "text with a blank before a newline, leading/trailing blanks or quotes at the end of a line changed when printed and parsed again"),
 ('C06', 'fix: separate a compact text value that ends with ; or / from what follows', 'a=x/ followed by a sibling became another text'),
 ('C27', 'fix: bind default and prefixed namespaces to the nearest declaration', 'c in a{b(xmlns=u) c} was put into u, the prefix of x:b in x:a(x:b=1 xmlns:x=u) was lost'),
 ('C07', 'fix: put entities and compound values of a namespace declaration into its href and print them so', "xmlns=('u' &amp;) put the value into a wrong place"),
 ('C08', 'fix: use enough slashes around a compact comment that contains */', 'the rest of a compact comment with */ became markup'),
 ('C07', 'fix: print an attribute value that begins with an empty quote before an entity', "a(x=('' &foo;)) printed something that cannot be parsed"),
 ('C02', 'fix: reject character entities that are not a code point', '&#1114112; aborted'),
 ('C07', 'fix: end the prefix of a name at its first colon and never leave the name empty', 'a::b, :class and b: got names that changed when printed'),
 ('C07', 'fix: print the content of a pi and a doctype as one value that can be parsed', 'a pi with blanks before a newline, quotes or tabs printed entities or lines that cannot be parsed'),
 ('C07', 'fix: reject a doctype without a name and do not leak the doctype that could not be parsed', "!DOCTYPE= gave a doctype without a name that could not be parsed when printed; !DOCTYPE='' leaked"),
 ('C14', 'fix: separate adjacent quotes in a compact quote', "a compact quote of '<newline>' ran two quotes together and gave another text"),
 ('C20', 'fix: do not reuse the arguments when a log line does not fit, do not leak its quote', 'a log value longer than the buffer used a consumed va_list (crash); the quote leaked'),
 ('C21', 'fix: end the color of a quote that has only newlines', 'markup of a quote that has only newlines was never closed in HTML and TeX'),
 ('C21', 'fix: escape every character that is special in TeX', '$ % ^ ~ and an escaped backslash acted as TeX markup'),
 ('C25', 'fix: do not read past the end of a color definition and reject unknown marks', '#aabbcc_ read past the end of the string, #aabbcc_X was accepted'),
 ('C11', 'fix: accept exactly the numbers of json', '01, 1., 1e and .5 were accepted as numbers'),
 ('C11', 'fix: report truncated or unbalanced json instead of aborting, looping or reading past the end', '[, {"a and tru aborted, looped or read past the end; [1}]] was accepted'),
 ('C11', 'fix: free decoded json strings when the parse stops on an error', 'decoded strings leaked when a parse failed'),
 ('C11', 'fix: decode json surrogate pairs and \\/, reject escapes that are not a character', 'surrogate pairs became two broken characters, \\/ was rejected, \\x was accepted'),
 ('C12', 'fix: escape control characters and namespaces the json way when printing json', 'control characters and hrefs gave text that is not JSON'),
 ('C11', 'fix: do not read the byte after the end of the buffer when skipping whitespace', 'a blank at the end of the buffer read the byte at stop'),
 ('C11', 'fix: parse negative numbers as json when asked to and explain a mismatching content type', '-1 was refused as JSON without a message'),
 ('C12', 'fix: print the key of an empty object or array whose key is not a name', '{"":{}} and {"/":[]} lost the key and were printed as something that is not JSON'),
 ('C12', 'fix: keep unknown entities and &amp; in a text that is printed as json', "a=('x' &foo; 'y') printed x and lost the rest"),
 ('C12', 'fix: print texts, comments, entities and empty elements in a json array without crashing', "_(A){'1'}, _(A){_(S)}, _(_) dereferenced null; a comment in an array gave text that is not JSON"),
 ('C13', 'fix: detect json that is a negative number or a word followed by blanks, and html after comments and blanks', '-1 and true followed by a blank were taken for XMQ, <!-- --> <html> for XML, <!-- -->xhtml for HTML'),
 ('C23', 'fix: load pipes and unseekable files without overflowing the buffer, report and clean up after every failed load', 'loading a pipe overflowed the heap; failed loads left files open, leaked or had no message'),
 ('C23', 'fix: read text and grammar files of the cli until their end, also when they are pipes', 'the same overflow in the command line tool'),
 ('C23', 'fix: free the output buffer when nothing could be printed into it', 'tokenizing a text that fails leaked the output buffer'),
 ('C17', 'fix: end ixml comments that are not closed, and skip comments and doubled quotes when looking ahead in a grammar', 'a=["a"{ never ended, a=-{x}"b". was rejected, a comment after a mark could abort'),
 ('C17', 'fix: report malformed ixml grammars as errors instead of crashing, and free everything after an error', 'grammars such as a=~b. or a=+#41. or a>= aborted or crashed, reads past the end of the buffer, overflow of the name of a long set, invalid UTF-8 ended the program'),
 ('C26', 'fix: an ixml terminal without a mark has no mark', 'the mark of a terminal was read uninitialised'),
 ('C26', 'fix: report text that an ixml grammar rejects as an error, without exiting, jumping out or reading past its end', 'a rejected text gave success with an empty document, printing the position read past the end of the text, invalid UTF-8 ended the program'),
 ('C18', 'fix: allow every unicode character in an ixml grammar and its input', 'characters above U+30D40 aborted'),
 ('C26', 'fix: ixml alternatives can be empty before ;, and the mark of a term does not leak into a set, group or insertion after it', "A = ; 'a'. was rejected; S = @x, ['b']*. gave the set the mark of x"),
 ('C12', 'fix: a JSON key that only begins with _xmlns is an attribute, not a namespace declaration', 'a(xmlns1=u), printed as JSON and read back, put a into the namespace u'),
 ('C31', 'fix: an error message that quotes the source is not a format string', 'xmq -i "%n=" to-xmq: a source with a format specifier in its error message was used as a format'),
 ('C29', 'fix: delete does not use the deleted nodes afterwards, nor free the document', 'delete //a of nested elements or of the root used freed nodes'),
 ('C29', 'fix: delete-entity deletes the entities in attributes too', 'delete-entity left the entities in attributes'),
 ('C29', 'fix: replace-entity does not take the declarations of a doctype for attributes', 'replace-entity on a document with a doctype that declares entities crashed'),
 ('C29', 'fix: replace and substitute work on empty documents, all top level nodes and attributes', 'replace-entity and substitute only looked at the first root element, crashed without any'),
 ('C29', 'fix: select and for-each handle matches without an element and several matches in the same element', 'select //@k and several attributes of one element crashed or lost matches'),
 ('C29', 'fix: a node added to a document knows its document', 'add-root and add left nodes that point to another document'),
 ('C30', 'fix: for-each passes on the entities of the content, and its child ends when there is no shell', 'for-each lost the entities of ${.}, and without a shell the child went on as xmq'),
 ('C31', 'fix: refuse commands without their arguments or document, fail when the output cannot be saved', 'commands without arguments or without a document crashed, and failed saves gave success'),
 ('C32', 'fix: text and clines output show the entities, also in attributes, and skip doctypes', 'text and clines lost the entities and printed the doctype'),
 ('C29', 'fix: replace-entity inserts every node of a file, and only its text in an attribute', 'replace-entity e --with-file=f crashed when e is in an attribute or f has a doctype, and only inserted the first node of f'),
 ('C33', 'fix: do not give the writer a missing part (colors without a start or end)', 'a non-breakable space printed without colors gave a custom writer NULL'),
 ('C33', 'fix: XML and HTML are printed with any writer, not only to memory', 'printing XML or HTML to standard output or a custom writer crashed'),
 ('C33', 'fix: clines gives the writer no missing name for the document', 'line output gave a custom writer NULL'),
 ('C33', 'fix: omit-decl leaves out the whole declaration, whatever it holds', '--omit-decl of a document with standalone="yes" printed a part of the declaration'),
 ('C35', 'fix: page shows whole rows, finds the previous row and the end of short texts, and ends with its input', 'the pager read before the start of a short text after >, repeated a character of each wrapped row, skipped an empty first line, got stuck below long lines and ran forever when its input ended'),
 ('C36', 'fix: a transform without result or stylesheet and validate without schema are errors', 'transform without a stylesheet crashed, and a transform that fails left no document: to-xml, to-text, statistics and add crashed and to-xmq gave success'),
 ('C37', 'fix: a COLORFGBG that ends with ; is not read past its end', 'COLORFGBG=0; was read past its end'),
 ('C38', 'fix: browse quotes the file name for the shell, and fails when the page cannot be written', 'browse gave the file name to the shell unquoted (the source a;id.xmq ran id), and gave success without a page'),
 ('C31', 'fix: name the word that is not a command', 'xmq -i a foo: no such command "a"'),
 ('C35', 'fix: page gives every utf8 character one column', 'the pager counted the bytes of a character as columns and broke rows inside of characters'),
]
KNOWN = [
 dict(id='unicode-tables', property='C18', kinds=['assert'], what='[Lu] does not match U+10400, [Lo] does not match U+4E01, [Co] does not match U+E000, [Lu] matches U+1040: the category tables of parts/text.c keep only four digits of every code point and list only the ends of ranges'),
]
