#!/usr/bin/env python3
"""Source of properties.jsonl: one P(...) per property, written out as JSON lines."""
import json, os, sys

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
ROWS = []


def P(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    row = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    }
    if state:
        row["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    ROWS.append(row)


POP = "rust/src/poparser.rs"
MOP = "rust/src/moparser.rs"
EM = "rust/src/entry/mod.rs"
PE = "rust/src/entry/poentry.rs"
ME = "rust/src/entry/moentry.rs"
FM = "rust/src/file/mod.rs"
PF = "rust/src/file/pofile.rs"
MF = "rust/src/file/mofile.rs"
TW = "rust/src/twrapper.rs"
ES = "rust/src/escaping.rs"

P("C01", "A PO catalog survives being written as text and read back",
  "Writing a PO catalog as text and parsing that text gives back the same header (blank lines at its end aside), metadata, metadata fuzzy mark and messages, with every field of every message (ids, translations, plural forms, context, comments, occurrences, flags, previous ids, obsolete mark) unchanged, whatever characters the strings contain. Non-obsolete messages keep their relative order and come before obsolete ones, which also keep theirs; an obsolete message keeps everything except its occurrences and previous ids.",
  ["inputs", "configurations"],
  "Every catalog whose messages have a non-empty id (any Unicode text, including control characters, quotes, backslashes and newlines, in the string fields; comment lines that fit the line width and do not end in whitespace; occurrence paths without whitespace or colon), for every wrap width.",
  "The tests parse some thirty fixed files and compare a few fields or the whole text; no test builds a catalog with arbitrary strings, so combinations such as a plural, obsolete message with a long multi-line context at a narrow width are never written and read back.",
  [EM, PE, PF, POP, ES, TW],
  [("field writer", EM + " POStringField::fmt"), ("entry writer", PE + " to_string_with_wrapwidth"), ("file writer", PF + " Display for POFile"), ("line state machine", POP + " parse_line / handle_*"), ("escape/unescape", ES)],
  ["POFile::to_string + pofile(content)"])

P("C02", "Reading PO text yields exactly what the text says, however it is laid out",
  "For any well-formed PO document the parsed header, metadata and messages are exactly those the document spells out, field by field and in document order. The result does not depend on layout: how strings are split over continuation lines, indentation and spacing, blank lines, CRLF or LF line ends, a byte order mark, or how comment, flag and occurrence lines are interleaved.",
  ["inputs"],
  "Every well-formed PO document: any message content, any legal lexical layout of it.",
  "Fixture files fix one layout each (one indented file, one BOM file); tests mostly check counts of entries or one field, so e.g. the text of continued previous ids or multi-line contexts in obsolete plurals is not compared.",
  [POP, "rust/build.rs", ES, PE],
  [("line state machine and transition table", POP + " parse_line, rust/build.rs transitions_table"), ("field handlers", POP + " handle_he..handle_mc"), ("string unescaping", PE + " unescaped")],
  ["pofile(content) fields"],
  [("current_state", "the kind of the last line seen, decides what a continuation extends", POP + " POFileParser"), ("current_entry", "message being assembled", POP + " POFileParser"), ("msgstr_index", "plural form a continuation line extends", POP + " POFileParser")])

P("C03", "Saving an accepted PO document again changes nothing more",
  "If a PO text is accepted, the text the library writes for it is accepted too and describes the same messages, metadata and header (occurrences and previous ids of obsolete messages, and where comments are wrapped, aside), and writing that once more reproduces it byte for byte. So repeated load/save cycles never drift, lose or duplicate content.",
  ["inputs", "histories"],
  "Every text the parser accepts, including irregular hand-edited ones, and any number of load/save cycles.",
  "Tests format a few files once and compare with a stored text; none iterates load/save or starts from irregular accepted input.",
  [POP, PE, EM, PF],
  [("writer", PF + " Display for POFile"), ("reader", POP)],
  ["pofile(text).to_string() iterated"])

P("C04", "Reading PO input never crashes and never silently drops the rest of it",
  "Given any text, any bytes or any file content, reading it as PO either succeeds or reports a syntax error; it never panics or aborts, and the memory it needs stays proportional to the input. Input that is not valid UTF-8 is reported as an error rather than being cut off at the first bad line and accepted.",
  ["inputs"],
  "Every text and byte sequence, passed as content, bytes or file.",
  "Tests feed a dozen hand-written malformed snippets; the space of malformed documents (unexpected line order, truncated quotes, multibyte characters at slice positions, huge plural indices) is unbounded.",
  [POP, "rust/src/errors.rs", "rust/build.rs"],
  [("transition lookup", POP + " process"), ("quoted string check", POP + " maybe_raise_unescaped_double_quote_found_error"), ("plural index handling", POP + " handle_mx"), ("line source", POP + " LinesHandler")],
  ["pofile(..) result or panic"])

P("C05", "A malformed PO line is rejected and the error names that line",
  "If a document becomes malformed at one line (unescaped or missing quote, unknown keyword, bad plural index, bad previous-message line, a field out of order, invalid UTF-8), reading it fails with a syntax error that carries that line's number and, for an unescaped quote on an unindented line of a non-obsolete message, its column. The message mentions the file path exactly when the document was read from a file.",
  ["inputs", "fault_sequences"],
  "Every well-formed document with one injected fault of a listed kind at any line, read from content or from a file.",
  "Each error kind is tested at one place in one short snippet; position arithmetic for indented, obsolete, CRLF or later lines is untested.",
  [POP, "rust/src/errors.rs"],
  [("unescaped quote search", POP + " find_unescaped_double_quote_index"), ("error construction", POP + " parse_line"), ("error rendering", "rust/src/errors.rs SyntaxError, MaybeFilename")],
  ["Err(SyntaxError) and its Display"])

P("C06", "Escaping and unescaping of PO strings are exact inverses",
  "For every string, unescaping its escaped form gives the string back, and the escaped form has no raw newline, carriage return, tab or unescaped double quote. Unescaping accepts exactly the strings whose backslashes all start a known escape, and otherwise fails telling whether the escape is unknown (and which character) or cut off at the end. The unescaped form of a message is the message with each of its strings unescaped.",
  ["inputs"],
  "Every Unicode string for escaping, every string for unescaping.",
  "Tests use a handful of literals; runs of backslashes, escapes at the very end and mixes with multibyte text are not enumerated.",
  [ES, "python/src/escaping.rs"],
  [("escape table", ES + " escape"), ("unescape table", ES + " EscapedStringInterpreter")],
  ["escape(), unescape(), POEntry::unescaped()"])

P("C07", "Wrapping a string over lines keeps it intact and respects the width",
  "When a string field is written over several lines, the quoted pieces joined together are exactly the escaped string, and no break falls inside an escape sequence or anywhere but at a Unicode line break opportunity. A piece is wider than the wrap width only if it has no usable opportunity, and a break is made only where the text up to the next opportunity would not fit, measured in display columns and not in bytes.",
  ["inputs", "configurations"],
  "Every string in any field of a message and every wrap width.",
  "Tests wrap about ten sentences at two or three widths, nearly all ASCII.",
  [TW, EM],
  [("break selection", TW + " get_linebreaks"), ("field layout", EM + " POStringField::fmt")],
  ["to_string_with_wrapwidth() lines"])

P("C08", "Long comments and occurrence lists are wrapped without losing anything",
  "However long comments, translator comments or the list of occurrences of a message are, every line written for them carries its comment marker, nothing but line-end whitespace is dropped, added or reordered, and lines exceed the wrap width only where a single item cannot be split, and are broken only where what follows would not fit. The written message stays readable by the parser at every wrap width and gives all occurrences back in order.",
  ["inputs", "configurations"],
  "Every message with any number and length of comment lines and occurrences, every wrap width including very small ones.",
  "No test writes a comment or an occurrence list longer than the wrap width.",
  [PE, TW],
  [("comment layout", PE + " format_comment_inplace"), ("occurrence layout", PE + " to_string_with_wrapwidth")],
  ["to_string_with_wrapwidth()", "pofile(text) occurrences"])

P("C09", "The text of a catalog is its parts in order, at the configured wrap width",
  "The text of a PO catalog is the header comment, the metadata block, every non-obsolete message and then every obsolete message, separated by single blank lines, each message being written exactly as it is written on its own at the wrap width configured for the catalog. Every non-obsolete message's lines follow the fixed order: translator comments, extracted comments, occurrences, flags, previous ids, context, id, plural id, translations, with the obsolete marker on every string line of an obsolete message.",
  ["inputs", "configurations"],
  "Every catalog and every configured wrap width, for PO and MO catalogs written as PO text.",
  "Tests compare a few stored texts at the default width; the configured width is never checked on the catalog's own text.",
  [PF, MF, PE, EM],
  [("file writer", PF + " Display for POFile"), ("MO as text", MF + " Display for MOFile"), ("entry writer", PE + " to_string_with_wrapwidth")],
  ["to_string() of POFile, MOFile, POEntry, MOEntry"])

P("C10", "An MO catalog survives being written as bytes and read back",
  "Writing an MO catalog as bytes in either byte order and either supported revision and reading them gives the same metadata and the same messages (context, id, plural id, translation or plural translations), sorted by key, and reports the byte order and revision that were written.",
  ["inputs", "configurations"],
  "Every MO catalog with distinct message keys whose strings contain no NUL and whose contexts and ids contain no EOT character; both byte orders, revisions 0 and 1.",
  "Tests re-serialise one or two stored files and compare lengths or bytes of one more serialisation; a reader error symmetric to a writer error, or one that needs context plus plurals, goes unseen.",
  [MF, MOP, ME, EM],
  [("writer", MF + " as_bytes_with"), ("reader", MOP + " parse_msgs"), ("key", EM + " maybe_msgid_msgctxt_eot_split")],
  ["as_bytes_with + mofile(bytes)"])

P("C11", "Written MO bytes follow the GNU MO format and every message can be looked up",
  "MO bytes written by the library are well formed for any consumer of the format: correct magic in the chosen byte order, in-bounds and non-overlapping tables and strings, every string NUL terminated, originals sorted bytewise so that binary search works, metadata under the empty key. Looking up any message by context and id in those bytes, as gettext does, returns exactly its translations, and no other keys exist.",
  ["inputs", "configurations"],
  "Every PO or MO catalog with distinct keys; both byte orders; revisions 0 and 1.",
  "Tests check byte lengths and a self-made round trip; no independent reader is applied to generated catalogs.",
  [MF, PF],
  [("layout arithmetic", MF + " as_bytes_with"), ("sort", MF + " as_bytes_with"), ("PO compile", PF + " AsBytes for POFile")],
  ["as_bytes(), as_bytes_le(), as_bytes_be(), as_bytes_with()"])

P("C12", "Any valid MO file is read correctly whatever its physical layout",
  "An MO file that conforms to the format is read to exactly the messages and metadata it encodes, regardless of byte order, of where tables and strings are placed, of gaps, alignment, shared strings or a present hash table, and of whether it has a metadata entry.",
  ["inputs"],
  "Every valid MO image for a given set of messages.",
  "The stored MO files come from one tool with one layout.",
  [MOP],
  [("table reading", MOP + " parse_indexes_table"), ("message decoding", MOP + " parse_msgs, maybe_extract_*"), ("metadata decoding", MOP + " parse_msgs")],
  ["mofile(bytes) fields"])

P("C13", "Reading MO input never crashes and never invents data for a damaged file",
  "Given any bytes, reading them as MO either succeeds or reports an error, without panicking, aborting or using memory out of proportion to the input. A file with a wrong magic number, an unsupported revision, or whose tables or strings reach past its end is rejected with the matching error; in particular no proper prefix that cuts off message data is accepted.",
  ["inputs", "fault_sequences"],
  "Every byte sequence, every truncation point of a valid file, every corruption of header fields, table entries and lengths.",
  "Tests truncate one file at a few header offsets; truncated string data and hostile lengths are not tried.",
  [MOP, "rust/src/errors.rs"],
  [("bounds on reads", MOP + " parse_4_bytes, parse_indexes_table, parse_msgs"), ("magic and revision checks", MOP + " parse_magic_number, parse_revision_number")],
  ["mofile(bytes) result"])

P("C14", "Compiling a PO catalog to MO keeps exactly the translated messages",
  "The MO form of a PO catalog contains its metadata and, for each message that is translated (not fuzzy, not obsolete, with a non-empty translation or with all plural forms non-empty), that message's context, id, plural id and translations; it contains nothing else. This holds whichever way the MO form is produced: as an object, as bytes, or as a saved file.",
  ["inputs"],
  "Every PO catalog with distinct keys, any mix of fuzzy, obsolete, untranslated, partly translated plural and context messages.",
  "One stored catalog is compiled and only counts and a length are checked.",
  [MF, PF, PE],
  [("filter", MF + " From<&POFile>"), ("translated rule", PE + " Translated for POEntry"), ("save", PF + " save_as_mofile")],
  ["MOFile::from(&POFile)", "as_bytes()", "save_as_mofile()"])

P("C15", "An MO catalog written as PO text reads back as the same messages",
  "Writing an MO catalog as PO text and parsing it gives a PO catalog with the same metadata and the same messages in the same order, and compiling that again gives the same MO bytes.",
  ["inputs", "configurations"],
  "Every MO catalog of translated messages with non-empty ids, any strings without NUL, every wrap width.",
  "Tests save one MO file as PO and look at a prefix of the text.",
  [MF, EM, POP],
  [("MO as text", MF + " Display for MOFile"), ("entry writer", EM + " mo_entry_to_string")],
  ["MOFile::to_string / save_as_pofile + pofile"])

P("C16", "Translated, untranslated, fuzzy and obsolete views classify messages correctly",
  "A message counts as translated exactly if it is not obsolete, not flagged fuzzy, and its translation is non-empty or, for a plural message, all its forms are non-empty. The views of a catalog list exactly the messages of their class in order (untranslated being all the others, fuzzy excluding obsolete ones), and the translated percentage is the share of translated messages among all of them, 0 for an empty catalog.",
  ["inputs"],
  "Every catalog with any combination of flags, obsolete marks, absent, empty and partly empty translations.",
  "Two stored files fix one count each.",
  [PF, PE, ME],
  [("translated rule", PE + " Translated for POEntry; " + ME + " Translated for MOEntry"), ("views", PF + " *_entries, percent_translated")],
  ["*_entries(), percent_translated(), translated(), fuzzy()"])

P("C17", "Searching a catalog returns exactly the matching messages in order",
  "Searching a PO or MO catalog by a field returns exactly the messages whose field equals the value (an absent optional field counting as empty), restricted to the given context if one is passed and excluding obsolete messages unless asked for, in catalog order; an unknown field matches nothing. Looking up by id, or by id and context, returns the first matching message or nothing.",
  ["inputs"],
  "Every catalog with repeated and missing field values, every field, value, context and obsolete option.",
  "Tests query one stored catalog with few fields and without clashing values.",
  [PF, MF],
  [("predicates", PF + " find; " + MF + " find"), ("lookup", PF + " find_by_msgid, find_by_msgid_msgctxt; " + MF + " same")],
  ["find*, both catalog kinds"])

P("C18", "Editing a catalog changes only the messages addressed",
  "Through any sequence of additions, field changes, removals and reloads, a catalog holds exactly the messages that the same operations on an ordered list would hold: removing a message removes those equal to it, removing by id or by id and context removes only the first match, and every other message and its position is untouched. Saving and loading in between, as PO text, does not change that.",
  ["histories"],
  "Every finite sequence of edits on PO and MO catalogs, interleaved with save and load.",
  "Tests perform single removals on one stored file.",
  [PF, MF],
  [("removal", PF + " remove*, " + MF + " remove*"), ("persistence", FM + " SaveAsPOFile")],
  ["entries after each step"])

P("C19", "Merging catalogs adds what is missing, retires what is gone, loses nothing",
  "After merging a reference catalog into another, every message of the reference (identified by id and context) is present, those that were missing being appended as copies in reference order; messages the reference does not have become obsolete and all others keep their obsolete mark. No existing message is removed or reordered, and the catalog's header and metadata are unchanged; a message present in both is updated from the reference.",
  ["inputs"],
  "Every pair of catalogs, with shared ids under different contexts, duplicates and obsolete messages on either side.",
  "The only test merges two small catalogs without contexts.",
  [PF, PE],
  [("merge", PF + " Merge for POFile"), ("entry merge", PE + " Merge for POEntry")],
  ["POFile::merge"])

P("C20", "Comparing messages is a consistent order that honours the chosen fields",
  "For every choice of fields, comparing messages is a total preorder: comparing a message with itself gives equal, swapping the operands reverses the result, and it is transitive. Two messages compare equal exactly if they agree on every chosen field (lists of occurrences, flags and plural translations regardless of order, an absent optional field being the same as absent), and fields not chosen never matter; the result follows the first differing field in the fixed precedence.",
  ["inputs", "configurations"],
  "Every pair and triple of PO or MO messages and all subsets of fields, given through the builder or as a list of names.",
  "Tests compare a few pairs on one field at a time.",
  [PE, ME, EM],
  [("comparison", PE + " cmp_by; " + ME + " cmp_by"), ("options", EM + " EntryCmpByOptions")],
  ["cmp_by"])

P("C21", "Converting and merging single messages carries every field over",
  "Converting a message between its PO and MO form carries over id, translation, plural id, plural translations and context unchanged and nothing else; merging one message into another makes it equal to that other in every field. The lookup key of a message is its id, preceded by the context and an EOT character if it has a context.",
  ["inputs"],
  "Every PO and MO message.",
  "Tests convert one or two messages with few fields set.",
  [PE, ME, EM],
  [("conversions", PE + " From<&MOEntry>; " + ME + " From<&POEntry>"), ("merge", PE + " Merge; " + ME + " Merge"), ("key", EM + " maybe_msgid_msgctxt_eot_split")],
  ["From, merge, msgid_eot_msgctxt"])

P("C22", "All ways of supplying and saving a catalog are equivalent",
  "A catalog read from a file path, from the same content as text, from its bytes, or through an options value (with or without a wrap width) is the same. Saving writes exactly the catalog's text or MO bytes to the given path, replacing whatever was there, so that loading the path gives the same catalog.",
  ["inputs", "configurations"],
  "Every catalog, every input form and save method, over pre-existing longer or shorter files.",
  "Tests open a few stored files by path; the bytes form is called but its result never compared.",
  [FM, PF, MF, POP, MOP],
  [("option conversions", FM + " From<..> for FileOptions"), ("source selection", POP + " parse; " + MOP + " MOFileParser::new"), ("save", FM + " SaveAsPOFile; " + MF + " Save")],
  ["pofile/mofile with each argument form; save*, file bytes"])

P("C23", "Written output depends only on content, metadata in canonical order",
  "Catalogs with equal content always produce identical text and identical MO bytes, in any process and whatever the history of the catalog. Metadata is written with the standard header keys first in their fixed order and all others after them in natural order (digit runs by value), one 'Key: value' line each.",
  ["inputs", "histories"],
  "Every metadata map, every insertion history of it, every catalog.",
  "Metadata lives in a randomly seeded hash map; a test run sees one seed and few keys.",
  [FM, PF, MF],
  [("key order", FM + " metadata_hashmap_to_ordered"), ("metadata text", FM + " metadata_hashmap_to_msgstr")],
  ["to_string(), as_bytes(), metadata_as_entry()"])

P("C24", "The metadata block is recognised and read completely",
  "The message with empty id and no context is the catalog's metadata: each of its 'Key: value' lines becomes one metadata item with the surrounding whitespace of the value removed, the same for PO and MO, and it is not listed among the messages. The metadata counts as fuzzy exactly if that block is flagged fuzzy; a message with an empty id but a context is an ordinary message, and a document without the block has no metadata.",
  ["inputs"],
  "Every header block: any number of items, values with colons, quotes, empty or multi-byte, any flags, block first or later in the document, in PO text and MO bytes.",
  "A few stored headers with ordinary keys are read; flags other than fuzzy, missing spaces and context messages with empty id do not occur.",
  [POP, MOP, FM],
  [("PO metadata", POP + " parse_with_handler"), ("MO metadata", MOP + " parse_msgs")],
  ["metadata, metadata_is_fuzzy, entries"])

P("C25", "Every message read from a document knows the line where it starts",
  "For every message after the first one of a document, the recorded line number is the 1-based number of the first line belonging to it (its first comment, flag, occurrence, previous, context or id line), whatever blank lines, line ends or continuation lines precede it.",
  ["inputs"],
  "Every well-formed document in any layout.",
  "One stored file has a few line numbers checked.",
  [POP],
  [("line counter", POP + " parse_line, add_current_entry")],
  ["POEntry.linenum"])

P("C26", "PO files are interchangeable with the reference implementation (polib)",
  "Every document the library writes is read by polib to the same header, metadata and messages, and every document polib writes is read by the library to the same content. On well-formed documents of the common domain they agree on every field of every message, whatever the layout.",
  ["inputs", "configurations"],
  "Every catalog in the common domain (single-digit plural forms, no vertical tab or form feed, no ambiguous occurrence paths), every wrap width.",
  "The Python tests compare nothing with polib on generated content.",
  [POP, PF, PE, EM, "python/src/pypofile.rs", "python/src/pypoentry.rs"],
  [("reader", POP), ("writer", PE), ("bindings", "python/src/pypofile.rs")],
  ["Python rspolib.pofile/str vs polib.pofile/str"])

P("C27", "Compiled MO files work in the gettext runtime",
  "An MO file saved by the library, from a PO or an MO catalog, is loaded by Python's standard gettext module and by polib, and answers every lookup (plain, plural, with context) with the catalog's translation; files that polib writes are read by the library to the same messages.",
  ["inputs"],
  "Every catalog of translated messages with distinct keys and valid header.",
  "No existing test loads the generated MO file with another reader.",
  [MF, MOP, "python/src/pymofile.rs", "python/src/pypofile.rs"],
  [("MO writer", MF + " as_bytes_with"), ("MO reader", MOP), ("bindings", "python/src/pymofile.rs")],
  ["gettext.GNUTranslations on saved file"])

P("C28", "The Python PO classes behave like a list of plain message records",
  "Through any sequence of calls on the Python PO catalog and message classes (reading and assigning every property, appending, removing, searching, iterating, indexing by position, length and membership tests, views, comparison, saving and loading), each call returns what a plain Python model of records in a list returns, and assigning one property changes no other. Every documented constructor argument sets its property.",
  ["histories"],
  "Every finite sequence of documented operations with any argument values.",
  "The Python tests call each method once on a stored file.",
  ["python/src/pypofile.rs", "python/src/pypoentry.rs", "python/REFERENCE.md", PF, PE],
  [("getters and setters", "python/src/pypoentry.rs, python/src/pypofile.rs"), ("delegation", "python/src/pypofile.rs")],
  ["rspolib.POFile, rspolib.POEntry"])

P("C29", "The Python MO classes behave like a list of plain message records",
  "Through any sequence of calls on the Python MO catalog and message classes (construction including the empty default, every property, append, remove, search, iteration, length, membership, comparison, bytes in both byte orders, saving and loading), each call returns what a plain Python model returns, and assigning one property changes no other.",
  ["histories"],
  "Every finite sequence of documented operations with any argument values.",
  "The Python tests call each method once on a stored file; the documented empty constructor is never called.",
  ["python/src/pymofile.rs", "python/src/pymoentry.rs", "python/REFERENCE.md", MF, ME],
  [("getters and setters", "python/src/pymoentry.rs, python/src/pymofile.rs"), ("delegation", "python/src/pymofile.rs")],
  ["rspolib.MOFile, rspolib.MOEntry"])

P("C30", "Python callers get the documented exception or result for any input",
  "Whatever text, path or file content Python code passes to the reading and escaping functions, the outcome is a result or the documented exception of its kind (syntax error for PO input, I/O error for MO input, escaping error for unescaping), never an interpreter-level panic. Escaping and unescaping in Python give the same results as an independent implementation of the escape table.",
  ["inputs", "fault_sequences"],
  "Every text, file content (including truncated and random bytes), and missing path.",
  "The Python tests trigger each exception at most once.",
  ["python/src/lib.rs", "python/src/exceptions.rs", "python/src/escaping.rs", "python/src/pypofile.rs", "python/src/pymofile.rs"],
  [("error mapping", "python/src/pypofile.rs, python/src/pymofile.rs, python/src/escaping.rs"), ("exception types", "python/src/exceptions.rs")],
  ["exceptions raised from Python"])

P("C31", "Writing never crashes, whatever a catalog contains",
  "Any catalog that can be built through the API, with arbitrary strings in every field (including NUL, EOT, control characters, empty strings and absent values) and any wrap width, can be written as text and as MO bytes without a crash, and the text still contains every message's id.",
  ["inputs", "configurations"],
  "Every PO and MO catalog value, every wrap width from 0 up.",
  "Tests only write catalogs that were read from well-formed files, at widths of 60 and more.",
  [PF, MF, PE, ME, EM, TW],
  [("writers", EM + ", " + PE + ", " + PF + ", " + MF)],
  ["to_string*, as_bytes*"])

P("C32", "The work of reading and writing grows in proportion to the size",
  "When one part of a PO document or catalog (the lines of a string, comment or header, the length of a string, a list of occurrences, flags or plural forms, the messages, the metadata) is made several times as large, the memory that is requested in all for reading it, writing it as text, compiling it, or reading and writing its MO form grows by no more than a constant factor times as much. In particular no line or message makes everything before it be copied again, so long inputs cannot make reading or writing quadratic.",
  ["inputs", "configurations"],
  "Every part of a document that can be repeated or lengthened, for text, bytes and files, every wrap width.",
  "The test files are small, and no test looks at cost; copying all previous lines for each further one goes unnoticed until a file is large.",
  [POP, MOP, PF, MF, EM, TW, "rust/src/escaping.rs"],
  [("accumulation of continued strings and comments", POP), ("writers", EM + ", " + PE + ", " + PF + ", " + MF)],
  ["pofile, mofile, to_string, as_bytes, under a counting allocator"])

P("C33", "What is made from values holds exactly those values and nothing else",
  "A message made from an id, from an id and a translation, from a line number or from all its parts has exactly these, every other field being absent or empty; a catalog made from a list of messages holds equal copies of all of them in order and nothing else. Options made from a path, text, bytes, a wrap width or other options hold exactly what was given, and a wrap width of 78 where none was; a new catalog is empty and, like one that was read or compiled, keeps the options it was given.",
  ["inputs", "configurations"],
  "Every list of messages, every string, byte content, path, line number and wrap width.",
  "Tests construct a few messages with short ASCII strings and look at the fields they set, not at the others or at the options that result.",
  [PF, MF, PE, ME, "rust/src/file/mod.rs"],
  [("conversions", PE + ", " + ME + ", rust/src/file/mod.rs"), ("catalogs from messages and options", PF + ", " + MF)],
  ["From conversions, POEntry::new, MOEntry::new, POFile::new, MOFile::new, FileOptions"])

P("C34", "Messages of a document are read independently of each other",
  "What is read for the lines of one message, well formed or merely accepted, does not depend on the messages before and after it: putting such pieces of text together in any order, with repetitions and with or without blank lines between them, gives exactly the messages of the pieces in that order. Their line numbers move with them, and header and metadata of the document do not change.",
  ["inputs"],
  "Every sequence of pieces of text each of which is accepted on its own and ends with a complete message.",
  "Tests read fixed files in which a message has the same neighbours each time, so state left over from one message to the next goes unnoticed.",
  [POP, "rust/build.rs"],
  [("state kept between lines", POP + " POFileParser")],
  ["pofile()"])

P("C35", "A syntax error is found at the first line that cannot be read",
  "When reading a PO text fails with an error that names a line, every text with the same lines up to that one fails with the same error, and the lines before it taken alone do not fail with an error that names a line. A text that is accepted gives no such error when it is cut after any of its lines.",
  ["inputs", "fault_sequences"],
  "Every text, every replacement of the lines after the one named, and every cut.",
  "Tests read a few malformed files with one error each; how the outcome relates to that of similar texts is not tested.",
  [POP, "rust/src/errors.rs", "rust/build.rs"],
  [("line-wise reading", POP + " parse_line, process")],
  ["pofile() and the text of its error"])

P("C36", "An error says what was found, and where",
  "The error for a damaged MO file gives the wrong magic number as read in both byte orders, the unsupported revision, or which part of the file and of which message could not be read, so that different faults give different errors. The error for a bad escape gives the whole string and the unknown character, and the same text is part of the error when such a string is in a message or document; the error for an unknown keyword or a bad plural index gives it with the line. What an error holds as values is also in its text.",
  ["inputs", "fault_sequences"],
  "Every MO file with one fault at any place, every string, keyword and plural index.",
  "Tests compare a few error values built by hand and hardly ever the text, which is what a user gets to see.",
  ["rust/src/errors.rs", "rust/src/moparser.rs", "rust/src/escaping.rs", POP],
  [("error texts", "rust/src/errors.rs"), ("errors reported", "rust/src/moparser.rs, rust/src/escaping.rs, " + POP)],
  ["errors of mofile(), pofile(), unescape() and POEntry::unescaped(), as values and as text"])

P("C37", "Results depend on nothing but what is given",
  "Reading, writing, compiling, saving, escaping, comparing or merging gives the same result for the same arguments (and, for a path, the same file content) however many calls of any kind, successful or failed, came before in the process, and whatever calls run in other threads at the same time. A path is read anew each time: if the content of the file has changed, the new content is what is read.",
  ["inputs", "histories", "schedules"],
  "Every list of calls, in every order and number of repetitions, in one or several threads.",
  "Each test makes a few calls in a process and compares none with the same call made earlier; a cache or a leftover of a failed call would stay unseen.",
  [POP, MOP, PF, ES, TW],
  [("state of the readers", POP + ", " + MOP), ("writing and saving", PF)],
  ["pofile(), mofile(), saving, formatting, as_bytes(), escape(), unescape(), cmp_by_options(), merge()"])

P("C38", "Saving leaves the whole file or fails visibly",
  "Saving a catalog in any of its forms either leaves exactly the catalog's text or bytes in the file, whatever was there before, or fails visibly (an exception in Python, a panic in Rust); it never returns as if it had succeeded when the file could not be created or written to its end. Saving does not fail if there is room for the content, and does not change the catalog.",
  ["inputs", "fault_sequences"],
  "Every catalog, every form, every point at which writing can stop, and paths where no file can be made.",
  "Tests save small files to a disk with room; no test makes a write fail.",
  [FM, PF, MF, "python/src/pypofile.rs", "python/src/pymofile.rs"],
  [("writing of files", FM + ", " + MF)],
  ["save(), save_as_pofile(), save_as_mofile() of POFile and MOFile, and the file"])

P("C39", "Lines are accepted exactly in the order the format has",
  "The lines of a message are its comments, occurrences, flags and previous ids in any order, then the context if it has one, the id, the plural id if it has one, and the translation or the numbered translations; a string line may be followed by continuation lines, and the next message begins only after a translation. Every document whose lines are in this order is accepted, and each line counts for the field it names in the message it belongs to. Otherwise the first line that is out of order (comments and the like between the strings of a message aside) is reported as a syntax error with its number.",
  ["inputs"],
  "Every sequence of lines of every kind, blank lines anywhere, obsolete or not.",
  "The stored documents are in order but for a few snippets; the pairs and longer sequences of line kinds are too many to write down.",
  [POP, "rust/build.rs"],
  [("states and transitions", POP + ", rust/build.rs")],
  ["pofile(): the messages, or the line of the error"])

with open(OUT, "w") as f:
    for r in ROWS:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
for r in ROWS:
    n = len([s for s in r["statement"].replace("'Key: value'", "KV").split(". ") if s.strip()])
    if n > 3:
        print("too many sentences", r["id"], n)
print(len(ROWS), "properties")
