"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["Handler.parse return value", "Handler.compile return value"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

F = "openformats/formats/"
ALLF = [F + x for x in ("plaintext.py", "srt.py", "vtt.py", "json.py", "android.py", "android_unescaped.py",
        "beta_android.py", "customizable_xml.py", "po.py", "stringsdict.py", "yaml/yaml.py", "yaml/yaml_i18n.py",
        "github_markdown.py", "github_markdown_v2.py", "markdown_jsx.py")]
OOX = [F + "docx.py", F + "pptx.py", F + "xlsx_unstructured.py", F + "office_open_xml/parser.py"]

prop("C01", "Compiling an untouched stringset reproduces the source file",
 "For every well-formed source file of a text format, compiling the template returned by parsing with the very stringset returned by parsing yields the source text again, byte for byte: same strings, comments, attributes, whitespace, separators and untranslated parts. For formats that re-serialise (PO, stringsdict-inlined plurals, YAML, Markdown, ICU plural spacing) the same holds modulo their normal form, and the normal form is a fixed point: repeating parse and compile on it changes nothing.",
 ["inputs", "configurations"],
 "every well-formed document (any number and mix of entries, lexical styles, nesting, plural shapes, newline style) of every text format handler",
 "The per-format tests round-trip one fixture file and a few hand-written snippets; the contract is about every document, and the failures live in combinations (entry kinds x neighbours x lexical style) no fixture contains.",
 ALLF + ["openformats/transcribers.py", "openformats/utils/compilers.py"],
 [("position-preserving copy of everything that is not a string", "openformats/transcribers.py Transcriber.copy_until/add/skip"),
  ("hash-for-string replacement and its inverse", "each handler's parse/compile pair")],
 [("template", "source with strings replaced by placeholders", "return value of parse"), ("stringset", "ordered extracted strings", "return value of parse")])

prop("C02", "The template is the source with exactly one placeholder per string, in place",
 "After parsing, the template equals the source text with the text of each extracted string (the whole plural body for a pluralised one) replaced by that string's own placeholder and nothing else changed. Every extracted string's placeholder occurs in the template exactly once, in stringset order, singular and plural marked as such, and no extracted source text is left at a string position.",
 ["inputs", "configurations"],
 "every well-formed document of every text format; every mix of singular, plural, blank, commented and non-translatable entries",
 "Tests compare one template per format with a stored file; off-by-one placements and double or missing placeholders depend on neighbouring entries and on text repeated elsewhere in the file.",
 ALLF + ["openformats/strings.py", "openformats/transcribers.py"],
 [("placeholder construction", "openformats/strings.py OpenString.template_replacement"), ("pointer arithmetic per format", "each handler's parse")],
 [("placeholder", "md5 of key and context plus _tr/_pl", "openformats/strings.py")])

prop("C03", "String identity: keys and contexts determine identity, no collisions",
 "A string's identity in the template is a function of its key and context only: it does not depend on its text, position, comments, other entries, or earlier parses. Within one parsed file all identities are distinct and strings come in document order with strictly increasing order numbers, and a file whose entries would share an identity is rejected with a parse error in every format that checks for duplicates (in Android only entries of one kind are duplicates; a string and a plural of one name are told apart). Distinct nesting paths produce distinct keys, whatever characters (dots, backslashes, colons, brackets) the path components contain.",
 ["inputs", "histories"],
 "every well-formed or duplicate-carrying document; every pair of documents differing only in texts or in unrelated entries; every key alphabet including the formats' own separators",
 "Tests assert a handful of keys; distinctness and independence quantify over all pairs of entries and documents, and collisions need crafted separator characters.",
 ["openformats/strings.py"] + ALLF,
 [("hash of key:context", "openformats/strings.py OpenString._get_string_hash"), ("duplicate detection", "existing_keys in json.py, existing_hashes in android.py, po.py, stringsdict.py, yaml"),
  ("key escaping", "json.py _escape_key, po.py, yaml/yaml.py")])

prop("C04", "Translations end up exactly at their own string and nowhere else",
 "Compiling a template with translated texts yields a file that, parsed again in the same format, returns for every key exactly the translation that was supplied (same key, context, plural rules and text), in the same order. Apart from the string positions the compiled file equals the source file, whatever the translations contain (longer, shorter, multi-line, non-ASCII or markup text, or text that looks like a placeholder or like another entry's text).",
 ["inputs", "histories"],
 "every document x every assignment of valid translations to its strings, partial or complete",
 "Tests translate one fixture with one dictionary; wrong-slot substitution needs repeated texts, prefix-sharing values, or translations containing other strings' text.",
 ALLF, [("in-order placeholder substitution", "each handler's compile")], None, ["Handler.compile return value", "Handler.parse of the compiled file"])

prop("C05", "Entries missing from the stringset are dropped without damage to the rest",
 "When some strings are absent at compile time (after template synchronisation for the formats that provide it), formats that remove untranslated entries emit a file with exactly those entries gone: every present string keeps its key, metadata and text, comments and non-translatable entries stay, and no placeholder of any string remains (a comment that describes nothing but a dropped entry may go with it). The result is a well-formed file of the format whichever subset of strings is absent, including all, the first, the last, and whole plural or nested groups.",
 ["inputs", "histories"],
 "every document x every subset of its strings being absent at compile",
 "There are 2^n subsets per document; tests remove one string in one or two positions of one document.",
 [F + x for x in ("srt.py", "vtt.py", "json.py", "android.py", "android_unescaped.py", "beta_android.py", "po.py", "stringsdict.py", "yaml/yaml.py", "yaml/yaml_i18n.py")] + ["openformats/transcribers.py"],
 [("section marking and removal", "openformats/transcribers.py mark_section_start/mark_section_end/remove_section"), ("comma cleanup", "json.py _clean_empties, ChromeI18nHandlerV3.compile"),
  ("node removal", "android.py, stringsdict.py, yaml.py, po.py compile")])

prop("C06", "Newline convention of the file is preserved and does not influence extraction",
 "A file using DOS line ends and the same file using UNIX line ends give the same strings, keys, metadata and error line numbers. Compiling a file with DOS line ends yields DOS line ends throughout, never a mixture, also where translations contain line breaks of either kind (PO files always come out with UNIX line ends); compiling a file with UNIX line ends adds no carriage return that is not in a translation.",
 ["inputs", "configurations"],
 "every document of every text format that keeps newlines, written with either convention, with any translations",
 "A few formats have a single DOS fixture; the guarantee is about all documents, comment/blank placements and translations.",
 ["openformats/transcribers.py", "openformats/utils/newlines.py"] + ALLF,
 [("newline detection and restoration", "openformats/transcribers.py Transcriber.__init__, get_destination; utils/newlines.py")])

prop("C07", "Synchronising a template leaves exactly the given strings in it",
 "For formats that support template synchronisation, syncing a template with a stringset yields a well-formed template holding exactly one placeholder for each given string and none for any other; retained entries keep their position, metadata and surroundings, added ones follow the last of them, and entries unrelated to strings are untouched. Syncing with the strings already in the template, or syncing twice, changes nothing, and compiling and re-parsing the synced template returns exactly the given strings with their keys, contexts and plural forms.",
 ["inputs", "histories"],
 "every template and every stringset obtained from it by removing any subset and adding any new strings (singular or plural, with and without context and metadata), in any container style (empty, single-line, multi-line, list or object root)",
 "The tests sync a dozen fixed templates; correctness quantifies over subsets, positions, nesting, and over which texts of the file look like separators.",
 ["openformats/handlers.py", F + "json.py", F + "po.py"],
 [("removal plus addition", "openformats/handlers.py Handler.sync_template"), ("JSON removal/insertion", "json.py remove_strings_from_template, _clean_empties, add_strings_to_template"), ("PO removal/insertion", "po.py remove_strings_from_template, add_strings_to_template")],
 [("stringset_index", "first string not found in the template", "json.py, po.py")], ["Handler.sync_template return value", "Handler.compile of the synced template", "Handler.parse of the result"])

prop("C08", "Parsing and compiling do not depend on history and do not modify their inputs",
 "The result of parsing or compiling depends only on its arguments: reusing one handler object after any sequence of earlier parses, compiles or synchronisations, including ones that failed, gives the same result as a new handler. Neither operation changes the strings handed to it, so compiling the same template and stringset twice, in either order of languages, gives the same files.",
 ["histories", "inputs"],
 "every sequence of parse/compile/sync calls, successful or failing, on one handler instance, for every handler",
 "Tests use a fresh handler per test; leaked state needs a particular earlier call, often a failing one.",
 ["openformats/handlers.py", "openformats/strings.py"] + ALLF + OOX,
 [("per-call reinitialisation of instance state", "each handler's parse/compile preamble")],
 [("handler instance attributes", "transcriber, stringset, stringset_index, current_comment, order counters, existing hashes", "each handler")])

prop("C09", "Plural forms keep their rules through parse, translation and compile",
 "Every plural form in a source file is extracted under its own plural rule, and compiling writes each supplied form under exactly that rule, for any set of rules the target language uses, whether larger or smaller than the source's. Rule names and rule numbers correspond one to one (zero, one, two, few, many, other to 0-5) and anything else is rejected.",
 ["inputs", "configurations"],
 "every non-empty subset of plural rules in source and target, in any file order, in every format with plurals",
 "63 x 63 rule-set pairs per format; tests use one/other and one richer set.",
 ["openformats/handlers.py", "openformats/utils/icu.py"] + [F + x for x in ("json.py", "android.py", "android_unescaped.py", "beta_android.py", "po.py", "stringsdict.py", "yaml/yaml_i18n.py")],
 [("rule tables", "openformats/handlers.py get_rule_number/get_rule_string"), ("plural serialisation", "utils/icu.py ICUCompiler; android.py, stringsdict.py, po.py, yaml_i18n.py compile")])

prop("C10", "Escaping and unescaping of strings are inverse to each other",
 "For the formats that expose escaping, unescaping an escaped text returns the text, for every text, and the escaped text can be put at a string position so that the compiled file is well-formed and an independent reader of the format reads back the original text. Escaping never changes text that needs no escaping and leaves inline markup alone where the format keeps it, while foreign or unbalanced markup is escaped as text. Where a format leaves backslashes to the author (Android) the law is about texts that are not themselves written with its escapes: not starting with an escaped at-sign, and, where the library escapes line breaks, without a literal backslash-n or backslash-t.",
 ["inputs"],
 "every text over the format's special characters (quotes, backslashes, control characters, entities, markup, @ and ?, newlines, non-ASCII), in any order and repetition",
 "Tests contain a few literal pairs; the inverse law is about all strings, and breaks on sequences such as a backslash before a quote.",
 ["openformats/utils/json.py", "openformats/utils/xml.py", F + "json.py", F + "android.py", F + "android_unescaped.py", F + "stringsdict.py"],
 [("escape/unescape pairs", "utils/json.py escape/unescape; android.py escape/unescape; android_unescaped.py; utils/xml.py escape/unescape; stringsdict.py")], None, ["Handler.escape / Handler.unescape return values", "compiled file read by an independent parser"])

prop("C11", "Malformed files are rejected with a parse error naming the right line",
 "A file that violates its format's rules in a way a reader of that format detects (bad syntax, duplicate keys, missing pieces, wrong types, bad numbering, invalid plurals) is rejected with the library's own parse error and nothing is extracted; it is never accepted silently and never ends in another exception. Where the message names a line, it is a line of the offending construct, wherever in the file it stands and whichever newline style and preceding content the file has.",
 ["inputs", "fault_sequences"],
 "every well-formed document with one fault of any kind the format diagnoses injected at any entry, after any preceding content",
 "Tests check each message once, near the start of a tiny file; line accounting depends on everything before the fault.",
 ALLF + ["openformats/exceptions.py", "openformats/utils/icu.py", "openformats/utils/xmlutils.py"],
 [("line accounting", "openformats/transcribers.py newline_count/line_number"), ("validation", "each handler's parse")], None, ["ParseError raised by Handler.parse and its message"])

prop("C12", "Content that is not translatable is never extracted and survives verbatim",
 "Blank values, comments, entries marked non-translatable, values of non-string type, metadata and other parts a format defines as not translatable never appear in the stringset. They are still present, unchanged and in place, in the template and in every compiled file, and do not disturb the extraction of the entries around them.",
 ["inputs"],
 "every document mixing translatable and non-translatable entries in any order, every format",
 "Tests contain isolated examples; interference with neighbours needs particular sequences.",
 ALLF + OOX, [("per-format filters", "each handler's parse")])

prop("C13", "Context, comments and other metadata belong to the right string",
 "Developer comments, context, character limits, occurrences, flags, tags and fuzzy marks given for an entry are attached to that entry's string, in full and to no other string. An entry without metadata never inherits it from an earlier entry, a non-translatable entry, or an earlier parse.",
 ["inputs", "histories"],
 "every arrangement of entries with and without metadata, blank and non-translatable entries between them",
 "Tests check one commented string; leaks appear only for certain successions of commented and uncommented entries.",
 [F + x for x in ("android.py", "android_unescaped.py", "beta_android.py", "json.py", "po.py", "stringsdict.py", "yaml/yaml.py", "customizable_xml.py", "srt.py", "vtt.py")],
 [("comment accumulation and reset", "android.py current_comment, stringsdict.py, beta_android.py"), ("metadata lookup", "json.py ARB _find_keys, StructuredJson find_children, Chrome _get_description")])

prop("C14", "Template transcription copies, replaces and removes exactly what it is told",
 "The transcription engine outputs exactly the source pieces copied and the texts added, in call order, with skipped pieces absent and removed sections (and only those) deleted. The reported line number is always one more than the number of newlines passed so far, by copying or skipping, and the output's newlines follow the source's convention unless another one is requested.",
 ["histories", "inputs"],
 "every sequence of copy, skip, add, mark and remove calls over every source text",
 "Tests run a few fixed scripts; the engine is a state machine whose behaviour must hold for every call sequence.",
 ["openformats/transcribers.py", "openformats/utils/newlines.py"],
 [("pointer, destination list, newline counter", "openformats/transcribers.py")],
 [("ptr", "how much of the source was consumed", "Transcriber.ptr"), ("destination", "output chunks and section marks", "Transcriber.destination"), ("newline_count", "newlines passed", "Transcriber.newline_count")],
 ["Transcriber.get_destination", "Transcriber.line_number", "Transcriber.ptr"])

prop("C15", "PO and POT files are told apart consistently and completely",
 "A gettext source file is treated as a template (strings are the message ids) when no entry carries a translation and as a translated file (strings are the translations) otherwise. A source mixing translated and untranslated entries, and any file carrying incomplete plurals, a translation of the wrong kind, missing message ids or duplicated entries, is rejected with a parse error. Of a translation file exactly the translated entries are extracted; fuzzy entries are extracted only under a fuzzy mark, and neither they nor untranslated entries are part of the template or of a compiled file.",
 ["inputs"],
 "every sequence of gettext entries: singular/plural, translated/untranslated/partially translated, blank, fuzzy, with and without context and comments",
 "The classification depends on the whole sequence of entries; tests contain a handful of sequences.",
 [F + "po.py"], [("file classification and entry filtering", "po.py PoHandler.parse")])

prop("C16", "ICU plural messages are recognised, split and rebuilt exactly",
 "A message of the form {argument, plural, rule {text} ...} is extracted as one pluralised string with exactly the rules and texts it contains, including nested braces, and everything else is a plain string; malformed plural messages, unknown or repeated rules are parse errors. Serialising the extracted forms and parsing again returns the same forms.",
 ["inputs"],
 "every message over the ICU plural token alphabet (braces, commas, rule names, =N selectors, whitespace, nested arguments, plain text)",
 "Tests cover some twenty literal messages; the grammar's case analysis needs enumeration.",
 ["openformats/utils/icu.py", F + "json.py"], [("ICU plural grammar", "utils/icu.py ICUParser"), ("serialisation", "utils/icu.py ICUCompiler")], None, ["ICUParser.parse result", "ICUCompiler.serialize_strings result"])

prop("C17", "Office documents: text, formatting tags and hyperlinks round-trip per paragraph",
 "For word-processing, presentation and spreadsheet documents every paragraph or cell with visible text yields one string whose formatting boundaries are marked, and compiling it unchanged reproduces each run's text and formatting. A translation's text appears in full and in order in its paragraph, distributed over the same runs according to its markers, links keep or update their targets, and no other paragraph changes; a translation with fewer, more or missing markers never loses text. (Texts holding the markers themselves are not expressible; runs of white space only may count to the text they precede.)",
 ["inputs"],
 "every paragraph structure (runs, formatting, line breaks, hyperlinks, white-space-only runs, repeated texts) and every translation with any markers",
 "Tests use about ten binary fixtures; the distribution algorithm's cases depend on run structure and on the translation's marker structure.",
 OOX, [("run merging and marker parsing", "office_open_xml/parser.py; docx.py, pptx.py, xlsx_unstructured.py compile")], None, ["Handler.parse stringset", "XML parts of the compiled package"])

prop("C18", "Office documents: package parts are preserved and no temporary data is left",
 "Parsing and compiling an office document preserves every package member that carries no translatable text, with its name (as far as names can be told apart on disk) and bytes, produces a readable package, and leaves its input bytes unchanged. Temporary working data is gone after each operation, whether it succeeds or fails, and concurrent or successive operations do not see each other's data.",
 ["inputs", "histories", "fault_sequences"],
 "every package (any extra members), every sequence of operations including failing ones",
 "Tests never look at other members or at the temporary directory, nor at failing operations.",
 OOX, [("unzip/rezip in a temporary folder", "docx.py DocxFile, pptx.py PptxFile, xlsx_unstructured.py XlsxFile extract/compress/delete")], None, ["members of the returned package", "temporary directory listing"])

prop("C19", "Structured JSON writes string metadata back into the file",
 "Compiling a structured JSON template writes each string's current context, developer comment and character limit into its own entry: changed values replace the old ones, values that were absent are added, emptied ones are cleared, all properly escaped, and other fields, other entries and the order of fields are untouched. Reading the compiled file back returns the metadata that was supplied.",
 ["inputs", "histories"],
 "every entry layout (which metadata fields are present, in what order, of what type) x every change of metadata, any nesting",
 "The combinations of present/absent/changed fields and neighbours are exponential; tests have a dozen.",
 [F + "json.py"], [("metadata rewriting", "json.py StructuredJsonHandler._compile_recursively")])

prop("C20", "The target language code is written where the format declares it, and only there",
 "When a target language is given, compiling replaces the locale declared in the file (the root-level @@locale text of application resource bundles, the tools:locale attribute of Android resources) by that language, however the old one is spelled, and changes nothing else; without one, or without a declaration, the file is unchanged. Look-alikes in comments, strings, nested members or other attributes are left alone. An internationalised YAML file that is generated without its template is wrapped in the language; compiled from the template it keeps its root.",
 ["inputs", "configurations"],
 "every file with and without locale declaration in any position and spelling, strings or comments that look like a declaration, any language code",
 "One fixture each; lookalikes and positions are unbounded.",
 [F + "json.py", F + "android.py", F + "yaml/yaml_i18n.py", F + "yaml/yaml.py"], [("locale replacement", "json.py ArbHandler.compile, android.py compile, yaml_i18n.py compile")])

prop("C21", "YAML values keep their scalar style and survive generation without a template",
 "YAML strings are extracted with a key that spells their full path and the style they were written in, and compiling writes any translation so that a standard YAML reader returns exactly that text at exactly that path, whatever characters it contains and whichever style it uses. Generating a file from strings alone, without a template, produces a document in which a standard YAML reader finds exactly the given strings at the paths their keys spell (custom tags of nested entries are not written in this mode).",
 ["inputs"],
 "every nesting of mappings and lists, every scalar style, every text including YAML-significant characters, leading/trailing spaces and line breaks",
 "The tests contain three fixtures; YAML's quoting rules interact with content in ways only enumeration reaches.",
 [F + "yaml/yaml.py", F + "yaml/yaml_i18n.py", F + "yaml/utils.py", F + "yaml/yaml_representers.py"], [("style-preserving dump", "yaml/yaml.py _wrap_yaml_string/_transform_yaml_string; yaml/utils.py YamlGenerator")])

prop("C22", "The positional JSON reader agrees with JSON",
 "For every valid JSON document, iterating the positional reader yields exactly the keys and values, in order, that a standard JSON reader yields (strings in their raw, escaped form), and each reported position is where that key or value stands in the text. Looking up children by name returns the right child or nothing. A text that stops being JSON between two tokens is refused, naming the line where it does.",
 ["inputs"],
 "every valid JSON document: nesting, empty containers, whitespace anywhere, escapes, numbers, literals, duplicate and odd keys",
 "The reader is a hand-written scanner; tests feed it a few literals.",
 ["openformats/utils/json.py"], [("hand-written scanner", "utils/json.py DumbJson")], None, ["DumbJson iteration", "DumbJson.find_children"])

prop("C23", "The positional XML reader agrees with XML",
 "For every well-formed XML element - with nested elements, self-closed elements, attributes in either quote style and with any spacing, comments, CDATA sections, text and tails - NewDumbXml reports the same tags, attributes, texts, comments and nesting as a standard XML reader, whatever order its properties are read in, and every reported position delimits exactly that piece of the text. A document that ends inside an element, tag, attribute, comment or CDATA section, or closes an element under another name, is rejected with DumbXmlSyntaxError when it is walked, and never crashes the reader or is misread.",
 ["inputs"],
 "every well-formed document over elements, self-closed elements, attributes in either quote style, comments, CDATA, text and tails, and every such document broken off or closed wrongly at any place",
 "Hand-written scanners over an unbounded grammar; tests feed a few literals.",
 ["openformats/utils/xml.py"], [("hand-written scanner", "utils/xml.py NewDumbXml")], None, ["NewDumbXml attributes, iteration, find_children, find_descendants"])

prop("C24", "Subtitle cues: numbering and timing rules are enforced and carried over",
 "A subtitle file is accepted exactly when its cues follow the format (positive ascending numbers for numbered cues, a start --> end timing line of numeric fields, non-empty text), and each cue's normalised start and end times are recorded with its string. A rejection names the line at fault. Cue settings, identifiers and multi-line texts are preserved and never mixed between neighbouring cues.",
 ["inputs"],
 "every sequence of cues with any numbering, any timing spelling (missing or short milliseconds, extra settings, missing hours), any line structure",
 "Tests check single malformed cues; acceptance depends on sequences and spellings.",
 [F + "srt.py", F + "vtt.py"], [("section and timing parsing", "srt.py/vtt.py _parse_section, _format_timing")])

prop("C25", "Office documents: the requested text direction reaches what is translated, only",
 "Compiling a DOCX or PPTX document with is_rtl=True marks every paragraph that gets a translation as right to left, exactly once and where the format expects the mark: a DOCX paragraph gets a w:bidi in its properties (which are created at the start of the paragraph when missing), run and paragraph-mark properties that exist get w:rtl, and marks that said 'off' are turned on; all DOCX tables become bidiVisual; PPTX paragraphs with properties get rtl and a left alignment becomes right, other alignments stay. Paragraphs without a translation keep their direction. An XLSX workbook has all its sheet views set right to left with is_rtl=True and left to right with is_rtl=False. Without the flag no direction changes in any format. Apart from the direction marks the result is the same as without the flag.",
 ["inputs", "histories"],
 "every document of paragraphs, runs, nested tables or sheets with any existing direction marks, every subset of translated strings, and the flag true, false, None or absent",
 "Tests compile two documents in which no mark was present before; existing marks (off, repeated), missing properties, nested tables, untranslated paragraphs and the absent flag combine freely.",
 OOX, [("direction marks", "docx.py set_rtl_orientation, set_rtl_orientation_tables; pptx.py set_rtl_orientation; xlsx_unstructured.py _compile")], None, ["XML parts of the compiled package"])

prop("C26", "Office documents: parts are read in order and strings name where they come from",
 "The strings of a presentation come slide by slide in the order of the slide numbers (compared as numbers, however the parts are declared), each slide followed by its own notes, whose strings alone are tagged 'notes'; notes no slide refers to are not read. A workbook yields the names of its sheets in the order of the workbook, then each further text of a cell (shared, inline, with a link, link formula) once, in the order of the sheet files and cells; numbers, other formulas and empty cells yield nothing. The developer comment of a workbook string names exactly the sheets that show it. Strings are numbered in that order. A translation reaches every place that shows its string (a sheet name or cell, on whichever sheet; every slide and notes page) and no other; places of strings that were not handed over stay as they were.",
 ["inputs"],
 "every arrangement of slides, notes, sheets and chart sheets with any numbering and declaration order, equal texts in several places, and every subset of translated strings",
 "Tests hold a handful of documents with parts in their natural order; numbering, declaration order, shared texts and origins combine freely.",
 OOX, [("order and origin", "pptx.py PptxFile.get_slides, _get_note_slide_if_exists; xlsx_unstructured.py _parse, _extract_sheet_names, _compile_workbook")], None, ["parse results of office handlers; XML parts of the compiled package"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
