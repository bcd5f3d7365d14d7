LIFE = "TLA+ lifecycle specification checked with TLC; every behaviour replayed on the real handlers"
LNOTE = ("Bounded model checking: TLC enumerates all documents (sequences of entry kinds) up to the bound, edits, histories and newline styles and checks the "
         "invariants on the specification; every emitted behaviour (sampled by seed above a cap) plus longer simulated ones is rendered in the concrete syntax and compared "
         "step by step with the real handler. Lexical content is sampled from adversarial alphabets, not enumerated. Trusts the renderers and TLC.")
NOTES["default"] = (LIFE, LNOTE)


def note(i, spec, what, limits):
    NOTES[i] = ("TLA+ specification %s checked with TLC; every emitted case or behaviour replayed on the real code" % spec,
                "Bounded model checking: " + what + " " + limits)


note("C10", "Escape.tla (and XmlReader.tla)", "TLC computes escape and unescape character by character over all token strings up to the bound, checks that they are inverse, and "
     "every case is replayed on the real escape/unescape functions and through whole files.", "Alphabet of tokens is fixed; longer strings are simulated.")
note("C11", "Faults.tla and Damage.tla", "TLC enumerates positions and kinds of faults in documents and predicts whether and on which line a parse error is due; "
     "each case is rendered and parsed.", "Faults outside the catalogue are only covered by random damage, which must end in a parse error or a round trip.")
note("C14", "Transcriber.tla and TranscriberTrace.tla", "TLC enumerates sequences of transcriber calls with their outputs, replayed on the class; calls recorded while the handlers "
     "parse and compile are checked against the specification as traces.", "Texts and positions bounded; traces come from the lifecycle documents.")
note("C15", "PoClass.tla", "TLC enumerates files as sequences of entry classes and predicts which handler accepts them and with which error.", "Files up to the bound.")
note("C16", "Icu.tla", "TLC enumerates messages token by token, recognises plurals with an explicit automaton and emits the expected forms.", "Messages up to the bound, longer ones simulated.")
note("C17", "Ooxml.tla", "TLC enumerates paragraphs (runs, formats, links, white space) with edited translations and predicts the compiled runs; packed into DOCX, PPTX and XLSX files and "
     "compared through the handlers.", "Paragraphs up to the bound; texts holding literal markers are excluded.")
note("C18", "Workdir.tla", "TLC enumerates histories of parse and compile operations, ending normally or failing at any step, over packages with extra members; invariants on temporary "
     "data and members are checked after each operation of the real handlers.", "Histories and packages up to the bound; interleavings at tag-building steps.")
note("C19", "StructuredMeta.tla", "TLC enumerates entries with value types, layouts and metadata edits and predicts the compiled file.", "Entries up to the bound.")
note("C20", "Locale.tla", "TLC enumerates where a locale-like text stands in the file and predicts which is replaced.", "Files up to the bound.")
note("C21", "YamlScalar.tla, YamlGen.tla and Lifecycle.tla", "TLC enumerates texts, styles and positions, and key trees for generation without a template; values are read back with the "
     "YAML loader.", "Texts up to the bound; alphabets fixed.")
note("C22", "JsonReader.tla", "TLC enumerates token sequences with an explicit push-down acceptor and emits the expected events and positions.", "Sequences up to the bound.")
note("C23", "XmlReader.tla", "TLC enumerates token sequences of XML and emits expected elements, attributes and positions.", "Sequences up to the bound.")
note("C24", "Subtitles.tla", "TLC enumerates sequences of cues with numbering and timing faults and predicts acceptance, error and line.", "Cues up to the bound.")
note("C25", "Direction.tla", "TLC enumerates and simulates documents with existing direction marks, the strings handed over and the flag, and predicts every mark of the compiled document; invariants (idempotent, nothing untouched changes, complete). Rendered to packages, compiled with the flag and without, read back; all other content must be equal.", "Up to 8 paragraphs/tables/sheets and 3 runs, sampled beyond one paragraph.")
note("C26", "Deck.tla", "TLC enumerates small and simulates larger presentations (numbered slides, notes, lost notes, declaration order) and workbooks (sheets and chart sheets in any order, kinds of cells, texts equal to names) and the strings handed over; predicts the list of strings with order and origin and every text after compile; invariants (complete, sorted, origins exact, equal texts alike). Rendered to packages, parsed, compiled, read back and parsed again.", "Exhaustive (sampled for replay) for 2 parts with 1 text, simulated up to 6 parts and 3 texts each.")
NA = {}
