------------------------------ MODULE Profiles ------------------------------
(***************************************************************************)
(* Entry kinds and, per format, which kinds a document may contain and how *)
(* the format treats comments, absent strings, groups and templates.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

OneOther == {1, 5}
AllRules == {0, 1, 2, 3, 4, 5}

K(tr, pl, rules, meta) == [tr |-> tr, pl |-> pl, rules |-> rules, meta |-> meta]

Info ==
  [ sg  |-> K(TRUE,  FALSE, {5}, {}),
    sgC |-> K(TRUE,  FALSE, {5}, {"comment"}),
    sgX |-> K(TRUE,  FALSE, {5}, {"context"}),
    sgM |-> K(TRUE,  FALSE, {5}, {"comment", "context"}),
    pl  |-> K(TRUE,  TRUE,  OneOther, {}),
    plA |-> K(TRUE,  TRUE,  AllRules, {}),
    plC |-> K(TRUE,  TRUE,  OneOther, {"comment"}),
    plX |-> K(TRUE,  TRUE,  OneOther, {"context"}),
    plM |-> K(TRUE,  TRUE,  OneOther, {"comment", "context"}),
    fz    |-> K(TRUE,  FALSE, {5}, {}),
    fzP   |-> K(TRUE,  TRUE,  OneOther, {}),
    blank |-> K(FALSE, FALSE, {}, {}),
    cmt   |-> K(FALSE, FALSE, {}, {}),
    skip  |-> K(FALSE, FALSE, {}, {}),
    raw   |-> K(FALSE, FALSE, {}, {}),
    ob |-> K(FALSE, FALSE, {}, {}), cb |-> K(FALSE, FALSE, {}, {}),
    ol |-> K(FALSE, FALSE, {}, {}), cl |-> K(FALSE, FALSE, {}, {}) ]

Kinds == DOMAIN Info
Openers == {"ob", "ol"}
Closers == {"cb", "cl"}
CloserOf(o) == IF o = "ob" THEN "cb" ELSE "cl"

PluralEdits == {"pl5", "pl15", "pl135", "plall"}
RulesOf(e) == CASE e = "pl5" -> {5} [] e = "pl15" -> {1, 5} [] e = "pl135" -> {1, 3, 5} [] e = "plall" -> AllRules

UD == {"UNIX", "DOS"}
Flat(kinds) == [top |-> kinds, inside |-> [ob |-> {}, ol |-> {}]]

\* base profile; formats override fields
Base == [top |-> {"sg"}, inside |-> [ob |-> {}, ol |-> {}],
         nls |-> UD,
         pending |-> FALSE,      \* comments precede and belong to the next string
         pendkeep |-> {},        \* kinds that do not consume a pending comment
         vanish |-> {},          \* kinds that parsing leaves out of the template
         needsome |-> FALSE,     \* a file without strings is rejected
         drop |-> "none",        \* absent strings: not supported / "remove" / "keep"
         prune |-> "none",       \* when groups disappear: "none" / "empty" / "items" / "strings"
         dropcmt |-> FALSE,      \* comments directly before a removed entry go with it
         sync |-> FALSE,         \* template synchronisation precedes compilation
         adds |-> FALSE, addkinds |-> {}]

JsonIn == [ob |-> {"sg", "pl", "plA", "blank", "skip", "ob", "ol"},
           ol |-> {"sg", "pl", "blank", "skip", "ob", "ol"}]
StrIn  == [ob |-> {"sg", "sgM", "pl", "blank", "skip", "ob"},
           ol |-> {}]

YamlIn == [ob |-> {"sg", "sgC", "sgX", "sgM", "blank", "skip", "cmt", "ob", "ol"},
           ol |-> {"sg", "sgC", "sgX", "sgM", "blank", "skip", "cmt", "ob", "ol"}]

ArrayIn == [ob |-> {}, ol |-> {"sg", "blank", "cmt"}]

VarsIn == [ob |-> {"pl", "plA", "blank"}, ol |-> {}]

Profile ==
  [
    PO |-> [Base EXCEPT !.top = {"sg", "sgC", "sgX", "sgM", "pl", "plX", "plM", "fz", "fzP"}, !.vanish = {"fz", "fzP"},
                        !.drop = "remove", !.sync = TRUE, !.adds = TRUE, !.addkinds = {"sg", "sgX", "pl"}],
    PO_DIRECT |-> [Base EXCEPT !.top = {"sg", "sgC", "sgX", "sgM", "pl", "plX", "plM", "fz", "fzP"}, !.vanish = {"fz", "fzP"},
                        !.drop = "keep"],
    POT |-> [Base EXCEPT !.top = {"sg", "sgC", "sgX", "sgM", "pl", "plX", "plM", "fz"}, !.vanish = {"fz"},
                         !.drop = "remove", !.sync = TRUE, !.adds = TRUE, !.addkinds = {"sg", "sgX", "pl"}],
    PO_TARGET |-> [Base EXCEPT !.top = {"sg", "sgC", "sgX", "pl", "plX", "fz", "fzP", "skip"}, !.vanish = {"fz", "fzP", "skip"},
                               !.drop = "remove", !.sync = TRUE],
    YAML |-> [Base EXCEPT !.top = YamlIn.ob, !.inside = YamlIn, !.drop = "keep"],
    YAML_I18N |-> [Base EXCEPT !.top = YamlIn.ob \cup {"pl"}, !.inside = [YamlIn EXCEPT !.ob = @ \cup {"pl"}], !.drop = "keep"],
    CUSTOM_XML |-> [Base EXCEPT !.top = {"sg", "blank", "raw", "cmt"}],
    CUSTOM_XML_TAGS |-> [Base EXCEPT !.top = {"sg", "blank", "raw", "cmt"}],
    STRINGSDICT |-> [Base EXCEPT !.top = {"ob"}, !.inside = VarsIn, !.drop = "remove"],
    ANDROID |->
      [Base EXCEPT !.top = {"sg", "sgX", "pl", "plA", "plX", "blank", "skip", "raw", "cmt", "ol"}, !.inside = ArrayIn,
                   !.drop = "remove", !.prune = "strings", !.dropcmt = TRUE, !.pending = TRUE],
    ANDROID_UNESCAPED |->
      [Base EXCEPT !.top = {"sg", "sgX", "pl", "plA", "plX", "blank", "skip", "raw", "cmt", "ol"}, !.inside = ArrayIn,
                   !.drop = "remove", !.prune = "strings", !.dropcmt = TRUE, !.pending = TRUE],
    BETA_ANDROID |->
      [Base EXCEPT !.top = {"sg", "sgX", "pl", "plA", "plX", "blank", "skip", "raw", "cmt", "ol"}, !.inside = ArrayIn,
                   !.drop = "remove", !.prune = "items", !.pending = TRUE, !.pendkeep = {"raw"}],
    MARKDOWN |-> [Base EXCEPT !.top = {"sg", "skip", "ob", "ol"}, !.inside = [ob |-> {"sg", "skip"}, ol |-> {"sg", "skip"}]],
    MARKDOWN_V2 |-> [Base EXCEPT !.top = {"sg", "skip", "ob", "ol"}, !.inside = [ob |-> {"sg", "skip"}, ol |-> {"sg", "skip"}]],
    MARKDOWN_JSX |-> [Base EXCEPT !.top = {"sg", "skip", "ob", "ol"}, !.inside = [ob |-> {"sg", "skip"}, ol |-> {"sg", "skip"}]],
    PLAINTEXT |-> [Base EXCEPT !.top = {"sg", "blank"}],
    SRT  |-> [Base EXCEPT !.top = {"sg", "blank"}, !.drop = "remove"],
    VTT  |-> [Base EXCEPT !.top = {"sg", "blank", "skip", "cmt", "raw"}, !.drop = "remove", !.needsome = TRUE],
    KEYVALUEJSON |->
      [Base EXCEPT !.top = {"sg", "pl", "plA", "blank", "skip", "ob", "ol"}, !.inside = JsonIn,
                   !.drop = "remove", !.prune = "empty", !.sync = TRUE, !.adds = TRUE, !.addkinds = {"sg"}],
    STRUCTURED_JSON |->
      [Base EXCEPT !.top = {"sg", "sgC", "sgX", "sgM", "pl", "plM", "blank", "skip", "ob"}, !.inside = StrIn,
                   !.drop = "remove", !.prune = "empty", !.sync = TRUE, !.adds = TRUE, !.addkinds = {"sg", "sgM"},
                   !.needsome = TRUE],
    ARB |->
      [Base EXCEPT !.top = {"sg", "sgC", "sgX", "sgM", "pl", "plA", "plM", "blank", "skip", "raw"},
                   !.drop = "keep", !.sync = TRUE, !.needsome = TRUE],
    CHROME |->
      [Base EXCEPT !.top = {"sg", "sgC", "pl", "plA", "blank", "skip"}, !.drop = "keep", !.sync = TRUE],
    CHROME_V3 |->
      [Base EXCEPT !.top = {"sg", "sgC", "pl", "plA", "plC", "blank", "skip"}, !.drop = "remove"]
  ]
=============================================================================
