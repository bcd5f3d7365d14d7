-------------------------------- MODULE Deck --------------------------------
(***************************************************************************)
(* The parts of a presentation or a workbook, the strings they yield, in   *)
(* which order and with which origin, and where translations go (C26).     *)
(* DIALECT "pptx": slides with numbers, declared in any order, each with   *)
(* paragraphs and maybe notes (numbered on their own) with paragraphs;     *)
(* there may be notes that no slide refers to.                             *)
(* "xlsx": sheets in the order of the workbook, their files numbered in    *)
(* any way, chart sheets among them; cells of several kinds. Names of      *)
(* sheets are strings too and may be equal to the text of a cell.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS DIALECT, MINPARTS, MAXPARTS, MAXTEXTS, NUMS, TEXTS, EMIT

VARIABLES phase, doc, given, out
vars == <<phase, doc, given, out>>

\* a cell: how it's written and what it says. "shared": a shared string,
\* "linked": a shared string in a cell with a hyperlink, "inline": in the
\* cell, "formula": a link by formula, "other": a number or a formula,
\* "void": a shared string that isn't there
Hows == IF DIALECT = "xlsx" THEN {"shared", "linked", "inline", "formula", "other", "void"} ELSE {"par"}
Silent(h) == h \in {"other", "void"}
Sane(c) == /\ c.b = "" => c.how \in {"par", "inline", "other", "void"}
           /\ Silent(c.how) => c.b = ""

Init == phase = "write" /\ doc = <<>> /\ given = {} /\ out = <<>>

Nums == {doc[i].num : i \in 1..Len(doc)}
Notes == {doc[i].note : i \in 1..Len(doc)}

Slide ==
  /\ DIALECT = "pptx" /\ phase = "write" /\ Len(doc) < MAXPARTS
  /\ \E num \in NUMS \ Nums, note \in {0} \cup (NUMS \ Notes), k \in {"slide", "lost"} :
       /\ k = "lost" => note # 0   \* notes without a slide
       /\ doc' = Append(doc, [k |-> k, num |-> num, note |-> note, name |-> "", texts |-> <<>>, notes |-> <<>>])
  /\ UNCHANGED <<phase, given, out>>
Sheet ==
  /\ DIALECT = "xlsx" /\ phase = "write" /\ Len(doc) < MAXPARTS
  /\ \E num \in NUMS, name \in TEXTS \ {doc[i].name : i \in 1..Len(doc)}, k \in {"sheet", "chart"} :
       /\ \A i \in 1..Len(doc) : doc[i].k = k => doc[i].num # num
       /\ doc' = Append(doc, [k |-> k, num |-> num, note |-> 0, name |-> name, texts |-> <<>>, notes |-> <<>>])
  /\ UNCHANGED <<phase, given, out>>
\* a text in the last part
Text ==
  /\ phase = "write" /\ doc # <<>> /\ doc[Len(doc)].k \in {"slide", "sheet"}
  /\ Len(doc[Len(doc)].texts) < MAXTEXTS
  /\ \E c \in [how : Hows, b : TEXTS \cup {""}] : Sane(c) /\ doc' = [doc EXCEPT ![Len(doc)].texts = Append(@, c)]
  /\ UNCHANGED <<phase, given, out>>
Note ==
  /\ phase = "write" /\ doc # <<>> /\ doc[Len(doc)].note # 0
  /\ Len(doc[Len(doc)].notes) < MAXTEXTS
  /\ \E c \in [how : Hows, b : TEXTS \cup {""}] : Sane(c) /\ doc' = [doc EXCEPT ![Len(doc)].notes = Append(@, c)]
  /\ UNCHANGED <<phase, given, out>>

-----------------------------------------------------------------------------
\* the strings
Linked(h) == h \in {"linked", "formula"}
Str(c) == [b |-> c.b, link |-> Linked(c.how)]
Says(c) == c.b # "" /\ ~Silent(c.how)

Ordered(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i < j => doc[s[i]].num < doc[s[j]].num
Read == {i \in 1..Len(doc) : doc[i].k \in {"slide", "sheet"}}
Order == Ordered(Read)

Tag(s, o) == [i \in 1..Len(s) |-> [s |-> s[i], from |-> o]]
StrsOf(cells) == LET c == SelectSeq(cells, Says) IN [i \in 1..Len(c) |-> Str(c[i])]
RECURSIVE Visits(_)
\* every text with its origin, in reading order
Visits(o) == IF o = <<>> THEN <<>>
             ELSE LET p == doc[Head(o)] IN
                  Tag(StrsOf(p.texts), IF DIALECT = "xlsx" THEN p.name ELSE "slide") \o Tag(StrsOf(p.notes), "notes") \o Visits(Tail(o))
NameStr(i) == [b |-> doc[i].name, link |-> FALSE]
Names == IF DIALECT = "xlsx" THEN [i \in 1..Len(doc) |-> [s |-> NameStr(i), from |-> doc[i].name]] ELSE <<>>
All == Names \o Visits(Order)
\* a workbook has each string once
RECURSIVE Once(_)
Once(v) == IF v = <<>> THEN <<>>
           ELSE LET r == Once(SubSeq(v, 1, Len(v) - 1)) x == v[Len(v)] IN
                IF \E k \in 1..Len(r) : r[k].s = x.s
                THEN [k \in 1..Len(r) |-> IF r[k].s = x.s THEN [r[k] EXCEPT !.from = @ \cup {x.from}] ELSE r[k]]
                ELSE Append(r, [s |-> x.s, from |-> {x.from}])
Strings == IF DIALECT = "xlsx" THEN Once(All) ELSE [i \in 1..Len(All) |-> [s |-> All[i].s, from |-> {All[i].from}]]
Known == {All[i].s : i \in 1..Len(All)}

-----------------------------------------------------------------------------
\* what compiling makes of it; a translated text is marked
Tr(cells) == [i \in 1..Len(cells) |-> [how |-> cells[i].how, b |-> cells[i].b, new |-> Says(cells[i]) /\ Str(cells[i]) \in given']]
After == [i \in 1..Len(doc) |->
   [texts |-> Tr(doc[i].texts),
    notes |-> IF doc[i].k = "lost" THEN [j \in 1..Len(doc[i].notes) |-> [how |-> doc[i].notes[j].how, b |-> doc[i].notes[j].b, new |-> FALSE]] ELSE Tr(doc[i].notes),
    name |-> doc[i].name # "" /\ NameStr(i) \in given']]
Compile ==
  /\ phase = "write" /\ doc # <<>> /\ Len(doc) >= MINPARTS
  /\ given' \in SUBSET Known
  /\ out' = After /\ phase' = "done" /\ UNCHANGED doc

Next == Slide \/ Sheet \/ Text \/ Note \/ Compile
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == phase = "done"
\* every text that is read is a string, and nothing else
Covered == Done => Known = {Strings[i].s : i \in 1..Len(Strings)}
\* slides come by their numbers, notes right after their slide
Sorted == Done => \A i, j \in 1..Len(Order) : i < j => doc[Order[i]].num < doc[Order[j]].num
\* a string names exactly the sheets that show it
Origins == (Done /\ DIALECT = "xlsx") => \A i \in 1..Len(Strings) :
   Strings[i].from = {doc[j].name : j \in {k \in 1..Len(doc) : NameStr(k) = Strings[i].s \/ \E m \in 1..Len(doc[k].texts) : Says(doc[k].texts[m]) /\ Str(doc[k].texts[m]) = Strings[i].s}}
\* equal texts are translated alike
Alike == Done => \A i, j \in 1..Len(out) : \A m \in 1..Len(out[i].texts), n \in 1..Len(out[j].texts) :
   (Says(doc[i].texts[m]) /\ Says(doc[j].texts[n]) /\ Str(doc[i].texts[m]) = Str(doc[j].texts[n])) => out[i].texts[m].new = out[j].texts[n].new
Nothing == (Done /\ given = {}) => \A i \in 1..Len(out) : ~out[i].name /\ \A m \in 1..Len(out[i].texts) : ~out[i].texts[m].new

Emit == (EMIT /\ Done) => PrintT("CASE " \o ToJson([doc |-> doc, strings |-> Strings, given |-> given, out |-> out]))
=============================================================================
