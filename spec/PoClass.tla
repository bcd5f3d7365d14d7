------------------------------ MODULE PoClass ------------------------------
(***************************************************************************)
(* Which gettext files are templates, which are translated files, which    *)
(* are rejected, and what is extracted (C15).  A file is a sequence of     *)
(* entries; TLC enumerates all of them up to a bound.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MAXLEN, FORMS,   \* FORMS: shapes of the translation of an entry
          FAULTS, EMIT

\* a shape is a sequence of "e" (empty), "s" (blank), "t" (text), one per form
VARIABLES source, doc, done
vars == <<source, doc, done>>

Blank(f) == \A i \in 1..Len(f) : f[i] # "t"
Empty(f) == \A i \in 1..Len(f) : f[i] = "e"
Type(f) == IF ~Blank(f) THEN "text" ELSE IF Empty(f) THEN "empty" ELSE "spaces"
Incomplete(f) == ~Blank(f) /\ \E i \in 1..Len(f) : f[i] = "e"

Entry(pl, f, fz, ft) == [pl |-> pl, f |-> f, fz |-> fz, fault |-> ft]

Init == source \in BOOLEAN /\ doc = <<>> /\ done = FALSE

Write ==
  /\ ~done /\ Len(doc) < MAXLEN
  /\ \E pl \in BOOLEAN, f \in FORMS, fz \in BOOLEAN, ft \in {"none"} \cup FAULTS :
       /\ (~pl) => Len(f) = 1
       /\ ft = "dup" => Len(doc) > 0 /\ \E j \in 1..Len(doc) : doc[j].pl = pl /\ doc[j].fault = "none"
       /\ \A j \in 1..Len(doc) : ft # "none" => doc[j].fault = "none"    \* one fault at most
       /\ doc' = Append(doc, Entry(pl, f, fz, ft))
  /\ UNCHANGED <<source, done>>

Stop == ~done /\ done' = TRUE /\ UNCHANGED <<source, doc>>
Next == Write \/ Stop
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Types == {Type(doc[i].f) : i \in 1..Len(doc)}
Mixed == "text" \in Types /\ "empty" \in Types

\* a repeated entry, a message id missing, a translation of the wrong kind
Faulty == \E i \in 1..Len(doc) : doc[i].fault \in {"dup", "noid", "wrongkind"}

Verdict ==
  IF Faulty \/ (\E i \in 1..Len(doc) : Incomplete(doc[i].f)) THEN "error"
  ELSE IF source /\ Mixed THEN "error"
  ELSE IF source /\ "text" \notin Types THEN "template"
  ELSE "translated"

\* entries extracted, in order, and where their texts come from
Extracted ==
  IF Verdict = "error" THEN <<>>
  ELSE LET ix == [i \in 1..Len(doc) |-> i]
           keep(i) == Verdict = "template" \/ source \/ Type(doc[i].f) # "empty"
       IN [n \in 1..Len(SelectSeq(ix, keep)) |->
             LET i == SelectSeq(ix, keep)[n] IN
               [i |-> i, from |-> IF Verdict = "template" THEN "id" ELSE "str", fuzzy |-> doc[i].fz]]

\* entries left in the template
Left == SelectSeq(Extracted, LAMBDA x : ~x.fuzzy)

InvNoLeak == done => \A n \in 1..Len(Extracted) : Extracted[n].from = "str" => ~Empty(doc[Extracted[n].i].f)
InvAllOfTemplate == (done /\ Verdict = "template") => Len(Extracted) = Len(doc)
InvComplete == (done /\ Verdict = "translated" /\ source) => \A i \in 1..Len(doc) : Type(doc[i].f) \in {"text", "spaces"}

Emit == (EMIT /\ done) => PrintT("CASE " \o ToJson([source |-> source, doc |-> doc, verdict |-> Verdict, extracted |-> Extracted, left |-> Left]))
=============================================================================
