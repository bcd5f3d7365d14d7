----------------------------- MODULE Direction -----------------------------
(***************************************************************************)
(* Direction marks of office documents (C25).                              *)
(* DIALECT "docx": a document is a sequence of paragraphs and (nested)     *)
(* tables; a paragraph, its runs, its paragraph mark and every table may   *)
(* have properties, and properties a direction mark that is on or off.     *)
(* "pptx": paragraphs with properties, a direction and an alignment.       *)
(* "xlsx": sheets with views that have a direction.                        *)
(* The document is compiled with a flag: "yes", "no", "unset" (not given)  *)
(* or "none" (given, but unknown); only some strings may be handed over.   *)
(* What compiling does to the texts is not modelled here (Ooxml.tla), it   *)
(* must be the same with and without the flag.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS DIALECT, MAXTOKENS, MAXRUNS, EMIT

VARIABLES phase, doc, depth, flag, out
vars == <<phase, doc, depth, flag, out>>

\* no properties at all, properties without a mark, a mark
Props == {"none", "plain", "on", "off"}
Aligns == {"", "l", "r", "ctr", "just"}

Init == phase = "write" /\ doc = <<>> /\ depth = 0 /\ flag = "" /\ out = <<>>

\* the innermost open table
RECURSIVE Opened(_, _)
Opened(i, d) == IF doc[i].k = "close" THEN Opened(i - 1, d + 1)
                ELSE IF doc[i].k = "open" THEN (IF d = 0 THEN i ELSE Opened(i - 1, d - 1))
                ELSE Opened(i - 1, d)

Room == phase = "write" /\ Len(doc) < MAXTOKENS
Para ==
  /\ Room /\ DIALECT \in {"docx", "pptx"}
  /\ \E own \in Props, a \in Aligns, m \in Props, n \in 1..MAXRUNS : \E runs \in [1..n -> Props] :
     \E given \in {"yes", "no", "blank"} :   \* in the stringset, left out, no string at all
       /\ (DIALECT = "pptx" /\ own # "none") \/ a = ""
       /\ (DIALECT = "docx" /\ own # "none") \/ m = "none"
       /\ DIALECT = "docx" \/ \A i \in 1..n : runs[i] = "plain"
       /\ doc' = Append(doc, [k |-> "p", own |-> own, a |-> a, m |-> m, runs |-> runs, given |-> given])
  /\ UNCHANGED <<phase, depth, flag, out>>
OpenTable ==
  /\ Room /\ DIALECT = "docx" /\ depth < 2 /\ Len(doc) + 2 + depth < MAXTOKENS
  /\ \E own \in Props :
       /\ doc' = Append(doc, [k |-> "open", own |-> own])
       \* only the innermost table may lack the properties
       /\ depth > 0 => doc[Opened(Len(doc), 0)].own # "none"
  /\ depth' = depth + 1 /\ UNCHANGED <<phase, flag, out>>
CloseTable ==
  /\ phase = "write" /\ depth > 0 /\ doc[Len(doc)].k # "open"
  /\ doc' = Append(doc, [k |-> "close"]) /\ depth' = depth - 1
  /\ UNCHANGED <<phase, flag, out>>
Sheet ==
  /\ Room /\ DIALECT = "xlsx"
  /\ \E n \in 0..MAXRUNS : \E views \in [1..n -> {"plain", "on", "off"}] :
       doc' = Append(doc, [k |-> "sheet", views |-> views])
  /\ UNCHANGED <<phase, depth, flag, out>>

-----------------------------------------------------------------------------
\* what compiling makes of it
Mark(x) == IF x = "none" THEN x ELSE "on"
Translated(t) == t.k = "p" /\ t.given = "yes"
Rtl(t) ==
  CASE t.k = "p" ->
         IF ~Translated(t) THEN t
         ELSE IF DIALECT = "docx"
         THEN [t EXCEPT !.own = "on", !.m = Mark(@), !.runs = [i \in DOMAIN t.runs |-> Mark(t.runs[i])]]
         ELSE [t EXCEPT !.own = Mark(@), !.a = IF t.own # "none" /\ @ = "l" THEN "r" ELSE @]
    [] t.k = "open" -> [t EXCEPT !.own = "on"]
    [] t.k = "sheet" -> [t EXCEPT !.views = [i \in DOMAIN t.views |-> "on"]]
    [] OTHER -> t
Ltr(t) == IF t.k = "sheet" THEN [t EXCEPT !.views = [i \in DOMAIN t.views |-> "off"]] ELSE t
Apply(d, f) == CASE f = "yes" -> [i \in 1..Len(d) |-> Rtl(d[i])]
                 [] f = "no" -> [i \in 1..Len(d) |-> Ltr(d[i])]
                 [] OTHER -> d

Compile ==
  /\ phase = "write" /\ depth = 0 /\ doc # <<>>
  /\ flag' \in {"yes", "no", "unset", "none"}
  /\ out' = Apply(doc, flag')
  /\ phase' = "done" /\ UNCHANGED <<doc, depth>>

Next == Para \/ OpenTable \/ CloseTable \/ Sheet \/ Compile
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == phase = "done"
\* compiling again with the same flag changes nothing
Idempotent == Done => Apply(out, flag) = out
\* no flag, no change; strings left out, no change
Untouched == Done => /\ (flag \in {"unset", "none"} => out = doc)
                     /\ \A i \in 1..Len(doc) : (doc[i].k = "p" /\ doc[i].given # "yes") => out[i] = doc[i]
\* the structure stays
SameShape == Done => Len(out) = Len(doc) /\ \A i \in 1..Len(doc) : out[i].k = doc[i].k
\* nothing that has a direction keeps pointing left to right
Complete == (Done /\ flag = "yes") => \A i \in 1..Len(out) :
   /\ Translated(out[i]) => out[i].own \in {"on", "none"} /\ (DIALECT = "docx" => out[i].own = "on")
                            /\ out[i].a # "l" /\ \A j \in DOMAIN out[i].runs : DIALECT = "docx" => out[i].runs[j] \in {"none", "on"}
   /\ out[i].k = "open" => out[i].own = "on"
   /\ out[i].k = "sheet" => \A j \in DOMAIN out[i].views : out[i].views[j] = "on"
\* alignments other than left are a matter of taste
Aligned == Done => \A i \in 1..Len(out) : (out[i].k = "p" /\ doc[i].a # "l") => out[i].a = doc[i].a
Balanced == Done => Cardinality({i \in 1..Len(doc) : doc[i].k = "open"}) = Cardinality({i \in 1..Len(doc) : doc[i].k = "close"})

Emit == (EMIT /\ Done) => PrintT("CASE " \o ToJson([doc |-> doc, flag |-> flag, out |-> out]))
=============================================================================
