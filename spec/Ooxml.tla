------------------------------- MODULE Ooxml -------------------------------
(***************************************************************************)
(* A paragraph (or cell) of an office document as a sequence of runs, the  *)
(* string it yields, every translation of that string, and the paragraph   *)
(* the translation is compiled to (C17).                                   *)
(*                                                                         *)
(* DIALECT "docx", "pptx": white-space-only runs belong to the next text;  *)
(* "pptx2", "xlsx": they are parts of their own.                           *)
(*                                                                         *)
(* A run: k kind ("txt", "sp" white space only, "nil" empty, "fld" text    *)
(* outside any run, as slide numbers are), n spaces in front of its text   *)
(* (or the white space itself), b its text (a symbol), l the hyperlink     *)
(* element it lies in (0: none), f its own format, j whether it shares the *)
(* run element with its predecessor (a line break lies between).           *)
(* A part: n leading spaces, b text, h target of its link ("" none).       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS DIALECT, MAXRUNS, MAXEDITS, EMIT,
  MOVES    \* only links come, go and move

VARIABLES phase,  \* "runs", "parts", "shape", "done"
          par,    \* the paragraph
          tr,     \* the translation, as parts
          at,     \* which part is translated next
          edits,  \* how many parts were changed
          shape   \* how the markers of the translation are written
vars == <<phase, par, tr, at, edits, shape>>

Merging == DIALECT \in {"docx", "pptx"}
Url(l) == CASE l = 0 -> "" [] l = 1 -> "u1" [] l = 2 -> "u2" [] l = 3 -> "u1"

Text(i) == CASE i = 1 -> "b1" [] i = 2 -> "b2" [] i = 3 -> "b3" [] i = 4 -> "b4" [] i = 5 -> "b5" [] i = 6 -> "b6" [] i = 7 -> "b7" [] i = 8 -> "b8" [] OTHER -> "b9"
New(i) == CASE i = 1 -> "x1" [] i = 2 -> "x2" [] i = 3 -> "x3" [] i = 4 -> "x4" [] i = 5 -> "x5" [] i = 6 -> "x6" [] i = 7 -> "x7" [] i = 8 -> "x8" [] OTHER -> "x9"

Own(r) == IF Merging THEN r.k = "txt" ELSE r.k \in {"txt", "sp"}

\* what the paragraph says, one part for each run that has text of its own
RECURSIVE PartsFrom(_, _, _)
PartsFrom(p, i, blank) ==
  IF i > Len(p) THEN <<>>
  ELSE LET r == p[i] IN
       IF Own(r) THEN <<[n |-> r.n + blank, b |-> r.b, h |-> Url(r.l)]>> \o PartsFrom(p, i + 1, 0)
       ELSE IF r.k = "fld" THEN PartsFrom(p, i + 1, 0)
       ELSE PartsFrom(p, i + 1, IF Merging THEN blank + r.n ELSE 0)
Parts(p) == PartsFrom(p, 1, 0)
Visible(p) == \E i \in 1..Len(p) : p[i].k = "txt"

\* the runs that receive a part, in order
RECURSIVE Slots(_, _)
Slots(p, i) == IF i > Len(p) THEN <<>> ELSE (IF Own(p[i]) THEN <<i>> ELSE <<>>) \o Slots(p, i + 1)

\* the paragraph a translation is compiled to: the text of each run, as
\* a sequence of pieces; blanks in front of a part that brings its own
\* spaces stay, others go
Piece(q) == <<[n |-> q.n, b |-> q.b]>>
\* spaces of white-space-only runs that come right before run i
RECURSIVE BlankBefore(_, _)
BlankBefore(p, i) == IF i = 1 \/ ~Merging \/ p[i - 1].k \in {"txt", "fld"} THEN 0 ELSE p[i - 1].n + BlankBefore(p, i - 1)
SlotOf(p, i) == Cardinality({j \in 1..i : Own(p[j])})
\* the run the white space at i belongs to (0: none)
RECURSIVE Owner(_, _)
Owner(p, i) == IF i > Len(p) \/ p[i].k = "fld" THEN 0 ELSE IF Own(p[i]) THEN i ELSE Owner(p, i + 1)

Kept(p, q, i) ==   \* does the blank at i stay when q is compiled
  LET o == Owner(p, i) IN
  IF o = 0 THEN TRUE
  ELSE LET s == SlotOf(p, o) IN s > Len(q) \/ q[s].n >= BlankBefore(p, o)

RECURSIVE Rest(_, _)
Rest(q, s) == IF s > Len(q) THEN <<>> ELSE Piece(q[s]) \o Rest(q, s + 1)

TextAt(p, q, i) ==
  LET r == p[i] s == SlotOf(p, i) m == Len(Slots(p, 1)) IN
  IF r.k = "fld" THEN <<[n |-> r.n, b |-> r.b]>>
  ELSE IF ~Own(r) THEN (IF Kept(p, q, i) THEN <<[n |-> r.n, b |-> ""]>> ELSE <<>>)
  ELSE IF s > Len(q) THEN <<>>
  ELSE LET bl == BlankBefore(p, i)
           mine == IF q[s].n >= bl THEN [n |-> q[s].n - bl, b |-> q[s].b] ELSE [n |-> q[s].n, b |-> q[s].b]
       IN <<mine>> \o (IF s = m THEN Rest(q, m + 1) ELSE <<>>)

\* links: what is known about the target of each run's link afterwards;
\* "?" when the runs of one link element are treated differently
Filled(p, q) == {i \in 1..Len(p) : Own(p[i]) /\ SlotOf(p, i) <= Len(q)}
Mates(p, q, i) == {k \in Filled(p, q) : p[k].l = p[i].l}
Joined(p, i) == p[i].j \/ (i < Len(p) /\ p[i + 1].j)
Added(p, q) == {i \in Filled(p, q) : p[i].l = 0 /\ q[SlotOf(p, i)].h # ""}
Deleted(p, q) == {i \in Filled(p, q) : p[i].l # 0 /\ q[SlotOf(p, i)].h = ""}
LinkAt(p, q, i) ==
  IF i \notin Filled(p, q) THEN "?"
  ELSE LET h == q[SlotOf(p, i)].h IN
       IF p[i].l = 0 THEN (IF Joined(p, i) /\ Added(p, q) # {} THEN "?" ELSE h)
       ELSE IF \A k \in Mates(p, q, i) : q[SlotOf(p, k)].h = h THEN h ELSE "?"

\* links that move take their format along: the runs a link address comes
\* to and the runs one goes from change formats, the first address that
\* comes with the first that goes and so on, if they are equally many;
\* Unknown when the runs cannot be told apart
Unknown == 99
RECURSIVE Ascending(_)
Ascending(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o Ascending(s \ {m})
RECURSIVE Firsts(_)   \* the different addresses in a sequence, by first occurrence
Firsts(s) == IF s = <<>> THEN <<>> ELSE LET r == Firsts(SubSeq(s, 1, Len(s) - 1)) x == s[Len(s)] IN
             IF \E k \in 1..Len(r) : r[k] = x THEN r ELSE Append(r, x)
At(s, k) == s[IF k <= Len(s) THEN k ELSE Len(s)]
Pos(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
FormatAt(p, q, i) ==
  LET a == Added(p, q) d == Deleted(p, q)
      Came(x) == q[SlotOf(p, x)].h
      Gone(x) == Url(p[x].l)
      as == Ascending(a) ds == Ascending(d)
      ak == Firsts([k \in 1..Len(as) |-> Came(as[k])])
      dk == Firsts([k \in 1..Len(ds) |-> Gone(ds[k])])
      Of(s, Key(_), x) == SelectSeq(s, LAMBDA y : Key(y) = x)
  IN
  IF i \notin Filled(p, q) THEN Unknown
  ELSE IF i \notin (a \cup d) \/ Len(ak) # Len(dk) THEN p[i].f
  ELSE IF (\E k \in a \cup d : Joined(p, k)) \/ (\E x \in d : \E k \in Mates(p, q, x) : q[SlotOf(p, k)].h \notin {"", Gone(x)}) THEN Unknown
  ELSE IF i \in a THEN LET mine == Of(as, Came, Came(i)) IN p[At(Of(ds, Gone, dk[Pos(ak, Came(i))]), Pos(mine, i))].f
  ELSE LET mine == Of(ds, Gone, Gone(i)) IN p[At(Of(as, Came, ak[Pos(dk, Gone(i))]), Pos(mine, i))].f

After(p, q) == [i \in 1..Len(p) |-> [text |-> TextAt(p, q, i), link |-> LinkAt(p, q, i), f |-> FormatAt(p, q, i)]]

-----------------------------------------------------------------------------
Init == phase = "runs" /\ par = <<>> /\ tr = <<>> /\ at = 1 /\ edits = 0 /\ shape = ""

Kinds == IF DIALECT = "pptx" THEN {"txt", "sp", "fld", "nil"} ELSE IF DIALECT = "pptx2" THEN {"txt", "sp", "fld", "nil"} ELSE IF DIALECT = "xlsx" THEN {"txt", "sp", "nil"} ELSE {"txt", "sp", "nil"}
\* link elements are contiguous; the next one may begin anywhere
LinkNow == IF par = <<>> THEN 0 ELSE par[Len(par)].l
Used == {par[i].l : i \in 1..Len(par)}
Links == IF DIALECT = "xlsx" THEN {LinkNow} ELSE {0, LinkNow} \cup {l \in 1..3 : l \notin Used /\ (l = 1 \/ 1 \in Used)}

AddRun(k, n, l) ==
  /\ phase = "runs" /\ Len(par) < MAXRUNS
  /\ k = "sp" => n > 0
  /\ MOVES => k = "txt" /\ n = 0
  /\ k \in {"nil", "fld"} => n = 0
  /\ k = "fld" => l = 0
  /\ \E j \in {FALSE} \cup (IF par # <<>> /\ DIALECT = "docx" /\ k = "txt" /\ l = LinkNow /\ par[Len(par)].k = "txt" THEN {TRUE} ELSE {}),
        f \in {0, Len(par) + 1} :
       /\ j => f = par[Len(par)].f
       /\ MOVES => ~j /\ f # 0
       /\ f = 0 => (~j => k = "txt" /\ (DIALECT = "pptx" => l = 0))
       /\ par' = Append(par, [k |-> k, n |-> n, b |-> IF k \in {"txt", "fld"} THEN Text(Len(par) + 1) ELSE "", l |-> l, f |-> f, j |-> j])
  /\ UNCHANGED <<phase, tr, at, edits, shape>>

EndRuns ==
  /\ phase = "runs" /\ par # <<>> /\ Visible(par)
  /\ phase' = "parts" /\ tr' = Parts(par)
  /\ UNCHANGED <<par, at, edits, shape>>

\* translate one part: its text, its leading spaces, its link
Part(n, b, h) ==
  /\ phase = "parts" /\ at <= Len(tr)
  /\ edits < MAXEDITS
  /\ MOVES => n = tr[at].n /\ b = tr[at].b
  /\ tr' = [tr EXCEPT ![at] = [n |-> n, b |-> b, h |-> h]]
  /\ tr'[at] # tr[at]
  /\ at' = at + 1 /\ edits' = edits + 1
  /\ UNCHANGED <<phase, par, shape>>
KeepPart == phase = "parts" /\ at <= Len(tr) /\ at' = at + 1 /\ UNCHANGED <<phase, par, tr, edits, shape>>

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN <<>> ELSE s[1].text \o Total(Tail(s))

\* fewer parts, more parts, no markers at all
Fewer == /\ phase = "parts" /\ at > Len(tr) /\ Len(tr) > 1 /\ ~MOVES
         /\ \E k \in 1..(Len(tr) - 1) : tr' = SubSeq(tr, 1, k)
         /\ phase' = "shape" /\ UNCHANGED <<par, at, edits, shape>>
More == /\ phase = "parts" /\ at > Len(tr) /\ ~MOVES
        /\ \E k \in 1..(Len(tr) + 1), h \in (IF DIALECT = "xlsx" THEN {""} ELSE {"", "u9"}), n \in 0..2 :
             tr' = SubSeq(tr, 1, k - 1) \o <<[n |-> n, b |-> IF n = 2 THEN "" ELSE New(9), h |-> h]>> \o SubSeq(tr, k, Len(tr))
        /\ phase' = "shape" /\ UNCHANGED <<par, at, edits, shape>>
Same == /\ phase = "parts" /\ at > Len(tr) /\ phase' = "shape" /\ UNCHANGED <<par, tr, at, edits, shape>>

\* how markers are written: as extracted, around every part, around every
\* part with its own link, or with superfluous markers (which separate
\* parts like any other and must not swallow text)
Shapes == {"source", "each"} \cup (IF DIALECT = "xlsx" THEN {} ELSE {"nested"})
\* broken markers: closing ones without an opening one, and the reverse
Broken == {"extra-close", "extra-open", "bare"}
Shape == /\ phase = "shape"
         /\ shape' \in (IF MOVES THEN Shapes ELSE Shapes \cup Broken)
         /\ phase' = "done" /\ UNCHANGED <<par, tr, at, edits>>

Spaces == 0..2
Hrefs(h) == IF DIALECT = "xlsx" THEN {h} ELSE {h, "", "u8"} \cup (IF MOVES THEN {"u9"} ELSE {})
Next == \/ \E k \in Kinds : \E n \in (IF k = "sp" THEN 1..2 ELSE IF k = "txt" THEN 0..1 ELSE {0}) : \E l \in Links : AddRun(k, n, l)
        \/ EndRuns
        \/ KeepPart
        \/ (phase = "parts" /\ at <= Len(tr) /\ \E n \in Spaces, b \in {tr[at].b, New(at)}, h \in Hrefs(tr[at].h) : (tr[at].b = "" => b = "" /\ n > 0) /\ Part(n, b, h))
        \/ Same \/ Fewer \/ More
        \/ Shape
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* properties of the specification itself
RECURSIVE Bodies(_)
Bodies(s) == IF s = <<>> THEN <<>> ELSE (IF s[1].b = "" THEN <<>> ELSE <<s[1].b>>) \o Bodies(Tail(s))
RECURSIVE Width(_)
Width(s) == IF s = <<>> THEN 0 ELSE s[1].n + Width(Tail(s))
NoFld(s, p) == [i \in 1..Len(s) |-> IF p[i].k = "fld" THEN [text |-> <<>>] ELSE [text |-> s[i].text]]

\* nothing is lost, nothing is added, the order is kept
NothingLost == phase = "done" => Bodies(Total(NoFld(After(par, tr), par))) = Bodies(tr)
SpacesKept == phase = "done" => Width(Total(NoFld(After(par, tr), par))) >= Width(tr)
\* compiling the string as it is gives the paragraph back
Unchanged == (phase = "done" /\ tr = Parts(par)) =>
   \A i \in 1..Len(par) : /\ Width(After(par, tr)[i].text) = par[i].n
                          /\ Bodies(After(par, tr)[i].text) = (IF par[i].b = "" THEN <<>> ELSE <<par[i].b>>)
                          /\ After(par, tr)[i].link \in {"?", Url(par[i].l)}
\* text outside of runs is never touched
FieldsKept == phase = "done" => \A i \in 1..Len(par) : par[i].k = "fld" => Bodies(After(par, tr)[i].text) = <<par[i].b>>
\* link elements are contiguous
Contiguous == \A i, k \in 1..Len(par) : (i < k /\ par[i].l = par[k].l /\ par[i].l # 0) => \A m \in i..k : par[m].l = par[i].l

Emit == (EMIT /\ phase = "done" /\ (MOVES => Added(par, tr) # {} /\ Deleted(par, tr) # {})) =>
   PrintT("CASE " \o ToJson([par |-> par, parts |-> Parts(par), tr |-> tr, after |-> After(par, tr), shape |-> shape, slots |-> Slots(par, 1), same |-> tr = Parts(par)]))
=============================================================================
