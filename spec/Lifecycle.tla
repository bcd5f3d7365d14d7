----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* The life of a localisation file in openformats, for every text format.  *)
(*                                                                         *)
(* A document is a sequence of entry kinds (see Profiles).  A behaviour    *)
(* writes a document, hands it to a handler instance with some history,    *)
(* parses it entry by entry into a template and a stringset, lets a user   *)
(* edit the stringset (keep, translate, re-plural, drop, add strings),     *)
(* optionally synchronises the template, compiles, and parses the compiled *)
(* file again.  Every step is an action; what each step may produce is     *)
(* fixed by the actions, and the guarantees (C01..C13) are invariants over *)
(* the resulting states.  Completed behaviours are emitted as JSON; the    *)
(* harness renders the document in the concrete syntax of the format,      *)
(* performs the same steps on the real handler and compares every          *)
(* observation with the one recorded in the behaviour.                     *)
(***************************************************************************)
EXTENDS Profiles, TLC, Json

CONSTANTS FORMATS, MINLEN, MAXLEN, EDITS, ADDS, HISTORIES, NEWLINES, MAXEDIT, EMIT

VARIABLES fmt, nl, hist, phase, doc, stack, pos, pend, strs, tmpl, edits, adds, sstrs, stmpl, out, back

vars == <<fmt, nl, hist, phase, doc, stack, pos, pend, strs, tmpl, edits, adds, sstrs, stmpl, out, back>>

P == Profile[fmt]

-----------------------------------------------------------------------------
(* Writing the document, one entry at a time. *)

Init ==
  /\ fmt \in FORMATS
  /\ nl \in NEWLINES \cap Profile[fmt].nls
  /\ hist \in HISTORIES
  /\ phase = "write"
  /\ doc = <<>> /\ stack = <<>>
  /\ pos = 1 /\ pend = 0
  /\ strs = <<>> /\ tmpl = <<>>
  /\ edits = <<>> /\ adds = <<>> /\ sstrs = <<>> /\ stmpl = <<>>
  /\ out = <<>> /\ back = <<>>

AllowedHere(k) ==
  IF stack = <<>> THEN k \in P.top
  ELSE k \in P.inside[stack[Len(stack)]]

Write(k) ==
  /\ phase = "write"
  /\ Len(doc) + Len(stack) < MAXLEN
  /\ AllowedHere(k)
  /\ k \notin Closers
  /\ k \in Openers => Len(doc) + Len(stack) + 2 <= MAXLEN
  /\ doc' = Append(doc, k)
  /\ stack' = IF k \in Openers THEN Append(stack, k) ELSE stack
  /\ UNCHANGED <<fmt, nl, hist, phase, pos, pend, strs, tmpl, edits, adds, sstrs, stmpl, out, back>>

CloseGroup ==
  /\ phase = "write" /\ stack # <<>>
  /\ doc' = Append(doc, CloserOf(stack[Len(stack)]))
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ UNCHANGED <<fmt, nl, hist, phase, pos, pend, strs, tmpl, edits, adds, sstrs, stmpl, out, back>>

Finish ==
  /\ phase = "write" /\ stack = <<>> /\ Len(doc) >= MINLEN
  /\ phase' = "parse"
  /\ UNCHANGED <<fmt, nl, hist, doc, stack, pos, pend, strs, tmpl, edits, adds, sstrs, stmpl, out, back>>

-----------------------------------------------------------------------------
(* Parsing: one action per entry.  The handler keeps a pending comment      *)
(* (index of the comment entry, 0 if none); it goes to the next string in   *)
(* formats whose comments precede their string.                             *)

\* string produced by the entry at position i with the given pending comment
StrOf(i, pc) ==
  LET k == doc[i] IN
  [id |-> i, kind |-> k, pl |-> Info[k].pl, rules |-> Info[k].rules,
   own |-> Info[k].meta, com |-> pc]

\* number of groups open just before position i
DepthAt(i) == Cardinality({m \in 1..(i-1) : doc[m] \in Openers}) - Cardinality({m \in 1..(i-1) : doc[m] \in Closers})

\* what happens to the pending comment after entry kind k: it belongs to the
\* next entry, a group's comment to every string of the group
PendAfter(k, i) ==
  IF DepthAt(i) > 0 THEN (IF k \in Closers THEN 0 ELSE pend)
  ELSE IF k \in Openers THEN pend
  ELSE IF k = "cmt" THEN i
  ELSE IF k \in P.pendkeep THEN pend ELSE 0

ParseEntry ==
  /\ phase = "parse" /\ pos <= Len(doc)
  /\ LET k == doc[pos] IN
       /\ strs' = IF Info[k].tr THEN Append(strs, StrOf(pos, IF P.pending THEN pend ELSE 0)) ELSE strs
       /\ tmpl' = IF k \in P.vanish THEN tmpl
                  ELSE Append(tmpl, [i |-> pos, v |-> IF Info[k].tr THEN "slot" ELSE "lit"])
       /\ pend' = IF P.pending THEN PendAfter(k, pos) ELSE 0
  /\ pos' = pos + 1
  /\ UNCHANGED <<fmt, nl, hist, phase, doc, stack, edits, adds, sstrs, stmpl, out, back>>

ParseEnd ==
  /\ phase = "parse" /\ pos > Len(doc)
  /\ phase' = IF strs = <<>> /\ P.needsome THEN "rejected" ELSE "edit"
  /\ pos' = 1
  /\ UNCHANGED <<fmt, nl, hist, doc, stack, pend, strs, tmpl, edits, adds, sstrs, stmpl, out, back>>

-----------------------------------------------------------------------------
(* Editing the stringset. *)

EditsOf(s) == { e \in EDITS : (s.kind \in P.vanish => e \in {"keep", "drop"}) /\ (e \in PluralEdits => s.pl) /\ (e = "drop" => P.drop # "none") }

NonKeep(es) == Cardinality({ j \in 1..Len(es) : es[j] # "keep" })

Edit(e) ==
  /\ phase = "edit" /\ Len(edits) < Len(strs)
  /\ e \in EditsOf(strs[Len(edits) + 1])
  /\ e # "keep" => NonKeep(edits) < MAXEDIT
  /\ edits' = Append(edits, e)
  /\ UNCHANGED <<fmt, nl, hist, phase, doc, stack, pos, pend, strs, tmpl, adds, sstrs, stmpl, out, back>>

\* strings left after editing, each with the rules it now has
RECURSIVE Kept(_)
Kept(j) ==
  IF j > Len(strs) THEN <<>>
  ELSE IF edits[j] = "drop" THEN Kept(j + 1)
  ELSE << [strs[j] EXCEPT !.rules = IF edits[j] \in PluralEdits THEN RulesOf(edits[j]) ELSE @]
          @@ [v |-> IF edits[j] = "keep" THEN "src" ELSE "tr"] >> \o Kept(j + 1)

EndEdit(a) ==
  /\ phase = "edit" /\ Len(edits) = Len(strs)
  /\ a = <<>> \/ P.adds
  /\ \A n \in 1..Len(a) : a[n] \in P.addkinds
  /\ adds' = a
  /\ sstrs' = Kept(1) \o [n \in 1..Len(a) |->
                [id |-> Len(doc) + n, kind |-> a[n], pl |-> Info[a[n]].pl, rules |-> Info[a[n]].rules,
                 own |-> Info[a[n]].meta, com |-> 0, v |-> "tr"]]
  /\ phase' = IF P.sync THEN "sync" ELSE "compile"
  /\ stmpl' = tmpl
  /\ UNCHANGED <<fmt, nl, hist, doc, stack, pos, pend, strs, tmpl, edits, out, back>>

-----------------------------------------------------------------------------
(* Removal.  An entry whose string is absent goes away; a group goes away   *)
(* when removal took its last content; everything else stays.               *)

Present(i) == \E n \in 1..Len(sstrs) : sstrs[n].id = i
Dropped(i) == Info[doc[i]].tr /\ ~Present(i)

\* matching closer of the opener at i
Match(i) == CHOOSE j \in i..Len(doc) :
               /\ doc[j] \in Closers
               /\ Cardinality({m \in i..j : doc[m] \in Openers}) = Cardinality({m \in i..j : doc[m] \in Closers})
               /\ \A m \in i..(j-1) : Cardinality({q \in i..m : doc[q] \in Openers}) > Cardinality({q \in i..m : doc[q] \in Closers})

\* When a group disappears depends on the format:
\*   "empty"    it contained something and nothing in it survives
\*   "items"    it contained something but comments, and none of it survives
\*   "strings"  it contained strings and none of them survives
\*   "none"     never
RECURSIVE Gone(_)
Inner(i) == { m \in (i+1)..(Match(i)-1) : doc[m] \notin Closers }
GroupGone(o) ==
  CASE P.prune = "empty"   -> Inner(o) # {} /\ \A m \in Inner(o) : Gone(m)
    [] P.prune = "items"   -> LET its == { m \in Inner(o) : doc[m] # "cmt" } IN its # {} /\ \A m \in its : Gone(m)
    [] P.prune = "strings" -> /\ \E m \in Inner(o) : Info[doc[m]].tr
                              /\ \A m \in Inner(o) : Info[doc[m]].tr => Dropped(m)
    [] OTHER -> FALSE
InGoneGroup(i) == \E o \in 1..(i-1) : doc[o] \in Openers /\ Match(o) > i /\ GroupGone(o)

\* a comment standing directly before a removed entry is removed with it,
\* unless it opens the group
Leading(i) == \E o \in 1..(i-1) : doc[o] \in Openers /\ \A m \in (o+1)..(i-1) : doc[m] = "cmt"
NextEntry(i) == { m \in (i+1)..Len(doc) : doc[m] # "cmt" /\ \A q \in (i+1)..(m-1) : doc[q] = "cmt" }

Gone(i) ==
  IF doc[i] \in P.vanish THEN TRUE
  ELSE IF doc[i] \in Openers THEN GroupGone(i)
  ELSE IF doc[i] \in Closers THEN \E o \in 1..i : doc[o] \in Openers /\ Match(o) = i /\ GroupGone(o)
  ELSE \/ P.drop = "remove" /\ Dropped(i)
       \/ P.prune = "strings" /\ InGoneGroup(i)
       \/ P.prune = "items" /\ doc[i] = "cmt" /\ InGoneGroup(i)
       \/ P.dropcmt /\ doc[i] = "cmt" /\ ~Leading(i) /\ \E m \in NextEntry(i) : doc[m] \notin Closers /\ Gone(m)

Survivors == SelectSeq([m \in 1..Len(doc) |-> m], LAMBDA i : ~Gone(i))

Sync ==
  /\ phase = "sync"
  /\ stmpl' = [n \in 1..Len(Survivors) |-> LET i == Survivors[n] IN
                  [i |-> i, v |-> IF Info[doc[i]].tr THEN "slot" ELSE "lit"]]
              \o [n \in 1..Len(adds) |-> [i |-> Len(doc) + n, v |-> "slot"]]
  /\ phase' = "compile"
  /\ UNCHANGED <<fmt, nl, hist, doc, stack, pos, pend, strs, tmpl, edits, adds, sstrs, out, back>>

-----------------------------------------------------------------------------
(* Compiling fills every slot whose string is present and removes the rest  *)
(* (or keeps it, for formats that do not remove).                           *)

Val(i) == LET S == { n \in 1..Len(sstrs) : sstrs[n].id = i } IN
          IF S = {} THEN "absent" ELSE sstrs[CHOOSE n \in S : TRUE].v

Compile ==
  /\ phase = "compile"
  /\ out' = LET keep == SelectSeq(stmpl, LAMBDA s : s.i > Len(doc) \/ ~Gone(s.i)) IN
            [n \in 1..Len(keep) |->
               [i |-> keep[n].i, v |-> IF keep[n].v = "lit" THEN "lit" ELSE Val(keep[n].i)]]
  /\ phase' = "reparse"
  /\ UNCHANGED <<fmt, nl, hist, doc, stack, pos, pend, strs, tmpl, edits, adds, sstrs, stmpl, back>>

\* Reading the compiled file returns the strings that were supplied
Reparse ==
  /\ phase = "reparse"
  /\ back' = LET slots == SelectSeq(out, LAMBDA s : s.v # "lit") IN
             [n \in 1..Len(slots) |-> [id |-> slots[n].i, v |-> slots[n].v]]
  /\ phase' = "done"
  /\ UNCHANGED <<fmt, nl, hist, doc, stack, pos, pend, strs, tmpl, edits, adds, sstrs, stmpl, out>>

Next ==
  \/ \E k \in Kinds : Write(k)
  \/ CloseGroup \/ Finish
  \/ ParseEntry \/ ParseEnd
  \/ \E e \in EDITS : Edit(e)
  \/ \E a \in ADDS : EndEdit(a)
  \/ Sync \/ Compile \/ Reparse

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The guarantees, over the states of the specification. *)

Ids(seq, F(_)) == [n \in 1..Len(seq) |-> F(seq[n])]
SlotIds(t) == LET s == SelectSeq(t, LAMBDA x : x.v = "slot") IN [n \in 1..Len(s) |-> s[n].i]
StrIds(s) == [n \in 1..Len(s) |-> s[n].id]
Staying(s) == SelectSeq(s, LAMBDA x : x.kind \notin P.vanish)
Increasing(s) == \A a, b \in 1..Len(s) : a < b => s[a] < s[b]

\* C02: one slot per string, in order
InvTemplate ==
  phase \in {"edit", "sync", "compile", "reparse", "done"} =>
    /\ SlotIds(tmpl) = StrIds(Staying(strs))
    /\ [n \in 1..Len(tmpl) |-> tmpl[n].i] = SelectSeq([m \in 1..Len(doc) |-> m], LAMBDA i : doc[i] \notin P.vanish)

\* C03: distinct identities in document order
InvOrder == Increasing(StrIds(strs))

\* C01: nothing edited, everything there
InvRoundTrip ==
  (phase = "done" /\ adds = <<>> /\ \A n \in 1..Len(edits) : edits[n] = "keep") =>
     /\ [n \in 1..Len(out) |-> out[n].i] = [n \in 1..Len(tmpl) |-> tmpl[n].i]
     /\ \A n \in 1..Len(out) : out[n].v = (IF Info[doc[out[n].i]].tr THEN "src" ELSE "lit")

\* C04/C05/C07: what is read back is what was supplied (formats that remove)
InvFidelity ==
  (phase = "done" /\ P.drop = "remove") =>
     LET given == Staying(sstrs) IN
     back = [n \in 1..Len(given) |-> [id |-> given[n].id, v |-> given[n].v]]

\* C05: nothing of an absent string is left, non-strings stay unless their group emptied
InvDrop ==
  (phase = "done" /\ P.drop = "remove") =>
     /\ \A n \in 1..Len(out) : out[n].v # "absent"
     /\ \A i \in 1..Len(doc) :
           (~Info[doc[i]].tr /\ doc[i] \notin Openers \cup Closers /\ ~InGoneGroup(i)
             /\ doc[i] \notin P.vanish /\ ~(P.dropcmt /\ doc[i] = "cmt")) =>
           \E n \in 1..Len(out) : out[n].i = i

\* C12: only translatable kinds are extracted
InvTranslatable == \A n \in 1..Len(strs) : Info[strs[n].kind].tr

\* C13: a pending comment is the nearest earlier comment with no string between
InvComment ==
  \A n \in 1..Len(strs) :
     LET c == strs[n].com IN
       c # 0 => /\ doc[c] = "cmt" /\ c < strs[n].id
                /\ \A m \in (c+1)..(strs[n].id - 1) : ~Info[doc[m]].tr \/ DepthAt(strs[n].id) > 0

\* groups stay balanced in the output
InvBalanced ==
  phase = "done" =>
     Cardinality({n \in 1..Len(out) : out[n].i <= Len(doc) /\ doc[out[n].i] \in Openers})
       = Cardinality({n \in 1..Len(out) : out[n].i <= Len(doc) /\ doc[out[n].i] \in Closers})

Case ==
  [fmt |-> fmt, nl |-> nl, hist |-> hist, doc |-> doc,
   rejected |-> phase = "rejected",
   strs |-> [n \in 1..Len(strs) |-> [id |-> strs[n].id, pl |-> strs[n].pl, com |-> strs[n].com]],
   edits |-> edits, adds |-> adds,
   sstrs |-> StrIds(sstrs), stmpl |-> SlotIds(stmpl), keep |-> [n \in 1..Len(out) |-> out[n].i],
   back |-> [n \in 1..Len(back) |-> back[n].id]]

Emit == (EMIT /\ phase \in {"done", "rejected"}) => PrintT("CASE " \o ToJson(Case))

=============================================================================
