------------------------------- MODULE YamlGen -------------------------------
(***************************************************************************)
(* Generating a YAML document from strings alone (C21): a source document  *)
(* is read into strings that know the path and the styles they were found  *)
(* with, some strings are left out, and the rest is inserted one by one    *)
(* into an empty document, creating maps and lists on the way.             *)
(*                                                                         *)
(* A source is a sequence of events: "ob"/"ol" opens a map or a list (in   *)
(* block or flow style), "cb" closes it, "sg" is a string, "pl" a plural   *)
(* (in maps only), "skip" a value the reader leaves out and does not count *)
(* ("skc": does count).                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, FiniteSets, SequencesExt

CONSTANTS MAXLEN, PLURALS, ORDER, EMIT

VARIABLES src,     \* source nodes: [kind, flow, par, idx] ; par = 0 is the root
          root,    \* "ob" or "ol"
          open,    \* stack of open containers
          phase, chosen, todo,
          gen      \* generated nodes: [src, par]; par = index in gen, 0 is the root
vars == <<src, root, open, phase, chosen, todo, gen>>

Leafs(s) == {i \in 1..Len(s) : s[i].kind \in {"sg", "pl"}}
KindOf(n) == IF n = 0 THEN root ELSE src[n].kind
FlowOf(n) == IF n = 0 THEN FALSE ELSE src[n].flow
Kids(s, n) == {i \in 1..Len(s) : s[i].par = n}
\* the position the reader gives to a list item
Index(s, n) == Cardinality({i \in Kids(s, s[n].par) : i < n /\ s[i].kind # "skip"})
RECURSIVE PathTo(_)
PathTo(n) == IF n = 0 THEN <<>> ELSE Append(PathTo(src[n].par), n)

Init == /\ src = <<>> /\ root \in {"ob", "ol"} /\ open = <<0>> /\ phase = "source"
        /\ chosen = {} /\ todo = <<>> /\ gen = <<>>
Top == open[Len(open)]
Author ==
  /\ phase = "source" /\ Len(src) < MAXLEN
  /\ \E k \in {"sg", "skip", "skc"} \cup (IF PLURALS /\ KindOf(Top) = "ob" THEN {"pl"} ELSE {}) :
       src' = Append(src, [kind |-> k, flow |-> FALSE, par |-> Top])
  /\ UNCHANGED <<root, open, phase, chosen, todo, gen>>
Open ==
  /\ phase = "source" /\ Len(src) < MAXLEN
  /\ \E k \in {"ob", "ol"}, f \in BOOLEAN :
       /\ FlowOf(Top) => f
       /\ src' = Append(src, [kind |-> k, flow |-> f, par |-> Top])
  /\ open' = Append(open, Len(src) + 1)
  /\ UNCHANGED <<root, phase, chosen, todo, gen>>
Close ==
  /\ phase = "source" /\ Len(open) > 1 /\ Kids(src, Top) # {}
  /\ open' = SubSeq(open, 1, Len(open) - 1)
  /\ UNCHANGED <<src, root, phase, chosen, todo, gen>>
\* some strings are kept, in the order of the document or in any order
Choose ==
  /\ phase = "source" /\ Leafs(src) # {} /\ (Kids(src, Top) # {} \/ Top = 0)
  /\ \E keep \in SUBSET Leafs(src) :
       /\ keep # {}
       /\ chosen' = keep
       /\ todo' \in (IF ORDER THEN {SetToSortSeq(keep, LAMBDA a, b : a < b)} ELSE SetToSeqs(keep))
  /\ phase' = "insert"
  /\ UNCHANGED <<src, root, open, gen>>

\* the generated node that stands for a source node, 0 if there is none
Found(g, n) == IF \E i \in 1..Len(g) : g[i].src = n THEN CHOOSE i \in 1..Len(g) : g[i].src = n ELSE 0
RECURSIVE Walk(_, _, _)
Walk(g, path, at) ==
  IF path = <<>> THEN g
  ELSE LET n == Head(path)
           have == Found(g, n)
       IN IF have # 0 THEN Walk(g, Tail(path), have)
          ELSE Walk(Append(g, [src |-> n, par |-> at]), Tail(path), Len(g) + 1)
Insert ==
  /\ phase = "insert" /\ todo # <<>>
  /\ gen' = Walk(gen, PathTo(Head(todo)), 0)
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<src, root, open, phase, chosen>>
Finish == phase = "insert" /\ todo = <<>> /\ phase' = "done" /\ UNCHANGED <<src, root, open, chosen, todo, gen>>
Next == Author \/ Open \/ Close \/ Choose \/ Insert \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == phase = "done"
RECURSIVE GPath(_)
GPath(i) == IF i = 0 THEN <<>> ELSE Append(GPath(gen[i].par), gen[i].src)
\* each chosen string stands exactly once, at its path; nothing else does
InvPaths == Done => /\ \A n \in chosen : Cardinality({i \in 1..Len(gen) : gen[i].src = n}) = 1
                    /\ \A i \in 1..Len(gen) : GPath(i) = PathTo(gen[i].src)
                    /\ \A i \in 1..Len(gen) : (src[gen[i].src].kind \in {"sg", "pl"}) = (gen[i].src \in chosen)
                    /\ \A i \in 1..Len(gen) : src[gen[i].src].kind \notin {"skip", "skc"}
\* in the order of the document the result is the source without the rest
RECURSIVE Under(_, _)
Under(a, n) == n # 0 /\ (src[n].par = a \/ Under(a, src[n].par))
Needed == {n \in 1..Len(src) : n \in chosen \/ \E m \in chosen : Under(n, m)}
InvPruned == (Done /\ ORDER) => [i \in 1..Len(gen) |-> gen[i].src] = SetToSortSeq(Needed, LAMBDA a, b : a < b)
\* no empty containers
InvFilled == Done => \A i \in 1..Len(gen) : src[gen[i].src].kind \in {"ob", "ol"} => \E j \in 1..Len(gen) : gen[j].par = i
\* a root list is only visible as such when all keys are indexes, which they then are
InvRoot == Done => gen # <<>>

GIndex(i) == Cardinality({j \in 1..i - 1 : gen[j].par = gen[i].par})
Emit == (EMIT /\ Done) => PrintT("CASE " \o ToJson(
  [root |-> root,
   src |-> [n \in 1..Len(src) |-> [kind |-> src[n].kind, flow |-> src[n].flow, par |-> src[n].par, idx |-> Index(src, n)]],
   chosen |-> SetToSortSeq(chosen, LAMBDA a, b : a < b),
   order |-> [i \in 1..Len(gen) |-> gen[i].src],
   gen |-> [i \in 1..Len(gen) |-> [src |-> gen[i].src, par |-> gen[i].par, idx |-> GIndex(i)]]]))
=============================================================================
