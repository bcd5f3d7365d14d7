------------------------------- MODULE Faults -------------------------------
(***************************************************************************)
(* Rejecting malformed files (C11).                                        *)
(* A file is a header and a sequence of items, each preceded by padding    *)
(* (blank lines, comments) and holding a body of one or more lines; one    *)
(* item may be malformed.  The reader goes through the file item by item,  *)
(* counts lines, extracts strings and stops at the first item it cannot    *)
(* accept.  KINDS are the faults a format must diagnose: where in its item *)
(* the offending construct stands (off lines after the item's first one,   *)
(* for each height of the body) and how many further lines it spans (ext); *)
(* pair says that the fault needs an earlier item to clash with.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, SequencesExt, FiniteSets

CONSTANTS FORMATS,    \* sequence of records [kinds, headers, height]: faults as
                      \* records [pair, end, off, ext], heights of the possible
                      \* headers and of an item with a body of no extra lines
          MAXITEMS, MAXPAD, MAXBODY, EMIT

VARIABLES fmt, head, items, phase, pos, line, out, result
vars == <<fmt, head, items, phase, pos, line, out, result>>
KINDS == FORMATS[fmt].kinds
HEADERS == FORMATS[fmt].headers
HEIGHT == FORMATS[fmt].height

Faulty(s) == \E i \in 1..Len(s) : s[i].k # 0
Init == /\ fmt \in 1..Len(FORMATS) /\ head \in 1..Len(FORMATS[fmt].headers) /\ items = <<>> /\ phase = "file"
        /\ pos = 1 /\ line = 1 /\ out = <<>> /\ result = [s |-> "none", from |-> 0, to |-> 0]

Add == /\ phase = "file" /\ Len(items) < MAXITEMS
       /\ \E p \in 0..MAXPAD, b \in 0..MAXBODY :
            \/ items' = Append(items, [p |-> p, b |-> b, k |-> 0, with |-> 0])
            \/ \E k \in 1..Len(KINDS) :
                 /\ ~Faulty(items)
                 /\ IF KINDS[k].pair
                    THEN \E w \in 1..Len(items) : items' = Append(items, [p |-> p, b |-> b, k |-> k, with |-> w])
                    ELSE items' = Append(items, [p |-> p, b |-> b, k |-> k, with |-> 0])
       /\ UNCHANGED <<fmt, head, phase, pos, line, out, result>>

\* a fault that runs to the end of the file can only stand in the last item
Wellplaced == \A i \in 1..Len(items) : (items[i].k # 0 /\ KINDS[items[i].k].end) => i = Len(items)
Start == /\ phase = "file" /\ items # <<>> /\ Wellplaced
         /\ phase' = "read" /\ line' = 1 + HEADERS[head]
         /\ UNCHANGED <<fmt, head, items, pos, out, result>>

Read == /\ phase = "read" /\ pos <= Len(items)
        /\ LET x == items[pos] l == line + x.p IN
             IF x.k = 0
             THEN /\ out' = Append(out, pos) /\ line' = l + HEIGHT + x.b /\ pos' = pos + 1
                  /\ UNCHANGED <<phase, result>>
             ELSE /\ result' = [s |-> "rejected", from |-> l + KINDS[x.k].off[x.b + 1],
                                to |-> l + KINDS[x.k].off[x.b + 1] + KINDS[x.k].ext[x.b + 1]]
                  /\ out' = <<>> /\ phase' = "done"
                  /\ UNCHANGED <<pos, line>>
        /\ UNCHANGED <<fmt, head, items>>
Accept == /\ phase = "read" /\ pos > Len(items)
          /\ phase' = "done" /\ result' = [s |-> "accepted", from |-> 0, to |-> 0]
          /\ UNCHANGED <<fmt, head, items, pos, line, out>>
Next == Add \/ Start \/ Read \/ Accept
Spec == Init /\ [][Next]_vars

Done == phase = "done"
Where == CHOOSE i \in 1..Len(items) : items[i].k # 0
Before(i) == FoldLeft(LAMBDA a, x : a + x.p + x.b + HEIGHT, 0, SubSeq(items, 1, i - 1))
InvRejected == Done => (result.s = "rejected" <=> Faulty(items))
InvNothing == (Done /\ Faulty(items)) => out = <<>>
InvAll == (Done /\ ~Faulty(items)) => Len(out) = Len(items)
\* the line does not depend on how the reader got there
InvLine == (Done /\ Faulty(items)) =>
  LET w == Where x == items[w] IN
    /\ result.from = 1 + HEADERS[head] + Before(w) + x.p + KINDS[x.k].off[x.b + 1]
    /\ result.to >= result.from
InvOne == Cardinality({i \in 1..Len(items) : items[i].k # 0}) <= 1

Emit == (EMIT /\ Done) => PrintT("CASE " \o ToJson([fmt |-> fmt, head |-> head, items |-> items, result |-> result, lines |-> line]))
=============================================================================
