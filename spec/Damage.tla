------------------------------- MODULE Damage -------------------------------
(***************************************************************************)
(* Files damaged in any way (C11): a handler that is given one either      *)
(* extracts strings or reports a parse error; there is no third outcome,   *)
(* and whatever it was it leaves nothing behind that changes what the      *)
(* handler makes of the next file.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, SequencesExt, FiniteSets

CONSTANTS NFORMATS, NTOKENS, MAXOPS, MAXFILES, EMIT

VARIABLES fmt, files, outcomes, phase
vars == <<fmt, files, outcomes, phase>>

\* an edit: delete a stretch, insert a token, cut the file, repeat a stretch,
\* swap two stretches; at and len are parts of the file, in 1/97 of its size
Ops == {"delete", "insert", "cut", "repeat", "swap", "replace"}
Places == {0, 3, 11, 19, 29, 37, 43, 53, 61, 71, 79, 89, 96}
Lens == {1, 2, 5}

Init == fmt \in 1..NFORMATS /\ files = <<>> /\ outcomes = <<>> /\ phase = "file"
\* an edit is chosen in two steps
Whole == IF files = <<>> \/ Last(files).ops = <<>> THEN TRUE ELSE Last(Last(files).ops).l # 0
New == /\ phase = "file" /\ Whole /\ Len(files) < MAXFILES
       /\ \E n \in 1..3 : files' = Append(files, [items |-> n, ops |-> <<>>])
       /\ UNCHANGED <<fmt, outcomes, phase>>
Hurt == /\ phase = "file" /\ files # <<>> /\ Len(Last(files).ops) < MAXOPS
        /\ Whole
        /\ \E o \in Ops, a \in Places :
             files' = [files EXCEPT ![Len(files)].ops = Append(@, [o |-> o, a |-> a, l |-> 0, t |-> 0])]
        /\ UNCHANGED <<fmt, outcomes, phase>>
With == /\ phase = "file" /\ ~Whole
        /\ \E l \in Lens, t \in 1..NTOKENS :
             files' = [files EXCEPT ![Len(files)].ops = Front(@) \o <<[Last(@) EXCEPT !.l = l, !.t = t]>>]
        /\ UNCHANGED <<fmt, outcomes, phase>>
Read == /\ phase = "file" /\ Whole /\ Len(files) = MAXFILES
        /\ phase' = "read" /\ UNCHANGED <<fmt, files, outcomes>>
\* reading an intact file succeeds; reading a damaged one may
Parse == /\ phase = "read" /\ Len(outcomes) < Len(files)
         /\ \E r \in {"strings", "error"} :
              /\ (files[Len(outcomes) + 1].ops = <<>> => r = "strings")
              /\ outcomes' = Append(outcomes, r)
         /\ UNCHANGED <<fmt, files, phase>>
End == phase = "read" /\ Len(outcomes) = Len(files) /\ phase' = "done" /\ UNCHANGED <<fmt, files, outcomes>>
Next == New \/ Hurt \/ With \/ Read \/ Parse \/ End
Spec == Init /\ [][Next]_vars

\* what becomes of a file depends on that file alone
Allowed(f) == IF f.ops = <<>> THEN {"strings"} ELSE {"strings", "error"}
InvOutcome == \A i \in 1..Len(outcomes) : outcomes[i] \in Allowed(files[i])
InvIntact == \A i \in 1..Len(outcomes) : files[i].ops = <<>> => outcomes[i] = "strings"

Emit == (EMIT /\ phase = "read" /\ outcomes = <<>>) => PrintT("CASE " \o ToJson([fmt |-> fmt, files |-> files]))
=============================================================================
