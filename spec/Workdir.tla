------------------------------ MODULE Workdir ------------------------------
(***************************************************************************)
(* Packages of office documents while they are parsed and compiled (C18).  *)
(* An operation unpacks its package into a folder of its own, reads the    *)
(* parts it needs, works on them, packs the result and removes the folder. *)
(* Operations of several documents run at the same time, in any            *)
(* interleaving, and fail at any step.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, FiniteSets

CONSTANTS MINOPS, MAXOPS, DIALECTS, MEMBERS, MAXMEM, EMIT

VARIABLES draft,   \* what is still to be said of the last operation
          ops,     \* what was started: kind, dialect, fault, members
          at,      \* the step each operation is at
          disk,    \* folders on the disk, by owner
          res,     \* outcomes
          sched    \* the operation that moves, step by step
vars == <<draft, ops, at, disk, res, sched>>

Steps == <<"open", "read", "work", "pack", "end">>
Last == Len(Steps)
\* faults and the step they show at
FaultsOf(k) ==
  {[f |-> "", s |-> 0]}
  \cup {[f |-> f, s |-> 1] : f \in {"notzip", "cut", "clash"}}
  \cup {[f |-> f, s |-> 2] : f \in {"noindex", "nodoc", "norels", "garbled", "crash"}}
  \cup {[f |-> f, s |-> 3] : f \in {"crash"} \cup (IF k = "compile" THEN {"badstring"} ELSE {})}
  \cup {[f |-> f, s |-> 4] : f \in {"full"}}
NONE == [of |-> 0, main |-> "none", extra |-> {}]

Init == ops = <<>> /\ at = <<>> /\ disk = <<>> /\ res = <<>> /\ sched = <<>> /\ draft = "none"

N == Len(ops)
Start == /\ N < MAXOPS /\ draft = "none"
         /\ \E d \in DIALECTS, k \in {"parse", "compile"} :
              ops' = Append(ops, [d |-> d, k |-> k, fault |-> "", step |-> 0, m |-> {}])
         /\ at' = Append(at, 0) /\ disk' = Append(disk, NONE) /\ res' = Append(res, "")
         /\ draft' = "fault"
         /\ UNCHANGED sched
Sound == draft = "fault" /\ draft' = "members" /\ UNCHANGED <<ops, at, disk, res, sched>>
Faulty == /\ draft = "fault"
          /\ \E f \in FaultsOf(ops[N].k) :
               /\ ops[N].d = "xlsx" => f.f # "norels"       \* optional there
               /\ ops' = [ops EXCEPT ![N].fault = f.f, ![N].step = f.s]
          /\ draft' = "members"
          /\ UNCHANGED <<at, disk, res, sched>>
Member == /\ draft = "members" /\ Cardinality(ops[N].m) < MAXMEM
          /\ \E m \in MEMBERS \ ops[N].m : ops' = [ops EXCEPT ![N].m = @ \cup {m}]
          /\ UNCHANGED <<at, disk, res, sched, draft>>
Ready == draft = "members" /\ draft' = "none" /\ UNCHANGED <<ops, at, disk, res, sched>>

\* a failing operation removes its folder as well
Move(i) ==
  /\ res[i] = "" /\ draft = "none"
  /\ LET s == at[i] + 1 IN
     /\ at' = [at EXCEPT ![i] = s]
     /\ sched' = Append(sched, i)
     /\ IF ops[i].step = s
        THEN res' = [res EXCEPT ![i] = "error"] /\ disk' = [disk EXCEPT ![i] = NONE]
        ELSE CASE s = 1 -> disk' = [disk EXCEPT ![i] = [of |-> i, main |-> "source", extra |-> ops[i].m]] /\ UNCHANGED res
               [] s = 3 -> disk' = [disk EXCEPT ![i].main = ops[i].k] /\ UNCHANGED res
               [] s = Last -> disk' = [disk EXCEPT ![i] = NONE] /\ res' = [res EXCEPT ![i] = "ok"]
               [] OTHER -> UNCHANGED <<disk, res>>
  /\ UNCHANGED <<ops, draft>>
Next == Start \/ Sound \/ Faulty \/ Member \/ Ready \/ \E i \in 1..Len(ops) : Move(i)
Spec == Init /\ [][Next]_vars

Ended(i) == res[i] # ""
\* a folder is there while its operation runs, and no longer
InvOwned == \A i \in 1..Len(ops) : (disk[i] # NONE) <=> (at[i] >= 1 /\ ~Ended(i))
InvRest == (\A i \in 1..Len(ops) : Ended(i)) => \A i \in 1..Len(ops) : disk[i] = NONE
\* what is packed is what the operation unpacked, with its own changes
InvKept == \A i \in 1..Len(ops) : disk[i] # NONE =>
             /\ disk[i].of = i /\ disk[i].extra = ops[i].m
             /\ disk[i].main = IF at[i] >= 3 THEN ops[i].k ELSE "source"
\* an operation fails if its own package is at fault, and only then
InvOutcome == \A i \in 1..Len(ops) : Ended(i) => (res[i] = "ok") <=> (ops[i].fault = "")
\* nothing another operation does changes a folder
InvApart == [][\A i \in 1..Len(ops) : sched' # sched /\ sched'[Len(sched')] # i => disk'[i] = disk[i]]_vars

Done == draft = "none" /\ Len(ops) >= MINOPS /\ \A i \in 1..Len(ops) : Ended(i)
Emit == (EMIT /\ Done) => PrintT("CASE " \o ToJson([ops |-> ops, res |-> res, sched |-> sched]))
=============================================================================
