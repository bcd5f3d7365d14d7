--------------------------- MODULE StructuredMeta ---------------------------
(***************************************************************************)
(* Writing string metadata back into a structured JSON file (C19).         *)
(* A file is a sequence of entries, an entry a sequence of fields.  Every  *)
(* metadata field of an entry is changed in one of several ways; compiling *)
(* rewrites the fields that are there and adds the ones that are not.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, FiniteSets, SequencesExt

CONSTANTS MAXENT, MAXFIELDS, BLANKS, EMIT

VARIABLES ents, cur, upd, phase, out
vars == <<ents, cur, upd, phase, out>>

Meta == {"context", "developer_comment", "character_limit"}
AddOrder == <<"context", "character_limit", "developer_comment">>
\* other fields: text, number, object, list
Others == {"text", "number", "object", "list"}
Values(f) == IF f \in Meta THEN {"old", "empty", "null"} ELSE {"old"}
Has(e, f) == \E i \in 1..Len(e) : e[i].f = f
At(e, f) == CHOOSE i \in 1..Len(e) : e[i].f = f

Changes == {"same", "new", "clear"}
Init == ents = <<>> /\ cur = <<>> /\ upd = <<>> /\ phase = "source" /\ out = <<>>
AddField ==
  /\ phase = "source" /\ Len(cur) < MAXFIELDS /\ Len(ents) < MAXENT
  /\ \E f \in Meta \cup Others \cup {"string", "blank"} :
       /\ f \notin Others => ~Has(cur, f)
       /\ f = "blank" => BLANKS /\ ~Has(cur, "string")
       /\ f = "string" => ~Has(cur, "blank")
       /\ \E v \in Values(f) : cur' = Append(cur, [f |-> f, v |-> v])
  /\ UNCHANGED <<ents, upd, phase, out>>
IsString(e) == Has(e, "string")
NoChange == [context |-> "same", developer_comment |-> "same", character_limit |-> "same"]
EndEntry ==
  /\ phase = "source" /\ (Has(cur, "string") \/ Has(cur, "blank"))
  /\ ents' = Append(ents, cur) /\ cur' = <<>>
  /\ \E c, d, l \in Changes :
       /\ (~IsString(cur) => c = "same" /\ d = "same" /\ l = "same")
       /\ upd' = Append(upd, [context |-> c, developer_comment |-> d, character_limit |-> l])
  /\ UNCHANGED <<phase, out>>

\* what a reader makes of a field
Value(v) == IF v \in {"empty", "null", "cleared"} THEN "none" ELSE v
ReadMeta(e) == [f \in Meta |-> IF Has(e, f) THEN Value(e[At(e, f)].v) ELSE "none"]
Wanted(e, u) == [f \in Meta |-> CASE u[f] = "same" -> ReadMeta(e)[f] [] u[f] = "new" -> "new" [] OTHER -> "none"]

NewField(x, u) ==
  IF x.f \notin Meta THEN x
  ELSE CASE u[x.f] = "same" -> x
         [] u[x.f] = "new" -> [x EXCEPT !.v = "new"]
         [] OTHER -> IF Value(x.v) = "none" THEN x ELSE [x EXCEPT !.v = "cleared"]
Added(e, u) == SelectSeq(AddOrder, LAMBDA f : ~Has(e, f) /\ Wanted(e, u)[f] # "none")
Write(e, u) == [i \in 1..Len(e) |-> NewField(e[i], u)]
               \o [i \in 1..Len(Added(e, u)) |-> [f |-> Added(e, u)[i], v |-> "new"]]
Compile == /\ phase = "source" /\ cur = <<>> /\ \E i \in 1..Len(ents) : IsString(ents[i])
           /\ out' = [i \in 1..Len(ents) |-> Write(ents[i], upd[i])]
           /\ phase' = "done" /\ UNCHANGED <<ents, cur, upd>>
Next == AddField \/ EndEntry \/ Compile
Spec == Init /\ [][Next]_vars

Done == phase = "done"
\* reading the compiled file returns the metadata that was supplied
InvRead == Done => \A i \in 1..Len(ents) : ReadMeta(out[i]) = Wanted(ents[i], upd[i])
\* fields stay where they are, others than metadata as they are
InvOrder == Done => \A i \in 1..Len(ents) :
              /\ Len(out[i]) >= Len(ents[i])
              /\ \A k \in 1..Len(ents[i]) : out[i][k].f = ents[i][k].f
              /\ \A k \in 1..Len(ents[i]) : ents[i][k].f \notin Meta => out[i][k] = ents[i][k]
InvNothing == Done => \A i \in 1..Len(ents) : upd[i] = NoChange => out[i] = ents[i]
InvOnce == Done => \A i \in 1..Len(out) : \A f \in Meta : Cardinality({k \in 1..Len(out[i]) : out[i][k].f = f}) <= 1

Emit == (EMIT /\ Done) => PrintT("CASE " \o ToJson([ents |-> ents, upd |-> upd, out |-> out]))
=============================================================================
