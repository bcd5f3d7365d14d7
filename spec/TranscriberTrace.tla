-------------------------- MODULE TranscriberTrace --------------------------
(***************************************************************************)
(* Checks traces recorded from the real engine, while real files are       *)
(* parsed and compiled, against Transcriber: every recorded call must be a *)
(* step of the specification with the recorded arguments, and the recorded *)
(* line numbers, pointers and final text must be the specified ones.       *)
(***************************************************************************)
EXTENDS Transcriber

CONSTANT TRACES       \* sequence of [src, ops: [op, arg, line, ptr], text]

VARIABLES tr, at, trace   \* number of the trace, next call, the trace
tvars == <<src, ptr, passed, dest, ops, obs, tr, at, trace>>
TView == <<tr, at, ptr, passed, dest>>

TInit == /\ tr \in 1..Len(TRACES)
         /\ at = 1
         /\ trace = TRACES[tr]
         /\ src = trace.src
         /\ ptr = 0 /\ passed = 0 /\ dest = <<>> /\ ops = <<>> /\ obs = <<>>

Call == trace.ops[at]

Act(c) ==
  CASE c.op = "copy" -> MoveCopy(ptr + c.arg, c.op, c.arg)
    [] c.op = "copy_until" -> MoveCopy(c.arg, c.op, c.arg)
    [] c.op = "copy_to_end" -> CopyToEnd
    [] c.op = "skip" -> MoveSkip(ptr + c.arg, c.op, c.arg)
    [] c.op = "skip_until" -> MoveSkip(c.arg, c.op, c.arg)
    [] c.op = "add" -> Add(c.text)
    [] c.op = "mark_section_start" -> Mark(StartMark, c.op)
    [] c.op = "mark_section_end" -> Mark(EndMark, c.op)
    [] c.op = "remove_section" -> Remove(c.arg)

TNext == /\ at <= Len(trace.ops)
         /\ Act(Call)
         /\ obs'[Len(obs')].line = Call.line
         /\ obs'[Len(obs')].ptr = Call.ptr
         /\ at' = at + 1
         /\ UNCHANGED <<tr, trace>>

TSpec == TInit /\ [][TNext]_tvars

\* emitted for every trace that was followed to its end with the right text
TEmit == (at > Len(trace.ops) /\ TextOf(dest) = trace.text) => PrintT("CASE " \o ToJson([trace |-> tr]))
=============================================================================
