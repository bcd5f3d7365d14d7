---------------------------- MODULE Transcriber ----------------------------
(***************************************************************************)
(* The transcription engine: a read pointer over a source, a destination   *)
(* made of chunks and section marks, and a count of newlines passed.       *)
(* Characters are abstract: "n" is a newline, anything else is text.       *)
(* TextOf(d) is what the destination must say (C14): the chunks in call    *)
(* order without the removed sections.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS SOURCES,    \* set of sources (sequences of characters)
          TEXTS,      \* texts that may be added
          SECTIONS,   \* only the calls that make and remove sections
          MAXOPS, EMIT

VARIABLES src, ptr, passed, dest, ops, obs
vars == <<src, ptr, passed, dest, ops, obs>>

Min(a, b) == IF a < b THEN a ELSE b
Count(s) == Cardinality({i \in 1..Len(s) : s[i] = "n"})
\* the piece of the source from the pointer up to (not including) offset e
Piece(e) == IF e > ptr THEN SubSeq(src, ptr + 1, Min(e, Len(src))) ELSE <<>>

Text(t) == [k |-> "text", t |-> t]
StartMark == [k |-> "start", t |-> <<>>]
EndMark == [k |-> "end", t |-> <<>>]
Gone == [k |-> "gone", t |-> <<>>]

RECURSIVE Flat(_, _)
Flat(d, i) == IF i > Len(d) THEN <<>>
              ELSE (IF d[i].k = "text" THEN d[i].t ELSE <<>>) \o Flat(d, i + 1)
TextOf(d) == Flat(d, 1)

Init == /\ src \in SOURCES
        /\ ptr = 0 /\ passed = 0 /\ dest = <<>> /\ ops = <<>> /\ obs = <<>>

Log(op, arg) ==
  /\ ops' = Append(ops, [op |-> op, arg |-> arg])
  /\ obs' = Append(obs, [line |-> passed' + 1, ptr |-> ptr'])
  /\ UNCHANGED src

\* copying up to a place that has been passed copies nothing and goes back to
\* it; going back over a newline would make the line numbers wrong
MoveCopy(e, op, arg) ==
  /\ e < ptr => Count(SubSeq(src, e + 1, ptr)) = 0
  /\ dest' = Append(dest, Text(Piece(e)))
  /\ passed' = passed + Count(Piece(e))
  /\ ptr' = e
  /\ Log(op, arg)

MoveSkip(e, op, arg) ==
  /\ e >= ptr
  /\ passed' = passed + Count(Piece(e))
  /\ ptr' = e
  /\ UNCHANGED dest
  /\ Log(op, arg)

Copy(k) == MoveCopy(ptr + k, "copy", k)
CopyUntil(e) == MoveCopy(e, "copy_until", e)
CopyToEnd == MoveCopy(Len(src), "copy_to_end", 0)
Skip(k) == MoveSkip(ptr + k, "skip", k)
SkipUntil(e) == MoveSkip(e, "skip_until", e)

Add(t) ==
  /\ dest' = Append(dest, Text(t))
  /\ UNCHANGED <<ptr, passed>>
  /\ Log("add", t)

Mark(m, op) ==
  /\ dest' = Append(dest, m)
  /\ UNCHANGED <<ptr, passed>>
  /\ Log(op, 0)

Starts == {i \in 1..Len(dest) : dest[i].k = "start"}
\* the start mark of the section `place` sections back
StartAt(place) == CHOOSE i \in Starts : Cardinality({j \in Starts : j > i}) = place
Ends(i) == {j \in i..Len(dest) : dest[j].k = "end"}
EndAt(i) == IF Ends(i) = {} THEN Len(dest) ELSE CHOOSE j \in Ends(i) : \A m \in Ends(i) : j <= m

Remove(place) ==
  /\ Cardinality(Starts) > place
  /\ LET s == StartAt(place)
         e == EndAt(s)
     IN /\ \A j \in Starts : j > s => j > e          \* sections are not nested
        /\ dest' = [i \in 1..Len(dest) |-> IF i >= s /\ i <= e THEN Gone ELSE dest[i]]
  /\ UNCHANGED <<ptr, passed>>
  /\ Log("remove_section", place)

Step ==
  \/ \E k \in 0..Len(src) : ptr + k <= Len(src) /\ (Copy(k) \/ Skip(k))
  \/ \E e \in 0..Len(src) : CopyUntil(e) \/ SkipUntil(e)
  \/ CopyToEnd
  \/ \E t \in TEXTS : Add(t)
  \/ Mark(StartMark, "mark_section_start") \/ Mark(EndMark, "mark_section_end")
  \/ \E p \in 0..3 : Remove(p)

\* behaviours made of sections only: they reach removals far back
Sections ==
  \/ Mark(StartMark, "mark_section_start") \/ Mark(EndMark, "mark_section_end")
  \/ \E k \in 1..2 : ptr + k <= Len(src) /\ (Copy(k) \/ Skip(k))
  \/ \E t \in TEXTS : Len(t) = 1 /\ Add(t)
  \/ \E p \in 0..3 : Remove(p)

Next == Len(ops) < MAXOPS /\ (IF SECTIONS THEN Sections ELSE Step)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
InvLine == passed = Count(SubSeq(src, 1, Min(ptr, Len(src))))
\* when nothing was skipped, added or removed the text is the part passed
InvIdentity ==
  (\A i \in 1..Len(ops) : ops[i].op \in {"copy", "copy_until", "copy_to_end", "mark_section_start", "mark_section_end"})
  /\ (\A i \in 1..(Len(obs) - 1) : obs[i].ptr <= obs[i + 1].ptr)
    => TextOf(dest) = SubSeq(src, 1, Min(ptr, Len(src)))
\* removal never takes text away that stands outside a removed section
InvGone == \A i \in 1..Len(dest) : dest[i].k # "gone" \/ \E j \in 1..Len(ops) : ops[j].op = "remove_section"

Emit == (EMIT /\ Len(ops) = MAXOPS) =>
  PrintT("CASE " \o ToJson([src |-> src, ops |-> ops, obs |-> obs, text |-> TextOf(dest)]))
=============================================================================
