------------------------------ MODULE Subtitles ------------------------------
(***************************************************************************)
(* Subtitle files as sequences of cues, each with a number or identifier,  *)
(* a timing line and text lines; which files are accepted, and for those   *)
(* that are not, the first cue at fault, why, and the line at fault (C24). *)
(* FMT "SRT": numbered cues.  FMT "VTT": cues with optional identifiers.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS FMT, MAXCUES, FULL, EMIT

VARIABLES cues,     \* the cues written so far
          line,     \* the number of the next line
          last,     \* the number of the last cue
          verdict,  \* [fault, line]; fault = "" while the file is fine
          found     \* the cues that yield a string, with their numbers
vars == <<cues, line, last, verdict, found>>

GoodTime == IF FMT = "SRT" THEN {"full", "ms1", "ms2", "none", "wide"} ELSE {"full", "ms1", "ms2", "none", "wide", "short", "shortnone"}
BadTime == {"word", "few", "many", "badms", "sep", "empty-field"}
GoodNum == {"next", "skip"}
BadNum == {"same", "lower", "zero", "negative", "word", "float"}
BadArrow == {"glued", "other", "no-end", "no-start"} \cup (IF FMT = "SRT" THEN {"missing", "short-arrow"} ELSE {})
Good == ""

Init == /\ cues = <<>> /\ last = 0 /\ verdict = [fault |-> "", line |-> 0] /\ found = <<>>
        /\ line \in (IF FMT = "SRT" THEN 1..2 ELSE {3})

Number(c) == CASE c.num = "next" -> last + 1 [] c.num = "skip" -> last + 3 [] OTHER -> last

\* what is wrong with a cue that starts on the current line
Fault(c) ==
  LET tl == IF FMT = "SRT" THEN line + 1 ELSE line + c.id
      timing == IF c.arrow # Good THEN [fault |-> "pattern", line |-> tl]
                ELSE IF c.st \in BadTime THEN [fault |-> "start", line |-> tl]
                ELSE IF c.en \in BadTime THEN [fault |-> "end", line |-> tl]
                ELSE [fault |-> "", line |-> 0]
  IN IF FMT = "SRT"
     THEN IF c.lines = 0 THEN [fault |-> "data", line |-> line]
          ELSE IF c.num \in {"zero", "negative", "word", "float"} THEN [fault |-> "number", line |-> line]
          ELSE IF c.num \in {"same", "lower"} THEN [fault |-> "order", line |-> line]
          ELSE timing
     ELSE timing

Cue(c) ==
  /\ verdict.fault = "" /\ Len(cues) < MAXCUES
  /\ cues' = Append(cues, c)
  /\ verdict' = Fault(c)
  /\ last' = IF FMT = "SRT" THEN Number(c) ELSE last + 1
  /\ found' = IF c.lines > 0 THEN Append(found, [cue |-> Len(cues) + 1, n |-> Number(c)]) ELSE found
  /\ line' = line + 1 + (IF FMT = "SRT" THEN 1 ELSE c.id) + c.lines + c.gap

Nums == IF FMT # "SRT" THEN {"next"} ELSE GoodNum \cup (IF last = 0 THEN {"zero", "negative", "word", "float"} ELSE BadNum)
Ids == IF FMT = "SRT" THEN {0} ELSE 0..2
Gaps == IF FULL THEN 1..3 ELSE 1..2
\* at most one thing is wrong with a cue
Next == /\ verdict.fault = "" /\ Len(cues) < MAXCUES
        /\ \E wrong \in {"", "num", "st", "en", "arrow"} \cup (IF FMT = "SRT" THEN {"num", "lines"} ELSE {}) :
           \E num \in IF wrong = "num" THEN Nums \cap BadNum ELSE Nums \cap GoodNum,
              st \in IF wrong = "st" THEN BadTime ELSE GoodTime,
              arrow \in IF wrong = "arrow" THEN BadArrow ELSE {Good},
              lines \in IF wrong = "lines" THEN {0} ELSE (IF FMT = "SRT" THEN 1 ELSE 0)..(IF FULL THEN 3 ELSE 2),
              id \in Ids, gap \in Gaps, set \in IF wrong = "arrow" THEN {FALSE} ELSE BOOLEAN :
           \E en \in IF wrong = "en" THEN BadTime ELSE IF FULL THEN GoodTime ELSE {st, "full"} \cap GoodTime :
             Cue([num |-> num, st |-> st, en |-> en, arrow |-> arrow, set |-> set, lines |-> lines, id |-> id, gap |-> gap])
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Bad(c) == c.num \in BadNum \/ c.st \in BadTime \/ c.en \in BadTime \/ c.arrow # Good \/ (FMT = "SRT" /\ c.lines = 0)
InvVerdict == (verdict.fault # "") <=> (\E i \in 1..Len(cues) : Bad(cues[i]))
InvFirst == \A i \in 1..Len(cues) - 1 : ~Bad(cues[i])
InvAscending == FMT = "SRT" /\ verdict.fault = "" => \A i \in 1..Len(found) - 1 : found[i].n < found[i+1].n
InvLine == verdict.fault # "" => verdict.line < line

Emit == (EMIT /\ cues # <<>>) => PrintT("CASE " \o ToJson([fmt |-> FMT, cues |-> cues, verdict |-> verdict, found |-> found, last |-> last]))
=============================================================================
