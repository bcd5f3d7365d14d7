-------------------------------- MODULE Icu --------------------------------
(***************************************************************************)
(* Recognition of ICU plural messages (C16), on sequences of tokens.       *)
(* A message is a head and a sequence of tokens after it.  Classify is an  *)
(* explicit automaton over the tokens; TLC enumerates every token sequence *)
(* up to a bound and the harness compares each verdict, and the forms of   *)
(* each plural, with what the code makes of the rendered message.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS HEADS,   \* kinds of beginnings
          RULES,   \* words that are plural rule names
          NUMS,    \* numeric rules
          OTHERS,  \* words that are neither
          MAXLEN, MAXDEPTH, NUMERIC, EMIT

VARIABLES head, toks, depth, done
vars == <<head, toks, depth, done>>

Words == RULES \cup NUMS \cup OTHERS
RuleOf(w) == CASE w = "=0" -> "zero" [] w = "=1" -> "one" [] w = "=2" -> "two" [] OTHER -> w

Init == head \in HEADS /\ toks = <<>> /\ depth = 0 /\ done = FALSE

\* braces may be unbalanced by one in either direction
Write(t) ==
  /\ ~done /\ Len(toks) < MAXLEN
  /\ depth' = depth + (IF t = "{" THEN 1 ELSE 0) - (IF t = "}" /\ depth > 0 THEN 1 ELSE 0)
  /\ depth' <= MAXDEPTH
  /\ toks' = Append(toks, t)
  /\ UNCHANGED <<head, done>>

Stop == ~done /\ done' = TRUE /\ UNCHANGED <<head, toks, depth>>
Next == (\E t \in Words \cup {"{", "}"} : Write(t)) \/ Stop
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Reading.  A plural head is `{ arg , plural ,` ; the message is complete  *)
(* when its last token closes it.                                           *)

IsCandidate == head = "plural" /\ toks # <<>> /\ toks[Len(toks)] = "}"
Inner == SubSeq(toks, 1, Len(toks) - 1)

\* position of the brace closing the one at i, 0 if there is none
RECURSIVE CloseFrom(_, _, _)
CloseFrom(s, i, d) ==
  IF i > Len(s) THEN 0
  ELSE IF s[i] = "{" THEN CloseFrom(s, i + 1, d + 1)
  ELSE IF s[i] = "}" THEN (IF d = 1 THEN i ELSE CloseFrom(s, i + 1, d - 1))
  ELSE CloseFrom(s, i + 1, d)
Close(s, i) == CloseFrom(s, i, 0)

\* where numeric rules are not supported a message that uses one is text
UsesNumeric == \E i \in 1..(Len(Inner) - 1) :
                  Inner[i] \in NUMS /\ Inner[i + 1] = "{" /\ Close(Inner, i + 1) # 0

\* forms of the plural, or Wrong
Wrong == <<[rule |-> "error", from |-> 0, to |-> 0]>>
RECURSIVE Forms(_, _, _)
Forms(s, i, seen) ==
  IF i > Len(s) THEN (IF seen = {} THEN Wrong ELSE <<>>)
  ELSE IF s[i] \notin RULES \cup NUMS THEN Wrong
  ELSE IF RuleOf(s[i]) \in seen THEN Wrong
  ELSE IF i = Len(s) \/ s[i + 1] # "{" THEN Wrong
  ELSE LET c == Close(s, i + 1) IN
       IF c = 0 THEN Wrong
       ELSE LET rest == Forms(s, c + 1, seen \cup {RuleOf(s[i])}) IN
            IF rest = Wrong /\ c < Len(s) THEN Wrong
            ELSE IF c = Len(s) THEN <<[rule |-> RuleOf(s[i]), from |-> i + 2, to |-> c - 1]>>
            ELSE <<[rule |-> RuleOf(s[i]), from |-> i + 2, to |-> c - 1]>> \o rest

Verdict ==
  IF ~IsCandidate THEN [v |-> "plain", forms |-> <<>>]
  ELSE IF ~NUMERIC /\ UsesNumeric THEN [v |-> "plain", forms |-> <<>>]
  ELSE LET f == Forms(Inner, 1, {}) IN
       IF f = Wrong THEN [v |-> "error", forms |-> <<>>] ELSE [v |-> "plural", forms |-> f]

\* the forms' braces always nest inside the message
InvForms == done => \A i \in 1..Len(Verdict.forms) :
    LET f == Verdict.forms[i] IN
      /\ f.from <= f.to + 1
      /\ Cardinality({j \in f.from..f.to : toks[j] = "{"}) = Cardinality({j \in f.from..f.to : toks[j] = "}"})
InvRulesOnce == done => \A i, j \in 1..Len(Verdict.forms) : i # j => Verdict.forms[i].rule # Verdict.forms[j].rule

Emit == (EMIT /\ done) => PrintT("CASE " \o ToJson([head |-> head, toks |-> toks, verdict |-> Verdict]))
=============================================================================
