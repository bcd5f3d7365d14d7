----------------------------- MODULE YamlScalar -----------------------------
(***************************************************************************)
(* Texts as YAML scalars (C21): how each scalar style writes a text as     *)
(* lines, what a reader makes of these lines, and which texts a style      *)
(* holds.  A text is a sequence of symbols; "NL" is a line break and " " a *)
(* space, all other symbols are characters or words.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, FiniteSets

CONSTANTS ALPHABET, MAXLEN, EMIT
VARIABLE t
vars == <<t>>

Indicators == {"-", "?", ":", ",", "[", "]", "{", "}", "#", "&", "*", "!", "|", ">", "'", "\"", "%", "@", "`"}
\* words that are read as something else than strings
Typed == {"yes", "null", "~", "1", "1.5", "0x1", "2001-01-01", "<<", "=", ".inf", "1:30"}
Odd == {"TAB", "CR", "NEL", "LS", "BOM", "BEL", "AST", "NBSP", "FF"}
Plain == {"a", "b"}

Range(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Split(_, _)
Split(q, cur) == IF q = <<>> THEN <<cur>>
                 ELSE IF Head(q) = "NL" THEN <<cur>> \o Split(Tail(q), <<>>)
                 ELSE Split(Tail(q), Append(cur, Head(q)))
Lines(q) == Split(q, <<>>)
RECURSIVE Join(_)
Join(ls) == IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o <<"NL">> \o Join(Tail(ls))
Blank(l) == Range(l) \subseteq {" "}
RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)
RECURSIVE Trailing(_)
Trailing(q) == IF q = <<>> \/ q[Len(q)] # "NL" THEN 0 ELSE 1 + Trailing(SubSeq(q, 1, Len(q) - 1))

-----------------------------------------------------------------------------
(* literal blocks: a header that tells how to treat the end, and the lines *)
Chomp(q) == CASE Trailing(q) = 0 -> "strip" [] Trailing(q) = 1 -> "clip" [] OTHER -> "keep"
Content(q) == Lines(SubSeq(q, 1, Len(q) - Trailing(q)))
After(q) == IF Trailing(q) > 1 THEN Trailing(q) - 1 ELSE 0          \* blank lines written at the end
LiteralW(q) == [chomp |-> Chomp(q), lines |-> Content(q), blanks |-> After(q)]
End(w) == CASE w.chomp = "strip" -> <<>> [] w.chomp = "clip" -> <<"NL">> [] OTHER -> Rep("NL", w.blanks + 1)
LiteralR(w) == Join(w.lines) \o End(w)

(* folded blocks: one line break is a space; breaks next to an indented    *)
(* line stay as they are                                                   *)
Indented(l) == l # <<>> /\ l[1] \in {" ", "TAB"}
\* index of the next line with content
Next1(ls, i) == CHOOSE j \in (i + 1)..Len(ls) : ls[j] # <<>> /\ \A k \in (i + 1)..(j - 1) : ls[k] = <<>>
RECURSIVE FoldLines(_, _)
FoldLines(ls, i) ==
  IF i = Len(ls) THEN <<ls[i]>>
  ELSE LET j == Next1(ls, i)
           soft == ~Indented(ls[i]) /\ ~Indented(ls[j])
       IN <<ls[i]>> \o Rep(<<>>, (j - i - 1) + (IF soft THEN 1 ELSE 0)) \o FoldLines(ls, j)
FoldW(q) == [chomp |-> Chomp(q), lines |-> FoldLines(Content(q), 1), blanks |-> After(q)]
RECURSIVE Unfold(_, _)
Unfold(ls, i) ==
  IF i = Len(ls) THEN ls[i]
  ELSE LET j == Next1(ls, i)
           soft == ~Indented(ls[i]) /\ ~Indented(ls[j])
           m == j - i - 1
       IN ls[i] \o (IF soft /\ m = 0 THEN <<" ">> ELSE Rep("NL", IF soft THEN m ELSE m + 1)) \o Unfold(ls, j)
FoldR(w) == Unfold(w.lines, 1) \o End(w)

(* single quotes: doubled quotes; line breaks fold and eat the spaces      *)
(* around them                                                             *)
RECURSIVE Doubled(_)
Doubled(q) == IF q = <<>> THEN <<>>
              ELSE (IF Head(q) = "'" THEN <<"'", "'">> ELSE IF Head(q) = "NL" THEN
                      (IF Len(q) > 1 /\ q[2] = "NL" THEN <<"NL">> ELSE <<"NL", "NL">>) ELSE <<Head(q)>>) \o Doubled(Tail(q))
RECURSIVE LeadNL(_)
LeadNL(q) == IF q = <<>> \/ q[1] # "NL" THEN 0 ELSE 1 + LeadNL(Tail(q))
RECURSIVE Undoubled(_)
Undoubled(q) == IF q = <<>> THEN <<>>
                ELSE IF Len(q) > 1 /\ q[1] = "'" /\ q[2] = "'" THEN <<"'">> \o Undoubled(SubSeq(q, 3, Len(q)))
                ELSE IF q[1] = "NL" THEN
                   LET n == LeadNL(q) IN (IF n = 1 THEN <<" ">> ELSE Rep("NL", n - 1)) \o Undoubled(SubSeq(q, n + 1, Len(q)))
                ELSE <<q[1]>> \o Undoubled(Tail(q))

-----------------------------------------------------------------------------
(* texts a style holds.  These are sufficient conditions: the style of the *)
(* source must be kept for them, and elsewhere double quotes are also fine *)
NoBreaks == "NL" \notin Range(t)
Common == t # <<>> /\ Range(t) \cap Odd = {}
SpaceAtBreak == \E i \in 1..Len(t) - 1 : {t[i], t[i+1]} = {" ", "NL"}
HoldsPlain == Common /\ NoBreaks /\ t[1] \in Plain /\ t[Len(t)] \in Plain
              /\ Range(t) \subseteq Plain \cup Typed \cup {" ", "."}
HoldsSingle == Common /\ ~SpaceAtBreak /\ t[1] \notin {" ", "NL"} /\ t[Len(t)] \notin {" ", "NL"}
HoldsBlock == Common /\ ~SpaceAtBreak /\ t[1] \notin {" ", "NL"} /\ t[Len(t)] # " "
Holds(style) == CASE style = "plain" -> HoldsPlain [] style = "single" -> HoldsSingle
                  [] style = "double" -> TRUE [] OTHER -> HoldsBlock

-----------------------------------------------------------------------------
Init == t = <<>>
Next == Len(t) < MAXLEN /\ \E c \in ALPHABET : t' = Append(t, c)
Spec == Init /\ [][Next]_vars

InvLiteral == HoldsBlock => LiteralR(LiteralW(t)) = t
InvFolded == HoldsBlock => FoldR(FoldW(t)) = t
InvSingle == HoldsSingle => Undoubled(Doubled(t)) = t
\* a block without its explicit end differs only in its line breaks at the end
InvChomp == HoldsBlock => (Chomp(t) = "strip") = (t[Len(t)] # "NL")

Emit == EMIT => PrintT("CASE " \o ToJson(
  [text |-> t, keeps |-> [plain |-> HoldsPlain, single |-> HoldsSingle, double |-> TRUE, literal |-> HoldsBlock, folded |-> HoldsBlock],
   chomp |-> IF HoldsBlock THEN Chomp(t) ELSE "any"]))
=============================================================================
