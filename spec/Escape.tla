------------------------------- MODULE Escape -------------------------------
(***************************************************************************)
(* Escaping and unescaping as rewriting of symbol sequences (C10).         *)
(* FMT "json":       JSON strings                                          *)
(*     "android":    Android strings (backslashes stay the author's)       *)
(*     "unescaped":  Android strings escaped by the library                *)
(*     "sax":        XML character data                                    *)
(* TLC checks, over every text up to MAXLEN symbols, that unescaping       *)
(* inverts escaping and that the escaped text is well formed and read back *)
(* by the format's own reading rules; each text is emitted with its        *)
(* escaped form, to be compared with the handlers.                         *)
(* With BODY the sequence is an arbitrary string body of the file instead, *)
(* emitted with what it means.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, SequencesExt

CONSTANTS FMT, MAXLEN, BODY, EMIT

VARIABLE s
vars == <<s>>

\* symbols of texts; single letters n t u b f r are ordinary letters
JsonText == {"x", "n", "u", "\"", "\\", "/", "NL", "TAB", "CR", "BS", "FF", "CTL", "UNI", "AST"}
AndroidText == {"x", " ", "@", "@string/", "\"", "'", "\\", "n", "NL", "&amp;", "UNI"}
UnescText == {"x", "n", "t", "@", "@string/", "?", "\"", "'", "\\", "&", ">", "<", "NL", "TAB", "UNI", "amp;", "lt;"}
SaxText == {"x", "&", ">", "<", "\"", "'", "\\", "NL", "UNI", "amp;", "lt;", "gt;", "quot;"}
Alphabet == CASE FMT = "json" -> JsonText [] FMT = "android" -> AndroidText
              [] FMT = "unescaped" -> UnescText [] FMT = "sax" -> SaxText

\* symbols of string bodies: what may stand between the quotes of a JSON string
JsonBody == {"x", "UNI", "AST", "/", "\\\"", "\\\\", "\\/", "\\n", "\\t", "\\r", "\\b", "\\f", "\\uBMP", "\\uHI", "\\uLO", "u", "n"}
JsonMeaning == [x \in JsonBody |->
   CASE x = "\\\"" -> "\"" [] x = "\\\\" -> "\\" [] x = "\\/" -> "/" [] x = "\\n" -> "NL" [] x = "\\t" -> "TAB"
     [] x = "\\r" -> "CR" [] x = "\\b" -> "BS" [] x = "\\f" -> "FF" [] OTHER -> x]
RECURSIVE Mean(_)
Mean(q) == IF q = <<>> THEN <<>>
           ELSE IF Len(q) >= 2 /\ q[1] = "\\uHI" /\ q[2] = "\\uLO" THEN <<"PAIR">> \o Mean(SubSeq(q, 3, Len(q)))
           ELSE <<JsonMeaning[q[1]]>> \o Mean(Tail(q))

-----------------------------------------------------------------------------
EscSym(c) ==
  CASE FMT = "json" ->
         (CASE c = "\"" -> <<"\\", "\"">> [] c = "\\" -> <<"\\", "\\">> [] c = "NL" -> <<"\\", "n">>
            [] c = "TAB" -> <<"\\", "t">> [] c = "CR" -> <<"\\", "r">> [] c = "BS" -> <<"\\", "b">>
            [] c = "FF" -> <<"\\", "f">> [] c = "CTL" -> <<"\\", "u", "hex">> [] OTHER -> <<c>>)
    [] FMT = "android" ->
         (CASE c = "\"" -> <<"\\", "\"">> [] c = "'" -> <<"\\", "'">> [] OTHER -> <<c>>)
    [] FMT = "unescaped" ->
         (CASE c = "\"" -> <<"\\", "\"">> [] c = "'" -> <<"\\", "'">> [] c = "NL" -> <<"\\", "n">> [] c = "TAB" -> <<"\\", "t">>
            [] c = "@" -> <<"\\", "@">> [] c = "@string/" -> <<"\\", "@string/">> [] c = "?" -> <<"\\", "?">>
            [] c = "&" -> <<"&", "amp;">> [] c = ">" -> <<"&", "gt;">> [] c = "<" -> <<"&", "lt;">> [] OTHER -> <<c>>)
    [] FMT = "sax" ->
         (CASE c = "&" -> <<"&", "amp;">> [] c = ">" -> <<"&", "gt;">> [] c = "<" -> <<"&", "lt;">> [] OTHER -> <<c>>)

Esc(q) == LET body == FlattenSeq([i \in 1..Len(q) |-> EscSym(q[i])])
          IN IF FMT = "android" /\ q # <<>> /\ q[1] = "@" THEN <<"\\">> \o body ELSE body

At2(q, a, b) == Len(q) >= 2 /\ q[1] = a /\ q[2] = b
From(q, n) == SubSeq(q, n, Len(q))
\* reading rules, left to right
RECURSIVE Un(_)
Un(q) ==
  IF q = <<>> THEN <<>>
  ELSE IF FMT = "json" THEN
    IF q[1] = "\\" /\ Len(q) >= 2 THEN
      (CASE q[2] = "n" -> <<"NL">> [] q[2] = "u" -> <<"CTL">> [] q[2] = "t" -> <<"TAB">> [] q[2] = "r" -> <<"CR">>
         [] q[2] = "b" -> <<"BS">> [] q[2] = "f" -> <<"FF">> [] OTHER -> <<q[2]>>)
      \o Un(From(q, IF q[2] = "u" THEN 4 ELSE 3))
    ELSE <<q[1]>> \o Un(Tail(q))
  ELSE IF FMT = "android" THEN
    IF At2(q, "\\", "\"") \/ At2(q, "\\", "'") THEN <<q[2]>> \o Un(From(q, 3)) ELSE <<q[1]>> \o Un(Tail(q))
  ELSE IF FMT = "unescaped" THEN
    IF q[1] = "\\" /\ Len(q) >= 2 /\ q[2] \in {"\"", "'", "@", "@string/", "?", "n", "t"}
    THEN <<IF q[2] = "n" THEN "NL" ELSE IF q[2] = "t" THEN "TAB" ELSE q[2]>> \o Un(From(q, 3))
    ELSE IF q[1] = "&" /\ Len(q) >= 2 /\ q[2] \in {"amp;", "lt;", "gt;"}
    THEN <<CASE q[2] = "amp;" -> "&" [] q[2] = "lt;" -> "<" [] OTHER -> ">">> \o Un(From(q, 3))
    ELSE <<q[1]>> \o Un(Tail(q))
  ELSE IF q[1] = "&" /\ Len(q) >= 2 /\ q[2] \in {"amp;", "lt;", "gt;"}
    THEN <<CASE q[2] = "amp;" -> "&" [] q[2] = "lt;" -> "<" [] OTHER -> ">">> \o Un(From(q, 3))
    ELSE <<q[1]>> \o Un(Tail(q))
EscapedAt(q) == At2(q, "\\", "@") \/ At2(q, "\\", "@string/")
Unesc(q) == IF FMT = "android" /\ EscapedAt(q) THEN Un(Tail(q)) ELSE Un(q)

\* texts the format can tell from their escaped forms: Android leaves backslashes to the author
Expressible(q) ==
  CASE FMT = "android" -> ~EscapedAt(q)
    [] FMT = "unescaped" -> \A i \in 1..Len(q)-1 : ~(q[i] = "\\" /\ q[i+1] \in {"n", "t"})
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
Init == s = <<>>
Next == Len(s) < MAXLEN /\ \E c \in (IF BODY THEN JsonBody ELSE Alphabet) : s' = Append(s, c)
Spec == Init /\ [][Next]_vars

InvInverse == (~BODY /\ Expressible(s)) => Unesc(Esc(s)) = s
\* no quote ends the string early, nothing is left that the format does not allow in a string
InvClosed == ~BODY =>
  LET e == Esc(s) IN
  \A i \in 1..Len(e) :
    /\ (FMT = "json" => e[i] \notin {"NL", "TAB", "CR", "BS", "FF", "CTL"})
    /\ (FMT \in {"unescaped", "sax"} => e[i] \notin {"<", ">"})
    /\ (FMT \in {"unescaped", "sax"} /\ e[i] = "&" => i < Len(e) /\ e[i+1] \in {"amp;", "lt;", "gt;"})
    /\ (FMT \in {"json", "android", "unescaped"} /\ e[i] = "\"" => i > 1 /\ e[i-1] = "\\")
InvUntouched == (~BODY /\ \A i \in 1..Len(s) : EscSym(s[i]) = <<s[i]>> /\ s[1] # "@") => Esc(s) = s

Emit == EMIT => PrintT("CASE " \o ToJson(
  IF BODY THEN [fmt |-> FMT, body |-> s, text |-> Mean(s), ok |-> TRUE]
  ELSE [fmt |-> FMT, body |-> Esc(s), text |-> s, ok |-> Expressible(s)]))
=============================================================================
