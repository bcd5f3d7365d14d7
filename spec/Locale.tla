------------------------------- MODULE Locale -------------------------------
(***************************************************************************)
(* Where the language of a translated file is written (C20).               *)
(* A file is a head (what stands before the first entry) and a body, both  *)
(* sequences of parts.  At most one part declares the locale of the file;  *)
(* others only look like it.                                               *)
(*   FMT "ARB":     body parts are top level members                       *)
(*       "ANDROID": the head are the attributes of <resources> (and what   *)
(*                  stands before it), the body its children               *)
(*       "YAML":    the head is the root key, the body its members         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, FiniteSets

CONSTANTS FMT, MAXLEN, EMIT

VARIABLES head, body, mode, lang, phase, out
vars == <<head, body, mode, lang, phase, out>>

\* decl: the declaration; number: the declaration with a value that is not a string
\* nested: the same member, one level deeper; like: a member with a similar name;
\* quoted: a string that contains the text of a declaration; cmt: a comment that does
HeadParts == CASE FMT = "ARB" -> {} [] FMT = "ANDROID" -> {"decl", "like", "xmlns", "cmt", "quoted"} [] OTHER -> {"decl"}
BodyParts == CASE FMT = "ARB" -> {"decl", "number", "nested", "like", "quoted", "str", "blank", "plural"}
               [] FMT = "ANDROID" -> {"nested", "quoted", "cmt", "str", "blank", "plural"}
               [] OTHER -> {"nested", "quoted", "cmt", "str", "blank", "like", "plural"}
Once(q, ps) == Cardinality({i \in 1..Len(q) : q[i] \in ps}) = 0
\* keys that may occur once only; comments stand before the tag, attributes in it
MayAdd(q, p) == /\ (p \in {"decl", "number"} => Once(q, {"decl", "number"}))
                /\ (FMT = "ANDROID" /\ p \in {"like", "xmlns"} => Once(q, {p}))
Modes == IF FMT = "YAML" THEN {"template", "generated"} ELSE {"template"}
\* no language: no argument is given, or it is given as nothing
Langs == {"missing", "none", "plain", "region", "script"}

Init == head = <<>> /\ body = <<>> /\ mode \in Modes /\ lang \in Langs /\ phase = "source" /\ out = <<>>
AddHead == /\ phase = "source" /\ body = <<>> /\ Len(head) < (IF FMT = "YAML" THEN 1 ELSE 3)
           /\ \E p \in HeadParts : MayAdd(head, p) /\ head' = Append(head, p)
           /\ UNCHANGED <<body, mode, lang, phase, out>>
AddBody == /\ phase = "source" /\ Len(body) < MAXLEN /\ (FMT = "YAML" => head # <<>>)
           /\ \E p \in BodyParts : MayAdd(body, p) /\ body' = Append(body, p)
           /\ UNCHANGED <<head, mode, lang, phase, out>>
Extracted(p) == p \in {"str", "plural"} \/ (p = "quoted" /\ FMT # "ANDROID") \/ (p = "like" /\ FMT = "YAML") \/ (p = "nested" /\ FMT # "ARB")
HasText == \E i \in 1..Len(body) : Extracted(body[i]) \/ body[i] = "quoted"
\* what becomes of a part: "same" or the language
Given == lang \notin {"missing", "none"}
Fate(p) == IF p = "decl" /\ Given /\ mode = (IF FMT = "YAML" THEN "generated" ELSE "template") THEN "language" ELSE "same"
Compile == /\ phase = "source" /\ HasText
           /\ out' = [i \in 1..Len(head \o body) |-> Fate((head \o body)[i])]
           /\ phase' = "done" /\ UNCHANGED <<head, body, mode, lang>>
Next == AddHead \/ AddBody \/ Compile
Spec == Init /\ [][Next]_vars

Done == phase = "done"
File == head \o body
InvOnlyThere == Done => \A i \in 1..Len(out) : out[i] # "same" => File[i] = "decl"
InvThere == (Done /\ Given /\ mode # "template") \/ (Done /\ Given /\ FMT # "YAML")
              => \A i \in 1..Len(out) : File[i] = "decl" => out[i] = "language"
InvQuiet == (Done /\ ~Given) => \A i \in 1..Len(out) : out[i] = "same"
InvOnce == Done => Cardinality({i \in 1..Len(out) : out[i] # "same"}) <= 1

Emit == (EMIT /\ Done) => PrintT("CASE " \o ToJson(
  [fmt |-> FMT, head |-> head, body |-> body, mode |-> mode, lang |-> lang, out |-> out]))
=============================================================================
