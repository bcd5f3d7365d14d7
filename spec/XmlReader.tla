------------------------------ MODULE XmlReader ------------------------------
(***************************************************************************)
(* XML documents as token sequences accepted by a pushdown automaton, and  *)
(* what a positional reader must report for each (C23): every element and  *)
(* comment with the token it starts at, the token closing it, the tokens   *)
(* of its leading text and of its tail, and its children in order.         *)
(* Tokens: O opening tag, C closing tag, E self-closing tag, M comment,    *)
(*   T text, D CDATA section (part of the text around it)                  *)
(* Faulty documents end early (in the content, in a tag, in a comment, in  *)
(* an attribute, in a CDATA section) or close an element with another      *)
(* name; the reader must reject them, whatever the fault is nested in.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MAXLEN, EMIT

VARIABLES toks, stack, nodes, fault
vars == <<toks, stack, nodes, fault>>
\* stack: the opening tokens of the open elements
\* nodes: sequence of [o: first token, c: last token or 0, p: parent's first token or 0, kind]

N == Len(toks) + 1
Top == stack[Len(stack)]
Parent == IF stack = <<>> THEN 0 ELSE Top
Put(t) == toks' = Append(toks, t)
Room(k) == Len(toks) + Len(stack) + k <= MAXLEN
RootDone == nodes # <<>> /\ stack = <<>>
\* after the root there may be one run of text
Over == fault # "" \/ (RootDone /\ toks[Len(toks)] # "C" /\ toks[Len(toks)] # "E") \/ (RootDone /\ ~Room(1))
Inside == fault = "" /\ stack # <<>>

Init == toks = <<>> /\ stack = <<>> /\ nodes = <<>> /\ fault = ""

Open == /\ fault = "" /\ ((stack # <<>> /\ Room(2)) \/ toks = <<>>)
        /\ Put("O") /\ stack' = Append(stack, N)
        /\ nodes' = Append(nodes, [o |-> N, c |-> 0, p |-> Parent, kind |-> "element"])
        /\ UNCHANGED fault
Single == /\ fault = "" /\ ((stack # <<>> /\ Room(1)) \/ toks = <<>>)
          /\ Put("E")
          /\ nodes' = Append(nodes, [o |-> N, c |-> N, p |-> Parent, kind |-> "single"])
          /\ UNCHANGED <<stack, fault>>
Comment == /\ Inside /\ Room(1)
           /\ Put("M")
           /\ nodes' = Append(nodes, [o |-> N, c |-> N, p |-> Parent, kind |-> "comment"])
           /\ UNCHANGED <<stack, fault>>
Text == /\ fault = "" /\ (Inside \/ (RootDone /\ toks[Len(toks)] # "T")) /\ Room(1)
        /\ toks[Len(toks)] # "T"
        /\ Put("T") /\ UNCHANGED <<stack, nodes, fault>>
Cdata == /\ Inside /\ Room(1) /\ Put("D") /\ UNCHANGED <<stack, nodes, fault>>
Close == /\ Inside /\ Put("C")
         /\ nodes' = [i \in 1..Len(nodes) |-> IF nodes[i].o = Top THEN [nodes[i] EXCEPT !.c = N] ELSE nodes[i]]
         /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
         /\ UNCHANGED fault
Break == /\ Inside
         /\ \E f \in {"ends", "wrong-close", "open-tag", "comment", "attribute", "cdata", "close-tag"} : fault' = f
         /\ UNCHANGED <<toks, stack, nodes>>

Next == ~Over /\ (Open \/ Single \/ Comment \/ Text \/ Cdata \/ Close \/ Break)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the first token from i on that is not text
RECURSIVE RunEnd(_)
RunEnd(i) == IF i > Len(toks) \/ toks[i] \notin {"T", "D"} THEN i ELSE RunEnd(i + 1)
Report == [i \in 1..Len(nodes) |->
             [o |-> nodes[i].o, c |-> nodes[i].c, p |-> nodes[i].p, kind |-> nodes[i].kind,
              te |-> IF nodes[i].kind = "element" THEN RunEnd(nodes[i].o + 1) ELSE 0,
              le |-> RunEnd(nodes[i].c + 1)]]
Whole == RootDone /\ fault = ""

InvNested == \A i, j \in 1..Len(nodes) : (i < j /\ nodes[i].c # 0 /\ nodes[j].c # 0) =>
               (nodes[j].c < nodes[i].c \/ nodes[j].o > nodes[i].c)
InvParent == \A i \in 1..Len(nodes) : nodes[i].p # 0 =>
               \E j \in 1..Len(nodes) : nodes[j].o = nodes[i].p /\ nodes[j].kind = "element" /\ j < i
\* the reader tiles the document: leading texts, tails, tags and comments cover every token once
InvTiles == Whole => LET R == Report
                         cover(t) == Cardinality({i \in 1..Len(R) : R[i].o = t}) + Cardinality({i \in 1..Len(R) : R[i].c = t /\ R[i].c # R[i].o})
                                     + Cardinality({i \in 1..Len(R) : R[i].kind = "element" /\ R[i].o < t /\ t < R[i].te})
                                     + Cardinality({i \in 1..Len(R) : R[i].c < t /\ t < R[i].le})
                     IN \A t \in 1..Len(toks) : cover(t) = 1

Emit == (EMIT /\ (Whole \/ fault # "")) => PrintT("CASE " \o ToJson([toks |-> toks, fault |-> fault,
          nodes |-> IF Whole THEN Report ELSE <<>>, open |-> stack]))
=============================================================================
