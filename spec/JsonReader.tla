----------------------------- MODULE JsonReader -----------------------------
(***************************************************************************)
(* JSON documents as token sequences, accepted by a pushdown automaton,    *)
(* and what a positional reader must report for each of them (C22): for    *)
(* every container its items in order, each with the tokens its key and    *)
(* value start at, and the token that closes the container.                *)
(* Tokens: { } [ ] : , S (string) A (number, true, false, null)            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MAXLEN, EMIT

\* a frame is an open container; want says what may come next
VARIABLES toks, stack, items, closed, wants
vars == <<toks, stack, items, closed, wants>>
\* items: sequence of [c: container, k: key token or 0, v: value token]
\* closed: sequence of [c, e]: container (its opening token) and closing token
\* wants: what could come at each token; a text that goes on with something
\* else there is refused, on that line wherever a sign is looked for (Located)

Frame(c, obj) == [c |-> c, obj |-> obj, want |-> IF obj THEN "key-or-close" ELSE "value-or-close", k |-> 0]
Top == stack[Len(stack)]
SetTop(f) == [stack EXCEPT ![Len(stack)] = f]
N == Len(toks) + 1          \* number of the token being written

Init == /\ toks = <<>> /\ stack = <<>> /\ items = <<>> /\ closed = <<>> /\ wants = <<>>

Put(t) == /\ toks' = Append(toks, t)
          /\ wants' = Append(wants, IF stack = <<>> THEN "root" ELSE Top.want)
Room(k) == Len(toks) + Len(stack) + k <= MAXLEN
\* the document is over when its root is closed
Over == toks # <<>> /\ stack = <<>>

WantsValue == stack # <<>> /\ Top.want \in {"value", "value-or-close"}
Item == Append(items, [c |-> Top.c, k |-> Top.k, v |-> N])
AfterValue == [Top EXCEPT !.want = "comma-or-close", !.k = 0]

Root == /\ toks = <<>>
        /\ \E obj \in BOOLEAN :
             /\ Put(IF obj THEN "{" ELSE "[")
             /\ stack' = <<Frame(1, obj)>>
        /\ UNCHANGED <<items, closed>>

Key == /\ stack # <<>> /\ Top.obj /\ Top.want \in {"key", "key-or-close"} /\ Room(3)
       /\ Put("S") /\ stack' = SetTop([Top EXCEPT !.want = "colon", !.k = N])
       /\ UNCHANGED <<items, closed>>
Colon == /\ stack # <<>> /\ Top.want = "colon"
         /\ Put(":") /\ stack' = SetTop([Top EXCEPT !.want = "value"])
         /\ UNCHANGED <<items, closed>>
Scalar == /\ WantsValue /\ Room(1)
          /\ \E t \in {"S", "A"} : Put(t)
          /\ items' = Item
          /\ stack' = SetTop(AfterValue)
          /\ UNCHANGED closed
Open == /\ WantsValue /\ Room(2)
        /\ \E obj \in BOOLEAN :
             /\ Put(IF obj THEN "{" ELSE "[")
             /\ stack' = Append(SetTop(AfterValue), Frame(N, obj))
        /\ items' = Item
        /\ UNCHANGED closed
Comma == /\ stack # <<>> /\ Top.want = "comma-or-close" /\ Room(IF Top.obj THEN 4 ELSE 2)
         /\ Put(",")
         /\ stack' = SetTop([Top EXCEPT !.want = IF Top.obj THEN "key" ELSE "value"])
         /\ UNCHANGED <<items, closed>>
CloseC == /\ stack # <<>> /\ Top.want \in {"comma-or-close", "key-or-close", "value-or-close"}
          /\ Put(IF Top.obj THEN "}" ELSE "]")
          /\ closed' = Append(closed, [c |-> Top.c, e |-> N])
          /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
          /\ UNCHANGED items

Next == ~Over /\ (Root \/ Key \/ Colon \/ Scalar \/ Open \/ Comma \/ CloseC)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
InvKeys == \A i \in 1..Len(items) : (items[i].k # 0) = (toks[items[i].c] = "{")
InvOrder == \A i, j \in 1..Len(items) : (i < j /\ items[i].c = items[j].c) => items[i].v < items[j].v
InvInside == Over => \A i \in 1..Len(items) : \E x \in 1..Len(closed) :
                       closed[x].c = items[i].c /\ items[i].c < items[i].v /\ items[i].v < closed[x].e
\* a value is recognised by its first character, everything else is looked for
Located(n) == wants[n] \notin {"value", "value-or-close"}
InvWants == /\ Len(wants) = Len(toks)
            /\ \A n \in 1..Len(toks) : toks[n] = "A" => ~Located(n)
InvBalanced == Over => Len(closed) = Cardinality({i \in 1..Len(toks) : toks[i] \in {"{", "["}})

Emit == (EMIT /\ Over) => PrintT("CASE " \o ToJson([located |-> [n \in 1..Len(toks) |-> Located(n)], toks |-> toks, items |-> items, closed |-> closed]))
=============================================================================
