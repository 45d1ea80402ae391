------------------------------ MODULE MCAtomic ------------------------------
EXTENDS Atomic, TLC, Json
CONSTANTS W, N, Emit
VARIABLES S, last
M == Limb - 1
Pad(x) == IF Len(x) = 4 THEN x ELSE <<x[1], x[2]>>
Edge == IF N = 2 THEN {<<0, 0>>, <<1, 0>>, <<M, 0>>, <<0, 1>>, <<M, M>>, <<M - 1, M>>, <<M, M \div 2>>, <<0, Limb \div 2>>}
        ELSE {<<0, 0, 0, 0>>, <<M, 0, 0, 0>>, <<M, M, 0, 0>>, <<0, 0, 1, 0>>, <<M, M, M, 0>>, <<M, M, M, M>>, <<0, 0, 0, Limb \div 2>>, <<M, M, M, M \div 2>>, <<M - 1, M, M, M>>}
Ops == {[op |-> "Store", w |-> W, v |-> v] : v \in Edge}
       \cup {[op |-> op, w |-> W, form |-> f] : op \in {"Inc", "Dec"}, f \in 0..2}
       \cup {[op |-> "Cas", w |-> W, form |-> f, c |-> c, v |-> v] : f \in 0..2, c \in Edge, v \in Edge}
Init == S = Start /\ last = [none |-> TRUE]
Next == \E o \in Ops : \E r \in Results(S, o) :
    /\ (o.op \in {"Inc", "Dec"}) => Of(S, W) \in Edge \cup {Succ(x) : x \in Edge} \cup {Pred(x) : x \in Edge}
    /\ S' = r.S /\ last' = [o |-> o, r |-> r]
    /\ Emit => PrintT(ToJson([k |-> "E", s |-> S, o |-> o, t |-> r.S, n |-> 1]))
Spec == Init /\ [][Next]_<<S, last>>
View == S
Lawful == [][Laws(S, last'.o, last'.r)]_<<S, last>>
TypeInv == TypeOK(S)
(* The order of effects explains sequential histories exactly.                *)
=============================================================================
