------------------------------- MODULE MCTypes -------------------------------
EXTENDS Types, TLC, Json
CONSTANTS Fine, Ptr, Emit
VARIABLES S, last
W8 == LET p == {Power(8, k) : k \in IF Fine THEN 0..63 ELSE {0, 3, 7, 8, 15, 16, 20, 31, 32, 47, 62, 63}}
      IN {Zero(8), Ones(8), [i \in 1..8 |-> i], [i \in 1..8 |-> 250 - i], [i \in 1..8 |-> IF i % 2 = 0 THEN 128 ELSE 127]}
         \cup p \cup {Sub(x, One(8)) : x \in p} \cup {Add(x, One(8)) : x \in p} \cup {Minus(x) : x \in p}
Ops == {[op |-> "Type", n |-> n, ptr |-> Ptr] : n \in TypeNames} \cup {[op |-> "Limit", n |-> n] : n \in Limited}
       \cup {[op |-> "Const", n |-> n] : n \in DOMAIN Constants}
       \cup {[op |-> "Store", n |-> n, ptr |-> Ptr, a |-> a] : n \in TypeNames, a \in W8}
       \cup {[op |-> "Bits", k |-> k, a |-> a] : k \in FieldWidths, a \in W8}
       \cup {[op |-> op, a |-> a] : op \in {"Magnitude", "Pointer"}, a \in W8}
Init == S = Start /\ last = [none |-> TRUE]
Next == \E o \in Ops : \E r \in Answers(S, o) :
    /\ S' = r.S /\ last' = [o |-> o, r |-> r]
    /\ Emit => PrintT(ToJson([k |-> "E", s |-> S, o |-> o, t |-> r.S, n |-> 1]))
Spec == Init /\ [][Next]_<<S, last>>
View == S
Lawful == [][TypeLaws(S, last'.o, last'.r)]_<<S, last>>
TypeInv == TypeOK(S) /\ ConstLaws
=============================================================================
