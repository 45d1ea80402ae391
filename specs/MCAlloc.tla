------------------------------ MODULE MCAlloc -------------------------------
EXTENDS Alloc, TLC, Json
CONSTANTS Sizes, Counts, NS, Emit
VARIABLES S, last
Ops == {[op |-> "Alloc", s |-> s, es |-> es, n |-> n, f |-> f] : s \in 1..NS, es \in Sizes, n \in Counts, f \in {0, 1}}
       \cup {[op |-> "Realloc", s |-> s, es |-> es, n |-> n, f |-> f] : s \in 1..NS, es \in Sizes, n \in Counts, f \in {0, 1}}
       \cup {[op |-> op, s |-> s] : op \in {"Dealloc", "Fill"}, s \in 1..NS}
       \cup {[op |-> "Default", s |-> 0]} \cup {[op |-> "AInit", s |-> 0, m |-> m] : m \in 0..15}
Init == S = Start /\ last = [none |-> TRUE]
Next == \E o \in Ops : \E r \in Results(S, o) :
    /\ S' = r.S /\ last' = [o |-> o, r |-> r]
    /\ Emit => PrintT(ToJson([k |-> "E", s |-> S, o |-> o, t |-> r.S, n |-> Cardinality({q.S : q \in Results(S, o)})]))
Spec == Init /\ [][Next]_<<S, last>>
View == S
Lawful == [][Laws(S, last'.o, last'.r)]_<<S, last>>
TypeInv == TypeOK(S)
=============================================================================
