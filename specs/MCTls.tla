-------------------------------- MODULE MCTls -------------------------------
EXTENDS Tls, TLC, Json
CONSTANTS NT, NK, NV, ND, Ids, Emit
VARIABLES S, last
Ops == {[op |-> op, t |-> t] : op \in {"Spawn", "Exit"}, t \in 1..NT}
       \cup (IF Ids THEN {[op |-> "Id", t |-> t] : t \in 0..NT} ELSE {})
       \cup {[op |-> op, t |-> t, k |-> k] : op \in {"Get"}, t \in 0..NT, k \in 1..NK}
       \cup {[op |-> "Free", t |-> t, k |-> k] : t \in {0, 1}, k \in 1..NK}
       \cup {[op |-> "Set", t |-> t, k |-> k, v |-> v] : t \in 0..NT, k \in 1..NK, v \in 0..NV}
       \cup {[op |-> "Alloc", t |-> t, k |-> k, d |-> d] : t \in {0, NT}, k \in 1..NK, d \in 0..ND}
Init == S = Start /\ last = [none |-> TRUE]
Next == \E o \in Ops : \E r \in Results(S, o) :
    \* two slots of the model never share an index, the ones of the implementation might after a release
    /\ (o.op \in {"Free", "Set"} /\ o.k \notin Live(S)) => Live(S) = {}
    /\ (o.op = "Id" => r.r <= NT + 1)
    /\ S' = r.S /\ last' = [o |-> o, r |-> r]
    /\ Emit => PrintT(ToJson([k |-> "E", s |-> S, o |-> o, t |-> r.S, n |-> Cardinality({q.S : q \in Results(S, o)})]))
Spec == Init /\ [][Next]_<<S, last>>
View == S
Lawful == [][Laws(S, last'.o, last'.r)]_<<S, last>>
TypeInv == TypeOK(S)
=============================================================================
