----------------------------- MODULE MCPlatform -----------------------------
EXTENDS Platform, TLC, Json
CONSTANTS NP, Some, Term, Emit
VARIABLES S, last
Ranges(op) == {[op |-> op, p |-> p, n |-> n, x |-> x, u |-> u] : p \in 1..NP, n \in 0..NP, x \in {-1, 0, 1}, u \in {0, 1}}
Fits(o) == Inside(o) /\ o.p + Covered(o) - 1 <= NP /\ (o.n = 0 => o.x >= 0) /\ (o.u # 0 => o.n = 1 /\ o.x = -1)
Ops == IF Term THEN {[op |-> "Stream", s |-> s, kind |-> k] : s \in Streams, k \in Kinds}
                    \cup {[op |-> "IsTTY", s |-> s, e |-> e] : s \in Streams, e \in 0..1}
                    \cup {[op |-> "VT", s |-> s] : s \in {-1, 0, 1, 2, 3, 255}}
       ELSE {o @@ [prot |-> q] : o \in {o \in Ranges("Protect") : Fits(o)}, q \in Some}
            \cup {o \in Ranges("Free") \cup Ranges("Flush") : Fits(o)}
            \cup {[op |-> op, p |-> p, n |-> 1, x |-> 0, u |-> 0] : op \in {"Map", "Probe"}, p \in 1..NP}
            \cup {[op |-> "Write", p |-> p, n |-> 1, x |-> 0, u |-> 0, g |-> 2] : p \in {1}}
Init == S = Start /\ last = [none |-> TRUE]
Next == \E o \in Ops : \E r \in Results(S, o) :
    /\ S' = r.S /\ last' = [o |-> o, r |-> r]
    /\ Emit => PrintT(ToJson([k |-> "E", s |-> S, o |-> o, t |-> r.S, n |-> Cardinality({q.S : q \in Results(S, o)})]))
Spec == Init /\ [][Next]_<<S, last>>
View == S
Lawful == [][Laws(S, last'.o, last'.r)]_<<S, last>>
TypeInv == TypeOK(S)
=============================================================================
