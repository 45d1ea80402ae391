------------------------------- MODULE MCSync -------------------------------
EXTENDS Sync, TLC, Json
CONSTANTS NT, NSec, MaxD, Emit
VARIABLES S, last
Ops == {[op |-> op, t |-> t, s |-> s] : op \in {"Enter", "Try", "Leave"}, t \in 1..NT, s \in 1..NSec}
       \cup {[op |-> op, t |-> 1, s |-> s] : op \in {"Create", "Delete"}, s \in 1..NSec}
(* Deleting a section in use is not done, and threads do not wait in circles.  *)
Sane(o) == (o.op = "Delete" => S[o.s].own = 0)
           /\ (o.op = "Enter" /\ S[o.s].live /\ S[o.s].own \notin {0, o.t} => \A s \in Secs : s # o.s => S[s].own # o.t)
Init == S = Start /\ last = [none |-> TRUE]
Next == \E o \in {p \in Ops : Sane(p)} : \E r \in Results(S, o) :
    /\ \A s \in Secs : r.S[s].d <= MaxD
    /\ S' = r.S /\ last' = [o |-> o, r |-> r]
    /\ Emit => PrintT(ToJson([k |-> "E", s |-> S, o |-> o, t |-> r.S, n |-> Cardinality({q.S : q \in Results(S, o)})]))
Spec == Init /\ [][Next]_<<S, last>>
View == S
Lawful == [][Laws(S, last'.o, last'.r)]_<<S, last>>
TypeInv == TypeOK(S)
(* Liveness: if every owner keeps leaving, every waiting thread gets in,       *)
(* provided that a free section is handed over fairly.                         *)
LeaveBy(t, s) == \E r \in Results(S, [op |-> "Leave", t |-> t, s |-> s]) : S[s].own = t /\ S' = r.S /\ UNCHANGED last
GrantTo(t, s) == S[s].own # 0 /\ S[s].d = 1 /\ t \in S[s].wait /\ S' = [S EXCEPT ![s] = Granted(S[s], t)] /\ UNCHANGED last
EnterBy(t, s) == \E r \in Results(S, [op |-> "Enter", t |-> t, s |-> s]) : Sane([op |-> "Enter", t |-> t, s |-> s]) /\ r.S[s].d <= MaxD /\ S' = r.S /\ UNCHANGED last
LiveNext == \E t \in 1..NT, s \in 1..NSec : EnterBy(t, s) \/ LeaveBy(t, s)
LiveSpec == /\ S = [s \in Secs |-> IF s <= NSec THEN Fresh ELSE Gone] /\ last = [none |-> TRUE] /\ [][LiveNext]_<<S, last>>
            /\ \A t \in 1..NT, s \in 1..NSec : WF_<<S, last>>(LeaveBy(t, s)) /\ SF_<<S, last>>(GrantTo(t, s))
            /\ \A t \in 1..NT, s \in 1..NSec : \A k \in 2..MaxD : SF_<<S, last>>(LeaveBy(t, s) /\ S[s].d = k)
GetsIn == \A t \in 1..NT, s \in 1..NSec : (t \in S[s].wait) ~> (S[s].own = t)
=============================================================================
