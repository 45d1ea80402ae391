---------------------------- MODULE TraceBitset ----------------------------
EXTENDS Bitset, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l, ok
Init == /\ l \in {k \in 1..Len(Log) : Log[k].op = "Begin"}
        /\ S = Start /\ ok = TRUE
Step(e) ==
    IF e.op = "Skip" THEN S' = S /\ ok' = StateMatches(e, S)
    ELSE LET rs == {r \in (IF e.op = "Crash" THEN {} ELSE Results(S, e)) : Matches(e, S, r)} IN
         IF rs = {} THEN S' = S /\ ok' = FALSE
         ELSE \E r \in {CHOOSE r \in rs : TRUE} : S' = Observed(e, r.S) /\ ok' = TRUE
Next == /\ ok /\ l < Len(Log)
        /\ Log[l + 1].op # "Begin"
        /\ l' = l + 1
        /\ Step(Log[l + 1])
        /\ (~ok' => PrintT(<<"REJECT", l + 1>>))
Spec == Init /\ [][Next]_<<S, l, ok>>
=============================================================================
