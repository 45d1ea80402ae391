------------------------------ MODULE MCBitset ------------------------------
EXTENDS Bitset, TLC, Json
CONSTANTS Kinds, Cfgs, MaxLen, Faults, Invalid, Second, Uniform, Emit
VARIABLES S, last
B(op, s) == [op |-> op, s |-> s, oom |-> FALSE, inj |-> FALSE]
Add(r, f, v) == [x \in DOMAIN r \cup {f} |-> IF x = f THEN v ELSE r[x]]
I(op, s, i) == Add(B(op, s), "i", i)
C(c, s) == [op |-> c[1], s |-> s, oom |-> FALSE, inj |-> FALSE, n |-> c[2], cap |-> c[3], gf |-> c[4], thr |-> c[5]]
(* positions of interest: the ends of the bytes and of the set, and just behind *)
Idx(n) == {i \in 0..(n - 1) : i \in {0, 1, 6, 7, 8, 9, 15, 16, n - 2, n - 1}} \cup (IF Invalid THEN {n, n + 1, 8 * Bytes(n), 1000000000, 999999993, 900000000, 800000000} ELSE {n, 8 * Bytes(n)})
(* with two sets, the second one is only the source *)
BaseOps(s) ==
    IF ~S[s].a THEN (IF s = 1 \/ (Second /\ S[1].a) THEN {C(c, s) : c \in Cfgs} ELSE {})
    ELSE IF Second /\ s = 2 /\ S[1].a = FALSE THEN {}
    ELSE LET n == Len(S[s].bits) IN
      {B(op, s) : op \in {"Destroy", "TestMSB", "TestLSB", "SetAll", "ResetAll", "Flip", "Pop", "Clear", "ShrinkToFit"}}
      \cup {I(op, s, i) : op \in {"Set", "Reset", "Toggle", "Test"}, i \in Idx(n)}
      \cup {Add(I("Assign", s, i), "x", x) : i \in Idx(n), x \in {0, 2}}
      \cup {Add(B("Push", s), "x", x) : x \in {0, 128}}
      \cup {Add(B("Reserve", s), "n", k) : k \in {0, 1, n, 8 * S[s].cap, 8 * S[s].cap + 1} \cup (IF Invalid THEN {1000000000, 900000000, 800000007} ELSE {})}
      \cup {Add(B(op, s), "t", t) : op \in {"AND", "OR", "XOR"}, t \in {u \in {1, 2} : S[u].a}}
      \cup {[op |-> "ByteOp", s |-> s, oom |-> FALSE, inj |-> FALSE, t |-> t, fn |-> fn, k |-> k] : fn \in {"NAND", "COPY"}, k \in {0, 1, 2}, t \in {u \in {1, 2} : S[u].a}}
      \cup (IF Invalid THEN {Add(B("Null", s), "k", k) : k \in 0..41} ELSE {})
Source == Creating \cup {"Push", "Flip", "Set"}
Ops == LET base == {o \in UNION {BaseOps(s) : s \in IF Second THEN {1, 2} ELSE {1}} : o.op \in Kinds /\ (o.s = 2 => o.op \in Source)} IN
       base \cup (IF Faults THEN {[o EXCEPT !.oom = TRUE, !.inj = TRUE] : o \in {p \in base : p.op \in Allocating}} ELSE {})
(* contents: everything for short sets; else at most one bit that differs from the others, or one change *)
Plain(b) == LET n == Len(b) ones == Ones(b)
                changes == Cardinality({k \in 1..(n - 1) : b[k] # b[k + 1]})
            IN n <= 3 \/ ones <= 1 \/ ones >= n - 1 \/ (changes <= 1 /\ n <= 5)
(* with two sets: only contents that are uniform, or differ in a bit at the end of a byte or of the set *)
Plain2(b) == LET n == Len(b) ones == {k \in 1..n : b[k] = 1} IN
             ones = {} \/ (Cardinality(ones) = 1 /\ ones \subseteq {1, 9, n}) \/ Cardinality(ones) = n
Bounded(T) == \A s \in 1..2 : T[s].a => Len(T[s].bits) <= MaxLen /\ (IF Second THEN Plain2(T[s].bits) ELSE IF Uniform THEN Ones(T[s].bits) <= 1 \/ Ones(T[s].bits) = Len(T[s].bits) ELSE Plain(T[s].bits)) /\ T[s].cap <= 7
Init == S = Start /\ last = [none |-> TRUE]
Next == \E o \in Ops : \E r \in Results(S, o) :
    /\ Bounded(r.S)
    /\ S' = r.S /\ last' = [o |-> o, r |-> r]
    /\ Emit => PrintT(ToJson([k |-> "E", s |-> S, o |-> o, t |-> r.S, n |-> Cardinality({q.S : q \in Results(S, o)})]))
Spec == Init /\ [][Next]_<<S, last>>
View == S
Lawful == [][Laws(S, last'.o, last'.r)]_<<S, last>>
TypeInv == TypeOK(S)
CfgsOne == {<<"Init", 6, 0, 2, 2>>, <<"InitEx", 0, 0, 2, 2>>, <<"InitBuf", 8, 2, 1, 0>>}
CfgsBits == {<<"Init", 6, 0, 2, 2>>, <<"InitBuf", 8, 2, 1, 0>>}
CfgsTwo == {<<"InitEx", 0, 0, 2, 0>>, <<"InitEx", 8, 0, 2, 0>>, <<"InitBuf", 3, 1, 1, 0>>}
CfgsTwoQ == {<<"InitEx", 0, 0, 1, 0>>, <<"InitBuf", 8, 1, 1, 0>>}
CfgsTwoX == CfgsTwo \cup {<<"InitBuf", 10, 2, 1, 0>>, <<"InitEx", 15, 0, 2, 0>>}
CfgsCap == {<<"Init", 0, 0, 2, 2>>, <<"InitEx", 7, 0, 1, 0>>, <<"InitEx", 16, 0, 3, 1>>, <<"InitEx", 1, 0, 0, 1>>, <<"InitEx", 1000000000, 0, 2, 1>>, <<"Init", 900000000, 0, 2, 2>>,
            <<"InitBuf", 0, 1, 1, 0>>, <<"InitBuf", 9, 2, 1, 0>>, <<"InitBuf", 9, 1, 1, 0>>, <<"InitBuf", 0, 0, 1, 0>>, <<"InitBuf", 1000000000, 2, 1, 0>>, <<"InitBuf", 17, 3, 1, 0>>}
=============================================================================
