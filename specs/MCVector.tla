------------------------------ MODULE MCVector ------------------------------
(* Bounded model of Vector: explores every operation in every state within    *)
(* the bounds and checks the laws on every transition. With Emit, every       *)
(* transition is printed; the checks replay all of them on the real code.     *)
EXTENDS Vector, TLC, Json
CONSTANTS Kinds, Cfgs, Vals, MaxLen, MaxCap, Faults, Invalid, Second, Emit
VARIABLES S, last

B(op, s) == [op |-> op, s |-> s, oom |-> FALSE, inj |-> FALSE, cf |-> FALSE]
With(r, f, v) == [x \in DOMAIN r \cup {f} |-> IF x = f THEN v ELSE r[x]]
I(op, s, i) == With(B(op, s), "i", i)
X(op, s, x) == With(B(op, s), "x", x)
N(op, s, n) == With(B(op, s), "n", n)
IX(op, s, i, x) == With(I(op, s, i), "x", x)
INn(op, s, i, n) == With(I(op, s, i), "n", n)
C(c, s) == [op |-> c[1], s |-> s, oom |-> FALSE, inj |-> FALSE, cf |-> FALSE,
            cap |-> c[2], gf |-> c[3], thr |-> c[4], dtor |-> c[5]]

(* invalid positions and sizes: just behind the end, and near the top of the size type *)
BadPos(len) == IF Invalid THEN {len, len + 1, 1000000000, 999999999, 900000000} ELSE {}
Idx(len) == (0..(len - 1)) \cup BadPos(len)
Pos(len) == (0..len) \cup (IF Invalid THEN {len + 1, 1000000000, 900000000} ELSE {})
Lens(len) == (1..len) \cup (IF Invalid THEN {0, len + 1, 1000000000, 999999999, 999999998, 900000000} ELSE {})
Sizes(len) == (0..MaxLen) \cup (IF Invalid THEN {1000000000, 999999990, 900000000, 800000001} ELSE {})
SmallSeqs == {<<x>> : x \in Vals} \cup {<<x, y>> : x \in Vals, y \in Vals}
             \cup (IF Invalid THEN {<<>>} ELSE {})

BaseOps(s) ==
    IF ~S[s].a THEN (IF s = 1 THEN {C(c, 1) : c \in Cfgs} ELSE {})
    \* without Second, a duplicate is only looked at and destroyed again
    ELSE IF ~Second /\ S[2].a THEN {B("Destroy", 2), B("Foreach", 2), B("Foreach", 1)}
    ELSE LET len == Len(S[s].seq) IN
       {B(op, s) : op \in {"Destroy", "PopBack", "Clear", "ShrinkToFit", "Foreach"}}
       \cup {I(op, s, i) : op \in {"Get", "GetM", "GetP", "GetPM", "Macro", "Delete"}, i \in Idx(len)}
       \cup {X(op, s, x) : op \in {"PushBack", "Emplace", "Find", "BinSearch"}, x \in Vals}
       \cup {IX(op, s, i, x) : op \in {"Set", "SetM"}, i \in Idx(len), x \in Vals}
       \cup {IX(op, s, i, x) : op \in {"Insert", "EmplaceEx", "EmplaceRaw"}, i \in Pos(len), x \in Vals}
       \cup {With(I("InsertRange", s, i), "xs", xs) : i \in Pos(len), xs \in SmallSeqs}
       \cup (IF Invalid THEN {With(I("InsertHuge", s, i), "n", n) : i \in 0..len, n \in {1000000000, 999999999, 900000000, 800000000}} ELSE {})
       \cup {With(I("Swap", s, i), "j", j) : i \in Idx(len), j \in Idx(len)}
       \cup {INn("DeleteRange", s, i, n) : i \in Pos(len), n \in Lens(len)}
       \cup {With(INn(op, s, i, n), "x", x) : op \in {"FindEx", "BinSearchEx"}, i \in Pos(len), n \in Lens(len) \cup {0}, x \in Vals}
       \cup {With(N(op, s, n), "x", x) : op \in {"Resize", "ResizeEx"}, n \in Sizes(len), x \in Vals}
       \cup {N("Reserve", s, n) : n \in Sizes(len) \cup {MaxCap}}
       \cup {[op |-> op, s |-> s, oom |-> FALSE, inj |-> FALSE, cf |-> FALSE, cap |-> cap, gf |-> gf, thr |-> thr] :
               op \in {"Dup", "DupEx", "DupBuf"}, cap \in {0, 1, len, len + 2}, gf \in {2}, thr \in {4}}
       \cup (IF Invalid /\ s = 1 THEN {With(B("Null", s), "k", k) : k \in 0..41} ELSE {})

Ops == LET base == {o \in UNION {BaseOps(s) : s \in IF Second THEN {1, 2} ELSE {1}} : o.op \in Kinds}
           faulty == IF Faults THEN
                       {[o EXCEPT !.oom = TRUE, !.inj = TRUE] : o \in base}
                       \cup {[o EXCEPT !.cf = TRUE] : o \in {p \in base : p.op \in {"Emplace", "EmplaceEx"}}}
                     ELSE {}
       IN base \cup faulty

Bounded(T) == \A s \in 1..2 : T[s].a => Len(T[s].seq) <= MaxLen /\ (T[s].fix \/ T[s].cap <= MaxCap)

Init == S = Start /\ last = [none |-> TRUE]
Next == \E o \in Ops : \E r \in Results(S, o) :
    /\ Bounded(r.S)
    /\ S' = r.S
    /\ last' = [o |-> o, r |-> r]
    /\ Emit => PrintT(ToJson([k |-> "E", s |-> S, o |-> o, t |-> r.S, n |-> Cardinality(Results(S, o))]))
Spec == Init /\ [][Next]_<<S, last>>
View == S
Lawful == [][Laws(S, last'.o, last'.r)]_<<S, last>>
TypeInv == TypeOK(S)

CfgsSeq == {<<"InitEx", 0, 2, 4, TRUE>>, <<"InitEx", 5, 1, 0, FALSE>>, <<"InitBuf", 4, 1, 0, TRUE>>, <<"Init", 1, 2, 4, FALSE>>}
CfgsCap == {<<"InitEx", 0, 2, 4, FALSE>>, <<"InitEx", 6, 2, 2, FALSE>>, <<"InitEx", 3, 1, 0, FALSE>>, <<"InitEx", 2, 3, 1, FALSE>>,
            <<"InitBuf", 3, 1, 0, FALSE>>, <<"Init", 4, 2, 4, FALSE>>}
CfgsTwo == {<<"InitEx", 0, 2, 4, TRUE>>, <<"InitBuf", 2, 1, 0, TRUE>>}
CfgsBad == CfgsSeq \cup {<<"InitEx", 0, 0, 4, FALSE>>, <<"InitBuf", 0, 1, 0, FALSE>>, <<"InitEx", 1000000000, 2, 4, FALSE>>, <<"Init", 900000000, 2, 4, FALSE>>, <<"InitBuf", 2, 1, 0, FALSE>>}
=============================================================================
