------------------------------- MODULE MCList -------------------------------
EXTENDS List, TLC, Json
CONSTANTS Kinds, Cfgs, XS, MaxLen, Faults, Emit
VARIABLES S, last
B(op) == [op |-> op, oom |-> FALSE, inj |-> FALSE, cf |-> FALSE, f |-> 0]
Add(r, f, v) == [x \in DOMAIN r \cup {f} |-> IF x = f THEN v ELSE r[x]]
I(op, i) == Add(B(op), "i", i)
X(op, x) == Add(B(op), "x", x)
BaseOps ==
    IF ~S.a THEN {IF c[1] = "InitBuf" THEN Add(Add(B(c[1]), "dtor", c[3]), "room", c[2]) ELSE Add(B(c[1]), "dtor", c[3]) : c \in Cfgs}
    ELSE LET len == Len(S.its) ix == 0..(len - 1) IN
      {B(op) : op \in {"Destroy", "PopBack", "PopFront", "Clear"}}
      \cup {X(op, x) : op \in {"PushBack", "PushFront", "EmplaceBack", "EmplaceFront", "EmplaceBackRaw", "EmplaceFrontRaw"}, x \in XS}
      \cup {I(op, i) : op \in {"Remove", "Get", "Next", "Prev"}, i \in ix}
      \cup {Add(I("RemoveRange", i), "j", j) : i \in ix, j \in {j \in ix : TRUE}}
      \cup {Add(I("Set", i), "x", x) : i \in ix, x \in XS}
      \cup {Add(X(op, x), "n", n) : op \in {"Resize", "ResizeEx"}, x \in XS, n \in 0..(MaxLen + 1)}
      \cup {Add(B("Null"), "k", k) : k \in 0..39}
      \cup {Add(Add(Add(B("Giant"), "k", k), "d", d), "buf", b) : k \in 0..4, d \in {0, 24}, b \in BOOLEAN}
Legal(o) == o.op = "RemoveRange" => o.i <= o.j
Ops == LET base == {o \in BaseOps : o.op \in Kinds /\ Legal(o)} IN
       base \cup (IF Faults THEN {[o EXCEPT !.oom = TRUE, !.inj = TRUE, !.f = k] : o \in base, k \in {1, 2}}
                                 \cup {[o EXCEPT !.cf = TRUE] : o \in {p \in base : p.op \in {"EmplaceBack", "EmplaceFront"}}} ELSE {})
(* f = k: the k-th request of the operation is the first one to be refused *)
Possible(o, r) == (o.f > 0 /\ o.op \in {"Resize", "ResizeEx"} /\ S.a) => (r.S.a /\ Len(r.S.its) - Len(S.its) \in {0, o.f - 1} /\ o.n - Len(S.its) >= o.f)
                  /\ ((o.f > 1) => o.op \in {"Resize", "ResizeEx"})
Plain(o, r) == (o.f > 1) => o.op \in {"Resize", "ResizeEx"}
Init == S = Start /\ last = [none |-> TRUE]
Next == \E o \in Ops : \E r \in Results(S, o) :
    /\ Possible(o, r) /\ Plain(o, r)
    /\ (r.S.a => Len(r.S.its) <= MaxLen)
    /\ S' = r.S /\ last' = [o |-> o, r |-> r]
    /\ Emit => PrintT(ToJson([k |-> "E", s |-> S, o |-> o, t |-> r.S, n |-> IF o.op \in {"Resize", "ResizeEx"} /\ r.st # "SUCCESS" THEN 2 ELSE 1]))
Spec == Init /\ [][Next]_<<S, last>>
View == S
Lawful == [][Laws(S, last'.o, last'.r)]_<<S, last>>
TypeInv == TypeOK(S)
CfgsAll == {<<"Init", 0, TRUE>>, <<"InitEx", 0, FALSE>>, <<"InitEx", 0, TRUE>>, <<"InitBuf", 3, TRUE>>, <<"InitBuf", 2, FALSE>>, <<"InitBuf", 0, FALSE>>}
CfgsDyn == {<<"Init", 0, TRUE>>, <<"InitEx", 0, FALSE>>, <<"InitEx", 0, TRUE>>, <<"InitBuf", 4, TRUE>>}
CfgsBuf == {<<"InitBuf", 4, TRUE>>, <<"InitBuf", 3, FALSE>>, <<"InitBuf", 1, FALSE>>, <<"InitBuf", 0, TRUE>>, <<"InitBuf", 2, FALSE>>}
=============================================================================
