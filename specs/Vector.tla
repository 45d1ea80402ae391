------------------------------- MODULE Vector -------------------------------
(* Observable behaviour of ZyanVector (include/Zycore/Vector.h).              *)
(*                                                                            *)
(* The state S is a pair of vector slots. Results(S, o) is the set of all     *)
(* outcomes the operation record o may have in S: the successor state, the    *)
(* returned status, the returned value and the elements handed to the         *)
(* destructor. o.oom tells that the environment (the allocator) refused a     *)
(* request during the operation and o.cf that the element constructor fails:  *)
(* both are choices of the environment and part of the operation record.      *)
EXTENDS Common

Dead == [a |-> FALSE]
Vec(o, seq, cap, fix, gf, thr, dtor) ==
    [a |-> TRUE, cu |-> Custom(o), seq |-> seq, cap |-> cap, fix |-> fix, gf |-> gf, thr |-> thr, dtor |-> dtor]

Start == <<Dead, Dead>>

Out(S, st, val, dt) == [S |-> S, st |-> st, val |-> val, dt |-> dt, cc |-> 0]
Put(S, s, v) == [S EXCEPT ![s] = v]

(* The call is refused without any effect. *)
Refuse(S, st) == {Out(S, st, ANY, <<>>)}
(* Removed elements are handed to the destructor, if there is one. *)
Gone(v, els) == IF v.dtor THEN els ELSE <<>>

NoMem(S) == Refuse(S, "NOT_ENOUGH_MEMORY")

(* A refusal (o.oom) is legitimate if it was injected (o.inj); a request for a *)
(* huge number of elements is always refused. Any other refusal means that the *)
(* library asked for memory it does not need.                                  *)

(* ---- growing ----                                                           *)
(* Makes room for `need` elements, then continues with the vector of the new   *)
(* capacity; K(cap) is the set of outcomes of the rest of the operation.       *)
Scaled(v, need) == IF need >= HUGE THEN need ELSE need * v.gf
Grow(S, o, v, need, target, K(_)) ==
    IF need <= v.cap THEN (IF o.oom THEN {} ELSE K(v.cap))
    ELSE IF v.fix THEN (IF o.oom THEN {} ELSE Refuse(S, "INSUFFICIENT_BUFFER_SIZE"))
    ELSE IF IsHuge(target) THEN NoMem(S)
    ELSE IF o.oom THEN (IF o.inj THEN NoMem(S) ELSE {})
    ELSE K(target)

(* ---- shrinking ----                                                         *)
(* The vector w (already without the removed elements `els`) gives back memory *)
(* if its size fell below the threshold. Returning the memory may fail: then   *)
(* the removal is complete (or has no effect at all), and the failure is       *)
(* reported.                                                                   *)
ShouldShrink(w, n) == w.thr # 0 /\ n * w.thr < w.cap
MinCap(n) == Max2(1, n)
Shrink(S, o, s, w, els) ==
    LET n == Len(w.seq) IN
    IF ~w.fix /\ ShouldShrink(w, n) THEN
        IF o.oom THEN
            IF o.inj THEN {Out(Put(S, s, w), "NOT_ENOUGH_MEMORY", ANY, Gone(w, els))} \cup NoMem(S) ELSE {}
        ELSE {Out(Put(S, s, [w EXCEPT !.cap = MinCap(n * w.gf)]), "SUCCESS", ANY, Gone(w, els))}
    ELSE IF o.oom THEN {} ELSE {Out(Put(S, s, w), "SUCCESS", ANY, Gone(w, els))}

(* ---- creation, destruction, duplication ---- *)
Create(S, o) ==
    IF o.op = "InitBuf" THEN
        IF o.cap = 0 THEN Refuse(S, "INVALID_ARGUMENT")
        ELSE {Out(Put(S, o.s, Vec(o, <<>>, o.cap, TRUE, 1, 0, o.dtor)), "SUCCESS", ANY, <<>>)}
    ELSE IF o.gf < 1 THEN Refuse(S, "INVALID_ARGUMENT")
    ELSE IF IsHuge(o.cap) THEN NoMem(S)
    ELSE IF o.oom THEN (IF o.inj THEN NoMem(S) ELSE {})
    ELSE {Out(Put(S, o.s, Vec(o, <<>>, MinCap(o.cap), FALSE, o.gf, o.thr, o.dtor)), "SUCCESS", ANY, <<>>)}

Duplicate(S, o, v) ==
    LET d == 3 - o.s IN
    IF o.op = "DupBuf" THEN
        IF o.cap < Len(v.seq) THEN Refuse(S, "INSUFFICIENT_BUFFER_SIZE")
        ELSE IF o.cap = 0 THEN Refuse(S, "INVALID_ARGUMENT")
        ELSE {Out(Put(S, d, Vec(o, v.seq, o.cap, TRUE, 1, 0, v.dtor)), "SUCCESS", ANY, <<>>)}
    ELSE IF o.gf < 1 THEN Refuse(S, "INVALID_ARGUMENT")
    ELSE IF IsHuge(o.cap) THEN NoMem(S)
    ELSE IF o.oom THEN (IF o.inj THEN NoMem(S) ELSE {})
    ELSE {Out(Put(S, d, Vec(o, v.seq, MinCap(Max2(o.cap, Len(v.seq))), FALSE, o.gf, o.thr, v.dtor)), "SUCCESS", ANY, <<>>)}

(* ---- insertion ---- *)
Insertion(S, o, v, i, xs) ==
    IF xs = <<>> THEN Refuse(S, "INVALID_ARGUMENT")
    ELSE IF i > Len(v.seq) THEN Refuse(S, "OUT_OF_RANGE")
    ELSE LET need == Len(v.seq) + Len(xs)
             K(c) == {Out(Put(S, o.s, [v EXCEPT !.seq = InsertAt(v.seq, i, xs), !.cap = c]), "SUCCESS", ANY, <<>>)}
         IN Grow(S, o, v, need, Scaled(v, need), K)

(* The constructor is called exactly once, after room was made. If it fails,   *)
(* nothing is inserted; the room may stay.                                     *)
Emplacement(S, o, v, i) ==
    IF i > Len(v.seq) THEN Refuse(S, "OUT_OF_RANGE")
    ELSE LET need == Len(v.seq) + 1
             ctor == IF o.op = "EmplaceRaw" THEN 0 ELSE 1
             K(c) == IF o.cf /\ ctor = 1
                     THEN {[Out(Put(S, o.s, [v EXCEPT !.cap = cc]), "USER_77", ANY, <<>>) EXCEPT !.cc = 1] : cc \in {c, v.cap}}
                     ELSE {[Out(Put(S, o.s, [v EXCEPT !.seq = InsertAt(v.seq, i, <<o.x>>), !.cap = c]), "SUCCESS", o.x, <<>>) EXCEPT !.cc = ctor]}
         IN Grow(S, o, v, need, Scaled(v, need), K)

(* ---- removal ---- *)
Removal(S, o, v, i, n) ==
    IF n = 0 THEN Refuse(S, "INVALID_ARGUMENT")
    ELSE IF i > Len(v.seq) \/ n > Len(v.seq) - i THEN Refuse(S, "OUT_OF_RANGE")
    ELSE Shrink(S, o, o.s, [v EXCEPT !.seq = RemoveAt(v.seq, i, n)], Mid(v.seq, i, n))

(* ---- size and capacity ---- *)
Resizing(S, o, v, n, x) ==
    IF n = Len(v.seq) THEN {Out(S, "SUCCESS", ANY, <<>>)}
    ELSE IF n < Len(v.seq) THEN Shrink(S, o, o.s, [v EXCEPT !.seq = Take(v.seq, n)], Drop(v.seq, n))
    ELSE IF ~IsHuge(n) /\ ~v.fix /\ n <= v.cap /\ ShouldShrink(v, n) THEN
        \* a growing resize of a sparse vector trims its capacity
        IF o.oom THEN (IF o.inj THEN NoMem(S) ELSE {})
        ELSE {Out(Put(S, o.s, [v EXCEPT !.seq = v.seq \o Rep(n - Len(v.seq), x), !.cap = MinCap(n * v.gf)]), "SUCCESS", ANY, <<>>)}
    ELSE LET K(c) == {Out(Put(S, o.s, [v EXCEPT !.seq = v.seq \o Rep(n - Len(v.seq), x), !.cap = c]), "SUCCESS", ANY, <<>>)}
         IN Grow(S, o, v, n, Scaled(v, n), K)

Reservation(S, o, v, n) ==
    LET K(c) == {Out(Put(S, o.s, [v EXCEPT !.cap = c]), "SUCCESS", ANY, <<>>)}
    IN Grow(S, o, v, n, n, K)

Fitting(S, o, v) ==
    IF v.fix THEN (IF o.oom THEN {} ELSE {Out(S, "SUCCESS", ANY, <<>>)})
    ELSE IF o.oom THEN (IF o.inj THEN NoMem(S) ELSE {})
    ELSE {Out(Put(S, o.s, [v EXCEPT !.cap = MinCap(Len(v.seq))]), "SUCCESS", ANY, <<>>)}

(* ---- reading and writing elements ---- *)
Access(S, o, v) ==
    IF o.i < Len(v.seq) THEN {Out(S, "SUCCESS", v.seq[o.i + 1], <<>>)}
    ELSE Refuse(S, IF o.op \in {"Get", "GetM", "Macro"} THEN "NULL" ELSE "OUT_OF_RANGE")
Assign(S, o, v) ==
    IF o.i >= Len(v.seq) THEN Refuse(S, "OUT_OF_RANGE")
    ELSE {Out(Put(S, o.s, [v EXCEPT !.seq[o.i + 1] = o.x]), "SUCCESS", ANY,
              IF o.op = "Set" THEN Gone(v, <<v.seq[o.i + 1]>>) ELSE <<>>)}
(* The elements are swapped through the unused capacity. *)
Swapping(S, o, v) ==
    IF o.i >= Len(v.seq) \/ o.j >= Len(v.seq) THEN Refuse(S, "OUT_OF_RANGE")
    ELSE IF Len(v.seq) = v.cap THEN Refuse(S, "INSUFFICIENT_BUFFER_SIZE")
    ELSE {Out(Put(S, o.s, [v EXCEPT !.seq[o.i + 1] = v.seq[o.j + 1], !.seq[o.j + 1] = v.seq[o.i + 1]]), "SUCCESS", ANY, <<>>)}

(* ---- searching ---- *)
FindIn(S, o, v, i, n) ==
    IF i > Len(v.seq) \/ n > Len(v.seq) - i THEN Refuse(S, "OUT_OF_RANGE")
    ELSE LET hits == {k \in i..(i + n - 1) : v.seq[k + 1] = o.x}
         IN IF hits = {} THEN {Out(S, "FALSE", -1, <<>>)}
            ELSE {Out(S, "TRUE", CHOOSE k \in hits : \A m \in hits : k <= m, <<>>)}

SortedRange(s, i, n) == \A k \in (i + 1)..(i + n - 1) : s[k] <= s[k + 1]
BinSearchIn(S, o, v, i, n) ==
    IF i > Len(v.seq) \/ n > Len(v.seq) - i THEN Refuse(S, "OUT_OF_RANGE")
    ELSE IF ~SortedRange(v.seq, i, n) THEN {Out(S, st, ANY, <<>>) : st \in {"TRUE", "FALSE"}}
    ELSE LET less == {k \in i..(i + n - 1) : v.seq[k + 1] < o.x}
             pos == i + Cardinality(less)
         IN {Out(S, IF \E k \in i..(i + n - 1) : v.seq[k + 1] = o.x THEN "TRUE" ELSE "FALSE", pos, <<>>)}

(* ---- all operations ---- *)
Creating == {"Init", "InitEx", "InitBuf"}
Duplicating == {"Dup", "DupEx", "DupBuf"}
Ready(S, o) ==
    IF o.op = "Null" THEN TRUE
    ELSE IF o.op \in Creating THEN ~S[o.s].a
    ELSE S[o.s].a /\ (o.op \in Duplicating => ~S[3 - o.s].a)

Results(S, o) ==
    IF ~Ready(S, o) THEN {}
    ELSE IF o.op \in Creating THEN Create(S, o)
    ELSE IF o.op = "Null" THEN Refuse(S, "INVALID_ARGUMENT")
    ELSE LET v == S[o.s] n == Len(v.seq) IN
    CASE o.op = "Destroy" -> {Out(Put(S, o.s, Dead), "SUCCESS", ANY, Gone(v, v.seq))}
      [] o.op \in Duplicating -> Duplicate(S, o, v)
      [] o.op \in {"Get", "GetM", "GetP", "GetPM", "Macro"} -> Access(S, o, v)
      [] o.op = "Foreach" -> {Out(S, "SUCCESS", ANY, <<>>)}
      [] o.op \in {"Set", "SetM"} -> Assign(S, o, v)
      [] o.op = "PushBack" -> Insertion(S, o, v, n, <<o.x>>)
      [] o.op = "Insert" -> Insertion(S, o, v, o.i, <<o.x>>)
      [] o.op = "InsertRange" -> Insertion(S, o, v, o.i, o.xs)
      \* a count no storage can hold
      [] o.op = "InsertHuge" -> IF o.i > n THEN Refuse(S, "OUT_OF_RANGE") ELSE IF v.fix THEN Refuse(S, "INSUFFICIENT_BUFFER_SIZE") ELSE NoMem(S)
      [] o.op = "Emplace" -> Emplacement(S, o, v, n)
      [] o.op \in {"EmplaceEx", "EmplaceRaw"} -> Emplacement(S, o, v, o.i)
      [] o.op = "Swap" -> Swapping(S, o, v)
      [] o.op = "Delete" -> Removal(S, o, v, o.i, 1)
      [] o.op = "DeleteRange" -> Removal(S, o, v, o.i, o.n)
      [] o.op = "PopBack" -> IF n = 0 THEN Refuse(S, "OUT_OF_RANGE") ELSE Removal(S, o, v, n - 1, 1)
      [] o.op = "Clear" -> Resizing(S, o, v, 0, 0)
      [] o.op = "Find" -> FindIn(S, o, v, 0, n)
      [] o.op = "FindEx" -> FindIn(S, o, v, o.i, o.n)
      [] o.op = "BinSearch" -> BinSearchIn(S, o, v, 0, n)
      [] o.op = "BinSearchEx" -> BinSearchIn(S, o, v, o.i, o.n)
      [] o.op \in {"Resize", "ResizeEx"} -> Resizing(S, o, v, o.n, o.x)
      [] o.op = "Reserve" -> Reservation(S, o, v, o.n)
      [] o.op = "ShrinkToFit" -> Fitting(S, o, v)
      [] OTHER -> {}

(* ---- observation ---- *)
OwnOf(v) == IF v.a /\ ~v.fix THEN v.cap ELSE 0
SlotMatches(p, v) ==
    /\ p.a = v.a
    /\ v.a => /\ p.sz = Len(v.seq) /\ p.cap = v.cap /\ p.inb /\ p.seq = v.seq
StateMatches(e, S) ==
    /\ SlotMatches(e.v[1], S[1]) /\ SlotMatches(e.v[2], S[2])
    /\ e.own = OwnOf(S[1]) + OwnOf(S[2])
    /\ Has(e, "ownc") => e.ownc = (IF S[1].a /\ S[1].cu THEN OwnOf(S[1]) ELSE 0) + (IF S[2].a /\ S[2].cu THEN OwnOf(S[2]) ELSE 0)
    /\ e.bad = 0
Matches(e, S, r) ==
    /\ e.st = r.st
    /\ r.val # ANY => e.val = r.val
    /\ SameBag(e.dt, r.dt)
    /\ Has(e, "cc") => e.cc = r.cc
    /\ Has(e, "visited") => e.visited = S[e.s].seq
    /\ StateMatches(e, r.S)

(* ---- laws: the listed properties, stated independently of the operations -- *)
SeqOf(S) == (IF S[1].a THEN S[1].seq ELSE <<>>) \o (IF S[2].a THEN S[2].seq ELSE <<>>)
Failed(st) == st \notin {"SUCCESS", "TRUE", "FALSE", "NULL"}

TypeOK(S) == \A s \in 1..2 : S[s].a =>
    /\ Len(S[s].seq) <= S[s].cap /\ S[s].cap >= 1
    /\ S[s].gf >= 1

(* P02/P04: a failing call changes nothing, except that a removal may be complete *)
LawFailure(S, o, r) ==
    (Failed(r.st) /\ r.S # S) =>
        \/ r.st = "NOT_ENOUGH_MEMORY" /\ Len(r.S[o.s].seq) < Len(S[o.s].seq)
        \/ r.st = "USER_77" /\ r.S = Put(S, o.s, [S[o.s] EXCEPT !.cap = r.S[o.s].cap])
(* P03: capacity never below size, fixed buffers never change, the other slot is independent *)
LawCapacity(S, o, r) == \A s \in 1..2 :
    (S[s].a /\ r.S[s].a) =>
        /\ (S[s].fix => r.S[s].cap = S[s].cap /\ r.S[s].fix)
        /\ (s # o.s => r.S[s] = S[s])
        /\ r.S[s].gf = S[s].gf /\ r.S[s].thr = S[s].thr /\ r.S[s].dtor = S[s].dtor
(* P05: conservation: elements before + elements put in = elements after + elements destructed *)
PutIn(S, o, r) ==
    IF Failed(r.st) \/ r.st = "NULL" THEN <<>>
    ELSE CASE o.op \in {"PushBack", "Insert", "Emplace", "EmplaceEx", "EmplaceRaw", "Set"} -> <<o.x>>
           [] o.op = "InsertRange" -> o.xs
           [] o.op \in {"Resize", "ResizeEx"} /\ o.n > Len(S[o.s].seq) -> Rep(o.n - Len(S[o.s].seq), o.x)
           [] OTHER -> <<>>
LawConservation(S, o, r) ==
    (S[o.s].a /\ S[o.s].dtor /\ o.op \notin {"SetM"}) =>
        LET after == IF r.S[o.s].a THEN r.S[o.s].seq ELSE <<>>
        IN SameBag(S[o.s].seq \o PutIn(S, o, r), after \o r.dt)
(* P01: what an operation does not address keeps its place *)
LawFrame(S, o, r) ==
    (S[o.s].a /\ r.S[o.s].a) =>
        LET a == S[o.s].seq b == r.S[o.s].seq m == Min2(Len(a), Len(b)) IN
        /\ (o.op \in {"PushBack", "Emplace", "PopBack", "Clear", "Resize", "ResizeEx", "Reserve", "ShrinkToFit"}
              => Take(a, m) = Take(b, m))
        /\ (o.op \in {"Insert", "InsertRange", "EmplaceEx", "EmplaceRaw", "Delete", "DeleteRange"} /\ o.i <= m
              => Take(a, o.i) = Take(b, o.i))
        /\ (o.op \in {"Insert", "InsertRange", "EmplaceEx", "EmplaceRaw"} /\ Len(b) > Len(a)
              => Drop(b, Len(b) - (Len(a) - o.i)) = Drop(a, o.i))
        /\ (o.op \in {"Set", "SetM"} => Len(a) = Len(b) /\ \A k \in 1..Len(a) : k # o.i + 1 => a[k] = b[k])
        /\ (o.op = "Swap" => SameBag(a, b) /\ \A k \in 1..Len(a) : (k # o.i + 1 /\ k # o.j + 1) => a[k] = b[k])
(* P06: a successful search names a match, everything before it does not match *)
LawSearch(S, o, r) ==
    /\ (o.op \in {"Find", "FindEx"} /\ r.st = "TRUE") =>
          /\ S[o.s].seq[r.val + 1] = o.x
          /\ \A k \in (IF o.op = "Find" THEN 0 ELSE o.i)..(r.val - 1) : S[o.s].seq[k + 1] # o.x
    /\ (o.op \in {"BinSearch", "BinSearchEx"} /\ r.st \in {"TRUE", "FALSE"} /\ r.val # ANY) =>
          LET i == IF o.op = "BinSearch" THEN 0 ELSE o.i
              n == IF o.op = "BinSearch" THEN Len(S[o.s].seq) ELSE o.n
              t == Mid(S[o.s].seq, i, n)
          IN /\ (r.st = "TRUE") => t[r.val - i + 1] = o.x
             /\ SortedRange(InsertAt(t, r.val - i, <<o.x>>), 0, n + 1)
    /\ (o.op \in {"Find", "FindEx", "BinSearch", "BinSearchEx", "Get", "GetM", "GetP", "GetPM", "Macro", "Foreach"}) => r.S = S
Laws(S, o, r) ==
    /\ TypeOK(r.S) /\ LawFailure(S, o, r) /\ LawCapacity(S, o, r)
    /\ LawConservation(S, o, r) /\ LawFrame(S, o, r) /\ LawSearch(S, o, r)
=============================================================================
