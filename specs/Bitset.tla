------------------------------- MODULE Bitset -------------------------------
(* Observable behaviour of ZyanBitset (include/Zycore/Bitset.h).              *)
(*                                                                            *)
(* The state is a pair of bitsets. A bitset is a sequence of bits with its    *)
(* capacity in bytes; cap is predicted by the growth rules, but any capacity  *)
(* that covers the bits is accepted from a growable bitset.                   *)
EXTENDS Common

Dead == [a |-> FALSE]
Bits(o, bits, cap, fix, gf, thr) == [a |-> TRUE, cu |-> Custom(o), bits |-> bits, cap |-> cap, fix |-> fix, gf |-> gf, thr |-> thr]
Start == <<Dead, Dead>>

Bytes(n) == (n + 7) \div 8
Out(S, st) == [S |-> S, st |-> st, tight |-> FALSE]
Put(S, s, b) == [S EXCEPT ![s] = b]
Refuse(S, sts) == {Out(S, st) : st \in sts}
Ok(S) == {Out(S, "SUCCESS")}
NoMem(S) == Refuse(S, {"NOT_ENOUGH_MEMORY"})
Min1(n) == Max2(1, n)

(* ---- creation ---- *)
Create(S, o) ==
    IF o.op = "InitBuf" THEN
        IF o.oom THEN {}
        ELSE IF IsHuge(o.n) \/ o.cap < Bytes(o.n) THEN Refuse(S, {"INSUFFICIENT_BUFFER_SIZE"})
        ELSE IF o.cap = 0 THEN Refuse(S, {"INVALID_ARGUMENT"})
        ELSE Ok(Put(S, o.s, Bits(o, Rep(o.n, 0), o.cap, TRUE, 1, 0)))
    ELSE IF o.gf < 1 THEN Refuse(S, {"INVALID_ARGUMENT"})
    ELSE IF IsHuge(o.n) THEN NoMem(S)
    ELSE IF o.oom THEN (IF o.inj THEN NoMem(S) ELSE {})
    ELSE Ok(Put(S, o.s, Bits(o, Rep(o.n, 0), Min1(Bytes(o.n)), FALSE, o.gf, o.thr)))

(* ---- size ---- *)
Pushing(S, o, b) ==
    LET n == Len(b.bits) + 1
        K(c) == Ok(Put(S, o.s, [b EXCEPT !.bits = Append(b.bits, o.x), !.cap = c]))
    IN IF Bytes(n) <= b.cap THEN (IF o.oom THEN {} ELSE K(b.cap))
       ELSE IF b.fix THEN (IF o.oom THEN {} ELSE Refuse(S, {"INSUFFICIENT_BUFFER_SIZE"}))
       ELSE IF o.oom THEN (IF o.inj THEN NoMem(S) ELSE {})
       ELSE K(Bytes(n) * b.gf)
(* Storage that is given back after a removal may be refused: the removal is   *)
(* then complete or has no effect at all.                                      *)
Less(S, o, b, bits) ==
    LET c == IF b.thr # 0 /\ Bytes(Len(bits)) * b.thr < b.cap THEN Min1(Bytes(Len(bits)) * b.gf) ELSE b.cap
        w == Put(S, o.s, [b EXCEPT !.bits = bits, !.cap = IF b.fix THEN b.cap ELSE c])
    IN IF o.oom THEN
         IF o.inj /\ ~b.fix THEN {Out(Put(S, o.s, [b EXCEPT !.bits = bits]), "NOT_ENOUGH_MEMORY")} \cup NoMem(S) ELSE {}
       ELSE Ok(w)
Reserving(S, o, b) ==
    IF ~IsHuge(o.n) /\ Bytes(o.n) <= b.cap THEN (IF o.oom THEN {} ELSE Ok(S))
    ELSE IF b.fix THEN (IF o.oom THEN {} ELSE Refuse(S, {"INSUFFICIENT_BUFFER_SIZE"}))
    ELSE IF IsHuge(o.n) THEN NoMem(S)
    ELSE IF o.oom THEN (IF o.inj THEN NoMem(S) ELSE {})
    ELSE Ok(Put(S, o.s, [b EXCEPT !.cap = Bytes(o.n)]))
Fitting(S, o, b) ==
    IF b.fix THEN (IF o.oom THEN {} ELSE Ok(S))
    ELSE IF o.oom THEN (IF o.inj THEN NoMem(S) ELSE {})
    ELSE {[Out(Put(S, o.s, [b EXCEPT !.cap = Min1(Bytes(Len(b.bits)))]), "SUCCESS") EXCEPT !.tight = TRUE]}

(* ---- bits ---- *)
At(S, o, b, f(_)) ==
    IF o.i >= Len(b.bits) THEN Refuse(S, {"OUT_OF_RANGE"})
    ELSE Ok(Put(S, o.s, [b EXCEPT !.bits[o.i + 1] = f(@)]))
All(S, o, b, f(_)) == Ok(Put(S, o.s, [b EXCEPT !.bits = [k \in 1..Len(b.bits) |-> f(b.bits[k])]]))
Asked(S, b, i) == Refuse(S, {IF i < 0 \/ i >= Len(b.bits) THEN "OUT_OF_RANGE" ELSE IF b.bits[i + 1] = 1 THEN "TRUE" ELSE "FALSE"})
Bool(S, p) == Refuse(S, {IF p THEN "TRUE" ELSE "FALSE"})

(* ---- combining: d(estination) and t (source) ---- *)
Comb(fn, a, b) == CASE fn \in {"AND"} -> a * b
                    [] fn = "OR" -> Max2(a, b)
                    [] fn = "XOR" -> (a + b) % 2
                    [] fn = "NAND" -> 1 - a * b
                    [] fn = "COPY" -> b
(* The first m bytes are combined. Bits of the destination behind the end of   *)
(* the source in the last byte combined are unspecified.                       *)
Combined(S, o, fn, m, st) ==
    LET d == S[o.s] t == S[o.t]
        common == Min2(Min2(Len(d.bits), Len(t.bits)), 8 * m)
        open == {k \in 1..Len(d.bits) : k > common /\ k <= 8 * Min2(m, Bytes(Len(t.bits)))}
        bit(k, X) == IF k <= common THEN Comb(fn, d.bits[k], t.bits[k])
                     ELSE IF k \in open THEN (IF k \in X THEN 1 ELSE 0) ELSE d.bits[k]
    IN {Out(Put(S, o.s, [d EXCEPT !.bits = [k \in 1..Len(d.bits) |-> bit(k, X)]]), st) : X \in
           \* of a recorded operation, only what was seen can match
           IF Has(o, "b") THEN {{k \in open : k <= Len(o.b[o.s].bits) /\ o.b[o.s].bits[k] = 1}} ELSE SUBSET open}
Combining(S, o) ==
    LET n == Min2(Bytes(Len(S[o.s].bits)), Bytes(Len(S[o.t].bits))) IN
    IF o.op = "ByteOp" THEN
         IF o.k > 0 /\ o.k <= n THEN Combined(S, o, o.fn, o.k - 1, "USER_77")   \* the k-th call of the operation fails
         ELSE Combined(S, o, o.fn, n, "SUCCESS")
    ELSE Combined(S, o, o.op, n, "SUCCESS")

Creating == {"Init", "InitEx", "InitBuf"}
Mixing == {"AND", "OR", "XOR", "ByteOp"}
Ready(S, o) == IF o.op = "Null" THEN TRUE ELSE IF o.op \in Creating THEN ~S[o.s].a ELSE S[o.s].a /\ (o.op \in Mixing => S[o.t].a)
Allocating == Creating \cup {"Push", "Pop", "Clear", "Reserve", "ShrinkToFit"}
Results(S, o) ==
    IF ~Ready(S, o) \/ (o.oom /\ o.op \notin Allocating) THEN {}
    ELSE IF o.op \in Creating THEN Create(S, o)
    ELSE IF o.op = "Null" THEN Refuse(S, {"INVALID_ARGUMENT"})
    ELSE LET b == S[o.s] n == Len(b.bits) one == [x \in {0, 1} |-> 1] IN
    CASE o.op = "Destroy" -> Ok(Put(S, o.s, Dead))
      [] o.op = "Set" -> At(S, o, b, LAMBDA x : 1)
      [] o.op = "Reset" -> At(S, o, b, LAMBDA x : 0)
      [] o.op = "Assign" -> At(S, o, b, LAMBDA x : IF o.x = 0 THEN 0 ELSE 1)
      [] o.op = "Toggle" -> At(S, o, b, LAMBDA x : 1 - x)
      [] o.op = "Test" -> Asked(S, b, o.i)
      [] o.op = "TestMSB" -> Asked(S, b, n - 1)
      [] o.op = "TestLSB" -> Asked(S, b, 0)
      [] o.op = "SetAll" -> All(S, o, b, LAMBDA x : 1)
      [] o.op = "ResetAll" -> All(S, o, b, LAMBDA x : 0)
      [] o.op = "Flip" -> All(S, o, b, LAMBDA x : 1 - x)
      [] o.op \in Mixing -> Combining(S, o)
      [] o.op = "Push" -> Pushing(S, [o EXCEPT !.x = IF o.x = 0 THEN 0 ELSE 1], b)
      [] o.op = "Pop" -> IF n = 0 THEN (IF o.oom THEN {} ELSE Refuse(S, {"OUT_OF_RANGE"})) ELSE Less(S, o, b, Take(b.bits, n - 1))
      [] o.op = "Clear" -> Less(S, o, b, <<>>)
      [] o.op = "Reserve" -> Reserving(S, o, b)
      [] o.op = "ShrinkToFit" -> Fitting(S, o, b)
      [] OTHER -> {}

(* ---- observation ---- *)
Ones(bits) == Cardinality({k \in 1..Len(bits) : bits[k] = 1})
Answer(p) == IF p THEN "TRUE" ELSE "FALSE"
(* In the recording of a bitset of more than 2^32 bits the bits below a base   *)
(* are left out: all of them are p.fill, and the model describes the others.   *)
Below(p, x) == Has(p, "fill") => p.fill = x
SlotMatches(p, b) ==
    /\ p.a = b.a
    /\ b.a =>
        LET n == Len(b.bits) ones == Ones(b.bits) IN
        /\ p.sz = n /\ p.bits = b.bits
        /\ p.sb = Bytes(n) /\ p.cb >= Bytes(n) /\ p.cap = 8 * p.cb
        /\ (b.fix => p.cb = b.cap)
        /\ Has(p, "cnt") =>
            /\ p.cnt = ones
            /\ p.all = Answer(ones = n /\ Below(p, 1)) /\ p.any = Answer(ones > 0 \/ ~Below(p, 0)) /\ p.none = Answer(ones = 0 /\ Below(p, 0))
        /\ p.lsb = (IF Has(p, "fill") THEN Answer(p.fill = 1) ELSE IF n = 0 THEN "OUT_OF_RANGE" ELSE Answer(b.bits[1] = 1))
        /\ p.msb = (IF Has(p, "fill") /\ n = 0 THEN Answer(p.fill = 1) ELSE IF n = 0 THEN "OUT_OF_RANGE" ELSE Answer(b.bits[n] = 1))
        /\ p.out = "OUT_OF_RANGE" /\ p.guard
OwnOf(p, b) == IF b.a /\ ~b.fix THEN p.cb ELSE 0
StateMatches(e, S) ==
    /\ SlotMatches(e.b[1], S[1]) /\ SlotMatches(e.b[2], S[2])
    /\ e.own = OwnOf(e.b[1], S[1]) + OwnOf(e.b[2], S[2])
    /\ Has(e, "ownc") => e.ownc = (IF S[1].a /\ S[1].cu THEN OwnOf(e.b[1], S[1]) ELSE 0) + (IF S[2].a /\ S[2].cu THEN OwnOf(e.b[2], S[2]) ELSE 0)
    /\ e.bad = 0
(* The capacity is left alone by refused calls and by calls that only look or  *)
(* change bits; it is enough for what was reserved, and no more than needed    *)
(* after shrinking.                                                            *)
Sized == {"Push", "Pop", "Clear", "Reserve", "ShrinkToFit"}
CapMatches(e, S, r) == \A s \in 1..2 : (S[s].a /\ r.S[s].a) =>
    /\ (s # e.s \/ e.op \notin Sized \/ r.st # "SUCCESS") => e.b[s].cb = S[s].cap
    /\ (s = e.s /\ r.st = "SUCCESS" /\ e.op = "Reserve") => (e.b[s].cb >= Bytes(e.n) /\ e.b[s].cb >= S[s].cap)
    /\ (s = e.s /\ r.st = "SUCCESS" /\ e.op = "Push") => e.b[s].cb >= S[s].cap
    /\ (s = e.s /\ r.tight) => e.b[s].cb = r.S[s].cap
Matches(e, S, r) ==
    /\ e.st = r.st
    /\ StateMatches(e, r.S)
    /\ CapMatches(e, S, r)
Observed(e, T) == [s \in 1..2 |-> IF T[s].a THEN [T[s] EXCEPT !.cap = e.b[s].cb] ELSE T[s]]

(* ---- laws ---- *)
TypeOK(S) == \A s \in 1..2 : S[s].a => /\ Bytes(Len(S[s].bits)) <= S[s].cap /\ S[s].cap >= 1
                                      /\ \A k \in 1..Len(S[s].bits) : S[s].bits[k] \in {0, 1}
Failed(st) == st \notin {"SUCCESS", "TRUE", "FALSE"}
LawFailure(S, o, r) == (Failed(r.st) /\ r.S # S) =>
    \/ r.st = "NOT_ENOUGH_MEMORY" /\ o.op \in {"Pop", "Clear"}
    \/ r.st = "USER_77" /\ o.op = "ByteOp"
LawSize(S, o, r) == \A s \in 1..2 : (S[s].a /\ r.S[s].a) =>
    LET d == Len(r.S[s].bits) - Len(S[s].bits) IN
    /\ (s # o.s => r.S[s] = S[s])
    /\ (d = 0 \/ (o.op = "Push" /\ d = 1 /\ ~Failed(r.st)) \/ (o.op = "Pop" /\ d = -1) \/ (o.op = "Clear" /\ r.S[s].bits = <<>>))
LawFrame(S, o, r) == (S[o.s].a /\ r.S[o.s].a) =>
    LET a == S[o.s].bits b == r.S[o.s].bits IN
    /\ (o.op \in {"Push", "Pop"} => LET m == Min2(Len(a), Len(b)) IN Take(a, m) = Take(b, m))
    /\ (o.op \in {"Set", "Reset", "Assign", "Toggle"} => \A k \in 1..Len(a) : k # o.i + 1 => a[k] = b[k])
    /\ (o.op \in {"Set", "Reset", "Assign", "Toggle"} /\ o.i < Len(a) => Ones(b) - Ones(a) \in {-1, 0, 1})
    /\ (o.op = "Flip" => Ones(a) + Ones(b) = Len(a))
    /\ (o.op = "XOR" /\ o.t = o.s => Ones(b) = 0)
    /\ (o.op \in {"AND", "OR"} /\ o.t = o.s => a = b)
    /\ (o.op \in {"AND", "OR", "XOR", "ByteOp"} =>
          \A k \in 1..Len(a) : (k > 8 * Bytes(Len(S[o.t].bits)) => a[k] = b[k]))
    /\ (o.op = "AND" => \A k \in 1..Min2(Len(a), Len(S[o.t].bits)) : b[k] = 1 <=> (a[k] = 1 /\ S[o.t].bits[k] = 1))
Laws(S, o, r) == TypeOK(r.S) /\ LawFailure(S, o, r) /\ LawSize(S, o, r) /\ LawFrame(S, o, r)
=============================================================================
