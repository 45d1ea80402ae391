-------------------------------- MODULE List --------------------------------
(* Observable behaviour of ZyanList (include/Zycore/List.h).                  *)
(*                                                                            *)
(* An item of the list is a pair <<value, node>>, where node identifies the   *)
(* address of its node (0: any address that no other item of the list has).   *)
EXTENDS Common

Dead == [a |-> FALSE]
Lst(o, its, room, dtor) == [a |-> TRUE, cu |-> Custom(o), its |-> its, room |-> room, dtor |-> dtor]   \* room = -1: growable
Start == Dead

Out(S, st, val, dt) == [S |-> S, st |-> st, val |-> val, dt |-> dt, cc |-> 0]
Refuse(S, st) == {Out(S, st, ANY, <<>>)}
Vals(its) == [k \in 1..Len(its) |-> its[k][1]]
Ids(its) == [k \in 1..Len(its) |-> its[k][2]]
Fresh(n, x) == [k \in 1..n |-> <<x, 0>>]
Gone(S, its) == IF S.dtor THEN Vals(its) ELSE <<>>
With(S, its) == [S EXCEPT !.its = its]

(* Adds one item: T is the new content. A fixed buffer is full exactly if its  *)
(* items use up all of its room.                                               *)
Adding(S, o, its, val, cc) ==
    IF S.room >= 0 THEN
        IF o.oom THEN {}
        ELSE IF Len(S.its) >= S.room THEN Refuse(S, "INSUFFICIENT_BUFFER_SIZE")
        ELSE {[Out(With(S, its), "SUCCESS", val, <<>>) EXCEPT !.cc = cc]}
    ELSE IF o.oom THEN (IF o.inj THEN Refuse(S, "NOT_ENOUGH_MEMORY") ELSE {})
    ELSE {[Out(With(S, its), "SUCCESS", val, <<>>) EXCEPT !.cc = cc]}

Emplacing(S, o, front) ==
    LET raw == o.op \in {"EmplaceBackRaw", "EmplaceFrontRaw"}
        its == IF front THEN Fresh(1, o.x) \o S.its ELSE S.its \o Fresh(1, o.x)
    IN IF o.cf /\ ~raw
       \* the constructor fails after the room for the item was found
       THEN {IF r.st = "SUCCESS" THEN [Out(S, "USER_77", ANY, <<>>) EXCEPT !.cc = 1] ELSE r : r \in Adding(S, o, its, ANY, 1)}
       ELSE Adding(S, o, its, o.x, IF raw THEN 0 ELSE 1)

RemovingAt(S, i, j) ==   \* positions i..j (from 1)
    {Out(With(S, Take(S.its, i - 1) \o Drop(S.its, j)), "SUCCESS", ANY, Gone(S, SubSeq(S.its, i, j)))}

Resizing(S, o, n, x) ==
    LET len == Len(S.its) IN
    IF n = len THEN {Out(S, "SUCCESS", ANY, <<>>)}
    ELSE IF n < len THEN {Out(With(S, Take(S.its, n)), "SUCCESS", ANY, Gone(S, Drop(S.its, n)))}
    ELSE IF S.room >= 0 /\ n > S.room
         THEN {Out(With(S, S.its \o Fresh(k, x)), "INSUFFICIENT_BUFFER_SIZE", ANY, <<>>) : k \in 0..(S.room - len)}
    ELSE IF o.oom THEN
         IF o.inj /\ S.room < 0 THEN {Out(With(S, S.its \o Fresh(k, x)), "NOT_ENOUGH_MEMORY", ANY, <<>>) : k \in 0..(n - len - 1)} ELSE {}
    ELSE {Out(With(S, S.its \o Fresh(n - len, x)), "SUCCESS", ANY, <<>>)}

Creating == {"Init", "InitEx", "InitBuf"}
Ready(S, o) == IF o.op \in {"Null", "Giant"} THEN TRUE ELSE IF o.op \in Creating THEN ~S.a ELSE S.a
NoAlloc == {"Destroy", "PopBack", "PopFront", "Remove", "RemoveRange", "Set", "Get", "Next", "Prev", "Clear", "Null"} \cup Creating

Results(S, o) ==
    IF ~Ready(S, o) \/ (o.oom /\ o.op \in NoAlloc) THEN {}
    ELSE IF o.op = "InitBuf" THEN {Out(Lst(o, <<>>, o.room, o.dtor), "SUCCESS", ANY, <<>>)}
    ELSE IF o.op \in Creating THEN {Out(Lst(o, <<>>, -1, o.dtor), "SUCCESS", ANY, <<>>)}
    ELSE IF o.op = "Null" THEN Refuse(S, "INVALID_ARGUMENT")
    \* another list, with elements of (almost) all the bytes there are: it accepts none of them and its buffer stays as it was
    ELSE IF o.op = "Giant" THEN {Out(S, IF o.buf THEN "INSUFFICIENT_BUFFER_SIZE" ELSE "NOT_ENOUGH_MEMORY", 0, <<>>)}
    ELSE LET len == Len(S.its) IN
    CASE o.op = "Destroy" -> {Out(Dead, "SUCCESS", ANY, Gone(S, S.its))}
      [] o.op = "PushBack" -> Adding(S, o, S.its \o Fresh(1, o.x), ANY, 0)
      [] o.op = "PushFront" -> Adding(S, o, Fresh(1, o.x) \o S.its, ANY, 0)
      [] o.op \in {"EmplaceBack", "EmplaceBackRaw"} -> Emplacing(S, o, FALSE)
      [] o.op \in {"EmplaceFront", "EmplaceFrontRaw"} -> Emplacing(S, o, TRUE)
      [] o.op = "PopBack" -> IF len = 0 THEN Refuse(S, "INVALID_OPERATION") ELSE RemovingAt(S, len, len)
      [] o.op = "PopFront" -> IF len = 0 THEN Refuse(S, "INVALID_OPERATION") ELSE RemovingAt(S, 1, 1)
      [] o.op = "Remove" -> RemovingAt(S, o.i + 1, o.i + 1)
      [] o.op = "RemoveRange" -> RemovingAt(S, o.i + 1, o.j + 1)
      [] o.op = "Set" -> {Out(With(S, [S.its EXCEPT ![o.i + 1] = <<o.x, S.its[o.i + 1][2]>>]), "SUCCESS", ANY, Gone(S, <<S.its[o.i + 1]>>))}
      [] o.op = "Get" -> {Out(S, "SUCCESS", S.its[o.i + 1][1], <<>>)}
      [] o.op = "Next" -> {Out(S, "SUCCESS", IF o.i + 1 = len THEN -1 ELSE S.its[o.i + 2][1], <<>>)}
      [] o.op = "Prev" -> {Out(S, "SUCCESS", IF o.i = 0 THEN -1 ELSE S.its[o.i][1], <<>>)}
      [] o.op = "Clear" -> Resizing(S, o, 0, 0)
      [] o.op \in {"Resize", "ResizeEx"} -> Resizing(S, o, o.n, o.x)
      [] OTHER -> {}

(* ---- observation ---- *)
StateMatches(e, S) ==
    /\ e.a = S.a
    /\ e.own = (IF S.a /\ S.room < 0 THEN Len(S.its) ELSE 0) /\ e.exact /\ e.bad = 0
    /\ Has(e, "ownc") => e.ownc = (IF S.a /\ S.cu /\ S.room < 0 THEN Len(S.its) ELSE 0)
    /\ S.a =>
         /\ e.sz = Len(S.its) /\ Len(e.fwd) = e.sz /\ Len(e.ids) = e.sz /\ e.inb
         /\ e.fwd = Vals(S.its) /\ e.bwd = Rev(Vals(S.its))
         /\ \A k \in 1..Len(S.its) : S.its[k][2] # 0 => e.ids[k] = S.its[k][2]
         /\ Cardinality(Elems(e.ids)) = Len(e.ids)
Matches(e, S, r) ==
    /\ e.st = r.st
    /\ r.val # ANY => e.val = r.val
    /\ SameBag(e.dt, r.dt)
    /\ Has(e, "cc") => e.cc = r.cc
    /\ StateMatches(e, r.S)
(* The state after an observed event: new nodes have the observed addresses.   *)
Observed(e, T) == IF T.a THEN [T EXCEPT !.its = [k \in 1..Len(T.its) |-> <<T.its[k][1], e.ids[k]>>]] ELSE T

(* ---- laws ---- *)
Failed(st) == st # "SUCCESS"
TypeOK(S) == S.a => (S.room >= 0 => Len(S.its) <= S.room)
LawFailure(S, o, r) ==
    (Failed(r.st) /\ r.S # S) => o.op \in {"Resize", "ResizeEx"} /\ Take(r.S.its, Len(S.its)) = S.its
PutIn(S, o, r) ==
    IF o.op \in {"Resize", "ResizeEx"} /\ r.S.a /\ Len(r.S.its) > Len(S.its) THEN Rep(Len(r.S.its) - Len(S.its), o.x)
    ELSE IF Failed(r.st) THEN <<>>
    ELSE IF o.op \in {"PushBack", "PushFront", "EmplaceBack", "EmplaceFront", "EmplaceBackRaw", "EmplaceFrontRaw", "Set"} THEN <<o.x>> ELSE <<>>
LawConservation(S, o, r) == (S.a /\ S.dtor) =>
    SameBag(Vals(S.its) \o PutIn(S, o, r), (IF r.S.a THEN Vals(r.S.its) ELSE <<>>) \o r.dt)
LawNoDtor(S, o, r) == (S.a /\ ~S.dtor) => r.dt = <<>>
LawFull(S, o, r) == (S.a /\ S.room >= 0 /\ o.op \in {"PushBack", "PushFront"}) => ((r.st = "SUCCESS") <=> (Len(S.its) < S.room))
LawEnds(S, o, r) == (S.a /\ r.S.a) =>
    /\ (o.op \in {"PushBack", "EmplaceBack", "EmplaceBackRaw", "PopBack"} => Take(S.its, Min2(Len(S.its), Len(r.S.its))) = Take(r.S.its, Min2(Len(S.its), Len(r.S.its))))
    /\ (o.op \in {"PushFront", "EmplaceFront", "EmplaceFrontRaw", "PopFront"} =>
          Rev(Take(Rev(S.its), Min2(Len(S.its), Len(r.S.its)))) = Rev(Take(Rev(r.S.its), Min2(Len(S.its), Len(r.S.its)))))
Laws(S, o, r) == TypeOK(r.S) /\ LawFailure(S, o, r) /\ LawConservation(S, o, r) /\ LawNoDtor(S, o, r) /\ LawFull(S, o, r) /\ LawEnds(S, o, r)
=============================================================================
