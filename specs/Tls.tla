--------------------------------- MODULE Tls ---------------------------------
(* Threads and thread-local storage (include/Zycore/API/Thread.h).            *)
(*                                                                            *)
(* Thread 0 is the initial thread. A slot is free or carries the number of    *)
(* its destructor (0: none); every running thread has a value per slot, 0 is  *)
(* the empty one. Identifiers are numbered in the order of their appearance.  *)
EXTENDS Common

Threads == 0..4
Slots == 1..5
FREE == -1
Start == [run |-> {0}, id |-> [t \in Threads |-> 0], dt |-> [k \in Slots |-> FREE], ix |-> [k \in Slots |-> ANY],
          val |-> [t \in Threads |-> [k \in Slots |-> 0]], cap |-> 0, used |-> {}]
Live(S) == {k \in Slots : S.dt[k] # FREE}

(* Results: the next state, the status (or "ERROR": any), the value returned, the bag of destructor calls *)
Out(S, st, r, fin) == [S |-> S, st |-> st, r |-> r, fin |-> fin]

Ready(S, o) ==
    CASE o.op = "Spawn" -> o.t # 0 /\ o.t \notin S.run
      [] o.op = "Exit" -> o.t # 0 /\ o.t \in S.run
      [] o.op = "Alloc" -> o.t \in S.run /\ o.k \notin Live(S)
      [] o.op = "Get" -> o.t \in S.run /\ o.k \in Live(S)
      [] o.op \in {"Set", "Free", "Id", "Self"} -> o.t \in S.run /\ (o.op \in {"Set", "Free"} => o.k \in S.used)
      [] o.op = "Exhaust" -> 1 \in S.run
      [] OTHER -> \A t \in 1..o.threads : t \in S.run

(* The values a thread leaves behind *)
Finals(S, t) == {[d |-> S.dt[k], t |-> t, v |-> S.val[t][k], k |-> k] : k \in {k \in Live(S) : S.dt[k] # 0 /\ S.val[t][k] # 0}}
Empty == [k \in Slots |-> 0]

(* ---- free running threads ---- *)
RECURSIVE Walk(_, _, _)
Walk(S, log, n) ==
    IF n > Len(log) THEN {S}
    ELSE LET e == log[n] IN
         IF e.r # "SUCCESS" THEN {}
         ELSE IF e.f = "Set" THEN Walk([S EXCEPT !.val[e.t][e.k] = e.v], log, n + 1)
         ELSE IF e.v = S.val[e.t][e.k] THEN Walk(S, log, n + 1) ELSE {}
(* Slots allocated and released meanwhile: h maps an index in use to its user and value. *)
RECURSIVE Held(_, _, _)
Held(h, log, n) ==
    IF n > Len(log) THEN DOMAIN h = {}
    ELSE LET e == log[n] mine == e.k \in DOMAIN h /\ h[e.k].t = e.t IN
         /\ e.r = "SUCCESS"
         /\ CASE e.f = "Alloc" -> e.k \notin DOMAIN h /\ Held([x \in DOMAIN h \cup {e.k} |-> IF x = e.k THEN [t |-> e.t, v |-> 0] ELSE h[x]], log, n + 1)
              [] e.f = "Set" -> mine /\ Held([h EXCEPT ![e.k].v = e.v], log, n + 1)
              [] e.f = "Get" -> mine /\ h[e.k].v = e.v /\ Held(h, log, n + 1)
              [] e.f = "Free" -> mine /\ Held([x \in DOMAIN h \ {e.k} |-> h[x]], log, n + 1)
Indices(S) == {S.ix[k] : k \in Live(S)}

Results(S, o) ==
    IF ~Ready(S, o) THEN {}
    ELSE CASE o.op = "Spawn" -> {Out([S EXCEPT !.run = @ \cup {o.t}, !.id[o.t] = 0, !.val[o.t] = Empty], "SUCCESS", 0, {})}
           [] o.op = "Exit" -> {Out([S EXCEPT !.run = @ \ {o.t}, !.id[o.t] = 0, !.val[o.t] = Empty], "SUCCESS", 0, Finals(S, o.t))}
           [] o.op = "Alloc" ->
                {Out([S EXCEPT !.dt[o.k] = o.d, !.ix[o.k] = IF Has(o, "ix") THEN o.ix ELSE ANY, !.used = @ \cup {o.k},
                               !.val = [t \in Threads |-> [S.val[t] EXCEPT ![o.k] = 0]]], "SUCCESS", 0, {})}
           [] o.op = "Free" ->
                IF o.k \notin Live(S) THEN {Out(S, "ERROR", 0, {})}
                ELSE {Out([S EXCEPT !.dt[o.k] = FREE, !.ix[o.k] = ANY, !.val = [t \in Threads |-> [S.val[t] EXCEPT ![o.k] = 0]]], "SUCCESS", 0, {})}
           [] o.op = "Set" ->
                IF o.k \notin Live(S) THEN {Out(S, "INVALID_ARGUMENT", 0, {})}
                ELSE {Out([S EXCEPT !.val[o.t][o.k] = o.v], "SUCCESS", 0, {})}
           [] o.op = "Get" -> {Out(S, "SUCCESS", S.val[o.t][o.k], {})}
           [] o.op = "Id" ->
                IF S.id[o.t] # 0 THEN {Out(S, "SUCCESS", S.id[o.t], {})}
                \* any identifier no other running thread is known to have
                ELSE {Out([S EXCEPT !.id[o.t] = i], "SUCCESS", i, {}) : i \in (1..64) \ {S.id[t] : t \in S.run}}
           [] o.op = "Self" -> {Out(S, "SUCCESS", 1, {})}
           [] o.op = "Exhaust" -> {Out([S EXCEPT !.cap = o.n + Cardinality(Live(S))], "OUT_OF_RESOURCES", 0, {})}
           [] o.op = "Burst" -> {Out(T, "SUCCESS", 0, {}) : T \in Walk(S, o.log, 1)}
           [] o.op = "Storm" -> {Out(S, "SUCCESS", 0, {})}

NoFin(e) == e.fin = <<>>
StateMatches(e, S) == NoFin(e)
Matches(e, S, r) ==
    /\ IF r.st = "ERROR" THEN e.st \notin {"SUCCESS", "TRUE", "FALSE"} ELSE e.st = r.st
    \* destructor calls: by the leaving thread, once for each value
    /\ Len(e.fin) = Cardinality(r.fin)
    /\ SameBag([n \in 1..Len(e.fin) |-> <<e.fin[n].d, e.fin[n].t, e.fin[n].v>>],
               LET RECURSIVE L(_) L(q) == IF q = {} THEN <<>> ELSE LET x == CHOOSE x \in q : TRUE IN <<<<x.d, x.t, x.v>>>> \o L(q \ {x}) IN L(r.fin))
    /\ (e.op \in {"Get", "Id"}) => e.r = r.r
    /\ (e.op = "Self") => e.r
    /\ (e.op = "Alloc") => e.ix \notin Indices(S)
    /\ (e.op = "Exhaust") =>
         /\ e.n + Cardinality(Live(S)) >= 128
         /\ S.cap # 0 => r.S.cap = S.cap
         /\ e.ixf = -1                              \* the refused call gave no index
         /\ Len(e.ixs) = e.n /\ Cardinality(Elems(e.ixs)) = e.n /\ Elems(e.ixs) \cap Indices(S) = {}
         /\ e.a0 = [i \in 1..e.n |-> 0]
         /\ e.a = [i \in 1..e.n |-> 0]
         /\ e.b = [i \in 1..e.n |-> i]
         /\ e.c = [i \in 1..e.n |-> -i]
         /\ e.freed = e.n
    /\ (e.op = "Storm") => Held(<<>>, e.log, 1) /\ \A n \in 1..Len(e.log) : e.log[n].k \notin Indices(S)

(* ---- laws ---- *)
TypeOK(S) == /\ 0 \in S.run
             /\ \A t \in Threads, k \in Slots : (S.dt[k] = FREE \/ t \notin S.run) => S.val[t][k] = 0
             /\ \A t, u \in S.run : (t # u /\ S.id[t] # 0) => S.id[t] # S.id[u]
Laws(S, o, r) ==
    \* a thread's values change through its own stores, its end and the life of the slot only
    /\ \A t \in S.run, k \in Slots : (r.S.val[t][k] # S.val[t][k]) =>
          \/ (o.op = "Set" /\ o.t = t /\ o.k = k /\ r.S.val[t][k] = o.v)
          \/ (o.op = "Exit" /\ o.t = t)
          \/ (o.op = "Free" /\ o.k = k)
    /\ (o.op # "Exit") => r.fin = {}
    /\ \A x \in r.fin : x.v # 0 /\ x.v = S.val[o.t][x.k] /\ x.d = S.dt[x.k]
    /\ (o.op = "Exit") => \A k \in Live(S) : (S.dt[k] # 0 /\ S.val[o.t][k] # 0) => \E x \in r.fin : x.k = k
    \* identifiers are stable
    /\ \A t \in S.run \cap r.S.run : S.id[t] # 0 => r.S.id[t] = S.id[t]
    \* refusals have no effect
    /\ (r.st # "SUCCESS" /\ o.op # "Exhaust") => r.S = S
=============================================================================
