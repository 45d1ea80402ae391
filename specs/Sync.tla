-------------------------------- MODULE Sync --------------------------------
(* Critical sections (include/Zycore/API/Synchronization.h).                  *)
(*                                                                            *)
(* A section has an owner (0: none) and a depth. A thread that enters a       *)
(* section owned by another one waits (its call has not returned); as soon as *)
(* the section is free, one of the waiting threads becomes its owner.         *)
EXTENDS Common

Threads == 1..4
Secs == 1..2
Gone == [live |-> FALSE, own |-> 0, d |-> 0, wait |-> {}]
Fresh == [live |-> TRUE, own |-> 0, d |-> 0, wait |-> {}]
Start == [s \in Secs |-> Gone]
Waiting(S, t) == \E s \in Secs : t \in S[s].wait

Out(S, st, bk) == [S |-> S, st |-> st, bk |-> bk]
Put(S, s, x) == [S EXCEPT ![s] = x]
Granted(x, t) == [x EXCEPT !.own = t, !.d = 1, !.wait = x.wait \ {t}]

Ready(S, o) ==
    CASE o.op = "Create" -> ~S[o.s].live
      [] o.op = "Delete" -> S[o.s].live
      [] o.op = "Wait" -> TRUE
      [] o.op \in {"Race", "Burst"} -> S[1].live /\ S[1].own = 0 /\ (o.op = "Race" => S[2].live /\ S[2].own = 0)
      [] OTHER -> S[o.s].live /\ ~Waiting(S, o.t)

(* ---- free running threads: the history of calls and returns must be explained by some order of effects ---- *)
(* A configuration is the state of the sections together with the calls in progress.                           *)
Idle == [k |-> "idle", f |-> "", s |-> 0, r |-> ""]
Effect(c, t) ==
    LET p == c.p[t] x == c.S[p.s]
        Did(y, r) == {[S |-> Put(c.S, p.s, y), p |-> [c.p EXCEPT ![t] = [p EXCEPT !.k = "done", !.r = r]]]}
    IN CASE p.f = "Enter" -> IF x.own = t THEN Did([x EXCEPT !.d = @ + 1], "SUCCESS")
                             ELSE IF x.own = 0 THEN Did(Granted(x, t), "SUCCESS") ELSE {}
         [] p.f = "Try" -> IF x.own = t THEN Did([x EXCEPT !.d = @ + 1], "TRUE")
                           ELSE IF x.own = 0 THEN Did(Granted(x, t), "TRUE") ELSE Did(x, "FALSE")
         [] p.f = "Leave" -> IF x.own # t THEN Did(x, "INVALID_OPERATION")
                             ELSE Did([x EXCEPT !.d = @ - 1, !.own = IF x.d = 1 THEN 0 ELSE t], "SUCCESS")
Called(c) == {t \in Threads : c.p[t].k = "called"}
RECURSIVE Closure(_, _)
Closure(done, todo) ==
    IF todo = {} THEN done
    ELSE LET new == UNION {UNION {Effect(c, t) : t \in Called(c)} : c \in todo}
         IN Closure(done \cup todo, new \ (done \cup todo))
Event(C, e) ==
    IF e.inv THEN Closure({}, {[c EXCEPT !.p[e.t] = [k |-> "called", f |-> e.f, s |-> e.s, r |-> ""]] : c \in C})
    ELSE {[c EXCEPT !.p[e.t] = Idle] : c \in {c \in C : c.p[e.t].k = "done" /\ c.p[e.t].r = e.r /\ c.p[e.t].f = e.f}}
RECURSIVE Explains(_, _, _)
Explains(C, log, k) == IF k > Len(log) \/ C = {} THEN C ELSE Explains(Event(C, log[k]), log, k + 1)
Final(S, log) == {c.S : c \in {c \in Explains({[S |-> S, p |-> [t \in Threads |-> Idle]]}, log, 1) : \A t \in Threads : c.p[t] = Idle}}
Entered(log, s) == Cardinality({k \in 1..Len(log) : ~log[k].inv /\ log[k].s = s /\ log[k].f # "Leave" /\ log[k].r \in {"SUCCESS", "TRUE"}})

Results(S, o) ==
    IF ~Ready(S, o) THEN {}
    ELSE LET x == S[o.s] IN
    CASE o.op = "Create" -> {Out(Put(S, o.s, Fresh), "SUCCESS", {})}
      \* deleting a section in use is not defined; a refusal must not have an effect
      [] o.op = "Delete" -> IF x.own = 0 THEN {Out(Put(S, o.s, Gone), "SUCCESS", {})} ELSE {Out(S, "INVALID_ARGUMENT", {})}
      [] o.op = "Enter" ->
           IF x.own = o.t THEN {Out(Put(S, o.s, [x EXCEPT !.d = @ + 1]), "SUCCESS", {})}
           ELSE IF x.own = 0 THEN {Out(Put(S, o.s, Granted(x, o.t)), "SUCCESS", {})}
           ELSE {Out(Put(S, o.s, [x EXCEPT !.wait = @ \cup {o.t}]), "BLOCKED", {})}
      [] o.op = "Try" ->
           IF x.own = o.t THEN {Out(Put(S, o.s, [x EXCEPT !.d = @ + 1]), "TRUE", {})}
           ELSE IF x.own = 0 THEN {Out(Put(S, o.s, Granted(x, o.t)), "TRUE", {})}
           ELSE {Out(S, "FALSE", {})}
      [] o.op = "Leave" ->
           IF x.own # o.t THEN {Out(S, "INVALID_OPERATION", {})}
           ELSE IF x.d > 1 THEN {Out(Put(S, o.s, [x EXCEPT !.d = @ - 1]), "SUCCESS", {})}
           ELSE IF x.wait = {} THEN {Out(Put(S, o.s, [x EXCEPT !.own = 0, !.d = 0]), "SUCCESS", {})}
           ELSE {Out(Put(S, o.s, Granted(x, w)), "SUCCESS", {w}) : w \in x.wait}
      [] o.op = "Race" -> {Out(T, "SUCCESS", {}) : T \in {T \in Final(S, o.log) : T = S}}
      [] o.op = "Burst" -> {Out(S, "SUCCESS", {})}
      \* time passes: nobody gets in without a release
      [] o.op = "Wait" -> {Out(S, "SUCCESS", {})}

StateMatches(e, S) == e.back = <<>>
Matches(e, S, r) ==
    /\ e.st = r.st
    /\ {<<e.back[k].t, e.back[k].s, e.back[k].st>> : k \in 1..Len(e.back)} = {<<w, e.s, "SUCCESS">> : w \in r.bk}
    /\ Len(e.back) = Cardinality(r.bk)
    /\ (e.op = "Race") => e.c1 = Entered(e.log, 1) /\ e.c2 = Entered(e.log, 2)
    /\ (e.op = "Burst") => e.c1 = e.n * e.threads /\ e.clash = 0

(* ---- laws ---- *)
TypeOK(S) == \A s \in Secs :
    LET x == S[s] IN /\ (x.own = 0) <=> (x.d = 0)
                     /\ x.own \notin x.wait
                     /\ (x.wait # {} => x.own # 0)          \* nobody waits for a free section
                     /\ (~x.live => x = Gone)
Laws(S, o, r) == \A s \in Secs :
    LET a == S[s] b == r.S[s] IN
    \* the owner changes only by its own leaving; the section is handed over to a thread that asked for it
    /\ (a.own # 0 /\ b.own # a.own) => (o.op = "Leave" /\ o.t = a.own /\ a.d = 1 /\ (b.own = 0 \/ b.own \in a.wait))
    /\ (a.own = 0 /\ b.own # 0) => (o.op \in {"Enter", "Try"} /\ b.own = o.t)
    \* non-blocking calls never wait and have no effect unless they succeed
    /\ (o.op = "Try") => (r.st \in {"TRUE", "FALSE"} /\ (r.st = "FALSE" => r.S = S) /\ ((r.st = "TRUE") <=> (S[o.s].own \in {0, o.t})))
    /\ (r.st = "INVALID_OPERATION") => r.S = S
    /\ (s # o.s) => a = b
=============================================================================
