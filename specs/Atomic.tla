------------------------------- MODULE Atomic --------------------------------
(* Atomic variables (include/Zycore/Atomic.h).                                *)
(*                                                                            *)
(* A variable is a sequence of 16-bit limbs, least significant first; there   *)
(* is one of each width (32, 64, 0: pointer), <<>> before the first store.    *)
EXTENDS Common

Limb == 65536
Widths == {0, 32, 64}
Threads == 1..4
Start == [p |-> <<>>, u32 |-> <<>>, u64 |-> <<>>]
Of(S, w) == IF w = 32 THEN S.u32 ELSE IF w = 64 THEN S.u64 ELSE S.p
To(S, w, v) == IF w = 32 THEN [S EXCEPT !.u32 = v] ELSE IF w = 64 THEN [S EXCEPT !.u64 = v] ELSE [S EXCEPT !.p = v]

(* arithmetic modulo 2^(16 * Len(x)) *)
Succ(x) == LET z == {i \in 1..Len(x) : \A j \in 1..i : x[j] = Limb - 1}     \* the limbs that wrap around
               k == Cardinality(z) + 1
           IN [i \in 1..Len(x) |-> IF i < k THEN 0 ELSE IF i = k THEN x[i] + 1 ELSE x[i]]
Pred(x) == LET z == {i \in 1..Len(x) : \A j \in 1..i : x[j] = 0}
               k == Cardinality(z) + 1
           IN [i \in 1..Len(x) |-> IF i < k THEN Limb - 1 ELSE IF i = k THEN x[i] - 1 ELSE x[i]]
RECURSIVE Add(_, _)                    \* x + n for a small integer n
Add(x, n) == IF x = <<>> THEN <<>>
             ELSE LET s == x[1] + n IN <<s % Limb>> \o Add(Tail(x), s \div Limb)   \* \div and % round down
Apply(x, f, c, v) == CASE f = "Inc" -> [x |-> Succ(x), r |-> Succ(x)]
                       [] f = "Dec" -> [x |-> Pred(x), r |-> Pred(x)]
                       [] f = "Cas" -> [x |-> IF x = c THEN v ELSE x, r |-> x]

(* ---- concurrent histories: some order of effects, consistent with real time, explains all results ---- *)
Idle == [k |-> "idle", f |-> "", c |-> <<>>, v |-> <<>>, r |-> <<>>]
Effect(g, t) == LET p == g.p[t] a == Apply(g.x, p.f, p.c, p.v) IN [x |-> a.x, p |-> [g.p EXCEPT ![t] = [p EXCEPT !.k = "done", !.r = a.r]]]
Called(g) == {t \in Threads : g.p[t].k = "called"}
RECURSIVE Closure(_, _)
Closure(done, todo) ==
    IF todo = {} THEN done
    ELSE LET new == UNION {{Effect(g, t) : t \in Called(g)} : g \in todo} IN Closure(done \cup todo, new \ (done \cup todo))
Event(C, e) ==
    IF e.inv THEN Closure({}, {[g EXCEPT !.p[e.t] = [k |-> "called", f |-> e.f, c |-> e.c, v |-> e.v, r |-> <<>>]] : g \in C})
    ELSE {[g EXCEPT !.p[e.t] = Idle] : g \in {g \in C : g.p[e.t].k = "done" /\ g.p[e.t].r = e.r}}
RECURSIVE Explains(_, _, _)
Explains(C, log, k) == IF k > Len(log) \/ C = {} THEN C ELSE Explains(Event(C, log[k]), log, k + 1)
Final(x, log) == {g.x : g \in {g \in Explains({[x |-> x, p |-> [t \in Threads |-> Idle]]}, log, 1) : \A t \in Threads : g.p[t] = Idle}}

Out(S, r) == [S |-> S, r |-> r]
Results(S, o) ==
    LET x == Of(S, o.w) IN
    CASE o.op \in {"Store"} -> {Out(To(S, o.w, o.v), o.v)}
      [] o.op \in {"Inc", "Dec"} -> IF x = <<>> THEN {} ELSE LET a == Apply(x, o.op, <<>>, <<>>) IN {Out(To(S, o.w, a.x), a.r)}
      [] o.op = "Cas" -> IF x = <<>> THEN {} ELSE LET a == Apply(x, "Cas", o.c, o.v) IN {Out(To(S, o.w, a.x), a.r)}
      [] o.op = "Race" -> {Out(To(S, o.w, y), y) : y \in Final(o.v, o.log)}
      [] o.op = "Count" -> LET y == Add(o.v, o.n * o.threads) IN {Out(To(S, o.w, y), y)}
      [] o.op = "Mixed" -> LET y == Add(o.v, o.up - o.down) IN {Out(To(S, o.w, y), y)}
      [] o.op = "Lock" -> LET y == [i \in 1..Len(o.v) |-> 0] IN {Out(To(S, o.w, y), y)}

Matches(e, S, r) ==
    /\ e.r = r.r
    /\ e.now = Of(r.S, e.w)
    /\ e.intact
    \* no value is given out twice, and each thread sees them grow
    /\ (e.op = "Count") =>
         /\ Len(e.rets) = e.threads
         /\ UNION {Elems(e.rets[t]) : t \in 1..Len(e.rets)} = 1..(e.n * e.threads)
         /\ \A t \in 1..Len(e.rets) : Len(e.rets[t]) = e.n /\ \A i \in 1..(e.n - 1) : e.rets[t][i] < e.rets[t][i + 1]
    /\ (e.op = "Lock") => e.plain = e.n * e.threads

(* ---- laws ---- *)
TypeOK(S) == \A w \in Widths : LET x == Of(S, w) IN Len(x) \in {0, 2, 4} /\ \A i \in 1..Len(x) : x[i] \in 0..(Limb - 1)
Laws(S, o, r) == LET x == Of(S, o.w) y == Of(r.S, o.w) IN
    /\ \A w \in Widths \ {o.w} : Of(r.S, w) = Of(S, w)
    /\ (o.op = "Inc") => r.r = y /\ Pred(y) = x /\ y = Add(x, 1) /\ y # x
    /\ (o.op = "Dec") => r.r = y /\ Succ(y) = x /\ y = Add(x, -1) /\ y # x
    /\ (o.op = "Cas") => r.r = x /\ y = (IF x = o.c THEN o.v ELSE x)
=============================================================================
