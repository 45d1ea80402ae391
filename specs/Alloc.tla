------------------------------- MODULE Alloc --------------------------------
(* The default memory allocator (ZyanAllocatorDefault) and the construction of *)
(* allocators (ZyanAllocatorInit).                                             *)
(*                                                                             *)
(* A slot is an empty one or a block of n elements of es bytes whose first fl  *)
(* bytes still hold what was written into the block last.                      *)
EXTENDS Common

Slots == 1..3
Free == [es |-> 0, n |-> 0, fl |-> 0]
Start == [i \in Slots |-> Free]
Live(S, s) == S[s].es # 0
Size(b) == b.es * b.n
(* es * n does not fit into the size type or into any memory; the products of  *)
(* the factors below HUGE stay below the drivers' limit.                       *)
Unsatisfiable(es, n) == IsHuge(es) \/ IsHuge(n)

Out(S, st) == [S |-> S, st |-> st]
NOMEM(S) == Out(S, "NOT_ENOUGH_MEMORY")
Ready(S, o) ==
    CASE o.op = "Alloc" -> ~Live(S, o.s)
      [] o.op \in {"Realloc", "Dealloc", "Fill"} -> Live(S, o.s)
      [] OTHER -> TRUE

(* A block may become one of elements of another size (es).                    *)
(* An allocation may be refused if the C library refuses memory (f # 0). It is *)
(* refused if the size is unsatisfiable.                                       *)
Results(S, o) ==
    IF ~Ready(S, o) THEN {} ELSE
    CASE o.op = "Alloc" ->
           IF Unsatisfiable(o.es, o.n) THEN {NOMEM(S)}
           ELSE (IF o.f # 0 THEN {NOMEM(S)} ELSE {}) \cup {Out([S EXCEPT ![o.s] = [es |-> o.es, n |-> o.n, fl |-> 0]], "SUCCESS")}
      [] o.op = "Realloc" ->
           IF Unsatisfiable(o.es, o.n) THEN {NOMEM(S)}
           ELSE (IF o.f # 0 THEN {NOMEM(S)} ELSE {}) \cup
                {Out([S EXCEPT ![o.s] = [es |-> o.es, n |-> o.n, fl |-> Min2(@.fl, o.es * o.n)]], "SUCCESS")}
      [] o.op = "Dealloc" -> {Out([S EXCEPT ![o.s] = Free], "SUCCESS")}
      [] o.op = "Fill" -> {Out([S EXCEPT ![o.s].fl = Size(S[o.s])], "SUCCESS")}
      [] o.op = "Default" -> {Out(S, "SUCCESS")}
      [] o.op = "AInit" -> {Out(S, IF o.m = 0 THEN "SUCCESS" ELSE "INVALID_ARGUMENT")}

RECURSIVE Total(_, _)
Total(S, s) == IF s = 0 THEN 0 ELSE Size(S[s]) + Total(S, s - 1)
Matches(e, S, r) ==
    /\ e.st = r.st
    /\ (Has(e, "f") /\ e.op \in {"Alloc", "Realloc"} /\ ~Unsatisfiable(e.es, e.n)) => (e.oom <=> r.st # "SUCCESS")
    \* the blocks are intact: distinct, complete, with their contents
    /\ \A s \in Slots : IF Live(r.S, s) THEN e.pre[s] >= r.S[s].fl ELSE e.pre[s] = -1
    /\ e.al                                            \* usable for every type
    /\ e.blk = Cardinality({s \in Slots : Live(r.S, s)})
    /\ e.own >= Total(r.S, 3) /\ e.bad = 0
    /\ (e.op = "Realloc" /\ r.st # "SUCCESS") => e.keep  \* the pointer as well
    /\ (e.op = "Default") => e.same
    /\ (e.op = "AInit" /\ e.m = 0) => e.calls = <<1, 2, 3>>

(* ---- laws ---- *)
TypeOK(S) == \A s \in Slots : S[s].fl <= Size(S[s]) /\ (S[s].es = 0 <=> S[s].n = 0)
Laws(S, o, r) ==
    /\ r.st # "SUCCESS" => r.S = S
    /\ \A s \in Slots : r.S[s] # S[s] => o.s = s       \* no other block is touched
    /\ (o.op = "Realloc" /\ r.st = "SUCCESS") => Size(r.S[o.s]) = o.es * o.n /\ r.S[o.s].fl <= S[o.s].fl
=============================================================================
