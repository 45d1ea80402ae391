------------------------------- MODULE Common -------------------------------
(* Shared definitions of all zycore specifications.                          *)
EXTENDS Integers, Sequences, FiniteSets

(* A result value that the specification leaves open. *)
ANY == -1000

(* Sizes at or above this bound cannot be satisfied by any allocator. The     *)
(* drivers write sizes near the top of the size type as 10^9 - distance (and  *)
(* other huge sizes as 7*10^8 .. 9*10^8).                                      *)
HUGE == 1000000
IsHuge(n) == n >= HUGE

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

Has(r, f) == f \in DOMAIN r

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Elems(s) == {s[i] : i \in 1..Len(s)}
SameBag(s, t) == Len(s) = Len(t) /\ (s = t \/ \A x \in Elems(s) \cup Elems(t) : Count(s, x) = Count(t, x))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rep(n, x) == [i \in 1..n |-> x]

(* Sub-sequence by zero-based offset and length. *)
Mid(s, off, n) == SubSeq(s, off + 1, off + n)
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
InsertAt(s, off, t) == Take(s, off) \o t \o Drop(s, off)
RemoveAt(s, off, n) == Take(s, off) \o Drop(s, off + n)
(* The object allocates with an allocator that was passed explicitly (cu), or  *)
(* with the default one.                                                       *)
Custom(o) == o.op \in {"InitEx", "DupEx", "ConcatEx", "ParseEx"}
=============================================================================
