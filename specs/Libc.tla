-------------------------------- MODULE Libc ---------------------------------
(* The C library routines zycore falls back to (include/Zycore/LibC.h),       *)
(* as the C standard defines them, on sequences of bytes.                     *)
(*                                                                            *)
(* Texts do not contain 0; the terminator is not part of them. The only state *)
(* is the one of the tokenizer: its text and the rest still to be looked at.  *)
EXTENDS Common

NONE == -1
Start == [buf |-> <<>>, pos |-> NONE]           \* pos: zero-based offset, NONE: no text left

First(n, P(_)) == IF \E i \in 1..n : P(i) THEN CHOOSE i \in 1..n : P(i) /\ \A j \in 1..(i - 1) : ~P(j) ELSE 0
Index(a, P(_)) == First(Len(a), LAMBDA i : P(a[i])) - 1         \* zero-based offset of the first element with P
LastIndex(a, P(_)) == LET k == First(Len(a), LAMBDA i : P(a[Len(a) + 1 - i])) IN IF k = 0 THEN NONE ELSE Len(a) - k
Byte(c) == c % 256
Cmp(a, b, n) ==                                 \* compares at most n elements of two terminated texts
    LET m == Min2(n, Min2(Len(a), Len(b)))
        k == First(m, LAMBDA i : a[i] # b[i])
    IN IF k # 0 THEN (IF a[k] < b[k] THEN -1 ELSE 1)
       ELSE IF m = n \/ Len(a) = Len(b) THEN 0 ELSE IF Len(a) < Len(b) THEN -1 ELSE 1
Span(a, set, in) ==                             \* length of the initial part inside (or outside) of a set
    LET k == First(Len(a), LAMBDA i : (a[i] \in set) # in) IN IF k = 0 THEN Len(a) ELSE k - 1
Overlay(a, off, b) == [i \in 1..Len(a) |-> IF i > off /\ i <= off + Len(b) THEN b[i - off] ELSE a[i]]
Found(a, b) == First(Len(a) - Len(b) + 1, LAMBDA i : \A k \in 1..Len(b) : a[i + k - 1] = b[k]) - 1
Term(a) == Append(a, 0)
Untouched(n) == Rep(n, 238)
Min(a, b) == Min2(a, b)

Out(S, r, out) == [S |-> S, r |-> r, out |-> out]

(* One step of the tokenizer over the text from offset p on (the text ends at the first 0). *)
TextFrom(buf, p) == LET t == Drop(buf, p) z == Index(t, LAMBDA x : x = 0) IN Take(t, z)
Token(S, buf, p, set) ==
    LET t == TextFrom(buf, p)
        skip == Span(t, set, TRUE)
        n == Span(Drop(t, skip), set, FALSE)
        from == p + skip
        to == from + n                          \* offset of the character after the token
    IN IF n = 0 THEN Out([buf |-> buf, pos |-> NONE], NONE, buf)
       ELSE IF buf[to + 1] = 0 THEN Out([buf |-> buf, pos |-> NONE], from, buf)
       ELSE LET b == [buf EXCEPT ![to + 1] = 0] IN Out([buf |-> b, pos |-> to + 1], from, b)

Ready(S, o) ==
    CASE o.op \in {"MemChr", "MemSet"} -> TRUE
      [] o.op = "TokNext" -> S.buf # <<>>
      [] o.op \in {"StrNCat", "StrNCpy"} -> o.z = 1 \/ Len(o.b) >= o.n
      [] o.op = "StrNCmp" -> o.z = 1 \/ (Len(o.a) >= o.n /\ Len(o.b) >= o.n)
      [] OTHER -> TRUE

Results(S, o) ==
    IF ~Ready(S, o) THEN {} ELSE
    CASE o.op = "MemChr" -> {Out(S, Index(Take(o.a, o.n), LAMBDA x : x = Byte(o.c)), <<>>)}
      [] o.op = "MemCmp" -> {Out(S, Cmp(Take(o.a, o.n), Take(o.b, o.n), o.n), <<>>)}
      [] o.op = "MemCpy" -> {Out(S, 0, Overlay(o.a, 0, Take(o.b, o.n)))}
      [] o.op = "MemMove" -> {Out(S, o.d, Overlay(o.a, o.d, Mid(o.a, o.s, o.n)))}
      [] o.op = "MemSet" -> {Out(S, o.d, Overlay(o.a, o.d, Rep(o.n, Byte(o.c))))}
      [] o.op = "StrCat" -> {Out(S, 0, Term(o.a \o o.b))}
      [] o.op = "StrNCat" -> {Out(S, 0, Term(o.a \o Take(o.b, Min(o.n, Len(o.b)))))}
      [] o.op = "StrCpy" -> {Out(S, 0, Term(o.b))}
      [] o.op = "StrNCpy" -> {Out(S, 0, IF Len(o.b) >= o.n THEN Take(o.b, o.n) ELSE o.b \o Rep(o.n - Len(o.b), 0))}
      [] o.op = "StrXfrm" -> {Out(S, Len(o.b), IF Len(o.b) < o.n THEN Term(o.b) \o Untouched(o.n - Len(o.b) - 1) ELSE <<>>)}
      [] o.op = "StrChr" -> {Out(S, Index(Term(o.a), LAMBDA x : x = Byte(o.c)), <<>>)}
      [] o.op = "StrRChr" -> {Out(S, LastIndex(Term(o.a), LAMBDA x : x = Byte(o.c)), <<>>)}
      [] o.op \in {"StrCmp", "StrColl"} -> {Out(S, Cmp(o.a, o.b, Len(o.a) + Len(o.b)), <<>>)}
      [] o.op = "StrNCmp" -> {Out(S, Cmp(o.a, o.b, o.n), <<>>)}
      [] o.op = "StrSpn" -> {Out(S, Span(o.a, Elems(o.b), TRUE), <<>>)}
      [] o.op = "StrCSpn" -> {Out(S, Span(o.a, Elems(o.b), FALSE), <<>>)}
      [] o.op = "StrPBrk" -> {Out(S, Index(o.a, LAMBDA x : x \in Elems(o.b)), <<>>)}
      [] o.op = "StrStr" -> {Out(S, Found(o.a, o.b), <<>>)}
      [] o.op = "StrLen" -> {Out(S, Len(o.a), <<>>)}
      [] o.op = "Tok" -> {Token(S, Term(o.a), 0, Elems(o.b))}
      [] o.op = "TokNext" -> IF S.pos = NONE THEN {Out(S, NONE, S.buf)} ELSE {Token(S, S.buf, S.pos, Elems(o.b))}
      [] o.op = "Va" -> LET a == Take(o.a, Min(6, Len(o.a))) IN {Out(S, IF a = <<>> THEN 0 ELSE 2 * Len(a) - 1, IF a = <<>> THEN <<>> ELSE a \o Tail(a))}
      [] o.op = "Types" -> {Out(S, o.w \div 8, <<>>)}

Matches(e, S, r) ==
    /\ e.r = r.r
    \* what stands behind the terminator of a transformed text is not defined
    /\ Has(e, "out") => (IF e.op = "StrXfrm" THEN Take(e.out, Min(Len(e.out), Len(e.b) + 1)) = Take(r.out, Min(Len(r.out), Len(e.b) + 1)) ELSE e.out = r.out)
    /\ (e.op = "Types") => LET n == e.w \div 8 IN
         /\ e.umax = Rep(n, 255) /\ e.signs
         /\ e.max = [i \in 1..n |-> IF i = n THEN 127 ELSE 255]
         /\ e.min = [i \in 1..n |-> IF i = n THEN 128 ELSE 0]

(* ---- laws: the definitions agree with each other ---- *)
Neg(o) == [o EXCEPT !.a = o.b, !.b = o.a]
One(o) == CHOOSE r \in Results(Start, o) : TRUE
TypeOK(S) == S.pos # NONE => S.pos < Len(S.buf)
Laws(S, o, r) ==
    /\ (o.op \in {"StrCmp", "StrColl", "StrNCmp", "MemCmp"}) => One(Neg(o)).r = -r.r
    /\ (o.op = "StrCmp") => ((r.r = 0) <=> (o.a = o.b))
    /\ (o.op = "StrNCmp") => r.r = One([op |-> "StrCmp", a |-> Take(o.a, Min(o.n, Len(o.a))), b |-> Take(o.b, Min(o.n, Len(o.b)))]).r
    /\ (o.op = "StrStr" /\ r.r # NONE) => Mid(o.a, r.r, Len(o.b)) = o.b
    /\ (o.op = "StrStr" /\ o.b = <<>>) => r.r = 0
    /\ (o.op = "StrCSpn") => LET p == One([op |-> "StrPBrk", a |-> o.a, b |-> o.b]).r IN r.r = (IF p = NONE THEN Len(o.a) ELSE p)
    /\ (o.op = "StrChr") => LET q == One([op |-> "StrRChr", a |-> o.a, c |-> o.c]).r IN (r.r = NONE) <=> (q = NONE) /\ r.r <= q
    /\ (o.op \in {"Tok", "TokNext"} /\ r.r # NONE) =>
         LET t == TextFrom(r.S.buf, r.r) IN t # <<>> /\ Elems(t) \cap Elems(o.b) = {} /\ Len(r.S.buf) = Len(r.out)
    /\ (o.op = "MemMove") => Len(r.out) = Len(o.a) /\ \A i \in 1..Len(o.a) : (i <= o.d \/ i > o.d + o.n) => r.out[i] = o.a[i]
=============================================================================
