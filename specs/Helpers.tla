------------------------------ MODULE Helpers --------------------------------
(* Status codes, comparison functions, arithmetic macros and version numbers  *)
(* (include/Zycore/Status.h, Comparison.h, Defines.h, Zycore.h).              *)
(*                                                                            *)
(* Nothing here has a state: a call is an operation whose result is a         *)
(* function of its arguments. Machine words are sequences of bytes, least     *)
(* significant first, because the numbers of TLC have 32 bits.                *)
EXTENDS Common

Start == 0
B == 256

(* ---- arithmetic on byte sequences ---- *)
Zero(n) == [i \in 1..n |-> 0]
Neg(x) == x[Len(x)] >= 128                                   \* sign bit
RECURSIVE Less(_, _)                                         \* unsigned x < y, equal lengths
Less(x, y) == IF x = <<>> THEN FALSE
              ELSE LET n == Len(x) IN IF x[n] # y[n] THEN x[n] < y[n] ELSE Less(SubSeq(x, 1, n - 1), SubSeq(y, 1, n - 1))
Flip(x) == [x EXCEPT ![Len(x)] = (@ + 128) % B]              \* order of signed numbers as order of unsigned ones
Lt(x, y, signed) == IF signed THEN Less(Flip(x), Flip(y)) ELSE Less(x, y)
RECURSIVE AddC(_, _, _)
AddC(x, y, c) == IF x = <<>> THEN <<>>
                 ELSE LET s == x[1] + y[1] + c IN <<s % B>> \o AddC(Tail(x), Tail(y), s \div B)
Add(x, y) == AddC(x, y, 0)
Inv(x) == [i \in 1..Len(x) |-> 255 - x[i]]
One(n) == [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]
Minus(x) == Add(Inv(x), One(Len(x)))
Sub(x, y) == Add(x, Minus(y))
\* bit k (from 0)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Bit(x, k) == (x[k \div 8 + 1] \div Pow2(k % 8)) % 2
Bits(x) == {k \in 0..(8 * Len(x) - 1) : Bit(x, k) = 1}
FromBits(n, s) == [i \in 1..n |-> LET b == {k \in s : k \div 8 + 1 = i} IN
                     (IF 8 * (i - 1) \in b THEN 1 ELSE 0) + (IF 8 * (i - 1) + 1 \in b THEN 2 ELSE 0) + (IF 8 * (i - 1) + 2 \in b THEN 4 ELSE 0)
                     + (IF 8 * (i - 1) + 3 \in b THEN 8 ELSE 0) + (IF 8 * (i - 1) + 4 \in b THEN 16 ELSE 0) + (IF 8 * (i - 1) + 5 \in b THEN 32 ELSE 0)
                     + (IF 8 * (i - 1) + 6 \in b THEN 64 ELSE 0) + (IF 8 * (i - 1) + 7 \in b THEN 128 ELSE 0)]
Field(x, n, from, len) == FromBits(n, {k - from : k \in {k \in Bits(x) : k >= from /\ k < from + len}})
RECURSIVE DivR(_, _, _)                                      \* long division by a small number, most significant byte first
DivR(x, d, rem) == IF x = <<>> THEN <<>>
                   ELSE LET n == Len(x) v == rem * B + x[n] IN DivR(SubSeq(x, 1, n - 1), d, v % d) \o <<v \div d>>
Div(x, d) == DivR(x, d, 0)
Low(x, e) == {k \in Bits(x) : k < e}                         \* the part below 2^e
Down(x, e) == FromBits(Len(x), Bits(x) \ Low(x, e))
Power(n, e) == FromBits(n, {e})

(* ---- status codes ---- *)
\* every predefined code: does it signal an error, which module does it belong to
Generic == {"SUCCESS", "FAILED", "TRUE", "FALSE", "INVALID_ARGUMENT", "INVALID_OPERATION", "ACCESS_DENIED", "NOT_FOUND", "OUT_OF_RANGE",
            "INSUFFICIENT_BUFFER_SIZE", "NOT_ENOUGH_MEMORY", "BAD_SYSTEMCALL", "OUT_OF_RESOURCES", "MISSING_DEPENDENCY"}
ArgCodes == {"ARG_NOT_UNDERSTOOD", "TOO_FEW_ARGS", "TOO_MANY_ARGS", "ARG_MISSES_VALUE", "REQUIRED_ARG_MISSING"}
Good == {"SUCCESS", "TRUE", "FALSE"}
Names == Generic \cup ArgCodes
Status(err, mod, code) == FromBits(4, {k \in Bits(code) : k < 20} \cup {k + 20 : k \in {k \in Bits(mod) : k < 11}} \cup (IF Bit(err, 0) = 1 THEN {31} ELSE {}))

Order(x, y, signed) == IF x = y THEN 0 ELSE IF Lt(x, y, signed) THEN -1 ELSE 1
Out(r) == [S |-> 0, r |-> r]
Results(S, o) == {Out(
    CASE o.op = "Make" -> LET s == Status(o.e, o.m, o.c) IN [rs |-> s, ok |-> Bit(o.e, 0) = 0, bad |-> Bit(o.e, 0) = 1, rm |-> Field(o.m, 4, 0, 11), rc |-> Field(o.c, 4, 0, 20)]
      [] o.op = "Split" -> [ok |-> ~Neg(o.s), bad |-> Neg(o.s), rm |-> Field(o.s, 4, 20, 11), rc |-> Field(o.s, 4, 0, 20)]
      \* the caller of ZYAN_CHECK goes on after a success and returns the very code after a failure
      [] o.op = "Check" -> [rs |-> IF Neg(o.s) THEN o.s ELSE FromBits(4, {20, 0, 1, 3, 31}), times |-> 1, went |-> IF Neg(o.s) THEN 0 ELSE 1]
      [] o.op = "Compare" -> [cmp |-> Order(o.a, o.b, o.sg), eq |-> o.a = o.b]
      [] o.op = "Min" -> [x |-> IF Lt(o.b, o.a, o.sg) THEN o.b ELSE o.a]
      [] o.op = "Max" -> [x |-> IF Lt(o.a, o.b, o.sg) THEN o.b ELSE o.a]
      [] o.op = "Abs" -> [x |-> IF Neg(o.a) THEN Minus(o.a) ELSE o.a]
      [] o.op = "Pow2" -> [t |-> Cardinality(Bits(o.a)) <= 1]
      [] o.op = "Aligned" -> [t |-> Low(o.a, o.al) = {}]
      [] o.op = "Down" -> [x |-> Down(o.a, o.al)]
      [] o.op = "Up" -> [x |-> IF Low(o.a, o.al) = {} THEN o.a ELSE Add(Down(o.a, o.al), Power(Len(o.a), o.al))]
      [] o.op = "Div" -> [x |-> Div(o.a, o.d)]
      [] o.op = "NeedsBit" -> [t |-> \E k \in Bits(o.a) : k >= o.k]
      [] o.op = "BitsTo" -> [n |-> IF Bits(o.a) = {} THEN 0 ELSE 1 + CHOOSE k \in Bits(o.a) : \A j \in Bits(o.a) : j <= k]
      [] o.op = "Version" -> [x |-> <<Field(o.a, 2, 48, 16), Field(o.a, 2, 32, 16), Field(o.a, 2, 16, 16), Field(o.a, 2, 0, 16)>>]
      [] o.op = "Arrays" -> [x |-> <<1, 1, 3, 7, 13, 64, 5>>]
      [] OTHER -> [none |-> TRUE])}

(* ---- what was seen ---- *)
\* the codes are distinct, and their classes are right
CodesOK(e) ==
    /\ {c.n : c \in Elems(e.codes)} = Names /\ Len(e.codes) = Cardinality(Names)
    /\ \A i, j \in 1..Len(e.codes) : i # j => e.codes[i].s # e.codes[j].s
    /\ \A c \in Elems(e.codes) : /\ Neg(c.s) <=> c.n \notin Good
                                 /\ Field(c.s, 4, 20, 11) = IF c.n \in Generic THEN e.zycore ELSE e.argparse
    /\ e.zycore # e.argparse /\ Less(e.zycore, e.user) /\ Less(e.argparse, e.user)
Matches(e, S, r) ==
    IF e.op = "Codes" THEN CodesOK(e)
    ELSE IF e.op = "Release" THEN e.lib = e.hdr
    ELSE \A f \in DOMAIN r.r : e[f] = r.r[f]

(* ---- laws ---- *)
TypeOK(S) == S = 0
LE(x, y, signed) == x = y \/ Lt(x, y, signed)
Laws(S, o, r) ==
    /\ (o.op = "Make") => LET q == CHOOSE q \in Results(S, [op |-> "Split", s |-> r.r.rs]) : TRUE IN
         q.r.rm = r.r.rm /\ q.r.rc = r.r.rc /\ q.r.ok = r.r.ok /\ q.r.ok # q.r.bad
    /\ (o.op = "Split") => r.r.ok # r.r.bad
    /\ (o.op = "Compare") => LET q == CHOOSE q \in Results(S, [o EXCEPT !.a = o.b, !.b = o.a]) : TRUE IN
         r.r.cmp = -q.r.cmp /\ ((r.r.cmp = 0) <=> r.r.eq) /\ (r.r.eq <=> q.r.eq)
    /\ (o.op = "Min") => r.r.x \in {o.a, o.b} /\ LE(r.r.x, o.a, o.sg) /\ LE(r.r.x, o.b, o.sg)
    /\ (o.op = "Max") => r.r.x \in {o.a, o.b} /\ LE(o.a, r.r.x, o.sg) /\ LE(o.b, r.r.x, o.sg)
    /\ (o.op = "Abs") => ~Neg(r.r.x) /\ r.r.x \in {o.a, Minus(o.a)}
    /\ (o.op = "Down") => Low(r.r.x, o.al) = {} /\ LE(r.r.x, o.a, FALSE) /\ Less(Sub(o.a, r.r.x), Power(Len(o.a), o.al))
    /\ (o.op = "Up") => Low(r.r.x, o.al) = {} /\ LE(o.a, r.r.x, FALSE) /\ Less(Sub(r.r.x, o.a), Power(Len(o.a), o.al))
    /\ (o.op = "BitsTo") => \A k \in 0..31 : (\E j \in Bits(o.a) : j >= k) <=> k < r.r.n
=============================================================================
