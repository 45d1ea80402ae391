-------------------------------- MODULE Types ----------------------------------
(* The fundamental types, their limits and constants (Types.h), bit fields    *)
(* (Defines.h) and the magnitude of a signed number (Format.h).               *)
(* Machine words are sequences of bytes, least significant first.             *)
EXTENDS Helpers

\* name -> size in bytes (0: that of a pointer) and signedness
Table == [U8 |-> <<1, FALSE>>, U16 |-> <<2, FALSE>>, U32 |-> <<4, FALSE>>, U64 |-> <<8, FALSE>>,
          I8 |-> <<1, TRUE>>, I16 |-> <<2, TRUE>>, I32 |-> <<4, TRUE>>, I64 |-> <<8, TRUE>>,
          USize |-> <<0, FALSE>>, ISize |-> <<0, TRUE>>, UPointer |-> <<0, FALSE>>, IPointer |-> <<0, TRUE>>,
          Bool |-> <<1, FALSE>>, Ternary |-> <<1, TRUE>>, Status |-> <<4, FALSE>>]
TypeNames == DOMAIN Table
Width(n, ptr) == IF Table[n][1] = 0 THEN ptr ELSE Table[n][1]
Signed(n) == Table[n][2]
Limited == {"U8", "U16", "U32", "U64", "I8", "I16", "I32", "I64"}
Ones(n) == [i \in 1..n |-> 255]
\* x truncated to w bytes and extended to 8 again
Conv(x, w, sg) == [i \in 1..8 |-> IF i <= w THEN x[i] ELSE IF sg /\ x[w] >= 128 THEN 255 ELSE 0]
MaxOf(n) == [i \in 1..8 |-> IF i < Width(n, 8) THEN 255 ELSE IF i = Width(n, 8) THEN (IF Signed(n) THEN 127 ELSE 255) ELSE 0]
MinOf(n) == IF Signed(n) THEN Inv(MaxOf(n)) ELSE Zero(8)
Constants == [FALSE |-> Zero(8), TRUE |-> One(8), TERNARY_FALSE |-> Ones(8), TERNARY_UNKNOWN |-> Zero(8), TERNARY_TRUE |-> One(8), NULL |-> Zero(8)]
FieldWidths == {1, 3, 7, 12, 21}

Answers(S, o) == {Out(
    CASE o.op = "Type" -> [w |-> Width(o.n, o.ptr), sg |-> Signed(o.n)]
      [] o.op = "Limit" -> [hi |-> MaxOf(o.n), lo |-> MinOf(o.n)]
      [] o.op = "Const" -> [x |-> Constants[o.n]]
      \* what a variable of the type holds after an assignment of the 64-bit value a
      [] o.op = "Store" -> [x |-> Conv(o.a, Width(o.n, o.ptr), Signed(o.n))]
      [] o.op = "Pointer" -> [x |-> o.a]
      [] o.op = "Bits" -> [x |-> FromBits(8, {k \in Bits(o.a) : k < o.k}), rest |-> TRUE]
      [] o.op = "Magnitude" -> [x |-> IF Neg(o.a) THEN Minus(o.a) ELSE o.a]
      [] OTHER -> [none |-> TRUE])}
Fits(e, S, r) == \A f \in DOMAIN r.r : e[f] = r.r[f]

(* ---- laws ---- *)
TypeLaws(S, o, r) ==
    /\ (o.op = "Limit") => /\ Lt(r.r.lo, r.r.hi, Signed(o.n))
                           \* the next number on both sides does not fit
                           /\ Conv(r.r.hi, Width(o.n, 8), Signed(o.n)) = r.r.hi /\ Conv(r.r.lo, Width(o.n, 8), Signed(o.n)) = r.r.lo
                           /\ Conv(Add(r.r.hi, One(8)), Width(o.n, 8), Signed(o.n)) = r.r.lo
    /\ (o.op = "Store") => Conv(r.r.x, Width(o.n, o.ptr), Signed(o.n)) = r.r.x
    /\ (o.op = "Magnitude") => (o.a # Power(8, 63) => ~Neg(r.r.x)) /\ (r.r.x = o.a \/ Add(r.r.x, o.a) = Zero(8))
    /\ (o.op = "Bits") => \A k \in Bits(r.r.x) : k < o.k
ConstLaws == Constants.TRUE # Constants.FALSE /\ Cardinality({Constants.TERNARY_FALSE, Constants.TERNARY_UNKNOWN, Constants.TERNARY_TRUE}) = 3
=============================================================================
