----------------------------- MODULE MCHelpers ------------------------------
EXTENDS Helpers, TLC, Json
CONSTANTS Kind, Fine, Emit
VARIABLES S, last
\* interesting words of n bytes: around zero, powers of two, the sign bit, and mixed bytes
W(n) == LET m == [i \in 1..n |-> 255]
            h == {k \in {0, 1, 7, 8, 15, 16, 31, 32, 63} : k < 8 * n}
            p == {Power(n, k) : k \in IF Fine THEN 0..(8 * n - 1) ELSE h}
        IN {Zero(n), m, Sub(m, One(n))} \cup p \cup {Sub(x, One(n)) : x \in p} \cup {Add(x, One(n)) : x \in p} \cup {Minus(x) : x \in p}
           \cup {[i \in 1..n |-> i], [i \in 1..n |-> 250 - i], [i \in 1..n |-> IF i % 2 = 0 THEN 128 ELSE 127]}
Types == {[w |-> 1, sg |-> FALSE], [w |-> 2, sg |-> FALSE], [w |-> 4, sg |-> FALSE], [w |-> 8, sg |-> FALSE],
          [w |-> 1, sg |-> TRUE], [w |-> 2, sg |-> TRUE], [w |-> 4, sg |-> TRUE], [w |-> 8, sg |-> TRUE]}
Forms == {"own", "field", "std"}
Overflows(a, al) == Low(a, al) # {} /\ Bits(Down(a, al)) = {k \in 0..(8 * Len(a) - 1) : k >= al}
Ops == CASE Kind = "status" ->
              {[op |-> "Make", e |-> e, m |-> m, c |-> c] : e \in {Zero(4), One(4), Power(4, 1), <<255, 255, 255, 255>>}, m \in W(4), c \in W(4)}
              \cup {[op |-> op, s |-> s] : op \in {"Split", "Check"}, s \in W(4)}
              \cup {[op |-> op] : op \in {"Codes", "Release", "Arrays"}}
              \cup {[op |-> "Version", a |-> a] : a \in W(8)}
         [] Kind = "compare" ->
              UNION {{[op |-> "Compare", w |-> t.w, sg |-> t.sg, form |-> f, a |-> a, b |-> b] : a \in W(t.w), b \in W(t.w), f \in {f \in Forms : f = "std" => ~t.sg}} : t \in Types}
              \cup {[op |-> "Compare", w |-> 8, sg |-> FALSE, form |-> "ptr", a |-> a, b |-> b] : a \in W(8), b \in W(8)}
              \cup {[op |-> "Compare", w |-> 1, sg |-> FALSE, form |-> "bool", a |-> a, b |-> b] : a \in {<<0>>, <<1>>}, b \in {<<0>>, <<1>>}}
         [] Kind = "arith" ->
              UNION {{[op |-> op, w |-> t.w, sg |-> t.sg, a |-> a, b |-> b] : op \in {"Min", "Max"}, a \in W(t.w), b \in W(t.w)} : t \in {t \in Types : t.w >= 4}}
              \cup UNION {{[op |-> "Abs", w |-> w, a |-> a] : a \in {a \in W(w) : a # Power(w, 8 * w - 1)}} : w \in {1, 2, 4, 8}}
              \cup UNION {{[op |-> "Pow2", w |-> w, a |-> a] : a \in W(w)} : w \in {1, 2, 4, 8}}
              \cup UNION {{[op |-> op, w |-> w, a |-> a, al |-> al] : op \in {"Aligned", "Down"}, a \in W(w), al \in 0..(8 * w - 1)} : w \in {4, 8}}
              \cup UNION {UNION {{[op |-> "Up", w |-> w, a |-> a, al |-> al] : a \in {a \in W(w) : ~Overflows(a, al)}} : al \in 0..(8 * w - 1)} : w \in {4, 8}}
              \cup {[op |-> "Div", a |-> a, d |-> d] : a \in W(8), d \in {1, 2, 3, 10, 100, 255, 256, 65536, 8388607}}
              \cup {[op |-> "NeedsBit", a |-> a, k |-> k] : a \in W(4), k \in 0..31}
              \cup {[op |-> "BitsTo", a |-> a] : a \in W(4)}
Init == S = Start /\ last = [none |-> TRUE]
Next == \E o \in Ops : \E r \in Results(S, o) :
    /\ S' = r.S /\ last' = [o |-> o, r |-> r]
    /\ Emit => PrintT(ToJson([k |-> "E", s |-> S, o |-> o, t |-> r.S, n |-> 1]))
Spec == Init /\ [][Next]_<<S, last>>
View == S
Lawful == [][Laws(S, last'.o, last'.r)]_<<S, last>>
\* order and arithmetic of bytes agree with the integers, where these are large enough
Value(x) == x[1] + B * x[2]
Sane == LET w == {<<a, b>> : a \in {0, 1, 2, 127, 128, 200, 255}, b \in {0, 1, 127, 128, 255}} IN
        \A x, y \in w : /\ Less(x, y) <=> Value(x) < Value(y)
                        /\ Value(Add(x, y)) = (Value(x) + Value(y)) % 65536
                        /\ Value(Sub(x, y)) = (Value(x) - Value(y)) % 65536
                        /\ FromBits(2, Bits(x)) = x
                        /\ \A d \in {1, 3, 10, 300} : Value(Div(x, d)) = Value(x) \div d
TypeInv == TypeOK(S) /\ (last = [none |-> TRUE] => Sane)
=============================================================================
