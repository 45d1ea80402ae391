------------------------------- MODULE MCLibc -------------------------------
EXTENDS Libc, TLC, Json
CONSTANTS MaxLen, Alpha, Kind, Emit
VARIABLES S, last
RECURSIVE Upto(_)
Upto(n) == IF n = 0 THEN {<<>>} ELSE LET x == Upto(n - 1) IN x \cup {Append(s, a) : s \in {s \in x : Len(s) = n - 1}, a \in Alpha}
T == Upto(MaxLen)
Raw == {[i \in 1..n |-> i] : n \in 0..5}
Chars == {0, 1, 98, 200, 256 + 98, -56}
Ops == CASE Kind = "mem" ->
              {[op |-> "MemChr", a |-> a, c |-> c, n |-> n] : a \in T \cup {<<0, 98, 0, 200>>}, c \in Chars, n \in 0..MaxLen}
              \cup {[op |-> "MemCmp", a |-> a, b |-> b, n |-> n] : a \in T, b \in T, n \in 0..MaxLen}
              \cup {[op |-> "MemCpy", a |-> a, b |-> b, n |-> n] : a \in Raw, b \in Raw \cup {<<9, 0, 8>>}, n \in 0..5}
              \cup {[op |-> "MemMove", a |-> a, d |-> d, s |-> s, n |-> n] : a \in Raw, d \in 0..5, s \in 0..5, n \in 0..5}
              \cup {[op |-> "MemSet", a |-> a, d |-> d, c |-> c, n |-> n] : a \in Raw, d \in 0..5, c \in Chars, n \in 0..5}
        [] Kind = "str" ->
              {[op |-> op, a |-> a, b |-> b] : op \in {"StrCat", "StrCmp", "StrColl", "StrSpn", "StrCSpn", "StrPBrk", "StrStr"}, a \in T, b \in T}
              \cup {[op |-> op, a |-> a, c |-> c] : op \in {"StrChr", "StrRChr"}, a \in T, c \in Chars}
              \cup {[op |-> op, a |-> a] : op \in {"StrLen", "Va"}, a \in T}
              \cup {[op |-> "StrCpy", b |-> b] : b \in T}
              \cup {[op |-> "StrXfrm", b |-> b, n |-> n] : b \in T, n \in 0..(MaxLen + 2)}
              \cup {[op |-> "Types", w |-> w] : w \in {8, 16, 32, 64}}
        [] Kind = "strn" ->
              {[op |-> op, a |-> a, b |-> b, n |-> n, z |-> z] : op \in {"StrNCmp", "StrNCat"}, a \in T, b \in T, n \in 0..(MaxLen + 1), z \in {0, 1}}
              \cup {[op |-> "StrNCpy", b |-> b, n |-> n, z |-> z] : b \in T, n \in 0..(MaxLen + 2), z \in {0, 1}}
        [] Kind = "tok" ->
              {[op |-> "Tok", a |-> a, b |-> b] : a \in Upto(MaxLen), b \in {<<>>, <<98>>, <<200, 98>>}}
              \cup {[op |-> "TokNext", b |-> b] : b \in {<<>>, <<98>>, <<200>>, <<98, 200>>}}
Fits(o) == CASE o.op \in {"MemChr"} -> o.n <= Len(o.a)
             [] o.op \in {"MemCmp", "MemCpy"} -> o.n <= Len(o.a) /\ o.n <= Len(o.b)
             [] o.op = "MemMove" -> o.d + o.n <= Len(o.a) /\ o.s + o.n <= Len(o.a)
             [] o.op = "MemSet" -> o.d + o.n <= Len(o.a)
             [] OTHER -> TRUE
Init == S = Start /\ last = [none |-> TRUE]
Next == \E o \in {o \in Ops : Fits(o)} : \E r \in Results(S, o) :
    /\ S' = r.S /\ last' = [o |-> o, r |-> r]
    /\ Emit => PrintT(ToJson([k |-> "E", s |-> S, o |-> o, t |-> r.S, n |-> 1]))
Spec == Init /\ [][Next]_<<S, last>>
View == S
Lawful == [][Laws(S, last'.o, last'.r)]_<<S, last>>
TypeInv == TypeOK(S)
=============================================================================
