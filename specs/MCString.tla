------------------------------ MODULE MCString ------------------------------
(* Bounded model of String. First the views 1..Len(Texts) are created on      *)
(* buffers with every combination of the given texts, then a string by one of *)
(* the given constructors; from there on every operation of the given kinds.  *)
EXTENDS String, TLC, Json
CONSTANTS Kinds, Dst, Cfgs, Texts, Src, Chars, MaxLen, Faults, Invalid, Nums, Pads, Fmts, Emit
VARIABLES S, last

B(op, s) == [op |-> op, s |-> s, oom |-> FALSE, inj |-> FALSE]
With(r, f, v) == [x \in DOMAIN r \cup {f} |-> IF x = f THEN v ELSE r[x]]
I(op, s, i) == With(B(op, s), "i", i)
VW(op, s, v) == With(B(op, s), "v", v)
INn(op, s, i, n) == With(I(op, s, i), "n", n)
Pairs(op, v, w) == With(VW(op, 0, v), "w", w)

Big == {1000000000, 999999999, 900000000}
Pos(len) == (0..len) \cup (IF Invalid THEN {len + 1, len + 2} \cup Big ELSE {})
Idx(len) == (0..(len - 1)) \cup (IF Invalid THEN {len, len + 1} \cup Big ELSE {})
Lens(len, i) == IF i > len THEN {0, 1, 1000000000} ELSE (0..(len - i)) \cup (IF Invalid THEN {len - i + 1} \cup Big ELSE {})
Ranges(len) == UNION {{<<i, n>> : n \in Lens(len, i)} : i \in Pos(len)}
HasZero(t) == \E k \in 1..Len(t) : t[k] = 0

NextView == {k \in 1..Len(Texts) : ~S.vw[k].a}
SetupOps == LET k == CHOOSE k \in NextView : \A m \in NextView : k <= m IN
    {With(With(VW("Buf", 0, k), "xs", t), "term", IF HasZero(t) \/ (t # <<>> /\ Len(t) % 2 = 1) THEN 0 ELSE 1) : t \in Texts[k]}

Views == {v \in {1, 2, 3, 4} : S.vw[v].a} \cup {10 + s : s \in {s \in 1..2 : S.str[s].a}}
CreateOps(s) ==
    {[B(c[1], s) EXCEPT !.s = s] @@ [cap |-> c[2], gf |-> c[3], thr |-> c[4]] : c \in Cfgs}
CopyOps(s) ==
    {VW(op, s, v) @@ [cap |-> c, gf |-> 2, thr |-> 4] : op \in {"Dup", "DupEx"} \cap Kinds, v \in Views, c \in {0, 2}}
    \cup {VW("DupBuf", s, v) @@ [cap |-> Len(TextOf(S, v)) + c, gf |-> 2, thr |-> 4] : v \in IF "DupBuf" \in Kinds THEN Views ELSE {}, c \in {0, 1, 2}}
    \cup {VW(op, s, v) @@ [w |-> w, cap |-> c, gf |-> 2, thr |-> 4] : op \in {"Concat", "ConcatEx"} \cap Kinds, v \in Views, w \in Views, c \in {0, 3}}
    \cup {VW("ConcatBuf", s, v) @@ [w |-> w, cap |-> Len(TextOf(S, v)) + Len(TextOf(S, w)) + c, gf |-> 2, thr |-> 4] :
            v \in IF "ConcatBuf" \in Kinds THEN Views ELSE {}, w \in Views, c \in {0, 1, 2}}
ViewOps ==
    UNION {{Pairs("View", v, w) : v \in Dst} \cup {Pairs("ViewEx", v, w) @@ [i |-> r[1], n |-> r[2]] : v \in Dst, r \in Ranges(Len(TextOf(S, w)))}
           : w \in Views}
LookOps ==
    UNION {{Pairs(op, v, w) : op \in {"LPos", "LPosI", "RPos", "RPosI", "Compare", "CompareI"}, w \in Views}
           \cup {Pairs(op, v, w) @@ [i |-> r[1], n |-> r[2]] : op \in {"LPosEx", "LPosIEx"}, w \in Views, r \in Ranges(Len(TextOf(S, v)))}
           \cup {Pairs(op, v, w) @@ [i |-> i, n |-> n] : op \in {"RPosEx", "RPosIEx"}, w \in Views, i \in Pos(Len(TextOf(S, v))),
                   n \in (0..Len(TextOf(S, v))) \cup (IF Invalid THEN {Len(TextOf(S, v)) + 1} \cup Big ELSE {})}
           \cup {VW("GetChar", 0, v) @@ [i |-> i] : i \in Idx(Len(TextOf(S, v)))}
           : v \in Views}
EditOps ==
    LET s == 1 len == Len(S.str[1].txt) src == {v \in Src : Alive(S, v)} IN
    {B(op, s) : op \in {"Destroy", "Clear", "Lower", "Upper", "ShrinkToFit"}}
    \cup {I("GetCharM", s, i) : i \in Idx(len)}
    \cup {I(op, s, i) @@ [x |-> x] : op \in {"SetChar", "SetCharM"}, i \in Idx(len), x \in Chars}
    \cup {I("Insert", s, i) @@ [v |-> v] : i \in Pos(len), v \in src}
    \cup UNION {{I("InsertEx", s, i) @@ [v |-> v, j |-> r[1], n |-> r[2]] : i \in 0..len, r \in Ranges(Len(TextOf(S, v)))}
                 \cup {I("InsertEx", s, i) @@ [v |-> v, j |-> r[1], n |-> r[2]] : i \in Pos(len), r \in {<<0, 1>>, <<0, 1000000000>>}} : v \in src}
    \cup {VW("Append", s, v) : v \in src}
    \cup UNION {{VW("AppendEx", s, v) @@ [j |-> r[1], n |-> r[2]] : r \in Ranges(Len(TextOf(S, v)))} : v \in src}
    \cup {INn(op, s, r[1], r[2]) : op \in {"Delete", "LowerEx", "UpperEx"}, r \in Ranges(len)}
    \cup {I("Truncate", s, i) : i \in Pos(len)}
    \cup {B("Resize", s) @@ [n |-> n, x |-> 98] : n \in (0..MaxLen) \cup (IF Invalid THEN {MaxLen + 1} \cup Big ELSE {})}
    \cup {B("Reserve", s) @@ [n |-> n] : n \in (0..(MaxLen + 1)) \cup {40} \cup (IF Invalid THEN Big ELSE {})}
NumberOps ==
    {B(op, 1) @@ [q |-> q, pad |-> p, up |-> up, force |-> f] : op \in Numbers \cap Kinds, q \in Nums, p \in Pads, up \in BOOLEAN, f \in BOOLEAN}
    \cup {VW(op, 1, 1) @@ [q |-> q, pad |-> p, up |-> up, force |-> f] : op \in {"DecS", "HexS"} \cap Kinds, q \in Nums, p \in Pads, up \in BOOLEAN, f \in BOOLEAN}
UsefulNumber(o) == /\ o.op \in {"DecU", "DecS"} => ~o.up
                   /\ o.op \in {"DecU", "HexU"} => ~o.force
FormatOps == {B("Fmt", 1) @@ [k |-> f[1], d |-> f[2], wd |-> f[3], xs |-> f[4]] : f \in Fmts}
NullOps == IF Invalid /\ S.str[1].txt = <<>> THEN {B("Null", 0) @@ [k |-> k] : k \in (0..64) \cup (70..75)} ELSE {}

Base ==
    IF NextView # {} THEN SetupOps
    ELSE {o \in
       (IF ~S.str[1].a THEN CreateOps(1) \cup CopyOps(1)
        ELSE IF S.str[2].a THEN {B("Destroy", 2), VW("GetChar", 0, 12) @@ [i |-> 0]}
        ELSE EditOps \cup {o \in NumberOps : UsefulNumber(o)} \cup FormatOps \cup NullOps \cup CopyOps(2))
       \cup (IF S.str[2].a THEN {} ELSE ViewOps \cup LookOps) : o.op \in Kinds}
Faulty(o) == \/ o.op \in Creating \cup Copying \cup {"ShrinkToFit", "Delete", "Truncate", "Clear", "Reserve"}
             \/ S.str[1].a /\ S.str[1].tight
CanFault(o) == /\ o.op \notin Looking \cup {"Buf", "View", "ViewEx", "GetChar", "GetCharM", "SetChar", "SetCharM", "Lower", "Upper", "LowerEx", "UpperEx", "Null", "Destroy"}
               /\ Faulty(o) /\ ~(S.str[1].a /\ S.str[1].fix)
Ops == LET base == Base IN
       base \cup (IF Faults THEN {[o EXCEPT !.oom = TRUE, !.inj = TRUE] : o \in {p \in base : CanFault(p)}} ELSE {})

(* Appended numbers and formatted texts are explored from every state, and then *)
(* taken away again (the replay truncates the string).                         *)
Undone(o) == o.op \in Numbers \cup {"Fmt"}
Back(o, r) == IF ~Undone(o) THEN r.S
              ELSE IF r.st = "SUCCESS" THEN [Touch(S, 1) EXCEPT !.str[1].tight = FALSE] ELSE Touch(S, 1)

Init == S = Start /\ last = [none |-> TRUE]
Next == \E o \in Ops : \E r \in Results(S, o) :
    /\ \A s \in 1..2 : r.S.str[s].a => Len(r.S.str[s].txt) <= MaxLen \/ o.op \in Numbers \cup {"Fmt"}
    /\ S' = Back(o, r)
    /\ last' = [o |-> o, r |-> r]
    /\ Emit => PrintT(ToJson([k |-> "E", s |-> S, o |-> IF Undone(o) THEN o @@ [undo |-> Len(S.str[1].txt)] ELSE o, t |-> S',
                              n |-> Cardinality({Back(o, q) : q \in Results(S, o)})]))
Spec == Init /\ [][Next]_<<S, last>>
View == S
Lawful == [][Laws(S, last'.o, last'.r)]_<<S, last>>
TypeInv == TypeOK(S)

a == 97  b == 98  A == 65
CfgsEdit == {<<"InitEx", 0, 2, 4>>, <<"InitEx", 40, 1, 0>>, <<"InitBuf", 4, 1, 0>>, <<"Init", 1, 2, 4>>}
CfgsBad == {<<"InitEx", 0, 2, 4>>, <<"InitBuf", 4, 1, 0>>, <<"InitBuf", 0, 1, 0>>, <<"InitEx", 1, 0, 4>>, <<"InitEx", 1000000000, 2, 4>>, <<"InitEx", 999999999, 2, 4>>, <<"InitBuf", 1, 1, 0>>}
CfgsFault == {<<"InitEx", 0, 2, 4>>, <<"InitEx", 2, 1, 0>>, <<"Init", 1, 2, 4>>}
CfgsTwo == {<<"InitEx", 0, 2, 4>>, <<"InitBuf", 3, 1, 0>>}
CfgsNum == {<<"InitEx", 0, 2, 4>>} \cup {<<"InitBuf", c, 1, 0>> : c \in {1, 2, 3, 4, 8, 9, 11, 16, 17, 20, 21, 22, 23, 40}}
CfgsFmt == {<<"InitEx", 0, 2, 4>>, <<"Init", 0, 2, 4>>} \cup {<<"InitBuf", c, 1, 0>> : c \in 1..14}
CfgsNone == {}
Seqs(X, n) == UNION {[1..k -> X] : k \in 0..n}
TextsEditQ == <<{<<A, 0>>}>>
TextsViewQ == <<{<<97, 0, 98>>, <<>>}>>
TextsBadQ == <<{<<a>>}>>
CfgsNumQ == {<<"InitEx", 0, 2, 4>>} \cup {<<"InitBuf", c, 1, 0>> : c \in {2, 9, 21, 23}}
PadsF == {0, 3, 20}
TextsEdit == <<{<<a>>, <<A, 0>>, <<>>}>>
TextsBad == <<{<<a, b>>, <<>>}>>
TextsFault == <<{<<a, b>>}>>
TextsSearch == <<Seqs({a, A}, 4), Seqs({a, A}, 2)>>
TextsSearchX == <<Seqs({a, A, b}, 4), Seqs({a, A, b}, 3)>>
TextsWin == <<{<<a, b, a>>, <<A, a, a, b>>}, {<<a>>, <<a, a>>, <<a, b>>, <<b, b>>, <<>>}>>
CmpChars == {0, 1, 31, 32, 33, 48, 63, 64, 65, 66, 90, 91, 95, 96, 97, 98, 122, 123, 127, 128, 129, 160, 223, 224, 255}
TextsCmp == <<Seqs(CmpChars, 1), Seqs(CmpChars, 1)>>
TextsCmp2 == <<Seqs({65, 97, 64, 96}, 2), Seqs({65, 97, 64, 96}, 2)>>
TextsCmp3 == <<Seqs({65, 97, 98, 128}, 2), Seqs({65, 97, 98, 128}, 2), Seqs({65, 97, 98}, 2)>>
TextsCase == <<{<<65, 97, 64, 122>>, <<90, 91, 123, 96>>, <<193, 225, 0, 65>>}>>
TextsView == <<{<<97, 0, 98, 99>>, <<97>>, <<>>}>>
TextsNum == <<{<<48, 120>>, <<>>}>>
TextsNone == <<>>
L4(x) == <<0, 0, x \div 65536, x % 65536>>
NumsF == {L4(0), L4(7), L4(12345), <<0, 1, 0, 0>>, <<32768, 0, 0, 0>>, <<65535, 65535, 65535, 65535>>}
NumsQ == {L4(0), L4(7), L4(10), L4(99), L4(100), L4(12345), L4(2147483647), <<0, 0, 65535, 65535>>, <<0, 1, 0, 0>>, <<0, 2, 21515, 58624>>,
          <<32767, 65535, 65535, 65535>>, <<32768, 0, 0, 0>>, <<65535, 65535, 65535, 65535>>, <<65535, 65535, 65535, 65527>>, <<65535, 65535, 0, 0>>, <<35455, 63847, 8880, 51712>>}
NumsX == NumsQ \cup {L4(1), L4(9), L4(11), L4(15), L4(16), L4(255), L4(256), L4(999), L4(1000), L4(9999), L4(10000), L4(65535), L4(65536), L4(99999999), L4(100000000),
          <<0, 0, 15258, 51712>>, <<0, 0, 32768, 0>>, <<0, 0, 65535, 65534>>, <<0, 1, 0, 1>>, <<4096, 0, 0, 0>>, <<4095, 65535, 65535, 65535>>,
          <<65535, 65535, 65535, 65526>>, <<65535, 65535, 65535, 65436>>, <<65535, 65535, 32768, 0>>, <<65535, 65535, 0, 1>>, <<65535, 65534, 65535, 65535>>, <<32768, 0, 0, 1>>}
PadsQ == {0, 1, 3, 9, 20}
PadsX == {0, 1, 2, 3, 8, 9, 10, 16, 17, 19, 20, 21, 40, 254, 255}
FmtsQ == {<<0, 0, 0, <<>>>>, <<0, 0, 0, <<a, b, a, b, a>>>>, <<1, 0, 0, <<>>>>, <<1, -12345, 0, <<>>>>, <<2, 7, 0, <<a, b>>>>, <<3, 0, 0, <<>>>>, <<4, 0, 0, <<b>>>>,
          <<5, 0, 0, <<>>>>, <<6, 0, 0, <<>>>>, <<6, 0, 0, <<a, b, b>>>>, <<7, -5, 6, <<>>>>, <<8, 0, 0, <<a>>>>, <<9, 0, 0, <<>>>>,
          <<0, 0, 0, <<a, a, a, a, a, a, a, a, a, a, a, a, a>>>>}
NoneQ == {}
=============================================================================
