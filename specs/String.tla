------------------------------- MODULE String -------------------------------
(* Observable behaviour of ZyanString and ZyanStringView                      *)
(* (include/Zycore/String.h) and of the number and format functions           *)
(* (include/Zycore/Format.h).                                                 *)
(*                                                                            *)
(* S.str is a pair of strings, S.vw are four views. A view refers to a string *)
(* (base 1 or 2) or to a caller's buffer (base 0); views of a string die as   *)
(* soon as the string is edited. Operations name views by 1..4, and 11, 12    *)
(* for the strings themselves (ZYAN_STRING_TO_VIEW).                          *)
(* For growable strings the capacity is the implementation's choice, within   *)
(* what Matches demands; for strings on a caller's buffer it is exact. `tight`*)
(* remembers that no spare capacity is left; it only guides the exploration.  *)
EXTENDS Common

DeadStr == [a |-> FALSE]
Str(o, txt, fix, cap, tight) == [a |-> TRUE, cu |-> Custom(o), txt |-> txt, fix |-> fix, cap |-> cap, tight |-> tight]
DeadView == [a |-> FALSE]
View4(txt, base, off) == [a |-> TRUE, txt |-> txt, base |-> base, off |-> off]
Start == [str |-> <<DeadStr, DeadStr>>, vw |-> <<DeadView, DeadView, DeadView, DeadView>>]

Out(S, st, val) == [S |-> S, st |-> st, val |-> val]
Refuse(S, sts) == {Out(S, st, ANY) : st \in sts}
Ok(S) == {Out(S, "SUCCESS", ANY)}

(* ---- views and characters ---- *)
Alive(S, v) == IF v >= 11 THEN S.str[v - 10].a ELSE S.vw[v].a
TextOf(S, v) == IF v >= 11 THEN S.str[v - 10].txt ELSE S.vw[v].txt
BaseOf(S, v) == IF v >= 11 THEN v - 10 ELSE S.vw[v].base
OffOf(S, v) == IF v >= 11 THEN 0 ELSE S.vw[v].off
KillViews(vw, s) == [k \in 1..4 |-> IF vw[k].a /\ vw[k].base = s THEN DeadView ELSE vw[k]]
PutView(S, v, w) == [S EXCEPT !.vw[v] = w]

IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
ToLower(c) == IF IsUpper(c) THEN c + 32 ELSE c
ToUpper(c) == IF IsLower(c) THEN c - 32 ELSE c
EqI(c, d) == ToLower(c) = ToLower(d)
Same(I, c, d) == IF I THEN EqI(c, d) ELSE c = d
SameText(I, s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Same(I, s[k], t[k])

(* the order of two different characters: letters next to each other *)
Signed(c) == IF c >= 128 THEN c - 256 ELSE c
Bit5(c) == IF (c \div 32) % 2 = 1 THEN c ELSE c + 32
CharLess(c, d) == \/ Signed(Bit5(c)) < Signed(Bit5(d))
                  \/ Bit5(c) = Bit5(d) /\ Signed(c) < Signed(d)
Order(I, s, t) ==
    IF Len(s) # Len(t) THEN (IF Len(s) < Len(t) THEN -1 ELSE 1)
    ELSE LET diff == {k \in 1..Len(s) : ~Same(I, s[k], t[k])} IN
         IF diff = {} THEN 0
         ELSE LET f == CHOOSE k \in diff : \A m \in diff : k <= m
              IN IF CharLess(s[f], t[f]) THEN -1 ELSE 1

(* positions at which the needle occurs completely inside the window [lo, hi) *)
OccursAt(I, h, n, p) == \A k \in 1..Len(n) : Same(I, h[p + k], n[k])
Found(S, I, h, n, lo, hi, first) ==
    LET last == hi - Len(n) IN
    IF \A p \in lo..last : ~OccursAt(I, h, n, p) THEN {Out(S, "FALSE", -1)}
    ELSE {Out(S, "TRUE", IF first THEN CHOOSE p \in lo..last : OccursAt(I, h, n, p) /\ \A q \in lo..(p - 1) : ~OccursAt(I, h, n, q)
                                  ELSE last - CHOOSE k \in 0..(last - lo) : OccursAt(I, h, n, last - k) /\ \A q \in 0..(k - 1) : ~OccursAt(I, h, n, last - q))}
Search(S, o) ==
    LET h == TextOf(S, o.v) n == TextOf(S, o.w)
        I == o.op \in {"LPosI", "RPosI", "LPosIEx", "RPosIEx"}
        left == o.op \in {"LPos", "LPosI", "LPosEx", "LPosIEx"}
        ex == o.op \in {"LPosEx", "LPosIEx", "RPosEx", "RPosIEx"}
        len == Len(h)
        i == IF ex THEN o.i ELSE IF left THEN 0 ELSE len
        c == IF ex THEN o.n ELSE len
    IN IF i > len \/ (left /\ c > len - i) \/ (~left /\ c > i) THEN Refuse(S, {"OUT_OF_RANGE"})
       ELSE IF n = <<>> THEN {Out(S, "FALSE", -1)}
       ELSE LET lo == IF left THEN i ELSE i - c
                hi == IF left THEN i + c ELSE i
            IN Found(S, I, h, n, lo, hi, left)

(* text of a zero-terminated buffer *)
UpToZero(xs) ==
    LET z == {k \in 1..Len(xs) : xs[k] = 0}
    IN IF z = {} THEN xs ELSE Take(xs, (CHOOSE k \in z : \A m \in z : k <= m) - 1)
NewView(S, o) ==
    CASE o.op = "Buf" ->
           LET t == IF o.term = 1 THEN UpToZero(o.xs) ELSE o.xs
               w == Out(PutView(S, o.v, View4(t, 0, 0)), "SUCCESS", ANY)
           IN IF o.term = 0 /\ t = <<>> THEN {w} \cup Refuse(S, {"INVALID_ARGUMENT"}) ELSE {w}
      [] o.op = "View" -> Ok(PutView(S, o.v, View4(TextOf(S, o.w), BaseOf(S, o.w), OffOf(S, o.w))))
      [] o.op = "ViewEx" ->
           LET t == TextOf(S, o.w) IN
           IF o.i > Len(t) \/ o.n > Len(t) - o.i THEN Refuse(S, {"OUT_OF_RANGE"})
           ELSE Ok(PutView(S, o.v, View4(Mid(t, o.i, o.n), BaseOf(S, o.w), OffOf(S, o.w) + o.i)))

(* ---- strings ---- *)
(* The string s gets the text txt. Space: a fixed buffer must fit the text and *)
(* its terminating zero (cap does not count the zero). A growable string needs *)
(* no more than the allocator; `part` tells whether a removal may be complete  *)
(* although returning memory failed.                                           *)
PutStr(S, s, x) == [S EXCEPT !.str[s] = x, !.vw = KillViews(S.vw, s)]
Touch(S, s) == [S EXCEPT !.vw = KillViews(S.vw, s)]
Set(S, s, txt) ==
    LET x == S.str[s] IN
    PutStr(S, s, [x EXCEPT !.txt = txt, !.tight = IF txt = x.txt THEN x.tight ELSE FALSE])
Edit(S, o, txt, part) ==
    LET x == S.str[o.s] T == Touch(S, o.s) IN
    IF x.fix THEN
        IF o.oom THEN {}
        ELSE IF Len(txt) > x.cap THEN Refuse(T, {"INSUFFICIENT_BUFFER_SIZE"})
        ELSE Ok(Set(S, o.s, txt))
    ELSE IF o.oom THEN
        IF o.inj THEN Refuse(T, {"NOT_ENOUGH_MEMORY"})
                      \cup (IF part THEN {Out(Set(S, o.s, txt), "NOT_ENOUGH_MEMORY", ANY)} ELSE {})
        ELSE {}
    ELSE Ok(Set(S, o.s, txt))
(* nothing to do: reported as success or as an invalid argument *)
NoEdit(S, o) ==
    IF o.oom /\ ~o.inj THEN {}
    ELSE IF o.oom THEN (IF S.str[o.s].fix THEN {} ELSE Refuse(Touch(S, o.s), {"NOT_ENOUGH_MEMORY"}))
    ELSE Ok(Touch(S, o.s)) \cup Refuse(Touch(S, o.s), {"INVALID_ARGUMENT"})
BadRange(S, o) == Refuse(Touch(S, o.s), {"OUT_OF_RANGE"})

Creating == {"Init", "InitEx", "InitBuf"}
Copying == {"Dup", "DupEx", "DupBuf", "Concat", "ConcatEx", "ConcatBuf"}
Create(S, o, txt) ==
    LET buf == o.op \in {"InitBuf", "DupBuf", "ConcatBuf"} IN
    IF buf THEN
        IF o.oom THEN {}
        ELSE IF o.cap = 0 THEN Refuse(S, {"INVALID_ARGUMENT", "INSUFFICIENT_BUFFER_SIZE"})
        ELSE IF o.cap < Len(txt) + 1 THEN Refuse(S, {"INSUFFICIENT_BUFFER_SIZE"})
        ELSE Ok(PutStr(S, o.s, Str(o, txt, TRUE, o.cap - 1, FALSE)))
    ELSE IF o.gf < 1 THEN Refuse(S, {"INVALID_ARGUMENT"})
    ELSE IF IsHuge(o.cap) THEN Refuse(S, {"NOT_ENOUGH_MEMORY"})
    ELSE IF o.oom THEN (IF o.inj THEN Refuse(S, {"NOT_ENOUGH_MEMORY"}) ELSE {})
    ELSE Ok(PutStr(S, o.s, Str(o, txt, FALSE, 0, FALSE)))

Inserting(S, o, src) ==
    LET x == S.str[o.s] IN
    IF o.i > Len(x.txt) THEN BadRange(S, o)
    ELSE IF src = <<>> THEN NoEdit(S, o)
    ELSE Edit(S, o, InsertAt(x.txt, o.i, src), FALSE)
Appending(S, o, src) ==
    IF src = <<>> THEN (IF o.oom THEN NoEdit(S, o) ELSE Ok(Touch(S, o.s)))
    ELSE Edit(S, o, S.str[o.s].txt \o src, FALSE)
Removing(S, o, i, n) ==
    LET x == S.str[o.s] IN
    IF i > Len(x.txt) \/ n > Len(x.txt) - i THEN BadRange(S, o)
    ELSE IF n = 0 THEN NoEdit(S, o)
    ELSE Edit(S, o, RemoveAt(x.txt, i, n), TRUE)
Sub(S, o) ==
    LET t == TextOf(S, o.v) IN
    IF o.j > Len(t) \/ o.n > Len(t) - o.j THEN [bad |-> TRUE, t |-> <<>>] ELSE [bad |-> FALSE, t |-> Mid(t, o.j, o.n)]
Mapped(txt, i, n, up) == [k \in 1..Len(txt) |->
    IF k > i /\ k <= i + n THEN (IF up THEN ToUpper(txt[k]) ELSE ToLower(txt[k])) ELSE txt[k]]
Casing(S, o, i, n, up) ==
    LET x == S.str[o.s] IN
    IF i > Len(x.txt) \/ n > Len(x.txt) - i THEN BadRange(S, o)
    ELSE IF o.oom THEN {} ELSE Ok(Set(S, o.s, Mapped(x.txt, i, n, up)))
Resizing(S, o) ==
    LET x == S.str[o.s] IN
    IF IsHuge(o.n) THEN Refuse(Touch(S, o.s), IF x.fix THEN {"INSUFFICIENT_BUFFER_SIZE", "NOT_ENOUGH_MEMORY"} ELSE {"NOT_ENOUGH_MEMORY"})
    ELSE IF o.n <= Len(x.txt) THEN Edit(S, o, Take(x.txt, o.n), TRUE)
    ELSE Edit(S, o, x.txt \o Rep(o.n - Len(x.txt), o.x), FALSE)
Reserving(S, o) ==
    LET x == S.str[o.s] T == Touch(S, o.s) IN
    IF x.fix THEN
        IF o.oom THEN {} ELSE IF IsHuge(o.n) THEN Refuse(T, {"INSUFFICIENT_BUFFER_SIZE", "NOT_ENOUGH_MEMORY"})
        ELSE IF o.n > x.cap THEN Refuse(T, {"INSUFFICIENT_BUFFER_SIZE"}) ELSE Ok(T)
    ELSE IF IsHuge(o.n) THEN Refuse(T, {"NOT_ENOUGH_MEMORY"})
    ELSE IF o.oom THEN (IF o.inj THEN Refuse(T, {"NOT_ENOUGH_MEMORY"}) ELSE {})
    ELSE Ok(PutStr(S, o.s, [x EXCEPT !.tight = x.tight /\ o.n <= Len(x.txt)]))
Fitting(S, o) ==
    LET x == S.str[o.s] T == Touch(S, o.s) IN
    IF o.oom THEN (IF o.inj /\ ~x.fix THEN Refuse(T, {"NOT_ENOUGH_MEMORY"}) ELSE {})
    ELSE Ok(PutStr(S, o.s, [x EXCEPT !.tight = ~x.fix]))

(* ---- numbers ---- *)
(* A 64-bit value is given by four 16-bit limbs, most significant first.       *)
RECURSIVE DivStep(_, _, _, _)
DivStep(q, b, k, r) ==   \* long division of q by b from limb k on with remainder r
    IF k > Len(q) THEN [q |-> <<>>, r |-> r]
    ELSE LET t == r * 65536 + q[k] rest == DivStep(q, b, k + 1, t % b)
         IN [q |-> <<t \div b>> \o rest.q, r |-> rest.r]
IsZero(q) == \A k \in 1..Len(q) : q[k] = 0
Glyph(d, up) == IF d < 10 THEN 48 + d ELSE (IF up THEN 55 ELSE 87) + d
RECURSIVE DigitsOf(_, _, _)
DigitsOf(q, b, up) ==
    LET s == DivStep(q, b, 1, 0) IN
    IF IsZero(s.q) THEN <<Glyph(s.r, up)>> ELSE DigitsOf(s.q, b, up) \o <<Glyph(s.r, up)>>
RECURSIVE Neg(_, _, _)
Neg(q, k, carry) ==      \* two's complement, starting at the least significant limb
    IF k = 0 THEN <<>>
    ELSE LET t == (65535 - q[k]) + carry
         IN Neg(q, k - 1, t \div 65536) \o <<t % 65536>>
Negative(q) == q[1] >= 32768
Magnitude(q) == IF Negative(q) THEN Neg(q, 4, 1) ELSE q
Padded(d, n) == IF Len(d) >= n THEN d ELSE Rep(n - Len(d), 48) \o d
NumberText(S, o) ==
    LET b == IF o.op \in {"DecU", "DecS"} THEN 10 ELSE 16
        up == IF Has(o, "up") THEN o.up ELSE FALSE
    IN IF o.op \in {"DecU", "HexU"} THEN Padded(DigitsOf(o.q, b, up), o.pad)
       ELSE (IF Negative(o.q) THEN <<45>> ELSE IF o.force THEN <<43>> ELSE <<>>)
            \o (IF Has(o, "v") THEN TextOf(S, o.v) ELSE <<>>)
            \o Padded(DigitsOf(Magnitude(o.q), b, up), o.pad)

(* ---- printf-style text ---- *)
SmallDigits(n) == DigitsOf(<<0, 0, n \div 65536, n % 65536>>, 10, FALSE)
IntText(d) == IF d < 0 THEN <<45>> \o SmallDigits(-d) ELSE SmallDigits(d)
IntPadded(d, w) == IF d < 0 THEN <<45>> \o Padded(SmallDigits(-d), w - 1) ELSE Padded(SmallDigits(d), w)
FormatText(o) ==
    CASE o.k = 0 -> o.xs
      [] o.k = 1 -> IntText(o.d)
      [] o.k = 2 -> <<60>> \o o.xs \o <<58>> \o IntText(o.d) \o <<62>>
      [] o.k = 3 -> <<49, 48, 48, 37>>
      [] o.k = 4 -> <<97, 0, 98>> \o o.xs
      [] o.k = 5 -> <<>>
      [] o.k = 7 -> IntPadded(o.d, o.wd)
      [] o.k = 8 -> o.xs \o <<32, 122, 122, o.d % 128>>
Formatting(S, o) ==
    IF o.k \in {6, 9} THEN (IF o.oom THEN {} ELSE Refuse(Touch(S, o.s), {"FAILED"}))   \* not representable
    ELSE Appending(S, o, FormatText(o))

(* ---- all operations ---- *)
Looking == {"LPos", "LPosI", "RPos", "RPosI", "LPosEx", "LPosIEx", "RPosEx", "RPosIEx", "Compare", "CompareI"}
Numbers == {"DecU", "DecS", "HexU", "HexS"}
Ready(S, o) ==
    /\ (o.op \notin {"Buf", "View", "ViewEx"} /\ Has(o, "v")) => Alive(S, o.v)
    /\ Has(o, "w") => Alive(S, o.w)
    /\ CASE o.op \in {"Null", "Buf", "View", "ViewEx", "GetChar"} \cup Looking -> TRUE
         [] o.op \in Creating \cup Copying -> ~S.str[o.s].a
         [] OTHER -> S.str[o.s].a /\ (Has(o, "v") => BaseOf(S, o.v) # o.s)

Results(S, o) ==
    IF ~Ready(S, o) THEN {}
    ELSE CASE o.op = "Null" -> Refuse(S, {"INVALID_ARGUMENT"})
      [] o.op \in {"Buf", "View", "ViewEx"} -> NewView(S, o)
      [] o.op \in {"Compare", "CompareI"} ->
           LET c == Order(o.op = "CompareI", TextOf(S, o.v), TextOf(S, o.w))
           IN {Out(S, IF c = 0 THEN "TRUE" ELSE "FALSE", c)}
      [] o.op \in Looking -> Search(S, o)
      [] o.op = "GetChar" -> IF o.i < Len(TextOf(S, o.v)) THEN {Out(S, "SUCCESS", TextOf(S, o.v)[o.i + 1])}
                             ELSE Refuse(S, {"OUT_OF_RANGE"})
      [] o.op \in Creating -> Create(S, o, <<>>)
      [] o.op \in {"Dup", "DupEx", "DupBuf"} -> Create(S, o, TextOf(S, o.v))
      [] o.op \in {"Concat", "ConcatEx", "ConcatBuf"} -> Create(S, o, TextOf(S, o.v) \o TextOf(S, o.w))
      [] o.op = "Destroy" -> Ok(PutStr(S, o.s, DeadStr))
      [] o.op = "GetCharM" -> IF o.i < Len(S.str[o.s].txt) THEN {Out(S, "SUCCESS", S.str[o.s].txt[o.i + 1])}
                              ELSE Refuse(S, {"OUT_OF_RANGE"})
      [] o.op \in {"SetChar", "SetCharM"} ->
           IF o.i < Len(S.str[o.s].txt) THEN Ok(Set(S, o.s, [S.str[o.s].txt EXCEPT ![o.i + 1] = o.x])) ELSE BadRange(S, o)
      [] o.op = "Insert" -> Inserting(S, o, TextOf(S, o.v))
      [] o.op = "InsertEx" -> IF Sub(S, o).bad THEN BadRange(S, o) ELSE Inserting(S, o, Sub(S, o).t)
      [] o.op = "Append" -> Appending(S, o, TextOf(S, o.v))
      [] o.op = "AppendEx" -> IF Sub(S, o).bad THEN BadRange(S, o) ELSE Appending(S, o, Sub(S, o).t)
      [] o.op = "Delete" -> Removing(S, o, o.i, o.n)
      [] o.op = "Truncate" -> IF o.i > Len(S.str[o.s].txt) THEN BadRange(S, o) ELSE Removing(S, o, o.i, Len(S.str[o.s].txt) - o.i)
      [] o.op = "Clear" -> Edit(S, o, <<>>, TRUE)
      [] o.op \in {"Lower", "Upper"} -> Casing(S, o, 0, Len(S.str[o.s].txt), o.op = "Upper")
      [] o.op \in {"LowerEx", "UpperEx"} -> Casing(S, o, o.i, o.n, o.op = "UpperEx")
      [] o.op = "Resize" -> Resizing(S, o)
      [] o.op = "Reserve" -> Reserving(S, o)
      [] o.op = "ShrinkToFit" -> Fitting(S, o)
      [] o.op \in Numbers -> Edit(S, o, S.str[o.s].txt \o NumberText(S, o), FALSE)
      [] o.op = "Fmt" -> Formatting(S, o)
      [] OTHER -> {}

(* ---- observation ---- *)
SlotMatches(p, x) ==
    /\ p.a = x.a
    /\ x.a => /\ p.sz = Len(x.txt) /\ p.txt = x.txt /\ p.term = 0
              /\ p.inb /\ p.guard
              /\ IF x.fix THEN p.cap = x.cap ELSE p.cap >= p.sz
ViewMatches(p, x) ==
    /\ p.a = x.a
    /\ x.a => p.sz = Len(x.txt) /\ p.txt = x.txt /\ p.off = x.off
OwnOf(p, x) == IF x.a /\ ~x.fix THEN p.cap + 1 ELSE 0
StateMatches(e, S) ==
    /\ \A s \in 1..2 : SlotMatches(e.str[s], S.str[s])
    /\ \A k \in 1..4 : ViewMatches(e.vw[k], S.vw[k])
    /\ e.bufok /\ e.bad = 0
    /\ e.own = OwnOf(e.str[1], S.str[1]) + OwnOf(e.str[2], S.str[2])
    /\ Has(e, "ownc") => e.ownc = (IF S.str[1].a /\ S.str[1].cu THEN OwnOf(e.str[1], S.str[1]) ELSE 0) + (IF S.str[2].a /\ S.str[2].cu THEN OwnOf(e.str[2], S.str[2]) ELSE 0)
Matches(e, S, r) ==
    /\ e.st = r.st
    /\ r.val # ANY => e.val = r.val
    \* promised capacity is really there
    /\ (r.st = "SUCCESS" /\ e.op \in {"Init", "InitEx", "Dup", "DupEx", "Concat", "ConcatEx"}) => e.str[e.s].cap >= e.cap
    /\ (r.st = "SUCCESS" /\ e.op = "Reserve") => e.str[e.s].cap >= e.n
    /\ StateMatches(e, r.S)

(* ---- laws: the listed properties, stated independently of the operations -- *)
Failed(st) == st \notin {"SUCCESS", "TRUE", "FALSE"}
Reading == Looking \cup {"GetChar", "GetCharM", "Null"}
TextAfter(r, s) == IF r.S.str[s].a THEN r.S.str[s].txt ELSE <<>>
TypeOK(S) ==
    /\ \A s \in 1..2 : S.str[s].a /\ S.str[s].fix => Len(S.str[s].txt) <= S.str[s].cap
    \* a view shows exactly the characters of its string (P14)
    /\ \A k \in 1..4 : S.vw[k].a /\ S.vw[k].base # 0 =>
         /\ S.str[S.vw[k].base].a
         /\ S.vw[k].off + Len(S.vw[k].txt) <= Len(S.str[S.vw[k].base].txt)
         /\ S.vw[k].txt = Mid(S.str[S.vw[k].base].txt, S.vw[k].off, Len(S.vw[k].txt))
(* P11, P19: failing calls change nothing; P12-P14: looking changes nothing *)
LawFailure(S, o, r) == Failed(r.st) =>
    \A s \in 1..2 : \/ r.S.str[s] = S.str[s]
                    \/ r.st = "NOT_ENOUGH_MEMORY" /\ s = o.s /\ o.oom /\ Len(TextAfter(r, s)) < Len(S.str[s].txt)
LawReading(S, o, r) == o.op \in Reading => r.S = S
(* P10: what an edit does not address keeps its place; lengths add up *)
LawEdit(S, o, r) ==
    (o.s # 0 /\ S.str[o.s].a /\ r.S.str[o.s].a /\ r.st = "SUCCESS") =>
    LET a == S.str[o.s].txt b == r.S.str[o.s].txt IN
    /\ r.S.str[3 - o.s] = S.str[3 - o.s]
    /\ (o.op \in {"Append", "AppendEx", "Fmt"} \cup Numbers) => Take(b, Len(a)) = a
    /\ (o.op = "Insert") => Len(b) = Len(a) + Len(TextOf(S, o.v)) /\ RemoveAt(b, o.i, Len(TextOf(S, o.v))) = a
    /\ (o.op = "InsertEx") => Len(b) = Len(a) + o.n /\ RemoveAt(b, o.i, o.n) = a /\ Mid(b, o.i, o.n) = Mid(TextOf(S, o.v), o.j, o.n)
    /\ (o.op = "Delete") => Len(b) = Len(a) - o.n /\ Take(b, o.i) = Take(a, o.i) /\ Drop(b, o.i) = Drop(a, o.i + o.n)
    /\ (o.op = "Truncate") => b = Take(a, o.i)
    /\ (o.op \in {"Reserve", "ShrinkToFit"}) => b = a
    /\ (o.op \in {"Lower", "Upper", "LowerEx", "UpperEx"}) => Len(a) = Len(b) /\ \A k \in 1..Len(a) : EqI(a[k], b[k])
(* P13: the order is antisymmetric and agrees with equality; folding makes I equal *)
LawOrder(S, o, r) == (o.op \in {"Compare", "CompareI"}) =>
    LET I == o.op = "CompareI" a == TextOf(S, o.v) b == TextOf(S, o.w) IN
    /\ Order(I, b, a) = -r.val
    /\ (r.val = 0) <=> SameText(I, a, b)
    /\ (~I /\ r.val = 0) <=> (~I /\ a = b)
    \* with a third text: transitive
    /\ \A k \in 1..4 : S.vw[k].a =>
         LET c == S.vw[k].txt IN (r.val <= 0 /\ Order(I, b, c) <= 0) => Order(I, a, c) <= 0
(* P12: a found position is an occurrence, and there is none before / after it *)
LawSearch(S, o, r) == (o.op \in Looking \ {"Compare", "CompareI"} /\ r.st \in {"TRUE", "FALSE"}) =>
    LET h == TextOf(S, o.v) n == TextOf(S, o.w)
        I == o.op \in {"LPosI", "RPosI", "LPosIEx", "RPosIEx"}
        left == o.op \in {"LPos", "LPosI", "LPosEx", "LPosIEx"}
        ex == Has(o, "i")
        lo == IF ~ex THEN 0 ELSE IF left THEN o.i ELSE o.i - o.n
        hi == IF ~ex THEN Len(h) ELSE IF left THEN o.i + o.n ELSE o.i
        occ(p) == p >= lo /\ p + Len(n) <= hi /\ SameText(I, Mid(h, p, Len(n)), n)
    IN IF r.st = "TRUE" THEN /\ n # <<>> /\ occ(r.val)
                             /\ \A p \in 0..Len(h) : (IF left THEN p < r.val ELSE p > r.val) => ~occ(p)
       ELSE n = <<>> \/ \A p \in 0..Len(h) : ~occ(p)
(* P18: reading the digits back yields the value; width and sign are as asked for *)
RECURSIVE Horner(_, _, _)
Horner(d, b, q) ==
    IF d = <<>> THEN q
    ELSE LET g == Head(d) v == IF g < 58 THEN g - 48 ELSE IF g < 71 THEN g - 55 ELSE g - 87
             m4 == q[4] * b + v  m3 == q[3] * b + m4 \div 65536
             m2 == q[2] * b + m3 \div 65536  m1 == q[1] * b + m2 \div 65536
         IN Horner(Tail(d), b, <<m1 % 65536, m2 % 65536, m3 % 65536, m4 % 65536>>)
LawNumber(S, o, r) == (o.op \in Numbers /\ r.st = "SUCCESS") =>
    LET add == Drop(r.S.str[o.s].txt, Len(S.str[o.s].txt))
        signed == o.op \in {"DecS", "HexS"}
        sign == signed /\ (Negative(o.q) \/ o.force)
        pre == IF signed /\ Has(o, "v") THEN TextOf(S, o.v) ELSE <<>>
        dig == Drop(add, (IF sign THEN 1 ELSE 0) + Len(pre))
        b == IF o.op \in {"DecU", "DecS"} THEN 10 ELSE 16
        mag == Horner(dig, b, <<0, 0, 0, 0>>)
    IN /\ Len(dig) >= Max2(1, o.pad)
       /\ (Len(dig) > o.pad /\ Len(dig) > 1) => dig[1] # 48
       /\ sign => add[1] = (IF Negative(o.q) THEN 45 ELSE 43)
       /\ Mid(add, IF sign THEN 1 ELSE 0, Len(pre)) = pre
       /\ (IF signed /\ Negative(o.q) THEN Neg(mag, 4, 1) ELSE mag) = o.q
Laws(S, o, r) ==
    /\ TypeOK(r.S) /\ LawFailure(S, o, r) /\ LawReading(S, o, r) /\ LawEdit(S, o, r)
    /\ LawOrder(S, o, r) /\ LawSearch(S, o, r) /\ LawNumber(S, o, r)
=============================================================================
