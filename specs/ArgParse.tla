------------------------------ MODULE ArgParse ------------------------------
(* The command line parser (include/Zycore/ArgParse.h).                       *)
(*                                                                            *)
(* A token is a sequence of character codes. A definition is a record         *)
(* [n: name, b: boolean, r: required]. The parser is a state machine that     *)
(* reads the command line token by token:                                     *)
(*   dash  dashes still have a meaning (no bare double dash seen so far)      *)
(*   pend  the definition that waits for its value (0: none)                  *)
(*   out   the entries so far: [d: definition (0: unnamed), hv: has a value,  *)
(*         v: the value, t, o: the token and the offset the value is at]      *)
(*   un    number of unnamed arguments, err/tok the first problem             *)
EXTENDS Common

Dash == 45
IsDD(t) == t = <<Dash, Dash>>
StartsDD(t) == Len(t) >= 2 /\ t[1] = Dash /\ t[2] = Dash
GoodName(n) == Len(n) >= 2 /\ n[1] = Dash /\ (n[2] = Dash \/ Len(n) = 2)
GoodDefs(D) == \A k \in 1..Len(D) : GoodName(D[k].n)

FindDef(D, name) ==
    LET hits == {k \in 1..Len(D) : D[k].n = name}
    IN IF hits = {} THEN 0 ELSE CHOOSE k \in hits : \A m \in hits : k <= m

P0 == [dash |-> TRUE, pend |-> 0, ptok |-> <<>>, out |-> <<>>, un |-> 0, err |-> "", tok |-> <<>>, at |-> 0]
Fail(p, st, tok) == [p EXCEPT !.err = st, !.tok = tok]
Flag(p, d) == [p EXCEPT !.out = Append(@, [d |-> d, hv |-> FALSE, v |-> <<>>, t |-> 0, o |-> 0])]
Value(p, d, v, i, off) == [p EXCEPT !.out = Append(@, [d |-> d, hv |-> TRUE, v |-> v, t |-> i, o |-> off]), !.pend = 0]
Await(p, d, tok) == [p EXCEPT !.pend = d, !.ptok = tok]

(* the characters k.. of a token of short options *)
RECURSIVE Shorts(_, _, _, _, _)
Shorts(D, p, tok, i, k) ==
    IF k > Len(tok) THEN p
    ELSE LET d == FindDef(D, <<Dash, tok[k]>>) IN
         IF d = 0 THEN Fail(p, "ARG_NOT_UNDERSTOOD", tok)
         ELSE IF D[d].b THEN Shorts(D, Flag(p, d), tok, i, k + 1)
         ELSE IF k < Len(tok) THEN Value(p, d, Drop(tok, k), i, k)
         ELSE Await(p, d, tok)

Step1(D, max, p, tok, i) ==
    IF p.err # "" THEN p
    ELSE IF p.pend # 0 THEN Value(p, p.pend, tok, i, 0)
    ELSE IF p.dash /\ IsDD(tok) THEN [p EXCEPT !.dash = FALSE]
    ELSE IF p.dash /\ StartsDD(tok) THEN
         LET d == FindDef(D, tok) IN
         IF d = 0 THEN Fail(p, "ARG_NOT_UNDERSTOOD", tok)
         ELSE IF D[d].b THEN Flag(p, d) ELSE Await(p, d, tok)
    ELSE IF p.dash /\ Len(tok) > 1 /\ tok[1] = Dash THEN Shorts(D, p, tok, i, 2)
    ELSE IF p.un = max THEN Fail(p, "TOO_MANY_ARGS", tok)
    ELSE Value([p EXCEPT !.un = @ + 1], 0, tok, i, 0)

(* toks[1] is the name of the program *)
RECURSIVE Reads(_, _, _, _, _)
Reads(D, max, p, toks, i) ==
    IF i > Len(toks) THEN p
    ELSE LET q == Step1(D, max, p, toks[i], i - 1) IN
         IF q.err # "" THEN [q EXCEPT !.at = i] ELSE Reads(D, max, q, toks, i + 1)

Missing(D, out) == {k \in 1..Len(D) : D[k].r /\ \A m \in 1..Len(out) : out[m].d # k}
Finish(D, min, p) ==
    IF p.err # "" THEN p
    ELSE IF p.pend # 0 THEN Fail(p, "ARG_MISSES_VALUE", p.ptok)
    ELSE IF p.un < min THEN Fail(p, "TOO_FEW_ARGS", <<>>)
    ELSE LET ms == Missing(D, p.out) IN
         IF ms # {} THEN Fail(p, "REQUIRED_ARG_MISSING", D[CHOOSE k \in ms : \A m \in ms : k <= m].n)
         ELSE p
Parse(o) ==
    IF o.min > o.max \/ ~GoodDefs(o.defs) THEN Fail(P0, "INVALID_ARGUMENT", <<>>)
    ELSE Finish(o.defs, o.min, Reads(o.defs, o.max, P0, o.toks, 2))

(* ---- the operation ---- *)
Start == [idle |-> TRUE]
Out(st, out, tok) == [S |-> Start, st |-> st, out |-> out, tok |-> tok]
Results(S, o) ==
    IF o.op = "Null" THEN {Out("INVALID_ARGUMENT", <<>>, <<>>)}
    ELSE LET p == Parse(o) IN
    IF o.oom THEN (IF o.inj /\ p.err # "INVALID_ARGUMENT" THEN {Out("NOT_ENOUGH_MEMORY", <<>>, <<>>)} ELSE {})
    ELSE IF p.err # "" THEN {Out(p.err, <<>>, p.tok)} ELSE {Out("SUCCESS", p.out, <<>>)}

Located == {"ARG_NOT_UNDERSTOOD", "TOO_MANY_ARGS", "ARG_MISSES_VALUE", "REQUIRED_ARG_MISSING"}
Matches(e, S, r) ==
    /\ e.st = r.st
    /\ (r.st \in Located /\ e.asked) => (e.told /\ e.tok = r.tok)
    /\ (r.st \notin Located /\ e.asked) => ~e.told
    /\ e.out = r.out
    /\ Has(e, "ownc") => (e.ownc = (IF Custom(e) THEN e.own ELSE 0) /\ (r.st = "SUCCESS" => e.own > 0))
    /\ e.bad = 0 /\ e.left = 0                     \* nothing is left, resp. after the result was destroyed
StateMatches(e, S) == TRUE

(* ---- laws ---- *)
(* The canonical command line of a list of entries.                           *)
RECURSIVE Render(_, _, _, _)
Render(D, out, k, dash) ==
    IF k > Len(out) THEN <<>>
    ELSE LET e == out[k] rest == Render(D, out, k + 1, dash) IN
         IF e.d # 0 THEN (IF e.hv THEN <<D[e.d].n, e.v>> ELSE <<D[e.d].n>>) \o rest
         ELSE IF dash /\ Len(e.v) > 1 /\ e.v[1] = Dash THEN <<<<Dash, Dash>>, e.v>> \o Render(D, out, k + 1, FALSE)
         ELSE <<e.v>> \o rest
Plainly(out) == [k \in 1..Len(out) |-> [d |-> out[k].d, hv |-> out[k].hv, v |-> out[k].v]]
Unnamed(out) == Cardinality({k \in 1..Len(out) : out[k].d = 0})
Laws(S, o, r) ==
    o.op # "Null" =>
    LET p == Parse(o) IN
    /\ (r.st = "SUCCESS") =>
         /\ Unnamed(r.out) >= o.min /\ Unnamed(r.out) <= o.max
         /\ \A k \in 1..Len(r.out) : r.out[k].hv = (r.out[k].d = 0 \/ ~o.defs[r.out[k].d].b)
         /\ \A d \in 1..Len(o.defs) : o.defs[d].r => \E k \in 1..Len(r.out) : r.out[k].d = d
         /\ \A k \in 1..Len(r.out) : r.out[k].hv => Drop(o.toks[r.out[k].t + 1], r.out[k].o) = r.out[k].v
         \* the values appear in the order of the command line
         /\ \A k, m \in 1..Len(r.out) : (k < m /\ r.out[k].hv /\ r.out[m].hv) => r.out[k].t < r.out[m].t
         \* the canonical command line of the result has the same result
         /\ LET q == Parse([o EXCEPT !.toks = <<<<>>>> \o Render(o.defs, r.out, 1, TRUE)])
            IN q.err = "" /\ Plainly(q.out) = Plainly(r.out)
    \* up to the offending token everything was in order
    /\ (p.at > 0) =>
         LET q == Reads(o.defs, o.max, P0, Take(o.toks, p.at - 1), 2) IN q.err = "" /\ q.pend = 0
    /\ (r.st \in Located \ {"REQUIRED_ARG_MISSING"}) => \E k \in 2..Len(o.toks) : o.toks[k] = r.tok
    /\ (r.st = "REQUIRED_ARG_MISSING") => \E d \in 1..Len(o.defs) : o.defs[d].n = r.tok /\ o.defs[d].r
    /\ (r.st # "SUCCESS") => r.out = <<>>
TypeOK(S) == S = Start
=============================================================================
