----------------------------- MODULE MCArgParse -----------------------------
(* All command lines up to MaxToks tokens over a token alphabet, for a family *)
(* of definition sets and bounds of unnamed arguments. The state is the       *)
(* command line typed so far; every prefix is parsed.                         *)
EXTENDS ArgParse, TLC, Json
CONSTANTS DefSets, Toks, Bounds, MaxToks, Fronts, Faults, Emit
VARIABLES S, last
T(s) == CASE s = "-" -> <<45>> [] s = "--" -> <<45, 45>> [] s = "-a" -> <<45, 97>> [] s = "-b" -> <<45, 98>> [] s = "-c" -> <<45, 99>>
          [] s = "" -> <<>> [] s = "x" -> <<120>> [] s = "xy" -> <<120, 121>> [] s = "--l" -> <<45, 45, 108>> [] s = "--lo" -> <<45, 45, 108, 111>>
          [] s = "-ab" -> <<45, 97, 98>> [] s = "-ba" -> <<45, 98, 97>> [] s = "-a-" -> <<45, 97, 45>> [] s = "---" -> <<45, 45, 45>> [] s = "-aab" -> <<45, 97, 97, 98>>
          [] s = "a" -> <<97>> [] s = "-x" -> <<45, 120>> [] s = "--a" -> <<45, 45, 97>> [] s = "-abx" -> <<45, 97, 98, 120>> [] s = "ab" -> <<97, 98>>
          [] s = "--l=x" -> <<45, 45, 108, 61, 120>> [] s = "-1" -> <<45, 49>> [] s = "-l" -> <<45, 108>>
D(s, b, r) == [n |-> T(s), b |-> b, r |-> r]
Line(defs, b, toks, k) == [op |-> k, defs |-> defs, min |-> b[1], max |-> b[2], toks |-> toks, oom |-> FALSE, inj |-> FALSE, f |-> 0, tok |-> 1]
Ops == UNION {{Line(S.defs, S.b, S.toks, k), [Line(S.defs, S.b, S.toks, k) EXCEPT !.tok = 0]} : k \in {"Parse", "ParseEx"}}
       \cup (IF Faults THEN {[Line(S.defs, S.b, S.toks, k) EXCEPT !.oom = TRUE, !.inj = TRUE, !.f = f] : k \in {"Parse", "ParseEx"}, f \in {1, 2}} ELSE {})
Some(k) == CHOOSE o \in {o \in Ops : o.op = k /\ o.tok = 1 /\ ~o.inj} : TRUE
Init == /\ S \in [defs : DefSets, b : Bounds, toks : {<<T(f)>> : f \in Fronts}] /\ last = [none |-> TRUE]
Edge(o) == Emit => PrintT(ToJson([k |-> "E", s |-> "p", o |-> o, t |-> "p", n |-> 1]))
Next ==
    \/ /\ Len(S.toks) < MaxToks
       /\ \E t \in Toks : S' = [S EXCEPT !.toks = Append(@, T(t))]
       /\ last' = [none |-> TRUE]
    \/ \E o \in Ops : \E r \in Results(Start, o) : S' = S /\ last' = [o |-> o, r |-> r] /\ Edge(o)
Spec == Init /\ [][Next]_<<S, last>>
View == S
Lawful == [][Has(last', "o") => Laws(Start, last'.o, last'.r)]_<<S, last>>
TypeInv == TRUE
Ab == <<D("-a", TRUE, FALSE), D("-b", FALSE, FALSE)>>
Lng == <<D("--l", FALSE, FALSE), D("--lo", TRUE, FALSE)>>
Req == <<D("-b", TRUE, FALSE), D("--l", TRUE, TRUE), D("-a", FALSE, TRUE)>>
None == <<>>
Mix == <<D("--a", TRUE, FALSE), D("-a", TRUE, TRUE), D("-x", FALSE, FALSE)>>
BadSet == {<<D("a", TRUE, FALSE)>>, <<D("", TRUE, FALSE)>>, <<D("-", TRUE, FALSE)>>, <<D("-ab", TRUE, FALSE)>>, <<D("-a", TRUE, FALSE), D("ab", TRUE, FALSE)>>,
           <<D("-a", FALSE, FALSE), D("xy", TRUE, FALSE), D("-b", TRUE, FALSE)>>}
DefsGood == {Ab, Lng, Req, None, Mix}
DefsErr == {Ab, Req, Mix} \cup BadSet
BoundsQ == {<<0, 2>>}
BoundsE == {<<0, 0>>, <<1, 1>>, <<2, 1>>}
BoundsX == {<<0, 3>>, <<1, 2>>, <<0, 0>>, <<2, 2>>, <<3, 2>>}
=============================================================================
