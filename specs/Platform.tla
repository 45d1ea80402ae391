------------------------------ MODULE Platform -------------------------------
(* Memory pages, cache flushing and standard streams                          *)
(* (include/Zycore/API/Memory.h, Process.h, Terminal.h) on POSIX systems.     *)
(*                                                                            *)
(* An arena of eight pages: the access rights of each one ("-": not mapped)   *)
(* and its contents; the kind of file behind each standard stream.            *)
EXTENDS Common

Pages == 1..8
Prots == {"R", "RW", "X", "RX", "RWX"}
Streams == 0..2
Kinds == {"tty", "pipe", "file", "null", "closed"}
Rights(m) == CASE m = "R" -> "r--" [] m = "RW" -> "rw-" [] m = "X" -> "--x" [] m = "RX" -> "r-x" [] m = "RWX" -> "rwx" [] m = "-" -> "-"
Readable(m) == m \in {"R", "RW", "RX", "RWX"}
Writable(m) == m \in {"RW", "RWX"}
Executable(m) == m \in {"X", "RX", "RWX"}
Start == [m |-> [p \in Pages |-> "RW"], g |-> [p \in Pages |-> 1], k |-> [s \in Streams |-> "null"]]

(* A range of n pages and x more bytes covers: *)
Covered(o) == IF o.x > 0 THEN o.n + 1 ELSE o.n
Empty(o) == o.n = 0 /\ o.x = 0
Range(o) == o.p .. (o.p + Covered(o) - 1)
Inside(o) == o.p + Covered(o) - 1 <= 8
Out(S, st) == [S |-> S, st |-> st]

Results(S, o) ==
    CASE o.op = "Protect" ->
           IF o.u # 0 THEN {Out(S, "BAD_SYSTEMCALL")}
           ELSE IF Empty(o) THEN {Out(S, "SUCCESS")}
           ELSE IF \A p \in Range(o) : S.m[p] # "-" THEN {Out([S EXCEPT !.m = [p \in Pages |-> IF p \in Range(o) THEN o.prot ELSE S.m[p]]], "SUCCESS")}
           \* pages in front of the first one that does not exist may have been changed by the system
           ELSE {Out([S EXCEPT !.m = [p \in Pages |-> IF p \in Range(o) /\ p < q THEN o.prot ELSE S.m[p]]], "BAD_SYSTEMCALL") :
                    q \in {q \in Range(o) : \A p \in Range(o) : p < q => S.m[p] # "-"}}
      [] o.op = "Free" ->
           IF o.u # 0 \/ Empty(o) THEN {Out(S, "BAD_SYSTEMCALL")}
           ELSE {Out([S EXCEPT !.m = [p \in Pages |-> IF p \in Range(o) THEN "-" ELSE S.m[p]], !.g = [p \in Pages |-> IF p \in Range(o) THEN 0 ELSE S.g[p]]], "SUCCESS")}
      [] o.op = "Flush" ->
           IF o.u = 0 /\ \A p \in Range(o) : S.m[p] # "-" THEN {Out(S, "SUCCESS")}
           ELSE {Out(S, "BAD_SYSTEMCALL")}
      [] o.op = "Map" -> IF S.m[o.p] = "-" THEN {Out([S EXCEPT !.m[o.p] = "RW", !.g[o.p] = 1], "SUCCESS")} ELSE {Out(S, "SKIPPED")}
      [] o.op = "Write" -> IF Writable(S.m[o.p]) THEN {Out([S EXCEPT !.g[o.p] = o.g], "SUCCESS")} ELSE {Out(S, "SKIPPED")}
      [] o.op \in {"Probe", "Sizes", "Sgr"} -> {Out(S, "SUCCESS")}
      [] o.op = "Huge" -> {Out(S, "SUCCESS"), Out(S, "SKIPPED")}
      [] o.op = "Stream" -> {Out([S EXCEPT !.k[o.s] = o.kind], "SUCCESS")}
      [] o.op = "IsTTY" -> {Out(S, CASE S.k[o.s] = "tty" -> "TRUE" [] S.k[o.s] = "closed" -> "INVALID_ARGUMENT" [] OTHER -> "FALSE")}
      \* terminals of POSIX systems understand the sequences without any ado
      [] o.op = "VT" -> {Out(S, IF o.s \in {1, 2} THEN "SUCCESS" ELSE "INVALID_ARGUMENT")}

(* ECMA-48: reset; default, standard and bright foreground and background colours *)
Code(k) == CASE k = 0 -> 0
             [] k = 1 -> 39 [] k \in 2..9 -> 30 + k - 2 [] k \in 10..17 -> 90 + k - 10
             [] k = 18 -> 49 [] k \in 19..26 -> 40 + k - 19 [] k \in 27..34 -> 100 + k - 27
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>

PagesMatch(e, S) ==
    /\ e.pg = [p \in Pages |-> Rights(S.m[p])]
    /\ \A p \in Pages : Readable(S.m[p]) => e.ct[p] = S.g[p]
    /\ e.guard                                             \* pages around the arena
Matches(e, S, r) ==
    /\ e.st = r.st
    /\ (e.op \in {"Protect", "Free", "Flush", "Map", "Write", "Probe", "Huge", "Sizes"}) => PagesMatch(e, r.S)
    /\ (e.op = "Probe") => LET m == S.m[e.p] IN /\ (m # "X" => (e.r <=> Readable(m)))
                                                /\ (e.w <=> Writable(m)) /\ (e.e <=> Executable(m))
    /\ (e.op = "Sizes") => e.r = e.ps /\ e.a = e.ps
    /\ (e.op = "Huge" /\ e.st = "SUCCESS") =>
         /\ e.at = <<"---", Rights(e.prot), Rights(e.prot), Rights(e.prot), "---">>
         /\ e.st6 = "SUCCESS" /\ e.st7 = "BAD_SYSTEMCALL" /\ e.st8 = "BAD_SYSTEMCALL"
         /\ e.st2 = "SUCCESS" /\ e.at2 = <<"---", "-", "-", "-", "---">>
         /\ e.st3 # "SUCCESS" /\ e.st4 = "BAD_SYSTEMCALL" /\ e.st5 = "BAD_SYSTEMCALL"
    \* asking about a terminal does not change or use it
    /\ (e.op \in {"IsTTY", "VT"}) => e.same /\ e.out = 0
    /\ (e.op = "Sgr") => e.b = <<27, 91>> \o Digits(Code(e.k)) \o <<109>>

(* ---- laws ---- *)
TypeOK(S) == \A p \in Pages : (S.m[p] = "-") <=> (S.g[p] = 0)
Laws(S, o, r) ==
    /\ \A p \in Pages : r.S.m[p] # S.m[p] =>
         \/ o.op = "Protect" /\ p \in Range(o) /\ o.u = 0 /\ r.S.m[p] = o.prot
         \/ o.op = "Free" /\ p \in Range(o) /\ o.u = 0 /\ r.S.m[p] = "-"
         \/ o.op = "Map" /\ p = o.p
    \* contents survive everything but writing and releasing
    /\ \A p \in Pages : r.S.g[p] # S.g[p] => o.op \in {"Free", "Map", "Write"}
    /\ (o.op = "Protect" /\ r.st = "SUCCESS") => \A p \in Range(o) : r.S.m[p] = o.prot
    /\ (o.op = "Free" /\ r.st = "SUCCESS") => \A p \in Range(o) : r.S.m[p] = "-"
    /\ (r.st \notin {"SUCCESS", "BAD_SYSTEMCALL"}) => r.S = S
=============================================================================
