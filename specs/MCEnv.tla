-------------------------------- MODULE MCEnv ---------------------------------
EXTENDS Env, TLC, Json
CONSTANTS Full, Emit
VARIABLES S, last
World(cc, os, arch, kernel, dbg, link) == [op |-> "World", cc |-> cc, os |-> os, arch |-> arch, kernel |-> kernel, dbg |-> dbg, link |-> link]
Kernels == {"no"} \cup DOMAIN KernelMacro
Archs == DOMAIN Processors
Oses == DOMAIN Systems
CCs == DOMAIN Compilers
Worlds == IF Full THEN {World(c, s, a, k, d, "static") : c \in CCs, s \in Oses, a \in Archs, k \in {"no", "windows", "apple", "linux"}, d \in {"none", "both"}}
                       \cup {World(c, s, "x64", k, d, l) : c \in CCs, s \in Oses, k \in Kernels, d \in DOMAIN Debugs, l \in DOMAIN Links}
          ELSE {World(c, s, "x64", "no", d, "static") : c \in CCs, s \in Oses, d \in {"none", "both"}}
               \cup {World(c, "windows", "x64", "no", d, l) : c \in CCs, d \in DOMAIN Debugs, l \in DOMAIN Links}
               \cup {World("gcc", s, a, "no", "none", "static") : s \in Oses, a \in Archs}
               \cup {World(c, "linux", a, "no", "none", "static") : c \in CCs, a \in Archs}
               \cup {World("gcc", s, "aarch64", k, "ndebug", "import") : s \in Oses, k \in Kernels}
               \cup {World(c, "emscripten", a, "no", "none", "static") : c \in CCs, a \in {"wasm", "unnamed"}}
Ts == DOMAIN Targets
Ops == {[defs |-> Predef(w)] @@ w : w \in {w \in Worlds : Sensible(w)}}
       \cup {[op |-> "Target", t |-> t, dbg |-> d, std |-> s] : t \in Ts, d \in {"none", "ndebug"}, s \in {"c11", "gnu11"}}
       \cup {[op |-> "Widths", t |-> t, lib |-> b, cxx |-> x] : t \in Ts, b \in BOOLEAN, x \in BOOLEAN}
       \cup {[op |-> "Sources", t |-> t] : t \in Ts}
       \cup {[op |-> "Headers", std |-> s, cc |-> c, lib |-> b] : s \in Standards, c \in {"gcc", "clang"}, b \in BOOLEAN}
       \cup {[op |-> "Static", std |-> s, cc |-> c, holds |-> b] : s \in Standards, c \in {"gcc", "clang"}, b \in BOOLEAN}
Init == S = Start /\ last = [none |-> TRUE]
Next == \E o \in Ops : \E r \in AnswersEnv(S, o) :
    /\ S' = r.S /\ last' = [o |-> o, r |-> r]
    /\ Emit => PrintT(ToJson([k |-> "E", s |-> S, o |-> o, t |-> r.S, n |-> 1]))
Spec == Init /\ [][Next]_<<S, last>>
View == S
Lawful == [][EnvLaws(S, last'.o, last'.r)]_<<S, last>>
TypeInv == S = Start
=============================================================================
