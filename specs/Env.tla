--------------------------------- MODULE Env -----------------------------------
(* The environment the library is compiled for (Defines.h, Types.h, LibC.h):   *)
(* compilers, platforms, architectures, modes, and what has to be recognised.  *)
(*                                                                            *)
(* A world is a combination of toolchain, system and processor. What its       *)
(* compiler predefines (Predef) and what the library has to make of it (Names) *)
(* are stated independently of each other. Real targets of a cross compiler    *)
(* are in the table Targets; their predefined macros come from the compiler.   *)
EXTENDS Types

(* ---- toolchains: predefined macros, names ---- *)
Compilers == [clang   |-> <<{"__clang__=1", "__GNUC__=4"},                            {"CLANG", "GNUC"}>>,
              clangcl |-> <<{"__clang__=1", "_MSC_VER=1930"},                         {"CLANG", "GNUC"}>>,
              icx     |-> <<{"__clang__=1", "__GNUC__=4", "__INTEL_LLVM_COMPILER=1"}, {"CLANG", "GNUC"}>>,
              icc     |-> <<{"__ICC=2021", "__INTEL_COMPILER=2021", "__GNUC__=9"},    {"ICC"}>>,
              iccold  |-> <<{"__ICC=900", "__GNUC__=3"},                              {"ICC"}>>,
              iclwin  |-> <<{"__INTEL_COMPILER=2021", "_MSC_VER=1920"},               {"ICC"}>>,
              gcc     |-> <<{"__GNUC__=13"},                                          {"GCC", "GNUC"}>>,
              gxx     |-> <<{"__GNUC__=13", "__GNUG__=13"},                           {"GCC", "GNUC"}>>,
              gxxonly |-> <<{"__GNUG__=13"},                                          {"GCC", "GNUC"}>>,
              msvc    |-> <<{"_MSC_VER=1930"},                                        {"MSVC"}>>,
              borland |-> <<{"__BORLANDC__=1"},                                       {"BORLAND"}>>,
              tcc     |-> <<{"__TINYC__=1"},                                          {"UNKNOWN_COMPILER"}>>]
Microsoft == {"clangcl", "iclwin", "msvc", "borland"}        \* speak the Microsoft dialect of architecture macros

Systems == [windows    |-> <<{"_WIN32=1"},                                              {"WINDOWS"}>>,
            emscripten |-> <<{"__EMSCRIPTEN__=1", "__unix=1", "__unix__=1"},            {"EMSCRIPTEN"}>>,
            wasi       |-> <<{"__wasi__=1"},                                            {"WASI"}>>,
            wasi2      |-> <<{"__WASI__=1"},                                            {"WASI"}>>,
            apple      |-> <<{"__APPLE__=1", "__MACH__=1"},                             {"APPLE", "POSIX"}>>,
            linux      |-> <<{"__linux=1", "__linux__=1", "__unix=1", "__unix__=1"},    {"LINUX", "POSIX"}>>,
            android    |-> <<{"__linux=1", "__linux__=1", "__unix__=1", "__ANDROID__=1"}, {"LINUX", "POSIX"}>>,
            freebsd    |-> <<{"__FreeBSD__=13", "__unix=1", "__unix__=1"},              {"FREEBSD", "POSIX"}>>,
            netbsd     |-> <<{"__NetBSD__=1", "__unix=1", "__unix__=1"},                {"NETBSD", "POSIX"}>>,
            openbsd    |-> <<{"__OpenBSD__=1", "__unix__=1"},                           {"UNIX", "POSIX"}>>,
            oldunix    |-> <<{"__unix=1"},                                              {"UNIX", "POSIX"}>>,
            cygwin     |-> <<{"__CYGWIN__=1", "__unix=1", "__unix__=1"},                {"UNIX", "POSIX"}>>,
            solaris    |-> <<{"sun=1", "__sun=1", "__unix=1", "__unix__=1"},            {"SOLARIS", "POSIX"}>>,
            solaris2   |-> <<{"__sun=1"},                                               {"SOLARIS", "POSIX"}>>,
            sunos      |-> <<{"sun=1"},                                                 {"SOLARIS", "POSIX"}>>,
            haiku      |-> <<{"__HAIKU__=1"},                                           {"HAIKU", "POSIX"}>>,
            posix      |-> <<{"__posix=1"},                                             {"POSIX"}>>,
            nosystem   |-> <<{},                                                        {"UNKNOWN_PLATFORM"}>>]
KernelMacro == [windows |-> "_KERNEL_MODE=1", apple |-> "KERNEL=1", linux |-> "__KERNEL__=1", android |-> "__KERNEL__=1"]

\* GNU dialect, Microsoft dialect, name ("" is refused)
Processors == [x64     |-> <<{"__x86_64__=1", "__amd64__=1"}, {"_M_AMD64=100", "_M_X64=100"}, "X64">>,
               x86     |-> <<{"__i386__=1"},                  {"_M_IX86=600"},                "X86">>,
               aarch64 |-> <<{"__aarch64__=1"},               {"_M_ARM64=1"},                 "AARCH64">>,
               arm     |-> <<{"__arm__=1"},                   {"_M_ARM=7"},                   "ARM">>,
               thumb   |-> <<{"__thumb__=1", "__arm__=1"},    {"_M_ARMT=7", "_M_THUMB=7"},    "ARM">>,
               thumb2  |-> <<{"__thumb__=1"},                 {"_M_ARMT=7"},                  "ARM">>,
               wasm    |-> <<{"__wasm__=1"},                  {"__wasm__=1"},                 "WASM">>,
               wasm2   |-> <<{"__WASM__=1"},                  {"__WASM__=1"},                 "WASM">>,
               loong   |-> <<{"__loongarch__=1"},             {"__loongarch__=1"},            "LOONGARCH">>,
               ppc64   |-> <<{"__powerpc64__=1", "__powerpc__=1"}, {"__powerpc64__=1", "__powerpc__=1"}, "PPC64">>,
               ppc     |-> <<{"__powerpc__=1"},               {"__powerpc__=1"},              "PPC">>,
               riscv64 |-> <<{"__riscv=1", "__riscv_xlen=64"}, {"__riscv=1", "__riscv_xlen=64"}, "RISCV64">>,
               riscv32 |-> <<{"__riscv=1", "__riscv_xlen=32"}, {"__riscv=1", "__riscv_xlen=32"}, "">>,
               mips    |-> <<{"__mips__=1"},                  {"_M_MRX000=1"},                "">>,
               sparc   |-> <<{"__sparc__=1"},                 {"__sparc__=1"},                "">>,
               s390    |-> <<{"__s390x__=1"},                 {"__s390x__=1"},                "">>,
               itanium |-> <<{"__ia64__=1"},                  {"_M_IA64=1"},                  "">>,
               unnamed |-> <<{},                              {},                             "">>]
Debugs == [none |-> {}, ndebug |-> {"NDEBUG=1"}, debug |-> {"_DEBUG=1"}, both |-> {"NDEBUG=1", "_DEBUG=1"}]
Links == [static |-> {"ZYCORE_STATIC_BUILD=1"}, oldstatic |-> {"ZYCORE_STATIC_DEFINE=1"}, export |-> {"ZYCORE_SHOULD_EXPORT=1"},
          oldexport |-> {"Zycore_EXPORTS=1"}, import |-> {}]

\* Web assembly systems run on web assembly only; asm.js code of Emscripten has no processor of its own
Sensible(o) == (o.os \in {"emscripten", "wasi", "wasi2"}) => o.arch \in {"wasm", "wasm2"} \/ (o.os = "emscripten" /\ o.arch = "unnamed")
Predef(o) == Compilers[o.cc][1] \cup Systems[o.os][1]
             \cup (IF o.cc = "clangcl" THEN Processors[o.arch][1] \cup Processors[o.arch][2]
                   ELSE IF o.cc \in Microsoft THEN Processors[o.arch][2] ELSE Processors[o.arch][1])
             \* the macro of a kernel, which says something on its own system only
             \cup (IF o.kernel = "no" THEN {} ELSE {KernelMacro[o.kernel]})
             \cup Debugs[o.dbg] \cup Links[o.link]
Arch(o) == IF o.os = "emscripten" /\ o.arch = "unnamed" THEN "WASM" ELSE Processors[o.arch][3]
System(o) == IF o.os = "android" THEN "linux" ELSE o.os
InKernel(o) == o.kernel # "no" /\ KernelMacro[o.kernel] \in {IF System(o) \in {"windows", "apple", "linux"} THEN KernelMacro[System(o)] ELSE ""}
IsDebug(cc, dbg) == IF cc \in {"msvc", "borland"} THEN dbg \in {"debug", "both"}
                    ELSE IF cc = "tcc" THEN FALSE ELSE dbg \in {"none", "debug"}
NamesIn(o) == Compilers[o.cc][2] \cup Systems[o.os][2] \cup {Arch(o)} \cup {IF InKernel(o) THEN "KERNEL" ELSE "USER"}
            \cup {IF IsDebug(o.cc, o.dbg) THEN "DEBUG" ELSE "RELEASE"}
Export(o) == IF o.cc # "msvc" \/ o.link \in {"static", "oldstatic"} THEN "none" ELSE IF o.link \in {"export", "oldexport"} THEN "export" ELSE "import"

(* ---- real targets: system, processor, bytes of a pointer ---- *)
Targets == [
  x86_64_linux_gnu |-> <<"linux", "x64", 8>>, i386_linux_gnu |-> <<"linux", "x86", 4>>, x86_64_linux_gnux32 |-> <<"linux", "x64", 4>>,
  x86_64_linux_android |-> <<"linux", "x64", 8>>, aarch64_linux_android |-> <<"linux", "aarch64", 8>>,
  aarch64_linux_gnu |-> <<"linux", "aarch64", 8>>, aarch64_be_linux_gnu |-> <<"linux", "aarch64", 8>>,
  arm_linux_gnueabihf |-> <<"linux", "arm", 4>>, armeb_linux_gnueabi |-> <<"linux", "arm", 4>>, thumbv7_linux_gnueabihf |-> <<"linux", "arm", 4>>,
  arm_none_eabi |-> <<"nosystem", "arm", 4>>, x86_64_unknown_elf |-> <<"nosystem", "x64", 8>>, riscv64_unknown_elf |-> <<"nosystem", "riscv64", 8>>,
  arm64_apple_darwin |-> <<"apple", "aarch64", 8>>, x86_64_apple_darwin |-> <<"apple", "x64", 8>>, arm64_32_apple_watchos |-> <<"apple", "aarch64", 4>>,
  x86_64_pc_windows_msvc |-> <<"windows", "x64", 8>>, i686_pc_windows_msvc |-> <<"windows", "x86", 4>>, aarch64_pc_windows_msvc |-> <<"windows", "aarch64", 8>>,
  armv7_pc_windows_msvc |-> <<"windows", "arm", 4>>, x86_64_w64_mingw32 |-> <<"windows", "x64", 8>>, i686_w64_mingw32 |-> <<"windows", "x86", 4>>,
  x86_64_unknown_freebsd |-> <<"freebsd", "x64", 8>>, powerpc_unknown_freebsd |-> <<"freebsd", "ppc", 4>>, x86_64_unknown_netbsd |-> <<"netbsd", "x64", 8>>, i386_unknown_netbsd |-> <<"netbsd", "x86", 4>>,
  x86_64_unknown_openbsd |-> <<"openbsd", "x64", 8>>, x86_64_unknown_dragonfly |-> <<"openbsd", "x64", 8>>, x86_64_pc_cygwin |-> <<"cygwin", "x64", 8>>,
  x86_64_pc_solaris |-> <<"solaris", "x64", 8>>, i386_pc_solaris |-> <<"solaris", "x86", 4>>, x86_64_unknown_haiku |-> <<"haiku", "x64", 8>>, i586_unknown_haiku |-> <<"haiku", "x86", 4>>,
  powerpc64_ibm_aix |-> <<"oldunix", "ppc64", 8>>, wasm32_unknown_emscripten |-> <<"emscripten", "wasm", 4>>, wasm32_wasi |-> <<"wasi", "wasm", 4>>,
  wasm32_unknown_unknown |-> <<"nosystem", "wasm", 4>>, wasm64_unknown_unknown |-> <<"nosystem", "wasm", 8>>,
  loongarch64_linux_gnu |-> <<"linux", "loong", 8>>, loongarch32_linux_gnu |-> <<"linux", "loong", 4>>,
  powerpc64le_linux_gnu |-> <<"linux", "ppc64", 8>>, powerpc64_linux_gnu |-> <<"linux", "ppc64", 8>>, powerpc_linux_gnu |-> <<"linux", "ppc", 4>>,
  riscv64_linux_gnu |-> <<"linux", "riscv64", 8>>,
  riscv32_linux_gnu |-> <<"linux", "riscv32", 4>>, mips64_linux_gnu |-> <<"linux", "mips", 8>>, s390x_linux_gnu |-> <<"linux", "s390", 8>>, sparcv9_sun_solaris |-> <<"solaris", "sparc", 8>>]
Supported(t) == Processors[Targets[t][2]][3] # ""
TargetNames(t, dbg) == {"CLANG", "GNUC", "USER"} \cup Systems[Targets[t][1]][2] \cup {Processors[Targets[t][2]][3]} \cup {IF dbg = "ndebug" THEN "RELEASE" ELSE "DEBUG"}
TypesOf(t) == [n \in TypeNames |-> <<Width(n, Targets[t][3]), Signed(n)>>]
LimitsOf == [U8 |-> <<"255", "0">>, U16 |-> <<"65535", "0">>, U32 |-> <<"4294967295", "0">>, U64 |-> <<"18446744073709551615", "0">>,
             I8 |-> <<"127", "-128">>, I16 |-> <<"32767", "-32768">>, I32 |-> <<"2147483647", "-2147483648">>, I64 |-> <<"9223372036854775807", "-9223372036854775808">>]

Standards == {"c99", "c11", "c17", "gnu99", "gnu11", "gnu17", "c++11", "c++14", "c++17", "c++20", "gnu++17"}

AnswersEnv(S, o) == {Out(
    CASE o.op = "World"   -> IF Arch(o) = "" THEN [ok |-> FALSE] ELSE [ok |-> TRUE, m |-> NamesIn(o), ex |-> Export(o)]
      [] o.op = "Target"  -> IF ~Supported(o.t) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, m |-> TargetNames(o.t, o.dbg)]
      [] o.op = "Widths"  -> IF ~Supported(o.t) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, ty |-> TypesOf(o.t), lim |-> LimitsOf]
      \* everything compiles without a C library / each public header compiles alone, and all of them together, twice
      [] o.op = "Sources" -> IF ~Supported(o.t) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, bad |-> <<>>]
      [] o.op = "Headers" -> [ok |-> TRUE, bad |-> <<>>]
      \* a static assertion is accepted exactly if it holds
      [] o.op = "Static"  -> [ok |-> o.holds]
      [] OTHER -> [none |-> TRUE])}
Range(s) == {s[i] : i \in DOMAIN s}
FitsEnv(e, S, r) == \A f \in DOMAIN r.r : f \in DOMAIN e /\ (IF f = "m" THEN Range(e.m) = r.r.m ELSE e[f] = r.r[f])

(* ---- laws of the tables ---- *)
Exactly1(s, from) == Cardinality(s \cap from) = 1
EnvLaws(S, o, r) ==
    (o.op \in {"World", "Target"} /\ r.r.ok) =>
        /\ Exactly1(r.r.m, {"CLANG", "ICC", "GCC", "MSVC", "BORLAND", "UNKNOWN_COMPILER"})
        /\ Exactly1(r.r.m, {Processors[p][3] : p \in DOMAIN Processors} \ {""})
        /\ Exactly1(r.r.m, {"USER", "KERNEL"}) /\ Exactly1(r.r.m, {"DEBUG", "RELEASE"})
        /\ Exactly1(r.r.m, {"WINDOWS", "EMSCRIPTEN", "WASI", "UNKNOWN_PLATFORM", "POSIX"})
        /\ Cardinality(r.r.m \cap {"WINDOWS", "EMSCRIPTEN", "WASI", "UNKNOWN_PLATFORM", "APPLE", "LINUX", "FREEBSD", "NETBSD", "SOLARIS", "HAIKU", "UNIX"}) <= 1
        /\ ("GNUC" \in r.r.m) <=> ("CLANG" \in r.r.m \/ "GCC" \in r.r.m)
        /\ ("KERNEL" \in r.r.m) => (r.r.m \cap {"WINDOWS", "APPLE", "LINUX"} # {})
=============================================================================
