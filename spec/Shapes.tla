------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Enumeration of signatures: one supported method or function each.  TLC  *)
(* checks that the interface derived for each is coherent (TypeProps), and *)
(* prints every shape with it.  The harness replays the behaviours of      *)
(* Mockall on all of them.                                                 *)
(***************************************************************************)
EXTENDS Signatures

-----------------------------------------------------------------------------
(* Types *)

Leaves == {L("u32"), L("char"), L("String"), L("Opaque"), L("Cnt"), L("NotSend"), L("sstr")}
Wraps == {"Vec", "Option", "Box", "Rc", "Arc", "tup", "arr", "Result"}
Unsized == {Str, L("Path"), L("OsStr"), L("CStr"), L("dynNum"), L("dynNum2")}
\* everything that an argument may be, in a context without further names
Arg1 == Leaves \cup {L("bool"), L("fnptr"), L("boxdyn")}
Arg2 == {W(c, t) : c \in Wraps, t \in {U32, L("String"), L("Opaque")}}
Arg3 == {Ref(t) : t \in Leaves \cup Unsized \cup {W("slice", U32), W("slice", L("String"))}}
        \cup {Mut(t) : t \in {U32, L("String"), L("Opaque"), L("dynNum"), L("dynNum2"), W("slice", U32)}}
Arg4 == {Ref(t) : t \in Arg2} \cup {Mut(W(c, U32)) : c \in Wraps}
Arg5 == {Ref(Ref(U32)), Ref(Ref(Str)), Ref(W("slice", Ref(Str))), Ref(Ref(Ref(U32)))}
        \cup {W(c, Ref(t)) : c \in Wraps \ {"Result"}, t \in {U32, Str}}
        \cup {W("Option", Mut(U32)), Ref(W("Option", Ref(U32))), Ref(W("Vec", Ref(Str))), Mut(W("Option", U32))}
        \cup {L("Lend"), Ref(L("Lend"))}
Args0 == Arg1 \cup Arg2 \cup Arg3 \cup Arg4 \cup Arg5

RetVal == {U32, L("String"), L("NotSend"), L("Opaque"), L("sstr"), L("boxdyn"), L("i64"), None}
          \cup {W(c, t) : c \in Wraps, t \in {U32, L("String")}}
          \cup {L("impliter"), L("boxfn"), L("sdyn"), L("implfut"), L("implstream"), L("implmulti")}
RetRef == {Ref(t) : t \in {U32, L("String"), Str, L("Path"), L("OsStr"), L("CStr"), L("dynNum"), L("dynNum2"),
                           W("slice", U32), W("Option", U32), W("Vec", L("String")), W("Box", U32)}}
RetMut == {Mut(t) : t \in {U32, L("String"), L("dynNum"), L("dynNum2"), W("slice", U32), W("Option", U32), W("Vec", L("String"))}}

-----------------------------------------------------------------------------
(* Families of shapes *)

\* receivers, with every way to return
FamRecv == {Shape("recv", c, r, <<U32>>, t, "", {}) :
              c \in AllConts, r \in (Borrowing \ {"reflt"}) \cup Consuming \cup {"none"},
              t \in {U32, L("String"), Ref(U32), Ref(Str), Mut(U32)}}
\* argument types
FamArg == {Shape("arg", c, r, <<t>>, U32, "", {}) :
              c \in AllConts, r \in {"none", "ref"}, t \in Args0}
\* argument types in each of two positions
PairTypes == {U32, L("String"), L("Opaque"), Ref(U32), Ref(Str), Mut(U32), W("Vec", U32), Ref(W("slice", U32)), W("Option", Ref(U32))}
FamPair == {Shape("pair", c, IF c = "mod" THEN "none" ELSE "ref", <<s, t>>, U32, "", {}) :
              c \in (IF Big THEN AllConts ELSE {"ms", "at", "mod"}), s \in PairTypes, t \in PairTypes}
\* three arguments, with a returned reference
TriTypes == {U32, Ref(Str), Mut(U32)}
FamTri == {Shape("tri", c, "mut", <<s, t, u>>, r, "", {}) :
              c \in {"mt", "as"}, s \in TriTypes, t \in TriTypes, u \in TriTypes, r \in {Ref(U32), Mut(U32)}}
\* return types
FamRet == {Shape("ret", c, r, <<U32>>, t, "", {}) :
              c \in AllConts, r \in {"none", "ref", "mut"}, t \in RetVal \cup RetRef \cup RetMut}
\* no arguments at all
FamNoArg == {Shape("noarg", c, r, <<>>, t, "", {}) :
              c \in AllConts, r \in {"none", "ref", "mut", "own"}, t \in {U32, None, Ref(Str), Mut(U32)}}
\* generic methods.  T is the parameter; the harness instantiates it
GenForms == {"T", "Twhere", "Tbound", "T2", "Tuns"}
GenArgs == {L("T"), Ref(L("T")), Mut(L("T")), Ref(W("slice", L("T")))}
           \cup {W(c, L("T")) : c \in {"Vec", "Option", "Box", "tup", "arr"}} \cup {Ref(W("Option", L("T")))}
FamGen == {Shape("gen", c, r, <<t>>, u, g, {}) :
              c \in AllConts, r \in {"none", "ref"}, t \in GenArgs, u \in {U32}, g \in {"T", "Twhere", "Twhere3"}}
          \cup {Shape("gen", c, r, <<t>>, u, g, {}) :
              c \in AllConts, r \in {"none", "ref", "mut"}, t \in {L("T"), W("Vec", L("T"))},
              u \in {L("T"), W("Option", L("T")), Ref(L("T")), Mut(L("T"))}, g \in {"T", "Tbound"}}
          \cup {Shape("gen", c, r, <<L("T"), L("T2")>>, U32, "T2", {}) : c \in AllConts, r \in {"none", "ref", "own"}}
          \cup {Shape("gen", c, r, <<U32>>, L("T"), g, {}) : c \in AllConts, r \in {"none", "ref"}, g \in {"T", "Twhere"}}
          \cup {Shape("gen", c, r, <<t>>, U32, "Tuns", {}) : c \in AllConts, r \in {"none", "ref"}, t \in {W("Box", L("T")), Ref(L("T"))}}
\* closures as arguments
FamClos == {Shape("clos", c, r, <<U32, L(f)>>, U32, g, {}) :
              c \in AllConts, r \in {"none", "ref"}, f \in {"Fn", "FnMut", "FnOnce", "FnSend", "FnMore"}, g \in {"F", "Fwhere"}}
\* type parameters of the container
FamG == {Shape("gcont", c, r, <<t>>, u, "", {}) :
              c \in Generic, r \in {"none", "ref"},
              t \in {L("G"), Ref(L("G")), W("Vec", L("G")), Ref(W("slice", L("G"))), W("Option", Ref(L("G"))), Mut(L("G"))}, u \in {U32, L("G"), Ref(L("G"))}}
        \cup {Shape("gcont", c, r, <<L("G"), L("T")>>, u, "T", {}) : c \in Generic, r \in {"none", "ref"}, u \in {U32, L("G"), L("T")}}
\* lifetime parameters
FamLt == {Shape("lt", c, r, <<W("reflt", t)>>, u, g, {}) :
              c \in AllConts, r \in {"none", "ref"}, t \in {U32, Str, L("String"), W("Option", U32)}, u \in {U32}, g \in {"lt1", "ltbound", "ltwhere"}}
         \cup {Shape("lt", c, r, <<W("reflt", t), W("reflt2", s)>>, U32, g, {}) :
              c \in AllConts, r \in {"none", "ref"}, t \in {U32, Str}, s \in {U32, Str}, g \in {"lt2", "ltbound", "ltwhere"}}
         \cup {Shape("lt", c, r, <<L("Lendlt")>>, U32, "lt1", {}) : c \in AllConts, r \in {"none", "ref"}}
         \cup {Shape("lt", c, r, <<W("Option", W("reflt", t))>>, U32, "lt1", {}) : c \in AllConts, r \in {"none", "ref"}, t \in {U32, Str}}
         \cup {Shape("lt", c, "reflt", <<U32>>, u, "ltself", {}) : c \in AllConts \ Mods, u \in {U32, L("sstr")}}
         \cup {Shape("lt", c, "ref", <<U32>>, u, "", {}) : c \in AllConts \ Mods, u \in {L("Heldany"), Ref(L("Heldstatic")), L("Twoany"), W("tup2", L("Heldany")), W("tup3", L("Heldany"))}}
         \cup {Shape("lt", c, "ref", <<U32>>, L("Heldlt"), "lt1", {}) : c \in AllConts \ Mods}
\* Self and associated types
SelfTys == {Ref(L("Self")), W("Option", Ref(L("Self"))), Mut(L("Self"))}
FamSelf == {Shape("self", c, r, <<U32, t>>, U32, "", {}) : c \in AllConts \ Mods, r \in {"ref", "none"}, t \in SelfTys}
           \cup {Shape("self", c, r, <<U32>>, t, "", {}) : c \in AllConts \ Mods, r \in {"ref", "none", "own"}, t \in {L("Self"), W("Option", L("Self")), W("Box", L("Self"))}}
AssocTys == {L("Key"), Ref(L("Key")), W("Vec", L("Key")), L("QKey"), Ref(L("QKey")), W("Option", L("QKey")), Ref(W("slice", L("Key")))}
FamAssoc == {Shape("assoc", c, r, <<t>>, u, "", {}) : c \in Traits, r \in {"ref", "none"}, t \in AssocTys,
              u \in {U32, L("Key"), L("QKey"), Ref(L("Key")), W("Option", L("Key"))}}
\* every way to nest a type, with every name that has to be translated
NestFns == {"fnin", "fnin2", "fnout"}
NestDyns == {"dynin", "dynin2", "dynout"}
NestRet == {"tup2", "tup3", "res2", "ptr", "dynassoc", "dynsrc", "Rc", "Arc"} \cup NestDyns
Nests == NestRet \cup NestFns
NestNames(c) == {L("SupT"), L("Sup2T"), L("CrateT"), U32}
                \cup (IF c \in Mods THEN {} ELSE {L("Self")})
                \cup (IF c \in Traits THEN {L("Key"), L("QKey")} ELSE {})
                \cup (IF c \in Generic THEN {L("G")} ELSE {})
FamNest == UNION {
    {Shape("nest", c, r, <<W(k, t)>>, U32, "", {}) : r \in {"ref", "none"}, k \in Nests, t \in NestNames(c)}
    \cup {Shape("nest", c, r, <<W(k, W("reflt", U32))>>, U32, "lt1", {}) : r \in {"ref", "none"}, k \in NestRet \ NestDyns}
    \cup {Shape("nest", c, r, <<W(k, L("T"))>>, U32, "T", {}) : r \in {"ref", "none"}, k \in Nests}
    \cup {Shape("nest", c, r, <<U32>>, W(k, t), "", {}) : r \in {"ref", "none"}, k \in NestRet, t \in NestNames(c)}
    : c \in AllConts}
\* paths relative to the enclosing module
PathTys == {L("SupT"), L("Sup2T"), L("SelfT"), L("CrateT"), L("PrivT"), L("MutexT"), L("RangeT"), L("memT")}
FamPath == {Shape("path", c, r, <<t>>, u, "", {}) : c \in AllConts, r \in {"ref", "none"},
              t \in PathTys \cup {Ref(p) : p \in PathTys} \cup {W(w, p) : w \in {"Vec", "tup", "arr", "Option", "Box"}, p \in {L("SupT"), L("Sup2T"), L("CrateT")}}
                    \cup {Ref(W("slice", L("SupT"))), Mut(L("Sup2T")), W("Option", Ref(L("SupT")))},
              u \in {U32}}
           \cup {Shape("path", c, r, <<U32>>, u, "", {}) : c \in AllConts, r \in {"ref", "none", "mut"},
              u \in PathTys \cup {Ref(L("SupT")), Ref(L("CrateT")), Mut(L("Sup2T")), W("Vec", L("SupT")), W("Result", L("Sup2T"))}}
           \cup {Shape("path", c, r, <<L("T")>>, U32, g, {}) : c \in AllConts, r \in {"ref", "none"}, g \in {"Tsup", "Tsupwhere", "Tsupbound"}}
           \cup {Shape("path", c, r, <<L("T")>>, t, "Tsup", {}) : c \in AllConts, r \in {"ref", "mut"}, t \in {Ref(L("SupT")), Mut(L("SupT")), Ref(L("T"))}}
           \cup {Shape("path", c, r, <<L("T"), L("G")>>, U32, g, {"supG"}) : c \in Generic, r \in {"ref", "none"}, g \in {"T", "Tsup"}}
           \cup {Shape("path", c, r, <<L("G")>>, U32, "", {"supG"}) : c \in Generic, r \in {"ref", "none"}}
           \cup {Shape("path", c, "ref", <<U32, L(f)>>, U32, g, {}) : c \in AllConts \ Mods, f \in {"FnSup"}, g \in {"F", "Fwhere"}}
           \cup {Shape("path", c, r, <<t>>, U32, "", {}) : c \in AllConts, r \in {"ref", "none"}, t \in {L("boxdynSup"), Ref(L("dynSup")), L("fnptrSup")}}
\* visibility: the methods are called from outside or inside the module
Viss == {"pub", "pubcrate", "pubsuper", "pubin", "pubinsup", "priv"}
FamVis == {Shape("vis", c, r, <<U32>>, u, g, {"vis:" \o v}) :
              c \in {"ms", "as", "mod", "mg", "ax"}, r \in {"ref", "none"}, u \in {U32, Ref(U32)}, g \in {"", "T"}, v \in Viss}
\* other modifiers
FamMod == {Shape("mod", c, r, <<t>>, u, "", {f}) :
              c \in AllConts, r \in {"ref", "none", "mut", "own"}, t \in {U32, Ref(Str)}, u \in {U32, Ref(U32)}, f \in {"unsafe", "extern", "mutarg", "wheresized", "default"}}
FamAsync == {Shape("async", c, r, <<t>>, u, g, {"async"}) :
              c \in AllConts, r \in {"ref", "none", "mut", "own"}, t \in {U32, Ref(Str), L("String")}, u \in {U32, L("String"), None}, g \in {""}}
            \cup {Shape("async", c, r, <<L("T")>>, u, "T", {"async"}) : c \in AllConts, r \in {"ref", "none"}, u \in {U32, L("T")}}
\* with the async_trait attribute, whose futures are Send or not
ATRecvs == {"ref", "none", "mut", "own", "box", "selfref"}
FamATrait == {Shape("atrait" \o x, c, r, <<t>>, U32, "", {"async"}) :
              x \in {"", "ns"}, c \in Traits, r \in ATRecvs,
              t \in {U32, Ref(Str), Ref(U32), Mut(U32), L("String"), W("Option", L("String")), Ref(W("slice", U32)), L("NotSend")}}
            \cup {Shape("atrait" \o x, c, r, <<Ref(Str)>>, u, "", {"async"}) :
              x \in {"", "ns"}, c \in Traits, r \in ATRecvs, u \in {L("String"), None, W("Result", U32), W("Vec", L("String"))}}
            \cup {Shape("atrait", c, r, <<Ref(Str)>>, U32, "", {"async", f}) : c \in Traits, r \in ATRecvs, f \in {"default", "mutarg"}}
            \cup {Shape("atrait", c, r, <<t, L("String"), Ref(Str)>>, u, "Twhere", {"async"}) :
              c \in Traits, r \in {"ref", "none", "mut"}, t \in {L("T"), Ref(L("T"))}, u \in {U32, L("T"), None}}
            \cup {Shape("atrait", c, r, <<t>>, u, "lt1", {"async"}) :
              c \in Traits, r \in {"ref", "none", "mut"}, t \in {W("reflt", U32), W("reflt", Str), W("Option", W("reflt", U32))}, u \in {U32, None}}
            \cup {Shape("atrait", c, r, <<t>>, u, "", {"async"}) :
              c \in Generic \cap Traits, r \in {"ref", "none"}, t \in {L("G"), Ref(L("G"))}, u \in {U32, L("G"), None}}
            \cup {Shape("atrait", c, r, <<U32>>, u, "", {"async"}) : c \in Traits, r \in {"ref", "mut", "selfref"}, u \in RetRef \cup RetMut}
            \cup {Shape("async", c, r, <<U32>>, u, "", {"async"}) : c \in AllConts, r \in {"ref", "mut", "selfref"}, u \in RetRef \cup RetMut}
            \cup {Shape("atrait", c, r, <<>>, u, "", {"async"}) : c \in Traits, r \in {"ref", "none", "mut"}, u \in {U32, None}}
\* names: raw identifiers, and methods called like those of the mock itself
FamName == {Shape("name", c, r, <<U32>>, U32, g, {"name:" \o n}) :
              c \in AllConts, r \in {"ref", "none"}, g \in {"", "T"}, n \in {"r#type", "r#match", "expect", "call", "get", "returning", "times", "self_", "matches"}}

Families == FamRecv \cup FamArg \cup FamPair \cup FamTri \cup FamRet \cup FamNoArg \cup FamGen \cup FamClos \cup FamG
            \cup FamLt \cup FamSelf \cup FamAssoc \cup FamPath \cup FamVis \cup FamMod \cup FamAsync \cup FamATrait \cup FamName \cup FamNest

-----------------------------------------------------------------------------
Shapes == {s \in Families : Supported(s)}

VARIABLE sh
Init == sh \in Shapes
Next == UNCHANGED sh

TypeProps == WellFormed(sh)
Emit == PrintT("@P" \o ToJson(Derived(sh)))
=============================================================================
