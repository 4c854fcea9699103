----------------------------- MODULE Signatures -----------------------------
(***************************************************************************)
(* The signatures that mockall supports, and the interface that a mock must*)
(* offer for each.                                                         *)
(*                                                                         *)
(* A shape is one method or function: where it is declared (cont), its     *)
(* receiver, the types of its arguments, its return type, its generics and *)
(* other flags.  Types are abstract syntax: <<name>> for a leaf and        *)
(* <<constructor, type>> otherwise.  For every shape the module defines    *)
(* what the mock's expectation must accept and pass:                       *)
(*   PredTy   what predicates and withf see, behind one reference          *)
(*   ActTy    what the closure given to returning gets                     *)
(*   Owned    what that closure, return_const and so on must produce       *)
(*   Kind     by value, by reference or by mutable reference               *)
(* Resolve replaces names that mean something only at the declaration:     *)
(* Self, associated types, generics, super:: paths.                        *)
(*                                                                         *)
(* Modules Shapes and Items enumerate signatures; the harness declares      *)
(* exactly these, and configures them through exactly the derived types.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANT Big

L(n) == <<n>>
W(c, t) == <<c, t>>
U32 == L("u32")
Str == L("str")
Ref(t) == W("ref", t)
Mut(t) == W("refmut", t)
None == L("none")       \* no return type

IsRef(t) == t[1] \in {"ref", "refmut"}
Borrowed(t) == IsRef(t)

RECURSIVE Size(_), Leaf(_), Has(_, _)
Size(t) == IF Len(t) = 1 THEN 1 ELSE 1 + Size(t[2])
Leaf(t) == IF Len(t) = 1 THEN t[1] ELSE Leaf(t[2])
\* does constructor or leaf n occur in t?
Has(t, n) == t[1] = n \/ (Len(t) = 2 /\ Has(t[2], n))

-----------------------------------------------------------------------------
(* Containers and receivers *)

Mock == {"ms", "mt", "mg", "mi"}             \* mock!: inherent method, trait method, generic struct, generic trait
Auto == {"at", "as", "ai", "ag", "ax"}       \* #[automock]: trait, impl block, impl Trait for, generic trait, generic struct
Mods == {"mod"}                              \* #[automock]: module of functions
Traits == {"mt", "mi", "at", "ai", "ag"}     \* methods that belong to a trait
Inherent == {"ms", "mg", "as", "ax"}
Generic == {"mg", "mi", "ag", "ax"}          \* the type parameter G is in scope
AllConts == Mock \cup Auto \cup Mods

Borrowing == {"ref", "mut", "selfref", "selfmut", "pinmut", "pinref", "reflt"}
Consuming == {"own", "ownmut", "box", "rc", "arc", "pinbox"}
NeedsMut == {"mut", "selfmut", "pinmut"}

-----------------------------------------------------------------------------
(* Shapes *)

Shape(fam, cont, recv, args, ret, gen, flags) ==
    [fam |-> fam, cont |-> cont, recv |-> recv, args |-> args, ret |-> ret, gen |-> gen, flags |-> flags]

RecvsOf(c) == IF c = "mod" THEN {"none"} ELSE Borrowing \cup Consuming \cup {"none"}

-----------------------------------------------------------------------------
(* Derived interface *)

KindOf(s) == CASE s.recv \in Consuming -> "own"
               [] s.ret[1] = "ref" -> "ref"
               [] s.ret[1] = "refmut" -> "mut"
               [] OTHER -> "val"

\* what is there instead of a name that only the declaration knows
Subst(s, n) ==
    CASE n = "Self" -> "Mock"
      [] n \in {"Key", "QKey"} -> "u16"
      [] n = "G" -> "u32"
      [] n = "T" -> IF s.gen \in {"Tsup", "Tsupwhere"} THEN "SupT" ELSE "u64"
      [] n = "T2" -> "String"
      [] n \in {"Fn", "FnMut", "FnOnce"} -> "box" \o n
      [] n = "FnSup" -> "boxFnSup"
      [] n = "Lendlt" -> "Lend"
      [] n \in {"FnSend", "FnMore"} -> "box" \o n
      [] n \in {"Heldlt", "Heldany"} -> "Heldstatic"
      [] n = "Twoany" -> "Twostatic"
      [] n = "implstream" -> "boxstream"
      [] n = "implmulti" -> "boxmulti"
      [] n = "impliter" -> "boxiter"
      [] n = "implfut" -> "boxfut"
      [] n \in {"reflt", "reflt2"} -> "ref"
      [] OTHER -> n
RECURSIVE Resolve(_, _)
Resolve(s, t) == IF Len(t) = 1 THEN <<Subst(s, t[1])>> ELSE <<Subst(s, t[1]), Resolve(s, t[2])>>

ActTy(s, t) == Resolve(s, t)
PredTy(s, t) == LET u == Resolve(s, t) IN IF IsRef(u) THEN u[2] ELSE IF u = <<"sstr">> THEN Str ELSE u
\* the owned form of what is behind a returned reference
OwnedOf(t) ==
    CASE t = <<"str">> -> <<"String">>
      [] t = <<"Path">> -> <<"PathBuf">>
      [] t = <<"OsStr">> -> <<"OsString">>
      [] t = <<"CStr">> -> <<"CString">>
      [] t = <<"dynNum">> -> <<"boxdyn">>
      [] t = <<"dynNum2">> -> <<"boxdyn2">>
      [] t[1] = "slice" -> <<"Vec", t[2]>>
      [] OTHER -> t
Owned(s) == LET u == Resolve(s, s.ret) IN IF IsRef(u) THEN OwnedOf(u[2]) ELSE u

LtForms == {"lt1", "lt2", "ltself", "ltbound", "ltwhere"}
TypeParam(s) == s.gen \in {"T", "Twhere", "Twhere3", "Tbound", "T2", "Tuns", "Tsup", "Tsupwhere", "Tsupbound"}
LtParam(s) == s.gen \in LtForms
\* with() needs predicates whose type outlives everything
NonStatic(t) == \/ Has(t, "Lend") \/ Has(t, "Lendlt")
                \/ (Len(t) = 2 /\ (Has(t[2], "ref") \/ Has(t[2], "refmut") \/ Has(t[2], "reflt")))
NoWith(s) == \E i \in DOMAIN s.args : \/ NonStatic(s.args[i])
                                      \/ s.args[i][1] \in {"reflt", "reflt2"}
                                      \/ Has(s.args[i], "dynNum") \/ Has(s.args[i], "dynNum2") \/ Has(s.args[i], "dynSup")

-----------------------------------------------------------------------------
(* What is supported (documented limits, and what Rust itself rules out) *)

IsStatic(s) == s.recv = "none"
Names(s) == UNION {{s.args[i]} : i \in DOMAIN s.args} \cup {s.ret}
Uses(s, n) == \E t \in Names(s) : Has(t, n)
Valid(s) ==
    /\ s.cont = "mod" => s.recv = "none"
    \* a returned reference needs a borrowed receiver, unique if it is mutable
    /\ IsRef(s.ret) => s.recv \in Borrowing
    /\ s.ret[1] = "refmut" => s.recv \in NeedsMut
    \* only generic containers have G
    /\ Uses(s, "G") => s.cont \in Generic
    \* modifiers
    /\ "default" \in s.flags => s.cont \in {"at", "ag"}
    /\ "wheresized" \in s.flags => s.cont \in Traits
    /\ "default" \in s.flags => s.recv \notin {"own", "ownmut"}
    /\ s.cont = "mod" => "vis:priv" \notin s.flags
    /\ "extern" \in s.flags => ~Uses(s, "str")

\* a reference or lifetime that is left out, elsewhere than at the top of an argument
Elided(t) == \/ Has(t, "Lend")
             \/ Len(t) = 2 /\ (Has(t[2], "ref") \/ Has(t[2], "refmut"))

Supported(s) ==
    /\ Valid(s)
    \* lifetimes inside arguments must be named ("missing lifetime specifier")
    /\ \A i \in DOMAIN s.args : ~Elided(s.args[i])
    \* "unsupported type in this context"
    /\ Uses(s, "fnptr") \/ Uses(s, "fnptrSup") => s.cont \notin Generic
    /\ \A n \in {"fnin", "fnin2", "fnout"} : Uses(s, n) => s.cont \notin Generic /\ ~TypeParam(s)
    \* "Mockall does not support mocking Fn objects" (issue 139)
    /\ \A n \in {"dynin", "dynin2", "dynout"} : Uses(s, n) => s.cont \notin {"at", "ag", "ai"}
    \* "Methods returning functions are TODO"
    /\ s.ret[1] = "boxfn" => s.cont \notin {"at", "ag", "ai"}
    \* mock! does not resolve Self::Key or, for generic traits, <Self as Trait>::Key
    /\ Uses(s, "Key") => s.cont \notin Mock
    /\ Uses(s, "QKey") => s.cont # "mi"
    \* async_trait's futures are Send
    /\ s.fam = "atrait" => \A n \in {"NotSend"} : ~Uses(s, n)
    \* "Mockall cannot mock static methods that return non-'static references"
    /\ IsStatic(s) => ~IsRef(s.ret)
    \* a reference can be returned through &self and &mut self only
    /\ s.recv \in {"pinref", "pinmut"} => ~IsRef(s.ret)

-----------------------------------------------------------------------------
(* The derived interface is well formed: no name of the declaration is     *)
(* left, predicates never see a reference more than the caller passed, the *)
(* owned type can be stored                                                *)
DeclNames == {"Self", "Key", "QKey", "G", "T", "T2", "Fn", "FnMut", "FnOnce", "FnSup", "FnSend", "FnMore", "Heldany", "Twoany", "implstream", "implmulti", "reflt", "reflt2", "Lendlt", "Heldlt", "impliter", "implfut"}
Closed(t) == \A n \in DeclNames : ~Has(t, n)
WellFormed(sh) ==
    /\ \A i \in DOMAIN sh.args :
         LET t == sh.args[i] IN
         /\ Closed(ActTy(sh, t)) /\ Closed(PredTy(sh, t))
         /\ Size(PredTy(sh, t)) = Size(t) - (IF t[1] \in {"ref", "refmut", "reflt", "reflt2"} THEN 1 ELSE 0)
         /\ Leaf(ActTy(sh, t)) = Leaf(PredTy(sh, t)) \/ t = L("sstr")
    /\ Closed(Owned(sh))
    /\ Owned(sh)[1] \notin {"slice", "str", "Path", "OsStr", "CStr", "dynNum", "dynNum2", "ref", "refmut"}
    /\ KindOf(sh) \in {"ref", "mut"} => sh.recv \in Borrowing
    /\ KindOf(sh) = "mut" => sh.recv \in NeedsMut


Derived(sh) ==
    [fam |-> sh.fam, cont |-> sh.cont, recv |-> sh.recv, args |-> sh.args, ret |-> sh.ret,
     gen |-> sh.gen, flags |-> sh.flags, kind |-> KindOf(sh), nowith |-> NoWith(sh),
     act |-> [i \in DOMAIN sh.args |-> ActTy(sh, sh.args[i])],
     pred |-> [i \in DOMAIN sh.args |-> PredTy(sh, sh.args[i])],
     owned |-> Owned(sh),
     \* does the function have a symbol of its own name?
     sym |-> "extern" \in sh.flags /\ sh.cont \notin Generic]
=============================================================================
