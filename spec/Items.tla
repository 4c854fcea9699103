-------------------------------- MODULE Items --------------------------------
(***************************************************************************)
(* Items to be mocked, as a whole: how a struct, trait, impl block or      *)
(* module is put together from members, and which members its mock has.    *)
(*                                                                         *)
(* An item is a container with groups of members.  A group is an impl      *)
(* block, a trait's methods, or a module's functions; groups and members   *)
(* carry attributes.  The specification says for every item               *)
(*   Present   which members exist in the mock: those without an attribute *)
(*             that configures them out, in groups without one             *)
(*   Gone      the names that must not exist in the mock                   *)
(*   AutoNew   whether the mock gets a method new() that creates an object *)
(*             without expectations                                        *)
(*   Traits    the traits that the mock must implement                     *)
(* TLC enumerates the items, checks the coherence of these definitions,    *)
(* and prints them.  The harness declares exactly these items; that the    *)
(* names in Gone are free and the traits are implemented is decided at     *)
(* compile time, and the behaviours of Mockall are replayed on the Present *)
(* members: one at a time, in pairs of the same object, in pairs of        *)
(* objects, static and not.                                                *)
(***************************************************************************)
EXTENDS Signatures
CONSTANT Which          \* "C21" or "C24"

-----------------------------------------------------------------------------
(* Attributes.  Those of OnAttrs and OffAttrs are conditions that hold or  *)
(* fail in the build; the others are no conditions.                        *)

OnAttrs == {"on1", "on2", "on3", "on4", "on5"}
OffAttrs == {"off1", "off2", "off3", "off4", "off5", "off6", "off7"}
BodyAttrs == {"inline", "inlinea", "cold"}          \* only where there is a body, or in mock!
PlainAttrs == {"doc", "doc2", "doc3", "must", "must2", "allow", "allow2", "depr", "expect", "deny"} \cup BodyAttrs
Off(attrs) == \E i \in DOMAIN attrs : attrs[i] \in OffAttrs

(* Members *)
\* k: what kind of method; as: attributes; nx: also has an argument of a type
\* that does not exist (only possible if it is configured out); dup: shares its
\* name with another member that is present
M(k, as) == [k |-> k, as |-> as, nx |-> FALSE, dup |-> ""]
Nx(m) == [m EXCEPT !.nx = TRUE]
Dup(m, n) == [m EXCEPT !.dup = n]
\* name: "" for the inherent methods, otherwise that of the trait
\* self: for which arguments of a generic struct the trait is implemented
G(name, as, ms) == [name |-> name, as |-> as, ms |-> ms, self |-> ""]
GFor(name, as, ms, self) == [name |-> name, as |-> as, ms |-> ms, self |-> self]

\* gens: generic parameters of the struct or trait; newf: the form of its own
\* method called new; as: attributes of the item; drv: its derive attributes,
\* each a list of traits; how: visibility and other details of the declaration
Item(fam, cont, gs) == [fam |-> fam, cont |-> cont, gs |-> gs, gens |-> "", as |-> <<>>, drv |-> <<>>, newf |-> "", how |-> ""]

KindsOf(cont) == CASE cont = "mod" -> {"sta", "sgen", "sunit"}
                   [] cont = "ffi" -> {"ffi"}
                   [] OTHER -> {"val", "rref", "rmut", "unit", "gen", "own", "sta", "sgen", "async", "self"}
\* Whether the mock implements Debug: those of traits and impl blocks do, that of
\* a struct in mock! if, and only if, one of its derive attributes says so
Dbg(it) == it.cont \notin {"mod", "ffi"} /\
    (it.cont \in {"mk", "mkG"} => \E i \in DOMAIN it.drv : \E j \in DOMAIN it.drv[i] : it.drv[i][j] = "Debug")
D == <<<<"Debug">>>>
DIf(x) == IF x THEN D ELSE <<>>
Static(k) == k \in {"sta", "sgen", "sunit", "ffi"}

\* the shape of a member in container kind c (as in Signatures)
KShape(c, m) ==
    LET f == (IF m.k = "async" THEN {"async"} ELSE {}) \cup (IF m.dup # "" THEN {"name:" \o m.dup} ELSE {})
        S(recv, args, ret, gen) == Shape("item", c, recv, args, ret, gen, f)
    IN CASE m.k = "val" -> S("ref", <<U32>>, U32, "")
         [] m.k = "rref" -> S("ref", <<Ref(Str)>>, Ref(Str), "")
         [] m.k = "rmut" -> S("mut", <<U32>>, Mut(U32), "")
         [] m.k = "unit" -> S("ref", <<U32>>, None, "")
         [] m.k = "gen" -> S("ref", <<L("T")>>, U32, "T")
         [] m.k = "own" -> S("own", <<U32>>, U32, "")
         [] m.k = "sta" -> S("none", <<U32>>, U32, "")
         [] m.k = "sgen" -> S("none", <<L("T")>>, U32, "T")
         [] m.k = "sunit" -> S("none", <<U32>>, None, "")
         [] m.k = "ffi" -> Shape("item", "mod", "none", <<U32>>, U32, "", f)
         [] m.k = "async" -> S("ref", <<U32>>, U32, "")
         [] m.k = "self" -> S("ref", <<U32>>, L("Self"), "")
         \* forms of a method called new
         [] m.k = "new0" -> S("none", <<>>, L("Self"), "")
         [] m.k = "new1" -> S("none", <<U32>>, L("Self"), "")
         [] m.k = "newb" -> S("none", <<U32>>, W("Box", L("Self")), "")
         [] m.k = "newo" -> S("none", <<U32>>, W("Option", L("Self")), "")
         [] m.k = "newt" -> S("none", <<L("T")>>, L("Self"), "T")
         [] m.k = "newv" -> S("none", <<U32>>, U32, "")
         [] m.k = "newi" -> S("ref", <<U32>>, U32, "")
         [] m.k = "clone" -> S("ref", <<>>, L("Self"), "")

\* The container kind of Signatures for group g of item it
GCont(it, g) == CASE it.cont \in {"mk", "mkG"} -> (IF g.name # "" THEN "mt" ELSE IF it.cont = "mk" THEN "ms" ELSE "mg")
                  [] it.cont = "ffi" -> "mod"
                  [] OTHER -> it.cont

Present(it, gi, mi) == ~Off(it.gs[gi].as) /\ ~Off(it.gs[gi].ms[mi].as)
Positions(it) == {<<gi, mi>> : gi \in DOMAIN it.gs, mi \in 1..4} \cap UNION {{<<gi, mi>> : mi \in DOMAIN it.gs[gi].ms} : gi \in DOMAIN it.gs}
Pres(it) == {p \in Positions(it) : Present(it, p[1], p[2])}
Mem(it, p) == it.gs[p[1]].ms[p[2]]
\* a name is gone unless another member of that name is present
Gone(it) == {p \in Positions(it) \ Pres(it) :
               Mem(it, p).dup = "" \/ \A q \in Pres(it) : Mem(it, q).dup # Mem(it, p).dup}
OwnNew(it) == \E p \in Pres(it) : it.gs[p[1]].name = "" /\ Mem(it, p).dup = "new"
TraitNew(it) == \E p \in Pres(it) : it.gs[p[1]].name # "" /\ Mem(it, p).dup = "new"
AutoNew(it) == ~OwnNew(it) /\ ~TraitNew(it) /\ it.cont \notin {"mod", "ffi"}
Traits_(it) == {it.gs[gi].name : gi \in {i \in DOMAIN it.gs : ~Off(it.gs[i].as)}} \ {""}

-----------------------------------------------------------------------------
(* Families for C24: conditions and attributes *)

One(cont) == IF cont \in {"at", "ag", "ai", "mt1"} THEN "Tr" ELSE ""
RealCont(c) == IF c = "mt1" THEN "mk" ELSE c
Single(fam, c, ms) == Item(fam, RealCont(c), <<G(One(c), <<>>, ms)>>)
Conts == {"mk", "mkG", "mt1", "as", "ax", "at", "ag", "ai", "mod"}
Cf == {<<>>, <<"on1">>, <<"off1">>}
Triples(c) == IF c = "mod" THEN {<<"sta", "sgen", "sta">>, <<"sunit", "sta", "sgen">>, <<"sgen", "sgen", "sunit">>}
              ELSE {<<"val", "sta", "rmut">>, <<"sta", "val", "gen">>, <<"gen", "sgen", "val">>, <<"rref", "own", "sgen">>,
                    <<"val", "unit", "rref">>, <<"sta", "sgen", "sta">>, <<"async", "rmut", "self">>}
\* members of every condition, in every order
F1 == UNION {{Single("order", c, <<M(t[1], a), M(t[2], b), M(t[3], d)>>) :
            t \in Triples(c), a \in Cf, b \in Cf, d \in Cf} : c \in Conts}
\* every way to write a condition, on every kind of member
F2 == UNION {{Single("cond", c, <<M(IF c = "mod" THEN "sta" ELSE "val", <<>>), M(k, <<a>>), M(IF c = "mod" THEN "sgen" ELSE "rmut", <<>>)>>) :
            k \in KindsOf(c), a \in OnAttrs \cup OffAttrs} : c \in Conts}
      \cup UNION {{Single("cond", c, <<Nx(M(k, <<a>>)), M(IF c = "mod" THEN "sta" ELSE "val", <<>>), Nx(M(k, <<"doc", a>>))>>) :
            k \in KindsOf(c), a \in OffAttrs} : c \in Conts}
\* every other attribute, alone and with a condition
AttrsIn(c) == (PlainAttrs \ (IF c \in {"at", "ag", "mt1"} THEN BodyAttrs ELSE {})) \ (IF c = "ai" THEN {"depr", "must", "must2"} ELSE {})
With(a, x) == {<<a>>, <<a, "on1">>, <<"on2", a>>, <<a, x>>, <<x, a>>}
F3 == UNION {{Single("attr", c, <<M(k, w), M(IF c = "mod" THEN "sta" ELSE "val", <<>>)>>) :
            k \in KindsOf(c), w \in UNION {With(a, x) : a \in AttrsIn(c), x \in {"off1"}}} : c \in Conts}
\* two groups, each with a condition
GCf == {<<>>, <<"on1">>, <<"off1">>, <<"off5">>, <<"doc", "off2">>, <<"on3", "allow">>}
F4 == {Item("impls", c, <<G("", <<>>, <<M("val", <<>>), M("sta", x)>>), G("TrA", a, <<M(k, <<>>), M("rmut", y)>>), G("TrB", b, <<M("sgen", <<>>), M(l, <<>>)>>)>>) :
            c \in {"mk", "mkG"}, a \in GCf, b \in GCf, k \in {"val", "sta"}, l \in {"rref", "sta"}, x \in {<<>>}, y \in {<<>>, <<"off1">>}}
      \cup {Item("impls", "mk", <<G("TrA", a, <<M("sta", <<>>)>>), G("TrB", b, <<>>), G("", <<>>, <<M("val", <<>>)>>)>>) : a \in GCf, b \in GCf}
\* the same name under complementary conditions
Comp == {<<<<"on1">>, <<"off1">>>>, <<<<"off1">>, <<"on1">>>>, <<<<"off2">>, <<"on2">>>>, <<<<"off3", "doc">>, <<"doc", "on3">>>>, <<<<"on4">>, <<"off5">>>>}
F5 == UNION {{Single("twice", c, <<Dup(M(k, w[1]), "same"), Dup(M(l, w[2]), "same"), M(IF c = "mod" THEN "sta" ELSE "val", <<>>)>>) :
            k \in (IF c = "mod" THEN {"sta", "sunit"} ELSE {"val", "rref", "sta", "gen"}),
            l \in (IF c = "mod" THEN {"sta", "sgen"} ELSE {"val", "rmut", "sta", "own"}), w \in Comp} : c \in Conts}
      \cup {Item("twice", "mk", <<G("TrA", w[1], <<Dup(M(k, <<>>), "same")>>), G("TrA", w[2], <<Dup(M(l, <<>>), "same"), M("rmut", <<>>)>>), G("", <<>>, <<M("val", <<>>)>>)>>) :
            k \in {"val", "sta", "rref"}, l \in {"val", "rref", "sta"}, w \in Comp}
\* attributes of the item itself
ItemAttrs == {"doc", "doc2", "allow", "allow2", "must", "must2", "depr", "deny", "expect", "on1", "on4"}
F6 == {[Single("item", c, <<M(k, <<>>), M(IF c = "mod" THEN "sgen" ELSE "sta", b)>>) EXCEPT !.as = a] :
            c \in Conts, k \in {"val", "rmut", "sta"}, b \in {<<>>, <<"off1">>}, a \in {<<x>> : x \in ItemAttrs} \cup {<<"doc", "must">>, <<"allow", "doc3">>}}
\* foreign functions
F7 == {Item("ffi", "ffi", <<G("", <<>>, <<M("ffi", a), M("ffi", b)>>)>>) :
            a \in {<<>>, <<"link">>, <<"doc", "link">>, <<"link", "on1">>, <<"off1">>, <<"off1", "link">>, <<"must">>, <<"link2">>},
            b \in {<<>>, <<"off5">>, <<"link", "off2">>, <<"link">>, <<"doc">>}}
C24Items == F1 \cup F2 \cup F3 \cup F4 \cup F5 \cup F6 \cup F7

-----------------------------------------------------------------------------
(* Families for C21: structure *)

Gens == {"", "G", "G2", "Gdef", "Gwhere", "lt"}
GKinds == {"val", "rref", "rmut", "unit", "gen", "own", "sta", "async", "self"}
\* mocks of several traits
Bodies == {<<>>, <<"val">>, <<"rmut", "gen">>, <<"sta">>, <<"rref", "own">>, <<"self", "val">>}
Ms(b) == [i \in DOMAIN b |-> M(b[i], <<>>)]
S1 == {[Item("traits", IF g = "" THEN "mk" ELSE "mkG", <<G("", <<>>, Ms(a)), G("TrA", <<>>, Ms(b)), G("TrB", <<>>, Ms(d))>>) EXCEPT !.gens = g, !.drv = DIf(x)] :
            g \in Gens, a \in Bodies, b \in Bodies, d \in {<<>>, <<"val">>, <<"rmut", "sta">>}, x \in BOOLEAN}
      \cup {[Item("clone", IF g = "" THEN "mk" ELSE "mkG", <<G("", <<>>, Ms(a)), G("TrA", <<>>, Ms(b)), G("Clone", <<>>, <<Dup(M("clone", <<>>), "clone")>>)>>) EXCEPT !.gens = g, !.drv = DIf(x)] :
            g \in {"", "G", "Gwhere"}, a \in Bodies, b \in Bodies, x \in BOOLEAN}
      \cup {Item("traits", "mk", <<G("TrA", <<>>, Ms(a)), G("", <<>>, Ms(b)), G("TrB", <<>>, Ms(d)), G("TrC", <<>>, <<M("val", <<>>)>>)>>) :
            a \in Bodies, b \in Bodies, d \in Bodies}
      \cup {[Item("samename", "mk", <<G("", <<>>, Ms(a)), G("na::TrA", <<>>, Ms(b)), G("nb::TrA", <<>>, Ms(d))>>) EXCEPT !.drv = DIf(x)] :
            a \in {<<>>, <<"val">>}, b \in Bodies, d \in Bodies, x \in BOOLEAN}
\* a trait implemented for several arguments of a generic struct
S2 == {[Item("spec", "mkG", <<G("", <<>>, Ms(a)), GFor("TrA", <<>>, <<Dup(M(k, <<>>), "same")>>, "u32"), GFor("TrA", <<>>, <<Dup(M(k, <<>>), "same")>>, "i64")>>) EXCEPT !.gens = g] :
            g \in {"G"}, a \in {<<>>, <<"val">>, <<"rmut", "sta">>}, k \in {"val", "rref", "rmut", "own", "unit"}}
      \cup {[Item("spect", "mkG", <<G("", <<>>, Ms(a)), GFor("TrX<u32>", <<>>, <<Dup(M(k, <<>>), "same")>>, "u32"), GFor("TrX<i64>", <<>>, <<Dup(M(k, <<>>), "same")>>, "i64")>>) EXCEPT !.gens = g] :
            g \in {"G"}, a \in {<<>>, <<"val">>}, k \in {"val", "rref", "rmut", "own", "unit"}}
      \* arguments that differ in the second place only, or in the first only
      \cup {[Item("spec2", "mkG", <<G("", <<>>, Ms(a)), GFor("TrY<" \o x[1] \o ">", <<>>, <<Dup(M(k, <<>>), "same")>>, "u32"), GFor("TrY<" \o x[2] \o ">", <<>>, <<Dup(M(k, <<>>), "same")>>, "i64")>>) EXCEPT !.gens = "G"] :
            a \in {<<>>, <<"val">>}, k \in {"val", "rref", "rmut", "own", "unit"}, x \in {<<"u8, u32", "u8, u16">>, <<"u8, u32", "u16, u32">>, <<"u8, u16", "u16, u8">>}}
\* one's own new
NewForms == {"new0", "new1", "newb", "newo", "newt", "newv", "newi"}
S3 == UNION {{[Single("new", c, IF first THEN <<Dup(M(f, <<>>), "new"), M(k, <<>>)>> ELSE <<M(k, <<>>), Dup(M(f, <<>>), "new")>>) EXCEPT !.newf = f] :
            f \in NewForms, k \in {"val", "sta", "rmut"}, first \in BOOLEAN} : c \in Conts \ {"mod"}}
      \cup {[Item("new", "mk", <<G("", <<>>, <<M("val", <<>>)>>), G("TrA", <<>>, <<Dup(M(f, <<>>), "new"), M(k, <<>>)>>)>>) EXCEPT !.newf = f] :
            f \in NewForms, k \in {"val", "sta"}}
      \* names that only look like it
      \cup UNION {{Single("new", c, <<Dup(M(k, <<>>), n), M("val", <<>>)>>) : k \in {"val", "sta"}, n \in {"new_", "renew", "default_", "r#new2"}} : c \in Conts \ {"mod"}}
      \* configured out
      \cup UNION {{Single("newoff", c, <<Dup(M("new1", <<"off1">>), "newx"), M("val", <<>>)>>) : k \in {"val"}} : c \in Conts \ {"mod"}}
\* every kind of container, printed and not, with one or two members
S4 == UNION {{[Single("kinds", c, <<M(k, <<>>), M(l, <<>>)>>) EXCEPT !.drv = DIf(c \in {"mk", "mkG", "mt1"} /\ x), !.gens = g] :
            k \in GKinds, l \in {"val", "sta", "rmut"}, x \in BOOLEAN, g \in (IF c \in {"mkG", "ag", "ax"} THEN Gens \ {"", "Gdef"} ELSE {""})} : c \in Conts \ {"mod"}}
      \cup {Single("kinds", "mod", <<M(k, <<>>), M(l, <<>>), M(k, <<>>)>>) : k \in KindsOf("mod"), l \in KindsOf("mod")}
      \cup {[Single("empty", c, <<>>) EXCEPT !.drv = DIf(c \in {"mk", "mkG", "mt1"})] : c \in Conts \ {"mod"}}
\* details of the declaration
Hows == {"priv", "crate", "consts", "unsafe", "inherit", "auto"}
S5 == {[Item("how", c, <<G("", <<>>, Ms(a)), G("TrA", <<>>, <<M(k, <<>>)>>)>>) EXCEPT !.how = h] :
            c \in {"mk", "mkG"}, a \in Bodies, k \in {"val", "rref", "sta"}, h \in Hows}
      \cup {[Single("how", c, <<M(k, <<>>), M(l, <<>>)>>) EXCEPT !.how = h] :
            c \in {"at", "as", "ai", "ag", "ax"}, k \in {"val", "rmut", "sta"}, l \in {"val", "gen"}, h \in Hows}
\* what is derived, in which order, in how many attributes
Drvs == {<<>>, D, <<<<"Debug">>, <<"Clone">>>>, <<<<"Clone">>, <<"Debug">>>>, <<<<"Clone", "Debug">>>>, <<<<"Debug", "Clone">>>>,
         <<<<"Clone", "Debug", "Default">>>>, <<<<"Clone", "Default">>, <<"PartialEq", "Debug", "Eq">>>>, <<<<"Clone">>>>,
         <<<<"Clone", "Default", "PartialEq">>>>, <<<<"Clone">>, <<"Default">>>>, <<<<"Default">>, <<"Clone">>, <<"Debug">>>>, <<<<>>, <<"Debug">>>>}
S6 == {[Item("derive", IF g = "" THEN "mk" ELSE "mkG", <<G("", <<>>, Ms(a)), G("TrA", <<>>, Ms(b))>>) EXCEPT !.gens = g, !.drv = d, !.as = w] :
            g \in {"", "G", "Gwhere"}, a \in {<<>>, <<"val">>, <<"rmut", "sta">>}, b \in {<<>>, <<"rref">>}, d \in Drvs, w \in {<<>>, <<"doc">>, <<"allow2">>}}
C21Items == S6 \cup S1 \cup S2 \cup S3 \cup S4 \cup S5

-----------------------------------------------------------------------------
\* combinations that Rust, or mockall's documentation, excludes
Valid_(it) ==
    \* a trait object cannot have generic methods, but nothing here makes one;
    \* lifetime parameters need a use
    /\ it.gens = "lt" => \A p \in Positions(it) : Mem(it, p).k \notin {"own", "self", "sta", "gen", "async", "clone", "sgen"}
    /\ it.cont \in {"at", "ag", "ai"} => it.gens # "lt"
    /\ it.how = "consts" => it.cont \notin {"at", "ag"}         \* automock traits cannot have constants
    \* nor can one deprecate an implementation of a trait
    /\ it.cont = "ai" => \A i \in DOMAIN it.as : it.as[i] # "depr"
    /\ it.how = "unsafe" => it.cont \in {"mk", "mkG", "at", "ag"}
    /\ it.how = "inherit" => it.cont \in {"mk", "mkG"}
    /\ it.how = "auto" => it.cont \in {"mk", "mkG"}
    /\ \A p \in Positions(it) : Supported(KShape(GCont(it, it.gs[p[1]]), Mem(it, p)))
Items_ == IF Which = "C21" THEN C21Items ELSE C24Items
Items == {it \in Items_ : Valid_(it)}

VARIABLE it
Init == it \in Items
Next == UNCHANGED it

\* Coherence
ItemProps ==
    /\ Pres(it) \cap Gone(it) = {}
    /\ \A p \in Positions(it) : p \in Pres(it) \/ p \in Gone(it) \/ Mem(it, p).dup # ""
    /\ \A p, q \in Pres(it) : p # q /\ Mem(it, p).dup # "" /\ it.gs[p[1]].self = it.gs[q[1]].self => Mem(it, p).dup # Mem(it, q).dup
    /\ \A p \in Pres(it) : ~Mem(it, p).nx
    /\ AutoNew(it) => ~OwnNew(it)
    /\ \A p \in Positions(it) : WellFormed(KShape(GCont(it, it.gs[p[1]]), Mem(it, p)))

MemJ(gi, mi) == LET m == it.gs[gi].ms[mi] IN
    [k |-> m.k, as |-> m.as, nx |-> m.nx, dup |-> m.dup, present |-> Present(it, gi, mi),
     gone |-> <<gi, mi>> \in Gone(it), static |-> KShape(GCont(it, it.gs[gi]), m).recv = "none",
     shape |-> Derived(KShape(GCont(it, it.gs[gi]), m))]
Emit == PrintT("@P" \o ToJson([fam |-> it.fam, cont |-> it.cont, gens |-> it.gens, as |-> it.as, drv |-> it.drv, dbg |-> Dbg(it), newf |-> it.newf,
            how |-> it.how, autonew |-> AutoNew(it), owndefault |-> it.cont \notin {"mod", "ffi"},
            gs |-> [gi \in DOMAIN it.gs |-> [name |-> it.gs[gi].name, as |-> it.gs[gi].as, self |-> it.gs[gi].self,
                        off |-> Off(it.gs[gi].as), cont |-> GCont(it, it.gs[gi]),
                        ms |-> [mi \in DOMAIN it.gs[gi].ms |-> MemJ(gi, mi)]]]]))
=============================================================================
