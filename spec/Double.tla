-------------------------------- MODULE Double -------------------------------
(***************************************************************************)
(* #[double]: what an annotated use declaration or type alias binds.       *)
(*                                                                         *)
(* World      a tree of modules with types and modules, every one of which *)
(*            has a mock next to it                                        *)
(* Tree       use-trees as Rust has them: names, renames, paths, groups    *)
(* Import     the meaning of a use-tree, as a transition system: a work    *)
(*            list of (module, tree) pairs, one binding at a time          *)
(* Mocked     what the same names mean in a test build: an entity's mock   *)
(* Rewrite    the translation of a use-tree that #[double] performs        *)
(*                                                                         *)
(* TLC enumerates the trees, checks that the import of the rewritten tree  *)
(* binds exactly the same names as that of the original, to the mocks of   *)
(* the same entities, and prints every declaration with what each name in  *)
(* reach must mean in both builds, from inside the module with the         *)
(* declaration, from its parent, and from elsewhere in the crate.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS Big

-----------------------------------------------------------------------------
(* The world.  "here" is the module with the declaration, "up" its parent. *)

Modules == [here |-> {<<"foo", "mod">>, <<"bar", "mod">>, <<"Own", "type">>, <<"r#mod", "mod">>},
            up |-> {<<"foo", "mod">>, <<"bar", "mod">>, <<"Own", "type">>},
            crate |-> {<<"foo", "mod">>, <<"bar", "mod">>},
            foo |-> {<<"Foo", "type">>, <<"Bar", "type">>, <<"Gen", "gen">>, <<"Mock", "type">>, <<"inner", "mod">>, <<"r#type", "mod">>, <<"UElan", "type">>},
            bar |-> {<<"Foo", "type">>, <<"Bag", "type">>, <<"X", "type">>, <<"inner", "mod">>},
            inner |-> {<<"Foo", "type">>, <<"Baz", "type">>, <<"deep", "mod">>, <<"mock", "mod">>},
            deep |-> {<<"Foo", "type">>, <<"Qux", "gen">>, <<"d", "mod">>},
            dep |-> {<<"Foo", "type">>, <<"Dep", "type">>, <<"inner", "mod">>},
            leaf |-> {}]
\* the layout of the module that a child's name denotes
Layout(n) == CASE n \in {"foo", "bar", "inner", "deep"} -> n
               [] OTHER -> "leaf"
Kind(lay, n) == (CHOOSE e \in Modules[lay] : e[1] = n)[2]
Has(lay, n) == \E e \in Modules[lay] : e[1] = n
Unraw(n) == CASE n = "r#type" -> "type" [] n = "r#mod" -> "mod" [] n = "r#fn" -> "fn" [] OTHER -> n
MockName(n, kind) == (IF kind = "mod" THEN "mock_" ELSE "Mock") \o Unraw(n)

\* A place is where a path has led so far: how it is written (what the entity
\* reports), and its layout.  An entity: its name and its place.
Place(at, lay) == [at |-> at, lay |-> lay]
Here == Place("here", "here")
\* what segment n of a path means at place p; mock says whether the segment is
\* the name of a mock
Step(p, n) ==
    CASE n = "self" -> p
      [] n = "super" /\ p.lay = "here" -> Place("up", "up")
      [] n = "super" /\ p.lay = "up" -> Place("crate", "crate")
      [] n = "super" -> Place("none", "leaf")
      [] n = "crate" -> Place("crate", "crate")
      [] n = "::dep" -> Place("dep", "dep")
      \* here, up and crate see the same modules foo and bar
      [] p.lay \in {"here", "up"} /\ n \in {"foo", "bar"} -> Place("crate::" \o n, n)
      [] OTHER -> Place(p.at \o "::" \o Unraw(n), Layout(n))
Entity(p, n) == Step(p, n).at
MockEntity(p, n) == IF p.lay \in {"here", "up"} /\ n \in {"foo", "bar"} THEN "crate::mock_" \o n
                    ELSE p.at \o "::" \o MockName(n, Kind(p.lay, n))

-----------------------------------------------------------------------------
(* Use-trees *)
Node(t, n, r, kids) == [t |-> t, n |-> n, r |-> r, kids |-> kids]
Name(n) == Node("name", n, "", <<>>)
Ren(n, r) == Node("ren", n, r, <<>>)
Path(n, k) == Node("path", n, "", <<k>>)
Grp(l) == Node("grp", "", "", l)

RECURSIVE Text(_)
Text(t) == CASE t.t = "name" -> t.n
             [] t.t = "ren" -> t.n \o " as " \o t.r
             [] t.t = "path" -> t.n \o "::" \o Text(t.kids[1])
             [] t.t = "grp" -> "{" \o FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o ", " \o b, "", [i \in DOMAIN t.kids |-> Text(t.kids[i])]) \o "}"

\* The meaning of a use-tree: bindings <<name, entity, place, name in that place>>
RECURSIVE Binds(_, _)
Binds(p, t) == CASE t.t = "name" -> {<<t.n, p, t.n>>}
                 [] t.t = "ren" -> {<<t.r, p, t.n>>}
                 [] t.t = "path" -> Binds(Step(p, t.n), t.kids[1])
                 [] t.t = "grp" -> UNION {Binds(p, t.kids[i]) : i \in DOMAIN t.kids}
RECURSIVE Leaves(_)
Leaves(t) == CASE t.t \in {"name", "ren"} -> 1
               [] OTHER -> FoldLeft(LAMBDA a, k : a + Leaves(k), 0, t.kids)

\* The translation performed by #[double]
RECURSIVE Rewrite(_, _)
Rewrite(p, t) == CASE t.t = "name" -> Ren(MockName(t.n, Kind(p.lay, t.n)), t.n)
                   [] t.t = "ren" -> Ren(MockName(t.n, Kind(p.lay, t.n)), t.r)
                   [] t.t = "path" -> Path(t.n, Rewrite(Step(p, t.n), t.kids[1]))
                   [] t.t = "grp" -> Grp([i \in DOMAIN t.kids |-> Rewrite(p, t.kids[i])])
\* A name in a rewritten tree denotes an entity directly
MEntity(p, n) == IF p.lay \in {"here", "up"} /\ n \in {"mock_foo", "mock_bar"} THEN "crate::" \o n ELSE p.at \o "::" \o n

-----------------------------------------------------------------------------
(* Families of trees *)
Children(lay) == {e[1] : e \in Modules[lay]}
Subs(lay) == {e[1] : e \in {x \in Modules[lay] : x[2] = "mod" /\ Layout(x[1]) # "leaf"}}
Rens == {"Re", "ren", "MockFoo", "_", "r#fn"}
Distinct(l) == \A i, j \in DOMAIN l : i # j =>
                 \A a \in Binds(Here, l[i]), b \in Binds(Here, l[j]) : a[1] # b[1] \/ a[1] = "_"
L0(lay, rens) == {Name(n) : n \in Children(lay)} \cup {Ren(n, r) : n \in Children(lay), r \in rens}
\* leaves of a module and of the modules in it
L1(lay, rens) == L0(lay, rens) \cup UNION {{Path(x, t) : t \in L0(Layout(x), rens)} : x \in Subs(lay)}
Gs(S, most) == {Grp(<<>>)} \cup {Grp(<<a>>) : a \in S} \cup {Grp(<<a, b>>) : a, b \in S}
               \cup (IF most > 2 THEN {Grp(<<a, b, c>>) : a, b, c \in S} ELSE {})
Some(lay) == CASE lay = "foo" -> {Name("Foo"), Name("inner"), Ren("Bar", "Re"), Ren("Foo", "_")}
              [] lay = "inner" -> {Name("Baz"), Name("deep"), Ren("Foo", "ren")}
              [] lay = "bar" -> {Name("Bag"), Ren("inner", "ren"), Ren("X", "Y")}
              [] lay = "deep" -> {Name("Qux"), Ren("Foo", "MockFoo")}
              [] OTHER -> {}
Deep(lay) == Some(lay) \cup UNION {{Path(x, t) : t \in Some(Layout(x)) \cup {Grp(<<>>)}} : x \in Subs(lay)}
             \cup UNION {{Path(x, Grp(<<a, b>>)) : a, b \in Some(Layout(x))} : x \in Subs(lay)}
Prefixed(t) == {t, Path("self", t), Path("crate", t), Path("super", t), Path("super", Path("super", t)), Path("self", Path("super", t))}
Tops == UNION {{Path(x, t) : t \in L1(x, Rens)} : x \in {"foo", "bar"}}
\* every single path, with every prefix
Single == UNION {Prefixed(t) : t \in Tops} \cup {Path("foo", Path("inner", Path("deep", t))) : t \in L0("deep", Rens)}
\* renames without a path; other crates
Bare == {Ren(n, r) : n \in Children("here"), r \in Rens \ {"_"}} \cup {Path("self", Ren(n, r)) : n \in Children("here"), r \in Rens}
        \cup {Path("super", Ren(n, "Re")) : n \in Children("up")} \cup {Path("crate", Ren(n, "ren")) : n \in Children("crate")}
Other == {Path("::dep", t) : t \in L1("dep", Rens)} \cup {Path("::dep", t) : t \in Gs(Some("inner"), 2) \cap {Grp(<<>>)}}
         \cup {Path("::dep", Grp(<<a, Path("inner", b)>>)) : a \in L0("dep", {"Re"}), b \in L0("inner", {"ren"})}
\* groups
Groups == UNION {{Path(x, g) : g \in Gs(L0(x, {"Re"}), 2) \cup (IF Big THEN Gs(Some(x), 3) ELSE {})} : x \in {"foo", "bar"}}
          \cup {Path("foo", Path("inner", g)) : g \in Gs(L0("inner", {"Re"}), 2)}
          \cup {Path("foo", Grp(<<g, h>>)) : g \in Gs(Some("foo"), 2), h \in Some("foo") \cup {Path("inner", Grp(<<Name("Baz")>>))}}
\* nested groups, also at the top
Nested == {Path("foo", Grp(<<a, b>>)) : a \in Deep("foo"), b \in Some("foo") \cup (IF Big THEN Deep("foo") ELSE {})}
          \cup {Grp(<<Path("foo", a), Path("bar", b)>>) : a \in Deep("foo"), b \in Deep("bar")}
          \cup {Grp(<<Path("self", Path("foo", a)), Path("super", Path("bar", b)), Ren("Own", "Mine")>>) : a \in Some("foo"), b \in Deep("bar")}
          \cup {Path("crate", Grp(<<Path("bar", b), Path("foo", a)>>)) : a \in Deep("foo"), b \in Some("bar")}
          \cup {Path("foo", Grp(<<Grp(<<Grp(<<a>>)>>), Path("inner", Grp(<<Path("deep", Grp(<<b>>)), d>>))>>)) : a \in Some("foo"), b \in Some("deep"), d \in Some("inner")}
Fits(t) == /\ \A a, b \in Binds(Here, t) : a # b => a[1] # b[1] \/ a[1] = "_"
           /\ \A a \in Binds(Here, t) : Has(a[2].lay, a[3]) /\ a[1] \notin {"foo", "bar", "Own", "r#mod"}
           \* a group with the same tree twice is not interesting
           /\ Leaves(t) = Cardinality(Binds(Here, t))
Trees == {t \in Single \cup Bare \cup Other \cup Groups \cup Nested : Fits(t)}

Vises == {"", "pub", "pub(crate)", "pub(super)", "pub(self)", "pub(in crate)"}
Attrs == {"", "#[allow(unused_imports)]", "#[cfg(all())]", "#[cfg(any())]", "#[doc(hidden)]", "#[cfg_attr(all(), cfg(any()))]", "#[cfg_attr(all(), allow(unused_imports))]"}
\* how: where the declaration is: in a module or in a function
Decl(trees, vis, attr, how) == [trees |-> trees, vis |-> vis, attr |-> attr, how |-> how, alias |-> <<>>]
Few == {t \in {Path("foo", Name("Foo")), Path("foo", Grp(<<Name("Bar"), Name("inner")>>)), Ren("Own", "Re"), Path("foo", Path("inner", Ren("Baz", "ren"))),
               Path("crate", Path("bar", Grp(<<Name("Foo"), Ren("inner", "Re")>>))), Grp(<<Path("foo", Name("Foo")), Path("bar", Ren("X", "Y"))>>)} : TRUE}
Pairs == {<<a, b>> : a \in Few, b \in {Path("bar", Name("Bag")), Path("foo", Path("inner", Name("Baz"))), Path("bar", Grp(<<Ren("Foo", "Second"), Ren("X", "Third")>>))}}
UseDecls == {Decl(<<t>>, "", "", "mod") : t \in Trees}
            \cup {Decl(<<t>>, v, a, "mod") : t \in Few, v \in Vises, a \in Attrs}
            \cup {Decl(<<t>>, "", a, "fn") : t \in Few \cup (IF Big THEN Trees ELSE Nested \cap Trees), a \in {""}}
            \cup {Decl(<<t>>, "", a, "fn") : t \in Few, a \in Attrs}
            \cup {Decl(p, v, "", h) : p \in Pairs, v \in {"", "pub"}, h \in {"mod", "fn"}}
            \cup {Decl(<<p[2], p[1]>>, "", "", "mod") : p \in Pairs}

\* Type aliases: <<name, generics, path, name in its place, arguments>>
PathText(p) == FoldLeft(LAMBDA a, b : a \o b \o "::", "", p)
RECURSIVE Walk(_, _)
Walk(p, l) == IF l = <<>> THEN p ELSE Walk(Step(p, Head(l)), Tail(l))
APaths == {<<"foo">>, <<"bar">>, <<"crate", "foo">>, <<"super", "bar">>, <<"self", "foo", "inner">>, <<"foo", "inner", "deep">>, <<"super", "super", "bar", "inner">>, <<"::dep">>, <<>>, <<"super">>}
AliasOf(l) == {<<nm, IF e[2] = "gen" /\ g = "T" THEN "<T>" ELSE IF e[2] = "gen" /\ g = "d" THEN "<T = i8>" ELSE "", l, e[1],
                IF e[2] = "type" THEN "" ELSE IF g \in {"T", "d"} THEN "<T>" ELSE "<u32>">> :
                    e \in {x \in Modules[Walk(Here, l).lay] : x[2] # "mod"}, g \in {"", "T", "d"}, nm \in {"Alias", "Foo", "MockFoo", "Mock"}}
Aliases == UNION {AliasOf(l) : l \in APaths}
AliasDecls == {[Decl(<<>>, "", "", h) EXCEPT !.alias = a] : a \in Aliases, h \in {"mod", "fn"}}
              \cup {[Decl(<<>>, v, t, "mod") EXCEPT !.alias = a] : a \in {x \in Aliases : x[3] = <<"foo">> /\ x[1] = "Alias"}, v \in Vises, t \in Attrs \ {"#[allow(unused_imports)]", "#[cfg_attr(all(), allow(unused_imports))]"}}
Decls == {d \in UseDecls \cup AliasDecls : d.alias # <<>> \/ \A i, j \in DOMAIN d.trees : i # j =>
            {b[1] : b \in Binds(Here, d.trees[i])} \cap {b[1] : b \in Binds(Here, d.trees[j])} = {}}

-----------------------------------------------------------------------------
(* The import as a transition system: the work list holds <<place, place in *)
(* the test build, tree, rewritten tree>>                                   *)
VARIABLES d, todo, real, test
vars == <<d, todo, real, test>>
Init == /\ d \in Decls
        /\ todo = IF d.alias = <<>> THEN [i \in DOMAIN d.trees |-> <<Here, d.trees[i], Rewrite(Here, d.trees[i])>>]
                  ELSE LET p == Walk(Here, d.alias[3]) IN
                       <<<<p, Ren(d.alias[4], d.alias[1]), Rewrite(p, Ren(d.alias[4], d.alias[1]))>>>>
        /\ real = {} /\ test = {}
Import == /\ todo # <<>>
          /\ LET h == Head(todo) p == h[1] t == h[2] w == h[3] IN
             CASE t.t = "path" -> /\ todo' = <<<<Step(p, t.n), t.kids[1], w.kids[1]>>>> \o Tail(todo)
                                  /\ UNCHANGED <<real, test>>
               [] t.t = "grp" -> /\ todo' = [i \in DOMAIN t.kids |-> <<p, t.kids[i], w.kids[i]>>] \o Tail(todo)
                                 /\ UNCHANGED <<real, test>>
               [] OTHER -> /\ todo' = Tail(todo)
                           /\ real' = real \cup {<<IF t.t = "ren" THEN t.r ELSE t.n, Entity(p, t.n)>>}
                           /\ test' = test \cup {<<w.r, MEntity(p, w.n)>>}
          /\ UNCHANGED d
Next == Import

\* The declarative meaning
AllBinds(dd) == IF dd.alias # <<>> THEN {<<dd.alias[1], Walk(Here, dd.alias[3]), dd.alias[4]>>}
                ELSE UNION {Binds(Here, dd.trees[i]) : i \in DOMAIN dd.trees}
Off(a) == a \in {"#[cfg(any())]", "#[cfg_attr(all(), cfg(any()))]"}
Real(dd) == {<<b[1], Entity(b[2], b[3])>> : b \in AllBinds(dd)}
Mocked(dd) == {<<b[1], MockEntity(b[2], b[3])>> : b \in AllBinds(dd)}
\* A test build binds exactly the same names, each to the mock of what it is otherwise
DoubleProps ==
    /\ todo = <<>> => real = Real(d) /\ test = Mocked(d)
    /\ {x[1] : x \in real} = {x[1] : x \in test}
    /\ \A x, y \in real : x[1] = y[1] => x = y
    /\ \A x \in test : \A y \in real : x[2] # y[2]

-----------------------------------------------------------------------------
(* What can be seen.  Local names are those of the module itself; any      *)
(* other name that is not imported means the fallback of that name.        *)
Locals == [Own |-> "here::Own", MockOwn |-> "here::MockOwn", foo |-> "crate::foo", bar |-> "crate::bar", mock_foo |-> "crate::mock_foo", mock_bar |-> "crate::mock_bar"]
Public == {"Own", "MockOwn"}
Interest(dd) == UNION {{b[1], MockName(b[1], Kind(b[2].lay, b[3])), b[3], MockName(b[3], Kind(b[2].lay, b[3]))} : b \in AllBinds(dd)} \ {"_", "Mock_", "mock__"}
Sees(view, vis) == CASE view = "here" -> TRUE
                     [] view = "up" -> vis \notin {"", "pub(self)"}
                     [] view = "root" -> vis \in {"pub", "pub(crate)", "pub(in crate)"}
Meaning(dd, binds, view, n) ==
    IF ~Off(dd.attr) /\ Sees(view, dd.vis) /\ \E b \in binds : Unraw(b[1]) = Unraw(n) THEN (CHOOSE b \in binds : Unraw(b[1]) = Unraw(n))[2]
    ELSE IF n \in DOMAIN Locals /\ (view = "here" \/ n \in Public) THEN Locals[n]
    ELSE IF n \in {"r#mod", "mock_mod"} /\ view = "here" THEN "here::" \o Unraw(n)
    ELSE "fallback"
\* in a function, only the function sees anything
Views(dd) == IF dd.how = "fn" THEN <<"here">> ELSE <<"here", "up", "root">>
Declared(dd) == IF dd.alias # <<>> THEN <<"type " \o dd.alias[1] \o dd.alias[2] \o " = " \o PathText(dd.alias[3]) \o dd.alias[4] \o dd.alias[5] \o ";">>
                ELSE [i \in DOMAIN dd.trees |-> "use " \o Text(dd.trees[i]) \o ";"]
Emit == (todo = <<>>) =>
    PrintT("@P" \o ToJson([decl |-> Declared(d), vis |-> d.vis, attr |-> d.attr, how |-> d.how,
          seen |-> SetToSeq({[n |-> n, v |-> v, r |-> Meaning(d, real, v, n), t |-> Meaning(d, test, v, n)] : n \in Interest(d), v \in Range(Views(d))})]))
ASSUME PrintT("@W" \o ToJson([m \in DOMAIN Modules |-> SetToSeq(Modules[m])]))

-----------------------------------------------------------------------------
(* What must be rejected: globs, wherever they are, and bare names *)
Glob == Name("*")
WithGlob == {Path(x, Glob) : x \in {"foo", "bar", "self", "super", "crate", "::dep"}}
            \cup {Path("foo", Grp(l)) : l \in UNION {{<<Glob>>, <<a, Glob>>, <<Glob, a>>, <<a, Path("inner", Glob)>>, <<Path("inner", Grp(<<Glob, Ren("Baz", "Re")>>)), a>>} : a \in L0("foo", {"Re"})}}
            \cup {Grp(<<a, b>>) : a \in {Path("foo", Name("Foo"))}, b \in {Path("bar", Glob), Path("bar", Grp(<<Name("Bag"), Glob>>))}}
            \cup {Path("foo", Grp(<<Grp(<<Grp(<<Name("Foo"), Glob>>)>>), Name("Bar")>>)), Path("self", Path("foo", Path("inner", Path("deep", Glob))))}
BareNames == {Name(n) : n \in Children("here") \cup {"dep"}}
ASSUME \A t \in WithGlob \cup BareNames, v \in {"", "pub", "pub(crate)"}, a \in {"", "#[allow(unused_imports)]"} :
          PrintT("@R" \o ToJson([text |-> a \o " #[double] " \o v \o " use " \o Text(t) \o ";"]))
=============================================================================
