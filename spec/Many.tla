-------------------------------- MODULE Many --------------------------------
(***************************************************************************)
(* Items that contain several things of one sort: lifetimes, type          *)
(* parameters, closures, substituted types, traits, attributes.  A         *)
(* generator that collects such things must put them into its output in an *)
(* order that is determined by the item alone.  Signatures, Shapes and     *)
(* Items have at most two or three of a sort; here are more of them, in    *)
(* every container.  TLC enumerates them for Expansion.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Big

Most == IF Big THEN 6 ELSE 4
Conts == {"ms", "mg", "mt", "at", "as", "ax", "mod"}
HasTrait == {"mt", "at"}

\* n: how many; s: is the function static; form: where and how they are used
I(fam, cont, n, s, form) == [fam |-> fam, cont |-> cont, n |-> n, static |-> s, form |-> form]
Ok(i) == i.cont = "mod" => i.static

All ==
    \* lifetime parameters: in arguments and the result, with bounds
    {I("lts", c, n, s, f) : c \in Conts, n \in 2..Most, s \in BOOLEAN, f \in {"args", "first", "last", "both", "chain", "where", "dyn", "tuple"}}
    \* those of the struct, alone and with some of the method
    \cup {I("slts", c, n, FALSE, f) : c \in {"ms", "mt"}, n \in 1..Most, f \in {"args", "first", "last", "mixed", "mixedret"}}
    \* higher-ranked ones
    \cup {I("hrtb", c, n, s, f) : c \in Conts, n \in 2..Most, s \in BOOLEAN, f \in {"arg", "where", "ret", "mixed"}}
    \* type parameters
    \cup {I("gens", c, n, s, f) : c \in Conts, n \in 2..Most, s \in BOOLEAN, f \in {"inline", "where", "both", "ret", "lts", "bounds"}}
    \* closures
    \cup {I("clos", c, n, s, f) : c \in Conts, n \in 2..Most, s \in BOOLEAN, f \in {"inline", "where", "both", "bounds", "mixed"}}
    \cup {I("conz", c, n, s, f) : c \in Conts, n \in 2..Most, s \in BOOLEAN, f \in {"inline", "where", "both", "bounds", "refs"}}
    \* associated types
    \cup {I("subst", c, n, s, f) : c \in {"at", "mt"}, n \in 2..Most, s \in BOOLEAN, f \in {"args", "ret", "qself", "bounds"}}
    \* traits of one mock
    \cup {I("traits", "ms", n, s, f) : n \in 2..Most, s \in BOOLEAN, f \in {"plain", "attrs", "args", "generic", "modules", "mixed"}}
    \* methods and attributes
    \cup {I("meths", c, n, s, f) : c \in Conts, n \in 2..Most, s \in BOOLEAN, f \in {"plain", "attrs", "generic", "mixed"}}
Items == {i \in All : Ok(i)}

VARIABLE it
Init == it \in Items
Next == UNCHANGED it
ManyProps == it.n >= 1 /\ (it.fam # "slts" => it.n >= 2)
Emit == PrintT("@P" \o ToJson(it))
=============================================================================
