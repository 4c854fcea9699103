------------------------------ MODULE Expansion ------------------------------
(***************************************************************************)
(* What it means that code generation is deterministic.                    *)
(*                                                                         *)
(* A program is a sequence of items.  A compiler process expands the items *)
(* of its program one after another, and each time gets some code.  The    *)
(* generator is a function: the code of an item depends on nothing but the *)
(* item - not on the process, nor on the items that the process expanded   *)
(* before, nor on their number.                                            *)
(*                                                                         *)
(* Two uses:                                                               *)
(*  - ModelSpec: TLC explores all programs and interleavings for a small   *)
(*    number of items and checks Deterministic, Local and Replayable;      *)
(*  - TraceSpec: what real compiler processes produced (Obs: for every     *)
(*    item, the codes in the order in which they were recorded) must be a  *)
(*    behaviour; an item for which it is not is reported.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Items, Codes, Procs, MaxLen, TraceFile

VARIABLES
    gen,    \* the generator: item -> code
    prog,   \* process -> the items that it still has to expand
    out     \* process -> what it has produced: a sequence of <<item, code>>
vars == <<gen, prog, out>>

Programs == UNION {[1..n -> Items] : n \in 0..MaxLen}

ModelInit == /\ gen \in [Items -> Codes]
             /\ prog \in [Procs -> Programs]
             /\ out = [p \in Procs |-> <<>>]
Expand(p) == /\ prog[p] # <<>>
             /\ out' = [out EXCEPT ![p] = Append(@, <<Head(prog[p]), gen[Head(prog[p])]>>)]
             /\ prog' = [prog EXCEPT ![p] = Tail(@)]
             /\ UNCHANGED gen
ModelNext == \E p \in Procs : Expand(p)

Produced == UNION {{out[p][n] : n \in DOMAIN out[p]} : p \in Procs}
\* an item has one code
Deterministic == \A x, y \in Produced : x[1] = y[1] => x[2] = y[2]
\* which it also has on its own, and wherever it occurs
Local == \A p \in Procs : \A n \in DOMAIN out[p] : out[p][n][2] = gen[out[p][n][1]]
\* nothing is skipped or produced twice
Replayable == [][\E p \in Procs : Len(out'[p]) = Len(out[p]) + 1 /\ Len(prog'[p]) + 1 = Len(prog[p])]_vars

-----------------------------------------------------------------------------
(* Acceptance of recorded behaviours.  A record is an item with the codes  *)
(* that the processes got for it.  gen is not known: the first code fixes  *)
(* it, and from then on Expand only takes steps with that code.            *)

Obs == ndJsonDeserialize(TraceFile)
VARIABLES rec, pos, code
tvars == <<rec, pos, code>>
TraceInit == /\ rec \in 1..Len(Obs)
             /\ pos = 0
             /\ code = ""
             /\ gen = <<>> /\ prog = <<>> /\ out = <<>>
TraceNext == /\ pos < Len(Obs[rec].codes)
             /\ pos' = pos + 1
             /\ code \in {"", Obs[rec].codes[pos + 1]}
             /\ code' = Obs[rec].codes[pos + 1]
             /\ UNCHANGED <<rec, vars>>
\* a record whose next step is not possible is no behaviour of the specification
Stuck == pos < Len(Obs[rec].codes) /\ code \notin {"", Obs[rec].codes[pos + 1]}
Report == Stuck => PrintT("@B" \o ToJson([item |-> Obs[rec].item, pos |-> pos + 1]))

MInit == ModelInit /\ rec = 0 /\ pos = 0 /\ code = ""
MNext == ModelNext /\ UNCHANGED tvars
=============================================================================
