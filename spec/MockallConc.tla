---------------------------- MODULE MockallConc ----------------------------
(***************************************************************************)
(* Concurrent calls.  A scenario sets mocks up, then lets several threads  *)
(* each perform a few operations, then verifies.                           *)
(*                                                                         *)
(* A call of an instance method is three atomic steps - select, count, act *)
(* - whose last one holds the expectation's lock while the action runs.  A *)
(* static function holds the function's lock for the whole operation.      *)
(*                                                                         *)
(* For every scenario TLC computes all vectors of outcomes that any        *)
(* interleaving can produce (@O lines), and all situations in which one    *)
(* thread may have to wait for another one that is inside an action (@B    *)
(* lines).  The harness explores the interleavings of the real code with a *)
(* controlled scheduler, and compares.                                     *)
(***************************************************************************)
EXTENDS Mockall
CONSTANT Scens      \* sequence of [setup, prog, post, lin]

\* Scens, evaluated once
ASSUME TLCSet(42, Scens)
TheScens == TLCGet(42)

VARIABLES sc, pos, pc, outs
cvars == <<vars, sc, pos, pc, outs>>

Threads == DOMAIN TheScens[sc].prog
Cur(t) == TheScens[sc].prog[t][pos[t]]
Active(t) == pos[t] <= Len(TheScens[sc].prog[t])

Static(o) == IF o.op \in {"exp", "call"} THEN Slots[o.s].static ELSE o.op = "cchk"
Owner(o) == IF o.op \in {"exp", "call"} THEN Slots[o.s].own ELSE o.s

\* exp operations carry the number of their expectation
ApplyC(z, o) == IF o.op \in {"exp", "call", "cchk"} /\ Static(o) /\ z.taint[Owner(o)]
                THEN [z |-> z, out |-> Anything]      \* after a failure under the lock
                ELSE IF o.op = "exp" THEN Apply([z EXCEPT !.nid = o.a - 1], o)
                ELSE Apply(z, o)
RunAll(z, ops) == FoldLeft(LAMBDA acc, o : LET r == ApplyC(acc.z, o) IN
                                [z |-> r.z, h |-> Append(acc.h, r.out)],
                           [z |-> z, h |-> <<>>], ops)

Idle == [p |-> "idle", i |-> 0]
CInit == /\ sc \in DOMAIN TheScens
         /\ st = RunAll(Init0, TheScens[sc].setup).z
         /\ res = Ok /\ path = <<>>
         /\ pos = [t \in DOMAIN TheScens[sc].prog |-> 1]
         /\ pc = [t \in DOMAIN TheScens[sc].prog |-> Idle]
         /\ outs = [t \in DOMAIN TheScens[sc].prog |-> <<>>]


Stay == UNCHANGED <<res, path, sc>>
Finished(t, out) == /\ outs' = [outs EXCEPT ![t] = Append(@, out)]
                    /\ pos' = [pos EXCEPT ![t] = @ + 1]
                    /\ pc' = [pc EXCEPT ![t] = Idle]
Goto(t, p, i) == pc' = [pc EXCEPT ![t] = [p |-> p, i |-> i]] /\ UNCHANGED <<outs, pos>>

\* ---- instance methods
SelectStep(t) ==
    /\ Active(t) /\ pc[t].p = "idle" /\ ~Static(Cur(t))
    /\ LET o == Cur(t)
           r == Select(st, o.s, o.a, FALSE)
       IN  /\ st' = r.z
           /\ IF r.out.k = "ok" THEN Goto(t, "count", r.i) ELSE Finished(t, r.out)
    /\ Stay
CountStep(t) ==
    /\ Active(t) /\ pc[t].p = "count"
    /\ LET o == Cur(t)
           r == Count(st, o.s, pc[t].i, o.a)
       IN  /\ st' = r.z
           /\ IF r.out.k = "ok" THEN Goto(t, "act", pc[t].i) ELSE Finished(t, r.out)
    /\ Stay
Inside(t, s, i) == Active(t) /\ pc[t].p = "in" /\ Cur(t).s = s /\ pc[t].i = i
ActBegin(t) ==
    /\ Active(t) /\ pc[t].p = "act"
    /\ \A u \in Threads \ {t} : ~Inside(u, Cur(t).s, pc[t].i)
    /\ Goto(t, "in", pc[t].i)
    /\ UNCHANGED st /\ Stay
ActEnd(t) ==
    /\ Active(t) /\ pc[t].p = "in"
    /\ LET o == Cur(t)
           r == Act(st, o.s, pc[t].i, o.a, o.w, FALSE)
       IN st' = r.z /\ Finished(t, r.out)
    /\ Stay

\* ---- static functions
Holds(t, f) == Active(t) /\ pc[t].p = "hold" /\ Owner(Cur(t)) = f
LockStep(t) ==
    /\ Active(t) /\ pc[t].p = "idle" /\ Static(Cur(t))
    /\ \A u \in Threads \ {t} : ~Holds(u, Owner(Cur(t)))
    /\ Goto(t, "hold", 0)
    /\ UNCHANGED st /\ Stay
WholeStep(t) ==
    /\ Active(t) /\ pc[t].p = "hold"
    /\ LET r == ApplyC(st, Cur(t)) IN st' = r.z /\ Finished(t, r.out)
    /\ Stay

CNext == \E t \in Threads : SelectStep(t) \/ CountStep(t) \/ ActBegin(t) \/ ActEnd(t)
                            \/ LockStep(t) \/ WholeStep(t)
CSpec == CInit /\ [][CNext]_cvars

Terminal == \A t \in Threads : ~Active(t)

-----------------------------------------------------------------------------
(* Properties of the model *)

AllOuts == UNION {{<<t, k>> : k \in DOMAIN outs[t]} : t \in Threads}
OutOf(x) == outs[x[1]][x[2]]
\* the number of calls that expectation e has answered so far
Answered(id) == Cardinality({x \in AllOuts : OutOf(x).k = "ret" /\ OutOf(x).v \div 1000 = id})
Exps == UNION {Range(st.lists[s]) : s \in AllSlots}
\* what the setup had counted already
SetupCnt(id) == LET z == RunAll(Init0, TheScens[sc].setup).z
                    es == {e \in UNION {Range(z.lists[s]) : s \in AllSlots} : e.id = id}
                IN  IF es = {} THEN 0 ELSE (CHOOSE e \in es : TRUE).cnt

\* C13: never more answers than the maximum; the final count is that of the
\* calls answered and refused
NeverTooMany == \A e \in Exps : Answered(e.id) + SetupCnt(e.id) <= e.hi
NoneLost == Terminal =>
    \A t \in Threads : Len(outs[t]) = Len(TheScens[sc].prog[t])
                       /\ \A k \in DOMAIN outs[t] : outs[t][k].k \in {"ret", "fail", "ok", "user", "panic", "*"}
\* C14
Exclusive == \A t, u \in Threads : t # u /\ Active(t) /\ pc[t].p = "in" => ~Inside(u, Cur(t).s, pc[t].i)
OnceOnce == \A e \in Exps : e.rk \in {"once", "expired"} => Answered(e.id) <= 1

\* the outcome vectors of sequential executions
RECURSIVE SeqVectors(_, _, _)
SeqVectors(z, ps, os) ==
    LET ts == {t \in Threads : ps[t] <= Len(TheScens[sc].prog[t])} IN
    IF ts = {} THEN {os}
    ELSE UNION {LET r == ApplyC(z, TheScens[sc].prog[t][ps[t]]) IN
                SeqVectors(r.z, [ps EXCEPT ![t] = @ + 1], [os EXCEPT ![t] = Append(@, r.out)]) : t \in ts}
\* C13, C16: as if the calls had been made one after another
Linear == Terminal /\ TheScens[sc].lin =>
    outs \in SeqVectors(RunAll(Init0, TheScens[sc].setup).z,
                        [t \in Threads |-> 1], [t \in Threads |-> <<>>])

CProps == NeverTooMany /\ NoneLost /\ Exclusive /\ OnceOnce /\ Linear

-----------------------------------------------------------------------------
(* What the harness reads *)
OpJ(o) == <<o.op, o.s, o.a, o.w, [j \in DOMAIN o.cfg |-> <<o.cfg[j].c, o.cfg[j].k, o.cfg[j].a, o.cfg[j].b>>]>>
OpsJ(os) == [i \in DOMAIN os |-> OpJ(os[i])]
OutsJ(os) == [i \in DOMAIN os |-> OutJ(os[i])]
ASSUME \A i \in DOMAIN TheScens :
    LET r == RunAll(Init0, TheScens[i].setup) IN
    /\ \A j \in DOMAIN r.h : r.h[j].k \in {"ok", "ret"}
    /\ PrintT("@P" \o ToJson(<<i, OpsJ(TheScens[i].setup), OutsJ(r.h),
                [t \in DOMAIN TheScens[i].prog |-> OpsJ(TheScens[i].prog[t])],
                OpsJ(TheScens[i].post)>>))

\* Is the state so broken that the epilogue is not specified?
Report ==
    /\ Terminal => PrintT("@O" \o ToJson(<<sc, [t \in Threads |-> OutsJ(outs[t])],
            IF TaintedAny(st) THEN [i \in DOMAIN TheScens[sc].post |-> OutJ(Anything)]
            ELSE OutsJ(RunAll(st, TheScens[sc].post).h)>>))
    /\ \A t, u \in Threads : t # u /\ Active(t) /\ Active(u) =>
        /\ (pc[t].p = "in" /\ pc[u].p = "act" /\ Inside(t, Cur(u).s, pc[u].i)) =>
                PrintT("@B" \o ToJson(<<sc, t, pos[t], u, pos[u]>>))
        /\ (pc[t].p = "hold" /\ pc[u].p = "idle" /\ Static(Cur(u)) /\ Holds(t, Owner(Cur(u)))) =>
                PrintT("@B" \o ToJson(<<sc, t, pos[t], u, pos[u]>>))

-----------------------------------------------------------------------------
\* Many identical calls by free-running threads: since every call has the same
\* effect wherever it comes in the order, the outcomes are those of the same
\* calls made one after another, in some order.
CONSTANT Bulks      \* sequence of [setup, call, k, post]
ASSUME \A i \in DOMAIN Bulks :
    LET b == Bulks[i]
        r == RunAll(RunAll(Init0, b.setup).z, [j \in 1..b.k |-> b.call])
        p == RunAll(r.z, b.post)
    IN  PrintT("@K" \o ToJson(<<OpsJ(b.setup), OpJ(b.call), OutsJ(r.h), OpsJ(b.post),
            IF TaintedAny(r.z) THEN [x \in DOMAIN b.post |-> OutJ(Anything)] ELSE OutsJ(p.h)>>))
=============================================================================
