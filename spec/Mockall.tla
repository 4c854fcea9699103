------------------------------ MODULE Mockall ------------------------------
(***************************************************************************)
(* Sequential semantics of mockall's run-time behaviour: mock objects,     *)
(* their methods' FIFO expectation lists, call counts, matchers, actions,  *)
(* sequences, static functions with contexts, and what each API call       *)
(* returns or how it fails.                                                *)
(*                                                                         *)
(* One action per public API operation.  Every action computes, with the   *)
(* operator Apply, the next abstract state and the outcome the user must   *)
(* observe.  `path' is a history variable: the operations so far with      *)
(* their outcomes.  It is hidden by VIEW, so that TLC explores each        *)
(* abstract state once, and it is what the Emit action constraint prints:  *)
(* one complete test scenario per transition of the state graph.           *)
(*                                                                         *)
(* An operation is a record [op, s, a, w, cfg]; a configuration step (one  *)
(* builder call on an expectation) is a record [c, k, a, b]; an outcome is *)
(* a record [k, v, alts, runs] - runs: how often did each call run the     *)
(* closure of an expectation?  They are uniform so that sets of them are   *)
(* comparable in TLC and easily turned into JSON.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS
    Slots,      \* [slot -> [own, kind, static, role, n]]: own is an object or function name,
                \* kind is "any" | "val" | "ref" | "mut" (how it returns) | "own" (its
                \* receiver consumes the object), static
                \* tells whether it is a static function, role is for the binding
                \* to real methods, n is its number of arguments (0: any)
    Objs,       \* set of object names
    Fns,        \* set of static function names
    NSeq,       \* number of Sequence variables
    Alphabet,   \* set of operations the environment may perform
    MaxExp,     \* bound: expectations per slot
    MaxLen,     \* bound: operations per behaviour
    Nightly,    \* do expectations without action return defaults?  (The nightly
                \* feature is on, and the return type implements Default)
    Probe,      \* also emit scenarios that end with one call of every kind
    Pace        \* verification and the like only at every Pace-th step

VARIABLES
    st,         \* the abstract state
    res,        \* the outcome of the last operation
    path        \* history: <<operation index, outcome>> of every operation so far
vars == <<st, res, path>>

Inf == 1000000      \* stands for "no maximum"
AllSlots == DOMAIN Slots
SlotsOf(o) == {s \in AllSlots : Slots[s].own = o}

-----------------------------------------------------------------------------
(* Expectations *)

NoExp == [ id |-> 0, mk |-> "any", ma |-> 0, mb |-> 0, lo |-> 0, hi |-> Inf,
           cnt |-> 0, sq |-> 0, si |-> 0,
           rk |-> "none", ra |-> 0, rn |-> 0, var |-> -1, bad |-> "" ]

NewExp(id) == [NoExp EXCEPT !.id = id]

Bit(mask, i) == (mask \div (2 ^ i)) % 2 = 1

Pow2(i) == 2 ^ i
\* An n-ary method's abstract argument packs one bit per argument; the last
\* argument takes what is left.
ArgDigit(x, j, n) == IF j = n - 1 THEN x \div Pow2(j) ELSE (x \div Pow2(j)) % 2

\* Does the matcher of e accept the (abstract) argument x?  n: number of arguments
Accepts(e, x, n) ==
    CASE e.mk = "with" ->                       \* one predicate per argument
            \A j \in 0..(n - 1) : Bit((e.ma \div Pow2(2 * j)) % 4, ArgDigit(x, j, n))
      [] e.mk = "any"  -> TRUE
      [] e.mk = "eq"   -> x = e.ma
      [] e.mk = "ne"   -> x # e.ma
      [] e.mk = "lt"   -> x < e.ma
      [] e.mk = "ge"   -> x >= e.ma
      [] e.mk = "in"   -> Bit(e.ma, x)          \* predicate::in_iter
      [] e.mk = "pfn"  -> Bit(e.ma, x)          \* predicate::function
      [] e.mk = "alw"  -> TRUE                  \* predicate::always
      [] e.mk = "nev"  -> FALSE                 \* predicate::never
      [] e.mk = "not"  -> ~Bit(e.ma, x)         \* function(..).not()
      [] e.mk = "and"  -> Bit(e.ma, x) /\ Bit(e.mb, x)
      [] e.mk = "or"   -> Bit(e.ma, x) \/ Bit(e.mb, x)
      [] e.mk = "fn"   -> Bit(e.ma, x)          \* withf
      [] e.mk = "st"   -> Bit(e.ma, x)          \* withf_st
      [] e.mk \in {"pan", "panw"} -> Bit(e.ma, x)   \* withf or a predicate; panics on mb
      [] OTHER -> FALSE

MatcherPanics(e, x) == e.mk \in {"pan", "panw"} /\ Bit(e.mb, x)

Done(e) == e.cnt >= e.hi

\* The states of a value that is being built or inspected: fine, or failed
Err(k) == [k |-> k, v |-> 0, alts |-> {}, runs |-> 0]
Ok == Err("ok")
Ret(v) == [k |-> "ret", v |-> v, alts |-> {}, runs |-> 0]

\* Description of one failing expectation, for messages
Info(k, s, e, n, lim) ==
    [k |-> k, s |-> s, n |-> n, lim |-> lim, mk |-> e.mk, ma |-> e.ma, mb |-> e.mb]
Fail1(i) == [k |-> "fail", v |-> 0, alts |-> {i}, runs |-> 0]
FailAny(is) == [k |-> "fail", v |-> 0, alts |-> is, runs |-> 0]
AnyPanic == Err("panic")      \* must panic, in an unspecified way
Anything == Err("*")          \* unspecified

-----------------------------------------------------------------------------
(* Configuring an expectation: one builder call at a time *)

\* Bounds set by a call-count argument, or "backwards"
TimesOf(p) ==
    CASE p.k = "n"     -> [ok |-> TRUE, lo |-> p.a, hi |-> p.a]
      [] p.k = "r"     -> [ok |-> p.b > p.a, lo |-> p.a, hi |-> p.b - 1]
      [] p.k = "ri"    -> [ok |-> p.b >= p.a, lo |-> p.a, hi |-> p.b]
      [] p.k = "rf"    -> [ok |-> TRUE, lo |-> p.a, hi |-> Inf]
      [] p.k = "rt"    -> [ok |-> p.b > 0, lo |-> 0, hi |-> p.b - 1]
      [] p.k = "rti"   -> [ok |-> TRUE, lo |-> 0, hi |-> p.b]
      [] p.k = "full"  -> [ok |-> TRUE, lo |-> 0, hi |-> Inf]
      [] p.k = "once"  -> [ok |-> TRUE, lo |-> 1, hi |-> 1]
      [] p.k = "never" -> [ok |-> TRUE, lo |-> 0, hi |-> 0]

\* c: [z, e, out]: z the global state, e the expectation, out the first error
Step1(c, p) ==
    IF c.out.k # "ok" THEN c
    ELSE CASE p.c = "m" -> [c EXCEPT !.e.mk = p.k, !.e.ma = p.a, !.e.mb = p.b]
           [] p.c = "t" ->
                LET t == TimesOf(p) IN
                IF t.ok THEN [c EXCEPT !.e.lo = t.lo, !.e.hi = t.hi]
                ELSE [c EXCEPT !.out = Err("backwards")]
           [] p.c = "s" ->
                IF c.e.lo # c.e.hi THEN [c EXCEPT !.out = Err("inexact")]
                ELSE IF c.e.hi = 0 THEN c    \* never called: nothing to order
                ELSE LET q == c.z.cur[p.a] IN
                     [c EXCEPT !.e.sq = q, !.e.si = c.z.seqs[q].next,
                               !.z.seqs[q].next = @ + 1]
           [] p.c = "r" -> [c EXCEPT !.e.rk = p.k, !.e.ra = p.a, !.e.rn = 0, !.e.var = -1]

Configure(z, e, cfg) == FoldLeft(Step1, [z |-> z, e |-> e, out |-> Ok], cfg)

-----------------------------------------------------------------------------
(* Running the action of expectation e for argument x (after counting). *)
(* kind: of the method; w: value the caller writes through a returned   *)
(* mutable reference, -1 for none.  th: TRUE on a foreign thread.       *)

Base(e) == e.id * 1000 + e.ra * 100
Auto(e) == e.id * 1000

Action(kind, e, x, w, th) ==
    LET same(v) == [e |-> e, out |-> Ret(v)] IN
    CASE e.bad = "r" -> [e |-> e, out |-> AnyPanic]
      [] e.rk = "none" ->
            IF ~Nightly THEN [e |-> e, out |-> Err("nodef")]
            ELSE IF kind = "mut"
                 THEN [e |-> IF w >= 0 THEN [e EXCEPT !.var = w] ELSE e,
                       out |-> Ret(IF e.var >= 0 THEN e.var ELSE 0)]
                 ELSE same(0)
      [] e.rk = "auto" -> same(Auto(e))
      [] e.rk = "const" -> same(Base(e))
      [] e.rk = "const_st" ->
            IF th THEN [e |-> [e EXCEPT !.bad = "r"], out |-> Err("frag")]
            ELSE same(Base(e))
      [] e.rk \in {"fn", "fn_st"} ->
            IF th /\ e.rk = "fn_st"
            THEN [e |-> IF kind = "val" THEN [e EXCEPT !.bad = "r"] ELSE e,
                  out |-> Err("frag")]
            ELSE [e |-> [e EXCEPT !.rn = @ + 1], out |-> Ret(Base(e) + 10 * e.rn + x)]
      [] e.rk \in {"once", "once_st"} ->
            IF th /\ e.rk = "once_st"
            THEN [e |-> [e EXCEPT !.bad = "r"], out |-> Err("frag")]
            ELSE [e |-> [e EXCEPT !.rk = "expired"], out |-> Ret(Base(e) + x)]
      [] e.rk = "expired" ->
            [e |-> [e EXCEPT !.bad = "r"], out |-> Err("expired")]
      [] e.rk = "var" ->
            [e |-> IF w >= 0 THEN [e EXCEPT !.var = w] ELSE e,
             out |-> Ret(IF e.var >= 0 THEN e.var ELSE Base(e))]
      [] e.rk \in {"panic", "constp"} ->   \* constp: a constant whose Clone panics
            [e |-> IF kind = "val" THEN [e EXCEPT !.bad = "r"] ELSE e,
             out |-> Err("user")]
      [] e.rk = "panic1" ->      \* panics on argument 1 only
            IF x # 1 THEN [e |-> [e EXCEPT !.rn = @ + 1], out |-> Ret(Base(e) + 10 * e.rn + x)]
            ELSE [e |-> IF kind = "val" THEN [e EXCEPT !.bad = "r"] ELSE e,
                  out |-> Err("user")]

\* The "nodef" failure happens with the action's lock held as well
AfterAction(kind, r) ==
    IF r.out.k = "nodef" /\ kind = "val" THEN [r EXCEPT !.e.bad = "r"] ELSE r

-----------------------------------------------------------------------------
(* A call *)

\* Evaluating e's matcher panics (in an unspecified way if it did before)
Trips(e, x, th) == e.bad = "m" \/ MatcherPanics(e, x) \/ (th /\ e.mk = "st")

\* The index where the FIFO scan stops: first qualifying or panicking one
Qualifies(list, i, x, n) == Accepts(list[i], x, n) /\ (~Done(list[i]) \/ Len(list) = 1)
ScanStop(list, x, th, n) ==
    LET c == {i \in 1..Len(list) : Trips(list[i], x, th) \/ Qualifies(list, i, x, n)}
    IN  IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j

\* Whether a used-up expectation's matcher is evaluated at all is unspecified;
\* calls for which this would matter are not considered
Obscure(list, x, th, n) ==
    LET i == ScanStop(list, x, th, n)
    IN  i # 0 /\ Len(list) > 1 /\ Done(list[i]) /\ Trips(list[i], x, th)

\* a panic with the function's lock held
Tainted(z, s) == IF Slots[s].static THEN [z EXCEPT !.taint[Slots[s].own] = TRUE] ELSE z

\* First step: find the expectation.  i = 0: none; out.k = "ok": go on
Select(z, s, x, th) ==
    LET list == z.lists[s]
        i == ScanStop(list, x, th, Slots[s].n)
    IN
    IF i = 0 THEN [z |-> z, i |-> 0, out |-> Fail1(Info("nomatch", s, NoExp, x, 0))]
    ELSE IF Trips(list[i], x, th) THEN
        [z |-> Tainted([z EXCEPT !.lists[s][i].bad = "m"], s), i |-> i,
         out |-> IF list[i].bad = "m" THEN AnyPanic
                 ELSE IF MatcherPanics(list[i], x) THEN Err("user") ELSE Err("frag")]
    ELSE [z |-> z, i |-> i, out |-> Ok]

\* Second step: count the call, and check and advance the sequence
Count(z, s, i, x) ==
    LET e == [z.lists[s][i] EXCEPT !.cnt = @ + 1]
        counted == [z EXCEPT !.lists[s][i] = e]
    IN
    IF e.cnt > e.hi THEN
        [z |-> Tainted(counted, s),
         out |-> Fail1(Info(IF e.hi = 0 THEN "never" ELSE "over", s, e, e.cnt, e.hi))]
    ELSE IF e.sq # 0 /\ z.seqs[e.sq].level # e.si THEN
        [z |-> Tainted(counted, s), out |-> Fail1(Info("seq", s, e, x, 0))]
    ELSE [z |-> IF e.sq # 0 /\ e.cnt >= e.lo
                THEN [counted EXCEPT !.seqs[e.sq].level = @ + 1] ELSE counted,
          out |-> Ok]

\* Third step: run the action.  A closure runs for the calls that it answers
\* (or panics in), once, and for no others.
Closures == {"fn", "fn_st", "once", "once_st", "panic", "panic1"}
IsClosure(kind, rk) == rk \in Closures \/ (rk = "auto" /\ kind \notin {"ref", "mut"})
Act(z, s, i, x, w, th) ==
    LET e == z.lists[s][i]
        r == AfterAction(Slots[s].kind, Action(Slots[s].kind, e, x, w, th))
        z3 == [z EXCEPT !.lists[s][i] = r.e]
    IN  [z |-> IF r.out.k = "ret" THEN z3 ELSE Tainted(z3, s),
         out |-> IF r.out.k = "nodef" \/ r.out.k = "expired"
                 THEN Fail1(Info(r.out.k, s, e, 0, 0))
                 ELSE IF r.out.k \in {"ret", "user"} /\ IsClosure(Slots[s].kind, e.rk)
                 THEN [r.out EXCEPT !.runs = 1] ELSE r.out]

Call(z, s, x, w, th) ==
    LET a == Select(z, s, x, th)
        b == Count(a.z, s, a.i, x)
    IN  IF a.out.k # "ok" THEN [z |-> a.z, out |-> a.out]
        ELSE IF b.out.k # "ok" THEN b
        ELSE Act(b.z, s, a.i, x, w, th)

-----------------------------------------------------------------------------
(* Verification *)

Complaint(s, e) ==
    IF e.cnt < e.lo THEN {Info("few", s, e, e.cnt, e.lo)}
    ELSE IF e.cnt > e.hi THEN {Info("many", s, e, e.cnt, e.hi)} ELSE {}

Complaints(z, ss) == UNION {UNION {Complaint(s, e) : e \in Range(z.lists[s])} : s \in ss}
\* Verifying touches every matcher; unspecified once one of them panicked
Murky(z, ss) == \E s \in ss : \E e \in Range(z.lists[s]) : e.bad = "m"

Verdict(z, ss) ==
    IF Murky(z, ss) THEN Anything
    ELSE IF Complaints(z, ss) = {} THEN Ok ELSE FailAny(Complaints(z, ss))

Cleared(z, ss) == [z EXCEPT !.lists = [s \in AllSlots |-> IF s \in ss THEN <<>> ELSE @[s]]]
NonEmpty(z, ss) == {s \in ss : z.lists[s] # <<>>}
\* Checkpointing stops at the first failing method: which of the others have
\* been cleared by then is unspecified.
Definite(z, ss, out) == out.k = "ok" \/ (out.k = "fail" /\ Cardinality(NonEmpty(z, ss)) <= 1)

-----------------------------------------------------------------------------
(* Operations *)

Init0 ==
    [ lists |-> [s \in AllSlots |-> <<>>],
      live  |-> [o \in Objs |-> TRUE],
      murky |-> [o \in Objs |-> FALSE],     \* after an indefinite checkpoint
      taint |-> [f \in Fns |-> FALSE],      \* a panic happened under f's lock
      ctxs  |-> <<>>,                       \* live contexts, oldest first
      seqs  |-> [q \in 1..NSeq |-> [next |-> 0, level |-> 0]],
      cur   |-> [q \in 1..NSeq |-> q],
      nid   |-> 0 ]

SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
LastCtx(z, f) == SetMax({i \in 1..Len(z.ctxs) : z.ctxs[i] = f})

StaticsOf(f) == {s \in SlotsOf(f) : Slots[s].static}
TaintedAny(z) == \E f \in Fns : z.taint[f]

Enabled0(z, o) ==
    CASE o.op = "exp"  ->
            LET own == Slots[o.s].own IN
            /\ Len(z.lists[o.s]) < MaxExp
            /\ IF Slots[o.s].static THEN own \in Range(z.ctxs) /\ ~z.taint[own]
               ELSE z.live[own] /\ ~z.murky[own]
      [] o.op \in {"call", "callt", "calld", "callc", "callm"} /\ Obscure(z.lists[o.s], o.a, o.op = "callt", Slots[o.s].n) -> FALSE
      [] o.op = "callm" ->      \* one expectation answers all of the calls
            LET own == Slots[o.s].own
                x == Select(z, o.s, o.a, FALSE)
                e == z.lists[o.s][x.i]
            IN  /\ IF Slots[o.s].static THEN ~z.taint[own] ELSE z.live[own] /\ ~z.murky[own]
                /\ x.out.k = "ok" /\ e.rk = "auto" /\ e.cnt + o.w <= e.hi
                /\ e.sq # 0 => z.seqs[e.sq].level = e.si
      [] o.op \in {"call", "callt", "calld"} ->
            LET own == Slots[o.s].own IN
            IF Slots[o.s].static THEN ~z.taint[own] ELSE z.live[own] /\ ~z.murky[own]
      [] o.op = "callc" -> LET own == Slots[o.s].own IN z.live[own] /\ ~z.murky[own]
      [] o.op = "new"   -> ~z.live[o.s]
      [] o.op \in {"chk", "dbg"} -> z.live[o.s] /\ ~z.murky[o.s]
      [] o.op = "drop"  -> z.live[o.s]
      [] o.op = "dropu" -> z.live[o.s]
      [] o.op = "ctx"   -> Len(SelectSeq(z.ctxs, LAMBDA f : f = o.s)) < o.a
      [] o.op \in {"cchk", "cdrop"} -> o.s \in Range(z.ctxs) /\ ~z.taint[o.s]
      [] o.op = "cdropu" -> o.s \in Range(z.ctxs)
      [] o.op = "tpanic" -> z.ctxs # <<>>
      [] o.op = "mchk"  -> ~TaintedAny(z)
      [] o.op = "seq"   -> Len(z.seqs) < NSeq + o.w   \* at most w fresh sequences

Apply(z, o) ==
    CASE o.op = "exp" ->
            LET c == Configure(z, NewExp(z.nid + 1), o.cfg)
                z2 == [c.z EXCEPT !.lists[o.s] = Append(@, c.e), !.nid = @ + 1]
            IN  [z |-> IF c.out.k # "ok" /\ Slots[o.s].static
                       THEN [z2 EXCEPT !.taint[Slots[o.s].own] = TRUE] ELSE z2,
                 out |-> c.out]
      [] o.op = "call"  -> Call(z, o.s, o.a, o.w, FALSE)
      [] o.op = "callt" -> Call(z, o.s, o.a, o.w, TRUE)
      [] o.op = "callm" ->                     \* w calls, one after the other
            LET i == Select(z, o.s, o.a, FALSE).i
                e == z.lists[o.s][i]
                z2 == [z EXCEPT !.lists[o.s][i].cnt = @ + o.w]
            IN  [z |-> IF e.sq # 0 /\ e.cnt + o.w >= e.lo THEN [z2 EXCEPT !.seqs[e.sq].level = @ + 1] ELSE z2,
                 out |-> [Ret(Auto(e)) EXCEPT !.runs = IF IsClosure(Slots[o.s].kind, "auto") THEN 1 ELSE 0]]
      [] o.op = "calld" ->                     \* the argument's Debug panics
            [z |-> z, out |-> Err("user")]
      [] o.op = "callc" ->                     \* consumes the object, which verifies it
            LET r == Call(z, o.s, o.a, -1, FALSE)
                own == Slots[o.s].own
                v == Verdict(r.z, SlotsOf(own))
            IN  [z |-> [Cleared(r.z, SlotsOf(own)) EXCEPT !.live[own] = FALSE],
                 out |-> IF r.out.k # "ret" \/ v.k = "ok" THEN r.out ELSE [v EXCEPT !.runs = r.out.runs]]
      [] o.op = "new"   -> [z |-> [z EXCEPT !.live[o.s] = TRUE, !.murky[o.s] = FALSE], out |-> Ok]
      [] o.op = "dbg"   -> [z |-> z, out |-> Ok]      \* printed with {:?}
      [] o.op = "chk"   ->
            LET ss == SlotsOf(o.s)
                v == Verdict(z, ss)
            IN  IF Definite(z, ss, v) THEN [z |-> Cleared(z, ss), out |-> v]
                ELSE [z |-> [Cleared(z, ss) EXCEPT !.murky[o.s] = TRUE], out |-> v]
      [] o.op = "drop"  ->
            LET ss == SlotsOf(o.s) IN
            [z |-> [Cleared(z, ss) EXCEPT !.live[o.s] = FALSE, !.murky[o.s] = FALSE],
             out |-> IF z.murky[o.s] THEN Anything ELSE Verdict(z, ss)]
      [] o.op = "dropu" ->                     \* dropped while unwinding
            [z |-> [Cleared(z, SlotsOf(o.s)) EXCEPT !.live[o.s] = FALSE, !.murky[o.s] = FALSE],
             out |-> Err("user")]
      [] o.op = "ctx"   -> [z |-> [z EXCEPT !.ctxs = Append(@, o.s)], out |-> Ok]
      [] o.op = "cchk"  ->
            [z |-> Cleared(z, StaticsOf(o.s)), out |-> Verdict(z, StaticsOf(o.s))]
      [] o.op = "cdrop" ->
            [z |-> [Cleared(z, StaticsOf(o.s)) EXCEPT !.ctxs = RemoveAt(@, LastCtx(z, o.s))],
             out |-> Verdict(z, StaticsOf(o.s))]
      [] o.op = "cdropu" ->                    \* one context dropped in unwinding
            [z |-> [Cleared(z, StaticsOf(o.s)) EXCEPT !.ctxs = RemoveAt(@, LastCtx(z, o.s)),
                                                      !.taint[o.s] = FALSE],
             out |-> Err("user")]
      [] o.op = "tpanic" ->                    \* the test panics: all unwind
            LET fs == Range(z.ctxs)
                ss == UNION {StaticsOf(f) : f \in fs}
            IN  [z |-> [Cleared(z, ss) EXCEPT !.ctxs = <<>>,
                            !.taint = [f \in Fns |-> IF f \in fs THEN FALSE ELSE @[f]]],
                 out |-> Err("user")]
      [] o.op = "mchk"  ->
            LET ss == UNION {StaticsOf(f) : f \in Fns}
                v == Verdict(z, ss)
            IN  IF Definite(z, ss, v) THEN [z |-> Cleared(z, ss), out |-> v]
                ELSE [z |-> [Cleared(z, ss) EXCEPT !.taint = [f \in Fns |-> f \in Range(z.ctxs)]],
                      out |-> v]
      [] o.op = "seq"   ->                     \* var = Sequence::new()
            [z |-> [z EXCEPT !.seqs = Append(@, [next |-> 0, level |-> 0]),
                             !.cur[o.a] = Len(z.seqs) + 1],
             out |-> Ok]

Op(op, s, a, w, cfg) == [op |-> op, s |-> s, a |-> a, w |-> w, cfg |-> cfg]

\* What ends every scenario: everything that is still alive is dropped.
RECURSIVE Finish(_, _)
Finish(z, acc) ==
    LET liveObjs == {o \in Objs : z.live[o]} IN
    IF TaintedAny(z) /\ z.ctxs # <<>> THEN
        LET o == Op("tpanic", "", 0, 0, <<>>)
            r == Apply(z, o)
        IN  Finish(r.z, Append(acc, [o |-> o, x |-> r.out]))
    ELSE IF z.ctxs # <<>> THEN
        LET o == Op("cdrop", z.ctxs[Len(z.ctxs)], 0, 0, <<>>)
            r == Apply(z, o)
        IN  Finish(r.z, Append(acc, [o |-> o, x |-> r.out]))
    ELSE IF liveObjs # {} THEN
        LET ob == CHOOSE x \in liveObjs : TRUE
            o == Op("drop", ob, 0, 0, <<>>)
            r == Apply(z, o)
        IN  Finish(r.z, Append(acc, [o |-> o, x |-> r.out]))
    ELSE acc

-----------------------------------------------------------------------------
(* Behaviours *)

Ops == SetToSeq(Alphabet)
OpNames == {"exp", "call", "callm", "callt", "calld", "callc", "new", "dbg", "chk", "drop", "dropu", "ctx",
            "cchk", "cdrop", "cdropu", "tpanic", "mchk", "seq"}
RareOps == {"chk", "drop", "dropu", "cchk", "cdrop", "cdropu", "tpanic", "mchk", "seq"}
OpsOf == [c \in OpNames |-> {i \in DOMAIN Ops : Ops[i].op = c}]

Init == st = Init0 /\ res = Ok /\ path = <<>>

Do(i) ==
    /\ Len(path) < MaxLen
    /\ Enabled0(st, Ops[i])
    /\ Ops[i].op \in RareOps => (Len(path) + 1) % Pace = 0
    /\ LET r == Apply(st, Ops[i]) IN
       /\ st' = r.z
       /\ res' = r.out
       /\ path' = Append(path, <<i, r.out>>)

ExpectAct     == \E i \in OpsOf["exp"] : Do(i)
CallAct       == \E i \in OpsOf["call"] : Do(i)
CallMany      == \E i \in OpsOf["callm"] : Do(i)
CallForeign   == \E i \in OpsOf["callt"] : Do(i)
CallBadDebug  == \E i \in OpsOf["calld"] : Do(i)
CallConsuming == \E i \in OpsOf["callc"] : Do(i)
NewAct        == \E i \in OpsOf["new"] : Do(i)
PrintAct      == \E i \in OpsOf["dbg"] : Do(i)
CheckpointAct == \E i \in OpsOf["chk"] : Do(i)
DropAct       == \E i \in OpsOf["drop"] : Do(i)
DropUnwind    == \E i \in OpsOf["dropu"] : Do(i)
CtxAct        == \E i \in OpsOf["ctx"] : Do(i)
CtxCheckpoint == \E i \in OpsOf["cchk"] : Do(i)
CtxDrop       == \E i \in OpsOf["cdrop"] : Do(i)
CtxDropUnwind == \E i \in OpsOf["cdropu"] : Do(i)
TestPanic     == \E i \in OpsOf["tpanic"] : Do(i)
ModCheckpoint == \E i \in OpsOf["mchk"] : Do(i)
SeqAct        == \E i \in OpsOf["seq"] : Do(i)

Next == \/ ExpectAct \/ CallAct \/ CallMany \/ CallForeign \/ CallBadDebug \/ CallConsuming
        \/ NewAct \/ PrintAct \/ CheckpointAct \/ DropAct \/ DropUnwind
        \/ CtxAct \/ CtxCheckpoint \/ CtxDrop \/ CtxDropUnwind \/ TestPanic
        \/ ModCheckpoint \/ SeqAct

Spec == Init /\ [][Next]_vars

View == st

-----------------------------------------------------------------------------
(* What conformance checking reads *)

OutJ(x) == IF x.alts = {} THEN <<IF x.runs = 0 THEN x.k ELSE x.k \o "!", x.v>>
           ELSE <<x.k, x.v, {<<i.k, i.s, i.n, i.lim, i.mk, i.ma, i.mb>> : i \in x.alts}>>
FinJ(fs) == [i \in DOMAIN fs |-> <<fs[i].o.op, fs[i].o.s, OutJ(fs[i].x)>>]

ASSUME PrintT("@U" \o ToJson([slots |-> Slots, objs |-> Objs, fns |-> Fns, nseq |-> NSeq]))
ASSUME PrintT("@A" \o ToJson([i \in DOMAIN Ops |-> <<Ops[i].op, Ops[i].s, Ops[i].a, Ops[i].w,
            [j \in DOMAIN Ops[i].cfg |-> <<Ops[i].cfg[j].c, Ops[i].cfg[j].k, Ops[i].cfg[j].a, Ops[i].cfg[j].b>>]>>]))

\* One call of every kind, then the epilogue
ProbeOps == SetToSeq(OpsOf["call"] \cup OpsOf["callt"])
RunProbe(z) == FoldLeft(
    LAMBDA acc, i :
        IF Enabled0(acc.z, Ops[i])
        THEN LET r == Apply(acc.z, Ops[i]) IN [z |-> r.z, h |-> Append(acc.h, <<i, OutJ(r.out)>>)]
        ELSE acc,
    [z |-> z, h |-> <<>>], ProbeOps)

\* One line per transition: how to get there, the outcome of the last
\* operation, the epilogue, and the probes with their epilogue.
Emit == LET pr == RunProbe(st') IN
    PrintT("@T" \o ToJson(<<[i \in DOMAIN path' |-> path'[i][1]],
                           OutJ(res'), FinJ(Finish(st', <<>>)),
                           IF Probe THEN pr.h ELSE <<>>,
                           IF Probe THEN FinJ(Finish(pr.z, <<>>)) ELSE <<>> >>))
\* In simulation mode: one line per behaviour
EmitLong == (Len(path') = MaxLen) =>
    PrintT("@S" \o ToJson(<<[i \in DOMAIN path' |-> <<path'[i][1], OutJ(path'[i][2])>>],
                            FinJ(Finish(st', <<>>))>>))
=============================================================================
