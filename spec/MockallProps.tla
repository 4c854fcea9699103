---------------------------- MODULE MockallProps ----------------------------
(***************************************************************************)
(* The properties, stated over states and steps of Mockall.  TLC checks    *)
(* them on every reachable transition of every configuration in MC.tla, so *)
(* that the expected outcomes which conformance checking compares with the *)
(* real code are outcomes that satisfy the properties.                     *)
(***************************************************************************)
EXTENDS Mockall

LastOp == Ops[path'[Len(path')][1]]
IsCall == LastOp.op \in {"call", "callt"}
Before == st.lists[LastOp.s]
After == st'.lists[LastOp.s]
\* the expectations that the call was counted against
Counted == {i \in DOMAIN Before : After[i].cnt # Before[i].cnt}
ArgN == Slots[LastOp.s].n
WouldTrip(i) == Trips(Before[i], LastOp.a, LastOp.op = "callt")
Open(e) == e.cnt < e.hi

\* C01: the oldest open expectation whose matcher accepts gets the call; an
\* exhausted one only if it is the only one; otherwise the call fails and
\* nothing changes.
FifoStep ==
    IsCall =>
        /\ Cardinality(Counted) <= 1
        /\ \A i \in Counted :
              /\ Accepts(Before[i], LastOp.a, ArgN)
              /\ Open(Before[i]) \/ Len(Before) = 1
              /\ \A j \in 1..(i - 1) : ~(Accepts(Before[j], LastOp.a, ArgN) /\ Open(Before[j]))
              /\ After[i].cnt = Before[i].cnt + 1
        /\ (/\ \A i \in DOMAIN Before : ~WouldTrip(i)
            /\ \E i \in DOMAIN Before : Accepts(Before[i], LastOp.a, ArgN) /\ Open(Before[i]))
              => Counted # {}
        /\ res'.k = "ret" => Counted # {}
        /\ res'.k = "fail" /\ (\E i \in res'.alts : i.k = "nomatch") => st' = st

\* The same for many calls at once (they are made up from single ones)
ManyStep ==
    LastOp.op = "callm" =>
        /\ Cardinality(Counted) = 1
        /\ \A i \in Counted :
              /\ Accepts(Before[i], LastOp.a, ArgN)
              /\ \A j \in 1..(i - 1) : ~(Accepts(Before[j], LastOp.a, ArgN) /\ Open(Before[j]))
              /\ After[i].cnt = Before[i].cnt + LastOp.w /\ After[i].cnt <= After[i].hi

\* C02: a call that returns never takes the count above the maximum, and one
\* that would, fails
MaxStep ==
    IsCall => \A i \in Counted :
        After[i].cnt > After[i].hi =>
            /\ res'.k = "fail"
            /\ \A a \in res'.alts : a.k = IF After[i].hi = 0 THEN "never" ELSE "over"

\* C07: a closure runs only for a call that its expectation accepts, which is
\* within its limits and in order; refused calls run nothing
RunStep ==
    /\ res'.runs \in {0, 1}
    /\ IsCall =>
        /\ res'.runs = 1 => \E i \in Counted :
              /\ IsClosure(Slots[LastOp.s].kind, Before[i].rk)
              /\ After[i].cnt <= After[i].hi
              /\ Before[i].sq # 0 => st.seqs[Before[i].sq].level = Before[i].si
        /\ res'.k = "fail" => res'.runs = 0
        /\ res'.k = "ret" => \E i \in Counted : res'.runs = 1 <=> IsClosure(Slots[LastOp.s].kind, Before[i].rk)

Satisfied(e) == e.cnt >= e.lo /\ e.cnt <= e.hi
AllSatisfied(ss) == \A s \in ss : \A e \in Range(st.lists[s]) : Satisfied(e)
NoneMurky(ss) == \A s \in ss : \A e \in Range(st.lists[s]) : e.bad # "m"
Emptied(ss) == \A s \in ss : st'.lists[s] = <<>>

\* C03, C04: verification succeeds exactly if every call count is in range;
\* what is verified is also discarded
VerifyStep ==
    /\ LastOp.op \in {"drop", "chk"} =>
        LET ss == SlotsOf(LastOp.s) IN
        /\ NoneMurky(ss) /\ ~st.murky[LastOp.s] => (res'.k = "ok" <=> AllSatisfied(ss))
        /\ Emptied(ss)
    /\ LastOp.op \in {"cchk", "cdrop"} =>
        LET ss == StaticsOf(LastOp.s) IN
        /\ NoneMurky(ss) => (res'.k = "ok" <=> AllSatisfied(ss))
        /\ Emptied(ss)
    /\ LastOp.op \in {"dropu", "cdropu", "tpanic"} => res'.k = "user"

\* C03: a call that consumes the object returns only if every other
\* expectation is satisfied and its own one lacks at most this call
ConsumeStep ==
    LastOp.op = "callc" =>
        LET own == Slots[LastOp.s].own IN
        /\ ~st'.live[own] /\ Emptied(SlotsOf(own))
        /\ res'.k = "ret" =>
             \E i \in DOMAIN Before :
                /\ Accepts(Before[i], LastOp.a, ArgN)
                /\ Before[i].cnt < Before[i].hi
                /\ Before[i].cnt + 1 >= Before[i].lo
                /\ \A j \in DOMAIN Before \ {i} : Satisfied(Before[j])
                /\ AllSatisfied(SlotsOf(own) \ {LastOp.s})

\* C05: a sequenced expectation answers only when all earlier ones of the
\* same sequence have had their calls
Members(q) == {e \in UNION {Range(st.lists[s]) : s \in AllSlots} : e.sq = q}
SequenceStep ==
    /\ IsCall /\ res'.k = "ret" => \A i \in Counted :
          Before[i].sq # 0 =>
             /\ \A e \in Members(Before[i].sq) : e.si < Before[i].si => e.cnt >= e.lo
             /\ st.seqs[Before[i].sq].level = Before[i].si
    /\ \A q \in DOMAIN st.seqs :
          /\ st'.seqs[q].level >= st.seqs[q].level
          /\ st'.seqs[q].level <= st.seqs[q].level + 1
          /\ st'.seqs[q].level > st.seqs[q].level => IsCall \/ LastOp.op = "callm"

\* C10: an operation on one slot leaves every other slot alone
Touches ==
    CASE LastOp.op \in {"exp", "call", "callm", "callt", "calld"} -> {LastOp.s}
      [] LastOp.op = "callc" -> SlotsOf(Slots[LastOp.s].own)
      [] LastOp.op \in {"new", "chk", "drop", "dropu"} -> SlotsOf(LastOp.s)
      [] LastOp.op = "dbg" -> {}
      [] LastOp.op \in {"cchk", "cdrop", "cdropu"} -> StaticsOf(LastOp.s)
      [] OTHER -> {s \in AllSlots : Slots[s].static}
IsolationStep == \A s \in AllSlots \ Touches : st'.lists[s] = st.lists[s]

\* C21: a new object has no expectations; printing one changes nothing
CreateStep ==
    /\ LastOp.op = "new" => Emptied(SlotsOf(LastOp.s)) /\ st'.live[LastOp.s]
    /\ LastOp.op = "dbg" => st' = st /\ res'.k = "ok"

\* C11: expectations of a static function exist only while a context does;
\* C12: a context that ends takes every trace of a panic with it
StaticScope == \A s \in AllSlots : Slots[s].static /\ st.lists[s] # <<>> => Slots[s].own \in Range(st.ctxs)
TaintScope == \A f \in Fns : st.taint[f] => f \in Range(st.ctxs)

\* C06: limits are ordered
Limits == \A s \in AllSlots : \A i \in DOMAIN st.lists[s] :
    st.lists[s][i].lo <= st.lists[s][i].hi /\ st.lists[s][i].cnt >= 0
\* C05: members are numbered, each place is taken once
SeqNumbers == \A s1, s2 \in AllSlots : \A i \in DOMAIN st.lists[s1], j \in DOMAIN st.lists[s2] :
    LET a == st.lists[s1][i] b == st.lists[s2][j] IN
    a.sq # 0 /\ a.sq = b.sq /\ a.si = b.si => a = b

StepProps == [][FifoStep /\ ManyStep /\ MaxStep /\ RunStep /\ VerifyStep /\ ConsumeStep /\ SequenceStep /\ IsolationStep /\ CreateStep]_vars
StateProps == StaticScope /\ TaintScope /\ Limits /\ SeqNumbers
=============================================================================
