-------------------------------- MODULE MCC --------------------------------
(* Scenarios for the concurrent specification *)
EXTENDS MockallConc
CONSTANT Big
S4(c, k, a, b) == [c |-> c, k |-> k, a |-> a, b |-> b]
MFn(m) == S4("m", "fn", m, 0)
MAny == S4("m", "any", 0, 0)
N(n) == S4("t", "n", n, 0)
RngI(a, b) == S4("t", "ri", a, b)
Full == S4("t", "full", 0, 0)
InSeq(q) == S4("s", "s", q, 0)
R(k, a) == S4("r", k, a, 0)
ExpN(s, id, cfg) == Op("exp", s, id, 0, cfg)
C_(s, x) == Op("call", s, x, -1, <<>>)
DropO == Op("drop", "o", 0, 0, <<>>)
ChkO == Op("chk", "o", 0, 0, <<>>)
Ctx(f) == Op("ctx", f, 9, 0, <<>>)
CChk(f) == Op("cchk", f, 0, 0, <<>>)
CDrop(f) == Op("cdrop", f, 0, 0, <<>>)

Slot(own, kind, static, role, n) ==
    [own |-> own, kind |-> kind, static |-> static, role |-> role, n |-> n]
OneVal == [m |-> Slot("o", "val", FALSE, 0, 0)]
TwoVal == [m |-> Slot("o", "val", FALSE, 0, 0), n |-> Slot("o", "val", FALSE, 1, 0)]
OneRef == [m |-> Slot("o", "ref", FALSE, 0, 0)]
OneSta == [m |-> Slot("F", "val", TRUE, 0, 0)]
TwoSta == [m |-> Slot("F", "val", TRUE, 0, 0), n |-> Slot("G", "val", TRUE, 1, 0)]
GenSta == [m |-> Slot("F", "val", TRUE, 0, 0), n |-> Slot("F", "val", TRUE, 1, 0)]

Sc(setup, prog, post, lin) == [setup |-> setup, prog |-> prog, post |-> post, lin |-> lin]
\* every pair (triple) of thread programs, up to order
Pairs(P) == LET q == SetToSeq(P) IN {<<q[i], q[j]>> : i \in DOMAIN q, j \in DOMAIN q} 
UPairs(P) == LET q == SetToSeq(P) IN {<<q[p[1]], q[p[2]]>> : p \in {x \in (DOMAIN q) \X (DOMAIN q) : x[1] <= x[2]}}
UTriples(P) == LET q == SetToSeq(P) IN {<<q[p[1]], q[p[2]], q[p[3]]>> :
                  p \in {x \in (DOMAIN q) \X (DOMAIN q) \X (DOMAIN q) : x[1] <= x[2] /\ x[2] <= x[3]}}

Prog1 == {<<C_("m", 0)>>, <<C_("m", 1)>>}
Prog2 == {<<C_("m", 0), C_("m", 0)>>, <<C_("m", 0), C_("m", 1)>>, <<C_("m", 1), C_("m", 0)>>}

\* C13: a single expectation
Times1 == {N(0), N(1), N(2), N(3), RngI(1, 2), RngI(2, 3), Full}
C13a == {Sc(<<ExpN("m", 1, <<MFn(k), t, R(a, 1)>>)>>, p, <<DropO>>, TRUE) :
            k \in {1, 3}, t \in Times1, a \in {"fn", "const"}, p \in UPairs(Prog2) \cup UTriples(Prog1)}
C13b == {Sc(<<ExpN("m", 1, <<MFn(k), t, R("fn", 1)>>), ExpN("m", 2, <<MFn(l), u, R("const", 2)>>)>>, p, <<DropO>>, FALSE) :
            k \in {1, 3}, l \in {2, 3}, t \in {N(1), N(2)}, u \in {N(1), Full}, p \in UPairs(Prog2) \cup UTriples(Prog1)}
C13Scens == SetToSeq(C13a) \o SetToSeq(C13b)
\* sequences
C13qProgs == {<<C_("m", 0)>>, <<C_("n", 0)>>, <<C_("m", 0), C_("n", 0)>>, <<C_("n", 0), C_("m", 0)>>, <<C_("m", 0), C_("m", 0)>>}
C13q == {Sc(<<ExpN("m", 1, <<MAny, N(i), InSeq(1), R("fn", 1)>>), ExpN("n", 2, <<MAny, N(j), InSeq(1), R("const", 2)>>)>>,
            p, <<DropO>>, TRUE) : i \in 1..3, j \in 1..2, p \in UPairs(C13qProgs) \cup UTriples({<<C_("m", 0)>>, <<C_("n", 0)>>})}
        \cup {Sc(<<ExpN("m", 1, <<MFn(1), N(i), InSeq(1), R("fn", 1)>>), ExpN("m", 2, <<MFn(2), N(1), InSeq(1), R("const", 2)>>)>>,
            p, <<DropO>>, FALSE) : i \in 1..2, p \in UPairs(Prog2) \cup UTriples(Prog1)}
C13qScens == SetToSeq(C13q)
C13rScens == SetToSeq({Sc(<<ExpN("m", 1, <<MFn(k), t, R("const", 1)>>)>>, p, <<DropO>>, TRUE) :
            k \in {1, 3}, t \in Times1, p \in UPairs(Prog2) \cup UTriples(Prog1)})

\* C14: closures
C14a == {Sc(<<ExpN("m", 1, <<MFn(3), t, R(a, 1)>>)>>, p, <<DropO>>, TRUE) :
            a \in {"fn", "once", "panic1"}, t \in {Full, N(2), N(4)}, p \in UPairs(Prog2) \cup UTriples(Prog1)}
C14b == {Sc(<<ExpN("m", 1, <<MFn(1), R(a, 1)>>), ExpN("m", 2, <<MFn(2), R(b, 2)>>)>>, p, <<DropO>>, TRUE) :
            a \in {"fn", "once"}, b \in {"fn", "once"}, p \in UPairs(Prog2) \cup UTriples(Prog1)}
C14cProgs == {<<C_("m", 0)>>, <<C_("n", 0)>>, <<C_("m", 0), C_("n", 0)>>, <<C_("n", 0), C_("m", 0)>>}
C14c == {Sc(<<ExpN("m", 1, <<MAny, R("fn", 1)>>), ExpN("n", 2, <<MAny, R(b, 2)>>)>>, p, <<DropO>>, TRUE) :
            b \in {"fn", "once"}, p \in UPairs(C14cProgs) \cup UTriples({<<C_("m", 0)>>, <<C_("n", 0)>>})}
C14Scens == SetToSeq(C14a) \o SetToSeq(C14b)
C14cScens == SetToSeq(C14c)

\* C16: static functions
SCtx(n) == [i \in 1..n |-> Ctx("F")]
SPost(n) == [i \in 1..n |-> CDrop("F")]
SEnd(f) == <<CChk(f)>>
SExp1 == {<<MFn(3), N(1), R("fn", 1)>>, <<MFn(1), N(2), R("fn", 1)>>, <<MFn(3), Full, R("once", 1)>>}
SExp2 == {<<MFn(3), N(1), R("fn", 2)>>, <<MFn(2), Full, R("fn", 2)>>, <<MFn(3), N(2), R("fn", 2)>>}
C16a == {Sc(SCtx(1) \o <<ExpN("m", 1, a), ExpN("m", 2, b)>>, p, SEnd("F") \o SPost(1), TRUE) :
            a \in SExp1, b \in SExp2, p \in UPairs(Prog2) \cup UTriples(Prog1)}
\* with threads that add expectations and checkpoint; thread t uses the t-th context
C16bProgs == {<<C_("m", 0), C_("m", 0)>>, <<C_("m", 1)>>, <<CChk("F")>>, <<C_("m", 0), CChk("F")>>,
              <<ExpN("m", 5, <<MFn(1), N(1), R("fn", 5)>>)>>, <<ExpN("m", 5, <<MFn(3), N(1), R("fn", 5)>>), C_("m", 0)>>}
C16b == {Sc(SCtx(2) \o <<ExpN("m", 1, a)>>, <<p, q>>, SEnd("F") \o SPost(2), TRUE) :
            a \in {<<MFn(3), N(1), R("fn", 1)>>, <<MFn(3), Full, R("fn", 1)>>, <<MFn(1), N(1), R("fn", 1)>>},
            p \in C16bProgs, q \in C16bProgs}
C16c == {Sc(SCtx(2), <<p, q>>, SEnd("F") \o SPost(2), TRUE) :
            p \in {<<ExpN("m", 5, <<MFn(k), N(1), R("fn", 5)>>), C_("m", 0)>> : k \in {1, 3}},
            q \in {<<ExpN("m", 6, <<MFn(k), N(1), R("fn", 6)>>), C_("m", 0)>> : k \in {1, 3}}
                  \cup {<<C_("m", 0), C_("m", 0)>>}}
C16Scens == SetToSeq(C16a)
C16bScens == SetToSeq(C16b) \o SetToSeq(C16c)
\* generic instantiations share the lock; two functions do not
C16gProgs == {<<C_("m", 0)>>, <<C_("n", 0)>>, <<C_("m", 0), C_("n", 0)>>, <<C_("n", 0), C_("m", 0)>>, <<CChk("F")>>}
C16gScens == SetToSeq({Sc(SCtx(2) \o <<ExpN("m", 1, <<MAny, i, R("fn", 1)>>), ExpN("n", 2, <<MAny, j, R("fn", 2)>>)>>, p,
                <<CChk("F")>> \o SPost(2), TRUE) : i \in {N(1), Full}, j \in {N(1), Full}, p \in UPairs(C16gProgs)})
C16hProgs == {<<C_("m", 0)>>, <<C_("n", 0)>>, <<C_("m", 0), C_("n", 0)>>, <<C_("n", 0), C_("m", 0)>>}
C16hScens == SetToSeq({Sc(<<Ctx("F"), Ctx("G"), ExpN("m", 1, <<MAny, i, InSeq(1), R("fn", 1)>>), ExpN("n", 2, <<MAny, j, InSeq(1), R("fn", 2)>>)>>, p,
                <<CDrop("F"), CDrop("G")>>, TRUE) : i \in {N(1), N(2)}, j \in {N(1), N(2)}, p \in UPairs(C16hProgs)}
                \cup {Sc(<<Ctx("F"), Ctx("G"), ExpN("m", 1, <<MAny, N(1), R("fn", 1)>>), ExpN("n", 2, <<MAny, Full, R("fn", 2)>>)>>, p,
                <<CDrop("F"), CDrop("G")>>, TRUE) : p \in UPairs(C16hProgs)})

-----------------------------------------------------------------------------
(* Free-running bulk calls *)
Bk(setup, call, k, post) == [setup |-> setup, call |-> call, k |-> k, post |-> post]
BK == IF Big THEN 2000 ELSE 400
NoBulks == <<>>
BulksM == <<
    Bk(<<ExpN("m", 1, <<MAny, N(BK), R("fn", 1)>>)>>, C_("m", 0), BK, <<DropO>>),
    Bk(<<ExpN("m", 1, <<MAny, N(BK \div 2), R("fn", 1)>>)>>, C_("m", 0), BK, <<DropO>>),
    Bk(<<ExpN("m", 1, <<MFn(1), RngI(2, BK - 3), R("const", 1)>>)>>, C_("m", 0), BK, <<DropO>>),
    Bk(<<ExpN("m", 1, <<MFn(3), N(BK + 1), R("fn", 1)>>)>>, C_("m", 1), BK, <<DropO>>),
    Bk(<<ExpN("m", 1, <<MAny, N(BK), InSeq(1), R("fn", 1)>>), ExpN("n", 2, <<MAny, N(1), InSeq(1), R("const", 1)>>)>>,
       C_("m", 0), BK, <<C_("n", 0), DropO>>),
    Bk(<<ExpN("m", 1, <<MAny, R("once", 1)>>)>>, C_("m", 0), 8, <<ChkO>>) >>
BulksR == <<
    Bk(<<ExpN("m", 1, <<MAny, N(BK), R("const", 1)>>)>>, C_("m", 0), BK, <<DropO>>),
    Bk(<<ExpN("m", 1, <<MAny, N(BK - 1), R("const", 1)>>)>>, C_("m", 0), BK, <<DropO>>) >>
BulksS == <<
    Bk(<<Ctx("F"), ExpN("m", 1, <<MAny, N(BK), R("fn", 1)>>)>>, C_("m", 0), BK, <<CDrop("F")>>),
    Bk(<<Ctx("F"), ExpN("m", 1, <<MAny, N(100), R("fn", 1)>>), ExpN("m", 2, <<MFn(1), N(BK - 150), R("fn", 2)>>),
         ExpN("m", 3, <<MAny, RngI(1, 200), R("fn", 3)>>)>>, C_("m", 0), BK, <<CDrop("F")>>),
    Bk(<<Ctx("F"), ExpN("m", 1, <<MAny, R("once", 1)>>), ExpN("m", 2, <<MFn(2), N(7), R("fn", 2)>>)>>, C_("m", 1), 1, <<CChk("F")>>) >>
=============================================================================
