--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Configurations: what the environment may do, per property.  Bounds      *)
(* (MaxExp, MaxLen, NSeq) and the tier are set in the .cfg that            *)
(* lib/configs.py writes; Big widens an alphabet for the thorough tier.    *)
(***************************************************************************)
EXTENDS MockallProps
CONSTANT Big

Slot(own, kind, static, role, n) ==
    [own |-> own, kind |-> kind, static |-> static, role |-> role, n |-> n]
IM(o, role) == Slot(o, "any", FALSE, role, 0)      \* an instance method
IK(o, role, kind) == Slot(o, kind, FALSE, role, 0)
IN_(o, role, n) == Slot(o, "any", FALSE, role, n)
SM(f, role) == Slot(f, "any", TRUE, role, 0)       \* a static function

Exp(s, cfg) == Op("exp", s, 0, 0, cfg)
Call_(s, x) == Op("call", s, x, -1, <<>>)
CallW(s, x, w) == Op("call", s, x, w, <<>>)
CallT(s, x) == Op("callt", s, x, -1, <<>>)
Many(s, x, k) == Op("callm", s, x, k, <<>>)
Chk(o) == Op("chk", o, 0, 0, <<>>)
Drop(o) == Op("drop", o, 0, 0, <<>>)
DropU(o) == Op("dropu", o, 0, 0, <<>>)
New(o) == Op("new", o, 0, 0, <<>>)
NewSeq(q, max) == Op("seq", "", q, max, <<>>)
Ctx(f, max) == Op("ctx", f, max, 0, <<>>)
CChk(f) == Op("cchk", f, 0, 0, <<>>)
CDrop(f) == Op("cdrop", f, 0, 0, <<>>)
CDropU(f) == Op("cdropu", f, 0, 0, <<>>)
TPanic == Op("tpanic", "", 0, 0, <<>>)
MChk == Op("mchk", "", 0, 0, <<>>)

S4(c, k, a, b) == [c |-> c, k |-> k, a |-> a, b |-> b]
MFn(m) == S4("m", "fn", m, 0)
MEq(x) == S4("m", "eq", x, 0)
MAny == S4("m", "any", 0, 0)
MWith(m) == S4("m", "with", m, 0)
N(n) == S4("t", "n", n, 0)
Rng(a, b) == S4("t", "r", a, b)
RngI(a, b) == S4("t", "ri", a, b)
From(a) == S4("t", "rf", a, 0)
UpTo(b) == S4("t", "rt", 0, b)
UpToI(b) == S4("t", "rti", 0, b)
Full == S4("t", "full", 0, 0)
Once == S4("t", "once", 0, 0)
Never == S4("t", "never", 0, 0)
InSeq(q) == S4("s", "s", q, 0)
R(k, a) == S4("r", k, a, 0)
Auto1 == R("auto", 0)

\* all expectations made of one element of each set
Mk(s, A, B, C) == {Exp(s, <<a, b, c>>) : a \in A, b \in B, c \in C}
Mk2(s, A, B) == {Exp(s, <<a, b>>) : a \in A, b \in B}
Calls(S, X) == {Call_(s, x) : s \in S, x \in X}

-----------------------------------------------------------------------------
\* C01: first-in first-out dispatch
OneSlot == [m |-> IM("o", 0)]
C01Alphabet == Mk("m", {MFn(k) : k \in 1..3}, {N(1), N(2), Full, N(0)}, {Auto1})
               \cup Calls({"m"}, 0..1)
C01bAlphabet == Mk("m", {MEq(0), MFn(1), MFn(2), MAny}, {Full, N(1)}, {Auto1})
                \cup Calls({"m"}, 0..1) \cup (IF Big THEN {Chk("o")} ELSE {})
C01cSlots2 == [m |-> IN_("o", 0, 2)]
C01cSlots3 == [m |-> IN_("o", 0, 3)]
\* two arguments: packed per-argument masks 1..3 (+ 0 for refused)
C01c2Alphabet == Mk("m", {MWith(a + 4 * b) : a \in 1..3, b \in 1..3}, {N(1), Full}, {Auto1})
                 \cup Calls({"m"}, 0..3)
C01c3Alphabet == Mk("m", {MWith(a + 4 * b + 16 * c) : a \in {1, 2, 3}, b \in {1, 2, 3}, c \in {1, 2, 3}} \cup {MFn(24), MEq(5)}, {Full}, {Auto1})
                 \cup Calls({"m"}, 0..7)
\* long random behaviours
C01sAlphabet == Mk("m", {MFn(k) : k \in 0..15} \cup {MEq(k) : k \in 0..3} \cup {MAny},
                    {N(0), N(1), N(2), N(3), Full, Rng(1, 3), RngI(0, 2), Once}, {Auto1})
                \cup Calls({"m"}, 0..3)

-----------------------------------------------------------------------------
\* C02: the maximum is never exceeded silently
C02Times == {N(0), N(1), N(2), Rng(0, 2), Rng(1, 3), RngI(1, 2), UpTo(2), UpToI(1), Once, Never, From(1), Full}
C02Alphabet == Mk("m", {MFn(1), MFn(3)}, C02Times, {Auto1}) \cup Calls({"m"}, 0..1)
               \cup (IF Big THEN {Chk("o")} ELSE {})
C02sAlphabet == Mk("m", {MFn(k) : k \in {1, 2, 3}},
                   {N(k) : k \in 0..9} \cup {Rng(a, b) : a \in 0..3, b \in 4..8}, {Auto1})
                \cup Calls({"m"}, 0..1)
                \cup {Chk("o")}

\* many calls: counters do not wrap around or saturate
C02nAlphabet == Mk("m", {MFn(3)}, {N(255), N(256), N(65536), UpTo(257), UpToI(65535), Full}, {Auto1})
               \cup {Many("m", 0, k) : k \in {254, 255, 65280}} \cup Calls({"m"}, 0..1)
C03nAlphabet == Mk("m", {MAny}, {N(256), N(257), From(256), RngI(255, 256), N(65536), N(65537)}, {Auto1})
               \cup {Many("m", 0, k) : k \in {1, 255, 65280}} \cup {Drop("o"), DropU("o")}
C03nxAlphabet == Mk("m", {MAny}, {N(256), From(257)}, {Auto1})
               \cup {Many("m", 0, k) : k \in {1, 255}} \cup {Ctx("F", 1), CDrop("F"), CChk("F")}
C05nAlphabet == {Exp("m", <<N(k), InSeq(1), Auto1>>) : k \in {2, 256, 257}} \cup {Exp("n", <<N(k), InSeq(1), Auto1>>) : k \in {1, 256}}
               \cup {Many(s, 0, k) : s \in {"m"}, k \in {2, 255, 256}} \cup {Many("n", 0, 256)} \cup Calls({"m", "n"}, {0})
\* long lists
C01lAlphabet == Mk("m", {MFn(k) : k \in 1..15} \cup {MAny}, {N(1), N(2), N(3), Rng(1, 4)}, {Auto1}) \cup Calls({"m"}, 0..3)
C05lAlphabet == {Exp(s, <<MAny, N(1), InSeq(1), Auto1>>) : s \in {"m", "n"}} \cup {Exp("m", <<MAny, N(2), InSeq(1), Auto1>>)} \cup Calls({"m", "n"}, 0..1)

-----------------------------------------------------------------------------
\* C03, C04: verification at drop and at checkpoints
TwoOfOne == [m |-> IM("o", 0), n |-> IM("o", 1)]
C03Times == {N(0), N(1), N(2), From(1), RngI(1, 2), UpToI(1), Full}
C03Alphabet == UNION {Mk(s, {MAny}, IF s = "m" THEN C03Times ELSE {N(1), Full, From(2)}, {Auto1}) : s \in {"m", "n"}}
               \cup Calls({"m", "n"}, {0}) \cup {Drop("o"), DropU("o"), New("o")}
C03bAlphabet == UNION {Mk(s, {MFn(1), MFn(2)}, {N(1), N(2), From(1)}, {Auto1}) : s \in {"m"}}
               \cup Calls({"m"}, 0..1) \cup {Drop("o"), New("o")}
C04Alphabet == UNION {Mk(s, {MAny}, IF s = "m" THEN {N(0), N(1), N(2), From(1), Full} ELSE {N(1), Full}, {Auto1}) : s \in {"m", "n"}}
               \cup Calls({"m", "n"}, {0}) \cup {Chk("o"), Drop("o"), New("o")}
C04qAlphabet == Mk("m", {MFn(1), MFn(3)}, {N(1), Full}, {Auto1})
               \cup {Exp("m", <<MFn(k), N(n), InSeq(1), Auto1>>) : k \in {1, 3}, n \in 1..2}
               \cup Calls({"m"}, 0..1) \cup {Chk("o")}
\* unsatisfied expectations of sequences, started or not
C03qAlphabet == {Exp("m", <<MAny, N(n), InSeq(1), Auto1>>) : n \in 1..2}
               \cup {Exp("n", <<MAny, N(n), InSeq(q), Auto1>>) : n \in 1..2, q \in 1..2} \cup {Exp("n", <<MAny, N(1), Auto1>>)}
               \cup Calls({"m", "n"}, {0}) \cup {Drop("o"), DropU("o"), Chk("o"), New("o")}
C03yAlphabet == {Exp("m", <<MFn(k), N(n), InSeq(1), Auto1>>) : k \in {1, 2}, n \in 1..2}
               \cup {Ctx("F", 1), CChk("F"), CDrop("F"), CDropU("F")} \cup Calls({"m"}, 0..1)
\* objects whose types also have static functions: their contexts verify those
MixSlots == [m |-> IM("o", 0), n |-> IM("o", 1), f |-> SM("F", 2)]
C03mAlphabet == {Exp("m", <<MAny, N(1), Auto1>>), Exp("n", <<MAny, N(2), Auto1>>)} \cup {Exp("f", <<MAny, N(n), Auto1>>) : n \in 0..2}
               \cup Calls({"m", "n", "f"}, {0}) \cup {Drop("o"), New("o"), Ctx("F", 1), CDrop("F")}
C04mAlphabet == {Exp("m", <<MAny, N(n), Auto1>>) : n \in 0..1} \cup {Exp("n", <<MAny, N(1), Auto1>>), Exp("f", <<MAny, N(1), Auto1>>), Exp("f", <<MAny, Full, Auto1>>)}
               \cup Calls({"m", "n", "f"}, {0}) \cup {Chk("o"), Ctx("F", 1), CChk("F"), CDrop("F")}
ThreeOfOne == [m |-> IM("o", 0), n |-> IM("o", 1), p |-> IM("o", 2)]
C03sAlphabet == UNION {Mk(s, {MFn(1), MFn(2), MFn(3)}, {N(0), N(1), N(2), From(1), Rng(1, 3), Full}, {Auto1}) : s \in {"m", "n", "p"}}
               \cup Calls({"m", "n", "p"}, 0..1)
               \cup {Drop("o"), New("o")}
C04sAlphabet == C03sAlphabet \cup {Chk("o")}

-----------------------------------------------------------------------------
\* C05: sequences, also across methods and objects
TwoObj == [m |-> IM("o", 0), n |-> IM("o", 1), q |-> IM("p", 0)]
SeqExp(s, M, T, Q) == {Exp(s, <<a, t, InSeq(q), Auto1>>) : a \in M, t \in T, q \in Q}
C05Alphabet == SeqExp("m", {MFn(1), MFn(2)}, {N(1), N(2)}, {1})
               \cup SeqExp("n", {MAny}, {N(1)}, {1})
               \cup SeqExp("q", {MAny}, {Once}, {1})
               \cup Calls({"m"}, 0..1) \cup Calls({"n", "q"}, {0})
C05bAlphabet == SeqExp("m", {MAny}, {N(1), N(2)}, {1, 2})
               \cup SeqExp("n", {MAny}, {N(1), N(0), RngI(1, 1)}, {1, 2})
               \cup Calls({"m", "n"}, {0}) \cup (IF Big THEN {Chk("o")} ELSE {})
C05cAlphabet == SeqExp("m", {MFn(1), MFn(3)}, {N(1), Never}, {1})
               \cup SeqExp("n", {MAny}, {N(1), UpTo(1), Rng(2, 3)}, {1})
               \cup Mk("m", {MFn(2)}, {Full}, {Auto1})
               \cup Calls({"m"}, 0..1) \cup Calls({"n"}, {0}) \cup {NewSeq(1, 1)}
               \cup (IF Big THEN {Drop("o"), New("o")} ELSE {})
\* members that are discarded before others are added
C05hAlphabet == SeqExp("m", {MAny}, {N(1), N(2)}, {1}) \cup SeqExp("q", {MAny}, {N(1)}, {1})
               \cup Calls({"m", "q"}, {0}) \cup {Chk("o"), Drop("p"), New("p")}
\* what cannot be put in a sequence
C05dAlphabet == {Exp("m", <<Auto1, InSeq(1)>>)}
               \cup {Exp("m", <<Auto1, t, InSeq(1)>>) :
                       t \in {Full, From(1), Rng(0, 2), RngI(0, 1), UpToI(1), UpTo(2), UpToI(0), N(1), Once, Never, RngI(2, 2), Rng(2, 3)}}
               \cup {Exp("m", <<Auto1, t, u, InSeq(1)>>) : t \in {Full, N(1)}, u \in {N(2), Rng(1, 3)}}
               \cup Calls({"m"}, {0})
C05sAlphabet == UNION {SeqExp(s, {MFn(1), MFn(2), MAny}, {N(1), N(2), N(3), Once, Never}, {1, 2}) : s \in {"m", "n", "q"}}
               \cup UNION {Mk(s, {MFn(1), MFn(2)}, {Full, N(1)}, {Auto1}) : s \in {"m", "n", "q"}}
               \cup Calls({"m", "n", "q"}, 0..1)
               \cup {Chk("o"), NewSeq(1, 2), NewSeq(2, 2)}

-----------------------------------------------------------------------------
\* C06: every form of times
Nums == 0..(IF Big THEN 4 ELSE 3)
TimesAll == {N(a) : a \in Nums} \cup {From(a) : a \in Nums} \cup {UpTo(b) : b \in Nums}
            \cup {UpToI(b) : b \in Nums} \cup {Full, Once, Never}
            \cup {Rng(a, b) : a \in Nums, b \in Nums} \cup {RngI(a, b) : a \in Nums, b \in Nums}
TimesSome == {N(2), N(0), From(1), UpTo(3), UpToI(1), Full, Once, Never, Rng(1, 3), RngI(2, 3), Rng(2, 1)}
C06Alphabet == {Exp("m", <<Auto1, t>>) : t \in TimesAll} \cup {Exp("m", <<Auto1>>)}
               \cup {Exp("m", <<Auto1, t, MFn(1)>>) : t \in TimesSome}
               \cup {Exp("m", <<Auto1, t, u>>) : t \in TimesSome, u \in TimesSome}
               \cup Calls({"m"}, 0..0)
C06sAlphabet == {Exp("m", <<Auto1, MFn(k), t>>) : t \in TimesAll, k \in 1..3} \cup
               Calls({"m"}, 0..1) \cup {Chk("o")}

\* Large numbers.  TLC's integers are small: the harness takes 450000 + k for
\* 2^32 + k, 550000 + k for 2^63 - 1 + k and 700010 - k for usize::MAX - k, which
\* keeps their order.
HNums == {1, 65536, 449999, 450000, 450001, 549999, 550000, 700008, 700009}
C06hTimes == UNION {{N(a), From(a), UpTo(a), UpToI(a), Rng(0, a), RngI(1, a), RngI(a, a), Rng(a, a)} : a \in HNums}
             \cup {UpTo(700010), N(700010), UpToI(700010), RngI(0, 700010), RngI(2, 700010), From(700010), Rng(1, 700010), Rng(700009, 700010), Rng(450000, 700010)}
             \cup {Rng(450001, 450000), Rng(450000, 450001), RngI(450000, 449999), Rng(550000, 450000), Rng(65536, 450000), RngI(2, 450000), RngI(450001, 1)}
C06hAlphabet == {Exp("m", <<Auto1, t>>) : t \in C06hTimes} \cup {Exp("m", <<Auto1, N(a), InSeq(1)>>) : a \in {450000, 450001, 700009}}
                \cup {Exp("m", <<Auto1, N(450000), N(1)>>), Exp("m", <<Auto1, N(1), UpToI(450000)>>), Exp("m", <<Auto1, RngI(450000, 450001), InSeq(1)>>)}
                \cup Calls({"m"}, 0..0) \cup {Chk("o")}

-----------------------------------------------------------------------------
\* C07: what methods that return owned values return
ValSlot == [m |-> IK("o", 0, "val")]
OwnedActs == {R("const", 3), R("const_st", 4), R("fn", 5), R("fn_st", 6), R("once", 7), R("once_st", 8)}
C07Alphabet == {Exp("m", <<MFn(k), a>>) : k \in {1, 3}, a \in OwnedActs}
               \cup {Exp("m", <<a, N(2)>>) : a \in OwnedActs}
               \cup Calls({"m"}, 0..1)
C07bAlphabet == {Exp("m", <<a, b>>) : a \in OwnedActs, b \in OwnedActs}
               \cup {Exp("m", <<a>>) : a \in OwnedActs}
               \cup {Exp("m", <<N(1)>>)}
               \cup Calls({"m"}, 0..1)
\* refused calls: out of order, or too many
C07qAlphabet == {Exp("m", <<MFn(k), N(1), InSeq(1), R(a, 1)>>) : k \in {1, 2}, a \in {"fn", "once_st", "const"}}
               \cup {Exp("m", <<t, R("fn_st", 2)>>) : t \in {Never, N(1)}}
               \cup Calls({"m"}, 0..1)
C07sAlphabet == {Exp("m", <<MFn(k), t, R(a.k, j)>>) : k \in {1, 2, 3}, t \in {N(1), N(2), Full}, a \in OwnedActs, j \in 0..9}
               \cup Calls({"m"}, 0..1) \cup {Chk("o")}

-----------------------------------------------------------------------------
\* C08: references
RefSlot == [m |-> IK("o", 0, "ref")]
MutSlot == [m |-> IK("o", 0, "mut")]
C08rAlphabet == {Exp("m", <<MFn(k), R("const", j)>>) : k \in 1..3, j \in {3, 4}}
               \cup {Exp("m", <<R("const", 5), R("const", 6)>>), Exp("m", <<N(1), R("const", 7)>>), Exp("m", <<N(2), MFn(1)>>)}
               \cup Calls({"m"}, 0..1)
C08mAlphabet == {Exp("m", <<MFn(k), R("var", 3)>>) : k \in 1..3}
               \cup {Exp("m", <<MFn(k), R("fn", 4)>>) : k \in {1, 3}}
               \cup {Exp("m", <<N(2), R("var", 5)>>), Exp("m", <<N(1), R("fn_st", 6)>>), Exp("m", <<R("fn_st", 7)>>),
                     Exp("m", <<R("var", 5), R("fn", 6)>>), Exp("m", <<R("fn", 5), R("var", 6)>>),
                     Exp("m", <<N(1), MFn(2)>>)}
               \cup Calls({"m"}, 0..1) \cup {CallW("m", 0, 77), CallW("m", 1, 88)}
TwoMut == [m |-> IK("o", 0, "mut"), n |-> IK("p", 0, "mut")]
C08sAlphabet == UNION {{Exp(s, <<MFn(k), t, R(a, j)>>) : k \in 1..3, t \in {N(2), Full}, a \in {"var", "fn", "fn_st"}, j \in 0..3} : s \in {"m", "n"}}
               \cup Calls({"m", "n"}, 0..1)
               \cup {CallW(s, x, w) : s \in {"m", "n"}, x \in 0..1, w \in 10..30} \cup {Chk("o")}

-----------------------------------------------------------------------------
\* C09: matchers
PredKinds == {"eq", "ne", "lt", "ge"}
Masks == IF Big THEN 0..15 ELSE {0, 1, 2, 5, 6, 10, 12, 15}
C09Alphabet == {Exp("m", <<S4("m", k, x, 0), Auto1>>) : k \in PredKinds, x \in 0..3}
               \cup {Exp("m", <<S4("m", k, x, 0), Auto1>>) : k \in {"in", "pfn", "not", "fn", "st"}, x \in Masks}
               \cup {Exp("m", <<S4("m", k, x, y), Auto1>>) : k \in {"and", "or"}, x \in {3, 6, 12}, y \in {5, 10, 7}}
               \cup {Exp("m", <<S4("m", k, 0, 0), Auto1>>) : k \in {"any", "alw", "nev"}}
               \cup Calls({"m"}, 0..3)
\* the last matcher given counts
C09bAlphabet == {Exp("m", <<a, b, Auto1>>) :
                    a \in {MFn(1), MEq(1), S4("m", "st", 4, 0), S4("m", "alw", 0, 0), S4("m", "pfn", 9, 0)},
                    b \in {MFn(6), MEq(3), S4("m", "st", 8, 0), S4("m", "nev", 0, 0), S4("m", "not", 9, 0)}}
               \cup {Exp("m", <<N(1), Auto1, MEq(2)>>)}
               \cup Calls({"m"}, 0..3)
C09c2Alphabet == {Exp("m", <<MWith(a + 4 * b), Auto1>>) : a \in 0..3, b \in 0..3}
               \cup {Exp("m", <<MEq(k), Auto1>>) : k \in 0..3} \cup {Exp("m", <<MFn(k), Auto1>>) : k \in 1..15}
               \cup Calls({"m"}, 0..3)
C09c3Alphabet == {Exp("m", <<MWith(a + 4 * b + 16 * c), Auto1>>) : a \in 0..3, b \in 0..3, c \in 0..3}
               \cup {Exp("m", <<MEq(k), Auto1>>) : k \in 0..7} \cup {Exp("m", <<MFn(k), Auto1>>) : k \in {1, 170, 204, 240, 129}}
               \cup Calls({"m"}, 0..7)
\* n arguments: all predicates but one accept everything; one argument differs from the others
C09n(s, n) == {Exp(s, <<MWith((4 ^ n) - 1 - 3 * (4 ^ j) + b * (4 ^ j)), Auto1>>) : j \in 0..(n - 1), b \in 0..2}
               \cup {Exp(s, <<MEq(k), Auto1>>) : k \in {0, (2 ^ n) - 1} \cup {2 ^ j : j \in 0..(n - 1)}}
               \cup Calls({s}, IF n < 6 THEN 0..((2 ^ n) - 1) ELSE {0, (2 ^ n) - 1} \cup {2 ^ j : j \in 0..(n - 1)} \cup {(2 ^ n) - 1 - (2 ^ j) : j \in 0..(n - 1)})
C09c4Slots == [m |-> IN_("o", 0, 4)]
C09c4Alphabet == C09n("m", 4)
C09c5Slots == [m |-> IN_("o", 0, 5)]
C09c5Alphabet == C09n("m", 5)
C09c6Slots == [m |-> IN_("o", 0, 6)]
C09c6Alphabet == C09n("m", 6)
C09c7Slots == [m |-> IN_("o", 0, 7)]
C09c7Alphabet == C09n("m", 7)
C09c8Slots == [m |-> IN_("o", 0, 8)]
C09c8Alphabet == C09n("m", 8)
C09c9Slots == [m |-> IN_("o", 0, 9)]
C09c9Alphabet == C09n("m", 9)
C09c10Slots == [m |-> IN_("o", 0, 10)]
C09c10Alphabet == C09n("m", 10)
C09c11Slots == [m |-> IN_("o", 0, 11)]
C09c11Alphabet == C09n("m", 11)
C09c12Slots == [m |-> IN_("o", 0, 12)]
C09c12Alphabet == C09n("m", 12)
C09y4Slots == [m |-> Slot("F", "any", TRUE, 0, 4)]
C09y4Alphabet == C09n("m", 4) \cup {Ctx("F", 1)}
C09y7Slots == [m |-> Slot("F", "any", TRUE, 0, 7)]
C09y7Alphabet == C09n("m", 7) \cup {Ctx("F", 1)}
C09y12Slots == [m |-> Slot("F", "any", TRUE, 0, 12)]
C09y12Alphabet == C09n("m", 12) \cup {Ctx("F", 1)}

-----------------------------------------------------------------------------
\* C10: isolation of slots
FourSlots == [m |-> IM("o", 0), n |-> IM("o", 1), x |-> IM("p", 0), y |-> IM("p", 1)]
C10Alphabet == UNION {{Exp(s, <<N(1), Auto1>>), Exp(s, <<MFn(1), Auto1>>)} : s \in {"m", "n", "x", "y"}}
               \cup Calls({"m", "n", "x", "y"}, 0..0)
               \cup {Chk("o"), Drop("p"), New("p")}
C10bAlphabet == UNION {{Exp(s, <<N(2), Auto1>>), Exp(s, <<MFn(1), N(1), Auto1>>)} : s \in {"m", "n"}}
               \cup Calls({"m", "n"}, 0..1) \cup {Chk("o")}
C10sAlphabet == UNION {{Exp(s, <<MFn(k), t, Auto1>>) : k \in 1..3, t \in {N(1), N(2), Full}} : s \in {"m", "n", "x", "y"}}
               \cup Calls({"m", "n", "x", "y"}, 0..1)
               \cup {Chk("o"), Drop("p"), New("p"), Chk("p")}

-----------------------------------------------------------------------------
\* C15: _st variants from a foreign thread
C15Alphabet == {Exp("m", <<MFn(3), a>>) : a \in OwnedActs}
               \cup {Exp("m", <<S4("m", "st", k, 0), a>>) : k \in {1, 3}, a \in {R("const", 1), R("fn_st", 2)}}
               \cup {Exp("m", <<S4("m", "st", 1, 0), MFn(3), R("const_st", 1), R("fn", 2)>>)}
               \cup Calls({"m"}, {0}) \cup {CallT("m", 0), CallT("m", 1)}
C15mAlphabet == {Exp("m", <<MFn(3), R(k, 1)>>) : k \in {"fn", "fn_st", "var"}}
               \cup {Exp("m", <<S4("m", "st", 3, 0), R("fn", 2)>>)}
               \cup Calls({"m"}, {0}) \cup {CallT("m", 0)}

-----------------------------------------------------------------------------
\* C19: what failures say.  (Every failing outcome carries its details.)
C19Slots == [m |-> IN_("o", 0, 1), n |-> IN_("o", 1, 1)]
C19Alphabet == UNION {{Exp(s, <<m, t, Auto1>>) : m \in {MAny, MEq(0), MWith(2)}, t \in {N(0), N(1), RngI(2, 3), Full}} : s \in {"m"}}
               \cup {Exp("n", <<MWith(1), N(2), Auto1>>), Exp("m", <<MEq(1), N(1), InSeq(1), Auto1>>), Exp("m", <<MEq(0), N(1), InSeq(1), Auto1>>)}
               \cup {Exp("m", <<Auto1, t>>) : t \in {Rng(2, 1), Rng(1, 1), RngI(3, 2)}} \cup {Exp("m", <<Auto1, RngI(1, 2), InSeq(1)>>)}
               \cup Calls({"m", "n"}, 0..1) \cup {Chk("o")}
C19vAlphabet == {Exp("m", <<m, t, R("once", 1)>>) : m \in {MAny, MEq(0)}, t \in {Full, N(2)}} \cup {Exp("m", <<MEq(1)>>)}
               \cup Calls({"m"}, 0..1)
C19c3Alphabet == {Exp("m", <<m, t, Auto1>>) : m \in {MEq(5), MWith(1 + 4 * 2 + 16 * 3)}, t \in {N(1), Full}}
               \cup Calls({"m"}, {0, 2, 5, 7})

-----------------------------------------------------------------------------
\* C23: user code that panics
C23Alphabet == {Exp("m", <<MFn(3), R("panic1", 1)>>), Exp("m", <<MFn(1), R("panic", 1)>>),
                Exp("m", <<S4("m", "pan", 2, 1), Auto1>>), Exp("m", <<S4("m", "pan", 1, 2), N(1), Auto1>>),
                Exp("m", <<MFn(3), N(2), R("fn", 1)>>), Exp("m", <<MFn(2), N(1), R("panic", 2)>>)}
               \cup Calls({"m"}, 0..1) \cup {Chk("o")}
TwoVal == [m |-> IK("o", 0, "val"), n |-> IK("o", 1, "val")]
C23bAlphabet == {Exp("m", <<MFn(3), N(2), R("panic1", 1)>>), Exp("n", <<MFn(1), N(1), R("fn", 1)>>),
                 Exp("m", <<N(1), InSeq(1), R("panic1", 2)>>), Exp("n", <<N(1), InSeq(1), R("fn", 3)>>),
                 Exp("n", <<S4("m", "pan", 3, 2), R("fn", 2)>>)}
               \cup Calls({"m", "n"}, 0..1) \cup {Chk("o"), DropU("o"), New("o")}
\* the Debug of the argument panics
C23dAlphabet == {Exp("m", <<MFn(3), N(1), R("fn", 1)>>), Exp("m", <<MFn(1), R("fn", 1)>>), Exp("m", <<MFn(2), N(1), InSeq(1), R("fn", 2)>>)}
               \cup Calls({"m"}, 0..1) \cup {Op("calld", "m", x, -1, <<>>) : x \in 0..1} \cup {Chk("o")}
\* predicates and the Clone of constants panic
C23pAlphabet == {Exp("m", <<S4("m", "panw", 2, 1), R("fn", 1)>>), Exp("m", <<S4("m", "panw", 1, 2), N(1), R("const", 1)>>),
                 Exp("m", <<MFn(1), R("constp", 1)>>), Exp("m", <<MFn(3), N(2), R("constp", 1)>>),
                 Exp("m", <<MFn(1), N(1), InSeq(1), R("constp", 1)>>), Exp("m", <<MFn(2), N(1), InSeq(1), R("fn", 1)>>),
                 Exp("m", <<MFn(3), N(1), R("fn", 1)>>)}
               \cup Calls({"m"}, 0..1) \cup {Chk("o")}
-----------------------------------------------------------------------------
(* The same alphabets on a static function F: objects become contexts *)
OneStatic == [m |-> SM("F", 0)]
Stat2(op) == CASE op = "chk" -> "cchk" [] op = "drop" -> "cdrop" [] op = "dropu" -> "cdropu" [] op = "new" -> "ctx"
ToStatic(A) ==
    {IF o.op \in {"chk", "drop", "dropu", "new"}
     THEN Op(Stat2(o.op), "F", 1, 0, <<>>) ELSE o : o \in A} \cup {Ctx("F", 1)}
C01xAlphabet == ToStatic(C01bAlphabet)
C01xsAlphabet == ToStatic(C01sAlphabet)
C02xAlphabet == ToStatic(C02Alphabet)
C03xAlphabet == ToStatic(C03bAlphabet)
C04xAlphabet == ToStatic(C04qAlphabet)
C05xAlphabet == ToStatic(SeqExp("m", {MFn(1), MFn(2)}, {N(1), N(2), N(0)}, {1, 2}) \cup Mk("m", {MAny}, {Full}, {Auto1}) \cup Calls({"m"}, 0..1))
ValStatic == [m |-> Slot("F", "val", TRUE, 0, 0)]
C06xAlphabet == ToStatic(C06Alphabet)
C07xAlphabet == ToStatic(C07Alphabet)
C09xAlphabet == ToStatic(C09Alphabet)
TwoGenStatic == [m |-> SM("F", 0), n |-> SM("F", 1)]
C10xAlphabet == ToStatic(C10bAlphabet)
C15xAlphabet == ToStatic(C15Alphabet)
C19xAlphabet == ToStatic({Exp("m", <<m, t, Auto1>>) : m \in {MAny, MEq(0), MWith(2)}, t \in {N(0), N(1), RngI(2, 3), Full}}
               \cup {Exp("m", <<MEq(1), N(1), InSeq(1), Auto1>>), Exp("m", <<MEq(0), N(1), InSeq(1), Auto1>>)}
               \cup {Exp("m", <<Auto1, t>>) : t \in {Rng(2, 1), RngI(3, 2)}} \cup {Exp("m", <<Auto1, RngI(1, 2), InSeq(1)>>)}
               \cup Calls({"m"}, 0..1) \cup {Chk("o"), TPanic})
C19xSlots == [m |-> Slot("F", "any", TRUE, 0, 1)]
C23xAlphabet == ToStatic(C23Alphabet) \cup {CDropU("F"), TPanic}
C23pxAlphabet == ToStatic(C23pAlphabet) \cup {CDropU("F"), TPanic}

-----------------------------------------------------------------------------
\* C11: contexts
TwoStatic == [m |-> SM("F", 0), n |-> SM("G", 1)]
SExps(s) == {Exp(s, <<MFn(1), N(1), Auto1>>), Exp(s, <<MAny, Full, Auto1>>), Exp(s, <<MAny, N(2), Auto1>>)}
C11Alphabet == UNION {SExps(s) : s \in {"m"}} \cup {Exp("n", <<N(1), Auto1>>)}
               \cup Calls({"m"}, 0..1) \cup Calls({"n"}, {0})
               \cup {Ctx("F", 2), Ctx("G", 1), CChk("F"), CDrop("F"), CDrop("G")}
C11mAlphabet == {Exp("m", <<N(1), Auto1>>), Exp("m", <<MFn(1), Full, Auto1>>), Exp("n", <<N(1), Auto1>>)}
               \cup Calls({"m", "n"}, {0})
               \cup {Ctx("F", 2), Ctx("G", 1), MChk, CDrop("F"), CDrop("G"), CChk("G")}
\* generic function: instantiations m and n share the context
C11gAlphabet == SExps("m") \cup {Exp("n", <<N(1), Auto1>>), Exp("n", <<MFn(2), Full, Auto1>>)}
               \cup Calls({"m", "n"}, 0..1)
               \cup {Ctx("F", 1), CChk("F"), CDrop("F")}
\* calls from other threads see the same expectations
C11tAlphabet == SExps("m") \cup Calls({"m"}, 0..1) \cup {CallT("m", x) : x \in 0..1}
               \cup {Ctx("F", 1), CChk("F"), CDrop("F")}
C11sAlphabet == UNION {Mk(s, {MFn(1), MFn(2), MFn(3)}, {N(1), N(2), From(1), Full}, {Auto1}) : s \in {"m", "n"}}
               \cup Calls({"m", "n"}, 0..1) \cup {CallT("m", 0), CallT("n", 1)}
               \cup {Ctx("F", 2), Ctx("G", 2), CChk("F"), CChk("G"), CDrop("F"), CDrop("G")}

-----------------------------------------------------------------------------
\* C12: panics leave nothing behind
C12Alphabet == {Exp("m", <<MFn(1), N(1), R("panic", 1)>>), Exp("m", <<MFn(3), N(2), R("fn", 1)>>),
                Exp("m", <<R("fn", 1), Rng(2, 1)>>), Exp("m", <<N(0), R("fn", 3)>>)}
               \cup Calls({"m"}, 0..1) \cup {Ctx("F", 2), CDrop("F"), CDropU("F"), TPanic}
C12bAlphabet == {Exp("m", <<N(1), R("fn", 1)>>), Exp("m", <<S4("m", "pan", 1, 2), R("fn", 1)>>), Exp("n", <<N(1), R("fn", 2)>>), Exp("n", <<R("panic", 2)>>)}
               \cup Calls({"m"}, 0..1) \cup Calls({"n"}, {0})
               \cup {Ctx("F", 1), Ctx("G", 1), CDrop("F"), CDrop("G"), CDropU("F"), CDropU("G"), TPanic, CChk("F")}
TwoValStatic == [m |-> Slot("F", "val", TRUE, 0, 0), n |-> Slot("G", "val", TRUE, 1, 0)]
TwoGenVal == [m |-> Slot("F", "val", TRUE, 0, 0), n |-> Slot("F", "val", TRUE, 1, 0)]
C12gAlphabet == {Exp("m", <<N(1), R("fn", 1)>>), Exp("m", <<R("panic1", 1)>>), Exp("n", <<N(1), R("fn", 2)>>), Exp("n", <<N(0), R("fn", 2)>>)}
               \cup Calls({"m", "n"}, 0..1)
               \cup {Ctx("F", 2), CDrop("F"), CDropU("F"), TPanic}
C12sAlphabet == UNION {{Exp(s, <<MFn(k), t, R(a, 1)>>) : k \in 1..3, t \in {N(0), N(1), N(2), Full}, a \in {"fn", "panic", "panic1"}} : s \in {"m", "n"}}
               \cup Calls({"m", "n"}, 0..1) \cup {Ctx("F", 2), Ctx("G", 2), CDrop("F"), CDrop("G"), CDropU("F"), CDropU("G"), TPanic}

-----------------------------------------------------------------------------
\* C20: concretized methods: one list whatever the types of the arguments
C20Alphabet == Mk("m", {MFn(1), MFn(2), MFn(3), S4("m", "st", 1, 0)}, {N(1), Full}, {Auto1}) \cup {Exp("m", <<N(2), MEq(1), Auto1>>)}
               \cup Calls({"m"}, 0..1) \cup {Chk("o")}
C20bAlphabet == {Exp("m", <<MFn(k), a>>) : k \in {1, 3}, a \in OwnedActs}
               \cup {Exp("m", <<R("fn", 5), N(2)>>), Exp("m", <<S4("m", "pan", 2, 1), R("fn", 1)>>)}
               \cup Calls({"m"}, 0..1) \cup {CallT("m", 0)}
C20mAlphabet == C08mAlphabet
C20c2Alphabet == {Exp("m", <<MFn(k), t, Auto1>>) : k \in 1..15, t \in {Full}} \cup {Exp("m", <<MEq(k), N(1), Auto1>>) : k \in 0..3}
               \cup Calls({"m"}, 0..3)
C20c3Alphabet == {Exp("m", <<MFn(k), R("fn", 1)>>) : k \in {1, 170, 204, 240, 129}} \cup {Exp("m", <<MEq(k), R("fn", 2)>>) : k \in 0..7}
               \cup Calls({"m"}, 0..7)
C20c3Slots == [m |-> Slot("o", "val", FALSE, 0, 3)]
C20c4Alphabet == {Exp("m", <<MFn(k), R("fn", 1)>>) : k \in {1, 43690, 52428, 61680, 65280, 129}} \cup {Exp("m", <<MEq(k), R("fn", 2)>>) : k \in 0..15}
               \cup Calls({"m"}, 0..15)
C20c4Slots == [m |-> Slot("o", "val", FALSE, 0, 4)]
C20sAlphabet == UNION {{Exp(s, <<MFn(k), t, Auto1>>) : k \in 1..3, t \in {N(1), N(2), Full}} : s \in {"m", "n"}}
               \cup {Exp(s, <<MFn(k), N(1), InSeq(1), Auto1>>) : s \in {"m", "n"}, k \in {1, 3}}
               \cup Calls({"m", "n"}, 0..1) \cup {Chk("o"), Drop("o"), New("o")}
C20xAlphabet == ToStatic(C20Alphabet)
C20ybAlphabet == ToStatic(C20bAlphabet)

-----------------------------------------------------------------------------
\* C17: a small workout for every supported signature (spec/Shapes.tla)
CallC(s, x) == Op("callc", s, x, -1, <<>>)
ShMatch(n) == CASE n = 0 -> {}
                [] n = 1 -> {MFn(1), MFn(2), MFn(3), MWith(1), MWith(2)}
                [] n = 2 -> {MFn(1), MFn(6), MFn(10), MWith(9), MWith(14), MWith(7)}
                [] n = 3 -> {MFn(1), MFn(128), MFn(170), MFn(204), MFn(240), MWith(41), MWith(62)}
ShActs(kind) == CASE kind = "ref" -> {R("const", 1)}
                  [] kind = "mut" -> {R("var", 1), R("fn", 2)}
                  [] OTHER -> {R("fn", 1), R("once", 2), R("const", 3)}
ShArgs(n) == 0..(2 ^ n - 1)
Sh(kind, n) == {Exp("m", <<m, a>>) : m \in ShMatch(n), a \in (IF n = 3 THEN {R("auto", 1)} ELSE ShActs(kind))}
               \cup {Exp("m", <<N(1), a>>) : a \in ShActs(kind)}
ShObj(n, kind) == [m |-> Slot("o", kind, FALSE, 0, n)]
ShSta(n) == [m |-> Slot("F", "val", TRUE, 0, n)]
ShCalls(kind, n) == IF kind = "own" THEN {CallC("m", x) : x \in ShArgs(n)}
                    ELSE IF kind = "mut" THEN UNION {{Call_("m", x), CallW("m", x, 77)} : x \in ShArgs(n)}
                    ELSE Calls({"m"}, ShArgs(n))
ShO0val == ShObj(0, "val")
C17o0valAlphabet == Sh("val", 0) \cup ShCalls("val", 0) \cup {Chk("o")}
ShO0ref == ShObj(0, "ref")
C17o0refAlphabet == Sh("ref", 0) \cup ShCalls("ref", 0) \cup {Chk("o")}
ShO0mut == ShObj(0, "mut")
C17o0mutAlphabet == Sh("mut", 0) \cup ShCalls("mut", 0) \cup {Chk("o")}
ShO0own == ShObj(0, "own")
C17o0ownAlphabet == Sh("own", 0) \cup ShCalls("own", 0) \cup {New("o")}
ShO1val == ShObj(1, "val")
C17o1valAlphabet == Sh("val", 1) \cup ShCalls("val", 1) \cup {Chk("o")}
ShO1ref == ShObj(1, "ref")
C17o1refAlphabet == Sh("ref", 1) \cup ShCalls("ref", 1) \cup {Chk("o")}
ShO1mut == ShObj(1, "mut")
C17o1mutAlphabet == Sh("mut", 1) \cup ShCalls("mut", 1) \cup {Chk("o")}
ShO1own == ShObj(1, "own")
C17o1ownAlphabet == Sh("own", 1) \cup ShCalls("own", 1) \cup {New("o")}
ShO2val == ShObj(2, "val")
C17o2valAlphabet == Sh("val", 2) \cup ShCalls("val", 2) \cup {Chk("o")}
ShO2ref == ShObj(2, "ref")
C17o2refAlphabet == Sh("ref", 2) \cup ShCalls("ref", 2) \cup {Chk("o")}
ShO2mut == ShObj(2, "mut")
C17o2mutAlphabet == Sh("mut", 2) \cup ShCalls("mut", 2) \cup {Chk("o")}
ShO2own == ShObj(2, "own")
C17o2ownAlphabet == Sh("own", 2) \cup ShCalls("own", 2) \cup {New("o")}
ShO3val == ShObj(3, "val")
C17o3valAlphabet == Sh("val", 3) \cup ShCalls("val", 3) \cup {Chk("o")}
ShO3ref == ShObj(3, "ref")
C17o3refAlphabet == Sh("ref", 3) \cup ShCalls("ref", 3) \cup {Chk("o")}
ShO3mut == ShObj(3, "mut")
C17o3mutAlphabet == Sh("mut", 3) \cup ShCalls("mut", 3) \cup {Chk("o")}
ShO3own == ShObj(3, "own")
C17o3ownAlphabet == Sh("own", 3) \cup ShCalls("own", 3) \cup {New("o")}
ShS0 == ShSta(0)
C17s0Alphabet == Sh("val", 0) \cup ShCalls("val", 0) \cup {Ctx("F", 1), CDrop("F")}
ShS1 == ShSta(1)
C17s1Alphabet == Sh("val", 1) \cup ShCalls("val", 1) \cup {Ctx("F", 1), CDrop("F")}
ShS2 == ShSta(2)
C17s2Alphabet == Sh("val", 2) \cup ShCalls("val", 2) \cup {Ctx("F", 1), CDrop("F")}
ShS3 == ShSta(3)
C17s3Alphabet == Sh("val", 3) \cup ShCalls("val", 3) \cup {Ctx("F", 1), CDrop("F")}

-----------------------------------------------------------------------------
\* C22: expectations without action
C22vAlphabet == {Exp("m", <<MFn(k)>>) : k \in {1, 3}} \cup {Exp("m", <<N(2)>>), Exp("m", <<MFn(2), N(1)>>)}
               \cup {Exp("m", <<MFn(3), a>>) : a \in {R("fn", 1), R("once", 2)}} \cup {Exp("m", <<N(1), R("const", 3)>>)}
               \cup Calls({"m"}, 0..1) \cup {CallT("m", 0)} \cup (IF Big THEN {Chk("o")} ELSE {})
C22rAlphabet == {Exp("m", <<MFn(k)>>) : k \in {1, 3}} \cup {Exp("m", <<N(2)>>), Exp("m", <<MFn(2), N(1)>>)}
               \cup {Exp("m", <<MFn(3), R("const", 1)>>), Exp("m", <<N(1), R("const", 3)>>)}
               \cup Calls({"m"}, 0..1) \cup {CallT("m", 0), Chk("o")}
C22mAlphabet == {Exp("m", <<MFn(k)>>) : k \in {1, 3}} \cup {Exp("m", <<N(2)>>), Exp("m", <<MFn(2), N(1)>>)}
               \cup {Exp("m", <<MFn(3), R("var", 1)>>), Exp("m", <<N(1), R("fn", 3)>>)}
               \cup Calls({"m"}, 0..1) \cup {CallW("m", 0, 77), CallW("m", 1, 88)}
C22xAlphabet == ToStatic(C22vAlphabet) \cup {CDrop("F")}
-----------------------------------------------------------------------------
\* C21, C24: the members of an item, alone and in pairs
NewBy(o, how) == Op("new", o, how, 0, <<>>)
Dbg(o) == Op("dbg", o, 0, 0, <<>>)
ItExp(s) == {Exp(s, <<N(1), Auto1>>)}
ItOne == [m |-> IM("o", 0)]
ItOneAlphabet == ItExp("m") \cup {Exp("m", <<N(0), Auto1>>), Call_("m", 0), Chk("o"), Drop("o"), NewBy("o", 0), NewBy("o", 1)}
ItDbg == [m |-> IM("o", 0)]
ItDbgAlphabet == ItExp("m") \cup {Call_("m", 0), Dbg("o"), Chk("o"), Drop("o"), NewBy("o", 0)}
ItOwn == [m |-> IK("o", 0, "own")]
ItOwnAlphabet == ItExp("m") \cup {Op("callc", "m", 0, -1, <<>>), Chk("o"), Drop("o"), NewBy("o", 0), NewBy("o", 1)}
ItPair == [m |-> IM("o", 0), n |-> IM("o", 1)]
ItPairAlphabet == ItExp("m") \cup ItExp("n") \cup {Call_("m", 0), Call_("n", 0), Chk("o"), Drop("o"), NewBy("o", 0)}
ItObjs == [m |-> IM("o", 0), n |-> IM("p", 0)]
ItObjsAlphabet == ItExp("m") \cup {Exp("n", <<N(0), Auto1>>), Call_("m", 0), Call_("n", 0), Chk("o"), Drop("p"), NewBy("p", 0), NewBy("p", 1)}
ItSta == [f |-> SM("F", 0)]
ItStaAlphabet == ItExp("f") \cup {Exp("f", <<N(0), Auto1>>), Call_("f", 0), Ctx("F", 1), CChk("F"), CDrop("F")}
ItMix == [m |-> IM("o", 0), f |-> SM("F", 1)]
ItMixAlphabet == ItExp("m") \cup ItExp("f") \cup {Call_("m", 0), Call_("f", 0), Chk("o"), Drop("o"), NewBy("o", 0), Ctx("F", 1), CDrop("F")}
ItStas == [f |-> SM("F", 0), g |-> SM("G", 1)]
ItStasAlphabet == ItExp("f") \cup ItExp("g") \cup {Call_("f", 0), Call_("g", 0), Ctx("F", 1), Ctx("G", 1), CChk("F"), CDrop("F"), CDrop("G")}
ItModAlphabet == ItExp("f") \cup ItExp("g") \cup {Call_("f", 0), Ctx("F", 1), Ctx("G", 1), MChk, CDrop("F")}
=============================================================================
