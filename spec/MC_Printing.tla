------------------------------ MODULE MC_Printing ------------------------------
(* Shapes: every heap of two modules with attributes from a set of values, printed *)
(* whole, as definitions and after copies.  Threads: every schedule of prints that  *)
(* pause and fail in up to three threads.  Points: an operation at every point      *)
(* inside another one.                                                        *)
EXTENDS Printing, Json
CONSTANTS Profile, D, Rich
VARIABLES hist, s

New(t) == [o |-> "mk", how |-> "new", ty |-> t, m |-> 0, t |-> 0]
Cp(h, m) == [o |-> "mk", how |-> h, ty |-> "", m |-> m, t |-> 0]
Set(m, n, v) == [o |-> "set", m |-> m, n |-> n, v |-> v]
Pr(w) == [o |-> "print", w |-> w]
St(t, w) == [o |-> "start", t |-> t, w |-> w]
Sp(t) == [o |-> "step", t |-> t]
Rs(t, k) == [o |-> "raise", t |-> t, k |-> k]
Uid(h, i, t) == [o |-> "uid", how |-> h, i |-> i, t |-> t]
Df(m) == [o |-> "def", m |-> m]
State1 == [o |-> "state", x |-> << [p |-> <<"a">>, k |-> "Param", v |-> <<"i", 3>>], [p |-> <<"b", "c">>, k |-> "Node", v |-> <<"p", 9>>] >>]

Vals == { <<"i", 7>>, <<"s", <<"x", "y">> >>, <<"r", 1>>, <<"r", 2>>, <<"v", 3>>, <<"c", <<"i", 4>> >> }
        \cup (IF Rich THEN { <<"p", 1>>, <<"n", 2>>, <<"a", 2>>, <<"t", <<>> >>, <<"t", << <<"i", 1>>, <<"p", 2>> >> >>, <<"c", <<"p", 3>> >> } ELSE {<<"p", 1>>})
Own(m, n) == Vals \cup { <<"l", m + n, << <<"r", 3 - m>>, <<"i", 1>> >> >> } \cup (IF Rich THEN { <<"l", m + n, << <<"r", m>>, <<"r", 3 - m>> >> >> } ELSE {})
None == <<"none">>
Mk(m, n, v) == IF v = None THEN <<>> ELSE << Set(m, n, v) >>
Shapes == \E v \in Own(1, 0) \cup {None}, w \in Own(2, 0) \cup {None}, x \in Own(1, 2) \cup {None}, y \in (IF Rich THEN Own(2, 2) \cup {None} ELSE {None, <<"r", 1>>}) :
            hist = << New("A"), New("B") >> \o Mk(1, "b", v) \o Mk(1, "a", x) \o Mk(2, "_h", w) \o Mk(2, "c", y)
Families == {
  << New("A"), New("B"), Set(1, "p", <<"p", 1>>), Set(1, "b", <<"r", 2>>), Set(1, "x", <<"p", 2>>), Set(2, "a", <<"r", 1>>), Set(2, "q", <<"p", 3>>) >>,
  << New("A"), New("A"), New("B"), Set(1, "a", <<"r", 3>>), Set(1, "x", <<"p", 1>>), Set(1, "b", <<"r", 3>>), Set(2, "l", <<"l", 1, << <<"r", 3>>, <<"p", 2>>, <<"r", 3>> >> >>), Set(3, "c", <<"c", <<"p", 3>> >>) >> }
Init == /\ CASE Profile = "Shapes" -> Shapes
             [] Profile = "Threads" -> \E f \in Families : hist = f
             [] Profile = "Points" -> hist = << New("A"), New("B"), Set(1, "a", <<"i", 1>>), Set(1, "b", <<"r", 2>>), Set(2, "a", <<"r", 1>>), Uid("new", 0, 0), State1, Df(1) >>
        /\ s = Fold(LAMBDA st, op : Apply(st, op).s, Start, hist)
Things == { <<"m", 1>>, <<"m", 2>> }
Busy == { t \in 1..2 : s.thr[t].on }
ThreadOps == { St(t, w) : t \in (1..2) \ Busy, w \in Things } \cup { Sp(t) : t \in Busy } \cup { Rs(t, IF Rich THEN "K" ELSE "E") : t \in Busy }
             \cup { Cp(h, 1) : h \in IF Rich /\ Len(s.h) < 4 THEN {"deep"} ELSE {} } \cup { Pr(w) : w \in { <<"m", 1>> } }
Base0 == IF Profile = "Threads" THEN IF Len(s.h) >= 3 /\ s.h[2].ty = "A" THEN 8 ELSE 7 ELSE 0
Next == /\ Profile = "Threads" /\ Len(hist) < Base0 + D
        /\ \E op \in ThreadOps : hist' = Append(hist, op) /\ s' = Apply(s, op).s
Spec == Init /\ [][Next]_<<hist, s>>

Inner == { New("A"), Cp("copy", 1), Cp("deep", 1), Pr(<<"m", 1>>), Pr(<<"g", 1>>), Pr(<<"g", 2>>), Uid("new", 0, 0), Uid("copy", 1, 0) }
Ks == IF Rich THEN 1..150 ELSE { k \in 1..120 : k <= 24 \/ k % 5 = 0 }
Steps(t, w) == << St(t, w) >> \o [ i \in 1..Len(Render(s.h, Thing(s, w)).pr) |-> Sp(t) ]
Probes ==
  CASE Profile = "Shapes" -> { << Pr(<<"m", 1>>), Pr(<<"m", 2>>), Pr(<<"m", 1>>) >>, << Df(1), Df(2), Pr(<<"g", 1>>), Pr(<<"g", 2>>) >>,
                               << Cp("deep", 1), Pr(<<"m", 3>>), Cp("pickle", 2), Pr(<<"m", Len(DeepCopy(s, 1).h) + 1>>) >>,
                               << Cp("copy", 1), Pr(<<"m", 3>>), Df(3), Pr(<<"g", 1>>) >> }
                             \cup (IF Len(Render(s.h, <<"r", 1>>).pr) > 0 THEN { << St(1, <<"m", 1>>), Rs(1, k), St(1, <<"m", 1>>) >> \o Tail(Steps(1, <<"m", 1>>)) : k \in {"E", "K"} } ELSE {})
    [] Profile = "Threads" -> IF Len(hist) = Base0 + D THEN { << Pr(<<"m", 1>>), Pr(<<"m", 2>>) >> } ELSE {}
    [] Profile = "Points" -> { << [o |-> "pre", gr |-> g, k |-> k, a |-> a, b |-> b] >> : a \in Inner, b \in Inner, k \in Ks, g \in {"line"} }
                             \cup { << [o |-> "pre", gr |-> "opcode", k |-> k, a |-> a, b |-> b] >> : a \in {Uid("new", 0, 0), New("A")}, b \in {Uid("new", 0, 0), New("A")}, k \in 1..120 }
Emit == PrintT(<<"STATE", ToJson([h |-> hist, p |-> SetToSeq(Probes)])>>)
(* ---- laws *)
Prop ==
  \A m \in 1..Len(s.h) :
    LET r == Render(s.h, <<"r", m>>)
        c == DeepCopy(s, m)
    IN /\ r.sn = Off
       /\ Render(c.h, <<"r", Len(s.h) + 1>>) = r       \* the text depends on the graph only
       /\ \A i \in 1..Len(s.h) : Render(c.h, <<"r", i>>) = Render(s.h, <<"r", i>>)
       /\ DefTree(c.h, Len(s.h) + 1).subs = DefTree(s.h, m).subs \/ \E i \in 1..Len(s.h) : \E j \in 1..Len(s.h[i].a) : s.h[i].a[j][2][1] \in {"l", "n"}
=============================================================================
