------------------------------- MODULE MC_Spmd -------------------------------
(* Profile C25: every name list and rule list within the bounds.                *)
(* Profile C26: every sharded variable and layer axis, in trees of every kind.   *)
(* Profile C27: every nesting of scopes and exits up to K operations.            *)
EXTENDS Spmd, Json, IOUtils
CONSTANTS Profile, K, Rich
VARIABLES case, s

Dims == {"a", "b", "-"} \cup (IF Rich THEN {"c"} ELSE {})
NameLists == { <<"none">> } \cup { <<"s">> \o x : x \in UNION { [1..n -> Dims] : n \in 0..3 } }
Meshes == { <<"n">>, <<"s", "X">>, <<"s", "Y">>, <<"t", "X", "Y">> } \cup (IF Rich THEN { <<"t", "Y">>, <<"t">>, <<"s", "Q">> } ELSE {})
RuleSet == { <<n, m>> : n \in {"a", "b"}, m \in Meshes }
RuleLists == { <<"r", x>> : x \in UNION { [1..n -> RuleSet] : n \in 0..K } }

Shardings == { <<"none">>, <<"s">>, <<"s", "e">>, <<"s", "e", "-">>, <<"s", "-", "f", "e">> }
V(ty, sh) == <<"var", ty, [sharding |-> sh], <<"arr", <<"i", 3>>>>>>
Trees ==
  LET leaf == { V(ty, sh) : ty \in {"Param", "MyVar"}, sh \in Shardings }
              \cup { <<"var", "Node", <<>>, <<"arr", <<"i", 1>>>>>>, <<"var", "TreeNode", <<>>, <<"seq", "list", <<V("Param", <<"s", "e">>)>> >> >>, <<"arr", <<"i", 1>>>>, <<"num", <<"i", 2>>>>, <<"none">>, <<"str", "p">>,
                     <<"var", "Param", [sharding |-> <<"none">>], <<"num", <<"i", 4>>>>>>, <<"var", "Param", [sharding |-> <<"s", "e">>, tag |-> <<"m", "t">>], <<"seq", "tuple", << <<"arr", <<"i", 1>>>>, <<"arr", <<"i", 2>>>> >> >> >> }
      nodes == { x \in leaf : x[1] = "var" }
  IN leaf
     \cup { <<"map", "state", << <<"a", x>>, <<"a/b", y>> >> >> : x \in nodes, y \in { V("Param", <<"s", "e">>), V("BatchStat", <<"none">>) } }
     \cup { <<"map", "dict", << <<"p", x>>, <<"q", <<"seq", "list", <<V("Param", <<"s", "f">>), <<"none">>, <<"num", <<"i", 2>>>> >> >> >> >> >> : x \in leaf }
     \cup { <<"map", "Obj", << <<"a", x>>, <<"b", <<"static", <<"seq", "tuple", <<x>>>>>>>>, <<"c", <<"var", "TreeNode", <<>>, <<"seq", "tuple", <<x>>>>>>>> >> >> : x \in nodes }
AxIdx == IF Rich THEN -3..4 ELSE -2..2

R1 == <<"r", << <<"a", <<"s", "X">>>> >> >>
R2 == <<"r", << <<"a", <<"s", "Y">>>>, <<"b", <<"s", "X">>>> >> >>
R0 == <<"r", <<>>>>
Scoped(st) == { [o |-> "enter", rules |-> r] : r \in {R1, R2, R0} }
              \cup { [o |-> "exit", how |-> h, d |-> d] : h \in {"raise", "interrupt"}, d \in 1..(Len(st.stack) - 1) }
              \cup (IF Len(st.stack) > 1 THEN { [o |-> "exit", how |-> "ret", d |-> 1] } ELSE {})
              \cup { [o |-> "setr", rules |-> r] : r \in {R2, R0} }
Look == << [o |-> "getr"], [o |-> "l2m", names |-> <<"s", "a", "b">>, rules |-> <<"cur">>] >>

Constrs(rules) ==
  { [o |-> "con", x |-> <<"one", r>>, names |-> <<"one", n>>, rules |-> rules, mesh |-> me[1], gm |-> me[2], fb |-> fb, jit |-> j] :
      r \in {1, 2}, n \in { <<"none">>, <<"s">>, <<"s", "a">>, <<"s", "a", "c">>, <<"s", "b", "a">>, <<"s", "a", "a">> }, me \in { <<0, 0>>, <<1, 0>>, <<0, 1>> },
      fb \in {"axis_is_unsharded", "raise_error", "no_constraint"}, j \in {0, 1} }

InitCases ==
  CASE Profile = "C25" -> { [h |-> <<>>, rules |-> r] : r \in RuleLists }
    [] Profile = "C26" -> { [h |-> << [o |-> "mk", x |-> t] >>, t |-> t] : t \in Trees }
    [] Profile = "C27" -> { [h |-> <<>>] }
Init == case \in InitCases /\ s = IF Profile = "C26" THEN Apply(Start, case.h[1]).s ELSE Start
Next == /\ Profile = "C27" /\ Len(case.h) < K
        /\ \E op \in Scoped(s) : case' = [h |-> Append(case.h, op)] /\ s' = Apply(s, op).s
Spec == Init /\ [][Next]_<<case, s>>
(* entering a scope and leaving it again is not told apart from never having     *)
(* entered it, so that every behaviour is kept for replay                        *)

Probes ==
  CASE Profile = "C25" -> << SetToSeq({ [o |-> "l2m", names |-> n, rules |-> case.rules] : n \in NameLists })
                             \o << [o |-> "l2mtree", names |-> << <<"s", "a", "b">>, <<"none">>, <<"s", "b", "a">>, <<"s", "a">> >>, rules |-> case.rules],
                                   [o |-> "l2s", names |-> << <<"s", "a", "b">>, <<"s", "b">> >>, rules |-> case.rules] >> >>
    [] Profile = "C26" -> << << [o |-> "gps", r |-> 1] >> \o ConcatAll([ i \in 1..Cardinality(AxIdx) |-> LET ax == SetToSortSeq(AxIdx, LAMBDA x, y : x < y)[i] IN
                                << [o |-> "rem", r |-> 1, ax |-> ax, name |-> "e"], [o |-> "rem", r |-> 1, ax |-> ax, name |-> "l"] >> ]) >>
                          \o SetToSeq({ << [o |-> "add", r |-> 1, ax |-> ax, name |-> "l"], [o |-> "gps", r |-> 2], [o |-> "rem", r |-> 2, ax |-> ax, name |-> "l"],
                                           [o |-> "rem", r |-> 2, ax |-> ax, name |-> "e"], [o |-> "add", r |-> 2, ax |-> ax, name |-> ""] >> :
                                         ax \in { x \in AxIdx : \A ns \in AllNames(case.t) : x >= -(Len(ns) + 1) } })
    [] Profile = "C27" -> IF Len(case.h) = K THEN <<Look>>
                          ELSE IF Len(case.h) = 0 THEN SetToSeq({ <<c>> : c \in Constrs(R2) \cup Constrs(R0) })
                          ELSE IF Len(case.h) = 1 /\ case.h[1].o = "enter" THEN SetToSeq({ <<c>> : c \in { x \in Constrs(<<"cur">>) : x.jit = 0 /\ x.x[2] = 2 } })
                          ELSE <<>>
(* every step of a scope history is followed by a look at the rules in force     *)
Hist == IF Profile = "C27" THEN ConcatAll([ i \in 1..Len(case.h) |-> <<case.h[i]>> \o Look ]) ELSE case.h
Emit == PrintT(<<"STATE", ToJson([h |-> Hist, p |-> Probes])>>)

(* ---- laws *)
(* C25, stated without the procedure: rule j may give dimension p its axes if it names it; *)
(* it does exactly if no earlier rule did and none of its axes went to another dimension   *)
Wins(ns, rules) ==     \* for each rule the dimension it decides, 0 if none
  LET names(j, p) == ns[p] # "-" /\ rules[j][1] = ns[p]
      step(w, j) ==
        LET p == IF \E q \in 1..Len(ns) : names(j, q) THEN CHOOSE q \in 1..Len(ns) : names(j, q) ELSE 0
            before == { i \in 1..Len(w) : w[i] # 0 }
        IN Append(w, IF p = 0 \/ (\E i \in before : w[i] = p) \/ (\E i \in before : AxesIn(rules[i][2]) \cap AxesIn(rules[j][2]) # {}) THEN 0 ELSE p)
  IN Fold(step, <<>>, [ j \in 1..Len(rules) |-> j ])
TranslateLaw ==
  \A n \in NameLists :
    LET tr == Translate(n, case.rules)
        ns == Tail(n)
        rules == case.rules[2]
        w == Wins(ns, rules)
    IN /\ tr.ok = (n[1] = "none" \/ ~DupNames(ns))
       /\ (tr.ok /\ ~tr.none) =>
            /\ Len(tr.asg) = Len(ns)
            /\ \A i, j \in 1..Len(ns) : i # j => AxesIn(tr.asg[i]) \cap AxesIn(tr.asg[j]) = {}
            /\ \A p \in 1..Len(ns) :
                 IF \E j \in 1..Len(rules) : w[j] = p THEN tr.asg[p] = rules[CHOOSE j \in 1..Len(rules) : w[j] = p][2] ELSE tr.asg[p] = Unassigned
            /\ \A p \in 1..Len(ns) : tr.asg[p] = Unassigned =>
                 \A j \in 1..Len(rules) : rules[j][1] = ns[p] => AxesIn(rules[j][2]) \cap Taken(tr.asg) # {}
            \* appending rules never changes what earlier rules decided
            /\ \A m \in 0..Len(rules) : LET e == Assigned(ns, SubSeq(rules, 1, m)) IN
                 \A p \in 1..Len(ns) : e[p] # Unassigned => tr.asg[p] = e[p]

RECURSIVE Strip(_)
Strip(t) ==  \* everything but the sharding of variables
  CASE IsNodeVar(t) -> [t EXCEPT ![3] = [ n \in DOMAIN @ \ {"sharding"} |-> @[n] ]]
    [] t[1] = "var" -> [t EXCEPT ![4] = Strip(@)]
    [] t[1] = "map" -> <<"map", t[2], [ i \in 1..Len(t[3]) |-> <<t[3][i][1], Strip(t[3][i][2])>> ]>>
    [] t[1] = "seq" -> <<"seq", t[2], [ i \in 1..Len(t[3]) |-> Strip(t[3][i]) ]>>
    [] OTHER -> t
AxisLaw ==
  \A ax \in AxIdx :
    LET t == case.t
        fits == \A ns \in AllNames(t) : IF ax >= 0 THEN ax <= Len(ns) ELSE ax >= -(Len(ns) + 1)
        a == MapVars(LAMBDA ns : AxisIn(ns, ax, "l"), t)
    IN fits =>
         /\ \A ns \in AllNames(a) : CanRemoveAt(ns, ax, "l") /\ At(ns, ax) + 1 \in 1..Len(ns)
         /\ MapVars(LAMBDA ns : AxisOut(ns, ax), a) = t
         /\ Strip(a) = Strip(t)
         /\ (AllNames(t) = {} => a = t)
ScopeLaw ==      \* leaving what was entered last restores the rules, however it is left
  \A r \in {R1, R2, R0} : \A i \in {R1, R0} :
    LET ins == Apply(s, [o |-> "enter", rules |-> r]).s
        deep == Apply(Apply(ins, [o |-> "setr", rules |-> i]).s, [o |-> "enter", rules |-> i]).s
    IN /\ Cur(ins) = r
       /\ Apply(ins, [o |-> "exit", how |-> "ret", d |-> 1]).s = s
       /\ Apply(deep, [o |-> "exit", how |-> "raise", d |-> 2]).s = s
Prop == CASE Profile = "C25" -> TranslateLaw [] Profile = "C26" -> AxisLaw [] Profile = "C27" -> ScopeLaw
=============================================================================
