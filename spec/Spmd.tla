--------------------------------- MODULE Spmd ---------------------------------
(* Logical axis names, sharding metadata and scoped axis rules (nnx.spmd).      *)
(*                                                                             *)
(* names : <<"none">> or <<"s", name, ...>>, "-" standing for an unnamed dim     *)
(* rules : <<"r", << <<name, mesh>>, ... >> >>, <<"cur">> the rules in force, or  *)
(*         <<"bad", ...>> something that is no rule list                         *)
(* mesh  : <<"n">> no mesh axes, <<"s", ax>> one, <<"t", ax, ...>> several       *)
(* trees : <<"var", ty, md, value>> <<"arr", v>> <<"num", v>> <<"str", s>>        *)
(*         <<"none">> <<"P", names>> <<"def">>                                   *)
(*         <<"map", kind, << <<key, tree>>, ... >> >>   dicts, states, objects    *)
(*         <<"seq", kind, << tree, ... >> >>          lists, tuples              *)
(*         <<"static", tree>>   a static field of an object: never looked into    *)
EXTENDS Base

MeshAxes == {"X", "Y"}
AxesIn(m) == Range(Tail(m))
Unassigned == <<"u">>

(* ---------------------------------------------------------------- translation *)
DupNames(ns) == \E i, j \in 1..Len(ns) : i # j /\ ns[i] = ns[j] /\ ns[i] # "-"
Taken(asg) == UNION { AxesIn(asg[i]) : i \in 1..Len(asg) }
Assigned(ns, rules) ==
  Fold(LAMBDA asg, r :
         IF Member(r[1], ns) /\ r[1] # "-"
         THEN LET p == IndexOf(r[1], ns) IN
              IF asg[p] = Unassigned /\ AxesIn(r[2]) \cap Taken(asg) = {} THEN [asg EXCEPT ![p] = r[2]] ELSE asg
         ELSE asg,
       [ i \in 1..Len(ns) |-> Unassigned ], rules)
Filled(asg) == [ i \in 1..Len(asg) |-> IF asg[i] = Unassigned THEN <<"n">> ELSE asg[i] ]

Err == [t |-> "err"]
Ok == [t |-> "ok"]
(* the rules an operation uses *)
Effective(r, cur) == IF r[1] = "cur" THEN cur ELSE r
Translate(names, rules) ==       \* [ok, none, asg]
  IF names[1] = "none" THEN [ok |-> TRUE, none |-> TRUE, asg |-> <<>>]
  ELSE IF DupNames(Tail(names)) \/ rules[1] = "bad" THEN [ok |-> FALSE, none |-> FALSE, asg |-> <<>>]
  ELSE [ok |-> TRUE, none |-> FALSE, asg |-> Assigned(Tail(names), rules[2])]
SpecOf(tr) == IF tr.none THEN <<"none">> ELSE <<"P">> \o Filled(tr.asg)
KnownAxes(asg) == Taken(asg) \subseteq MeshAxes

(* ---------------------------------------------------------------- metadata *)
SharedNames(md) == IF "sharding" \in DOMAIN md THEN md.sharding ELSE <<"none">>
IsNodeVar(t) == t[1] = "var" /\ t[2] # "TreeNode"
RECURSIVE Gps(_)
Gps(t) ==
  CASE IsNodeVar(t) -> IF Len(SharedNames(t[3])) > 1 THEN <<"P">> \o Tail(SharedNames(t[3]))
                       ELSE IF t[4][1] = "arr" THEN <<"P">> ELSE <<"none">>
    [] t[1] = "var" -> <<"var", t[2], t[3], Gps(t[4])>>
    [] t[1] = "arr" -> <<"P">>
    [] t[1] \in {"num", "str", "none"} -> <<"none">>
    [] t[1] = "map" -> <<"map", t[2], [ i \in 1..Len(t[3]) |-> <<t[3][i][1], Gps(t[3][i][2])>> ]>>
    [] t[1] = "seq" -> <<"seq", t[2], [ i \in 1..Len(t[3]) |-> Gps(t[3][i]) ]>>
    [] OTHER -> t
RECURSIVE MapVars(_, _)
MapVars(f(_), t) ==
  CASE IsNodeVar(t) -> IF SharedNames(t[3]) # <<"none">> THEN [t EXCEPT ![3].sharding = <<"s">> \o f(Tail(@))] ELSE t
    [] t[1] = "var" -> [t EXCEPT ![4] = MapVars(f, @)]
    [] t[1] = "map" -> <<"map", t[2], [ i \in 1..Len(t[3]) |-> <<t[3][i][1], MapVars(f, t[3][i][2])>> ]>>
    [] t[1] = "seq" -> <<"seq", t[2], [ i \in 1..Len(t[3]) |-> MapVars(f, t[3][i]) ]>>
    [] OTHER -> t
RECURSIVE AllNames(_)
AllNames(t) ==
  CASE IsNodeVar(t) -> IF SharedNames(t[3]) # <<"none">> THEN {Tail(SharedNames(t[3]))} ELSE {}
    [] t[1] = "var" -> AllNames(t[4])
    [] t[1] = "map" -> UNION { AllNames(t[3][i][2]) : i \in 1..Len(t[3]) }
    [] t[1] = "seq" -> UNION { AllNames(t[3][i]) : i \in 1..Len(t[3]) }
    [] OTHER -> {}
AxisIn(ns, ax, name) ==
  LET p == IF ax >= 0 THEN ax ELSE Len(ns) + 1 + ax
      full == ns \o [ j \in 1..(IF p > Len(ns) THEN p - Len(ns) ELSE 0) |-> "-" ]
  IN SubSeq(full, 1, p) \o <<name>> \o SubSeq(full, p + 1, Len(full))
At(ns, ax) == IF ax >= 0 THEN ax ELSE Len(ns) + ax
CanRemoveAt(ns, ax, name) == At(ns, ax) \in 0..(Len(ns) - 1) /\ ns[At(ns, ax) + 1] = name
AxisOut(ns, ax) == LET p == At(ns, ax) IN SubSeq(ns, 1, p) \o SubSeq(ns, p + 2, Len(ns))

(* a train state: its optimiser's statistics are trees like the parameters        *)
RECURSIVE Zeros(_)
Zeros(t) ==
  CASE t[1] = "var" -> [t EXCEPT ![4] = Zeros(@)]
    [] t[1] = "arr" -> <<"arr", <<"i", 0>>>>
    [] t[1] = "map" -> <<"map", t[2], [ i \in 1..Len(t[3]) |-> <<t[3][i][1], Zeros(t[3][i][2])>> ]>>
    [] OTHER -> t
OptState(tx, p) ==
  LET adam == <<"seq", "ScaleByAdamState", << <<"arr", <<"i", 0>>>>, Zeros(p), Zeros(p)>> >>
      trace == <<"seq", "TraceState", <<Zeros(p)>> >>
      empty == <<"seq", "EmptyState", <<>> >>
      all(a, b) == <<"seq", "tuple", <<a, b>>>>
  IN CASE tx = "adam" -> all(adam, empty)
       [] tx = "sgd" -> all(empty, empty)
       [] tx = "momentum" -> all(trace, empty)
       [] tx = "chain" -> all(trace, adam)
Tree(t) == <<"var", "TreeNode", <<>>, t>>
TrainState(op) == <<"map", "TrainState", << <<"opt_state", Tree(OptState(op.tx, op.x))>>, <<"params", Tree(op.x)>>, <<"step", Tree(<<"arr", <<"i", op.step>>>>)>> >> >>

(* ---------------------------------------------------------------- constraints *)
(* a constraint on one array of the given rank: "err", "same" (returned as it is) *)
(* or the mesh axes of every dimension                                           *)
Constrain(rank, names, rules, op) ==
  LET tr == Translate(names, rules)
      real == op.mesh = 1 \/ op.gm = 1
      open == \E i \in 1..Len(tr.asg) : tr.asg[i] = Unassigned
      asg == Filled(tr.asg)
  IN IF ~tr.ok THEN <<"err">>
     ELSE IF ~tr.none /\ open /\ op.fb = "raise_error" THEN <<"err">>
     ELSE IF ~tr.none /\ open /\ op.fb = "no_constraint" THEN <<"same">>
     ELSE IF ~real THEN <<"same">>
     ELSE IF Len(asg) > rank \/ ~KnownAxes(asg) THEN <<"err">>
     ELSE IF op.jit = 1 /\ Taken(asg) = {} THEN <<"same">>     \* not told apart under jit
     ELSE <<"on">> \o [ d \in 1..rank |-> IF d <= Len(asg) THEN Tail(asg[d]) ELSE <<>> ]
(* op.names: <<"one", names>> for everything or <<"each", << <<key, names>> >> >> *)
ConOp(op, cur) ==
  LET rules == Effective(op.rules, cur)
      nokeys == op.x[1] = "one"
      ranks == IF nokeys THEN <<op.x[2]>> ELSE [ i \in 1..Len(op.x[2]) |-> op.x[2][i][2] ]
      names(i) == IF op.names[1] = "one" THEN op.names[2] ELSE op.names[2][i][2]
      out == [ i \in 1..Len(ranks) |-> Constrain(ranks[i], names(i), rules, op) ]
      off == (rules[1] = "r" /\ rules[2] = <<>>) \/ (op.names = <<"one", <<"none">>>>)
  IN IF off THEN [t |-> "con", sh |-> [ i \in 1..Len(ranks) |-> <<"same">> ]]
     ELSE IF \E i \in 1..Len(ranks) : out[i] = <<"err">> THEN Err
     ELSE [t |-> "con", sh |-> out]

(* ---------------------------------------------------------------- transitions *)
(* state: stack of rules in force (innermost last) and the trees made so far     *)
Cur(s) == Last(s.stack)
Res(s, r) == [s |-> s, res |-> r]
Put(s, t) == Res([s EXCEPT !.regs = Append(@, t)], [t |-> "tree", x |-> t])
Apply(s, op) ==
  CASE op.o = "l2m" ->
         LET tr == Translate(op.names, Effective(op.rules, Cur(s)))
         IN Res(s, IF tr.ok THEN [t |-> "spec", x |-> SpecOf(tr)] ELSE Err)
    [] op.o \in {"l2mtree", "l2s"} ->
         LET n == Len(op.names)
             tr == [ i \in 1..n |-> Translate(op.names[i], Effective(op.rules, Cur(s))) ]
             bad == \E i \in 1..n : ~tr[i].ok \/ (op.o = "l2s" /\ ~KnownAxes(Filled(tr[i].asg)))
         IN Res(s, IF bad THEN Err ELSE [t |-> "specs", xs |-> [ i \in 1..n |-> SpecOf(tr[i]) ]])
    [] op.o = "enter" -> Res([s EXCEPT !.stack = Append(@, op.rules)], Ok)
    [] op.o = "exit" -> Res([s EXCEPT !.stack = SubSeq(@, 1, Len(@) - op.d)], Ok)
    [] op.o = "setr" -> Res([s EXCEPT !.stack = Append(Front(@), op.rules)], Ok)
    [] op.o = "getr" -> Res(s, [t |-> "rules", x |-> Cur(s)])
    [] op.o = "con" -> Res(s, ConOp(op, Cur(s)))
    [] op.o = "part" ->          \* a parameter made by an initialiser with logical partitioning
         LET real == op.mesh = 1 \/ op.gm = 1
             c == ConOp([rules |-> op.rules, mesh |-> op.mesh, gm |-> op.gm, jit |-> 0, fb |-> "axis_is_unsharded",
                         x |-> <<"one", op.rank>>, names |-> <<"one", op.names>>], Cur(s))
             thrice(l) == <<l, l, l, <<"same">>>>     \* read in a module, in a copy made of its state, after an assignment; what is held
         IN Res(s, IF ~real THEN [t |-> "part", names |-> op.names, md |-> op.md, sh |-> <<"same">>, unbox |-> <<"same">>, reads |-> thrice(<<"same">>)]
                   ELSE IF c = Err THEN Err
                   ELSE [t |-> "part", names |-> op.names, md |-> op.md, sh |-> c.sh[1],
                         unbox |-> c.sh[1], reads |-> thrice(c.sh[1])])
    [] op.o = "mk" -> Put(s, op.x)
    [] op.o = "mkts" -> Put(s, TrainState(op))
    [] op.o = "gps" -> Res(s, [t |-> "tree", x |-> Gps(s.regs[op.r])])
    [] op.o = "add" ->
         IF op.name = "" THEN Res(s, Err)
         ELSE Put(s, MapVars(LAMBDA ns : AxisIn(ns, op.ax, op.name), s.regs[op.r]))
    [] op.o = "rem" ->
         IF op.name = "" \/ \E ns \in AllNames(s.regs[op.r]) : ~CanRemoveAt(ns, op.ax, op.name) THEN Res(s, Err)
         ELSE Put(s, MapVars(LAMBDA ns : AxisOut(ns, op.ax), s.regs[op.r]))
Start == [stack |-> << <<"r", <<>>>> >>, regs |-> <<>>]
=============================================================================
