-------------------------------- MODULE MC_Train --------------------------------
(* Every train state over the listed models and optimisers under every history of *)
(* up to D operations.                                                             *)
EXTENDS Train, Json
CONSTANTS D, Rich
VARIABLES hist, s
P(p, t, v) == [p |-> p, t |-> t, v |-> v]
Tx(c, ss) == [chain |-> c, stages |-> ss]
Txs == { Tx(0, << <<"scale", -1>> >>), Tx(0, << <<"trace", 2, 0>> >>), Tx(1, << <<"trace", 2, 1>>, <<"scale", -1>> >>),
         Tx(1, << <<"clip", 2>>, <<"wd", 1>>, <<"sched", 1>> >>) }
       \cup (IF Rich THEN { Tx(0, << <<"sched", 0>> >>), Tx(1, << <<"scale", 3>> >>), Tx(1, << <<"sched", 1>>, <<"trace", -1, 0>>, <<"clip", 3>>, <<"sched", 0>> >>), Tx(0, << <<"zero">> >>) } ELSE {})
Bs == << P(<<"c">>, "BatchStat", <<1, 0>>) >>
Flat == << P(<<"w">>, "Param", <<1, 2>>) >>
DeepP == << P(<<"l", "b">>, "Param", <<0, 3>>), P(<<"l", "w">>, "Param", <<2, -1>>) >>
Xs == { << >>, << <<"batch_stats", <<"st", Bs>> >>, <<"other", <<"c", "Node", 5>> >> >>,
        << <<"a", <<"num", 4>> >>, <<"batch_stats", <<"st", Bs>> >>, <<"static", <<"c", "Static", 7>> >> >> }
Mk(m, tx, x) == [o |-> "mk", m |-> m, k |-> 2, params |-> IF m = "flat" THEN Flat ELSE DeepP, tx |-> tx, step |-> IF x = <<>> THEN 0 ELSE 3, how |-> IF x = <<>> THEN "none" ELSE "given", x |-> x]
Init == \E m \in {"flat", "deep"}, tx \in Txs, x \in Xs : hist = << Mk(m, tx, x) >> /\ s = Apply(Start, Mk(m, tx, x)).s
N == Len(s.ts)
Cur == s.ts[N]
G(t, a) == [ i \in 1..Len(t.params) |-> [t.params[i] EXCEPT !.v = <<a, i - 2>>] ]
Ops ==
  { [o |-> "ag", r |-> N, g |-> G(Cur, a), kw |-> <<>>, how |-> h] : a \in {3}, h \in {"plain", "jit"} }
  \cup { [o |-> "ag", r |-> N, g |-> G(Cur, -1), kw |-> << <<"batch_stats", <<"last", "BatchStat">> >> >>, how |-> "plain"] }
  \cup { [o |-> "apply", r |-> N, args |-> << <<"n", "params">>, <<"n", "batch_stats">> >>, how |-> "call", x |-> <<1, 2>>] }
  \cup { [o |-> "train", r |-> N, args |-> << <<"n", "batch_stats">> >>, how |-> "call", x |-> <<2, -1>>, keep |-> k] : k \in {"", "batch_stats"} }
  \cup { [o |-> "map", r |-> N, by |-> 1], [o |-> "flat", r |-> N], [o |-> "sd", r |-> N] }
  \cup { [o |-> "rep", r |-> N, kw |-> kw] : kw \in { << <<"step", <<"num", 9>> >> >>, << <<"other", <<"num", 6>> >>, <<"step", <<"num", 1>> >> >>, << <<"a", <<"st", Bs>> >> >> } }
  \cup (IF s.dicts = <<>> THEN {} ELSE { [o |-> "restore", r |-> N, d |-> 1, edit |-> e] : e \in { <<"no">>, <<"drop", "step">>, <<"add", "zz">> } })
Next == /\ Len(hist) <= D
        /\ \E op \in Ops : hist' = Append(hist, op) /\ s' = Apply(s, op).s
Spec == Init /\ [][Next]_<<hist, s>>
Gets == << "params", "step", "opt_state", "a", "batch_stats", "other", "static", "zz" >>
Probe ==
  LET old == 1  bs == << <<"n", "batch_stats">> >> IN
  << [o |-> "ag", r |-> old, g |-> G(s.ts[1], 2), kw |-> <<>>, how |-> "plain"], [o |-> "apply", r |-> N, args |-> << <<"n", "batch_stats">>, <<"n", "params">>, <<"last">> >>, how |-> "call", x |-> <<1, 1>>],
     [o |-> "apply", r |-> N, args |-> << <<"n", "params">> >>, how |-> "m", x |-> <<1, 3>>], [o |-> "apply", r |-> N, args |-> << <<"n", "params">> >>, how |-> "call", x |-> <<1, 3>>],
     [o |-> "apply", r |-> N, args |-> << <<"n", "params">>, <<"s", Bs>> >>, how |-> "call", x |-> <<1, 3>>], [o |-> "apply", r |-> N, args |-> << <<"n", "zz">> >>, how |-> "call", x |-> <<1, 3>>],
     [o |-> "ag", r |-> N, g |-> Bs, kw |-> <<>>, how |-> "plain"], [o |-> "ag", r |-> N, g |-> G(Cur, 1), kw |-> << <<"zz", <<"num", 1>> >> >>, how |-> "plain"],
     [o |-> "ag", r |-> N, g |-> G(Cur, 1), kw |-> << <<"step", <<"num", 1>> >> >>, how |-> "plain"], [o |-> "set", r |-> N, n |-> "step", v |-> <<"num", 1>>] >>
  \o [ i \in 1..Len(Gets) |-> [o |-> "get", r |-> N, n |-> Gets[i]] ]
Emit == PrintT(<<"STATE", ToJson([h |-> hist, p |-> << Probe >>])>>)

(* ---- laws *)
Upd(t, g) == ApplyGrads(s, t, g, <<>>)
Linear(t) == \A i \in 1..Len(t.tx.stages) : t.tx.stages[i][1] \in {"scale", "trace"}
Prop ==
  /\ \A op \in Ops : LET e == Apply(s, op) IN \A i \in 1..N : e.s.ts[i] = s.ts[i]
  /\ LET t == Cur
         g == G(t, 3)
         a == Upd(t, g)
         z == Upd(t, MapV(LAMBDA x : 0, g))
     IN /\ (a.ok => a.t.step = t.step + 1 /\ a.t.x = t.x /\ a.t.tx = t.tx /\ Same(a.t.params, t.params) /\ Fits(t.tx, a.t.opt, t.params))
        /\ (a.ok /\ Linear(t) =>       \* an optimiser linear in its gradients
              LET d == Upd(t, MapV(LAMBDA x : 2 * x, g))
                  del(e) == ZipV(LAMBDA x, y : x - y, e.t.params, z.t.params)
              IN del(d) = MapV(LAMBDA x : 2 * x, del(a)))
        /\ (t.tx.stages[1] = <<"scale", -1>> => \A i \in 1..Len(g) : Var(a.t.params, g[i].p)[1] = t.params[i].v[1] - g[i].v[1])
        /\ Restore(t, Dict(t)) = [ok |-> TRUE, t |-> t]
        /\ MapT(LAMBDA x : x - 1, MapT(LAMBDA x : x + 1, t)) = t
        /\ Replace(s, t, <<>>) = [ok |-> TRUE, t |-> t]
=============================================================================
