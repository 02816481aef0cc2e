--------------------------------- MODULE Train ---------------------------------
(* nnx.TrainState: a model definition, its parameters, an optimiser and its state, *)
(* a step counter and further fields.                                              *)
(*                                                                                 *)
(* variables : << [p |-> path, t |-> type, v |-> vector], ... >> in path order     *)
(* stage     : <<"scale", k>> <<"trace", decay, nesterov>> <<"clip", d>>           *)
(*             <<"wd", k>> <<"sched", a>> <<"zero">>; tx: [chain, stages]          *)
(* its state : <<"empty">> <<"trace", variables>> <<"count", n>>                   *)
(* fields    : << <<name, value>>, ... >> in name order; value: <<"num", n>>       *)
(*             (static), <<"c", type, n>>, <<"st", variables>>                     *)
(* A state is [ts, last, dicts]: train states made so far, the variables returned  *)
(* by the last application, state dictionaries.                                    *)
EXTENDS Base

MapV(f(_), l) == [ i \in 1..Len(l) |-> [l[i] EXCEPT !.v = [ j \in 1..Len(@) |-> f(@[j]) ]] ]
ZipV(f(_, _), l, m) == [ i \in 1..Len(l) |-> [l[i] EXCEPT !.v = [ j \in 1..Len(@) |-> f(@[j], m[i].v[j]) ]] ]
Same(l, m) == Len(l) = Len(m) /\ \A i \in 1..Len(l) : l[i].p = m[i].p /\ l[i].t = m[i].t /\ Len(l[i].v) = Len(m[i].v)
Has(l, p) == \E i \in 1..Len(l) : l[i].p = p
Var(l, p) == l[CHOOSE i \in 1..Len(l) : l[i].p = p].v
MergeV(l, m) ==
  LET ps == SetToSortSeq({ l[i].p : i \in 1..Len(l) } \cup { m[i].p : i \in 1..Len(m) }, PathLess)
      pick(p) == IF Has(m, p) THEN m[CHOOSE i \in 1..Len(m) : m[i].p = p] ELSE l[CHOOSE i \in 1..Len(l) : l[i].p = p]
  IN [ i \in 1..Len(ps) |-> pick(ps[i]) ]
OfType(l, t) == SelectSeq(l, LAMBDA x : x.t = t)

(* ---------------------------------------------------------------- optimiser *)
StageInit(g, params) ==
  CASE g[1] = "trace" -> <<"trace", MapV(LAMBDA x : 0, params)>>
    [] g[1] = "sched" -> <<"count", 0>>
    [] OTHER -> <<"empty">>
TxInit(tx, params) == [ i \in 1..Len(tx.stages) |-> StageInit(tx.stages[i], params) ]
Clip(x, d) == IF x > d THEN d ELSE IF x < -d THEN -d ELSE x
Stage(g, st, u, params) ==      \* [u, st]
  CASE g[1] = "scale" -> [u |-> MapV(LAMBDA x : g[2] * x, u), st |-> st]
    [] g[1] = "zero" -> [u |-> MapV(LAMBDA x : 0, u), st |-> st]
    [] g[1] = "clip" -> [u |-> MapV(LAMBDA x : Clip(x, g[2]), u), st |-> st]
    [] g[1] = "wd" -> [u |-> ZipV(LAMBDA x, p : x + g[2] * p, u, params), st |-> st]
    [] g[1] = "sched" -> [u |-> MapV(LAMBDA x : (st[2] + g[2]) * x, u), st |-> <<"count", st[2] + 1>>]
    [] g[1] = "trace" ->
         LET t == ZipV(LAMBDA x, old : x + g[2] * old, u, st[2])
         IN [u |-> IF g[3] = 1 THEN ZipV(LAMBDA x, new : x + g[2] * new, u, t) ELSE t, st |-> <<"trace", t>>]
TxUpdate(tx, opt, grads, params) ==
  Fold(LAMBDA acc, i : LET r == Stage(tx.stages[i], opt[i], acc.u, params) IN [u |-> r.u, opt |-> Append(acc.opt, r.st)],
       [u |-> grads, opt |-> <<>>], [ i \in 1..Len(tx.stages) |-> i ])
(* a change of an optimiser makes the kept state unfit *)
Fits(tx, opt, params) ==
  Len(tx.stages) = Len(opt) /\ \A i \in 1..Len(opt) :
    LET w == StageInit(tx.stages[i], params) IN w[1] = opt[i][1] /\ (w[1] = "trace" => Same(w[2], opt[i][2]))

(* ---------------------------------------------------------------- model *)
Needs(m, how) ==
  CASE m = "flat" /\ how = "call" -> {<<"w">>, <<"c">>}
    [] m = "flat" -> {<<"w">>}
    [] m = "deep" /\ how = "call" -> {<<"l", "w">>, <<"l", "b">>, <<"c">>}
    [] m = "deep" /\ how = "l" -> {<<"l", "w">>, <<"l", "b">>}
    [] OTHER -> {<<"l", "b">>}
V2(f(_)) == << f(1), f(2) >>
Run(m, k, how, vs, x) ==       \* [y, vs]
  CASE m = "flat" /\ how = "call" ->
         [y |-> V2(LAMBDA i : k * Var(vs, <<"w">>)[i] * x[i] + Var(vs, <<"c">>)[i]),
          vs |-> [ j \in 1..Len(vs) |-> IF vs[j].p = <<"c">> THEN [vs[j] EXCEPT !.v = V2(LAMBDA i : vs[j].v[i] + x[i])] ELSE vs[j] ]]
    [] m = "flat" -> [y |-> V2(LAMBDA i : Var(vs, <<"w">>)[i] - x[i]), vs |-> vs]
    [] m = "deep" /\ how = "call" ->
         [y |-> V2(LAMBDA i : k * (Var(vs, <<"l", "w">>)[i] * x[i] + Var(vs, <<"l", "b">>)[i]) + Var(vs, <<"c">>)[i]),
          vs |-> [ j \in 1..Len(vs) |-> IF vs[j].p = <<"c">> THEN [vs[j] EXCEPT !.v = V2(LAMBDA i : vs[j].v[i] + 2 * x[i])] ELSE vs[j] ]]
    [] m = "deep" /\ how = "l" -> [y |-> V2(LAMBDA i : Var(vs, <<"l", "w">>)[i] * x[i] + Var(vs, <<"l", "b">>)[i]), vs |-> vs]
    [] OTHER -> [y |-> V2(LAMBDA i : Var(vs, <<"l", "b">>)[i] + x[i]), vs |-> vs]
(* derivative of the sum of the output of a call with respect to one variable *)
Slope(k, p, x) == CASE p = <<"c">> -> <<1, 1>> [] p = <<"l", "b">> -> <<k, k>> [] OTHER -> V2(LAMBDA i : k * x[i])

(* ---------------------------------------------------------------- operations *)
Err == [t |-> "err"]
Ok == [t |-> "ok"]
Start == [ts |-> <<>>, last |-> <<>>, dicts |-> <<>>]
Push(s, t) == [s EXCEPT !.ts = Append(@, t)]
Keys(x) == { x[i][1] : i \in 1..Len(x) }
Get(x, n) == x[CHOOSE i \in 1..Len(x) : x[i][1] = n][2]
Put(x, n, v) == [ i \in 1..Len(x) |-> IF x[i][1] = n THEN <<n, v>> ELSE x[i] ]
IsNode(v) == v[1] = "st" \/ (v[1] = "c" /\ v[2] # "Static")
Value(s, v) == IF v[1] = "last" THEN <<"st", OfType(s.last, v[2])>> ELSE v
Store(old, v) ==        \* [ok, v]
  IF old[1] # "c" THEN [ok |-> TRUE, v |-> v]
  ELSE IF v[1] = "c" THEN [ok |-> v[2] = old[2], v |-> v]
  ELSE [ok |-> TRUE, v |-> <<"c", old[2], v[2]>>]
(* replacing fields; core fields are given as params, step, opt *)
Replace(s, t, kw) ==
  LET one(acc, nv) ==
        IF ~acc.ok THEN acc
        ELSE IF nv[1] = "step" THEN [acc EXCEPT !.t.step = nv[2][2]]
        ELSE IF nv[1] = "params" THEN [acc EXCEPT !.t.params = Value(s, nv[2])[2]]
        ELSE IF nv[1] \notin Keys(acc.t.x) THEN [acc EXCEPT !.ok = FALSE]
        ELSE LET w == Store(Get(acc.t.x, nv[1]), Value(s, nv[2])) IN [ok |-> w.ok, t |-> [acc.t EXCEPT !.x = Put(@, nv[1], w.v)]]
  IN Fold(one, [ok |-> TRUE, t |-> t], kw)
ApplyGrads(s, t, g, kw) ==
  IF ~Same(g, t.params) \/ ~Fits(t.tx, t.opt, t.params) \/ (\E i \in 1..Len(kw) : kw[i][1] \in {"step", "params"}) THEN [ok |-> FALSE, t |-> t]
  ELSE LET u == TxUpdate(t.tx, t.opt, g, t.params)
       IN Replace(s, [t EXCEPT !.params = ZipV(LAMBDA a, b : a + b, t.params, u.u), !.opt = u.opt, !.step = @ + 1], kw)

LeavesV(l) == [ i \in 1..Len(l) |-> l[i].v ]
LeavesOpt(o) == ConcatAll([ i \in 1..Len(o) |-> CASE o[i][1] = "trace" -> LeavesV(o[i][2]) [] o[i][1] = "count" -> << <<o[i][2]>> >> [] OTHER -> <<>> ])
NodeFields(t) ==          \* in name order
  LET own == [ n \in { t.x[i][1] : i \in { j \in 1..Len(t.x) : IsNode(t.x[j][2]) } } |-> Get(t.x, n) ]
      all == DOMAIN own \cup {"params", "opt_state", "step"}
      ns == SortedNames(all)
      val(n) == CASE n = "params" -> <<"st", t.params>> [] n = "opt_state" -> <<"opt", t.opt, t.tx.chain>> [] n = "step" -> <<"num", t.step>> [] OTHER -> own[n]
  IN [ i \in 1..Len(ns) |-> <<ns[i], val(ns[i])>> ]
Leaves(t) == LET f == NodeFields(t) IN
  ConcatAll([ i \in 1..Len(f) |-> CASE f[i][2][1] = "st" -> LeavesV(f[i][2][2]) [] f[i][2][1] = "opt" -> LeavesOpt(f[i][2][2])
                                    [] f[i][2][1] = "c" -> << <<f[i][2][3]>> >> [] OTHER -> << <<f[i][2][2]>> >> ])
MapOpt(f(_), o) == [ i \in 1..Len(o) |-> CASE o[i][1] = "trace" -> <<"trace", MapV(f, o[i][2])>> [] o[i][1] = "count" -> <<"count", f(o[i][2])>> [] OTHER -> o[i] ]
MapT(f(_), t) ==
  [t EXCEPT !.params = MapV(f, @), !.opt = MapOpt(f, @), !.step = f(@),
            !.x = [ i \in 1..Len(@) |-> LET v == @[i][2] IN
                      <<@[i][1], CASE v[1] = "st" -> <<"st", MapV(f, v[2])>> [] v[1] = "c" /\ v[2] # "Static" -> <<"c", v[2], f(v[3])>> [] OTHER -> v>> ]]
Dict(t) == [ i \in 1..Len(NodeFields(t)) |-> LET nv == NodeFields(t)[i] IN IF nv[2][1] = "c" THEN <<nv[1], <<"num", nv[2][3]>> >> ELSE nv ]
SameOpt(a, b) == a[3] = b[3] /\ Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : a[2][i][1] = b[2][i][1]
Restore(t, d) ==          \* [ok, t]
  LET mine == NodeFields(t)
      ok == Keys(mine) = Keys(d) /\ SameOpt(<<"opt", t.opt, t.tx.chain>>, Get(d, "opt_state"))
  IN IF ~ok THEN [ok |-> FALSE, t |-> t]
     ELSE [ok |-> TRUE, t |-> [t EXCEPT !.params = Get(d, "params")[2], !.opt = Get(d, "opt_state")[2], !.step = Get(d, "step")[2],
             !.x = [ i \in 1..Len(@) |-> LET n == @[i][1]  v == @[i][2] IN
                       <<n, IF ~IsNode(v) THEN v ELSE IF v[1] = "c" THEN <<"c", v[2], Get(d, n)[2]>> ELSE Get(d, n)>> ]]]

(* the variables an application is given *)
Arg(s, t, a) ==
  IF a[1] = "s" THEN [ok |-> TRUE, l |-> a[2]]
  ELSE IF a[1] = "last" THEN [ok |-> TRUE, l |-> s.last]
  ELSE IF a[2] = "params" THEN [ok |-> TRUE, l |-> t.params]
  ELSE IF a[2] \in Keys(t.x) /\ Get(t.x, a[2])[1] = "st" THEN [ok |-> TRUE, l |-> Get(t.x, a[2])[2]]
  ELSE [ok |-> FALSE, l |-> <<>>]
Model(s, t, op, given) ==
  LET as == [ i \in 1..Len(op.args) |-> Arg(s, t, op.args[i]) ]
      vs == Fold(LAMBDA acc, a : MergeV(acc, a.l), given, as)
      ok == (\A i \in 1..Len(as) : as[i].ok) /\ (\A p \in Needs(t.m, op.how) : Has(vs, p))
            /\ (t.m = "flat" => \A i \in 1..Len(vs) : Len(vs[i].p) = 1)        \* a path through a missing submodule
  IN IF ok THEN [ok |-> TRUE, r |-> Run(t.m, t.k, op.how, vs, op.x), vs |-> vs] ELSE [ok |-> FALSE, r |-> <<>>, vs |-> vs]

Apply(s, op) ==
  LET T == s.ts[op.r]
      E == [s |-> s, res |-> Err]
      pushed(e) == IF e.ok THEN [s |-> Push(s, e.t), res |-> Ok] ELSE E
  IN CASE op.o = "mk" ->
            [s |-> Push(s, [m |-> op.m, k |-> op.k, params |-> op.params, tx |-> op.tx, opt |-> TxInit(op.tx, op.params), step |-> op.step, x |-> op.x]), res |-> Ok]
       [] op.o = "ag" -> pushed(ApplyGrads(s, T, op.g, op.kw))
       [] op.o = "rep" -> pushed(Replace(s, T, op.kw))
       [] op.o = "set" -> E
       [] op.o = "get" ->
            [s |-> s, res |-> CASE op.n = "params" -> [t |-> "val", x |-> <<"st", T.params>>] [] op.n = "step" -> [t |-> "val", x |-> <<"num", T.step>>]
                                [] op.n = "opt_state" -> [t |-> "val", x |-> <<"opt", T.opt, T.tx.chain>>]
                                [] op.n \in Keys(T.x) -> LET v == Get(T.x, op.n) IN [t |-> "val", x |-> IF v[1] = "c" THEN <<"num", v[3]>> ELSE v]
                                [] OTHER -> Err]
       [] op.o = "flat" -> [s |-> Push(s, T), res |-> [t |-> "leaves", x |-> Leaves(T)]]
       [] op.o = "map" -> [s |-> Push(s, MapT(LAMBDA x : x + op.by, T)), res |-> Ok]
       [] op.o = "apply" ->
            LET e == Model(s, T, op, <<>>)
            IN IF e.ok THEN [s |-> [s EXCEPT !.last = e.r.vs], res |-> [t |-> "out", y |-> e.r.y, vs |-> e.r.vs]] ELSE E
       [] op.o = "train" ->       \* differentiate the sum of the output by the parameters, apply, keep the new other variables
            LET e == Model(s, T, [op EXCEPT !.how = "call"], T.params)
                g == [ i \in 1..Len(T.params) |-> [T.params[i] EXCEPT !.v = Slope(T.k, T.params[i].p, op.x)] ]
                kw == IF op.keep = "" THEN <<>> ELSE << <<op.keep, <<"st", OfType(e.r.vs, "BatchStat")>> >> >>
            IN IF ~e.ok THEN E ELSE pushed(ApplyGrads(s, T, g, kw))
       [] op.o = "sd" -> [s |-> [s EXCEPT !.dicts = Append(@, Dict(T))], res |-> [t |-> "dict", x |-> Dict(T)]]
       [] op.o = "restore" ->
            LET d == s.dicts[op.d]
                e == CASE op.edit[1] = "drop" -> SelectSeq(d, LAMBDA nv : nv[1] # op.edit[2])
                       [] op.edit[1] = "add" -> Append(d, <<op.edit[2], <<"num", 1>> >>)
                       [] OTHER -> d
            IN IF op.edit[1] = "drop" /\ op.edit[2] = "opt_state" THEN E ELSE pushed(Restore(T, e))
Seen(s) == s.ts
================================================================================
