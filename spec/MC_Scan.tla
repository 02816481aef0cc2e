-------------------------------- MODULE MC_Scan --------------------------------
(* Every small configuration of a scanned call (Profile "C22") and of a scanned *)
(* initialisation ("C23"): the laws, and the scripts to replay.                 *)
EXTENDS Scan, Json, IOUtils
CONSTANTS Profile, MaxL, Rich
VARIABLES case

FP == <<"type", "Param">>
FB == <<"type", "BatchStat">>
FI == <<"type", "Intermediate">>
FN == <<"none">>
FE == <<"...">>
V(ty, sh, v) == [k |-> "var", ty |-> ty, md |-> [sharding |-> sh], v |-> v]
N(k) == <<"i", k>>
Vec(f(_), n) == <<"a", [ i \in 1..n |-> f(i) ]>>
(* the i-th layer's parameter: a vector of two numbers *)
W(i) == Vec(LAMBDA j : N(3 * i + j), 2)
X(i) == Vec(LAMBDA j : N(2 * i + 5 * j), 2)
Xs(L) == [ i \in 1..L |-> X(i) ]
Ws(L) == [ i \in 1..L |-> W(i) ]
At(n) == <<"at", <<>>, n>>
A(i) == <<"arg", i>>
Plus(a, b) == <<"+", a, b>>
Times(a, b) == <<"*", a, b>>
Axes == IF Rich THEN {0, 1, -1, -2} ELSE {0, -1}

(* what a layer does *)
Bodies ==
  { << <<"set", <<>>, "w", Plus(At("w"), Times(A(1), At("s")))>>, <<"out", Plus(Times(A(1), <<"c", 3>>), At("s")), <<Plus(At("w"), A(1))>> >> >>,
    << <<"set", <<>>, "s", Plus(At("s"), A(1))>>, <<"out", Plus(A(1), At("s")), <<>> >> >>,
    << <<"mkvar", <<>>, "v", "BatchStat", NoSharding, Plus(A(1), <<"c", 1>>)>>, <<"out", Plus(Times(A(1), At("v")), <<"c", 1>>), <<At("v"), At("w")>> >> >>,
    << <<"mkvar", <<"m">>, "v", "Param", <<"s", "e">>, Plus(At("w"), A(1))>>, <<"md", <<>>, "w">>, <<"out", Plus(A(1), <<"c", 2>>), <<Times(At("w"), A(1))>> >> >>,
    << <<"sow", <<"m">>, "Intermediate", "h", Plus(At("w"), A(1))>>, <<"out", Times(A(1), <<"c", 2>>), <<>> >> >> }
  \cup (IF Rich THEN { << <<"raise">>, <<"out", A(1), <<>> >> >>, << <<"set", <<>>, "nosuch", At("nosuch")>>, <<"out", A(1), <<>> >> >>,
                       << <<"out", At("w"), <<>> >> >> } ELSE {})
XBodies == { << <<"set", <<>>, "w", Plus(At("w"), A(2))>>, <<"out", Plus(A(1), <<"c", 1>>), <<Times(A(2), A(1)), At("s")>> >> >> }
DrawBody == << <<"draw", <<>>, "k", "Cache", "params">>, <<"draw", <<"m">>, "k", "Cache", "drop">>, <<"out", Plus(A(1), <<"c", 1>>), <<>> >> >>

RngFilters == { <<"none">>, <<"...">>, <<"str", "params">>, <<"seq", << <<"str", "drop">>, <<"str", "z">> >> >>, <<"map", << <<<<"str", "params">>, 0>>, <<<<"str", "drop">>, 1>> >> >>, <<"call", "drop">>, <<"bad">> }
NullOp == [o |-> "scan", m |-> 1, axes |-> <<>>, bc |-> FN, cr |-> FE, len |-> 0, rev |-> FALSE, inax |-> <<>>, outax |-> <<>>,
           meta |-> "", split |-> <<"none">>, xs |-> <<>>, args |-> <<>>, c0 |-> N(1), prog |-> <<>>, ctx |-> 0]
OutAx(p, ax) == [ i \in 1..Len(Last(p)[3]) |-> ax ]
(* the module: w per layer, s broadcast or carried, a submodule m with u *)
Build(L, ax, ty, sh) ==
  << [o |-> "new", c |-> "A"], [o |-> "new", c |-> "B"],
     [o |-> "set", m |-> 1, n |-> "m", x |-> [k |-> "mod", r |-> 2]],
     [o |-> "set", m |-> 1, n |-> "s", x |-> V("BatchStat", NoSharding, N(4))],
     [o |-> "set", m |-> 1, n |-> "w", x |-> V("Param", sh, StackV(Ws(L), ax))],
     [o |-> "set", m |-> 2, n |-> "u", x |-> V(ty, NoSharding, StackV([ i \in 1..L |-> N(7 * i) ], 0))] >>
AxesOf(ax, inter) == << <<FP, ax>> >> \o (IF inter THEN << <<FI, 0>> >> ELSE <<>>)
ScanCases ==
  { [pre |-> Build(L, ax, "Param", NoSharding), op |-> [NullOp EXCEPT !.axes = << << <<"path", "w">>, ax>>, <<FP, 0>> >> \o (IF inter THEN << <<FI, 0>> >> ELSE <<>>), !.bc = bc, !.rev = rev, !.prog = p, !.outax = OutAx(p, 0), !.len = ln]]
    : L \in 1..MaxL, ax \in Axes, bc \in {FN, FB}, rev \in BOOLEAN, p \in Bodies, inter \in BOOLEAN, ln \in (IF Rich THEN {0, 2} ELSE {0}) }
  \cup { [pre |-> Build(L, 0, "Param", NoSharding), op |-> [NullOp EXCEPT !.axes = << <<FP, 0>> >>, !.bc = bc, !.rev = rev, !.prog = p, !.outax = <<oax, 0>>, !.xs = <<StackV(Xs(LX), iax)>>, !.inax = <<iax>>, !.len = ln]]
         : L \in 1..MaxL, LX \in 1..MaxL, iax \in Axes, oax \in Axes, bc \in {FN, FB}, rev \in BOOLEAN, p \in XBodies, ln \in {0, MaxL} }
  \cup { [pre |-> Build(L, ax, "Param", <<"s">> \o nm), op |-> [NullOp EXCEPT !.axes = << << <<"path", "w">>, ax>>, <<FP, 0>> >>, !.prog = p, !.outax = OutAx(p, 0), !.meta = "l"]]
         : L \in 1..2, ax \in Axes, nm \in { <<"l", "e">>, <<"e", "l">>, <<"e", "f">> }, p \in Bodies }
  \cup { [pre |-> << [o |-> "ctx", args |-> << <<"params", 3>>, <<"drop", 4>> >>] >> \o Build(L, 0, "Param", NoSharding), op |-> [NullOp EXCEPT !.axes = << <<FP, 0>> >> \o kax, !.prog = DrawBody, !.split = sp, !.ctx = 1, !.rev = rev]]
         : L \in 1..MaxL, sp \in RngFilters, kax \in { << << <<"type", "Cache">>, 0>> >>, <<>> }, rev \in BOOLEAN }

InitProgs ==
  { << <<"mkvar", <<>>, "w", "Param", sh, Plus(A(1), <<"c", 1>>)>>, <<"mkvar", <<>>, "s", "BatchStat", NoSharding, Times(A(1), <<"c", 2>>)>>, <<"mkmod", <<>>, "m", "B">>,
       <<"mkvar", <<"m">>, "v", "Param", NoSharding, <<"c", 5>> >>, <<"md", <<>>, "w">>, <<"st", <<>>, "t", 3>> >> : sh \in { NoSharding, <<"s", "e">>, <<"s">> } }
DrawInits ==
  { << <<"draw", <<>>, "k", "Param", "params">>, <<"mkmod", <<>>, "m", "B">>, <<"draw", <<"m">>, "k", "Param", "drop">>, <<"draw", <<>>, "d", ty, st>> >>
      : ty \in {"Param", "Cache"}, st \in {"params", "drop"} }
SNull == [o |-> "sinit", m |-> 0, c |-> "A", axes |-> <<>>, bc |-> FN, cr |-> FE, len |-> 0, meta |-> "", split |-> <<"none">>, args |-> <<>>, prog |-> <<>>, ctx |-> 0]
InitCases ==
  { [pre |-> pre, op |-> [SNull EXCEPT !.m = Len(pre), !.axes = << <<FP, ax>> >>, !.bc = bc, !.len = L, !.meta = me, !.args = <<a>>, !.prog = p]]
    : pre \in { <<>>, << [o |-> "new", c |-> "A"] >> }, ax \in Axes, bc \in {FN, FB}, L \in 0..MaxL, me \in {"", "l"}, a \in {N(3), W(1)}, p \in InitProgs }
  \cup { [pre |-> << [o |-> "ctx", args |-> << <<"zz", 5>>, <<"params", 3>>, <<"drop", 4>> >>] >> \o pre, op |-> [SNull EXCEPT !.m = Len(pre), !.axes = axs, !.len = L, !.split = sp, !.ctx = 1, !.prog = p]]
         : pre \in { <<>>, << [o |-> "new", c |-> "A"] >> }, axs \in { <<>>, << <<FP, 0>> >> }, L \in 0..MaxL, sp \in RngFilters, p \in DrawInits }
  \cup { [pre |-> <<>>, op |-> [SNull EXCEPT !.axes = <<>>, !.len = L, !.args = <<N(3)>>, !.prog = p]] : L \in {0, 2}, p \in InitProgs }

Init == case \in (IF Profile = "C22" THEN ScanCases ELSE InitCases)
Next == FALSE /\ UNCHANGED case
Spec == Init /\ [][Next]_case

Start == Fold(LAMBDA s, op : LET r == ApplyS(s.h, s.cxs, op) IN [h |-> r.h, cxs |-> r.cxs], [h |-> <<>>, cxs |-> <<>>], case.pre)
After == [o |-> "draw", c |-> 1, n |-> "params"]
Emit == PrintT(<<"STATE", ToJson([h |-> case.pre, p |-> << <<case.op>> \o (IF case.op.ctx = 1 THEN <<After>> ELSE <<>>) \o (IF case.op.o = "scan" THEN << [o |-> "state", m |-> 1] >> ELSE <<>>) >>])>>)

(* ---- laws *)
Good(x) == x.res.t # "err"
Run(op) == ApplyS(Start.h, Start.cxs, op)
RevV(v, ax) == LET d == NormAx(ax, Dim(v)) IN StackA(Reverse([ i \in 1..LenA(v, d) |-> SliceA(v, d, i) ]), d)
Per(op, e) == LET I == { g \in 1..Len(op.axes) : Matches(op.axes[g][1], e[1], e[2]) } IN IF I = {} THEN 0 ELSE Min(I)
OnPer(op, h, f(_, _)) ==     \* apply f to every per-layer value
  LET es == StateOf(h, 1) IN
  SetEntries(h, 1, [ j \in 1..Len(es) |-> IF Per(op, es[j]) = 0 THEN es[j] ELSE <<es[j][1], [es[j][2] EXCEPT !.v = IF @[1] = "t" THEN <<"t", [ q \in 1..Len(@[2]) |-> f(@[2][q], op.axes[Per(op, es[j])][2]) ]>> ELSE f(@, op.axes[Per(op, es[j])][2])]>> ]).h
(* running the layers in reverse is running the reversed layers *)
ReverseLaw(op) ==
  LET a == Run(op)
      b == ApplyS(OnPer(op, Start.h, RevV), Start.cxs, [op EXCEPT !.rev = ~@, !.xs = [ j \in 1..Len(op.xs) |-> RevV(op.xs[j], op.inax[j]) ]])
  IN op.ctx = 0 => /\ Good(a) = Good(b)
                   /\ Good(a) => /\ a.res.c = b.res.c /\ a.h = OnPer(op, b.h, RevV)
                                 /\ a.res.ys = [ j \in 1..Len(b.res.ys) |-> RevV(b.res.ys[j], op.outax[j]) ]
(* one layer is one call of the body *)
Unstack(op, h) == OnPer(op, h, LAMBDA v, ax : SliceV(v, ax, 1))
SingleLaw(op) ==
  LET a == Run(op)
      b == Body(Unstack(op, Start.h), 1, <<op.c0>> \o [ j \in 1..Len(op.xs) |-> SliceV(op.xs[j], op.inax[j], 1) ], <<>>, op.prog)
  IN op.ctx = 0 /\ op.meta = "" /\ Good(a) /\ LensOf(Start.h[1].a["w"].v, op.axes[1][2]) = {1} =>
       /\ b.ok /\ a.res.c = b.c
       /\ \A e \in Range(StateOf(Unstack(op, a.h), 1)) : Per(op, e) # 0 => Member(e, StateOf(b.h, 1))
       /\ \A e \in Range(StateOf(a.h, 1)) : e[2].v = N(1) \/ Per(op, e) # 0 \/ Member(e, StateOf(b.h, 1)) \/ Member(e, StateOf(Start.h, 1))
(* kinds and metadata of every existing variable survive, all layers are there *)
KeepLaw(op) ==
  LET a == Run(op) IN Good(a) =>
    \A e \in Range(StateOf(Start.h, 1)) : \E e2 \in Range(StateOf(a.h, 1)) : e2[1] = e[1] /\ e2[2].ty = e[2].ty /\ e2[2].md = e[2].md /\ ShapeOf(e2[2].v) = ShapeOf(e[2].v)
(* broadcast variables are not written *)
BroadcastLaw(op) == LET a == Run(op) IN Good(a) /\ op.bc = FB => a.h[1].a["s"] = Start.h[1].a["s"]
MetaLaw(op) == LET a == Run(op) IN Good(a) /\ op.meta # "" => \A i \in 1..Len(a.res.mds) : ~Member(op.meta, Tail(a.res.mds[i]))
KeysIn(h) == { e \in Range(StateOf(h, 1)) : e[1][Len(e[1])] \in {"k", "d"} }
AllKeys(v) == IF v[1] = "k" THEN {v[2]} ELSE { v[2][i][2] : i \in 1..Len(v[2]) }
DrawLaw(op) ==
  LET a == Run(op) IN Good(a) /\ op.ctx = 1 =>
    /\ \A j \in 1..2 : a.cxs[1][j].cnt = Start.cxs[1][j].cnt + 1
    /\ \A e, f \in KeysIn(a.h) : e # f => AllKeys(e[2].v) \cap AllKeys(f[2].v) = {}
ScanLaw == Profile = "C22" => ReverseLaw(case.op) /\ SingleLaw(case.op) /\ KeepLaw(case.op) /\ BroadcastLaw(case.op) /\ MetaLaw(case.op) /\ DrawLaw(case.op)

InitLaw == Profile = "C23" =>
  LET op == case.op  a == Run(op)  m == a.res.m  es == StateOf(a.h, m)
      alone(i) == Body(Append(<<>>, NewMod("A", 0, <<>>)), 1, op.args,
                       IF op.ctx = 0 THEN <<>> ELSE SplitC(Forked(Start.cxs[1]), op.split, op.len, i), op.prog)
  IN Good(a) =>
     /\ \A e \in Range(es) :
          IF Per(op, e) = 0 THEN Member(e, StateOf(alone(1).h, 1))
          ELSE LET ax == op.axes[Per(op, e)][2]  one(i) == CHOOSE x \in Range(StateOf(alone(i).h, 1)) : x[1] = e[1] IN
               /\ LensOf(e[2].v, ax) = {op.len}
               /\ \A i \in 1..op.len : SliceV(e[2].v, ax, i) = one(i)[2].v
               /\ e[2].ty = one(1)[2].ty
               /\ (op.meta = "" => e[2].md = one(1)[2].md)
               /\ (op.meta # "" => CanRemove(e[2], ax, op.meta) /\ RemoveAxis(e[2], ax).md = one(1)[2].md)
     /\ Len(es) = Len(StateOf(alone(1).h, 1))
     /\ (op.ctx = 1 => /\ \A j \in 1..2 : a.cxs[1][j].cnt = 1
                       /\ \A e \in Range(es) : Per(op, e) # 0 =>
                            Cardinality(AllKeys(e[2].v)) = IF \E t \in AllKeys(e[2].v) : Len(t) = 3 THEN op.len ELSE 1)
Prop == ScanLaw /\ InitLaw
=============================================================================
