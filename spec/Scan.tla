--------------------------------- MODULE Scan ---------------------------------
(* The lifted scan over the module graph of Graph.tla: running a module as a    *)
(* stack of layers (ScanCall) and initialising such a stack (ScanInit).         *)
(*                                                                             *)
(* values: <<"i", n>> scalar, <<"a", seq>> array, <<"k", term>> RNG key,         *)
(* <<"t", seq>> tuple of values (what sow collects).  Metadata values are        *)
(* sequences: sharding is <<"None">> or <<"s", name, ...>>.                      *)
(* A key is the term it was derived by: << <<seed>>, [<<-1, n, i>>,] path >> where *)
(* <<-1, n, i>> is the i-th part of a split into n.                              *)
(*   expr : <<"c", k>> <<"arg", i>> <<"at", path, n>> <<"+", e, e>> <<"*", e, e>>   *)
(*   instr: <<"set", path, n, e>> <<"mkvar", path, n, ty, sh, e>>                *)
(*          <<"sow", path, ty, n, e>> <<"draw", path, n, ty, stream>>            *)
(*          <<"mkmod", path, n, c>> <<"st", path, n, k>> <<"md", path, n>>        *)
(*          <<"raise">> <<"out", e, <<e, ...>> >>                                *)
EXTENDS Graph
CONSTANT Modulus

NoSharding == <<"None">>
BadV == <<"bad">>

RECURSIVE Dim(_)
Dim(v) == CASE v[1] = "i" -> 0 [] v[1] = "k" -> 1 [] v[1] = "a" -> 1 + Dim(v[2][1]) [] OTHER -> 0
NormAx(ax, d) == IF ax < 0 THEN d + ax ELSE ax
RECURSIVE SliceA(_, _, _)
SliceA(v, a, i) == IF a = 0 THEN v[2][i] ELSE <<"a", [ r \in 1..Len(v[2]) |-> SliceA(v[2][r], a - 1, i) ]>>
RECURSIVE LenA(_, _)
LenA(v, a) == IF a = 0 THEN Len(v[2]) ELSE LenA(v[2][1], a - 1)
RECURSIVE StackA(_, _)
StackA(vs, a) == IF a = 0 THEN <<"a", vs>>
                 ELSE <<"a", [ r \in 1..Len(vs[1][2]) |-> StackA([ j \in 1..Len(vs) |-> vs[j][2][r] ], a - 1) ]>>
(* tuples hold one array per element *)
PartsOf(v) == IF v[1] = "t" THEN v[2] ELSE <<v>>
AxisOk(v, ax) == \A p \in Range(PartsOf(v)) : p[1] = "a" /\ NormAx(ax, Dim(p)) \in 0..(Dim(p) - 1)
LensOf(v, ax) == { LenA(p, NormAx(ax, Dim(p))) : p \in Range(PartsOf(v)) }
SliceV(v, ax, i) == IF v[1] = "t" THEN <<"t", [ j \in 1..Len(v[2]) |-> SliceA(v[2][j], NormAx(ax, Dim(v[2][j])), i) ]>>
                    ELSE SliceA(v, NormAx(ax, Dim(v)), i)
StackOk(v, ax) == \A p \in Range(PartsOf(v)) : NormAx(ax, Dim(p) + 1) \in 0..Dim(p)
StackV(vs, ax) == IF vs[1][1] = "t"
                  THEN <<"t", [ j \in 1..Len(vs[1][2]) |-> LET q == [ i \in 1..Len(vs) |-> vs[i][2][j] ] IN StackA(q, NormAx(ax, Dim(q[1]) + 1)) ]>>
                  ELSE StackA(vs, NormAx(ax, Dim(vs[1]) + 1))
RECURSIVE ShapeOf(_)
ShapeOf(v) == CASE v[1] = "i" -> <<>> [] v[1] = "k" -> <<"key">> [] v[1] = "a" -> <<Len(v[2])>> \o ShapeOf(v[2][1])
                [] v[1] = "t" -> <<"t">> \o [ j \in 1..Len(v[2]) |-> ShapeOf(v[2][j]) ]

RECURSIVE Bin(_, _, _)
Bin(o, a, b) ==
  CASE a[1] = "i" /\ b[1] = "i" -> <<"i", (IF o = "+" THEN a[2] + b[2] ELSE a[2] * b[2]) % Modulus>>
    [] a[1] = "a" /\ b[1] = "i" -> <<"a", [ r \in 1..Len(a[2]) |-> Bin(o, a[2][r], b) ]>>
    [] a[1] = "i" /\ b[1] = "a" -> <<"a", [ r \in 1..Len(b[2]) |-> Bin(o, a, b[2][r]) ]>>
    [] a[1] = "a" /\ b[1] = "a" /\ Len(a[2]) = Len(b[2]) /\ Dim(a) = 1 /\ Dim(b) = 1 -> <<"a", [ r \in 1..Len(a[2]) |-> Bin(o, a[2][r], b[2][r]) ]>>
    [] OTHER -> BadV
RECURSIVE EvalS(_, _, _, _)
EvalS(h, id, args, e) ==
  CASE e[1] = "c" -> <<"i", e[2]>>
    [] e[1] = "arg" -> IF e[2] \in 1..Len(args) THEN args[e[2]] ELSE BadV
    [] e[1] = "at" -> LET m == ModAt(h, id, e[2]) IN
         IF m = 0 THEN BadV
         ELSE IF e[3] \in DOMAIN h[m].a /\ h[m].a[e[3]].k # "mod" /\ h[m].a[e[3]].v[1] \in {"i", "a"} THEN h[m].a[e[3]].v ELSE BadV
    [] OTHER -> LET a == EvalS(h, id, args, e[2])  b == EvalS(h, id, args, e[3])
                IN IF a = BadV \/ b = BadV THEN BadV ELSE Bin(e[1], a, b)

(* RNG contexts: sequences of streams [n, key, path, cnt] *)
TermOf(s) == Append(s.key, Append(s.path, s.cnt))
ForkC(cx) == [ i \in 1..Len(cx) |-> [cx[i] EXCEPT !.cnt = @ + 1] ]
Forked(cx) == [ i \in 1..Len(cx) |-> [cx[i] EXCEPT !.path = Append(@, cx[i].cnt), !.cnt = 0] ]
StreamIdx(cx, n) == LET I == { i \in 1..Len(cx) : cx[i].n = n } IN IF I = {} THEN 0 ELSE Min(I)
RECURSIVE RngMatch(_, _)
RngMatch(f, n) ==
  CASE f[1] = "none" -> FALSE [] f[1] = "..." -> TRUE
    [] f[1] \in {"str", "call"} -> f[2] = n
    [] f[1] = "seq" -> \E i \in 1..Len(f[2]) : RngMatch(f[2][i], n)
    [] f[1] = "map" -> \E i \in 1..Len(f[2]) : f[2][i][2] = 1 /\ RngMatch(f[2][i][1], n)
    [] OTHER -> FALSE
SplitC(cx, f, n, i) == [ j \in 1..Len(cx) |-> IF RngMatch(f, cx[j].n) THEN [cx[j] EXCEPT !.key = Append(@, <<-1, n, i>>)] ELSE cx[j] ]
IsPart(v) == v[1] = "k" /\ \E i \in 1..Len(v[2]) : v[2][i] # <<>> /\ v[2][i][1] = -1

NewVar(ty, sh, v) == [k |-> "var", ty |-> ty, md |-> [sharding |-> sh], v |-> v]
SowS(h, id, ty, n, v) ==
  LET a == h[id].a
  IN IF n \notin DOMAIN a THEN [ok |-> TRUE, h |-> [h EXCEPT ![id].a = With(a, n, NewVar(ty, NoSharding, <<"t", <<v>> >>))]]
     ELSE IF a[n].k = "var" /\ a[n].ty = ty /\ a[n].v[1] = "t" THEN [ok |-> TRUE, h |-> [h EXCEPT ![id].a[n].v = <<"t", Append(@[2], v)>>]]
     ELSE [ok |-> FALSE, h |-> h]

StepS(acc, id, args, ins) ==
  IF ~acc.ok \/ acc.done THEN acc
  ELSE IF ins[1] = "raise" THEN [acc EXCEPT !.ok = FALSE]
  ELSE IF ins[1] = "out" THEN
    LET c == EvalS(acc.h, id, args, ins[2])
        ys == [ j \in 1..Len(ins[3]) |-> EvalS(acc.h, id, args, ins[3][j]) ]
    IN IF c = BadV \/ Member(BadV, ys) THEN [acc EXCEPT !.ok = FALSE] ELSE [acc EXCEPT !.c = c, !.ys = ys, !.done = TRUE]
  ELSE
    LET h == acc.h
        fail == [acc EXCEPT !.ok = FALSE]
        m == ModAt(h, id, ins[2])
        v == IF ins[1] \in {"set", "mkvar", "sow"} THEN EvalS(h, id, args, Last(ins)) ELSE <<"none">>
        put(hh, n, x) == LET s == SetAttr(hh, m, n, x) IN IF s.ok THEN [acc EXCEPT !.h = s.h] ELSE fail
    IN IF m = 0 \/ v = BadV THEN fail
       ELSE CASE ins[1] = "set" -> put(h, ins[3], [k |-> "arr", ty |-> "jax", v |-> v])
              [] ins[1] = "mkvar" -> put(h, ins[3], NewVar(ins[4], ins[5], v))
              [] ins[1] = "sow" -> LET s == SowS(h, m, ins[3], ins[4], v) IN IF s.ok THEN [acc EXCEPT !.h = s.h] ELSE fail
              [] ins[1] = "st" -> put(h, ins[3], [k |-> "static", v |-> <<"i", ins[4]>>])
              [] ins[1] = "mkmod" -> put(Append(h, NewMod(ins[4], 0, <<>>)), ins[3], [k |-> "mod", r |-> Len(h) + 1])
              [] ins[1] = "draw" ->
                   LET j == StreamIdx(acc.cx, ins[5]) IN
                   IF j = 0 THEN fail
                   ELSE LET q == put(h, ins[3], NewVar(ins[4], NoSharding, <<"k", TermOf(acc.cx[j])>>))
                        IN [q EXCEPT !.cx[j].cnt = @ + 1]
              [] ins[1] = "md" -> IF ins[3] \in DOMAIN h[m].a /\ h[m].a[ins[3]].k = "var"
                                  THEN [acc EXCEPT !.mds = Append(@, h[m].a[ins[3]].md.sharding)] ELSE fail
Body(h, id, args, cx, prog) ==
  Fold(LAMBDA acc, ins : StepS(acc, id, args, ins),
       [ok |-> TRUE, h |-> h, cx |-> cx, done |-> FALSE, c |-> <<"i", 0>>, ys |-> <<>>, mds |-> <<>>], prog)

----------------------------------------------------------------------------
(* the layer axis in sharding metadata *)
AddAxis(e, ax, name) ==
  IF e.k # "var" \/ e.md.sharding = NoSharding THEN e
  ELSE LET names == Tail(e.md.sharding)
           p == IF ax >= 0 THEN ax ELSE Len(names) + 1 + ax
           full == names \o [ j \in 1..(IF p > Len(names) THEN p - Len(names) ELSE 0) |-> "-" ]
       IN [e EXCEPT !.md.sharding = <<"s">> \o SubSeq(full, 1, p) \o <<name>> \o SubSeq(full, p + 1, Len(full))]
CanRemove(e, ax, name) ==
  IF e.k # "var" \/ e.md.sharding = NoSharding THEN TRUE
  ELSE LET names == Tail(e.md.sharding)  p == NormAx(ax, Len(names)) IN p \in 0..(Len(names) - 1) /\ names[p + 1] = name
RemoveAxis(e, ax) ==
  IF e.k # "var" \/ e.md.sharding = NoSharding THEN e
  ELSE LET names == Tail(e.md.sharding)  p == NormAx(ax, Len(names))
       IN [e EXCEPT !.md.sharding = <<"s">> \o SubSeq(names, 1, p) \o SubSeq(names, p + 2, Len(names))]
MapE(f(_), es) == [ j \in 1..Len(es) |-> <<es[j][1], f(es[j][2])>> ]

Filts(o) == [ g \in 1..Len(o.axes) |-> o.axes[g][1] ] \o <<o.bc, o.cr>>
Sig(es) == [ j \in 1..Len(es) |-> << es[j][1], es[j][2].k, TypeOf(es[j][2]), IF es[j][2].k = "var" THEN es[j][2].md ELSE <<>>, ShapeOf(es[j][2].v) >> ]
OnPaths(es, ps) == SelectSeq(es, LAMBDA e : e[1] \in ps)
PathsOf(es) == { es[j][1] : j \in 1..Len(es) }

(* one layer; s = [b, c, ca]: broadcast state, carried state, carry *)
Layer(h, m, o, G, sl, s, args, cx) ==
  LET d == MergeDef(h, DefOf(h, m), sl \o <<s.b, s.c>>)
      r == Len(h) + 1
      x == Body(d.h, r, <<s.ca>> \o args, cx, o.prog)
      parts == SplitEntries(StateOf(x.h, r), Filts(o))
      na == Len(o.axes)
      axes == [ g \in 1..na |-> IF o.meta = "" THEN parts[g] ELSE MapE(LAMBDA e : AddAxis(e, o.axes[g][2], o.meta), parts[g]) ]
      cout == parts[na + 2]
      cold == OnPaths(cout, PathsOf(s.c))
  IN IF ~d.ok \/ ~x.ok \/ ~x.done THEN [ok |-> FALSE]
     ELSE IF Last(parts) # <<>> \/ Sig(cold) # Sig(s.c) \/ ShapeOf(x.c) # ShapeOf(s.ca) THEN [ok |-> FALSE]
     ELSE [ ok |-> TRUE, axes |-> axes, ca |-> x.c, c |-> cold, ys |-> x.ys, mds |-> x.mds,
            cnew |-> SelectSeq(cout, LAMBDA e : e[1] \notin PathsOf(s.c)),
            bnew |-> SelectSeq(parts[na + 1], LAMBDA e : e[1] \notin PathsOf(s.b)) ]

ScanFail(h, cx) == [h |-> h, cx |-> cx, res |-> ErrR]
ScanCall(h, m, o, cx0) ==
  LET fs == Filts(o)
      parts == SplitEntries(StateOf(h, m), fs)
      na == Len(o.axes)
      nx == Len(o.xs)
      axesOk == /\ \A g \in 1..na : \A j \in 1..Len(parts[g]) : AxisOk(parts[g][j][2].v, o.axes[g][2])
                /\ \A j \in 1..nx : AxisOk(o.xs[j], o.inax[j])
      lens == UNION ({ LensOf(parts[g][j][2].v, o.axes[g][2]) : <<g, j>> \in { q \in (1..na) \X (1..Len(StateOf(h, m))) : q[2] <= Len(parts[q[1]]) } }
                     \cup { LensOf(o.xs[j], o.inax[j]) : j \in 1..nx })
      L == IF lens = {} THEN o.len ELSE Min(lens)
      withCx == o.ctx # 0
      cx1 == IF withCx THEN ForkC(cx0) ELSE cx0
      order == [ k \in 1..L |-> IF o.rev THEN L + 1 - k ELSE k ]
      sliceOk == o.meta = "" \/ \A g \in 1..na : \A j \in 1..Len(parts[g]) : CanRemove(parts[g][j][2], o.axes[g][2], o.meta)
      slices(i) == [ g \in 1..na |-> MapE(LAMBDA e : LET q == IF o.meta = "" THEN e ELSE RemoveAxis(e, o.axes[g][2])
                                                     IN [q EXCEPT !.v = SliceV(@, o.axes[g][2], i)], parts[g]) ]
      inner(i) == IF withCx THEN SplitC(Forked(cx0), o.split, L, i) ELSE <<>>
      args(i) == [ j \in 1..nx |-> SliceV(o.xs[j], o.inax[j], i) ] \o o.args
      layer(i, s) == Layer(h, m, o, parts, slices(i), s, args(i), inner(i))
      step(acc, k) ==
        IF ~acc.ok THEN acc
        ELSE LET i == order[k]
                 r == layer(i, [b |-> acc.b, c |-> acc.c, ca |-> acc.ca])
             IN IF ~r.ok THEN [acc EXCEPT !.ok = FALSE]
                ELSE IF k > 1 /\ (r.cnew # <<>> \/ [ g \in 1..na |-> Sig(r.axes[g]) ] # [ g \in 1..na |-> Sig(acc.outs[1].axes[g]) ] \/ MapSeq(ShapeOf, r.ys) # MapSeq(ShapeOf, acc.outs[1].ys))
                     THEN [acc EXCEPT !.ok = FALSE]
                ELSE [acc EXCEPT !.b = MergeStates(<<@, r.bnew>>), !.c = MergeStates(<<r.c, r.cnew>>), !.ca = r.ca,
                                 !.outs = Append(@, r), !.new = @ \/ r.bnew # <<>> \/ r.cnew # <<>>]
      z == Fold(step, [ok |-> TRUE, b |-> parts[na + 1], c |-> parts[na + 2], ca |-> o.c0, outs |-> <<>>, new |-> FALSE], [ k \in 1..L |-> k ])
      \* with new state the remaining layers are traced even if there are none
      extra == IF z.ok /\ z.new /\ L = 1 THEN layer(1, [b |-> z.b, c |-> z.c, ca |-> z.ca]) ELSE [ok |-> TRUE]
      at(i) == z.outs[IndexOf(i, order)]
      stacked(g) == LET es == z.outs[1].axes[g] IN
        [ j \in 1..Len(es) |-> <<es[j][1], [es[j][2] EXCEPT !.v = StackV([ i \in 1..L |-> at(i).axes[g][j][2].v ], o.axes[g][2])]>> ]
      outOk == /\ \A g \in 1..na : \A j \in 1..Len(z.outs[1].axes[g]) : StackOk(z.outs[1].axes[g][j][2].v, o.axes[g][2])
               /\ \A j \in 1..Len(z.outs[1].ys) : StackOk(z.outs[1].ys[j], o.outax[j])
      ys == [ j \in 1..Len(z.outs[1].ys) |-> StackV([ i \in 1..L |-> at(i).ys[j] ], o.outax[j]) ]
      u == UpdateWith(h, m, [ g \in 1..na |-> stacked(g) ] \o <<z.b, z.c>>)
  IN IF FiltersBad(fs) \/ Last(parts) # <<>> \/ ~axesOk \/ Cardinality(lens) > 1 \/ L = 0 \/ (o.len # 0 /\ o.len # L) THEN ScanFail(h, cx0)
     ELSE IF withCx /\ o.split[1] = "bad" THEN ScanFail(h, cx1)
     ELSE IF ~sliceOk \/ ~z.ok \/ ~extra.ok THEN ScanFail(h, cx1)
     ELSE IF ~outOk \/ ~u.ok THEN ScanFail(h, cx1)
     ELSE [h |-> u.h, cx |-> cx1, res |-> [t |-> "scan", c |-> z.ca, ys |-> ys, mds |-> z.outs[1].mds]]

(* initialisation: m = 0 builds a new module of class o.c, otherwise module m is *)
(* initialised in place                                                         *)
ScanInit(h, o, cx0) ==
  LET fs == Filts(o)
      na == Len(o.axes)
      withCx == o.ctx # 0
      vmapped == withCx \/ na > 0
      cx1 == IF withCx THEN ForkC(cx0) ELSE cx0
      h0 == IF o.m = 0 THEN Append(h, NewMod(o.c, 0, <<>>)) ELSE h
      r == IF o.m = 0 THEN Len(h) + 1 ELSE o.m
      L == IF vmapped THEN o.len ELSE 1
      inner(i) == IF withCx THEN (IF \E j \in 1..Len(cx0) : RngMatch(o.split, cx0[j].n) THEN SplitC(Forked(cx0), o.split, L, i) ELSE Forked(cx0)) ELSE <<>>
      run(i) == Body(h0, r, o.args, inner(i), o.prog)
      x == run(1)
      parts(i) == SplitEntries(StateOf(run(i).h, r), fs)
      p1 == parts(1)
      all == [ i \in 1..L |-> parts(i) ]
      \* unstacked entries may not depend on the layer
      shared == \A g \in {na + 1, na + 2} : \A j \in 1..Len(p1[g]) : \A q \in Range(PartsOf(p1[g][j][2].v)) : ~IsPart(q)
      stackOk == \A g \in 1..na : \A j \in 1..Len(p1[g]) : StackOk(p1[g][j][2].v, o.axes[g][2])
      stacked(g) == [ j \in 1..Len(p1[g]) |->
                        <<p1[g][j][1], LET e == [p1[g][j][2] EXCEPT !.v = StackV([ i \in 1..L |-> all[i][g][j][2].v ], o.axes[g][2])]
                                       IN IF o.meta = "" THEN e ELSE AddAxis(e, o.axes[g][2], o.meta)>> ]
      groups == [ g \in 1..na |-> stacked(g) ] \o <<p1[na + 1], p1[na + 2]>>
      d == DefOf(x.h, r)
      mg == MergeDef(h, d, groups)
      bare == [ j \in 1..Len(x.h) |-> IF j \in Reach(x.h, r) THEN [x.h[j] EXCEPT !.a = [ n \in { y \in DOMAIN @ : ~IsLeaf(@[y]) } |-> @[n] ]] ELSE x.h[j] ]
      u == UpdateWith(bare, r, groups)
      q == Renum(Len(h), u.h, r)
      good(hh) == [h |-> hh, cx |-> cx1, res |-> [t |-> "sinit", m |-> IF o.m = 0 THEN Len(h) + 1 ELSE o.m, mds |-> x.mds]]
  IN IF na > 0 /\ o.len = 0 THEN ScanFail(h, cx0)
     ELSE IF vmapped /\ L = 0 THEN ScanFail(h, cx1)
     ELSE IF o.split[1] = "bad" /\ withCx THEN ScanFail(h, cx1)
     ELSE IF ~x.ok \/ FiltersBad(fs) THEN ScanFail(h, cx1)
     ELSE IF Last(p1) # <<>> \/ (vmapped /\ (~shared \/ ~stackOk)) THEN ScanFail(h, cx1)
     ELSE IF o.m = 0 THEN (IF mg.ok THEN good(mg.h) ELSE ScanFail(h, cx1))
     ELSE IF u.ok THEN good(q.h) ELSE ScanFail(h, cx1)

NewCtx(args) == [ i \in 1..Len(args) |-> [n |-> args[i][1], key |-> << <<args[i][2]>> >>, path |-> <<>>, cnt |-> 0] ]
CxOf(cxs, i) == IF i = 0 THEN <<>> ELSE cxs[i]
PutCx(cxs, i, c) == IF i = 0 THEN cxs ELSE [cxs EXCEPT ![i] = c]
ScanOps == {"ctx", "draw", "scan", "sinit"}
ApplyS(h, cxs, op) ==
  CASE op.o = "ctx" -> [h |-> h, cxs |-> Append(cxs, NewCtx(op.args)), res |-> NoneR]
    [] op.o = "draw" -> LET i == StreamIdx(cxs[op.c], op.n) IN
         IF i = 0 THEN [h |-> h, cxs |-> cxs, res |-> ErrR]
         ELSE [h |-> h, cxs |-> [cxs EXCEPT ![op.c][i].cnt = @ + 1], res |-> ValR(<<"k", TermOf(cxs[op.c][i])>>)]
    [] op.o = "scan" -> LET r == ScanCall(h, op.m, op, CxOf(cxs, op.ctx)) IN [h |-> r.h, cxs |-> PutCx(cxs, op.ctx, r.cx), res |-> r.res]
    [] op.o = "sinit" -> LET r == ScanInit(h, op, CxOf(cxs, op.ctx)) IN [h |-> r.h, cxs |-> PutCx(cxs, op.ctx, r.cx), res |-> r.res]
    [] OTHER -> LET r == Apply(h, <<>>, op) IN [h |-> r.h, cxs |-> cxs, res |-> r.res]
=============================================================================
