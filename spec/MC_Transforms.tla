---------------------------- MODULE MC_Transforms ----------------------------
(* Every small module graph with every small program under every stack of       *)
(* transformations: the laws of C19-C21 and C24, and the scripts to replay.     *)
EXTENDS Transforms, Json, IOUtils
CONSTANTS Profile, NMods, MaxAttrs, MNames, Rich
VARIABLES heap, hist

MD == [sharding |-> "None"]
Var(ty, v) == [k |-> "var", ty |-> ty, md |-> MD, v |-> IntV(v)]
Ref(r) == [k |-> "mod", r |-> r]
St(v) == [k |-> "static", v |-> IntV(v)]
ClassOf(j) == IF j = 2 THEN "B" ELSE IF j = 3 THEN "C" ELSE "A"
Entries == { Ref(r) : r \in 1..NMods } \cup { Var("Param", 2), IF Profile = "C20" THEN St(-2) ELSE St(3) }
           \cup (IF Profile = "C20" THEN { St(-1) } ELSE {})
           \cup (IF Rich THEN { Var("BatchStat", 4), [k |-> "arr", ty |-> "jax", v |-> IntV(5)] } ELSE {})
NAttrs(h) == FoldSet(LAMBDA j, s : s + Cardinality(DOMAIN h[j].a), 0, 1..Len(h))
BuildOps(h) ==
  IF Len(h) < NMods THEN { [o |-> "new", c |-> ClassOf(Len(h) + 1)] }
  ELSE IF NAttrs(h) >= MaxAttrs THEN {}
  ELSE { [o |-> "set", m |-> j, n |-> n, x |-> x] : j \in 1..NMods, n \in MNames, x \in Entries }
Fresh(h, op) == IF op.o = "new" THEN TRUE ELSE op.n \notin DOMAIN h[op.m].a
Init == heap = <<>> /\ hist = <<>>
Next == \E op \in BuildOps(heap) : Fresh(heap, op) /\ heap' = Apply(heap, <<>>, op).h /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_<<heap, hist>>
View == heap
Full == Len(heap) = NMods

(* programs: one or two instructions over the paths that exist, then a result *)
Paths == { <<>> } \cup { <<n>> : n \in MNames }
NumsIn(h) == { <<"at", p, n>> : p \in { q \in Paths : ModAt(h, 1, q) # 0 }, n \in MNames }
OkNum(h, e) == LET m == ModAt(h, 1, e[2]) IN e[3] \in DOMAIN h[m].a /\ h[m].a[e[3]].k # "mod" /\ IsInt(h[m].a[e[3]].v)
Reads(h) == { e \in NumsIn(h) : OkNum(h, e) }
Instrs(h) ==
  UNION { { <<"set", r[2], r[3], <<"+", <<"*", r, r>>, <<"arg", 1>> >> >>, <<"set", r[2], r[3], <<"c", 6>> >> } : r \in Reads(h) }
  \cup { <<"sow", p, "Intermediate", "h", <<"arg", 1>> >> : p \in { q \in Paths : ModAt(h, 1, q) # 0 } }
  \cup { <<"mkvar", p, "v", "Param", <<"+", <<"arg", 1>>, <<"c", 1>> >> >> : p \in { q \in Paths : ModAt(h, 1, q) # 0 } }
Rets(h) == { <<"ret", <<"*", r, <<"+", r, <<"arg", 1>> >> >> >> : r \in Reads(h) } \cup { <<"ret", <<"arg", 1>> >> }
Progs(h) == { <<i, j>> : i \in Instrs(h), j \in Rets(h) } \cup (IF Rich THEN { <<i, i2, j>> : i, i2 \in Instrs(h), j \in Rets(h) } ELSE {})
Call(ws, p) == [o |-> "call", m |-> 1, ws |-> ws, args |-> <<3>>, sa |-> <<>>, aux |-> FALSE, prog |-> p]
Stacks == CASE Profile = "C19" -> { <<"jit">>, <<"jit0">>, <<"jit", "jit">> }
            [] Profile = "C24" -> { <<"remat">>, <<"jit", "remat">>, <<"remat", "jit">>, <<"remat", "remat">> }
            [] OTHER -> {}
Grad(f, st, ws, p) == [o |-> "grad", m |-> 1, f |-> f, st |-> st, aux |-> FALSE, ws |-> ws, args |-> <<3>>, prog |-> p]
FP == <<"type", "Param">>
FV == <<"type", "Variable">>
Opaque(h, mu) == \E i \in 1..Len(mu) : LET op == mu[i] IN
  i = 1 /\ op.o = "set" /\ op.x.k = "mod" /\ op.n \in DOMAIN h[op.m].a /\ IsContainer(h[op.m].a[op.n])
AllMutations(h) ==
  { <<[o |-> "set", m |-> j, n |-> n, x |-> x]>> : j \in 1..NMods, n \in MNames, x \in Entries \cup { IF Profile = "C20" THEN St(-1) ELSE St(4), Var("BatchStat", 2), [Var("Param", 7) EXCEPT !.md = [sharding |-> "(x)"]] } }
  \cup { <<[o |-> "del", m |-> j, n |-> n]>> : j \in 1..NMods, n \in MNames }
  \cup { <<[o |-> "del", m |-> j, n |-> n], [o |-> "set", m |-> j, n |-> n, x |-> x]>> : j \in 1..NMods, n \in MNames,
           x \in { Var("Param", 7), Var("BatchStat", 2), [Var("Param", 2) EXCEPT !.md = [sharding |-> "(x)"]], [k |-> "arr", ty |-> "jax", v |-> IntV(2)], St(3) } }
Mutations(h) == { mu \in AllMutations(h) : ~Opaque(h, mu) }
J(f, st) == [o |-> "jcall", f |-> f, m |-> 1, st |-> st, args |-> <<3>>, prog |-> << <<"ret", <<"sum">> >> >>]
Probes(h) ==
  CASE Profile \in {"C19", "C24"} ->
         { <<Call(ws, p)>> : ws \in Stacks, p \in Progs(h) }
         \cup (IF Profile = "C24" THEN { <<Grad(FP, TRUE, <<"remat">>, p)>> : p \in Progs(h) } ELSE {})
    [] Profile = "C20" -> { <<J(1, TRUE), J(1, TRUE)>> \o mu \o <<J(1, TRUE), J(1, TRUE)>> : mu \in Mutations(h) }
    [] Profile = "C21" -> { <<Grad(f, st, <<>>, p)>> : f \in {FP, FV}, st \in {TRUE, FALSE}, p \in Progs(h) }
Emit == Full => PrintT(<<"STATE", ToJson([h |-> hist, p |-> SetToSeq(Probes(heap))])>>)

(* laws *)
Good(x) == x.res.t # "err"
St0(h) == PlainHeap(h)
SameState(h1, h2) == StateOf(h1, 1) = StateOf(h2, 1)
StaticSet(h, p) == \E i \in 1..Len(p) : p[i][1] = "set" /\ h[ModAt(h, 1, p[i][2])].a[p[i][3]].k # "var"
C19Law == Full /\ Profile = "C19" =>
  \A p \in Progs(heap) :
    LET eager == ApplyT(heap, <<>>, <<>>, Call(<<>>, p))
        jit == ApplyT(heap, <<>>, <<>>, Call(<<"jit">>, p))
        jit0 == ApplyT(heap, <<>>, <<>>, Call(<<"jit0">>, p))
    IN /\ jit.res = eager.res /\ jit0.res = eager.res
       /\ (Good(eager) => jit0.h = heap)
       /\ (Good(eager) /\ ~StaticSet(heap, p) => jit.h = eager.h)
C24Law == Full /\ Profile = "C24" =>
  \A p \in Progs(heap), ws \in Stacks : ApplyT(heap, <<>>, <<>>, Call(ws, p)) = ApplyT(heap, <<>>, <<>>, Call(<<"jit">>, p))
C21Law == Full /\ Profile = "C21" =>
  \A p \in Progs(heap) :
    LET g == ApplyT(heap, <<>>, <<>>, Grad(FP, TRUE, <<>>, p))
        j == ApplyT(heap, <<>>, <<>>, Call(<<"jit">>, p))
        es == SplitEntries(StateOf(heap, 1), <<FP>>)[1]
    IN Good(g) => /\ Len(g.res.ss[1]) = Len(es)
                  /\ \A i \in 1..Len(es) : g.res.ss[1][i][1] = es[i][1] /\ g.res.ss[1][i][2].ty = es[i][2].ty /\ g.res.ss[1][i][2].md = es[i][2].md
                  /\ g.h = j.h
(* two structures share compiled code exactly when they differ in numbers only *)
C20Law == Full /\ Profile = "C20" =>
  \A mu \in Mutations(heap) :
    LET h2 == Fold(LAMBDA hh, op : Apply(hh, <<>>, op).h, heap, mu)
    IN KeyOf(heap, 1) = KeyOf(h2, 1) <=>
         LET z(h) == [ i \in 1..Len(Canon(h, 1)) |-> [Canon(h, 1)[i] EXCEPT !.a = [ n \in DOMAIN @ |->
                          IF @[n].k \in {"var", "arr"} THEN [@[n] EXCEPT !.v = IntV(0)] ELSE @[n] ]] ]
         IN z(heap) = z(h2)
Prop == C19Law /\ C20Law /\ C21Law /\ C24Law
=============================================================================
