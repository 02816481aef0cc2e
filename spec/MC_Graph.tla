------------------------------- MODULE MC_Graph -------------------------------
(* Exhaustive exploration of Graph.tla within small constants.  Every heap      *)
(* that BuildOps can construct is visited; in each one                           *)
(*   - the property formulas of the chosen profile are evaluated (invariants),   *)
(*   - Emit prints the operations that build the heap and the probes (sequences  *)
(*     of operations) the profile performs in it.  The harness performs them on   *)
(*     the real library, and TraceGraph judges what it observed.                 *)
EXTENDS Graph, Json, IOUtils

CONSTANTS Profile,     \* which property
          NMods,       \* modules that exist
          MaxAttrs,    \* total number of attributes
          MNames,      \* attribute names
          Rich         \* TRUE: more kinds of entries

VARIABLES heap, hist

MD == [sharding |-> "None"]
MD2 == [sharding |-> "(x,y)", tag |-> "t"]
Var(ty, v) == [k |-> "var", ty |-> ty, md |-> MD, v |-> IntV(v)]
VarM(ty, v, md) == [k |-> "var", ty |-> ty, md |-> md, v |-> IntV(v)]
Arr(v) == [k |-> "arr", ty |-> "np", v |-> IntV(v)]
St(v) == [k |-> "static", v |-> IntV(v)]
CSt(v) == [k |-> "cstatic", v |-> IntV(v)]
Ref(r) == [k |-> "mod", r |-> r]

ClassOf(j) == IF j = 2 THEN "B" ELSE IF j = 3 THEN "C" ELSE "A"
Entries ==
  { Ref(r) : r \in 1..NMods }
  \cup {Var("Param", 1)}
  \cup (IF Profile = "C06" THEN {St(1), St(2)} \cup (IF Rich THEN {CSt(1)} ELSE {}) ELSE {St(1)})
  \cup (IF Profile \in {"C01", "C02", "C05", "C11", "C04"} THEN {Var("BatchStat", 2)} ELSE {})
  \cup (IF Rich /\ Profile # "C06" THEN {Arr(3), CSt(4), VarM("MyParam", 5, MD2)} ELSE {})
  \cup (IF Profile = "C07" THEN {Arr(3), CSt(4), VarM("MyParam", 5, MD2)} ELSE {})
  \cup (IF Profile = "C09" THEN {[Var("Intermediate", 1) EXCEPT !.v = TupV(<<IntV(1)>>)], Var("Intermediate", 2), Arr(3)} ELSE {})

NAttrs(h) == FoldSet(LAMBDA j, s : s + Cardinality(DOMAIN h[j].a), 0, 1..Len(h))

BuildOps(h) ==
  IF Len(h) < NMods THEN { [o |-> "new", c |-> ClassOf(Len(h) + 1)] }
  ELSE IF NAttrs(h) >= MaxAttrs THEN {}
  ELSE { [o |-> "set", m |-> j, n |-> n, x |-> x] :
           j \in 1..NMods, n \in MNames, x \in Entries }
Fresh(h, op) == IF op.o = "new" THEN TRUE ELSE op.n \notin DOMAIN h[op.m].a

Init == heap = <<>> /\ hist = <<>>
Next == \E op \in BuildOps(heap) :
          /\ Fresh(heap, op)
          /\ heap' = Apply(heap, <<>>, op).h
          /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_<<heap, hist>>
View == heap

Full(h) == Len(h) = NMods

----------------------------------------------------------------------------
(* Filters and update states used by the probes *)
FP == <<"type", "Param">>
FB == <<"type", "BatchStat">>
FV == <<"type", "Variable">>
FE == <<"...">>
FN == <<"none">>
FLists == { <<FE>>, <<FP, FE>>, <<<<"not", FP>>, FP>>, <<<<"path", "a">>, FB, FE>>, <<<<"tuple", <<FB, <<"under", "b">>>>>>, FE>> }
PopLists == { <<FE>>, <<FP>>, <<FB>>, <<FB, FP>>, <<<<"path", "a">>>>, <<FN>>, <<<<"path", "b">>, FE>> }

Rest == 1..NMods
Prog1 == << <<"set", <<>>, "a", <<"+", <<"c", 5>>, <<"arg", 1>>>>>>, <<"ret", <<"arg", 1>>>> >>
Prog2 == << <<"mkvar", <<>>, "c", "Cache", <<"c", 7>>>>, <<"ret", <<"at", <<>>, "c">>>> >>
Prog3 == << <<"mkmod", <<>>, "b", "C">>, <<"sow", <<"b">>, "Intermediate", "h", <<"arg", 2>>>>, <<"ret", <<"c", 1>>>> >>
Prog4 == << <<"set", <<>>, "b", <<"c", 9>>>>, <<"raise">> >>
ProgD == << <<"del", <<>>, "a">>, <<"ret", <<"at", <<>>, "b">>>> >>
Progs == {Prog1, Prog2, Prog3, Prog4, ProgD}
Accs == { <<>>, << <<"attr", "a">> >>, << <<"attr", "b">>, <<"attr", "a">> >>, << <<"attr", "a">>, <<"attr", "a">>, <<"attr", "b">> >> }

CallOp(o, acc, prog, direct) == [o |-> o, acc |-> acc, args |-> <<3, 4>>, prog |-> prog, direct |-> direct]

UpdStates == {
  << <<"a">>, Var("Param", 11) >>, << <<"b">>, Var("BatchStat", 12) >>,
  << <<"a", "a">>, Var("Param", 13) >>, << <<"b", "a">>, Var("Param", 14) >>,
  << <<"c">>, VarM("MyParam", 15, MD2) >>, << <<"a", "b">>, Var("BatchStat", 16) >>,
  << <<"b", "c">>, Var("Cache", 17) >>, << <<"a">>, Var("BatchStat", 18) >>, << <<"b">>, Arr(19) >> }

(* two different paths of one update must not name the same slot, and an update *)
(* must not replace a submodule: the property says nothing about those           *)
SlotOf(h, p) == << ModAt(h, 1, Front(p)), Last(p) >>
UpdOk(h, es) ==
  /\ \A j \in 1..Len(es) :
       LET s == SlotOf(h, es[j][1]) IN
       /\ s[1] # 0
       /\ (s[2] \in DOMAIN h[s[1]].a => h[s[1]].a[s[2]].k # "mod")
  /\ \A i, j \in 1..Len(es) : es[i][1] # es[j][1] => SlotOf(h, es[i][1]) # SlotOf(h, es[j][1])
UpdSeqs == { <<x>> : x \in UpdStates } \cup { <<x, y>> : x, y \in UpdStates }
Smk(es) == [o |-> "smk", es |-> es, how |-> "map"]
RefS(n) == [ j \in 1..n |-> <<j, 1>> ]

SetVals == { Var("Param", 21), Var("BatchStat", 22), VarM("Param", 23, MD2), VarM("MyParam", 24, MD2),
             Arr(25), St(26), CSt(27), [k |-> "var", ty |-> "Node", md |-> <<>>, v |-> IntV(28)] }

Probes(h) ==
  IF ~Full(h) THEN {} ELSE
  CASE Profile = "C01" ->
         { << [o |-> "clone", m |-> 1] >>, << [o |-> "def", m |-> 1], [o |-> "state", m |-> 1],
              [o |-> "merge", d |-> 1, ss |-> << <<2, 1>> >>] >> }
         \cup { << [o |-> "part", m |-> 1, fs |-> fs], [o |-> "pmerge", p |-> 1] >> : fs \in FLists }
         \cup { << [o |-> "part", m |-> 1, fs |-> <<FP, <<"path", "b">>, FE>>],
                   [o |-> "merge", d |-> 1, ss |-> [ j \in 1..3 |-> <<1, q[j]>> ]] >> :
                q \in { f \in [1..3 -> 1..3] : f[1] # f[2] /\ f[2] # f[3] /\ f[1] # f[3] } }
    [] Profile = "C02" ->
         { << [o |-> "state", m |-> 1], [o |-> "set", m |-> j, n |-> "a", x |-> Var("Param", 9)],
              [o |-> "set", m |-> j, n |-> "c", x |-> St(9)], [o |-> "state", m |-> 1],
              [o |-> "upd", m |-> 1, src |-> [t |-> "states", ss |-> << <<1, 1>> >>]] >> : j \in 1..NMods }
         \cup { << [o |-> "state", m |-> j] >> : j \in 1..NMods }
    [] Profile = "C03" ->
         { << [o |-> "part", m |-> 1, fs |-> fs] >> : fs \in FLists \cup { <<FP>>, <<FB, FP>>, <<FE, FP>>, <<FP, FE, FB>> } }
         \cup { << [o |-> "filt", m |-> 1, fs |-> fs] >> : fs \in FLists \cup PopLists \cup { <<FE, FP>> } }
    [] Profile = "C04" ->
         { << Smk(es), [o |-> "upd", m |-> 1, src |-> [t |-> "states", ss |-> << <<1, 1>> >>]] >> :
              es \in { x \in UpdSeqs : UpdOk(h, x) } }
         \cup { << Smk(<<x>>), Smk(<<y>>), [o |-> "upd", m |-> 1, src |-> [t |-> "states", ss |-> RefS(2)]] >> :
              x \in { z \in UpdStates : UpdOk(h, <<z>>) /\ Len(z[1]) = 1 },
              y \in { z \in UpdStates : UpdOk(h, <<z>>) /\ Len(z[1]) = 1 } }
         \cup { << [o |-> "part", m |-> 1, fs |-> <<FP, FE>>], [o |-> "set", m |-> 1, n |-> n, x |-> St(5)],
                   [o |-> "upd", m |-> 1, src |-> [t |-> "pure", p |-> 1]] >> :
                n \in { x \in DOMAIN h[1].a : h[1].a[x].k # "mod" } }
         \cup { << [o |-> "clone", m |-> 1], [o |-> "upd", m |-> 1, src |-> [t |-> "mod", m |-> Len(h) + 1]] >> }
    [] Profile = "C05" ->
         { << [o |-> "pop", m |-> 1, fs |-> fs],
              [o |-> "upd", m |-> 1, src |-> [t |-> "states", tup |-> 1,
                   ss |-> [ j \in 1..Len(fs) |-> <<1, j>> ]]] >> : fs \in PopLists }
    [] Profile = "C06" ->
         { << [o |-> "def", m |-> i], [o |-> "def", m |-> j], [o |-> "deq", d1 |-> 1, d2 |-> 2],
              [o |-> "dflat", d |-> 1] >> : i \in 1..NMods, j \in 1..NMods }
         \cup { << [o |-> "def", m |-> 1], [o |-> "clone", m |-> 1], [o |-> "def", m |-> Len(h) + 1],
                   [o |-> "deq", d1 |-> 1, d2 |-> 2] >> }
         \cup { << [o |-> "def", m |-> 1], [o |-> "set", m |-> j, n |-> n, x |-> x], [o |-> "def", m |-> 1],
                   [o |-> "deq", d1 |-> 1, d2 |-> 2] >> :
                j \in 1..NMods, n \in MNames \cup {"c"}, x \in {St(1), St(2), Var("Param", 7), Ref(1), Ref(2)} }
    [] Profile = "C07" ->
         { << [o |-> "set", m |-> j, n |-> n, x |-> x], [o |-> "get", m |-> j, n |-> n] >> :
              j \in 1..NMods, n \in MNames, x \in SetVals }
         \cup { << [o |-> "set", m |-> i, n |-> q, x |-> h[j].a[n], from |-> <<j, n>>], [o |-> "set", m |-> i, n |-> q, x |-> St(9)],
                   [o |-> "get", m |-> j, n |-> n] >> :
                 q \in MNames, i \in 1..NMods, <<j, n>> \in { x \in (1..NMods) \X MNames : x[2] \in DOMAIN h[x[1]].a /\ h[x[1]].a[x[2]].k = "var" } }
         \cup { << [o |-> "get", m |-> j, n |-> n], [o |-> "del", m |-> j, n |-> n], [o |-> "get", m |-> j, n |-> n] >> :
              j \in 1..NMods, n \in MNames }
    [] Profile = "C08" ->
         { << CallOp(o, acc, p, 0) @@ [m |-> 1, hold |-> 1], CallOp(o, <<>>, q, 1) @@ [m |-> 1, hold |-> 1],
              CallOp(o, acc, p, 0) @@ [m |-> 1, hold |-> 1] >> : acc \in Accs, p \in {Prog1, Prog3}, q \in Progs, o \in {"apply", "init"} }
         \cup { << [o |-> "part", m |-> 1, fs |-> <<FP, FE>>], CallOp(o, acc, p, 0) @@ [p |-> 1, hold |-> 1],
                   CallOp(o, <<>>, q, 0) @@ [p |-> 1, hold |-> 1] >> : acc \in Accs, p \in {Prog1, Prog3}, q \in {Prog1, Prog2}, o \in {"papply", "pcall"} }
         \cup { << [o |-> "part", m |-> 1, fs |-> <<FP, FE>>],
                   CallOp("dapply", acc, p, 1) @@ [d |-> 1, ss |-> << <<1, 2>>, <<1, 1>> >>, hold |-> 1],
                   CallOp("dapply", acc, Prog1, 1) @@ [d |-> 1, ss |-> << <<1, 2>>, <<1, 1>> >>, hold |-> 1] >> :
                 acc \in Accs, p \in {Prog1, Prog3} }
         \cup { << CallOp("apply", acc, p, d) @@ [m |-> 1] >> : acc \in Accs, p \in Progs, d \in {0, 1} }
         \cup { << [o |-> "part", m |-> 1, fs |-> <<FP, FE>>], CallOp(o, acc, p, 0) @@ [p |-> 1] >> :
                 acc \in Accs, p \in {Prog1, Prog3, ProgD}, o \in {"papply", "pcall"} }
         \cup { << [o |-> "part", m |-> 1, fs |-> <<FP, FE>>],
                   CallOp("dapply", acc, p, 1) @@ [d |-> 1, ss |-> << <<1, 2>>, <<1, 1>> >>] >> :
                 acc \in Accs, p \in {Prog1, Prog2} }
         \cup { << [o |-> "clone", m |-> 1], CallOp("run", acc, p, 0) @@ [m |-> Len(h) + 1] >> : acc \in Accs, p \in Progs }
    [] Profile = "C09" ->
         { << [o |-> "sow", m |-> j, ty |-> ty, n |-> n, v |-> IntV(31)],
              [o |-> "sow", m |-> j, ty |-> "Intermediate", n |-> n, v |-> IntV(32)],
              [o |-> "sow", m |-> j, ty |-> ty, n |-> n, v |-> IntV(33)],
              [o |-> "get", m |-> j, n |-> n] >> :
              j \in 1..NMods, ty \in {"Intermediate", "Cache"}, n \in MNames \cup {"c"} }
         \cup { << [o |-> "sow", m |-> j, ty |-> ty, n |-> n, v |-> IntV(31)], [o |-> "sow", m |-> j, ty |-> ty2, n |-> n, v |-> IntV(32)],
                   [o |-> "get", m |-> j, n |-> n] >> :
                 j \in 1..NMods, ty \in {"Intermediate", "MyParam"}, ty2 \in {"Variable", "Param"}, n \in MNames \cup {"c"} }
         \cup { << [o |-> "sow", m |-> 1, ty |-> "Intermediate", n |-> "c", v |-> IntV(31)],
                   [o |-> "pop", m |-> 1, fs |-> << <<"type", "Intermediate">> >>],
                   [o |-> "sow", m |-> 1, ty |-> "Intermediate", n |-> "c", v |-> IntV(32)] >> }
    [] Profile = "C10" ->
         { << [o |-> "each", m |-> j, c |-> c] >> : j \in 1..NMods, c \in {"Module", "A", "B", "C"} }
         \cup { << CallOp("init", acc, p, 0) @@ [m |-> 1] >> : acc \in Accs, p \in Progs }
    [] Profile = "C11" ->
         { << [o |-> "part", m |-> 1, fs |-> fs], [o |-> "pget", p |-> 1],
              [o |-> "pfilt", p |-> 1, fs |-> gs], [o |-> "ppart", p |-> 1, fs |-> gs \o <<FE>>],
              [o |-> "pmerge", p |-> 1], [o |-> "ppop", p |-> 1, fs |-> gs] >> :
              fs \in {<<>>, <<FP, FE>>}, gs \in { <<FP>>, <<FB, FP>>, <<<<"path", "a">>>> } }
         \cup { << [o |-> "part", m |-> 1, fs |-> fs], Smk(<<x>>),
                   [o |-> "pupd", p |-> 1, src |-> [t |-> "states", ss |-> << <<2, 1>> >>]] >> :
              fs \in {<<>>, <<FP, FE>>}, x \in UpdStates }
    [] Profile = "C36" ->
         { << [o |-> o, m |-> j], [o |-> "set", m |-> Len(h) + 1, n |-> "c", x |-> St(5)],
              [o |-> "set", m |-> j, n |-> "d", x |-> Ref(Len(h) + 1)],
              [o |-> "state", m |-> j], [o |-> "clone", m |-> j], [o |-> "each", m |-> j, c |-> "Module"] >> :
            o \in {"copy", "deepcopy", "pickle"}, j \in 1..NMods }
    [] OTHER -> {}

Emit == Full(heap) => PrintT(<<"STATE", ToJson([h |-> hist, p |-> SetToSeq(Probes(heap))])>>)

----------------------------------------------------------------------------
(* The properties, over the specification *)
RoundTrip ==
  LET c == MergeDef(heap, DefOf(heap, 1), <<StateOf(heap, 1)>>)
  IN /\ c.ok
     /\ Canon(c.h, Len(heap) + 1) = Canon(heap, 1)
     /\ SubSeq(c.h, 1, Len(heap)) = heap
     /\ Reach(c.h, Len(heap) + 1) \cap (1..Len(heap)) = {}
     /\ \A fs \in FLists :
          LET p == PartitionEntries(StateOf(heap, 1), fs)
          IN p.ok => MergeDef(heap, DefOf(heap, 1), Reverse(p.ss)) = c

Snapshot ==
  LET es == StateOf(heap, 1)
      w == Walk(heap, 1)
  IN /\ \A i, j \in 1..Len(es) : i < j => PathLess(es[i][1], es[j][1])
     /\ NoDup(w.ids) /\ NoDup(w.ps)
     /\ \A j \in 1..Len(w.ids) : ModAt(heap, 1, w.ps[j]) = w.ids[j]
     \* exactly the leaves of the distinct reachable modules
     /\ { << ModAt(heap, 1, Front(es[j][1])), Last(es[j][1]), es[j][2] >> : j \in 1..Len(es) }
          = UNION { { << m, n, heap[m].a[n] >> : n \in { x \in DOMAIN heap[m].a : IsLeaf(heap[m].a[x]) } } :
                    m \in Reach(heap, 1) }
     /\ Len(es) = FoldSet(LAMBDA m, s : s + Cardinality({ x \in DOMAIN heap[m].a : IsLeaf(heap[m].a[x]) }),
                          0, Reach(heap, 1))

FiltersSplit ==
  LET es == StateOf(heap, 1) IN
  \A fs \in FLists \cup PopLists :
    LET ps == SplitEntries(es, fs)
        idx(e) == { k \in 1..Len(ps) : Member(e, ps[k]) }
    IN /\ \A j \in 1..Len(es) : Cardinality(idx(es[j])) = 1
       /\ \A j \in 1..Len(es), k \in 1..Len(fs) :
            (Member(es[j], ps[k])) <=>
              (Matches(fs[k], es[j][1], es[j][2]) /\ \A q \in 1..(k-1) : ~Matches(fs[q], es[j][1], es[j][2]))
       /\ FoldSeq(LAMBDA s, n : n + Len(s), 0, ps) = Len(es)

UpdateExact ==
  \A es \in { x \in UpdSeqs : UpdOk(heap, x) } :
    LET u == UpdateWith(heap, 1, <<NormEntries(es)>>)
        slots == { SlotOf(heap, es[j][1]) : j \in 1..Len(es) }
    IN u.ok =>
         /\ \A m \in 1..Len(heap) : \A n \in (DOMAIN heap[m].a \cup DOMAIN u.h[m].a) :
              (<<m, n>> \notin slots) =>
                 n \in DOMAIN heap[m].a /\ n \in DOMAIN u.h[m].a /\ u.h[m].a[n] = heap[m].a[n]
         /\ \A j \in 1..Len(es) :
              LET s == SlotOf(heap, es[j][1])
                  last == CHOOSE i \in 1..Len(es) : es[i][1] = es[j][1] /\
                             \A q \in (i+1)..Len(es) : es[q][1] # es[j][1]
              IN /\ u.h[s[1]].a[s[2]].v = es[last][2].v
                 /\ (s[2] \in DOMAIN heap[s[1]].a /\ heap[s[1]].a[s[2]].k = "var" =>
                       u.h[s[1]].a[s[2]] = [heap[s[1]].a[s[2]] EXCEPT !.v = es[last][2].v])

PopExact ==
  \A fs \in PopLists :
    LET p == PopFrom(heap, 1, fs)
        es == StateOf(heap, 1)
        back == SetEntries(p.h, 1, MergeStates(p.ss))
    IN /\ back.ok /\ back.h = heap
       /\ DefOf(p.h, 1) = DefOf(heap, 1)
       /\ MergeStates(p.ss \o <<StateOf(p.h, 1)>>) = es
       /\ \A j \in 1..Len(p.ss) : \A i \in 1..Len(p.ss[j]) : FirstMatch(fs, p.ss[j][i][1], p.ss[j][i][2]) = j
       /\ \A i \in 1..Len(StateOf(p.h, 1)) : FirstMatch(fs, StateOf(p.h, 1)[i][1], StateOf(p.h, 1)[i][2]) = 0

StripLeaves(c) == [ j \in 1..Len(c) |-> [ c |-> c[j].c,
                      a |-> [ n \in { x \in DOMAIN c[j].a : ~IsLeaf(c[j].a[x]) } |-> c[j].a[n] ] ] ]
DefIsStructure ==
  \A i, j \in 1..NMods :
     DefEq(DefOf(heap, i), DefOf(heap, j)) <=> (StripLeaves(Canon(heap, i)) = StripLeaves(Canon(heap, j)))

AssignLaws ==
  \A j \in 1..NMods : \A n \in MNames : \A x \in SetVals :
    LET s == SetAttr(heap, j, n, x)
        old == heap[j].a
    IN /\ (~s.ok => s.h = heap /\ n \in DOMAIN old /\ IsContainer(old[n]) /\ IsContainer(x) /\ ~Equiv(old[n], x))
       /\ (s.ok => s.h[j].a[n].v = x.v)
       /\ (s.ok /\ n \in DOMAIN old /\ IsContainer(old[n]) =>
             s.h[j].a[n] = [old[n] EXCEPT !.v = x.v])
       /\ \A q \in (DOMAIN old) \ {n} : s.h[j].a[q] = old[q]

CallsPure ==
  \A acc \in Accs : \A p \in Progs :
    LET c == CallOn(heap, DefOf(heap, 1), <<StateOf(heap, 1)>>, acc, <<3, 4>>, p)
        cl == MergeDef(heap, DefOf(heap, 1), <<StateOf(heap, 1)>>)
        tgt == Target(cl.h, Len(heap) + 1, acc)
        direct == Exec(cl.h, tgt, <<3, 4>>, p)
    IN c.ok => /\ SubSeq(c.h, 1, Len(heap)) = heap
               /\ Reach(c.h, c.r) \cap (1..Len(heap)) = {}
               /\ direct.ok /\ direct.out = c.out
               /\ Canon(direct.h, Len(heap) + 1) = Canon(c.h, c.r)

SowLaws ==
  \A j \in 1..NMods : \A n \in MNames : \A ty \in {"Intermediate", "Cache"} :
    LET s == SowInto(heap, j, ty, n, IntV(5)) IN
      /\ (~s.ok => s.h = heap)
      /\ (s.ok => /\ Last(s.h[j].a[n].v[2]) = IntV(5)
                  /\ s.h[j].a[n].ty = ty
                  /\ (n \in DOMAIN heap[j].a => Front(s.h[j].a[n].v[2]) = heap[j].a[n].v[2]))

TraverseOnce == NoDup(Walk(heap, 1).ids) /\
  LET closure == Reach(heap, 1) IN
    \A m \in closure : \A n \in DOMAIN heap[m].a : heap[m].a[n].k = "mod" => heap[m].a[n].r \in closure

PureAgrees ==
  \A fs \in PopLists :
    LET es == StateOf(heap, 1)
        p == PopFrom(heap, 1, fs)
        parts == SplitEntries(es, fs)
        \* popping from the split module and merging = popping from the module
        m == MergeDef(heap, DefOf(heap, 1), <<Last(parts)>>)
    IN /\ Front(parts) = p.ss
       /\ Canon(m.h, Len(heap) + 1) = Canon(p.h, 1)

Copies ==
  LET d == DeepCopy(heap, 1)
      s == CopyMod(heap, 1)
  IN /\ Canon(d, Len(heap) + 1) = Canon(heap, 1)
     /\ Reach(d, Len(heap) + 1) \cap (1..Len(heap)) = {}
     /\ s[Len(s)] = heap[1]

Prop == Full(heap) =>
  CASE Profile = "C01" -> RoundTrip
    [] Profile = "C02" -> Snapshot
    [] Profile = "C03" -> FiltersSplit
    [] Profile = "C04" -> UpdateExact
    [] Profile = "C05" -> PopExact
    [] Profile = "C06" -> DefIsStructure
    [] Profile = "C07" -> AssignLaws
    [] Profile = "C08" -> CallsPure
    [] Profile = "C09" -> SowLaws
    [] Profile = "C10" -> TraverseOnce
    [] Profile = "C11" -> PureAgrees
    [] Profile = "C36" -> Copies
    [] OTHER -> TRUE
=============================================================================
