------------------------------- MODULE MC_State -------------------------------
(* States as values (C12) and the filter language (C03), exhaustively over a    *)
(* small universe: see MC_Graph for how Prop and Emit are used.                 *)
EXTENDS Graph, Json, IOUtils

CONSTANTS Profile, MaxEntries

VARIABLES s1, s2, fs, hist

MD == [sharding |-> "None"]
MD2 == [sharding |-> "(x,y)", tag |-> "t"]
Var(ty, v, md) == [k |-> "var", ty |-> ty, md |-> md, v |-> IntV(v)]
Arr(v) == [k |-> "arr", ty |-> "np", v |-> IntV(v)]

Paths == { <<"a">>, <<"a", "b">>, <<"a1">>, <<"a_b">> }
Leaves1 == { Var("Param", 1, MD), Var("MyParam", 2, MD2) }
Leaves2 == { Var("Param", 3, MD2), Arr(4) }

(* C12: two states built entry by entry in every order *)
Build ==
  \/ \E p \in Paths, l \in Leaves1 : /\ s2 = <<>> /\ Len(s1) < MaxEntries /\ ~HasPath(s1, p)
                                     /\ s1' = Append(s1, <<p, l>>) /\ UNCHANGED s2
  \/ \E p \in Paths, l \in Leaves2 : /\ Len(s2) < MaxEntries /\ ~HasPath(s2, p)
                                     /\ s2' = Append(s2, <<p, l>>) /\ UNCHANGED s1

(* C03: lists of filters *)
Atoms == { <<"type", "Param">>, <<"type", "Variable">>, <<"type", "MyParam">>, <<"type", "np">>,
           <<"path", "b">>, <<"under", "a">>, <<"val", 3>>, <<"...">>, <<"none">> }
F2 == Atoms \cup { <<"not", f>> : f \in Atoms }
      \cup { <<o, <<f, g>>>> : o \in {"any", "all", "tuple"}, f \in Atoms, g \in Atoms }
      \cup { <<o, <<>>>> : o \in {"any", "all", "tuple"} }
      \cup { <<"bad", b>> : b \in {"str", "int", "list", "dict"} }
      \cup { <<"not", <<o, <<f, g>>>>>> : o \in {"any", "all"}, f \in {<<"type", "Param">>, <<"path", "b">>},
                                      g \in {<<"under", "a">>, <<"none">>, <<"...">>, <<"bad", "int">>} }
      \cup { <<o, <<f, <<"bad", "str">>>>>> : o \in {"any", "all", "tuple"}, f \in {<<"type", "Param">>, <<"...">>} }
Second == Atoms \cup { <<"not", <<"type", "Param">>>>, <<"bad", "int">>, <<"tuple", << <<"type", "Param">>, <<"path", "b">> >> >> }
Sample == << << <<"a">>, Var("Param", 1, MD) >>, << <<"a", "b">>, Var("MyParam", 3, MD2) >>,
             << <<"a1">>, Var("BatchStat", 3, MD) >>, << <<"a_b">>, Arr(4) >>, << <<"b">>, Var("Cache", 2, MD) >>,
             << <<"b", "b">>, [k |-> "var", ty |-> "Node", md |-> <<>>, v |-> IntV(3)] >> >>
BuildF ==
  \/ Len(fs) = 0 /\ \E f \in F2 : fs' = <<f>>
  \/ Len(fs) \in 1..(MaxEntries - 1) /\ \E f \in Second : fs' = Append(fs, f)

Init == s1 = <<>> /\ s2 = <<>> /\ fs = <<>> /\ hist = <<>>
Next == IF Profile = "C12" THEN Build /\ UNCHANGED <<fs, hist>>
        ELSE BuildF /\ UNCHANGED <<s1, s2, hist>>
Spec == Init /\ [][Next]_<<s1, s2, fs, hist>>
\* insertion order matters for nothing but the scripts: keep it for the first state only
View == <<NormEntries(s1), NormEntries(s2), fs>>

Ref(n) == <<n, 1>>
Probes ==
  IF Profile = "C12" THEN
    { << [o |-> "smk", es |-> s1, how |-> "map"], [o |-> "smk", es |-> s2, how |-> "iter"],
         [o |-> "smerge", ss |-> << Ref(1), Ref(2) >>], [o |-> "sor", s |-> Ref(2), s2 |-> Ref(1)],
         [o |-> "ssub", s |-> Ref(1), s2 |-> Ref(2)], [o |-> "ssub", s |-> Ref(3), s2 |-> Ref(1)],
         [o |-> "sflat", s |-> Ref(3)], [o |-> "smap", s |-> Ref(3), by |-> 2],
         [o |-> "sget", s |-> Ref(3), path |-> <<"a", "b">>] >> }
  ELSE IF fs = <<>> THEN {}
  ELSE { << [o |-> "smk", es |-> Sample, how |-> "map"], [o |-> "spart", s |-> Ref(1), fs |-> fs],
            [o |-> "spart", s |-> Ref(1), fs |-> Append(fs, <<"...">>)],
            [o |-> "sfilt", s |-> Ref(1), fs |-> fs] >> }
Emit == PrintT(<<"STATE", ToJson([h |-> hist, p |-> SetToSeq(Probes)])>>)

----------------------------------------------------------------------------
Sorted(es) == \A i, j \in 1..Len(es) : i < j => PathLess(es[i][1], es[j][1])
PathsOf(es) == { es[i][1] : i \in 1..Len(es) }
StateAlgebra ==
  LET a == NormEntries(s1)  b == NormEntries(s2)  u == MergeStates(<<a, b>>)  d == SubState(a, b) IN
  /\ Sorted(a) /\ Sorted(u) /\ Sorted(d)
  /\ PathsOf(u) = PathsOf(a) \cup PathsOf(b)
  /\ \A i \in 1..Len(u) : u[i][2] = IF HasPath(b, u[i][1]) THEN LeafAt(b, u[i][1]) ELSE LeafAt(a, u[i][1])
  /\ PathsOf(d) = PathsOf(a) \ PathsOf(b)
  /\ \A i \in 1..Len(d) : d[i][2] = LeafAt(a, d[i][1])
  /\ MergeStates(<<d, b>>) = u
  /\ MergeStates(<<a, a>>) = a
  /\ MergeStates(<<a, b, a>>) = MergeStates(<<b, a>>)
  /\ MergeStates(<<MergeStates(<<a, b>>), a>>) = MergeStates(<<a, MergeStates(<<b, a>>)>>)

Hit(f) == { i \in 1..Len(Sample) : Matches(f, Sample[i][1], Sample[i][2]) }
All6 == 1..Len(Sample)
FilterLaws ==
  /\ \A j \in 1..Len(fs) : LET f == fs[j] IN
       IF BadFilter(f) THEN TRUE ELSE
       /\ (f[1] \in {"any", "tuple"} => Hit(f) = UNION { Hit(f[2][i]) : i \in 1..Len(f[2]) })
       /\ (f[1] = "all" => Hit(f) = { x \in All6 : \A i \in 1..Len(f[2]) : x \in Hit(f[2][i]) })
       /\ (f[1] = "not" => Hit(f) = All6 \ Hit(f[2]))
       /\ Hit(<<"not", <<"not", f>>>>) = Hit(f)
  /\ IF FiltersBad(fs) THEN ~PartitionEntries(Sample, fs).ok \/ fs = <<>>
     ELSE LET ps == SplitEntries(Sample, fs) IN
          /\ Len(ps) = Len(fs) + 1
          /\ \A x \in All6 : Cardinality({ k \in 1..Len(ps) : Member(Sample[x], ps[k]) }) = 1
          /\ \A k \in 1..Len(fs) : \A x \in All6 :
               Member(Sample[x], ps[k]) <=> (x \in Hit(fs[k]) /\ \A q \in 1..(k - 1) : x \notin Hit(fs[q]))
          /\ PartitionEntries(Sample, fs).ok <=> (UNION { Hit(fs[k]) : k \in 1..Len(fs) } = All6 \/ fs = <<>>)
          /\ \A k \in 1..Len(ps) : Sorted(ps[k])
Prop == IF Profile = "C12" THEN StateAlgebra ELSE FilterLaws
=============================================================================
