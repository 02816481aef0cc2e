---------------------------- MODULE MC_Collections ----------------------------
(* Every pipeline of up to K callables with every form of call, and every history *)
(* of up to D operations on a mapping.                                            *)
EXTENDS Collections, Json
CONSTANTS K, D, Rich
VARIABLES hist, s

N(n) == <<"num", n>>
F(pos, opt, varpos, kwonly, varkw, ctx, pre, ret, k, names) ==
  [pos |-> pos, opt |-> opt, varpos |-> varpos, kwonly |-> kwonly, varkw |-> varkw, ctx |-> ctx, pre |-> pre, ret |-> ret, k |-> k, names |-> names]
Pool ==
  << F(<<"a">>, 0, 0, <<>>, 0, "none", <<>>, "one", 1, <<>>),
     F(<<"a">>, 0, 0, <<>>, 0, "kw", <<>>, "tuple", 2, <<>>),
     F(<<"a", "b">>, 1, 0, <<>>, 0, "pos", <<>>, "dict", 2, <<"a", "b">>),
     F(<<>>, 0, 1, <<>>, 1, "none", <<>>, "one", 1, <<>>),
     F(<<"b">>, 1, 1, <<"a">>, 0, "kw", <<>>, "list", 2, <<>>),
     F(<<>>, 0, 0, <<>>, 1, "pos", <<>>, "none", 0, <<>>),
     F(<<"a", "b">>, 2, 0, <<>>, 0, "none", <<>>, "tuple", 0, <<>>),
     F(<<"a">>, 1, 0, <<"b">>, 1, "none", <<>>, "dict", 1, <<"ctx">>),
     F(<<"a", "b">>, 0, 0, <<>>, 0, "kw", <<N(7)>>, "nt", 2, <<>>) >>
  \o (IF Rich THEN << F(<<"a">>, 1, 0, <<>>, 0, "kw", <<>>, "dict", 0, <<>>), F(<<"a">>, 0, 0, <<>>, 0, "none", <<>>, "raise", 0, <<>>),
                      F(<<"a">>, 1, 1, <<>>, 1, "kw", <<>>, "tuple", 1, <<>>) >> ELSE <<>>)
Els == [ i \in 1..Len(Pool) |-> [o |-> "el", f |-> Pool[i], how |-> "fn"] ]
Lists == UNION { [ 1..k -> 1..Len(Pool) ] : k \in 0..K }
Calls == << << <<N(1)>>, <<>> >>, << <<N(1), N(2)>>, <<>> >>, << <<N(1)>>, << <<"b", N(2)>> >> >>, << <<>>, << <<"a", N(1)>>, <<"b", N(2)>> >> >> >>
Kinds == <<"fn", "mod", "obj", "method">>
Used(l) == SetToSortSeq({ l[i] : i \in 1..Len(l) }, LAMBDA x, y : x < y)
Pipe(l) ==
  LET u == Used(l)
      el(i) == <<"el", IndexOf(l[i], u)>>
  IN [ i \in 1..Len(u) |-> [o |-> "el", f |-> Pool[u[i]], how |-> Kinds[1 + ((i + Len(l)) % 4)]] ]
     \o << [o |-> "mks", how |-> "list", items |-> [ i \in 1..Len(l) |-> el(i) ]] >>
     \o (IF Len(l) < 2 THEN << [o |-> "mks", how |-> "gen", items |-> << <<"reg", 1>> >>] >>
         ELSE << [o |-> "mks", how |-> "tuple", items |-> << el(1) >>], [o |-> "mks", how |-> "gen", items |-> [ i \in 1..Len(l) - 1 |-> el(i + 1) ]],
                 [o |-> "mks", how |-> "list", items |-> << <<"reg", 2>>, <<"reg", 3>> >>] >>)
StartsS == { Pipe(l) : l \in Lists }
StartsD == { << [o |-> "mkd", how |-> "map", items |-> << >>, kw |-> <<>>] >>,
             << [o |-> "mkd", how |-> "pairs", items |-> << <<"a", N(1)>>, <<"b", <<"c", "Param", N(2)>> >>, <<"a", N(3)>> >>, kw |-> <<>>] >>,
             << [o |-> "mkd", how |-> "both", items |-> << <<"b", N(1)>> >>, kw |-> << <<"b", <<"c", "Node", N(5)>> >>, <<"_p", N(6)>> >>] >> }
IsD == hist[1].o = "mkd"
Init == hist \in StartsS \cup StartsD /\ s = Fold(LAMBDA st, op : Apply(st, op).s, Start, hist)
Vals == { N(4), <<"c", "Param", N(8)>>, <<"c", "Node", N(9)>>, None }
OpsD == { [o |-> "set", r |-> 1, how |-> h, key |-> k, v |-> v] : h \in {"item", "attr"}, k \in {"a", "b"}, v \in Vals }
        \cup { [o |-> "del", r |-> 1, key |-> k] : k \in {"a", "b"} }
Next == /\ IsD /\ Len(hist) <= D
        /\ \E op \in OpsD : hist' = Append(hist, op) /\ s' = Apply(s, op).s
Spec == Init /\ [][Next]_<<hist, s>>
Gets(r) == [ i \in 1..16 |-> [o |-> "get", r |-> r, how |-> <<"item", "attr", "default", "in">>[1 + ((i - 1) \div 4)], key |-> <<"a", "b", "items", "#1">>[1 + ((i - 1) % 4)]] ]
ProbesS ==
  LET m == Len(s.regs) IN
  [ i \in 1..2 * Len(Calls) |->
     LET c == Calls[1 + ((i - 1) \div 2)]
         mk(r) == [o |-> "call", r |-> r, args |-> c[1], kw |-> c[2], ctx |-> i % 2]
     IN << mk(1), mk(m), [o |-> "clone", r |-> 1], mk(m + 1), [o |-> "at", r |-> 1, i |-> Len(s.regs[1].a)], [o |-> "at", r |-> 1, i |-> Len(s.regs[1].a) + 1] >>
        \o (IF s.regs[1].a = <<>> THEN <<>> ELSE << [o |-> "at", r |-> 1, i |-> 0], [o |-> "put", r |-> 1, i |-> 0, v |-> N(3)], [o |-> "at", r |-> 1, i |-> 0], mk(1) >>) ]
ProbesD == << SelectSeq(Gets(1), LAMBDA g : ~(g.how = "attr" /\ g.key \in {"items", "#1"})) \o << [o |-> "clone", r |-> 1], [o |-> "eq", r |-> 1, r2 |-> 2], [o |-> "eq", r |-> 1, r2 |-> 1], [o |-> "set", r |-> 2, how |-> "item", key |-> "a", v |-> N(1)],
                           [o |-> "set", r |-> 1, how |-> "item", key |-> "#1", v |-> N(1)] >> >>
Emit == PrintT(<<"STATE", ToJson([h |-> hist, p |-> IF IsD THEN ProbesD ELSE ProbesS])>>)

(* ---- laws *)
LawS ==      \* grouping a pipeline does not change what it computes
  \A i \in 1..Len(Calls), c \in {None, <<"ctx">>} :
    LET run(vs) == CallSeq(s, vs, Calls[i][1], Calls[i][2], c, <<>>)
        a == run(s.regs[1].a)
        b == run(<< <<"reg", Len(s.regs)>> >>)
        ctxout == \E j \in 1..Len(s.els) : Member("ctx", s.els[j].names)
    IN /\ (~ctxout => a = b)
       /\ (a.ok => Len(a.log) = Len(s.regs[1].a))
       /\ \A j \in 1..Len(a.log) : s.els[a.log[j].e].ctx # "none" =>
            LET v == At(a.log[j].b.n, "ctx") IN c # None => v = c
       /\ a.ok => \A j \in 1..Len(a.log) : <<"el", a.log[j].e>> = Plain(s.regs[1].a[j])
LawD ==
  /\ \A op \in OpsD :
       LET e == Apply(s, op) IN
       /\ (op.o = "set" /\ e.res = Ok => Apply(e.s, [o |-> "get", r |-> 1, how |-> "item", key |-> op.key]).res = Val(Plain(op.v)))
       /\ (e.res # Ok => e.s = s)
       /\ \A k \in DOMAIN s.regs[1].a \ {op.key} : k \in DOMAIN e.s.regs[1].a /\ e.s.regs[1].a[k] = s.regs[1].a[k]
Prop == IF IsD THEN LawD ELSE LawS
=============================================================================
