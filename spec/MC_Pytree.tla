------------------------------ MODULE MC_Pytree ------------------------------
(* C28: every class, field value and sequence of K operations.                  *)
(* C29: every pair of objects of up to two fields that differ in at most one.    *)
(* C30: every object of up to two fields with every edit of its dictionary.      *)
(* C37: every field declaration, override, default and argument.                 *)
EXTENDS Pytree, Json, IOUtils
CONSTANTS Profile, K, Rich
VARIABLES hist, s

I(n) == <<"num", <<"i", n>>>>
A(n) == <<"arr", <<"i", n>>>>
C(ty, v) == <<"c", ty, <<>>, v>>
CS(ty, sh, v) == <<"c", ty, [sharding |-> sh], v>>
L(xs) == <<"seq", "list", xs>>
Plain(base, mut) == [o |-> "cls", base |-> base, mut |-> mut, dc |-> 0, frozen |-> 0, fields |-> <<>>, post |-> <<>>]
Dc(base, mut, frozen, fields, post) == [o |-> "cls", base |-> base, mut |-> mut, dc |-> 1, frozen |-> frozen, fields |-> fields, post |-> post]
F(n, k, ty, sh, init, d) == [n |-> n, k |-> k, ty |-> ty, sh |-> sh, init |-> init, d |-> d]
PF(n) == F(n, "plain", "Param", "None", 1, <<"no">>)
P == <<"P">>
M == <<"M">>
At(i) == <<"c", i>>
Set(n, v) == [k |-> "set", n |-> n, m |-> n, v |-> v]
New(c, steps, kw) == [o |-> "new", c |-> c, steps |-> steps, kw |-> kw]
Run(ops) == Fold(LAMBDA st, op : Apply(st, op).s, Start, ops)

(* ---- C28 *)
XVals == { I(1), C("Node", I(1)), CS("Param", "(x)", A(1)), C("Static", I(1)), A(1), <<"none">> }
Starts28 ==
  UNION { { << Plain(P, 0), New(1, << Set("x", v), Set("y", I(3)) >>, <<>>) >>,
            << Plain(P, 1), New(1, << Set("x", v), Set("y", I(3)) >>, <<>>) >>,
            << Plain(P, 1), Plain(At(1), 0), New(2, << Set("x", v), Set("y", I(3)) >>, <<>>) >>,
            << Plain(P, 0), Plain(At(1), 1), New(2, << Set("x", v), Set("x", v), Set("y", I(3)) >>, <<>>) >>,
            << Dc(P, 0, 0, <<PF("x"), PF("y")>>, <<>>), New(1, <<>>, << <<"x", v>>, <<"y", I(3)>> >>) >>,
            << Dc(P, 1, 0, <<PF("x"), PF("y")>>, <<>>), New(1, <<>>, << <<"x", v>>, <<"y", I(3)>> >>) >>,
            << Dc(P, 0, 1, <<PF("x"), PF("y")>>, <<>>), New(1, <<>>, << <<"x", v>>, <<"y", I(3)>> >>) >>,
            << Plain(P, 0), Plain(P, 1), New(2, <<Set("x", v)>>, <<>>), New(1, << Set("x", <<"reg", 1>>), [k |-> "poke", n |-> "x", m |-> "x", v |-> I(8)], [k |-> "poke", n |-> "x", m |-> "z", v |-> I(8)],
               Set("y", I(3)) >>, <<>>) >>,
            << Plain(P, 0), New(1, <<Set("x", v)>>, <<>>), New(1, << Set("x", C("TreeNode", <<"reg", 1>>)), [k |-> "poke", n |-> "x", m |-> "x", v |-> I(8)], Set("y", I(3)) >>, <<>>) >> } : v \in XVals }
WVals == { I(5), C("Node", I(6)), C("Param", A(7)), C("Static", I(8)) }
Ops28(st) ==
  LET r == Len(st.regs) IN
  UNION { { [o |-> "set", r |-> q, n |-> n, v |-> v] : n \in {"x", "z"}, v \in WVals } : q \in {1, r} }
  \cup { [o |-> "replace", r |-> r, kw |-> << <<"x", v>> >>] : v \in WVals }
  \cup { [o |-> "replace", r |-> r, kw |-> kw] : kw \in { <<>>, << <<"z", I(1)>> >>, << <<"y", I(4)>>, <<"x", I(5)>> >>, << <<"x", I(5)>>, <<"z", I(1)>> >> } }
  \cup { [o |-> "copy", r |-> r], [o |-> "map", r |-> r, how |-> "id", by |-> 0], [o |-> "deepcopy", r |-> r] }

(* ---- C29, C30: objects with a helper object available as register 1 *)
Help == << Plain(P, 0), Plain(P, 0), New(2, << Set("p", C("Node", I(4))), Set("q", I(5)) >>, <<>>) >>
VVals == { I(1), C("Node", I(1)), C("Node", L(<<A(1), I(2), <<"none">>>>)), CS("Param", "(x)", A(1)), C("Param", A(1)), C("Static", I(1)), A(1), <<"none">>,
           <<"reg", 1>>, C("TreeNode", <<"seq", "tuple", << <<"reg", 1>>, <<"map", "dict", << <<"p", I(1)>>, <<"q", C("Param", I(2))>> >> >> >> >>),
           <<"map", "state", << <<"a", C("Param", A(1))>> >> >>, L(<<I(1), I(2)>>) }
         \cup (IF Rich THEN { I(2), C("Static", I(2)), C("Node", I(2)), C("Node", <<"reg", 1>>), L(<<I(1)>>), C("BatchStat", A(1)), <<"arr", <<"a", << <<"i", 1>>, <<"i", 2>> >> >> >> } ELSE {})
Objs29 == { << Set(n, v) >> : n \in {"x"}, v \in VVals } \cup { << Set(nn[1], v), Set(nn[2], w) >> : nn \in { <<"x", "x1">>, <<"x1", "x">> }, v, w \in VVals }
Near(a) == { b \in Objs29 : Len(b) = Len(a) /\ \E i \in 1..Len(a) : \A j \in 1..Len(a) : (b[j].n = b[i].n) \/ (\E m \in 1..Len(a) : a[m].n = b[j].n /\ a[m].v = b[j].v) }
Starts29 == { Help \o << New(1, a, <<>>) >> : a \in Objs29 }
Probes29(st) ==
  LET a == Last(hist).steps IN
  << << [o |-> "flat", r |-> 2], [o |-> "map", r |-> 2, how |-> "map", by |-> 3], [o |-> "struct", r |-> 2, r2 |-> 3],
        [o |-> "map", r |-> 2, how |-> "id", by |-> 0], [o |-> "map", r |-> 2, how |-> "jit", by |-> 0], [o |-> "struct", r |-> 2, r2 |-> 4], [o |-> "flat", r |-> 4], [o |-> "deepcopy", r |-> 2] >>,
     << [o |-> "map", r |-> 2, how |-> "fill", by |-> 7], [o |-> "struct", r |-> 2, r2 |-> 3], [o |-> "flat", r |-> 3], [o |-> "map", r |-> 2, how |-> "clear", by |-> 0], [o |-> "flat", r |-> 4],
        [o |-> "map", r |-> 4, how |-> "fill", by |-> 7], [o |-> "struct", r |-> 2, r2 |-> 4], [o |-> "struct", r |-> 3, r2 |-> 5] >> >>
  \o SetToSeq({ << New(c, b, <<>>), [o |-> "struct", r |-> 2, r2 |-> 3], [o |-> "struct", r |-> 3, r2 |-> 2] >> : b \in Near(a), c \in {1} })
  \o << << New(2, a, <<>>), [o |-> "struct", r |-> 2, r2 |-> 3], [o |-> "struct", r |-> 3, r2 |-> 2] >> >>

RECURSIVE Places(_, _)
Places(d, p) == IF ~IsDict(d) THEN {} ELSE { Append(p, k) : k \in KeysOf(d) } \cup UNION { Places(d[3][i][2], Append(p, d[3][i][1])) : i \in 1..Len(d[3]) }
RECURSIVE Inner(_, _)
Inner(d, p) == IF ~IsDict(d) THEN {} ELSE {p} \cup UNION { Inner(d[3][i][2], Append(p, d[3][i][1])) : i \in 1..Len(d[3]) }
RECURSIVE Under(_, _)
Under(d, p) == IF p = <<>> THEN d ELSE Under(AtKey(d, p[1]), Tail(p))
NewLeaf(v) == IF v[1] = "arr" THEN A(9) ELSE I(9)
Starts30 ==
  Starts29
  \cup { << Dc(P, m, f, << F("x", "node", "", "", 0, <<"d", I(1)>>), F("y", k, "BatchStat", "(x)", 1, <<"f", A(2)>>), F("q", "plain", "", "", i, <<"d", I(3)>>) >>, post), Dc(P, 0, 0, <<PF("p")>>, <<>>),
            New(2, <<>>, << <<"p", A(3)>> >>), New(1, <<>>, <<>>) >> : m \in {0, 1}, f \in {0}, k \in {"node", "var", "plain"}, i \in {0, 1}, post \in { <<>>, << <<"r", C("Node", I(4))>> >> } }
Probes30(st) ==
  LET d == ToDict(st.h, st.regs[2])
      es == { [o |-> "ed", r |-> 3, p |-> p, how |-> "del", v |-> I(0)] : p \in Places(d, <<>>) }
            \cup { [o |-> "ed", r |-> 3, p |-> p, how |-> "set", v |-> NewLeaf(Under(d, p))] : p \in { q \in Places(d, <<>>) : Under(d, q)[1] \in {"arr", "num", "none"} } }
            \cup { [o |-> "ed", r |-> 3, p |-> Append(p, "w"), how |-> "add", v |-> v] : p \in Inner(d, <<>>), v \in { I(9), <<"none">> } }
  IN << << [o |-> "sd", r |-> 2], [o |-> "restore", r |-> 2, r2 |-> 3], [o |-> "struct", r |-> 2, r2 |-> 4], [o |-> "set", r |-> 4, n |-> "x", v |-> I(1)],
           [o |-> "map", r |-> 2, how |-> "jit", by |-> 0], [o |-> "restore", r |-> 5, r2 |-> 3] >> >>
     \o SetToSeq({ << [o |-> "sd", r |-> 2], e, [o |-> "restore", r |-> 2, r2 |-> 4] >> : e \in es })

(* ---- C37 *)
Kinds == {"plain", "field", "node", "static", "var", "param"}
Dflt == { <<"no">>, <<"d", I(1)>>, <<"f", I(2)>>, <<"f", C("Param", A(2))>> }
Args == { <<"absent">>, I(3), A(3), C("Node", I(3)), C("Param", I(3)), CS("Param", "(x)", I(3)), CS("BatchStat", "(x)", I(3)), C("BatchStat", I(3)), C("Static", I(3)), <<"cm", [tag |-> "t"], I(3)>> }
Field(k, init, d) == F("x", k, "BatchStat", "(x)", init, d)
Two(a, f) == IF f.d[1] = "no" THEN <<f, a>> ELSE <<a, f>>
Starts37 == { << Dc(b, 0, fr, Two(F("a", "node", "", "", 1, <<"f", A(1)>>), Field(k, init, d)), <<>>) >> : b \in {P, M}, fr \in {0}, k \in Kinds, init \in {0, 1}, d \in Dflt }
            \cup { << Dc(P, 0, 1, Two(F("a", "node", "", "", 1, <<"f", A(1)>>), Field(k, 1, d)), <<>>) >> : k \in Kinds, d \in Dflt }
Starts37p == { << Dc(b, 0, 0, << F("x", k, "BatchStat", "(x)", i, <<"d", I(1)>>) >>, << <<"x", v>> >>) >> : b \in {P, M}, k \in Kinds, i \in {0, 1}, v \in {I(1), I(2), <<"none">>, C("Static", I(1)), CS("BatchStat", "(x)", I(1))} }
WithOpt(f, c, r, n, h) == f @@ [opt |-> [cmp |-> c, rep |-> r, note |-> n, hash |-> h]]
Starts37o == { << Dc(b, 0, 0, << F("a", "plain", "", "", 1, <<"no">>), WithOpt(F("x", k, "BatchStat", "(x)", 1, d), c, rp, 3, h) >>, <<>>)
                  @@ [opt |-> [eq |-> e[1], ord |-> e[2], rep |-> 1, uh |-> rp]] >>
               : b \in {P, M}, k \in Kinds, d \in { <<"no">>, <<"d", I(1)>> }, h \in 0..2, c, rp \in {0, 1}, e \in { <<1, 0>>, <<1, 1>>, <<0, 0>>, <<0, 1>> } }
Make(c, v) == New(c, <<>>, IF v = <<"absent">> THEN <<>> ELSE << <<"x", v>> >>)
Starts37i == { << Dc(b, 0, 0, << WithOpt(F("x", k, "BatchStat", "(x)", i, d), 1, 1, 0, 2) >>, <<>>) @@ [opt |-> [init |-> 0, eq |-> 1, ord |-> 0, rep |-> 1, uh |-> 0]] >>
               : b \in {P, M}, k \in Kinds, i \in {0, 1}, d \in Dflt }
Starts37r == { << Dc(b, 0, 0, << WithOpt(F("x", k, "BatchStat", "(x)", 1, <<"no">>), 1, 1, 9, 2) >>, <<>>) @@ [opt |-> [eq |-> 1, ord |-> 0, rep |-> 1, uh |-> 0]] >>
               : b \in {P, M}, k \in Kinds \ {"plain", "field"} }
Sized(s1, s2) == << New(1, <<>>, << <<"a", I(s1[1])>>, <<"x", I(s1[2])>> >>), New(1, <<>>, << <<"a", I(s2[1])>>, <<"x", I(s2[2])>> >>),
                    [o |-> "cmp", how |-> "eq", r |-> 1, r2 |-> 2], [o |-> "cmp", how |-> "lt", r |-> 1, r2 |-> 2], [o |-> "cmp", how |-> "lt", r |-> 2, r2 |-> 1], [o |-> "cmp", how |-> "hash", r |-> 1, r2 |-> 2],
                    [o |-> "cmp", how |-> "eq", r |-> 1, r2 |-> 1], [o |-> "repr", r |-> 1], [o |-> "notes", c |-> 1] >>
Probes37o == IF s.cl = <<>> THEN <<>>
             ELSE IF s.cl[1].opt.init = 0
             THEN << << Make(1, <<"absent">>) >> \o (IF DcInit(s.cl[1], <<>>).ok THEN << [o |-> "get", r |-> 1, n |-> "x"], [o |-> "repr", r |-> 1], [o |-> "cmp", how |-> "eq", r |-> 1, r2 |-> 1] >> ELSE <<>>),
                     << Make(1, I(3)) >> >>
             ELSE << Sized(<<1, 2>>, <<1, 2>>), Sized(<<1, 2>>, <<1, 3>>), Sized(<<2, 2>>, <<1, 3>>) >>
Over == { Dc(At(1), 0, s.cl[1].frozen, << Field(k, 1, <<"f", I(4)>>) >>, <<>>) : k \in Kinds } \cup { Dc(At(1), 0, s.cl[1].frozen, << F("c", "param", "", "", 1, <<"d", I(4)>>) >>, <<>>), Plain(At(1), 0) }
Declared(d) == d.k \notin {"plain", "field"}
Makes(v) == DcInit(s.cl[1], IF v = <<"absent">> THEN <<>> ELSE << <<"x", Resolve(s, v)>> >>).ok
Made(v) == IF Makes(v) THEN << Make(1, v), [o |-> "get", r |-> 1, n |-> "x"], [o |-> IF s.cl[1].mod = 1 THEN "state" ELSE "flat", r |-> 1] >> ELSE << Make(1, v) >>
Ok37(c, v) == ~(v[1] = "cm" /\ (~Declared(FieldOf(s.cl[c], "x")) \/ FieldOf(s.cl[c], "x").k = "static"))
After(v) ==
  IF ~Makes(v) THEN <<>>
  ELSE IF s.cl[1].mod = 1 THEN << [o |-> "state", r |-> 1], [o |-> "clone", r |-> 1], [o |-> "set", r |-> 2, n |-> "x", v |-> I(7)], [o |-> "set", r |-> 2, n |-> "x", v |-> C("Param", I(8))] >>
  ELSE << [o |-> "replace", r |-> 1, kw |-> IF HasField(s.cl[1], "a") THEN << <<"a", A(5)>> >> ELSE <<>>], [o |-> "map", r |-> 1, how |-> "id", by |-> 0] >>
Probes37 ==
  SetToSeq({ Made(v) \o (IF v[1] = "cm" THEN <<>> ELSE After(v)) : v \in { w \in Args : Ok37(1, w) } })
  \o (IF s.cl[1].mod = 1 \/ FieldOf(s.cl[1], "x").init = 0 \/ ~Makes(I(3)) THEN <<>>
      ELSE SetToSeq({ << Make(1, I(3)), [o |-> "replace", r |-> 1, kw |-> << <<"x", v>> >>], [o |-> "flat", r |-> 1] >> : v \in { w \in Args : w[1] \notin {"absent", "cm"} } }))
  \o SetToSeq({ (IF NewClass(s, o).ok THEN << o, Make(2, v) >> ELSE <<o>>) : o \in Over, v \in { w \in Args : w[1] # "cm" } })

(* ---- behaviours *)
Starts == CASE Profile = "C28" -> Starts28 [] Profile = "C29" -> Starts29 [] Profile = "C30" -> Starts30 [] Profile = "C37" -> Starts37 \cup Starts37p \cup Starts37o \cup Starts37r \cup Starts37i
Init == hist \in Starts /\ s = Run(hist)
Steps == Cardinality({ i \in 1..Len(hist) : hist[i].o \notin {"cls", "new"} })
Next == /\ Profile = "C28" /\ Steps < K
        /\ \E op \in Ops28(s) : hist' = Append(hist, op) /\ s' = Apply(s, op).s
Spec == Init /\ [][Next]_<<hist, s>>
Probes ==
  CASE Profile = "C28" -> IF Steps = K THEN << << [o |-> "set", r |-> Len(s.regs), n |-> "x", v |-> I(9)], [o |-> "set", r |-> Len(s.regs), n |-> "w", v |-> I(9)], [o |-> "flat", r |-> Len(s.regs)] >> >> ELSE <<>>
    [] Profile = "C29" -> Probes29(s)
    [] Profile = "C30" -> Probes30(s)
    [] Profile = "C37" -> IF "opt" \in DOMAIN hist[1] THEN Probes37o ELSE Probes37
Emit == PrintT(<<"STATE", ToJson([h |-> hist, p |-> Probes])>>)

(* ---- laws *)
SameRegs(s1, s2) == \A i \in 1..Len(s1.regs) : Deep(s1.h, s1.regs[i]) = Deep(s2.h, s2.regs[i])
IsObj(st, r) == st.regs[r][1] = "ref"
FieldsOf(st, r) == st.h[st.regs[r][2]].a
Kind(v) == IF IsCont(v) THEN <<v[2], v[3]>> ELSE <<>>
Law28 ==
  \A op \in Ops28(s) :
    LET e == Apply(s, op)
        a == FieldsOf(s, op.r)
        c == s.cl[s.h[s.regs[op.r][2]].c]
    IN CASE op.o = "set" ->
              /\ (e.res = Ok => c.mut = 1 /\ c.frozen = 0 /\ op.n \in DOMAIN a)
              /\ (e.res = Ok => Kind(a[op.n]) = <<>> \/ Kind(FieldsOf(e.s, op.r)[op.n]) = Kind(a[op.n]))
              /\ (e.res = Err => SameRegs(s, e.s))
              /\ (op.n \notin DOMAIN a => e.res = Err)
         [] op.o = "replace" ->
              /\ SameRegs(s, e.s)
              /\ ((\E i \in 1..Len(op.kw) : op.kw[i][1] \notin DOMAIN a) => e.res = Err)
              /\ (e.res # Err =>
                    LET b == FieldsOf(e.s, Len(e.s.regs)) IN
                    /\ DOMAIN a = DOMAIN b
                    /\ \A n \in DOMAIN a : Kind(a[n]) = <<>> \/ Kind(a[n]) = Kind(b[n])
                    /\ \A n \in DOMAIN a : IF Given(op.kw, n) THEN Unbox(b[n]) = Unbox(op.kw[Arg(op.kw, n)][2]) ELSE a[n] = b[n])
         [] OTHER -> SameRegs(s, e.s) /\ e.res # Err /\ e.res.x = Deep(s.h, s.regs[op.r])
Law29 ==
  LET v == s.regs[2]
      xs == LeavesOf(s.h, v, <<>>)
      m == TreeMap("map", 0, s.h, v)
      a == Last(hist).steps
      back == Apply(s, New(1, [ i \in 1..Len(a) |-> a[Len(a) + 1 - i] ], <<>>)).s
  IN /\ m.ok /\ Deep(m.h, m.v) = Deep(s.h, v) /\ Struct(m.h, m.v) = Struct(s.h, v) /\ LeavesOf(m.h, m.v, <<>>) = xs
     /\ \A i, j \in 1..Len(xs) : i < j => xs[i][1] # xs[j][1] /\ (xs[i][1][1] = xs[j][1][1] \/ NameLess(xs[i][1][1], xs[j][1][1]))
     /\ Deep(back.h, Last(back.regs)) = Deep(s.h, v)
Law30 ==
  LET v == s.regs[2]
      d == ToDict(s.h, v)
      r == FromDict(s.h, v, d)
  IN /\ IsDict(d) /\ KeysOf(d) = Range(NodeNames(FieldsOf(s, 2)))
     /\ r.ok /\ Deep(r.h, r.v) = Deep(s.h, v)
     /\ \A k \in KeysOf(d) : ~FromDict(s.h, v, Edit(d, <<k>>, "del", v)).ok
     /\ ~FromDict(s.h, v, Edit(d, <<"w">>, "add", I(9))).ok
Law37o == s.cl = <<>> \/ s.cl[1].opt.init = 0 \/ LET f == FieldOf(s.cl[1], "x")  t == Run(hist \o SubSeq(Sized(<<1, 2>>, <<1, 3>>), 1, 2)) IN
  /\ Compare(t, "eq", 1, 1).b = 1
  /\ (Compare(t, "eq", 1, 2).b = 1 <=> s.cl[1].opt.eq = 1 /\ f.opt.cmp = 0)
  /\ Compare(t, "eq", 1, 2) = Compare(t, "eq", 2, 1)
  /\ (Compare(t, "eq", 1, 2).b = 1 /\ f.opt.hash # 1 => SameHash(t, 1, 2) \in {Err, [t |-> "bool", b |-> 1]})
  /\ (s.cl[1].opt.ord = 1 => ~(Compare(t, "lt", 1, 2).b = 1 /\ Compare(t, "lt", 2, 1).b = 1))
Law37 ==
  \A v \in { w \in Args : Ok37(1, w) } :
    LET f == FieldOf(s.cl[1], "x")
        x == DcInit(s.cl[1], IF v = <<"absent">> THEN <<>> ELSE << <<"x", Resolve(s, v)>> >>)
    IN x.ok /\ Declared(f) => /\ IsCont(x.a["x"]) /\ x.a["x"][2] = DeclType(f)
                              /\ (f.k = "var" /\ v[1] # "cm" => x.a["x"][3].sharding = "(x)")
                              /\ (v[1] = "c" /\ s.cl[1].post = <<>> => v[2] = DeclType(f) /\ x.a["x"][4] = v[4])
Prop == CASE Profile = "C28" -> Law28 [] Profile = "C29" -> Law29 [] Profile = "C30" -> Law30 [] Profile = "C37" -> IF "opt" \in DOMAIN hist[1] THEN Law37o ELSE Law37
=============================================================================
