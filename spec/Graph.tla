-------------------------------- MODULE Graph --------------------------------
(* The module graph of nnx: a heap of modules with attributes, and the public  *)
(* operations on it as total functions  Apply(heap, regs, op) = [h, res].      *)
(*                                                                             *)
(* heap : sequence of [c |-> class, i |-> 0/1 initialising, a |-> attributes]  *)
(* attributes : function from names to entries                                 *)
(* entry : [k |-> "var",     ty, md, v]   a Node container (Variable, Param..) *)
(*         [k |-> "arr",     ty, v]       a bare node: an array (np, jax), a   *)
(*                                        pytree object, a state, an instance  *)
(*                                        of a class registered by its user    *)
(*         [k |-> "static",  v]           a plain Python value                 *)
(*         [k |-> "cstatic", v]           a Static container                   *)
(*         [k |-> "mod",     r]           a reference to a module              *)
(* md : metadata, a function from names to strings                             *)
(* regs : values produced by earlier operations (states, definitions, pures)   *)
EXTENDS Filters

ClassSupers == [ A |-> {"A"}, B |-> {"B", "A"}, C |-> {"C"}, D |-> {"D"},
                 Dict |-> {"Dict"}, E |-> {"E", "B", "A"} ]
IsClass(c, T) == T = "Module" \/ (c \in DOMAIN ClassSupers /\ T \in ClassSupers[c])

IsLeaf(e) == e.k \in {"var", "arr"}
IsStatic(e) == e.k \in {"static", "cstatic"}
IsContainer(e) == e.k \in {"var", "cstatic"}

NewMod(c, i, a) == [c |-> c, i |-> i, a |-> a]

----------------------------------------------------------------------------
(* Walking: depth first in attribute-name order, each module once *)
Subs(h, id) == SortedNames({ n \in DOMAIN h[id].a : h[id].a[n].k = "mod" })

RECURSIVE WalkR(_, _, _, _)
WalkR(h, id, p, acc) ==
  IF Member(id, acc.ids) THEN acc
  ELSE Fold(LAMBDA ac, n : WalkR(h, h[id].a[n].r, Append(p, n), ac),
            [ids |-> Append(acc.ids, id), ps |-> Append(acc.ps, p)],
            Subs(h, id))
Walk(h, r) == WalkR(h, r, <<>>, [ids |-> <<>>, ps |-> <<>>])
Reach(h, r) == Range(Walk(h, r).ids)

(* The state: entries <<path, leaf>> sorted by path *)
EntriesOf(h, id, p) ==
  LET ns == SortedNames({ n \in DOMAIN h[id].a : IsLeaf(h[id].a[n]) })
  IN [ j \in 1..Len(ns) |-> << Append(p, ns[j]), h[id].a[ns[j]] >> ]
EntryLess(x, y) == PathLess(x[1], y[1])
SortEntries(es) == SortSeq(es, EntryLess)
StateOf(h, r) ==
  LET w == Walk(h, r)
  IN SortEntries(ConcatAll([ j \in 1..Len(w.ids) |-> EntriesOf(h, w.ids[j], w.ps[j]) ]))

(* The definition: nodes in walk order, references as positions *)
DefOf(h, r) ==
  LET ids == Walk(h, r).ids
      strip(e) == IF e.k = "mod" THEN [k |-> "mod", r |-> IndexOf(e.r, ids)] ELSE e
      node(id) == [ c |-> h[id].c, i |-> h[id].i,
                    a |-> [ n \in { x \in DOMAIN h[id].a : ~IsLeaf(h[id].a[x]) } |->
                              strip(h[id].a[n]) ] ]
  IN [ j \in 1..Len(ids) |-> node(ids[j]) ]
DefEq(d1, d2) ==
  /\ Len(d1) = Len(d2)
  /\ \A j \in 1..Len(d1) : d1[j].c = d2[j].c /\ d1[j].a = d2[j].a

(* The whole graph seen from r, up to renaming of modules: isomorphism is equality *)
Canon(h, r) ==
  LET ids == Walk(h, r).ids
      ren(e) == IF e.k = "mod" THEN [k |-> "mod", r |-> IndexOf(e.r, ids)] ELSE e
  IN [ j \in 1..Len(ids) |->
         [ c |-> h[ids[j]].c, i |-> h[ids[j]].i,
           a |-> [ n \in DOMAIN h[ids[j]].a |-> ren(h[ids[j]].a[n]) ] ] ]

----------------------------------------------------------------------------
(* States as sorted entry sequences *)
HasPath(es, p) == \E i \in 1..Len(es) : es[i][1] = p
LeafAt(es, p) == es[CHOOSE i \in 1..Len(es) : es[i][1] = p][2]
(* later entries win *)
NormEntries(es) ==
  SortEntries(SelectSeq([ i \in 1..Len(es) |-> IF \E j \in (i + 1)..Len(es) : es[j][1] = es[i][1]
                                                THEN << >> ELSE es[i] ],
                        LAMBDA e : e # <<>>))
MergeStates(ss) == NormEntries(ConcatAll(ss))
SubState(s1, s2) == SelectSeq(s1, LAMBDA e : ~HasPath(s2, e[1]))

----------------------------------------------------------------------------
(* Attribute assignment *)
Equiv(e1, e2) ==
  /\ e1.k = e2.k
  /\ (e1.k = "var" => e1.ty = e2.ty /\ e1.md = e2.md)

(* [ok, e]: the entry that results from assigning x over old *)
Assign(old, x) ==
  IF IsContainer(old)
  THEN IF IsContainer(x)
       THEN IF Equiv(old, x) THEN [ok |-> TRUE, e |-> [old EXCEPT !.v = x.v]]
            ELSE [ok |-> FALSE, e |-> old]
       ELSE [ok |-> TRUE, e |-> [old EXCEPT !.v = x.v]]
  ELSE [ok |-> TRUE, e |-> x]

SetAttr(h, id, n, x) ==
  LET a == h[id].a
      \* a module assigned over a container ends up inside it, as an opaque value
      y == IF x.k = "mod" /\ n \in DOMAIN a /\ IsContainer(a[n])
           THEN [k |-> "static", v |-> <<"o", h[x.r].c>>] ELSE x
      r == IF n \in DOMAIN a THEN Assign(a[n], y) ELSE [ok |-> TRUE, e |-> x]
  IN [ok |-> r.ok, h |-> IF r.ok THEN [h EXCEPT ![id].a = With(a, n, r.e)] ELSE h]
DelAttr(h, id, n) == [h EXCEPT ![id].a = Without(@, n)]

(* the module at a path of attribute names, 0 if there is none *)
RECURSIVE ModAt(_, _, _)
ModAt(h, id, p) ==
  IF p = <<>> THEN id
  ELSE IF p[1] \in DOMAIN h[id].a /\ h[id].a[p[1]].k = "mod"
       THEN ModAt(h, h[id].a[p[1]].r, Tail(p))
       ELSE 0

SetPath(h, r, p, x) ==
  LET id == ModAt(h, r, Front(p))
  IN IF id = 0 THEN [ok |-> FALSE, h |-> h] ELSE SetAttr(h, id, Last(p), x)

SetEntries(h, r, es) ==
  Fold(LAMBDA ac, e : IF ac.ok THEN SetPath(ac.h, r, e[1], e[2]) ELSE ac,
       [ok |-> TRUE, h |-> h], es)

(* Update: sets exactly the entries of the merged updates *)
UpdateWith(h, r, ss) == SetEntries(h, r, MergeStates(ss))

(* Merge: fresh modules 1 + Len(h) .. in definition order, then the entries *)
BuildDef(h, d) ==
  LET n0 == Len(h)
      ren(e) == IF e.k = "mod" THEN [k |-> "mod", r |-> n0 + e.r] ELSE e
  IN h \o [ j \in 1..Len(d) |->
              [ c |-> d[j].c, i |-> d[j].i,
                a |-> [ n \in DOMAIN d[j].a |-> ren(d[j].a[n]) ] ] ]
MergeDef(h, d, ss) ==
  LET b == BuildDef(h, d)
  IN SetEntries(b, Len(h) + 1, MergeStates(ss))

(* Pop: remove the entries matching some filter, each in its first match *)
PopFrom(h, r, fs) ==
  LET w == Walk(h, r)
      es == StateOf(h, r)
      parts == SplitEntries(es, fs)
      gone(id, p) == { n \in DOMAIN h[id].a :
                         IsLeaf(h[id].a[n]) /\ FirstMatch(fs, Append(p, n), h[id].a[n]) > 0 }
      h2 == Fold(LAMBDA hh, j :
                   LET id == w.ids[j]
                   IN [hh EXCEPT ![id].a =
                         [ n \in (DOMAIN h[id].a) \ gone(id, w.ps[j]) |-> h[id].a[n] ]],
                 h, [ j \in 1..Len(w.ids) |-> j ])
  IN [h |-> h2, ss |-> SubSeq(parts, 1, Len(fs))]

(* Sow *)
SowInto(h, id, ty, n, v) ==
  LET a == h[id].a
  IN IF n \notin DOMAIN a
     THEN [ok |-> TRUE,
           h |-> [h EXCEPT ![id].a = With(a, n,
                    [k |-> "var", ty |-> ty, md |-> [sharding |-> "None"], v |-> TupV(<<v>>)])]]
     ELSE IF a[n].k = "var" /\ a[n].ty = ty /\ IsTup(a[n].v)
          THEN [ok |-> TRUE, h |-> [h EXCEPT ![id].a[n].v = TupV(Append(a[n].v[2], v))]]
          ELSE [ok |-> FALSE, h |-> h]

----------------------------------------------------------------------------
(* Programs: the bodies of the methods the harness calls.                     *)
(* expr: <<"c", k>>, <<"arg", i>>, <<"at", path, n>>, <<"+", e, e>>, <<"*", e, e>> *)
(* instr: <<"set", path, n, e>>, <<"mkvar", path, n, ty, e>>, <<"mkmod", path, n, c>>, *)
(*        <<"sow", path, ty, n, e>>, <<"del", path, n>>, <<"ret", e>>, <<"raise">>     *)
PlainOf(e) == e.v

RECURSIVE Eval(_, _, _, _)
(* value tagged <<"i", n>>, or <<"err">> *)
Eval(h, id, args, e) ==
  CASE e[1] = "c" -> IntV(e[2])
    [] e[1] = "arg" -> IF e[2] \in 1..Len(args) THEN IntV(args[e[2]]) ELSE <<"err">>
    [] e[1] = "at" ->
         LET m == ModAt(h, id, e[2])
         IN IF m = 0 THEN <<"err">>
            ELSE IF e[3] \in DOMAIN h[m].a /\ h[m].a[e[3]].k # "mod" /\ IsInt(h[m].a[e[3]].v)
                 THEN h[m].a[e[3]].v ELSE <<"err">>
    [] e[1] \in {"+", "*"} ->
         LET x == Eval(h, id, args, e[2])
             y == Eval(h, id, args, e[3])
         IN IF x = <<"err">> \/ y = <<"err">> THEN <<"err">>
            ELSE LET a == x[2] % 10007  b == y[2] % 10007     \* TLC's integers are 32 bit
                 IN IF e[1] = "+" THEN IntV((a + b) % 10007) ELSE IntV((a * b) % 10007)

(* one instruction: acc = [ok, h, out, done] *)
Step(acc, id, args, ins) ==
  IF ~acc.ok \/ acc.done THEN acc
  ELSE LET h == acc.h
           fail == [acc EXCEPT !.ok = FALSE]
       IN
       CASE ins[1] = "raise" -> fail
         [] ins[1] = "ret" ->
              LET v == Eval(h, id, args, ins[2])
              IN IF v = <<"err">> THEN fail ELSE [acc EXCEPT !.out = v, !.done = TRUE]
         [] OTHER ->
              LET m == ModAt(h, id, ins[2]) IN
              IF m = 0 THEN fail ELSE
              CASE ins[1] = "set" ->
                     LET v == Eval(h, id, args, ins[4])
                     IN IF v = <<"err">> THEN fail
                        ELSE LET s == SetAttr(h, m, ins[3], [k |-> "static", v |-> v])
                             IN IF s.ok THEN [acc EXCEPT !.h = s.h] ELSE fail
                [] ins[1] = "mkvar" ->
                     LET v == Eval(h, id, args, ins[5])
                     IN IF v = <<"err">> THEN fail
                        ELSE LET s == SetAttr(h, m, ins[3],
                                  [k |-> "var", ty |-> ins[4], md |-> [sharding |-> "None"], v |-> v])
                             IN IF s.ok THEN [acc EXCEPT !.h = s.h] ELSE fail
                [] ins[1] = "mkmod" ->
                     LET s == SetAttr(Append(h, NewMod(ins[4], 0, <<>>)), m, ins[3],
                                      [k |-> "mod", r |-> Len(h) + 1])
                     IN IF s.ok THEN [acc EXCEPT !.h = s.h] ELSE fail
                [] ins[1] = "sow" ->
                     LET v == Eval(h, id, args, ins[5])
                     IN IF v = <<"err">> THEN fail
                        ELSE LET s == SowInto(h, m, ins[3], ins[4], v)
                             IN IF s.ok THEN [acc EXCEPT !.h = s.h] ELSE fail
                [] ins[1] = "del" ->
                     IF ins[3] \in DOMAIN h[m].a
                     THEN [acc EXCEPT !.h = DelAttr(h, m, ins[3])] ELSE fail

Exec(h, id, args, prog) ==
  Fold(LAMBDA acc, ins : Step(acc, id, args, ins),
       [ok |-> TRUE, h |-> h, out |-> IntV(0), done |-> FALSE], prog)

(* Keep the first n0 modules, and the new ones reachable from root renumbered  *)
(* in walk order: the numbering the harness uses when it discovers objects.    *)
Renum(n0, h, root) ==
  LET new == SelectSeq(Walk(h, root).ids, LAMBDA x : x > n0)
      num(x) == IF x <= n0 THEN x ELSE n0 + IndexOf(x, new)
      rename(m) == [m EXCEPT !.a = [ n \in DOMAIN @ |->
                       IF @[n].k = "mod" /\ (@[n].r <= n0 \/ Member(@[n].r, new))
                       THEN [k |-> "mod", r |-> num(@[n].r)] ELSE @[n] ]]
  IN [ h |-> [ j \in 1..n0 |-> rename(h[j]) ] \o [ j \in 1..Len(new) |-> rename(h[new[j]]) ],
       r |-> num(root) ]

----------------------------------------------------------------------------
(* Results *)
ErrR == [t |-> "err"]
NoneR == [t |-> "none"]
ModR(r) == [t |-> "mod", r |-> r]
StateR(es) == [t |-> "state", ss |-> <<es>>]
StatesR(ss) == [t |-> "states", ss |-> ss]
DefR(d) == [t |-> "def", d |-> d]
PureR(one, ss, d) == [t |-> "pure", one |-> one, ss |-> ss, d |-> d]
ValR(v) == [t |-> "val", v |-> v]
ListR(s) == [t |-> "list", xs |-> s]
PairR(x, y) == [t |-> "pair", x |-> x, y |-> y]

Res(h, r) == [h |-> h, res |-> r]
Fail(h) == [h |-> h, res |-> ErrR]

(* a single state is not wrapped when there is at most one filter *)
StatesOrOne(fs, ss) == IF Len(fs) <= 1 THEN StateR(ss[1]) ELSE StatesR(ss)

PartitionEntries(es, fs) ==
  \* [ok, ss]
  IF Len(fs) = 0 THEN [ok |-> TRUE, ss |-> <<es>>]
  ELSE IF FiltersBad(fs) THEN [ok |-> FALSE, ss |-> <<>>]
  ELSE LET parts == SplitEntries(es, fs)
       IN [ok |-> Last(parts) = <<>>, ss |-> Front(parts)]
FilterEntries(es, fs) ==
  IF FiltersBad(fs) THEN [ok |-> FALSE, ss |-> <<>>]
  ELSE [ok |-> TRUE, ss |-> Front(SplitEntries(es, fs))]

RegState(regs, ref) == regs[ref[1]].ss[ref[2]]
RegStates(regs, refs) == [ j \in 1..Len(refs) |-> RegState(regs, refs[j]) ]

(* the sequence of states an update source denotes *)
SrcStates(h, regs, src) ==
  CASE src.t = "states" -> RegStates(regs, src.ss)
    [] src.t = "pure" -> regs[src.p].ss
    [] src.t = "mod" -> <<StateOf(h, src.m)>>

RECURSIVE Target(_, _, _)
(* accessor chain: attribute / item accesses, 0 if it does not lead to a module *)
Target(h, id, acc) ==
  IF id = 0 \/ acc = <<>> THEN id
  ELSE LET kind == acc[1][1]
           x == acc[1][2]
           subs == Subs(h, id)
           \* class C: by position among its submodules, from the end if negative, or along a path
           at == IF kind = "attr" \/ (kind = "item" /\ h[id].c = "D") THEN ModAt(h, id, <<x>>)
                 ELSE IF h[id].c # "C" THEN 0
                 ELSE IF kind = "tup" THEN ModAt(h, id, x)
                 ELSE IF kind = "idx" /\ x >= -Len(subs) /\ x < Len(subs)
                      THEN h[id].a[subs[(IF x >= 0 THEN x ELSE Len(subs) + x) + 1]].r
                 ELSE 0
       IN Target(h, at, Tail(acc))

(* a call on a copy: [ok, out, h, r] where h extends the heap by the copy *)
CallOn(h, d, ss, acc, args, prog) ==
  LET m == MergeDef(h, d, ss)
      root == Len(h) + 1
      tgt == IF m.ok THEN Target(m.h, root, acc) ELSE 0
      ex == IF tgt # 0 THEN Exec(m.h, tgt, args, prog) ELSE [ok |-> FALSE, h |-> h, out |-> IntV(0)]
  IN IF ~m.ok \/ tgt = 0 \/ ~ex.ok THEN [ok |-> FALSE, h |-> h, out |-> IntV(0), r |-> 0]
     ELSE [ok |-> TRUE, h |-> ex.h, out |-> ex.out, r |-> root]

MapInts(es, k) == [ j \in 1..Len(es) |->
   << es[j][1], IF IsInt(es[j][2].v) THEN [es[j][2] EXCEPT !.v = IntV(@[2] + k)]
                ELSE [es[j][2] EXCEPT !.v = TupV([ q \in 1..Len(@[2]) |-> IntV(@[2][q][2] + k) ])] >> ]

(* shallow copy: a fresh module with the same attributes *)
CopyMod(h, m) == Append(h, h[m])
(* deep copy: isomorphic copy of everything reachable *)
DeepCopy(h, m) ==
  LET ids == Walk(h, m).ids
      n0 == Len(h)
      ren(e) == IF e.k = "mod" THEN [k |-> "mod", r |-> n0 + IndexOf(e.r, ids)] ELSE e
  IN h \o [ j \in 1..Len(ids) |-> [h[ids[j]] EXCEPT !.a = [ n \in DOMAIN @ |-> ren(@[n]) ]] ]

Apply(h, regs, op) ==
  CASE op.o = "new" -> Res(Append(h, NewMod(op.c, 0, <<>>)), ModR(Len(h) + 1))
    [] op.o = "set" ->
         LET s == SetAttr(h, op.m, op.n, op.x) IN IF s.ok THEN Res(s.h, NoneR) ELSE Fail(h)
    [] op.o = "del" ->
         IF op.n \in DOMAIN h[op.m].a THEN Res(DelAttr(h, op.m, op.n), NoneR) ELSE Fail(h)
    [] op.o = "get" ->
         IF op.n \notin DOMAIN h[op.m].a THEN Fail(h)
         ELSE LET e == h[op.m].a[op.n] IN Res(h, IF e.k = "mod" THEN ModR(e.r) ELSE ValR(e.v))
    [] op.o = "state" -> Res(h, StateR(StateOf(h, op.m)))
    [] op.o = "def" -> Res(h, DefR(DefOf(h, op.m)))
    [] op.o = "idef" ->     \* taken while every module of the graph is initialising
         LET R == Reach(h, op.m)
             on(k) == [ j \in 1..Len(h) |-> IF j \in R THEN [h[j] EXCEPT !.i = k] ELSE h[j] ]
         IN Res(on(0), DefR(DefOf(on(1), op.m)))
    [] op.o = "mdict" -> Res(h, ListR([ j \in 1..Len(StateOf(h, op.m)) |-> StateOf(h, op.m)[j][1] ]))
    [] op.o \in {"mlget", "mlset"} ->
         LET id == ModAt(h, op.m, Front(op.path))
             n == Last(op.path)
             made == op.hold # 0 \/ HasPath(StateOf(h, op.m), op.path)
         IN IF ~made \/ id = 0 THEN Fail(h)
            ELSE IF op.o = "mlset" THEN LET s == SetAttr(h, id, n, op.x) IN IF s.ok THEN Res(s.h, NoneR) ELSE Fail(h)
            ELSE IF n \notin DOMAIN h[id].a THEN Fail(h)
            ELSE LET e == h[id].a[n] IN
                 Res(h, PairR(IF e.k = "mod" THEN ModR(e.r) ELSE ValR(e.v),
                              ValR(<<"s", IF e.k = "var" /\ "sharding" \in DOMAIN e.md THEN e.md.sharding ELSE "None">>)))
    [] op.o = "part" ->
         LET p == PartitionEntries(StateOf(h, op.m), op.fs)
         IN IF p.ok THEN Res(h, PureR(Len(op.fs) <= 1, p.ss, DefOf(h, op.m))) ELSE Fail(h)
    [] op.o = "filt" ->
         LET p == FilterEntries(StateOf(h, op.m), op.fs)
         IN IF p.ok THEN Res(h, StatesOrOne(op.fs, p.ss)) ELSE Fail(h)
    [] op.o = "clone" ->
         LET m == MergeDef(h, DefOf(h, op.m), <<StateOf(h, op.m)>>)
         IN Res(m.h, ModR(Len(h) + 1))
    [] op.o = "copy" -> Res(CopyMod(h, op.m), ModR(Len(h) + 1))
    [] op.o \in {"deepcopy", "pickle"} -> Res(DeepCopy(h, op.m), ModR(Len(h) + 1))
    [] op.o = "merge" ->
         LET m == MergeDef(h, regs[op.d].d, RegStates(regs, op.ss))
         IN IF m.ok THEN Res(m.h, ModR(Len(h) + 1)) ELSE Fail(h)
    [] op.o = "pmerge" ->
         LET m == MergeDef(h, regs[op.p].d, regs[op.p].ss)
         IN IF m.ok THEN Res(m.h, ModR(Len(h) + 1)) ELSE Fail(h)
    [] op.o = "upd" ->
         LET u == UpdateWith(h, op.m, SrcStates(h, regs, op.src))
         IN IF u.ok THEN Res(u.h, NoneR) ELSE Fail(u.h)
    [] op.o = "pop" ->
         IF op.fs = <<>> \/ FiltersBad(op.fs) THEN Fail(h)
         ELSE LET p == PopFrom(h, op.m, op.fs) IN Res(p.h, StatesOrOne(op.fs, p.ss))
    [] op.o = "pget" -> Res(h, StateR(MergeStates(regs[op.p].ss)))
    [] op.o = "pfilt" ->
         LET p == FilterEntries(MergeStates(regs[op.p].ss), op.fs)
         IN IF p.ok THEN Res(h, StatesOrOne(op.fs, p.ss)) ELSE Fail(h)
    [] op.o = "ppart" ->
         LET p == PartitionEntries(MergeStates(regs[op.p].ss), op.fs)
         IN IF p.ok THEN Res(h, PureR(Len(op.fs) <= 1, p.ss, regs[op.p].d)) ELSE Fail(h)
    [] op.o = "ppop" ->
         LET es == MergeStates(regs[op.p].ss)
             parts == SplitEntries(es, op.fs)
         IN IF FiltersBad(op.fs) THEN Fail(h)
            ELSE Res(h, PairR(StatesOrOne(op.fs, Front(parts)),
                              PureR(TRUE, <<Last(parts)>>, regs[op.p].d)))
    [] op.o = "pupd" ->
         Res(h, PureR(TRUE, <<MergeStates(regs[op.p].ss \o SrcStates(h, regs, op.src))>>,
                      regs[op.p].d))
    [] op.o = "smerge" -> Res(h, StateR(MergeStates(RegStates(regs, op.ss))))
    [] op.o = "sor" -> Res(h, StateR(MergeStates(RegStates(regs, <<op.s, op.s2>>))))
    [] op.o = "ssub" -> Res(h, StateR(SubState(RegState(regs, op.s), RegState(regs, op.s2))))
    [] op.o = "spart" ->
         LET p == PartitionEntries(RegState(regs, op.s), op.fs)
         IN IF p.ok THEN Res(h, StatesOrOne(op.fs, p.ss)) ELSE Fail(h)
    [] op.o = "sfilt" ->
         LET p == FilterEntries(RegState(regs, op.s), op.fs)
         IN IF p.ok THEN Res(h, StatesOrOne(op.fs, p.ss)) ELSE Fail(h)
    [] op.o = "smk" -> Res(h, StateR(NormEntries(op.es)))
    [] op.o = "smap" -> Res(h, StateR(MapInts(RegState(regs, op.s), op.by)))
    [] op.o = "sflat" ->
         LET es == RegState(regs, op.s)
         IN Res(h, PairR(ListR([ j \in 1..Len(es) |-> es[j][1] ]), StateR(es)))
    [] op.o = "sget" ->
         LET es == RegState(regs, op.s)
         IN IF HasPath(es, op.path) THEN Res(h, [t |-> "leaf", e |-> LeafAt(es, op.path)]) ELSE Fail(h)
    [] op.o = "deq" ->
         LET b == DefEq(regs[op.d1].d, regs[op.d2].d)
         IN Res(h, [t |-> "deq", eq |-> b])
    [] op.o = "dflat" -> Res(h, PairR([t |-> "nleaves", n |-> 0], DefR(regs[op.d].d)))
    [] op.o = "sow" ->
         LET s == SowInto(h, op.m, op.ty, op.n, op.v) IN IF s.ok THEN Res(s.h, NoneR) ELSE Fail(h)
    [] op.o = "each" ->
         Res(h, ListR(SetToSortSeq({ x \in Reach(h, op.m) : IsClass(h[x].c, op.c) },
                                   LAMBDA a, b : a < b)))
    [] op.o = "run" ->      \* call the method directly on the module
         LET tgt == Target(h, op.m, op.acc)
             ex == Exec(h, tgt, op.args, op.prog)
         IN IF tgt = 0 THEN Fail(h)
            ELSE LET q == Renum(Len(h), ex.h, op.m)
                 IN IF ex.ok THEN Res(q.h, ValR(ex.out)) ELSE Fail(q.h)
    [] op.o = "init" ->
         \* the modules initialising during the call (sampled at its first instruction)
         LET tgt == Target(h, op.m, op.acc)
             R == Reach(h, op.m)
             h1 == [ j \in 1..Len(h) |-> IF j \in R THEN [h[j] EXCEPT !.i = 1] ELSE h[j] ]
             ex == Exec(h1, tgt, op.args, op.prog)
             h2 == [ j \in 1..Len(ex.h) |-> IF j \in R THEN [ex.h[j] EXCEPT !.i = 0] ELSE ex.h[j] ]
             q == Renum(Len(h), h2, op.m)
             during == SetToSortSeq({ x \in 1..Len(h) : h1[x].i = 1 }, LAMBDA a, b : a < b)
         IN IF tgt = 0 THEN Res([ j \in 1..Len(h) |-> IF j \in R THEN [h[j] EXCEPT !.i = 0] ELSE h[j] ], ErrR)
            ELSE IF ex.ok THEN Res(q.h, PairR(ListR(during), ValR(ex.out)))
                 ELSE Res(q.h, PairR(ListR(during), ErrR))
    [] op.o = "apply" ->    \* m.apply.acc(...) -> (out, updated copy)
         LET c == CallOn(h, DefOf(h, op.m), <<StateOf(h, op.m)>>, op.acc, op.args, op.prog)
             q == Renum(Len(h), c.h, c.r)
         IN IF c.ok THEN Res(q.h, PairR(ValR(c.out), ModR(q.r))) ELSE Fail(h)
    [] op.o \in {"papply", "dapply"} ->  \* pure.apply / def.apply(states) -> (out, pure)
         LET c == CallOn(h, IF op.o = "papply" THEN regs[op.p].d ELSE regs[op.d].d,
                         IF op.o = "papply" THEN regs[op.p].ss ELSE RegStates(regs, op.ss),
                         op.acc, op.args, op.prog)
         IN IF c.ok THEN Res(h, PairR(ValR(c.out),
                                      PureR(TRUE, <<StateOf(c.h, c.r)>>, DefOf(c.h, c.r))))
            ELSE Fail(h)
    [] op.o = "pcall" ->
         LET c == CallOn(h, regs[op.p].d, regs[op.p].ss, op.acc, op.args, op.prog)
         IN IF c.ok THEN Res(h, ValR(c.out)) ELSE Fail(h)

(* operations that push their result on the registers *)
Pushes(res) == res.t \in {"state", "states", "def", "pure"}
PushOf(res) == IF res.t = "pair" THEN (IF Pushes(res.x) THEN <<res.x>> ELSE <<>>) \o
                                      (IF Pushes(res.y) THEN <<res.y>> ELSE <<>>)
               ELSE IF Pushes(res) THEN <<res>> ELSE <<>>
=============================================================================
