-------------------------------- MODULE Pytree --------------------------------
(* Pytree objects (nnx.Pytree), dataclass field declarations and flax state      *)
(* dictionaries.                                                               *)
(*                                                                             *)
(* values : <<"num", t>> <<"arr", t>> <<"str", s>> <<"none">>                  *)
(*          <<"c", type, metadata, value>>       a container                   *)
(*          <<"cm", metadata, value>>            a value carrying metadata     *)
(*          <<"seq", "list"|"tuple", << value, ... >> >>                       *)
(*          <<"map", "dict"|"state", << <<key, value>>, ... >> >>              *)
(*          <<"ref", i>>                         the i-th object               *)
(*          <<"reg", r>> (operands only)         what was made by operation r  *)
(* class  : [mod, mut, dc, own, frozen, fields, post]                          *)
(* field  : [n, k, ty, sh, init, d], k: "plain" "field" "node" "static" "var"  *)
(*          "param"; d: <<"no">>, <<"d", default>>, <<"f", made by a factory>>  *)
(*          optionally opt: [cmp, rep, note] (compared, printed, metadata)      *)
(* A state is [cl, h, regs]: classes, objects and the values made so far.      *)
EXTENDS Base

VarTypes == {"Variable", "Param", "BatchStat", "Cache", "Intermediate", "MyParam", "MyVar"}
IsCont(v) == v[1] = "c"
IsNodeVal(v) == (IsCont(v) /\ v[2] # "Static") \/ v[1] \in {"arr", "ref"} \/ (v[1] = "map" /\ v[2] = "state")
Unbox(v) == IF IsCont(v) THEN v[4] ELSE v
NormMd(ty, md) == IF ty \in VarTypes /\ "sharding" \notin DOMAIN md THEN With(md, "sharding", "None") ELSE md
Cont(ty, md, v) == <<"c", ty, NormMd(ty, md), v>>
SameKind(a, b) == a[2] = b[2] /\ a[3] = b[3]

RECURSIVE Resolve(_, _)
Resolve(s, v) ==
  CASE v[1] = "reg" -> s.regs[v[2]]
    [] v[1] = "c" -> Cont(v[2], v[3], Resolve(s, v[4]))
    [] v[1] = "seq" -> <<"seq", v[2], [ i \in 1..Len(v[3]) |-> Resolve(s, v[3][i]) ]>>
    [] v[1] = "map" -> <<"map", v[2], [ i \in 1..Len(v[3]) |-> <<v[3][i][1], Resolve(s, v[3][i][2])>> ]>>
    [] OTHER -> v

(* ---------------------------------------------------------------- fields *)
(* storing v under n: an existing container keeps its kind                       *)
Store(a, n, v) ==
  IF n \in DOMAIN a /\ IsCont(a[n])
  THEN IF ~IsCont(v) THEN [ok |-> TRUE, a |-> [a EXCEPT ![n][4] = v]]
       ELSE [ok |-> SameKind(a[n], v), a |-> [a EXCEPT ![n][4] = v[4]]]
  ELSE [ok |-> TRUE, a |-> With(a, n, v)]
StoreAll(a, nvs) == Fold(LAMBDA acc, nv : IF acc.ok THEN Store(acc.a, nv[1], nv[2]) ELSE acc, [ok |-> TRUE, a |-> a], nvs)

Names(fs) == [ i \in 1..Len(fs) |-> fs[i].n ]
FieldOf(c, n) == c.fields[IndexOf(n, Names(c.fields))]
HasField(c, n) == Member(n, Names(c.fields))
Declares(f) == f.k \notin {"plain", "field"}
DeclType(f) == CASE f.k = "node" -> "Node" [] f.k = "static" -> "Static" [] f.k = "param" -> "Param" [] OTHER -> f.ty
DeclMd(f) == IF f.k = "var" THEN [sharding |-> f.sh] ELSE <<>>
Wrap(f, v) ==
  LET box == Cont(DeclType(f), DeclMd(f), Unbox(v))
  IN IF IsCont(v) THEN [ok |-> SameKind(box, v), v |-> box]
     ELSE IF v[1] = "cm" THEN [ok |-> f.k # "static", v |-> <<"c", box[2], v[2] @@ box[3], v[3]>>]
     ELSE [ok |-> TRUE, v |-> box]

(* kw: sequence of <<name, value>> *)
Given(kw, n) == \E i \in 1..Len(kw) : kw[i][1] = n
Arg(kw, n) == (CHOOSE i \in 1..Len(kw) : kw[i][1] = n)
DcInit(c, kw) ==        \* [ok, a] of a dataclass constructor
  LET known == \A i \in 1..Len(kw) : HasField(c, kw[i][1]) /\ FieldOf(c, kw[i][1]).init = 1
      complete == \A i \in 1..Len(c.fields) : c.fields[i].init = 1 /\ c.fields[i].d[1] = "no" => Given(kw, c.fields[i].n)
      vals == ConcatAll([ i \in 1..Len(c.fields) |-> LET f == c.fields[i] IN
                IF f.init = 1 /\ Given(kw, f.n) THEN << <<f.n, kw[Arg(kw, f.n)][2]>> >>
                ELSE IF f.d[1] = "f" \/ (f.init = 1 /\ f.d[1] = "d") THEN << <<f.n, f.d[2]>> >>
                ELSE <<>> ])
      stored == StoreAll(<<>>, vals)
      posted == StoreAll(stored.a, c.post)
      wrap(acc, f) ==
        IF ~acc.ok \/ ~Declares(f) THEN acc
        ELSE IF f.n \notin DOMAIN acc.a /\ f.d[1] # "d" THEN [acc EXCEPT !.ok = FALSE]
        ELSE LET w == Wrap(f, IF f.n \in DOMAIN acc.a THEN acc.a[f.n] ELSE f.d[2])
             IN [ok |-> w.ok, a |-> With(acc.a, f.n, w.v)]
  IN IF c.opt.init = 0       \* no constructor: nothing can be given, only the class's defaults are there
     THEN IF kw # <<>> THEN [ok |-> FALSE, a |-> <<>>] ELSE Fold(wrap, [ok |-> TRUE, a |-> <<>>], c.fields)
     ELSE IF ~known \/ ~complete THEN [ok |-> FALSE, a |-> <<>>]
     ELSE IF c.frozen = 1 /\ c.post # <<>> THEN [ok |-> FALSE, a |-> <<>>]
     ELSE Fold(wrap, posted, c.fields)

(* ---------------------------------------------------------------- trees *)
NodeNames(a) == SortedNames({ n \in DOMAIN a : IsNodeVal(a[n]) })
RECURSIVE Deep(_, _)
Deep(h, v) ==
  CASE v[1] = "ref" -> LET o == h[v[2]]  ns == SortedNames(DOMAIN o.a)
                       IN <<"obj", o.c, [ i \in 1..Len(ns) |-> <<ns[i], Deep(h, o.a[ns[i]])>> ]>>
    [] v[1] = "c" -> <<"c", v[2], v[3], Deep(h, v[4])>>
    [] v[1] = "seq" -> <<"seq", v[2], [ i \in 1..Len(v[3]) |-> Deep(h, v[3][i]) ]>>
    [] v[1] = "map" -> <<"map", v[2], [ i \in 1..Len(v[3]) |-> <<v[3][i][1], Deep(h, v[3][i][2])>> ]>>
    [] OTHER -> v
RECURSIVE LeavesOf(_, _, _)
LeavesOf(h, v, p) ==
  CASE v[1] = "ref" -> LET o == h[v[2]]  ns == NodeNames(o.a)
                       IN ConcatAll([ i \in 1..Len(ns) |-> LeavesOf(h, o.a[ns[i]], Append(p, ns[i])) ])
    [] v[1] = "c" -> IF v[2] = "Static" THEN <<>> ELSE LeavesOf(h, v[4], Append(p, "value"))
    [] v[1] = "seq" -> ConcatAll([ i \in 1..Len(v[3]) |-> LeavesOf(h, v[3][i], Append(p, ToString(i - 1))) ])
    [] v[1] = "map" -> ConcatAll([ i \in 1..Len(v[3]) |-> LeavesOf(h, v[3][i][2], Append(p, v[3][i][1])) ])
    [] v[1] = "none" -> <<>>
    [] OTHER -> << <<p, v>> >>
RECURSIVE Struct(_, _)
Struct(h, v) ==
  CASE v[1] = "ref" -> LET o == h[v[2]]
                       IN <<"obj", o.c, [ n \in DOMAIN o.a |-> IF IsNodeVal(o.a[n]) THEN <<"node", Struct(h, o.a[n])>> ELSE <<"static", Deep(h, o.a[n])>> ]>>
    [] v[1] = "c" -> IF v[2] = "Static" THEN v ELSE <<"c", v[2], v[3], Struct(h, v[4])>>
    [] v[1] = "seq" -> <<"seq", v[2], [ i \in 1..Len(v[3]) |-> Struct(h, v[3][i]) ]>>
    [] v[1] = "map" -> <<"map", v[2], [ i \in 1..Len(v[3]) |-> <<v[3][i][1], Struct(h, v[3][i][2])>> ]>>
    [] v[1] = "none" -> v
    [] OTHER -> <<"*">>

(* a walk that rebuilds: threads the heap through the children *)
ThreadSeq(f(_, _), h, xs) ==      \* xs: values; result [ok, h, xs]
  Fold(LAMBDA acc, x : LET r == f(acc.h, x) IN [ok |-> acc.ok /\ r.ok, h |-> r.h, xs |-> Append(acc.xs, r.v)],
       [ok |-> TRUE, h |-> h, xs |-> <<>>], xs)
LeafMap(how, by, v) ==
  CASE how \in {"id", "fill"} -> [ok |-> TRUE, v |-> v]
    [] how = "clear" -> [ok |-> TRUE, v |-> <<"none">>]
    [] v[1] = "str" -> [ok |-> FALSE, v |-> v]
    [] how = "jit" -> [ok |-> TRUE, v |-> <<"arr", v[2]>>]
    [] v[2][1] = "i" -> [ok |-> TRUE, v |-> <<v[1], <<"i", v[2][2] + by>> >>]
    [] OTHER -> [ok |-> TRUE, v |-> <<v[1], <<"a", [ i \in 1..Len(v[2][2]) |-> <<"i", v[2][2][i][2] + by>> ]>> >>]
RECURSIVE TreeMap(_, _, _, _)
TreeMap(how, by, h, v) ==
  CASE v[1] = "ref" ->
         LET o == h[v[2]]
             ns == NodeNames(o.a)
             r == ThreadSeq(LAMBDA hh, x : TreeMap(how, by, hh, x), h, [ i \in 1..Len(ns) |-> o.a[ns[i]] ])
             a2 == [ n \in DOMAIN o.a |-> IF Member(n, ns) THEN r.xs[IndexOf(n, ns)] ELSE o.a[n] ]
         IN [ok |-> r.ok, h |-> Append(r.h, [o EXCEPT !.a = a2]), v |-> <<"ref", Len(r.h) + 1>>]
    [] v[1] = "c" -> IF v[2] = "Static" THEN [ok |-> TRUE, h |-> h, v |-> v]
                     ELSE LET r == TreeMap(how, by, h, v[4]) IN [r EXCEPT !.v = <<"c", v[2], v[3], @>>]
    [] v[1] = "seq" -> LET r == ThreadSeq(LAMBDA hh, x : TreeMap(how, by, hh, x), h, v[3]) IN [ok |-> r.ok, h |-> r.h, v |-> <<"seq", v[2], r.xs>>]
    [] v[1] = "map" -> LET r == ThreadSeq(LAMBDA hh, x : TreeMap(how, by, hh, x), h, [ i \in 1..Len(v[3]) |-> v[3][i][2] ])
                       IN [ok |-> r.ok, h |-> r.h, v |-> <<"map", v[2], [ i \in 1..Len(v[3]) |-> <<v[3][i][1], r.xs[i]>> ]>>]
    [] v[1] = "none" -> [ok |-> TRUE, h |-> h, v |-> IF how = "fill" THEN <<"num", <<"i", by>> >> ELSE v]
    [] OTHER -> LET r == LeafMap(how, by, v) IN [ok |-> r.ok, h |-> h, v |-> r.v]

RECURSIVE Reach(_, _)
Reach(h, v) ==
  CASE v[1] = "ref" -> {v[2]} \cup UNION { Reach(h, h[v[2]].a[n]) : n \in DOMAIN h[v[2]].a }
    [] v[1] = "c" -> Reach(h, v[4])
    [] v[1] = "seq" -> UNION { Reach(h, v[3][i]) : i \in 1..Len(v[3]) }
    [] v[1] = "map" -> UNION { Reach(h, v[3][i][2]) : i \in 1..Len(v[3]) }
    [] OTHER -> {}
RECURSIVE Rename(_, _)
Rename(f, v) ==
  CASE v[1] = "ref" -> <<"ref", f[v[2]]>>
    [] v[1] = "c" -> <<"c", v[2], v[3], Rename(f, v[4])>>
    [] v[1] = "seq" -> <<"seq", v[2], [ i \in 1..Len(v[3]) |-> Rename(f, v[3][i]) ]>>
    [] v[1] = "map" -> <<"map", v[2], [ i \in 1..Len(v[3]) |-> <<v[3][i][1], Rename(f, v[3][i][2])>> ]>>
    [] OTHER -> v
DeepCopy(h, v) ==
  LET ids == SetToSortSeq(Reach(h, v), LAMBDA x, y : x < y)
      f == [ i \in Range(ids) |-> Len(h) + IndexOf(i, ids) ]
  IN [ok |-> TRUE, v |-> Rename(f, v),
      h |-> h \o [ j \in 1..Len(ids) |-> LET o == h[ids[j]] IN [o EXCEPT !.a = [ n \in DOMAIN @ |-> Rename(f, @[n]) ]] ]]

(* ---------------------------------------------------------------- state dictionaries *)
DictOf(kvs) == <<"map", "dict", SortSeq(kvs, LAMBDA x, y : NameLess(x[1], y[1]))>>
RECURSIVE ToDict(_, _)
ToDict(h, v) ==
  CASE v[1] = "ref" -> LET a == h[v[2]].a  ns == NodeNames(a) IN DictOf([ i \in 1..Len(ns) |-> <<ns[i], ToDict(h, Unbox(a[ns[i]]))>> ])
    [] v[1] = "seq" -> DictOf([ i \in 1..Len(v[3]) |-> <<ToString(i - 1), ToDict(h, v[3][i])>> ])
    [] v[1] = "map" /\ v[2] = "dict" -> DictOf([ i \in 1..Len(v[3]) |-> <<v[3][i][1], ToDict(h, v[3][i][2])>> ])
    [] OTHER -> v
KeysOf(d) == { d[3][i][1] : i \in 1..Len(d[3]) }
AtKey(d, k) == d[3][CHOOSE i \in 1..Len(d[3]) : d[3][i][1] = k][2]
IsDict(v) == v[1] = "map" /\ v[2] = "dict"
RECURSIVE FromDict(_, _, _)
FromDict(h, v, d) ==
  LET bad == [ok |-> FALSE, h |-> h, v |-> v]
      walk(pairs) == ThreadSeq(LAMBDA hh, x : FromDict(hh, x[1], x[2]), h, pairs)
  IN CASE v[1] = "ref" ->
            LET o == h[v[2]]
                ns == NodeNames(o.a)
                r == walk([ i \in 1..Len(ns) |-> <<Unbox(o.a[ns[i]]), AtKey(d, ns[i])>> ])
                st == StoreAll(o.a, [ i \in 1..Len(ns) |-> <<ns[i], r.xs[i]>> ])
            IN IF ~IsDict(d) \/ KeysOf(d) # Range(ns) THEN bad
               ELSE IF ~r.ok \/ ~st.ok THEN bad
               ELSE [ok |-> TRUE, h |-> Append(r.h, [o EXCEPT !.a = st.a]), v |-> <<"ref", Len(r.h) + 1>>]
       [] v[1] = "seq" ->
            IF ~IsDict(d) \/ KeysOf(d) # { ToString(i - 1) : i \in 1..Len(v[3]) } THEN bad
            ELSE LET r == walk([ i \in 1..Len(v[3]) |-> <<v[3][i], AtKey(d, ToString(i - 1))>> ])
                 IN [ok |-> r.ok, h |-> r.h, v |-> <<"seq", v[2], r.xs>>]
       [] IsDict(v) ->
            IF ~IsDict(d) \/ ~(KeysOf(v) \subseteq KeysOf(d)) THEN bad
            ELSE LET r == walk([ i \in 1..Len(v[3]) |-> <<v[3][i][2], AtKey(d, v[3][i][1])>> ])
                 IN [ok |-> r.ok, h |-> r.h, v |-> <<"map", "dict", [ i \in 1..Len(v[3]) |-> <<v[3][i][1], r.xs[i]>> ]>>]
       [] OTHER -> [ok |-> TRUE, h |-> h, v |-> d]
(* editing a dictionary: how \in "set" "del" "add" *)
RECURSIVE Edit(_, _, _, _)
Edit(d, p, how, v) ==
  IF Len(p) > 1 THEN [d EXCEPT ![3] = [ i \in 1..Len(@) |-> IF @[i][1] = p[1] THEN <<p[1], Edit(@[i][2], Tail(p), how, v)>> ELSE @[i] ]]
  ELSE IF how = "del" THEN [d EXCEPT ![3] = SelectSeq(@, LAMBDA kv : kv[1] # p[1])]
  ELSE DictOf(Append(SelectSeq(d[3], LAMBDA kv : kv[1] # p[1]), <<p[1], v>>))

(* ---------------------------------------------------------------- operations *)
Err == [t |-> "err"]
Ok == [t |-> "ok"]
Res(s, r) == [s |-> s, res |-> r]
Put(s, h, v) == Res([s EXCEPT !.h = h, !.regs = Append(@, v)], [t |-> "obj", x |-> Deep(h, v)])
PutNew(s, c, a) == Put(s, Append(s.h, [c |-> c, a |-> a]), <<"ref", Len(s.h) + 1>>)
ClassOf(s, id) == s.cl[s.h[id].c]

(* assignment after construction *)
Assign(s, id, n, v) ==
  LET c == ClassOf(s, id)
      r == Store(s.h[id].a, n, v)
      may == c.mod = 1 \/ (c.frozen = 0 /\ c.mut = 1 /\ n \in DOMAIN s.h[id].a)
  IN IF may /\ r.ok THEN [ok |-> TRUE, s |-> [s EXCEPT !.h[id].a = r.a]] ELSE [ok |-> FALSE, s |-> s]
Look(s, id, n) ==
  LET a == s.h[id].a  c == ClassOf(s, id)
  IN IF n \in DOMAIN a THEN [ok |-> TRUE, v |-> Unbox(a[n])]
     ELSE IF HasField(c, n) /\ FieldOf(c, n).d[1] = "d" THEN [ok |-> TRUE, v |-> FieldOf(c, n).d[2]]
     ELSE [ok |-> FALSE, v |-> <<"none">>]
(* the steps of a constructor written by hand; each either happens or is refused *)
InitStep(acc, st) ==
  LET v == Resolve(acc.s, st.v)
      r == Store(acc.a, st.n, v)
      inner == Assign(acc.s, Unbox(acc.a[st.n])[2], st.m, v)
  IN CASE st.k = "set" -> [acc EXCEPT !.a = IF r.ok THEN r.a ELSE @, !.log = Append(@, IF r.ok THEN 1 ELSE 0)]
       [] st.k = "poke" ->      \* assign to an attribute of the object held by attribute n
            IF st.n \in DOMAIN acc.a /\ Unbox(acc.a[st.n])[1] = "ref"
            THEN [acc EXCEPT !.s = inner.s, !.log = Append(@, IF inner.ok THEN 1 ELSE 0)]
            ELSE [acc EXCEPT !.log = Append(@, 0)]
       [] st.k = "raise" -> [acc EXCEPT !.ok = FALSE]
ReplaceObj(s, id, kw) ==
  LET o == s.h[id]
      c == s.cl[o.c]
      fs == SelectSeq(c.fields, LAMBDA f : f.init = 1)
      arg(f) == IF Given(kw, f.n) THEN kw[Arg(kw, f.n)][2] ELSE Look(s, id, f.n).v
      keep(f) == ~Declares(f) /\ f.n \in DOMAIN o.a /\ IsCont(o.a[f.n])
      val(f) == IF keep(f) /\ Given(kw, f.n) THEN Store(o.a, f.n, arg(f)) ELSE [ok |-> TRUE, a |-> o.a]
      vals == [ i \in 1..Len(fs) |-> <<fs[i].n, IF keep(fs[i]) THEN val(fs[i]).a[fs[i].n] ELSE arg(fs[i])>> ]
      extra == \E i \in 1..Len(kw) : ~Member(kw[i][1], Names(fs))
      st == StoreAll(o.a, kw)
  IN IF c.dc = 1 THEN IF extra \/ \E i \in 1..Len(fs) : ~val(fs[i]).ok THEN [ok |-> FALSE, a |-> <<>>] ELSE DcInit(c, vals)
     ELSE [ok |-> st.ok /\ \A i \in 1..Len(kw) : kw[i][1] \in DOMAIN o.a, a |-> st.a]

Pairs(s, kw) == [ i \in 1..Len(kw) |-> <<kw[i][1], Resolve(s, kw[i][2])>> ]
Merged(base, own) ==
  [ i \in 1..Len(base) |-> IF Member(base[i].n, Names(own)) THEN own[IndexOf(base[i].n, Names(own))] ELSE base[i] ]
  \o SelectSeq(own, LAMBDA f : ~Member(f.n, Names(base)))
Opt(rec, k, dflt) == IF "opt" \in DOMAIN rec /\ k \in DOMAIN rec.opt THEN rec.opt[k] ELSE dflt
Options(rec) == [init |-> Opt(rec, "init", 1), uh |-> Opt(rec, "uh", 0), eq |-> Opt(rec, "eq", 1), ord |-> Opt(rec, "ord", 0), rep |-> Opt(rec, "rep", 1)]
NoClass == [opt |-> Options([dc |-> 0]), mod |-> 0, mut |-> 0, dc |-> 0, own |-> 0, frozen |-> 0, fields |-> <<>>, post |-> <<>>]
NewClass(s, op) ==
  LET base == IF op.base[1] = "c" THEN s.cl[op.base[2]] ELSE [NoClass EXCEPT !.mod = IF op.base[1] = "M" THEN 1 ELSE 0]
      own == [ i \in 1..Len(op.fields) |-> IF op.fields[i].d[1] = "no" THEN op.fields[i] ELSE [op.fields[i] EXCEPT !.d[2] = Resolve(s, @)] ]
      fs == IF op.dc = 1 THEN Merged(base.fields, own) ELSE base.fields
      ins == SelectSeq(fs, LAMBDA f : f.init = 1)
      late == \E i, j \in 1..Len(ins) : i < j /\ ins[i].d[1] # "no" /\ ins[j].d[1] = "no"
      clash == op.dc = 1 /\ base.dc = 1 /\ op.frozen # base.frozen
      reserved == \E i \in 1..Len(own) : Opt(own[i], "note", 0) = 9
      unordered == op.dc = 1 /\ Opt(op, "ord", 0) = 1 /\ Opt(op, "eq", 1) = 0
  IN [ok |-> ~(op.dc = 1 /\ late) /\ ~clash /\ ~reserved /\ ~unordered,
      c |-> [opt |-> IF op.dc = 1 THEN Options(op) ELSE base.opt, mod |-> base.mod, mut |-> op.mut, dc |-> IF op.dc = 1 THEN 1 ELSE base.dc, own |-> op.dc,
             frozen |-> IF op.dc = 1 THEN op.frozen ELSE base.frozen, fields |-> fs,
             post |-> IF op.post # <<>> THEN Pairs(s, op.post) ELSE base.post]]
Id(s, op) == s.regs[op.r][2]

(* comparing and printing dataclass objects                                       *)
Chosen(c, k) == SelectSeq(c.fields, LAMBDA f : Opt(f, k, 1) = 1)
Readable(s, id, fs) == \A i \in 1..Len(fs) : Look(s, id, fs[i].n).ok
PlainOf(v) == CASE v[1] \in {"num", "arr"} -> <<"n", v[2][2]>> [] v[1] = "str" -> v [] OTHER -> <<"none">>
Row(s, id, fs) == [ i \in 1..Len(fs) |-> PlainOf(Look(s, id, fs[i].n).v) ]
RECURSIVE RowLess(_, _)
RowLess(a, b) == a # <<>> /\ (a[1][2] < b[1][2] \/ (a[1] = b[1] /\ RowLess(Tail(a), Tail(b))))
Compare(s, how, a, b) ==
  LET c == ClassOf(s, a)
      fs == Chosen(c, "cmp")
      same == s.h[a].c = s.h[b].c
      B(x) == [t |-> "bool", b |-> IF x THEN 1 ELSE 0]
  IN CASE how = "eq" -> IF ~same \/ c.opt.eq = 0 THEN B(a = b)
                        ELSE IF ~Readable(s, a, fs) \/ ~Readable(s, b, fs) THEN Err
                        ELSE B(Row(s, a, fs) = Row(s, b, fs))
       [] how = "lt" -> IF ~same \/ c.opt.ord = 0 \/ ~Readable(s, a, fs) \/ ~Readable(s, b, fs) THEN Err
                        ELSE B(RowLess(Row(s, a, fs), Row(s, b, fs)))
(* hashing: by identity, by the chosen fields, or not at all                        *)
HashOf(s, id) ==
  LET c == ClassOf(s, id)
      fs == SelectSeq(c.fields, LAMBDA f : LET h == Opt(f, "hash", 2) IN IF h = 2 THEN Opt(f, "cmp", 1) = 1 ELSE h = 1)
  IN IF c.opt.uh = 0 /\ c.opt.eq = 0 THEN <<"id", id>>
     ELSE IF c.opt.uh = 0 /\ c.frozen = 0 THEN <<"err">>
     ELSE IF ~Readable(s, id, fs) \/ \E i \in 1..Len(fs) : Look(s, id, fs[i].n).v[1] = "arr" THEN <<"err">>
     ELSE <<"row", Row(s, id, fs)>>
SameHash(s, a, b) ==
  LET x == HashOf(s, a)  y == HashOf(s, b)
  IN IF x[1] = "err" \/ y[1] = "err" THEN Err ELSE [t |-> "bool", b |-> IF x[1] = y[1] /\ x[2] = y[2] THEN 1 ELSE 0]
Printed(s, id) ==
  LET c == ClassOf(s, id)
      fs == Chosen(c, "rep")
  IN IF c.opt.rep = 0 THEN [t |-> "names", b |-> 0, ns |-> <<>>]
     ELSE IF ~Readable(s, id, fs) THEN Err
     ELSE [t |-> "names", b |-> 1, ns |-> Names(fs)]

Apply(s, op) ==
  CASE op.o = "cls" -> LET x == NewClass(s, op) IN IF x.ok THEN Res([s EXCEPT !.cl = Append(@, x.c)], Ok) ELSE Res(s, Err)
    [] op.o = "new" ->
         LET c == s.cl[op.c]
             d == DcInit(c, Pairs(s, op.kw))
             i == Fold(LAMBDA acc, st : IF acc.ok THEN InitStep(acc, st) ELSE acc, [ok |-> TRUE, s |-> s, a |-> <<>>, log |-> <<>>], op.steps)
         IN IF c.dc = 1 THEN IF d.ok THEN PutNew(s, op.c, d.a) ELSE Res(s, Err)
            ELSE IF ~i.ok THEN Res(i.s, Err)
            ELSE LET p == PutNew(i.s, op.c, i.a) IN Res(p.s, [t |-> "new", log |-> i.log, x |-> p.res.x])
    [] op.o = "get" -> LET x == Look(s, Id(s, op), op.n) IN Res(s, IF x.ok THEN [t |-> "val", x |-> Deep(s.h, x.v)] ELSE Err)
    [] op.o = "grab" -> LET x == Look(s, Id(s, op), op.n) IN IF x.ok /\ x.v[1] = "ref" THEN Put(s, s.h, x.v) ELSE Res(s, Err)
    [] op.o = "set" -> LET x == Assign(s, Id(s, op), op.n, Resolve(s, op.v)) IN Res(x.s, IF x.ok THEN Ok ELSE Err)
    [] op.o = "replace" -> LET x == ReplaceObj(s, Id(s, op), Pairs(s, op.kw)) IN IF x.ok THEN PutNew(s, s.h[Id(s, op)].c, x.a) ELSE Res(s, Err)
    [] op.o = "copy" -> PutNew(s, s.h[Id(s, op)].c, s.h[Id(s, op)].a)
    [] op.o = "clone" -> PutNew(s, s.h[Id(s, op)].c, s.h[Id(s, op)].a)      \* (of a module)
    [] op.o = "deepcopy" -> LET x == DeepCopy(s.h, s.regs[op.r]) IN Put(s, x.h, x.v)
    [] op.o = "map" -> LET x == TreeMap(op.how, op.by, s.h, s.regs[op.r]) IN IF x.ok THEN Put(s, x.h, x.v) ELSE Res(s, Err)
    [] op.o = "flat" -> Res(s, [t |-> "flat", xs |-> LeavesOf(s.h, s.regs[op.r], <<>>)])
    [] op.o = "struct" -> Res(s, [t |-> "bool", b |-> IF Struct(s.h, s.regs[op.r]) = Struct(s.h, s.regs[op.r2]) THEN 1 ELSE 0])
    [] op.o = "cmp" -> Res(s, IF op.how = "hash" THEN SameHash(s, Id(s, op), s.regs[op.r2][2]) ELSE Compare(s, op.how, Id(s, op), s.regs[op.r2][2]))
    [] op.o = "repr" -> Res(s, Printed(s, Id(s, op)))
    [] op.o = "notes" -> Res(s, [t |-> "notes", ns |-> [ i \in 1..Len(s.cl[op.c].fields) |->
         LET f == s.cl[op.c].fields[i] IN <<f.n, f.init, Opt(f, "note", 0)>> ]])
    [] op.o = "state" -> LET a == s.h[Id(s, op)].a  ns == NodeNames(a)      \* (of a module)
                         IN Res(s, [t |-> "state", xs |-> [ i \in 1..Len(ns) |-> <<ns[i], Deep(s.h, a[ns[i]])>> ]])
    [] op.o = "sd" -> Put(s, s.h, ToDict(s.h, s.regs[op.r]))
    [] op.o = "ed" -> Put(s, s.h, Edit(s.regs[op.r], op.p, op.how, op.v))
    [] op.o = "restore" -> LET x == FromDict(s.h, s.regs[op.r], s.regs[op.r2]) IN IF x.ok THEN Put(s, x.h, x.v) ELSE Res(s, Err)
Start == [cl |-> <<>>, h |-> <<>>, regs |-> <<>>]
Seen(s) == [ i \in 1..Len(s.regs) |-> Deep(s.h, s.regs[i]) ]
=============================================================================
