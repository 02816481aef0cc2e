------------------------------ MODULE Collections ------------------------------
(* Dict modules as mappings, Sequence modules as indexable pipelines of           *)
(* callables.                                                                     *)
(*                                                                                *)
(* values   : <<"num", n>> <<"none">> <<"ctx">> <<"out", n, j>> (the j-th result   *)
(*            of the n-th call), <<"tuple"|"nt"|"list", values>>, <<"dict", pairs>>  *)
(* operands : values, <<"c", type, value>> (a container), <<"el", i>>, <<"reg", i>>  *)
(* callable : [pos, opt, varpos, kwonly, varkw, ctx, pre, ret, k, names]             *)
(*            pos: names of positional parameters, the last opt of which have a       *)
(*            default (none); ctx: "none" "kw" "pos"; pre: values bound beforehand;    *)
(*            ret: "one" "tuple" "nt" "list" "dict" "none" "raise", k results or names  *)
(* A state is [els, regs]; a register is [t |-> "dict", a |-> name -> stored] or          *)
(* [t |-> "seq", a |-> << stored, ... >>].                                                *)
EXTENDS Base

None == <<"none">>
Plain(v) == IF v[1] = "c" THEN v[3] ELSE v
(* an existing container keeps its kind, another container is rejected *)
Put(old, v) ==
  IF old[1] = "c" THEN IF v[1] # "c" THEN [ok |-> TRUE, v |-> <<"c", old[2], v>>]
                       ELSE [ok |-> old[2] = v[2], v |-> v]
  ELSE [ok |-> TRUE, v |-> v]

(* ---------------------------------------------------------------- calls *)
(* pairs: sequence of <<name, value>>, names distinct *)
HasKey(ps, n) == \E i \in 1..Len(ps) : ps[i][1] = n
At(ps, n) == ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = n][2]
SortPairs(ps) == SortSeq(ps, LAMBDA x, y : NameLess(x[1], y[1]))
SetKey(ps, n, v) == Append(SelectSeq(ps, LAMBDA p : p[1] # n), <<n, v>>)

(* binding arguments to parameters *)
Bind(f, args, kw) ==
  LET params == f.pos \o (IF f.ctx = "pos" THEN <<"ctx">> ELSE <<>>)
      kwo == f.kwonly \o (IF f.ctx = "kw" THEN <<"ctx">> ELSE <<>>)
      n == IF Len(args) < Len(params) THEN Len(args) ELSE Len(params)
      byPos == [ i \in 1..n |-> <<params[i], args[i]>> ]
      star == SubSeq(args, n + 1, Len(args))
      named == SelectSeq(kw, LAMBDA p : Member(p[1], params) \/ Member(p[1], kwo))
      rest == SelectSeq(kw, LAMBDA p : ~Member(p[1], params) /\ ~Member(p[1], kwo))
      bound == byPos \o named
      dflt(p) == p = "ctx" \/ (Member(p, f.pos) /\ IndexOf(p, f.pos) > Len(f.pos) - f.opt)
      left == SelectSeq(params \o kwo, LAMBDA p : ~HasKey(bound, p))
      ok == /\ (star # <<>> => f.varpos = 1) /\ (rest # <<>> => f.varkw = 1)
            /\ \A i \in 1..n : ~HasKey(kw, params[i])
            /\ \A i \in 1..Len(left) : dflt(left[i])
  IN [ok |-> ok, x |-> [n |-> SortPairs(bound \o [ i \in 1..Len(left) |-> <<left[i], None>> ]), s |-> star, d |-> SortPairs(rest)]]

Outs(n, k) == [ j \in 1..k |-> <<"out", n, j>> ]
Result(f, n) ==
  CASE f.ret = "one" -> <<"out", n, 1>>
    [] f.ret = "none" -> None
    [] f.ret = "dict" -> <<"dict", SortPairs([ j \in 1..Len(f.names) |-> <<f.names[j], <<"out", n, j>> >> ])>>
    [] OTHER -> <<f.ret, Outs(n, f.k)>>

(* calling the callables vs one after another *)
RECURSIVE CallSeq(_, _, _, _, _, _)
CallAny(s, v, args, kw, log) ==      \* [ok, x, log]
  IF v[1] = "el"
  THEN LET f == s.els[v[2]]
           b == Bind(f, f.pre \o args, kw)
       IN IF ~b.ok THEN [ok |-> FALSE, x |-> None, log |-> log]
          ELSE LET l2 == Append(log, [e |-> v[2], b |-> b.x])
               IN [ok |-> f.ret # "raise", x |-> IF f.ret = "raise" THEN None ELSE Result(f, Len(l2)), log |-> l2]
  ELSE IF v[1] = "reg" /\ s.regs[v[2]].t = "seq"
       THEN CallSeq(s, s.regs[v[2]].a, args, SelectSeq(kw, LAMBDA p : p[1] # "ctx"), IF HasKey(kw, "ctx") THEN At(kw, "ctx") ELSE None, log)
       ELSE [ok |-> FALSE, x |-> None, log |-> log]
Accepts(s, v) == IF v[1] = "el" THEN s.els[v[2]].ctx # "none" ELSE v[1] = "reg" /\ s.regs[v[2]].t = "seq"
CallSeq(s, vs, args, kw, ctx, log) ==
  IF vs = <<>> THEN [ok |-> TRUE, x |-> None, log |-> log]
  ELSE LET v == Plain(vs[1])
           r == CallAny(s, v, args, IF ctx # None /\ Accepts(s, v) THEN SetKey(kw, "ctx", ctx) ELSE kw, log)
       IN IF ~r.ok \/ Len(vs) = 1 THEN r
          ELSE IF r.x[1] \in {"tuple", "nt"} THEN CallSeq(s, Tail(vs), r.x[2], <<>>, ctx, r.log)
          ELSE IF r.x[1] = "dict" THEN CallSeq(s, Tail(vs), <<>>, r.x[2], ctx, r.log)
          ELSE CallSeq(s, Tail(vs), <<r.x>>, <<>>, ctx, r.log)

(* ---------------------------------------------------------------- operations *)
Err(k) == [t |-> "err", k |-> k]
Ok == [t |-> "ok"]
Res(s, r) == [s |-> s, res |-> r]
Val(v) == [t |-> "val", x |-> v]
Add(s, o) == Res([s EXCEPT !.regs = Append(@, o)], Ok)
IsName(k) == k # "#1"
FromPairs(ps) == [ n \in { ps[i][1] : i \in 1..Len(ps) } |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = n /\ \A j \in i + 1..Len(ps) : ps[j][1] # n][2] ]

Apply(s, op) ==
  CASE op.o = "el" -> Res([s EXCEPT !.els = Append(@, op.f)], Ok)
    [] op.o = "mkd" -> Add(s, [t |-> "dict", a |-> FromPairs(op.items \o op.kw)])
    [] op.o = "mks" -> Add(s, [t |-> "seq", a |-> op.items])
    [] op.o = "set" ->      \* by item or by attribute
         LET a == s.regs[op.r].a
             p == IF op.key \in DOMAIN a THEN Put(a[op.key], op.v) ELSE [ok |-> TRUE, v |-> op.v]
         IN IF ~IsName(op.key) \/ ~p.ok THEN Res(s, Err("any")) ELSE Res([s EXCEPT !.regs[op.r].a = With(@, op.key, p.v)], Ok)
    [] op.o = "del" ->
         IF op.key \in DOMAIN s.regs[op.r].a THEN Res([s EXCEPT !.regs[op.r].a = Without(@, op.key)], Ok) ELSE Res(s, Err("any"))
    [] op.o = "get" ->      \* how: "item" "attr" "default" "in"
         LET a == s.regs[op.r].a  has == op.key \in DOMAIN a IN
         Res(s, CASE op.how = "in" -> [t |-> "bool", b |-> IF has THEN 1 ELSE 0]
                  [] has -> Val(Plain(a[op.key]))
                  [] op.how = "default" -> Val(<<"num", 77>>)
                  [] op.how = "item" -> Err("KeyError")
                  [] OTHER -> Err("any"))
    [] op.o = "at" ->
         LET a == s.regs[op.r].a IN
         Res(s, IF op.i >= Len(a) THEN Err("IndexError") ELSE Val(Plain(a[op.i + 1])))
    [] op.o = "put" ->      \* replacing the i-th element
         LET p == Put(s.regs[op.r].a[op.i + 1], op.v) IN
         IF p.ok THEN Res([s EXCEPT !.regs[op.r].a[op.i + 1] = p.v], Ok) ELSE Res(s, Err("any"))
    [] op.o = "clone" -> Add(s, s.regs[op.r])
    [] op.o = "eq" -> Res(s, [t |-> "bool", b |-> IF op.r = op.r2 THEN 1 ELSE 0])
    [] op.o = "call" ->
         LET r == CallSeq(s, s.regs[op.r].a, op.args, op.kw, IF op.ctx = 1 THEN <<"ctx">> ELSE None, <<>>)
         IN Res(s, [t |-> "call", ok |-> IF r.ok THEN 1 ELSE 0, x |-> r.x, log |-> r.log])
Start == [els |-> <<>>, regs |-> <<>>]

(* what can be seen of a register through its protocol *)
Look(s, r) ==
  LET o == s.regs[r] IN
  IF o.t = "seq" THEN [t |-> "seq", len |-> Len(o.a), iter |-> MapSeq(Plain, o.a), at |-> MapSeq(Plain, o.a)]
  ELSE LET ns == SortedNames(DOMAIN o.a)
           ps == [ i \in 1..Len(ns) |-> <<ns[i], Plain(o.a[ns[i]])>> ]
       IN [t |-> "dict", len |-> Len(ns), iter |-> ns, items |-> ps, got |-> ps, attrs |-> ps, stored |-> [ i \in 1..Len(ns) |-> <<ns[i], o.a[ns[i]]>> ]]
Seen(s) == [ r \in 1..Len(s.regs) |-> Look(s, r) ]
=============================================================================
