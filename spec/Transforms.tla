------------------------------ MODULE Transforms ------------------------------
(* The lifted transformations jit, grad and remat as operations on the module   *)
(* graph of Graph.tla.  A transformed call runs the function on a copy rebuilt  *)
(* from the split module and, when stateful, sets the resulting state on the    *)
(* original module.                                                             *)
(* Functions are programs over numbers that live in arrays (traced inside the   *)
(* transformation) or in plain Python values (fixed at tracing time).           *)
(*   expr : <<"c", k>> <<"arg", i>> <<"at", path, n>> <<"+", e, e>> <<"*", e, e>>   *)
(*   instr: <<"set", path, n, e>> <<"mkvar", path, n, ty, e>>                   *)
(*          <<"sow", path, ty, n, e>> <<"ret", e>> <<"aux", e>> <<"raise">>     *)
EXTENDS Graph
CONSTANT Modulus        \* 0: plain integers; the values carry tangents

Num(v, t) == IF Modulus = 0 THEN [v |-> v, t |-> t] ELSE [v |-> v % Modulus, t |-> 0]
Bad == [v |-> 0, t |-> -999983]
Big == [v |-> 0, t |-> -999979]       \* beyond what TLC (and float32) represent: not judged
Odd(a) == a \in {Bad, Big}
Huge(a) == \/ a.v > 20000 \/ a.v < -20000 \/ a.t > 20000 \/ a.t < -20000
Pair2(a, b, r) == IF a = Bad \/ b = Bad THEN Bad ELSE IF a = Big \/ b = Big \/ Huge(a) \/ Huge(b) THEN Big ELSE r
Add(a, b) == IF Odd(a) \/ Odd(b) THEN Pair2(a, b, a) ELSE Pair2(a, b, Num(a.v + b.v, a.t + b.t))
Mul(a, b) == IF Odd(a) \/ Odd(b) \/ Huge(a) \/ Huge(b) THEN Pair2(a, b, a) ELSE Num(a.v * b.v, a.v * b.t + a.t * b.v)

(* numbers with tangents inside entries: <<"i", v>> or <<"i", v, t>> *)
NumOf(x) == [v |-> x[2], t |-> IF Len(x) = 3 THEN x[3] ELSE 0]
ValOf(a) == IF Modulus = 0 /\ a.t # 0 THEN <<"i", a.v, a.t>> ELSE <<"i", a.v>>

(* a number that depends on the whole structure below a module: <<"sum">> *)
ClassNo == [ A |-> 1, B |-> 2, C |-> 3, D |-> 4, E |-> 5 ]
Sum(h, id) ==
  LET w == Walk(h, id).ids
      one(acc, e) == IF e.k = "mod" THEN Num(acc.v * 3 + IndexOf(e.r, w), 0)
                     ELSE IF IsInt(e.v) THEN Num(acc.v * 3 + e.v[2], 0)
                     ELSE IF IsTup(e.v) THEN Fold(LAMBDA a, x : Num(a.v * 3 + x[2], 0), Num(acc.v * 3 + 1, 0), e.v[2])
                     ELSE Num(acc.v * 3 + 2, 0)
      node(acc, x) == Fold(LAMBDA a, n : one(Num(a.v * 5 + Rank(n), 0), h[x].a[n]), Num(acc.v * 3 + ClassNo[h[x].c], 0), SortedNames(DOMAIN h[x].a))
  IN Fold(node, Num(0, 0), w)

RECURSIVE EvalT(_, _, _, _)
EvalT(h, id, args, e) ==
  CASE e[1] = "c" -> Num(e[2], 0)
    [] e[1] = "arg" -> IF e[2] \in 1..Len(args) THEN Num(args[e[2]], 0) ELSE Bad
    [] e[1] = "at" -> LET m == ModAt(h, id, e[2]) IN
         IF m = 0 THEN Bad
         ELSE IF e[3] \in DOMAIN h[m].a /\ h[m].a[e[3]].k # "mod" /\ IsInt(h[m].a[e[3]].v)
              THEN NumOf(h[m].a[e[3]].v) ELSE Bad
    [] e[1] = "sum" -> Sum(h, id)
    [] e[1] = "+" -> Add(EvalT(h, id, args, e[2]), EvalT(h, id, args, e[3]))
    [] e[1] = "*" -> Mul(EvalT(h, id, args, e[2]), EvalT(h, id, args, e[3]))
(* does the expression denote an array? sa: positions of static arguments *)
RECURSIVE IsArr(_, _, _, _)
IsArr(h, id, sa, e) ==
  CASE e[1] = "c" -> FALSE
    [] e[1] = "arg" -> ~Member(e[2], sa)
    [] e[1] = "sum" -> TRUE
    [] e[1] = "at" -> IsLeaf(h[ModAt(h, id, e[2])].a[e[3]])
    [] OTHER -> IsArr(h, id, sa, e[2]) \/ IsArr(h, id, sa, e[3])

StepT(acc, id, args, sa, ins) ==
  IF ~acc.ok \/ acc.done THEN acc
  ELSE
    LET h == acc.h
        fail == [acc EXCEPT !.ok = FALSE]
        e == Last(ins)
        v == EvalT(h, id, args, e)
        m == ModAt(h, id, ins[2])
        big == [acc EXCEPT !.ok = FALSE, !.big = TRUE]
        put(n, x) == LET s == SetAttr(h, m, n, x) IN IF s.ok THEN [acc EXCEPT !.h = s.h] ELSE fail
    IN CASE ins[1] = "raise" -> fail
         [] v = Big -> big
         [] ins[1] = "ret" -> IF v = Bad THEN fail ELSE [acc EXCEPT !.out = v, !.done = TRUE]
         [] ins[1] = "aux" -> IF v = Bad THEN fail ELSE [acc EXCEPT !.aux = v]
         [] OTHER ->
              IF m = 0 \/ v = Bad THEN fail
              ELSE CASE ins[1] = "set" -> put(ins[3], IF IsArr(h, id, sa, e) THEN [k |-> "arr", ty |-> "jax", v |-> ValOf(v)]
                                                      ELSE [k |-> "static", v |-> ValOf(v)])
                     [] ins[1] = "mkvar" -> put(ins[3], [k |-> "var", ty |-> ins[4], md |-> [sharding |-> "None"], v |-> ValOf(v)])
                     [] ins[1] = "sow" -> LET s == SowInto(h, m, ins[3], ins[4], ValOf(v)) IN IF s.ok THEN [acc EXCEPT !.h = s.h] ELSE fail

Zero == [v |-> 0, t |-> 0]
ExecT(h, id, args, sa, prog) ==
  Fold(LAMBDA acc, ins : StepT(acc, id, args, sa, ins), [ok |-> TRUE, big |-> FALSE, h |-> h, out |-> Zero, aux |-> Zero, done |-> FALSE], prog)

(* a stack of transformations, outermost first, around the program.            *)
(* w : "jit" | "jit0" (not stateful) | "remat"                                 *)
RECURSIVE Wrapped(_, _, _, _, _, _)
Wrapped(h, m, ws, args, sa, prog) ==
  IF ws = <<>> THEN ExecT(h, m, args, sa, prog)
  ELSE LET st == StateOf(h, m)
           c == MergeDef(h, DefOf(h, m), <<st>>)
           r == Len(h) + 1
           x == Wrapped(c.h, r, Tail(ws), args, sa, prog)
           back == SubSeq(x.h, 1, Len(h))
           u == UpdateWith(x.h, m, <<StateOf(x.h, r)>>)
       IN IF ~x.ok THEN [x EXCEPT !.h = h]
          ELSE IF ws[1] = "jit0" THEN [x EXCEPT !.h = back]
          ELSE [x EXCEPT !.ok = u.ok, !.h = SubSeq(u.h, 1, Len(h))]

(* the derivative of the loss with respect to every number of the selected entries *)
NumsAt(v) == IF IsInt(v) THEN {0} ELSE 1..Len(v[2])
Seeded(e, i) == IF i = 0 THEN [e EXCEPT !.v = <<"i", @[2], 1>>] ELSE [e EXCEPT !.v[2][i] = <<"i", @[2], 1>>]
Plain(v) == IF IsInt(v) THEN IntV(v[2]) ELSE TupV([ i \in 1..Len(v[2]) |-> IntV(v[2][i][2]) ])
PlainHeap(h) == [ i \in 1..Len(h) |-> [h[i] EXCEPT !.a = [ n \in DOMAIN @ |-> IF @[n].k \in {"var", "arr"} THEN [@[n] EXCEPT !.v = Plain(@)] ELSE @[n] ]] ]
Derivative(h, m, ws, args, prog, path, i) ==
  LET id == ModAt(h, m, Front(path))
      h1 == [h EXCEPT ![id].a[Last(path)] = Seeded(@, i)]
      x == Wrapped(h1, m, ws, args, <<>>, prog)
  IN IF x.big \/ Huge(x.out) THEN 999999 ELSE x.out.t
Gradient(h, m, f, ws, args, prog) ==
  LET sel == SplitEntries(StateOf(h, m), <<f>>)[1]
      d(e) == IF IsInt(e[2].v) THEN IntV(Derivative(h, m, ws, args, prog, e[1], 0))
              ELSE TupV([ i \in 1..Len(e[2].v[2]) |-> IntV(Derivative(h, m, ws, args, prog, e[1], i)) ])
  IN [ j \in 1..Len(sel) |-> << sel[j][1], [sel[j][2] EXCEPT !.v = d(sel[j])] >> ]

(* the part of a call that a compiled function depends on *)
Shape(v) == IF IsInt(v) THEN <<0>> ELSE <<1, Len(v[2])>>
KeyOf(h, m) ==
  LET d == DefOf(h, m)
      es == StateOf(h, m)
  IN << [ j \in 1..Len(d) |-> <<d[j].c, d[j].a>> ],
        [ j \in 1..Len(es) |-> << es[j][1], es[j][2].k, IF es[j][2].k = "var" THEN <<es[j][2].ty, es[j][2].md>> ELSE <<>>, Shape(es[j][2].v) >> ] >>

Unjudged == [t |-> "big"]
Beyond(es) == \E j \in 1..Len(es) : LET v == es[j][2].v IN IF IsInt(v) THEN v[2] = 999999 ELSE \E i \in 1..Len(v[2]) : v[2][i][2] = 999999
OutR(x, aux) == IF aux THEN PairR(ValR(IntV(x.out.v)), ValR(IntV(x.aux.v))) ELSE ValR(IntV(x.out.v))
TStep(h, m, x) == LET q == Renum(Len(h), x.h, m) IN [h |-> q.h, x |-> x]
(* apply to the calls of this module; caches: function -> set of keys compiled *)
Applies(op) == op.o \in {"call", "grad", "jcall", "nonmod"}
ApplyT(h, regs, caches, op) ==
  CASE op.o = "call" ->      \* op.ws transformations, <<>>: eager
         LET x == Wrapped(h, op.m, op.ws, op.args, op.sa, op.prog)
         IN IF x.ok THEN Res(x.h, OutR(x, op.aux)) ELSE IF x.big THEN Res(h, Unjudged) ELSE Fail(x.h)
    [] op.o = "grad" ->
         IF FiltersBad(<<op.f>>) THEN Fail(h)
         ELSE LET x == Wrapped(h, op.m, <<"jit">> \o op.ws, op.args, <<>>, op.prog)
                  es == Gradient(h, op.m, op.f, <<"jit">> \o op.ws, op.args, op.prog)
              IN IF x.big THEN Res(h, Unjudged)
                 ELSE IF ~x.ok THEN Fail(h)
                 ELSE IF Beyond(es) THEN Res(h, Unjudged)
                 ELSE Res(IF op.st THEN PlainHeap(x.h) ELSE h, IF op.aux THEN PairR(StateR(es), ValR(IntV(x.aux.v))) ELSE StateR(es))
    [] op.o = "jcall" ->     \* a compiled function used repeatedly: output and whether it was traced
         LET x == Wrapped(h, op.m, <<IF op.st THEN "jit" ELSE "jit0">>, op.args, <<>>, op.prog)
             known == op.f \in DOMAIN caches /\ KeyOf(h, op.m) \in caches[op.f]
         IN IF x.ok THEN Res(x.h, PairR(ValR(IntV(x.out.v)), ValR(IntV(IF known THEN 0 ELSE 1)))) ELSE Fail(h)
    [] op.o = "nonmod" -> Fail(h)
Cached(h, caches, op, res) ==
  IF op.o # "jcall" \/ res.t = "err" THEN caches
  ELSE With(caches, op.f, (IF op.f \in DOMAIN caches THEN caches[op.f] ELSE {}) \cup {KeyOf(h, op.m)})
=============================================================================
