---------------------------------- MODULE Norm ----------------------------------
(* Batch and layer normalisation over integer inputs.  Statistics are exact: a     *)
(* number <<n, e>> is n / 2^e in lowest terms.  Outputs are fixed-point numbers in *)
(* units of 1/256, compared within a tolerance.                                    *)
(* configurations                                                                  *)
(*  [k |-> "bn", nf, axis, mom, eps, b, s, dt, pdt, axn]                           *)
(*  [k |-> "ln", nf, red, feat, eps, b, s, dt, pdt, axn]                           *)
(* axn: 1 if statistics are shared over a named axis.                              *)
(* layer: [c, mode |-> -1 | 0 | 1, mean, var |-> << number, ... >>,                *)
(*         scale, bias |-> << integer, ... >> (empty: none)]                       *)
EXTENDS Arrays

Pow2(e) == 2 ^ e
RECURSIVE Norm2(_, _)
Norm2(n, e) == IF e > 0 /\ n % 2 = 0 THEN Norm2(n \div 2, e - 1) ELSE <<n, e>>
Num(n) == <<n, 0>>
AddN(a, b) == LET e == IF a[2] > b[2] THEN a[2] ELSE b[2] IN Norm2(a[1] * Pow2(e - a[2]) + b[1] * Pow2(e - b[2]), e)
MulN(a, b) == Norm2(a[1] * b[1], a[2] + b[2])
NegN(a) == <<-a[1], a[2]>>
Log2(n) == CHOOSE k \in 0..12 : Pow2(k) = n
(* in units of 2^-k, rounded down *)
Fix(a, k) == IF a[2] <= k THEN a[1] * Pow2(k - a[2]) ELSE a[1] \div Pow2(a[2] - k)

RECURSIVE Newton(_, _)
Newton(n, g) == LET h == (g + n \div g) \div 2 IN IF h >= g THEN g ELSE Newton(n, h)
Isqrt(n) == IF n = 0 THEN 0 ELSE Newton(n, 46340)

Axis(a, r) == IF a < 0 THEN r + a + 1 ELSE a + 1
AxesOf(as, r) == { Axis(as[i], r) : i \in 1..Len(as) }
(* mean and mean of squares over the axes R of x, for the others as in ix *)
Over(x, R) == Prod([ i \in 1..Len(x.sh) |-> IF i \in R THEN x.sh[i] ELSE 1 ])
SumOver(x, R, ix, f(_)) ==
  LET sub == [ i \in 1..Len(x.sh) |-> IF i \in R THEN x.sh[i] ELSE 1 ]
  IN Sum(0, Prod(sub) - 1, LAMBDA t : LET jx == IdxOf(sub, t) IN f(Elem(x, [ i \in 1..Len(x.sh) |-> IF i \in R THEN jx[i] ELSE ix[i] ])))
Stats(x, R, ix) ==
  LET n == Log2(Over(x, R))
      mean == Norm2(SumOver(x, R, ix, LAMBDA v : v), n)
      sq == Norm2(SumOver(x, R, ix, LAMBDA v : v * v), n)
  IN [mean |-> mean, var |-> AddN(sq, NegN(MulN(mean, mean)))]
(* (x - mean) / sqrt(var + eps) * scale + bias: [y, tol] in units of 1/256 *)
Out(x, st, eps, scale, bias) ==
  LET root == Isqrt(Fix(AddN(st.var, eps), 20))
      d == (Fix(AddN(Num(x), NegN(st.mean)), 10) * 256 * scale) \div root
  IN [y |-> d + 256 * bias, tol |-> 4 + (IF d < 0 THEN -d ELSE d) \div 64]

OutType(c, xdt) ==
  IF c.dt # "none" THEN c.dt
  ELSE LET t == IF c.s = 1 \/ c.b = 1 THEN Promote(xdt, c.pdt) ELSE xdt IN IF t = "int32" THEN "float32" ELSE t

Err == [t |-> "err"]
Ok == [t |-> "ok"]
Start == [ls |-> <<>>, cs |-> <<>>, keys |-> 0]
Mode(L, op, s) == IF op.mode # -1 THEN op.mode ELSE IF L.mode # -1 THEN L.mode ELSE IF op.c = 0 THEN -1 ELSE s.cs[op.c]
Of(seq, i, other) == IF seq = <<>> THEN other ELSE seq[i]

BatchCall(s, op) ==
  LET L == s.ls[op.l]
      c == L.c
      x == [sh |-> op.x.sh, d |-> op.x.d]
      v == IF op.how = "vmap" THEN 1 ELSE 0          \* the leading axis is the named one
      r == Len(x.sh) - v
      f == Axis(c.axis, r) + v
      R == 1..Len(x.sh) \ {f}
      mode == Mode(L, op, s)
      st(ix) == IF mode = 1 THEN [mean |-> L.mean[ix[f] + 1], var |-> L.var[ix[f] + 1]] ELSE Stats(x, R, ix)
      at(ix) == Out(Elem(x, ix), st(ix), c.eps, Of(L.scale, ix[f] + 1, 1), Of(L.bias, ix[f] + 1, 0))
      first(i) == [ j \in 1..Len(x.sh) |-> IF j = f THEN i - 1 ELSE 0 ]
      move(old, new) == AddN(MulN(c.mom, old), MulN(AddN(Num(1), NegN(c.mom)), new))
      L2 == IF mode = 1 THEN L
            ELSE [L EXCEPT !.mean = [ i \in 1..c.nf |-> move(@[i], Stats(x, R, first(i)).mean) ],
                           !.var = [ i \in 1..c.nf |-> move(@[i], Stats(x, R, first(i)).var) ]]
  IN IF mode = -1 \/ x.sh[f] # c.nf \/ (mode = 0 /\ c.axn = 1 /\ op.how # "vmap") THEN [s |-> s, res |-> Err]
     ELSE [s |-> [s EXCEPT !.ls[op.l] = L2], res |-> [t |-> "out", sh |-> x.sh, dt |-> OutType(c, op.xdt), d |-> Mk(x.sh, at).d]]

LayerCall(s, op) ==
  LET L == s.ls[op.l]
      c == L.c
      x == [sh |-> op.x.sh, d |-> op.x.d]
      v == IF op.how = "vmap" THEN 1 ELSE 0
      n == Len(x.sh)
      R == { a + v : a \in AxesOf(c.red, n - v) } \cup (IF v = 1 THEN {1} ELSE {})
      F == { a + v : a \in AxesOf(c.feat, n - v) }
      fsh == [ i \in 1..n |-> IF i \in F THEN x.sh[i] ELSE 1 ]
      pos(ix) == PosOf(fsh, [ i \in 1..n |-> IF i \in F THEN ix[i] ELSE 0 ]) + 1
      at(ix) == Out(Elem(x, ix), Stats(x, R, ix), c.eps, Of(L.scale, pos(ix), 1), Of(L.bias, pos(ix), 0))
  IN IF ((c.s = 1 \/ c.b = 1) /\ Prod(fsh) # c.nf) \/ (c.axn = 1 /\ v = 0) THEN [s |-> s, res |-> Err]
     ELSE [s |-> s, res |-> [t |-> "out", sh |-> x.sh, dt |-> OutType(c, op.xdt), d |-> Mk(x.sh, at).d]]

CycleS(n, data) == [ i \in 1..n |-> data[1 + ((i - 1) % Len(data))] ]
Apply(s, op) ==
  CASE op.o = "mk" ->
         LET c == op.c
             log == (IF c.s = 1 THEN << <<"scale", s.keys + 1, <<c.nf>>, c.pdt>> >> ELSE <<>>)
                    \o (IF c.b = 1 THEN << <<"bias", s.keys + 1 + c.s, <<c.nf>>, c.pdt>> >> ELSE <<>>)
             n == IF c.k = "bn" THEN c.nf ELSE 0
             L == [c |-> c, mode |-> op.mode, mean |-> [ i \in 1..n |-> Num(0) ], var |-> [ i \in 1..n |-> Num(1) ],
                   scale |-> IF c.s = 1 THEN CycleS(c.nf, op.sd) ELSE <<>>, bias |-> IF c.b = 1 THEN CycleS(c.nf, op.bd) ELSE <<>>]
         IN [s |-> [s EXCEPT !.ls = Append(@, L), !.keys = @ + Len(log)], res |-> [t |-> "made", log |-> log]]
    [] op.o = "fresh" ->      \* 1/1000 over the root of (1/1000 squared + 1/100000, or + 1/1000000), in 256ths; a hundredth of 1000
         [s |-> s, res |-> [t |-> "fresh", x |-> << <<1, 1>>, <<0, 0>> >>, y |-> [ i \in 1..4 |-> IF op.k = "bn" THEN 77 ELSE 181 ],
                                   m |-> IF op.k = "bn" THEN <<10, 10>> ELSE <<>>]]
    [] op.o = "ctx" -> [s |-> [s EXCEPT !.cs = Append(@, op.fl)], res |-> Ok]
    [] op.o = "set" ->
         [s |-> CASE op.n = "mode" -> [s EXCEPT !.ls[op.l].mode = op.d[1]]
                  [] op.n = "scale" -> [s EXCEPT !.ls[op.l].scale = op.d]
                  [] op.n = "bias" -> [s EXCEPT !.ls[op.l].bias = op.d]
                  [] op.n = "mean" -> [s EXCEPT !.ls[op.l].mean = op.d]
                  [] op.n = "var" -> [s EXCEPT !.ls[op.l].var = op.d], res |-> Ok]
    [] op.o = "call" -> IF s.ls[op.l].c.k = "bn" THEN BatchCall(s, op) ELSE LayerCall(s, op)
Seen(s) == [ i \in 1..Len(s.ls) |-> LET L == s.ls[i] IN [mode |-> L.mode, mean |-> L.mean, var |-> L.var, scale |-> L.scale, bias |-> L.bias] ]

Abs(n) == IF n < 0 THEN -n ELSE n
Close(want, got) ==
  /\ got.t = "out" /\ got.sh = want.sh /\ got.dt = want.dt /\ Len(got.d) = Len(want.d)
  /\ \A i \in 1..Len(want.d) : Abs(got.d[i] - want.d[i].y) <= want.d[i].tol
Matches(want, got) == IF want.t = "out" THEN Close(want, got) ELSE want = got
=============================================================================
