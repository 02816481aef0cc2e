-------------------------------- MODULE Layers --------------------------------
(* Linear, convolution and embedding layers over integer arrays.                 *)
(* layer: [c |-> configuration, kernel |-> array, bias |-> array or <<>>]        *)
(* configurations                                                               *)
(*  [k |-> "lin", i, o, b, dt, pdt, gen]                                         *)
(*  [k |-> "conv", i, o, ks, st, pad, idil, kdil, g, b, mask, dt, pdt, gen]      *)
(*  [k |-> "emb", n, f, dt, pdt]                                                 *)
(* dt: "none" or the requested number type; pdt: that of the parameters; gen: a  *)
(* factor applied by the user's own product; st, idil, kdil: <<"n">>, <<"i", n>>, *)
(* <<"s", ns>>; pad: <<"str", name>>, <<"i", n>>, <<"s", << <<"i", n>> |          *)
(* <<"p", low, high>> | <<"l", low, high>> >> >>; mask: <<>> or a data cycle.      *)
EXTENDS Arrays

KernelShape(c) ==
  CASE c.k = "lin" -> <<c.i, c.o>>
    [] c.k = "conv" -> c.ks \o <<c.i \div c.g, c.o>>
    [] c.k = "emb" -> <<c.n, c.f>>
HasBias(c) == c.k # "emb" /\ c.b = 1
BiasShape(c) == <<c.o>>

(* ---------------------------------------------------------------- convolution *)
Spread(v, r) == CASE v[1] = "n" -> [ i \in 1..r |-> 1 ] [] v[1] = "i" -> [ i \in 1..r |-> v[2] ] [] OTHER -> v[2]
PadOk(p, r) ==
  CASE p[1] = "str" -> p[2] \in {"SAME", "VALID", "CIRCULAR", "SAME_LOWER"} \/ (p[2] = "CAUSAL" /\ r = 1)
    [] p[1] = "i" -> TRUE
    [] OTHER -> Len(p[2]) = r /\ \A i \in 1..r : p[2][i][1] \in {"i", "p"}
Max2(a, b) == IF a > b THEN a ELSE b
Pads(p, i, n, k, s, d) ==       \* low and high padding of dimension i of n positions
  LET e == (k - 1) * d + 1
      out == (n + s - 1) \div s
      total == Max2((out - 1) * s + e - n, 0)
  IN CASE p[1] = "i" -> <<p[2], p[2]>>
       [] p[1] = "s" -> IF p[2][i][1] = "i" THEN <<p[2][i][2], p[2][i][2]>> ELSE <<p[2][i][2], p[2][i][3]>>
       [] p[2] = "VALID" -> <<0, 0>>
       [] p[2] = "SAME" -> <<total \div 2, total - (total \div 2)>>
       [] p[2] = "SAME_LOWER" -> <<total - (total \div 2), total \div 2>>
       [] p[2] = "CAUSAL" -> <<d * (k - 1), 0>>
       [] p[2] = "CIRCULAR" -> <<(e - 1) \div 2, e \div 2>>
(* the input position a position of the padded and dilated input shows, or -1 *)
Source(p, lo, n, idil, q) ==
  LET t == q - lo IN
  IF p = <<"str", "CIRCULAR">> THEN t % n
  ELSE IF t < 0 \/ t > (n - 1) * idil \/ t % idil # 0 THEN -1
  ELSE t \div idil
ConvOk(c, x) ==
  LET r == Len(c.ks)
      sized(v) == Len(Spread(v, r)) = r
      spread == \E i \in 1..Len(Spread(c.idil, r)) : Spread(c.idil, r)[i] > 1
  IN /\ Len(x.sh) >= r + 1 /\ Last1(x.sh) = c.i /\ c.i % c.g = 0 /\ c.o % c.g = 0
     /\ sized(c.st) /\ sized(c.idil) /\ sized(c.kdil) /\ PadOk(c.pad, r)
     /\ ~(c.pad[1] = "str" /\ spread)        \* jax.lax offers named paddings only for inputs that are not dilated
Conv(c, kernel, x) ==
  LET r == Len(c.ks)
      nb == Len(x.sh) - r - 1
      st == Spread(c.st, r)  idil == Spread(c.idil, r)  kdil == Spread(c.kdil, r)
      sp == SubSeq(x.sh, nb + 1, nb + r)
      pads == [ i \in 1..r |-> Pads(c.pad, i, sp[i], c.ks[i], st[i], kdil[i]) ]
      full == [ i \in 1..r |-> (sp[i] - 1) * idil[i] + 1 + pads[i][1] + pads[i][2] ]
      eff == [ i \in 1..r |-> (c.ks[i] - 1) * kdil[i] + 1 ]
      outs == [ i \in 1..r |-> IF full[i] < eff[i] THEN 0 ELSE (full[i] - eff[i]) \div st[i] + 1 ]
      per == c.i \div c.g
      taps == Prod(c.ks) * per
      at(ix) ==
        LET co == ix[Len(ix)]
            base == (co \div (c.o \div c.g)) * per
            tap(t) ==
              LET kx == IdxOf(c.ks \o <<per>>, t)
                  src == [ i \in 1..r |-> Source(c.pad, pads[i][1], sp[i], idil[i], ix[nb + i] * st[i] + kx[i] * kdil[i]) ]
              IN IF \E i \in 1..r : src[i] < 0 THEN 0
                 ELSE Elem(x, SubSeq(ix, 1, nb) \o src \o <<base + kx[r + 1]>>) * Elem(kernel, kx \o <<co>>)
        IN Sum(0, taps - 1, tap)
  IN Mk(SubSeq(x.sh, 1, nb) \o outs \o <<c.o>>, at)

(* ---------------------------------------------------------------- results *)
Linear(c, kernel, x) ==
  Mk(Append(Front1(x.sh), c.o), LAMBDA ix : Sum(0, c.i - 1, LAMBDA j : Elem(x, Append(Front1(ix), j)) * Elem(kernel, <<j, Last1(ix)>>)))
AddBias(y, bias) == IF bias = <<>> THEN y ELSE [y EXCEPT !.d = [ i \in 1..Len(@) |-> @[i] + bias.d[1 + ((i - 1) % Len(bias.d))] ]]
Lookup(c, kernel, x) == Mk(Append(x.sh, c.f), LAMBDA ix : Elem(kernel, <<Elem(x, Front1(ix)), Last1(ix)>>))
Attend(c, kernel, x) == Mk(Append(Front1(x.sh), c.n), LAMBDA ix : Sum(0, c.f - 1, LAMBDA j : Elem(x, Append(Front1(ix), j)) * Elem(kernel, <<Last1(ix), j>>)))

Err == [t |-> "err"]
Ok == [t |-> "ok"]
Arr(a, dt) == [t |-> "arr", sh |-> a.sh, d |-> a.d, dt |-> dt]
Type(c, xdt) == IF c.dt # "none" THEN c.dt ELSE Promote(xdt, c.pdt)
Call(L, op) ==
  LET c == L.c
      x == [sh |-> op.x.sh, d |-> op.x.d]
      y(a) == AddBias(MapA(LAMBDA v : c.gen * v, a), L.bias)
  IN CASE c.k = "lin" ->
            IF Len(x.sh) = 0 \/ Last1(x.sh) # c.i \/ ~Inexact(Type(c, op.xdt)) THEN Err
            ELSE Arr(y(Linear(c, L.kernel, x)), Type(c, op.xdt))
       [] c.k = "conv" ->
            IF ~ConvOk(c, x) \/ ~Inexact(Type(c, op.xdt)) THEN Err
            ELSE LET kern == IF c.mask = <<>> THEN L.kernel ELSE ZipA(LAMBDA a, b : a * b, L.kernel, Cycle(L.kernel.sh, c.mask))
                 IN Arr(y(Conv(c, kern, x)), Type(c, op.xdt))
       [] c.k = "emb" /\ op.o = "call" ->
            IF op.xdt \notin {"int32", "uint8"} THEN Err ELSE Arr(Lookup(c, L.kernel, x), IF c.dt # "none" THEN c.dt ELSE c.pdt)
       [] c.k = "emb" ->
            LET dt == IF c.dt # "none" THEN c.dt ELSE c.pdt
            IN IF Len(x.sh) = 0 \/ Last1(x.sh) # c.f \/ ~Inexact(dt) THEN Err ELSE Arr(Attend(c, L.kernel, x), dt)

(* ---------------------------------------------------------------- operations *)
Start == [ls |-> <<>>, keys |-> 0]
Apply(s, op) ==
  CASE op.o = "mk" ->
         LET c == op.c
             bad == c.k = "conv" /\ op.intk = 1
             ks == KernelShape(c)
             L == [c |-> c, kernel |-> Cycle(ks, op.kd), bias |-> IF HasBias(c) THEN Cycle(BiasShape(c), op.bd) ELSE <<>>]
             log == << <<"kernel", s.keys + 1, ks, c.pdt>> >> \o (IF HasBias(c) THEN << <<"bias", s.keys + 2, BiasShape(c), c.pdt>> >> ELSE <<>>)
         IN IF bad THEN [s |-> s, res |-> Err]
            ELSE [s |-> [ls |-> Append(s.ls, L), keys |-> s.keys + Len(log)], res |-> [t |-> "made", log |-> log]]
    [] op.o = "fresh" ->       \* initializers nobody chose, each with a key of its own
         LET c == op.c IN
         [s |-> s, res |-> [t |-> "fresh", x |-> << << IF c.k = "emb" THEN "embedding" ELSE "lecun normal", c.pdt, KernelShape(c) >> >>
                                             \o (IF c.k = "emb" THEN <<>> ELSE << << "zeros", c.pdt, BiasShape(c) >> >>)]]
    [] op.o = "set" ->
         LET L == s.ls[op.l] IN
         [s |-> [s EXCEPT !.ls[op.l] = IF op.n = "bias" THEN [L EXCEPT !.bias = Cycle(BiasShape(L.c), op.d)] ELSE [L EXCEPT !.kernel = Cycle(KernelShape(L.c), op.d)]], res |-> Ok]
    [] op.o \in {"call", "attend"} -> [s |-> s, res |-> Call(s.ls[op.l], op)]
Seen(s) == [ i \in 1..Len(s.ls) |-> [k |-> s.ls[i].kernel, b |-> IF s.ls[i].bias = <<>> THEN [sh |-> <<>>, d |-> <<>>] ELSE s.ls[i].bias] ]
=============================================================================
