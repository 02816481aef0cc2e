-------------------------------- MODULE Dropout --------------------------------
(* Dropout layers, the RNG contexts they draw from and the masks they apply.      *)
(* layer   [rate |-> 0..4 (quarters), dims, det |-> -1 (not given) | 0 | 1, coll]         *)
(* context [st |-> << <<stream, seed, count>>, ... >>, fl |-> -1 | 0 | 1]      *)
(* memo    masks seen: [key, sh, rate, m |-> << "k" | "d" | "u", ... >>]           *)
(*         (kept, dropped, unknown); a key is the numbers it was derived by.      *)
EXTENDS Arrays

Err == [t |-> "err"]
Ok == [t |-> "ok"]
Start == [ls |-> <<>>, cs |-> <<>>, memo |-> <<>>]

HasStream(C, n) == \E i \in 1..Len(C.st) : C.st[i][1] = n
Stream(C, n) == C.st[CHOOSE i \in 1..Len(C.st) : C.st[i][1] = n]
Advance(C, ns) == [C EXCEPT !.st = [ i \in 1..Len(@) |-> IF @[i][1] \in ns THEN <<@[i][1], @[i][2], @[i][3] + 1>> ELSE @[i] ]]
AllStreams(C) == { C.st[i][1] : i \in 1..Len(C.st) }

(* the mode: the call's argument, else the layer's setting, else the context's flag *)
Mode(L, op, C) == IF op.det # -1 THEN op.det ELSE IF L.det # -1 THEN L.det ELSE IF op.c = 0 THEN -1 ELSE C.fl
Axis(d, r) == IF d < 0 THEN d + r + 1 ELSE d + 1
DimsOk(dims, r) == \A i \in 1..Len(dims) : Axis(dims[i], r) \in 1..r
MaskShape(dims, sh) == [ i \in 1..Len(sh) |-> IF \E j \in 1..Len(dims) : Axis(dims[j], Len(sh)) = i THEN 1 ELSE sh[i] ]

Same(x, dt) == [t |-> "arr", sh |-> x.sh, d |-> x.d, dt |-> dt]
(* result: an exact one, or [t |-> "random", key, msh, rate] *)
Call(s, op) ==
  LET L == s.ls[op.l]
      C == IF op.c = 0 THEN <<>> ELSE s.cs[op.c]
      forked == op.how = "jit" /\ op.c # 0            \* the transform hands the function a fork of the context
      C1 == IF forked THEN Advance(C, AllStreams(C)) ELSE C
      mode == Mode(L, op, C)
      x == op.x
      ret(Cx, res) == [s |-> IF op.c = 0 THEN s ELSE [s EXCEPT !.cs[op.c] = Cx], res |-> res]
  IN IF mode = -1 THEN ret(C1, Err)
     ELSE IF L.rate = 0 \/ mode = 1 THEN ret(C1, Same(x, op.xdt))
     ELSE IF L.rate = 4 THEN ret(C1, Same(MapA(LAMBDA v : 0, x), op.xdt))
     ELSE IF op.c = 0 \/ ~HasStream(C, L.coll) THEN ret(C1, Err)
     ELSE LET str == Stream(C, L.coll)
              key == IF forked THEN <<str[2], str[3], 0>> ELSE <<str[2], str[3]>>
              C2 == IF forked THEN C1 ELSE Advance(C, {L.coll})
          IN IF ~DimsOk(L.dims, Len(x.sh)) THEN ret(C2, Err)
             ELSE ret(C2, [t |-> "random", key |-> key, msh |-> MaskShape(L.dims, x.sh), rate |-> L.rate])

Apply(s, op) ==
  CASE op.o = "mk" -> [s |-> [s EXCEPT !.ls = Append(@, [rate |-> op.rate, dims |-> op.dims, det |-> op.det, coll |-> op.coll])], res |-> Ok]
    [] op.o = "ctx" -> [s |-> [s EXCEPT !.cs = Append(@, [st |-> [ i \in 1..Len(op.st) |-> <<op.st[i][1], op.st[i][2], 0>> ], fl |-> op.fl])], res |-> Ok]
    [] op.o = "draw" ->
         LET C == s.cs[op.c] IN
         IF ~HasStream(C, op.n) THEN [s |-> s, res |-> Err]
         ELSE [s |-> [s EXCEPT !.cs[op.c] = Advance(C, {op.n})], res |-> [t |-> "key", n |-> Stream(C, op.n)[3]]]
    [] op.o = "set" ->
         [s |-> CASE op.n = "det" -> [s EXCEPT !.ls[op.l].det = op.v] [] op.n = "rate" -> [s EXCEPT !.ls[op.l].rate = op.v] [] op.n = "coll" -> [s EXCEPT !.ls[op.l].coll = op.v],
          res |-> Ok]
    [] op.o = "call" -> Call(s, op)

(* ---------------------------------------------------------------- masks *)
MaskIx(msh, ix) == [ i \in 1..Len(msh) |-> IF msh[i] = 1 THEN 0 ELSE ix[i] ]
Special == {900001, -900001, 900002}       \* infinities and not-a-number
ElemOk(x, y, rate) == y = 0 \/ (IF x \in Special THEN y = x ELSE (4 - rate) * y = 4 * x)
MaskOf(x, y, msh) ==          \* "k", "d", "u" or "?" (inconsistent), position by position
  LET vote(j) == LET p == PosOf(msh, MaskIx(msh, IdxOf(x.sh, j - 1))) + 1
                 IN <<p, IF x.d[j] = 0 THEN "u" ELSE IF y.d[j] = 0 THEN "d" ELSE "k">>
      step(m, j) == LET v == vote(j) IN
        [m EXCEPT ![v[1]] = IF v[2] = "u" THEN @ ELSE IF @ = "u" THEN v[2] ELSE IF @ = v[2] THEN @ ELSE "?"]
  IN FoldLeft(step, [ i \in 1..Prod(msh) |-> "u" ], [ j \in 1..Len(x.d) |-> j ])
Count(m, w) == Cardinality({ i \in 1..Len(m) : m[i] = w })
Agree(a, b) == \A i \in 1..Len(a) : a[i] = "u" \/ b[i] = "u" \/ a[i] = b[i]
Known(a, b) == Cardinality({ i \in 1..Len(a) : a[i] # "u" /\ b[i] # "u" })
Abs(n) == IF n < 0 THEN -n ELSE n
(* what is wrong with an observed random result *)
Judge(s, x, xdt, e, y) ==
  IF y.t # "arr" \/ y.sh # x.sh \/ y.dt # xdt \/ Len(y.d) # Len(x.d) THEN {"result"}
  ELSE LET m == MaskOf(x, y, e.msh)
           n == Count(m, "k") + Count(m, "d")
       IN (IF \A j \in 1..Len(x.d) : ElemOk(x.d[j], y.d[j], e.rate) THEN {} ELSE {"element"})
          \cup (IF Count(m, "?") = 0 THEN {} ELSE {"shared-mask"})
          \cup (IF n >= 128 /\ Abs(4 * Count(m, "k") - (4 - e.rate) * n) > n THEN {"rate"} ELSE {})
          \cup (IF \A i \in 1..Len(s.memo) : LET o == s.memo[i] IN
                     o.sh = e.msh /\ o.rate = e.rate =>
                       IF o.key = e.key THEN Agree(o.m, m) ELSE Known(o.m, m) < 64 \/ ~Agree(o.m, m)
                THEN {} ELSE {"fresh-mask"})
Remember(s, x, e, y) == [s EXCEPT !.memo = Append(@, [key |-> e.key, sh |-> e.msh, rate |-> e.rate, m |-> MaskOf(x, y, e.msh)])]
Seen(s) == [ i \in 1..Len(s.ls) |-> s.ls[i] ]
=============================================================================
