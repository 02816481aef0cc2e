------------------------------- MODULE MC_Layers -------------------------------
(* Every convolution with a one-dimensional window (and a sample of two            *)
(* dimensions) within the bounds, every linear layer and embedding.                *)
EXTENDS Layers, Json
CONSTANTS N, K, S, Rich
VARIABLES c, x, go
Cv(i, o, ks, st, pad, idil, kdil, g, b) ==
  [k |-> "conv", i |-> i, o |-> o, ks |-> ks, st |-> st, pad |-> pad, idil |-> idil, kdil |-> kdil, g |-> g, b |-> b, mask |-> <<>>, dt |-> "none", pdt |-> "float32", gen |-> 1]
Str(p) == <<"str", p>>
I(n) == <<"i", n>>
PadsOf(r) == { Str("SAME"), Str("VALID"), Str("CIRCULAR"), Str("CAUSAL"), I(1) }
             \cup { <<"s", [ j \in 1..r |-> <<"p", j - 1, 2>> ]>> } \cup (IF Rich THEN { Str("SAME_LOWER"), I(0), I(2), <<"s", [ j \in 1..r |-> I(j - 1) ]>>, <<"s", << I(1) >> >>, <<"s", [ j \in 1..r |-> <<"l", 1, 1>> ]>> } ELSE {})
Data == <<1, -2, 3, 0, 2, -1, 4>>
KData == <<1, 2, -1, 3, -2>>
Fill(sh) == Cycle(sh, Data)
Plain(p) == p \notin { Str("CIRCULAR"), Str("CAUSAL") }
Groups == IF Rich THEN { <<1, 1, 1>>, <<2, 2, 2>>, <<2, 1, 1>>, <<2, 4, 2>>, <<1, 2, 1>>, <<3, 3, 3>> } ELSE { <<2, 2, 1>>, <<2, 2, 2>> }
Config ==
  \/ \E n \in 1..N, k \in 1..K, st \in 1..S, idil \in 1..2, kdil \in 1..2, g \in Groups, pad \in PadsOf(1) :
       /\ idil = 1 \/ pad[1] # "str" \/ pad = Str("SAME")
       /\ c = Cv(g[1], g[2], <<k>>, I(st), pad, I(idil), I(kdil), g[3], 1)
       /\ x = Fill(<<1, n, g[1]>>)
  \/ \E n \in { <<1, 3>>, <<3, 2>>, <<4, 3>> }, k \in { <<1, 2>>, <<3, 2>>, <<2, 3>> }, st \in { <<"n">>, <<"s", <<1, 2>> >>, <<"s", <<2, 1>> >> }, kdil \in { I(1), <<"s", <<2, 1>> >> }, pad \in PadsOf(2) :
       /\ c = Cv(2, 2, k, st, pad, <<"n">>, kdil, 1, 0)
       /\ x = Fill(n \o <<2>>)
  \/ \E i \in 1..3, o \in 1..3, b \in 0..1, lead \in { <<>>, <<2>>, <<2, 1>>, <<1, 2, 2>> } :
       /\ c = [k |-> "lin", i |-> i, o |-> o, b |-> b, dt |-> "none", pdt |-> "float32", gen |-> 1]
       /\ x = Fill(lead \o <<i>>)
  \/ \E n \in 1..4, f \in 1..3, sh \in { <<>>, <<3>>, <<2, 2>>, <<1, 2, 1>> } :
       /\ c = [k |-> "emb", n |-> n, f |-> f, dt |-> "none", pdt |-> "float32"]
       /\ x = [sh |-> sh, d |-> [ j \in 1..Prod(sh) |-> (j * 2) % n ]]
Init == Config /\ go = 0
Next == go = 0 /\ go' = 1 /\ UNCHANGED <<c, x>>       \* the laws are evaluated by every worker
Spec == Init /\ [][Next]_<<c, x, go>>
MkOp == [o |-> "mk", c |-> c, kd |-> KData, bd |-> <<10, -20, 30>>, intk |-> 0]
L == Apply(Start, MkOp).s.ls[1]
On(a, how) == [o |-> how, l |-> 1, x |-> a, xdt |-> IF c.k = "emb" /\ how = "call" THEN "int32" ELSE "float32", how |-> "plain"]
Y(a) == Call(L, On(a, "call"))
Good == Y(x).t = "arr"
Probe == << MkOp, On(x, "call") >> \o (IF c.k = "emb" THEN << On(Fill(<<2, c.f>>), "attend") >> ELSE IF c.k = "lin" THEN <<>> ELSE
            IF Len(c.ks) = 1 /\ c.st = I(1) /\ c.kdil = I(1) /\ c.idil = I(1) THEN << On([x EXCEPT !.sh = Tail(@)], "call"), On([x EXCEPT !.sh = <<1, 1>> \o Tail(@)], "call") >> ELSE <<>>)
Emit == go = 1 => PrintT(<<"STATE", ToJson([h |-> <<>>, p |-> << Probe >>])>>)

(* ---- laws of the definitions *)
Same(a, b) == a.t = b.t /\ (a.t = "arr" => a.sh = b.sh /\ a.d = b.d)
NoBias == [L EXCEPT !.bias = <<>>]
Y0(a) == Call(NoBias, On(a, "call"))
Roll(a) == Mk(a.sh, LAMBDA ix : Elem(a, [ix EXCEPT ![Len(ix) - 1] = (@ - 1) % a.sh[Len(ix) - 1]]))
Laws ==
  LET two == [sh |-> <<2>> \o x.sh, d |-> x.d \o x.d] IN
  /\ (Good => Same(Call(L, On(two, "call")), [Y(x) EXCEPT !.sh = <<2>> \o @, !.d = @ \o @]))          \* leading dimensions
  /\ (c.k # "emb" /\ Good =>                                                                         \* linear without the bias
        Y0(MapA(LAMBDA v : 3 * v, x)).d = [ i \in 1..Len(Y0(x).d) |-> 3 * Y0(x).d[i] ])
  /\ (c.k # "emb" /\ Good => \A i \in 1..Len(Y(x).d) : Y(x).d[i] - Y0(x).d[i] \in {0, 10, -20, 30})
  /\ (c.k = "conv" /\ Good =>
        LET r == Len(c.ks)  n == Len(x.sh)  out(i) == Y(x).sh[n - 1 - r + i]  inp(i) == x.sh[n - 1 - r + i] IN
        /\ (c.pad = Str("SAME") /\ Spread(c.idil, r) = [ i \in 1..r |-> 1 ] => \A i \in 1..r : out(i) = (inp(i) + Spread(c.st, r)[i] - 1) \div Spread(c.st, r)[i])
        /\ (c.pad \in { Str("CIRCULAR"), Str("CAUSAL") } /\ Spread(c.st, r) = [ i \in 1..r |-> 1 ] => \A i \in 1..r : out(i) = inp(i))
        /\ (c.pad = Str("CIRCULAR") /\ r = 1 /\ c.st = I(1) => Same(Y(Roll(x)), LET y == Y(x) IN [y EXCEPT !.d = Roll([sh |-> y.sh, d |-> y.d]).d]))
        /\ (c.pad = Str("CAUSAL") => \A t \in 0..inp(1) - 1 :                                          \* nothing depends on what comes later
              LET cut == Mk(x.sh, LAMBDA ix : IF ix[n - 1] > t THEN 77 ELSE Elem(x, ix))
                  y == Y(x)  z == Y(cut)
              IN \A j \in 1..Len(y.d) : IdxOf(y.sh, j - 1)[n - 1] * Spread(c.st, 1)[1] <= t => y.d[j] = z.d[j])
        /\ (c.g > 1 => LET co == c.o \div c.g IN \A j \in 1..Len(Y0(x).d) :                          \* a group sees only its own channels
              LET grp == (IdxOf(Y0(x).sh, j - 1)[n]) \div co
                  only == Mk(x.sh, LAMBDA ix : IF ix[n] \div (c.i \div c.g) = grp THEN Elem(x, ix) ELSE 99)
              IN Y0(only).d[j] = Y0(x).d[j])
        /\ (Prod(c.ks) = 1 /\ c.g = 1 /\ Plain(c.pad) /\ c.pad \in { Str("SAME"), Str("VALID") } /\ Spread(c.st, r) = [ i \in 1..r |-> 1 ] /\ c.idil \in { I(1), <<"n">> } =>   \* a window of one is a linear layer
              Same(Y0(x), Arr(Linear(c, [sh |-> <<c.i, c.o>>, d |-> L.kernel.d], x), "float32"))))
Prop == go = 1 => Laws
=============================================================================
