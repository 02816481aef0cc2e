-------------------------------- MODULE MC_Norm --------------------------------
(* Every layer within the bounds under every history of up to D calls in mixed     *)
(* modes, and every layout of layer normalisation.                                 *)
EXTENDS Norm, Json
CONSTANTS D, Rich
VARIABLES hist, s
Bn(axis, mom, b, sc, axn) == [k |-> "bn", nf |-> 2, axis |-> axis, mom |-> mom, eps |-> <<1, 2>>, b |-> b, s |-> sc, dt |-> "none", pdt |-> "float32", axn |-> axn]
Ln(nf, red, feat, b, sc, axn) == [k |-> "ln", nf |-> nf, red |-> red, feat |-> feat, eps |-> <<1, 1>>, b |-> b, s |-> sc, dt |-> "none", pdt |-> "float32", axn |-> axn]
MkOp(c, mode) == [o |-> "mk", c |-> c, mode |-> mode, sd |-> <<2, -3, 1>>, bd |-> <<-1, 4>>]
Ctx(f) == [o |-> "ctx", fl |-> f]
X2 == << [sh |-> <<4, 2>>, d |-> <<1, 2, -3, 4, 5, 0, 1, 2>>], [sh |-> <<1, 2, 2>>, d |-> <<4, -1, 0, 3>>] >>
X3 == [sh |-> <<2, 4, 2>>, d |-> <<1, 2, -3, 4, 5, 0, 1, 2, 7, 7, -2, 3, 0, 1, 4, -4>>]
Axes == { <<-1>>, <<0>>, <<1, 2>>, <<-1, -3>>, <<0, 1, 2>>, <<-2>> }
ShapeOf(as) == Prod([ i \in 1..3 |-> IF i \in AxesOf(as, 3) THEN X3.sh[i] ELSE 1 ])
Fresh(ops) == Fold(LAMBDA st, op : Apply(st, op).s, Start, ops)
Init ==
  \/ \E axis \in IF Rich THEN {-1, 0, 1, -2} ELSE {-1, 1}, mom \in { <<1, 1>>, <<3, 2>>, <<0, 0>>, <<1, 0>> }, bs \in { <<1, 1>>, <<0, 1>>, <<0, 0>> }, mode \in -1..1, fl \in IF Rich THEN -1..1 ELSE 0..1, axn \in 0..1 :
       /\ hist = << MkOp(Bn(axis, mom, bs[1], bs[2], axn), mode), Ctx(fl) >>
       /\ s = Fresh(hist)
  \/ \E red \in Axes, feat \in Axes, bs \in { <<1, 1>>, <<1, 0>>, <<0, 1>>, <<0, 0>> }, axn \in 0..1 :
       /\ hist = << MkOp(Ln(ShapeOf(feat), red, feat, bs[1], bs[2], axn), -1), Ctx(-1) >>
       /\ s = Fresh(hist)
L == s.ls[1]
Call(x, mode, c, how) == [o |-> "call", l |-> 1, x |-> x, xdt |-> "float32", mode |-> mode, c |-> c, how |-> how]
Ops == { Call(X2[i], m, c, "plain") : i \in IF Rich THEN 1..2 ELSE {1}, m \in -1..1, c \in 0..1 } \cup { Call(X2[1], 0, 0, "jit") } \cup (IF L.c.axn = 1 THEN { Call(X3, 0, 0, "vmap") } ELSE {})
Next == /\ Len(hist) < 2 + D /\ L.c.k = "bn"
        /\ \E op \in Ops : hist' = Append(hist, op) /\ s' = Apply(s, op).s
Spec == Init /\ [][Next]_<<hist, s>>
ProbeBn == << Call(X2[2], 1, 0, "plain"), Call(X2[1], -1, 1, "plain"), Call([sh |-> <<4, 3>>, d |-> [ i \in 1..12 |-> i ]], 0, 0, "plain") >>
ProbeLn == << Call(X3, -1, 0, IF L.c.axn = 1 THEN "vmap" ELSE "plain"), Call([X3 EXCEPT !.sh = <<4, 2, 2>>], -1, 0, "plain") >>
LnX == IF L.c.axn = 1 THEN << Call([X3 EXCEPT !.sh = <<2, 2, 4, 1>>], -1, 0, "vmap"), Call(X3, -1, 0, "plain") >> ELSE ProbeLn
Emit == PrintT(<<"STATE", ToJson([h |-> hist, p |-> << IF L.c.k = "bn" THEN ProbeBn ELSE LnX >>])>>)
(* ---- laws *)
Shift(x, k) == MapA(LAMBDA v : v + k, x)
PropBn ==
  \A op \in Ops :
    LET e == Apply(s, op)
        m == Mode(L, op, s)
        n == e.s.ls[1]
    IN /\ (m = 1 /\ e.res.t = "out" => e.s = s)
       /\ (e.res = Err => e.s = s)
       /\ (m = 0 /\ e.res.t = "out" /\ L.c.mom = <<0, 0>> => n.mean = Apply([s EXCEPT !.ls[1].mean = << Num(5), Num(7) >>], op).s.ls[1].mean)   \* nothing kept
       /\ (m = 0 /\ L.c.mom = <<1, 0>> => n.mean = L.mean /\ n.var = L.var)
       /\ (m = 0 /\ e.res.t = "out" => LET z == Apply(s, [op EXCEPT !.x = Shift(op.x, 3)]) IN       \* the batch's own statistics ignore a shift
              [ i \in 1..Len(e.res.d) |-> e.res.d[i].y ] = [ i \in 1..Len(e.res.d) |-> z.res.d[i].y ] /\ z.s.ls[1].var = n.var)
       /\ \A i \in 1..Len(n.var) : n.var[i][1] >= 0
PropLn ==
  LET a == Apply(s, Call(X3, -1, 0, IF L.c.axn = 1 THEN "none" ELSE "plain")).res IN
  L.c.axn = 0 =>
    /\ a.t = "out"
    /\ (1 \notin AxesOf(L.c.red, 3) /\ 1 \notin AxesOf(L.c.feat, 3) =>                                   \* examples do not influence each other
          LET other == Apply(s, Call(Mk(X3.sh, LAMBDA ix : IF ix[1] = 0 THEN Elem(X3, ix) ELSE 5 * ix[2]), -1, 0, "plain")).res
          IN \A j \in 1..8 : other.d[j] = a.d[j])
Prop == IF L.c.k = "bn" THEN PropBn ELSE PropLn
=============================================================================
