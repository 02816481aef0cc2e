------------------------------- MODULE MC_Dropout -------------------------------
(* Every layer, mode and context under every history of up to D calls.             *)
EXTENDS Dropout, Json
CONSTANTS D, Rich
VARIABLES hist, s
X == [sh |-> <<2, 3>>, d |-> <<3, -6, 9, 3, 6, -3>>]
Start0(rate, dims, det, coll, fl) ==
  << [o |-> "mk", rate |-> rate, dims |-> dims, det |-> det, coll |-> coll, how |-> "kw"],
     [o |-> "ctx", st |-> << <<"dropout", 5>>, <<"params", 5>> >>, fl |-> fl], [o |-> "ctx", st |-> << <<"dropout", 5>> >>, fl |-> fl] >>
Init ==
  \E rate \in IF Rich THEN 0..4 ELSE {0, 2, 4}, dims \in IF Rich THEN { <<>>, <<0>>, <<-1>>, <<0, 1>> } ELSE { <<>>, <<-1>> }, det \in -1..1, fl \in -1..1, coll \in {"dropout", "params"} :
    /\ hist = Start0(rate, dims, det, coll, fl)
    /\ s = Fold(LAMBDA st, op : Apply(st, op).s, Start, hist)
Ops == { [o |-> "call", l |-> 1, x |-> X, xdt |-> "float32", det |-> d, c |-> c, how |-> h] : d \in -1..1, c \in 0..2, h \in {"plain", "jit"} }
Next == /\ Len(hist) < 3 + D
        /\ \E op \in Ops : hist' = Append(hist, op) /\ s' = Apply(s, op).s
Spec == Init /\ [][Next]_<<hist, s>>
Probe == << [o |-> "draw", c |-> 1, n |-> "dropout"], [o |-> "draw", c |-> 1, n |-> "params"], [o |-> "draw", c |-> 2, n |-> "dropout"],
            [o |-> "draw", c |-> 2, n |-> "params"], [o |-> "set", l |-> 1, n |-> "det", v |-> 0], [o |-> "call", l |-> 1, x |-> X, xdt |-> "float32", det |-> -1, c |-> 1, how |-> "plain"],
            [o |-> "draw", c |-> 1, n |-> "dropout"] >>
Emit == PrintT(<<"STATE", ToJson([h |-> hist, p |-> << Probe >>])>>)
(* ---- laws *)
Prop ==
  \A op \in Ops :
    LET e == Apply(s, op)
        L == s.ls[1]
        drawn == IF op.c = 0 THEN 0 ELSE Stream(e.s.cs[op.c], "dropout")[3] - Stream(s.cs[op.c], "dropout")[3]
    IN /\ (op.how = "plain" /\ L.coll = "dropout" => (drawn = 1) = (e.res.t = "random") /\ drawn \in 0..1)
       /\ (op.det = 1 => e.res = Same(X, "float32"))
       /\ (e.res.t = "random" => op.c # 0 /\ L.rate \in 1..3)
       /\ \A i \in 1..2 : i # op.c => e.s.cs[i] = s.cs[i]
       /\ \A i \in 1..Len(s.cs) : op.how = "plain" => \A n \in AllStreams(s.cs[i]) \ {L.coll} : Stream(e.s.cs[i], n) = Stream(s.cs[i], n)
=============================================================================
