---------------------------- MODULE MC_Containers ----------------------------
(* All pairs of containers over a small universe, with the laws of C13 and the  *)
(* operations the harness performs on each pair.                                *)
EXTENDS Containers, Json, IOUtils
CONSTANTS Rich
VARIABLES a, b
Mds == { <<>>, [sharding |-> "(x,y)"], [tag |-> "t"] } \cup (IF Rich THEN { [sharding |-> "None", tag |-> "u"], [sharding |-> "(x,y)", tag |-> "t"] } ELSE {})
Vals == { IntV(1), IntV(2), TupV(<<IntV(1), IntV(2)>>) } \cup (IF Rich THEN { TupV(<<>>), TupV(<<TupV(<<IntV(3)>>), IntV(1)>>) } ELSE {})
Types == {"Variable", "Param", "MyParam", "Node", "TreeNode", "Static"} \cup (IF Rich THEN {"BatchStat", "Intermediate"} ELSE {})
Universe == { [ty |-> t, md |-> m, v |-> v] : t \in Types, m \in Mds, v \in Vals }
Ops == { x \in Universe : MkOk(x.ty, x.md) }
none == [ty |-> "none"]
Init == a = none /\ b = none
Next == \/ a = none /\ \E x \in Ops : a' = x /\ UNCHANGED b
        \/ a # none /\ b = none /\ \E y \in Ops : b' = y /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b>>
A == Mk(a.ty, a.md, a.v)
B == Mk(b.ty, b.md, b.v)
mk(x) == [o |-> "mk", ty |-> x.ty, md |-> x.md, v |-> x.v]
Probes ==
  IF b = none THEN {} ELSE
  { << mk(a), mk(b), [o |-> "eq", r |-> 1, r2 |-> 2], [o |-> "equiv", r |-> 1, r2 |-> 2], [o |-> "struct", r |-> 1, r2 |-> 2],
       [o |-> "wrap", r |-> 1, ty |-> b.ty, md |-> b.md],
       [o |-> "replace", r |-> 1, kw |-> <<>>, val |-> <<"r", 2>>],
       [o |-> "replace", r |-> 1, kw |-> b.md, val |-> <<"v", b.v>>],
       [o |-> "replace", r |-> 1, kw |-> b.md, val |-> <<"r", 2>>] >>,
    << mk(a), mk(b), [o |-> "copy", r |-> 1], [o |-> "eq", r |-> 1, r2 |-> 3], [o |-> "map", r |-> 3, by |-> 5],
       [o |-> "leaves", r |-> 1], [o |-> "isnode", r |-> 1], [o |-> "meta", r |-> 1, n |-> "tag"], [o |-> "eqv", r |-> 1],
       [o |-> "mkmeta", ty |-> a.ty, md |-> a.md, inner |-> b.md, v |-> a.v], [o |-> "hash", r |-> 1, r2 |-> 2],
       [o |-> "mkinit", ty |-> a.ty, md |-> a.md, inner |-> b.md, v |-> a.v, uses |-> << <<"Param", [tag |-> "u"]>>, <<"Node", [mu |-> "p"]>> >>, via |-> "init"],
       [o |-> "replace", r |-> 1, kw |-> [zz |-> "1"], val |-> <<>>], [o |-> "replace", r |-> 1, kw |-> b.md, val |-> <<>>] >> }
Emit == PrintT(<<"STATE", ToJson([p |-> SetToSeq(Probes)])>>)
Regs == <<A, B>>
Ok(r) == r.t = "cont"
Prop == b = none \/
  /\ Equal(A, A) /\ (Equal(A, B) <=> Equal(B, A))
  /\ (Equal(A, B) <=> A = B)
  /\ LET w == Apply(Regs, [o |-> "wrap", r |-> 1, ty |-> B.ty, md |-> IF B.ty = "Static" THEN <<>> ELSE B.md])
     IN (Ok(w) <=> Equivalent(A, B)) /\ (Ok(w) => w.c = A)
  /\ LET r == Apply(Regs, [o |-> "replace", r |-> 1, kw |-> <<>>, val |-> <<"r", 2>>])
     IN (Ok(r) <=> Equivalent(A, B)) /\ (Ok(r) => r.c = B)
  /\ LET r == Apply(Regs, [o |-> "replace", r |-> 1, kw |-> <<>>, val |-> <<"v", B.v>>])
     IN Ok(r) /\ r.c.ty = A.ty /\ r.c.md = A.md /\ r.c.v = B.v
  /\ LET m == Apply(Regs, [o |-> "map", r |-> 1, by |-> 3]).c
     IN /\ Equivalent(m, A) /\ SameStructure(m, A)
        /\ CLeaves(m) = [ j \in 1..Len(CLeaves(A)) |-> CLeaves(A)[j] + 3 ]
=============================================================================
