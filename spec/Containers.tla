------------------------------ MODULE Containers ------------------------------
(* Containers (nnx.containers): typed boxes with metadata.  A container is      *)
(* [ty, md, v]; containers are values, so every operation returns a new one and *)
(* never changes its operands.                                                  *)
EXTENDS Filters

VarTypes == {"Variable", "Param", "BatchStat", "Cache", "Intermediate", "MyParam", "MyVar"}
NodeTypes == VarTypes \cup {"Node", "TreeNode"}
IsNodeTy(ty) == ty \in NodeTypes

None == <<"n", 0>>
(* what the constructor stores for metadata md *)
Defaults(ty) == IF ty \in VarTypes THEN [sharding |-> "None"] ELSE <<>>
Norm(ty, md) == [ n \in DOMAIN md \cup DOMAIN Defaults(ty) |-> IF n \in DOMAIN md THEN md[n] ELSE Defaults(ty)[n] ]
MkOk(ty, md) == ty # "Static" \/ DOMAIN md = {}
Mk(ty, md, v) == [ty |-> ty, md |-> Norm(ty, md), v |-> v]

Equivalent(a, b) == a.ty = b.ty /\ a.md = b.md
Equal(a, b) == Equivalent(a, b) /\ a.v = b.v

RECURSIVE Leaves(_)
Leaves(v) == CASE v[1] = "i" -> <<v[2]>>
               [] v[1] = "t" -> ConcatAll([ j \in 1..Len(v[2]) |-> Leaves(v[2][j]) ])
               [] OTHER -> <<>>
RECURSIVE MapV(_, _)
MapV(v, k) == CASE v[1] = "i" -> IntV(v[2] + k)
                [] v[1] = "t" -> TupV([ j \in 1..Len(v[2]) |-> MapV(v[2][j], k) ])
                [] OTHER -> v
CLeaves(c) == IF c.ty = "Static" THEN <<>> ELSE Leaves(c.v)
RECURSIVE Shape(_)
Shape(v) == IF v[1] = "t" THEN <<"t", [ j \in 1..Len(v[2]) |-> Shape(v[2][j]) ]>> ELSE IF v[1] = "i" THEN <<"leaf">> ELSE v
SameStructure(a, b) == a.ty = b.ty /\ IF a.ty = "Static" THEN a.v = b.v ELSE a.md = b.md /\ Shape(a.v) = Shape(b.v)

(* results; fresh: the returned object is none of the operands *)
ContR(c) == [t |-> "cont", c |-> c, fresh |-> 1]
Err == [t |-> "err"]
Bool(b) == [t |-> "bool", b |-> IF b THEN 1 ELSE 0]

Apply(regs, op) ==
  CASE op.o = "mk" -> IF MkOk(op.ty, op.md) THEN ContR(Mk(op.ty, op.md, op.v)) ELSE Err
    [] op.o = "mkmeta" ->     \* ty(ContainerMetadata(v, inner), **md): the inner metadata wins
         IF op.ty = "Static" THEN Err
         ELSE ContR(Mk(op.ty, op.inner @@ op.md, op.v))
    [] op.o = "mkinit" ->     \* an initialiser carrying metadata, used for other containers (op.uses) before
         IF op.ty = "Static" THEN Err ELSE ContR(Mk(op.ty, op.inner @@ op.md, op.v))
    [] op.o = "wrap" ->       \* ty(container, **md)
         LET c == regs[op.r]
         IN IF MkOk(op.ty, op.md) /\ Equivalent(c, Mk(op.ty, op.md, c.v)) THEN ContR(Mk(op.ty, op.md, c.v)) ELSE Err
    [] op.o = "copy" -> ContR(regs[op.r])
    [] op.o = "replace" ->    \* kw: metadata; val: <<>>, <<"v", value>> or <<"r", register>>
         LET c == regs[op.r]
             known == DOMAIN op.kw \subseteq DOMAIN c.md
             v == IF op.val = <<>> THEN c.v ELSE IF op.val[1] = "v" THEN op.val[2] ELSE regs[op.val[2]].v
             fits == op.val = <<>> \/ op.val[1] = "v" \/ Equivalent(c, regs[op.val[2]])
         IN IF known /\ fits THEN ContR([c EXCEPT !.md = op.kw @@ @, !.v = v]) ELSE Err
    [] op.o = "eq" -> Bool(Equal(regs[op.r], regs[op.r2]))
    [] op.o = "equiv" -> Bool(Equivalent(regs[op.r], regs[op.r2]))
    [] op.o = "eqv" -> Bool(FALSE)      \* a container never equals a bare value
    [] op.o = "map" -> ContR(IF regs[op.r].ty = "Static" THEN regs[op.r] ELSE [regs[op.r] EXCEPT !.v = MapV(@, op.by)])
    [] op.o = "leaves" -> [t |-> "leaves", xs |-> CLeaves(regs[op.r]),
                           keys |-> IF CLeaves(regs[op.r]) = <<>> THEN <<>> ELSE <<"value">>]
    [] op.o = "struct" -> Bool(SameStructure(regs[op.r], regs[op.r2]))
    [] op.o = "isnode" -> Bool(IsNodeTy(regs[op.r].ty))
    [] op.o = "meta" ->
         LET c == regs[op.r] IN IF op.n \in DOMAIN c.md THEN [t |-> "str", s |-> c.md[op.n]] ELSE Err
    [] op.o = "hash" -> Bool(TRUE)      \* equal static containers have equal hashes
=============================================================================
