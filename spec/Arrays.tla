-------------------------------- MODULE Arrays --------------------------------
(* Arrays of integers: [sh |-> shape, d |-> elements in row order].              *)
EXTENDS Base

Prod(s) == Fold(LAMBDA a, b : a * b, 1, s)
RECURSIVE IdxOf(_, _)
IdxOf(sh, k) ==           \* the index (from 0 on in every dimension) of the k-th element
  IF sh = <<>> THEN <<>>
  ELSE LET n == Len(sh) IN Append(IdxOf(SubSeq(sh, 1, n - 1), k \div sh[n]), k % sh[n])
PosOf(sh, ix) == Fold(LAMBDA acc, i : acc * sh[i] + ix[i], 0, [ i \in 1..Len(sh) |-> i ])
Mk(sh, f(_)) == [sh |-> sh, d |-> [ i \in 1..Prod(sh) |-> f(IdxOf(sh, i - 1)) ]]
Elem(a, ix) == a.d[PosOf(a.sh, ix) + 1]
Sum(lo, hi, f(_)) == FoldLeft(LAMBDA acc, i : acc + f(i), 0, [ i \in 1..(hi - lo + 1) |-> lo + i - 1 ])
MapA(f(_), a) == [a EXCEPT !.d = [ i \in 1..Len(a.d) |-> f(a.d[i]) ]]
ZipA(f(_, _), a, b) == [a EXCEPT !.d = [ i \in 1..Len(a.d) |-> f(a.d[i], b.d[i]) ]]
Cycle(sh, data) == [sh |-> sh, d |-> [ i \in 1..Prod(sh) |-> data[1 + ((i - 1) % Len(data))] ]]
Front1(s) == SubSeq(s, 1, Len(s) - 1)
Last1(s) == s[Len(s)]

(* number types *)
Promote(a, b) ==
  CASE a = b -> a
    [] a = "int32" -> b
    [] b = "int32" -> a
    [] OTHER -> "float32"
Inexact(t) == t \in {"float16", "bfloat16", "float32"}
=============================================================================
