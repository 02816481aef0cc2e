-------------------------------- MODULE Base --------------------------------
(* Helpers shared by every specification module: ordered names and paths,     *)
(* folds, tagged values.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

(* Attribute names, in the order of their character codes.  TLC cannot compare *)
(* strings, so the order is given by position.  No name contains '/' or any    *)
(* character below it, hence ordering paths by component equals ordering the   *)
(* joined path strings.                                                        *)
NameList ==
  << "0", "1", "10", "2", "3", "A", "Z", "_g", "_h", "_length", "_p", "a", "a1", "a_b", "aa", "b",
  "b2", "batch_stats", "bias", "c", "count", "ctx", "d", "deterministic", "dropout", "e", "embedding",
  "f", "g", "h", "i", "i2", "inter", "k", "k1", "k10", "kernel", "l", "lin", "m", "mean", "moduledef",
  "mu", "n", "nu", "opt_state", "other", "p", "p1", "params", "q", "q9", "r", "s", "scale", "static",
  "step", "t", "trace", "tx", "u", "v", "value", "var", "w", "x", "x1", "x10", "x2", "y", "z", "zz" >>
NameRank == [ n \in Range(NameList) |-> CHOOSE i \in 1..Len(NameList) : NameList[i] = n ]
Rank(n) == NameRank[n]
NameLess(a, b) == Rank(a) < Rank(b)

SortedNames(S) == SetToSortSeq(S, NameLess)

RECURSIVE PathLess(_, _)
PathLess(p, q) ==
  IF q = <<>> THEN FALSE
  ELSE IF p = <<>> THEN TRUE
  ELSE IF p[1] = q[1] THEN PathLess(Tail(p), Tail(q))
  ELSE NameLess(p[1], q[1])

Fold(f(_, _), acc0, s) == FoldLeft(f, acc0, s)

RECURSIVE ConcatAll(_)
ConcatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o ConcatAll(Tail(ss))

MapSeq(f(_), s) == [ i \in 1..Len(s) |-> f(s[i]) ]
Member(x, s) == \E i \in 1..Len(s) : s[i] = x
IndexOf(x, s) == CHOOSE i \in 1..Len(s) : s[i] = x
NoDup(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
Without(f, k) == [ x \in DOMAIN f \ {k} |-> f[x] ]
With(f, k, v) == [ x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x] ]

(* tagged values *)
IntV(n) == <<"i", n>>
TupV(s) == <<"t", s>>
IsInt(v) == v[1] = "i"
IsTup(v) == v[1] = "t"
=============================================================================
