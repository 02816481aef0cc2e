------------------------------- MODULE Filters -------------------------------
(* Filters over (path, leaf) pairs: the meaning of nnx.partitioning.           *)
(* A filter is a tagged tuple:                                                 *)
(*   <<"type", T>>       a Python type, matches instances incl. subclasses     *)
(*   <<"path", n>>       a callable: the last path component is n              *)
(*   <<"under", n>>      a callable: the first path component is n             *)
(*   <<"val", k>>        a callable on the value: the value is the integer k   *)
(*   <<"...">>, <<"none">>                                                     *)
(*   <<"tuple", fs>>, <<"any", fs>>, <<"all", fs>>, <<"not", f>>               *)
(*   <<"bad", what>>     not a filter                                          *)
EXTENDS Base

(* the classes each leaf class is an instance of, as far as filters see them *)
SuperTypes ==
  [ Param |-> {"Param", "Variable", "Node", "Container"},
    BatchStat |-> {"BatchStat", "Variable", "Node", "Container"},
    Cache |-> {"Cache", "Variable", "Node", "Container"},
    Intermediate |-> {"Intermediate", "Variable", "Node", "Container"},
    Variable |-> {"Variable", "Node", "Container"},
    Node |-> {"Node", "Container"},
    TreeNode |-> {"TreeNode", "Container"},
    MyParam |-> {"MyParam", "Param", "Variable", "Node", "Container"},
    MyVar |-> {"MyVar", "Variable", "Node", "Container"},
    np |-> {"np"},
    jax |-> {"jax"},
    Tree |-> {"Tree", "Pytree"},
    Reg |-> {"Reg"},
    State |-> {"State"} ]

IsA(ty, T) == T = "object" \/ (ty \in DOMAIN SuperTypes /\ T \in SuperTypes[ty])

TypeOf(leaf) == IF "ty" \in DOMAIN leaf THEN leaf.ty ELSE "?"

RECURSIVE BadFilter(_)
BadFilter(f) ==
  CASE f[1] = "bad" -> TRUE
    [] f[1] \in {"tuple", "any", "all"} -> \E i \in 1..Len(f[2]) : BadFilter(f[2][i])
    [] f[1] = "not" -> BadFilter(f[2])
    [] OTHER -> FALSE

RECURSIVE Matches(_, _, _)
Matches(f, path, leaf) ==
  CASE f[1] = "type"  -> IsA(TypeOf(leaf), f[2])
    [] f[1] = "path"  -> path[Len(path)] = f[2]
    [] f[1] = "under" -> path[1] = f[2]
    [] f[1] = "val"   -> leaf.v = IntV(f[2])
    [] f[1] = "..."   -> TRUE
    [] f[1] = "none"  -> FALSE
    [] f[1] \in {"tuple", "any"} -> \E i \in 1..Len(f[2]) : Matches(f[2][i], path, leaf)
    [] f[1] = "all"   -> \A i \in 1..Len(f[2]) : Matches(f[2][i], path, leaf)
    [] f[1] = "not"   -> ~Matches(f[2], path, leaf)

EllipsisEarly(fs) == \E i \in 1..(Len(fs) - 1) : fs[i] = <<"...">>
FiltersBad(fs) == EllipsisEarly(fs) \/ \E i \in 1..Len(fs) : BadFilter(fs[i])

(* index of the first filter matching, 0 if none *)
FirstMatch(fs, path, leaf) ==
  LET M == { i \in 1..Len(fs) : Matches(fs[i], path, leaf) }
  IN IF M = {} THEN 0 ELSE Min(M)

(* entries: a sequence of <<path, leaf>> ; n+1 parts, the last one unmatched *)
SplitEntries(es, fs) ==
  LET which == [ i \in 1..Len(es) |-> FirstMatch(fs, es[i][1], es[i][2]) ]
      pick(k) == LET idx == SelectSeq([ i \in 1..Len(es) |-> i ], LAMBDA i : which[i] = k)
                 IN [ j \in 1..Len(idx) |-> es[idx[j]] ]
  IN [ k \in 1..(Len(fs) + 1) |-> IF k = Len(fs) + 1 THEN pick(0) ELSE pick(k) ]
=============================================================================
