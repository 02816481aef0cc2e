------------------------------- MODULE MC_Levels -------------------------------
(* Behaviours of Levels.tla: all short ones (SpecAll) and long random ones      *)
(* (SpecSim, run with -simulate), each printed as a script with probes in the   *)
(* place reached and again after all frames have ended.                         *)
EXTENDS Levels, Json, IOUtils
CONSTANTS K, Alphabet, Kinds
VARIABLES s, hist, n, terms

SimKinds == JsonDeserialize(IOEnv.SIMKINDS)    \* kinds of operation, repeated by weight
OpNew(v) == [o |-> "new", v |-> v]
Mods(t) == 1..Len(t.mods)
Ctxs(t) == 1..Len(t.ctxs)
Enters(t, ks) ==
  UNION { { [o |-> "enter", k |-> k, m |-> m, c |-> c, st |-> st] :
              m \in IF k \in WithModule THEN Mods(t) ELSE {0},
              c \in {0} \cup (IF k \in {"nnx.jit", "nnx.remat", "nnx.scan"} THEN Ctxs(t) ELSE {}),
              st \in IF k \in {"nnx.jit", "nnx.grad"} THEN {0, 1} ELSE IF k = "nnx.remat" THEN {1} ELSE {0} } : k \in ks }
Exits(t) == { [o |-> "exit", how |-> "ret", d |-> 1] } \cup { [o |-> "exit", how |-> h, d |-> d] : h \in {"raise", "interrupt"}, d \in 1..Depth(t) }
Names == {"params", "dropout"}
Args(t) == { << >> } \cup { << <<"params", "int", v>>, <<"dropout", "key", w>> >> : v \in {-1, 0, 2147483647}, w \in {-2, 1} } \cup { << <<"params", "int", 1>> >>, << <<"params", "int", 2>>, <<"dropout", "int", 2>> >>, << <<"noise", "int", 3>>, <<"dropout", "key", 3>>, <<"params", "int", 3>> >>, << <<"params", "key", 2>>, <<"dropout", "int", 3>> >>, << <<"params", "int", 1>>, <<"dropout", "key", 3>> >>,
               << <<"dropout", "int", 2>>, <<"params", "int", 1>>, <<"noise", "key", 4>> >> }
          \cup { << <<"params", "stream", i>>, <<"dropout", "int", 5>> >> : i \in 1..Len(t.strs) }
          \cup { << <<"params", "stream", p[1]>>, <<"dropout", "stream", p[2]>> >> : p \in { q \in (1..Len(t.strs)) \X (1..Len(t.strs)) : q[1] # q[2] } }
          \cup { << <<"dropout", "drawn", i>> >> : i \in 1..Len(t.keys) }
Fls == { <<>>, [train |-> 1], [train |-> 0, deterministic |-> 1] }

OpsOf(t, k) ==
  CASE k = "new" -> IF Len(t.mods) < 7 THEN { OpNew(v) : v \in 1..3 } ELSE {}
    [] k \in {"set", "setw", "sow", "upd"} -> { [o |-> k, m |-> m, v |-> v] : m \in Mods(t), v \in 4..6 }
    [] k \in {"del", "addd", "pop", "part"} -> { [o |-> k, m |-> m] : m \in Mods(t) }
    [] k \in {"copy", "clone"} -> IF Len(t.mods) < 7 THEN { [o |-> k, m |-> m] : m \in Mods(t) } ELSE {}
    [] k = "adopt" -> { [o |-> k, m |-> m, x |-> x] : m, x \in Mods(t) }
    [] k = "merge" -> IF Len(t.mods) < 7 THEN { [o |-> k, p |-> p] : p \in 1..Len(t.pures) } ELSE {}
    [] k = "enter" -> IF Depth(t) < 4 THEN Enters(t, Kinds) ELSE {}
    [] k = "ret" -> IF Depth(t) > 0 THEN { [o |-> "exit", how |-> "ret", d |-> 1] } ELSE {}
    [] k = "exit" -> IF Depth(t) > 0 THEN Exits(t) ELSE {}
    [] k = "ctx" -> IF Len(t.ctxs) < 8 THEN { [o |-> k, args |-> a, fl |-> f] : a \in Args(t), f \in Fls } ELSE {}
    [] k = "stream" -> IF Len(t.strs) < 12 THEN { [o |-> k, v |-> v] : v \in 6..8 } ELSE {}
    [] k \in {"draw", "has"} -> { [o |-> k, c |-> c, n |-> x] : c \in Ctxs(t), x \in Names \cup {"zz"} }
    [] k = "many" -> IF Depth(t) > 0 THEN {} ELSE { [o |-> k, c |-> c, n |-> x, k |-> 300, how |-> "draw"] : c \in Ctxs(t), x \in Names }
                       \cup { [o |-> k, c |-> c, n |-> x, k |-> 30, how |-> "fork"] : c \in Ctxs(t), x \in Names }
    [] k = "flag" -> { [o |-> k, c |-> c, n |-> x] : c \in Ctxs(t), x \in {"train", "deterministic"} }
    [] k = "fork" -> { [o |-> k, c |-> c] : c \in Ctxs(t) }
    [] k = "ccopy" -> IF Len(t.ctxs) < 8 THEN { [o |-> k, c |-> c] : c \in Ctxs(t) } ELSE {}
    [] k = "cmerge" -> IF Len(t.ctxs) < 8 THEN { [o |-> k, p |-> p] : p \in 1..Len(t.cps) } ELSE {}

Init == s = S0 /\ hist = <<>> /\ n = 0 /\ terms = <<>>
Do(op) == LET e == Apply(s, op) IN
          /\ s' = e.s /\ hist' = Append(hist, op)
          /\ terms' = IF e.res.t = "key" THEN Append(terms, e.res.term) ELSE terms

SmallOps(t, k) ==
  CASE k = "new" -> IF Len(t.mods) < 2 THEN {OpNew(1)} ELSE {}
    [] k = "set" -> { [o |-> k, m |-> m, v |-> 4] : m \in Mods(t) }
    [] k = "ctx" -> IF Len(t.ctxs) < 2 THEN { [o |-> k, args |-> << <<"params", "int", 1>>, <<"dropout", "key", 2>> >>, fl |-> [train |-> 1]] } ELSE {}
    [] k = "exit" -> { op \in OpsOf(t, "exit") : op.how # "interrupt" }
    [] k = "enter" -> IF Depth(t) < 3 THEN Enters(t, Kinds) ELSE {}
    [] OTHER -> OpsOf(t, k)
NextAll == /\ Len(hist) < K /\ n' = n
           /\ \E k \in Alphabet : \E op \in SmallOps(s, k) : Enabled(s, op) /\ Do(op)
SpecAll == Init /\ [][NextAll]_<<s, hist, n, terms>>
View == <<s, n>>

(* probes performed on every module and context *)
ProbeOps(t) ==
  ConcatAll([ m \in 1..Len(t.mods) |-> << [o |-> "set", m |-> m, v |-> 7], [o |-> "setw", m |-> m, v |-> 8], [o |-> "sow", m |-> m, v |-> 9],
       [o |-> "upd", m |-> m, v |-> 3], [o |-> "del", m |-> m], [o |-> "addd", m |-> m], [o |-> "pop", m |-> m] >> ])
  \o ConcatAll([ c \in 1..Len(t.ctxs) |-> << [o |-> "draw", c |-> c, n |-> "params"], [o |-> "has", c |-> c, n |-> "dropout"],
       [o |-> "draw", c |-> c, n |-> "dropout"], [o |-> "flag", c |-> c, n |-> "train"], [o |-> "fork", c |-> c], [o |-> "draw", c |-> c, n |-> "params"],
       [o |-> "draw", c |-> c, n |-> "zz"] >> ])
Keep(t0, ops) == Fold(LAMBDA ac, op : IF Enabled(ac.s, op) THEN [s |-> Apply(ac.s, op).s, ops |-> Append(ac.ops, op)] ELSE ac,
                      [s |-> t0, ops |-> <<>>], ops)
Unwinding(t) == [ i \in 1..Depth(t) |-> [o |-> "exit", how |-> "ret", d |-> 1] ]
Tail_(t) == LET a == IF Depth(t) = 0 THEN [s |-> t, ops |-> <<>>] ELSE Keep(t, ProbeOps(t))
                b == Keep(a.s, Unwinding(a.s))
                c == Keep(b.s, ProbeOps(b.s))
            IN a.ops \o b.ops \o c.ops
Interesting == Len(hist) > 0 /\ Last(hist).o \in {"enter", "exit", "fork", "cmerge", "ccopy", "draw", "ctx", "clone", "copy", "merge", "set", "new"}
Emit == Interesting => PrintT(<<"STATE", ToJson([h |-> hist, p |-> <<Tail_(s)>>])>>)

NextSim == /\ n < K /\ n' = n + 1
           /\ \E i \in {RandomElement(1..Len(SimKinds))} :
                LET C == { op \in OpsOf(s, SimKinds[i]) : Enabled(s, op) } IN
                IF C = {} THEN UNCHANGED <<s, hist, terms>>
                ELSE \E op \in {RandomElement(C)} : Do(op)
           /\ (n' = K => PrintT(<<"STATE", ToJson([h |-> hist', p |-> <<Tail_(s')>>])>>))
SpecSim == Init /\ [][NextSim]_<<s, hist, n, terms>>

(* C17: no key is handed out twice, except by streams set up from the same seed *)
KeysUnique == NoDup([ i \in 1..Len(s.strs) |-> <<s.strs[i].key, s.strs[i].path>> ]) => NoDup(terms)
(* C18: the position of a stream counts the draws and forks made on it *)
Positions == \A i \in 1..Len(s.strs) : s.strs[i].cnt >= 0
(* C14, C15, C16 *)
Levels == /\ \A i, j \in 1..Len(s.stk) : s.stk[i].lv = s.stk[j].lv => \A k \in i..j : s.stk[k].lv = s.stk[i].lv
          /\ \A m \in Mods(s) : LET r == Apply(s, [o |-> "set", m |-> m, v |-> 9])
                IN (r.res.t = "none" <=> Own(s, m)) /\ (r.res.t # "none" => r.s = s)
          /\ \A c \in Ctxs(s) : \A x \in Names :
                LET r == Apply(s, [o |-> "draw", c |-> c, n |-> x])
                IN StreamOf(s, c, x) # 0 => (r.res.t = "key" <=> OwnC(s, c)) /\ (r.res.t # "key" => r.s = s)
Restored == Depth(s) = 0 => Cur(s) = S0.stk[1].lv
Prop == KeysUnique /\ Levels /\ Restored /\ Positions
=============================================================================
