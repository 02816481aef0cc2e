-------------------------------- MODULE Levels --------------------------------
(* Trace levels (nnx.tracers), the guard they put on modules and RNG contexts,  *)
(* and the RNG streams themselves (nnx.contextlib).                             *)
(*                                                                             *)
(* A level is [j, n]: the innermost dynamic JAX trace and the innermost nnx     *)
(* trace.  Transforms push a frame, returning or raising pops it.               *)
(* s.stk   frames [lv, k, m, inner, st]: level, kind, module passed in, its     *)
(*         rebuilt form inside, whether state is propagated on return           *)
(* s.mods  [own, a, w, s, d, c, fr]: level, static attribute, parameter value,  *)
(*         sown values, whether attribute d exists, child module or 0, frame    *)
(*         the values belong to                                                 *)
(* s.ctxs  [own, st, fl]: level, << name, stream >> pairs, flags                *)
(* s.strs  streams [key, path, cnt, fr]; s.cps split contexts; s.pures split    *)
(* modules; s.keys every key handed out.                                        *)
(* A key is the sequence of numbers << <<seed>>, path, path, ... >> it was      *)
(* derived by; fr is the frame in which its value was computed (its bytes are   *)
(* meaningless once that frame is gone).                                        *)
EXTENDS Base

S0 == [ stk |-> << [lv |-> [j |-> 0, n |-> 0], k |-> "base", m |-> 0, inner |-> 0, st |-> 0, id |-> 0] >>,
        nxt |-> 1, mods |-> <<>>, ctxs |-> <<>>, strs |-> <<>>, cps |-> <<>>, pures |-> <<>>, keys |-> <<>> ]

JaxKinds == {"jax.jit", "jax.checkpoint", "jax.eval_shape", "lax.scan", "nnx.scan", "nnx.remat"}
Transparent == {"jax.grad", "jax.vmap"}
WithModule == {"nnx.jit", "nnx.grad", "nnx.remat"}
NewLevel(s, k) ==
  LET lv == Last(s.stk).lv IN
  CASE k \in JaxKinds -> [lv EXCEPT !.j = s.nxt]
    [] k = "nnx.jit" -> [j |-> s.nxt, n |-> s.nxt]
    [] k = "nnx.grad" -> [lv EXCEPT !.n = s.nxt]
    [] k \in Transparent -> lv
Cur(s) == Last(s.stk).lv
Depth(s) == Len(s.stk) - 1
Frame(s) == Last(s.stk).id
Alive(s, fr) == \E i \in 1..Len(s.stk) : s.stk[i].id = fr

None == [t |-> "none"]
TraceErr == [t |-> "err", e |-> "trace"]
OtherErr == [t |-> "err", e |-> "other"]
Ret(s, r) == [s |-> s, res |-> r]
Own(s, m) == s.mods[m].own = Cur(s)

AddMod(s, m) == [s EXCEPT !.mods = Append(@, m)]
Guard(s, m, t) == IF Own(s, m) THEN Ret(t, None) ELSE Ret(s, TraceErr)

(* module m and its descendants *)
RECURSIVE ReachL(_, _)
ReachL(s, S) == LET N == S \cup { s.mods[x].c : x \in { y \in S : s.mods[y].c # 0 } }
                IN IF N = S THEN S ELSE ReachL(s, N)
AllOwn(s, m) == \A x \in ReachL(s, {m}) : Own(s, x)

(* propagate the state of the rebuilt module to the one passed in *)
Propagate(s, f) ==
  LET i == s.mods[f.inner] IN [s EXCEPT !.mods[f.m].w = i.w, !.mods[f.m].fr = Frame(s), !.mods[f.m].s = IF i.s = <<>> THEN @ ELSE i.s]

StreamOf(s, c, name) == LET p == SelectSeq(s.ctxs[c].st, LAMBDA x : x[1] = name) IN IF p = <<>> THEN 0 ELSE p[1][2]
Term(st) == Append(st.key, Append(st.path, st.cnt))
CtxAlive(s, c) == \A i \in 1..Len(s.ctxs[c].st) : Alive(s, s.strs[s.ctxs[c].st[i][2]].fr)
CpAlive(s, p) == \A i \in 1..Len(s.cps[p].ks) : Alive(s, s.cps[p].ks[i][2].fr)
NewStream(s, key, fr) == [key |-> key, path |-> <<>>, cnt |-> 0, fr |-> fr]

(* build a context: arguments in order, each <<name, kind, value>> *)
AddStream(s, st) == [s EXCEPT !.strs = Append(@, st)]
BuildCtx(s, args, fl) ==
  LET step(ac, a) ==
        IF a[2] = "stream" THEN [ac EXCEPT !.st = Append(@, <<a[1], a[3]>>)]
        ELSE [s |-> AddStream(ac.s, IF a[2] = "drawn" THEN NewStream(s, s.keys[a[3]].term, s.keys[a[3]].fr)
                                    ELSE NewStream(s, << <<a[3]>> >>, Frame(s))),
              st |-> Append(ac.st, <<a[1], Len(ac.s.strs) + 1>>)]
      r == Fold(step, [s |-> s, st |-> <<>>], args)
  IN [r.s EXCEPT !.ctxs = Append(@, [own |-> Cur(s), st |-> r.st, fl |-> fl])]

ForkCtx(s, c) ==
  LET step(ac, p) ==
        LET st == ac.s.strs[p[2]]
        IN [s |-> [ac.s EXCEPT !.strs[p[2]].cnt = @ + 1],
            ks |-> Append(ac.ks, <<p[1], [key |-> st.key, path |-> Append(st.path, st.cnt), fr |-> st.fr]>>)]
      r == Fold(step, [s |-> s, ks |-> <<>>], s.ctxs[c].st)
  IN [s |-> r.s, p |-> [ks |-> r.ks, fl |-> s.ctxs[c].fl]]
MergeCtx(s, p, fr) ==      \* fr: frame the keys are passed into, or -1 where they are used as they are
  LET step(ac, k) ==
        [s |-> AddStream(ac.s, [key |-> k[2].key, path |-> k[2].path, cnt |-> 0, fr |-> IF fr = -1 THEN k[2].fr ELSE fr]),
         st |-> Append(ac.st, <<k[1], Len(ac.s.strs) + 1>>)]
      r == Fold(step, [s |-> s, st |-> <<>>], p.ks)
  IN [r.s EXCEPT !.ctxs = Append(@, [own |-> Cur(s), st |-> r.st, fl |-> p.fl])]
OwnC(s, c) == s.ctxs[c].own = Cur(s)

Pop1(s, m) == [s EXCEPT !.mods[m].s = <<>>]

Apply(s, op) ==
  CASE op.o = "new" -> Ret(AddMod(s, [own |-> Cur(s), a |-> 0, w |-> op.v, s |-> <<>>, d |-> 1, c |-> 0, fr |-> Frame(s)]), None)
    [] op.o = "set" -> Guard(s, op.m, [s EXCEPT !.mods[op.m].a = op.v])
    [] op.o = "setw" -> Guard(s, op.m, [s EXCEPT !.mods[op.m].w = op.v])
    [] op.o = "del" -> IF ~Own(s, op.m) THEN Ret(s, TraceErr)
                       ELSE IF s.mods[op.m].d = 0 THEN Ret(s, OtherErr) ELSE Ret([s EXCEPT !.mods[op.m].d = 0], None)
    [] op.o = "addd" -> Guard(s, op.m, [s EXCEPT !.mods[op.m].d = 1])
    [] op.o = "sow" -> Guard(s, op.m, [s EXCEPT !.mods[op.m].s = Append(@, op.v)])
    [] op.o = "adopt" -> Guard(s, op.m, [s EXCEPT !.mods[op.m].c = op.x])
    [] op.o = "upd" -> IF AllOwn(s, op.m) THEN Ret([s EXCEPT !.mods[op.m].w = op.v], None) ELSE Ret(s, TraceErr)
    [] op.o = "pop" ->       \* only where all sown descendants have one owner (see the generator)
         LET R == { x \in ReachL(s, {op.m}) : s.mods[x].s # <<>> }
         IN IF \A x \in R : Own(s, x)
            THEN Ret([s EXCEPT !.mods = [ x \in 1..Len(@) |-> IF x \in R THEN [@[x] EXCEPT !.s = <<>>] ELSE @[x] ]], None)
            ELSE Ret(s, TraceErr)
    [] op.o = "copy" -> Ret(AddMod(s, [s.mods[op.m] EXCEPT !.own = Cur(s)]), None)
    [] op.o = "clone" -> Ret(AddMod(s, [s.mods[op.m] EXCEPT !.own = Cur(s)]), None)   \* childless modules
    [] op.o = "part" -> Ret([s EXCEPT !.pures = Append(@, s.mods[op.m])], None)
    [] op.o = "merge" -> Ret(AddMod(s, [s.pures[op.p] EXCEPT !.own = Cur(s)]), None)
    [] op.o = "ctx" -> Ret(BuildCtx(s, op.args, op.fl), None)
    [] op.o = "stream" -> Ret(AddStream(s, NewStream(s, << <<op.v>> >>, Frame(s))), None)
    [] op.o = "draw" ->
         LET i == StreamOf(s, op.c, op.n)
         IN IF i = 0 THEN Ret(s, [t |-> "err", e |-> "any"])
            ELSE IF ~OwnC(s, op.c) THEN Ret(s, TraceErr)
            ELSE Ret([s EXCEPT !.strs[i].cnt = @ + 1, !.keys = Append(@, [term |-> Term(s.strs[i]), fr |-> Frame(s)])],
                     [t |-> "key", term |-> Term(s.strs[i])])
    [] op.o = "many" ->      \* op.k keys drawn (or as many forks, each asked for one key) in one go: all distinct
         LET i == StreamOf(s, op.c, op.n)
         IN IF i = 0 THEN Ret(s, [t |-> "err", e |-> "any"])
            ELSE IF ~OwnC(s, op.c) THEN Ret(s, TraceErr)
            ELSE Ret(IF op.how = "draw" THEN [s EXCEPT !.strs[i].cnt = @ + op.k]
                     ELSE [s EXCEPT !.strs = [ j \in 1..Len(@) |-> IF \E p \in Range(s.ctxs[op.c].st) : p[2] = j THEN [@[j] EXCEPT !.cnt = @ + op.k] ELSE @[j] ]],
                     [t |-> "many", d |-> op.k])
    [] op.o = "fork" ->
         IF ~OwnC(s, op.c) THEN Ret(s, TraceErr)
         ELSE LET f == ForkCtx(s, op.c) IN Ret([f.s EXCEPT !.cps = Append(@, f.p)], None)
    [] op.o = "cmerge" -> Ret(MergeCtx(s, s.cps[op.p], -1), None)
    [] op.o = "ccopy" -> Ret([s EXCEPT !.ctxs = Append(@, [@[op.c] EXCEPT !.own = Cur(s)])], None)
    [] op.o \in {"escaped", "lost"} -> Ret(s, [t |-> "never"])   \* recorded when the harness lost control of a frame
    [] op.o = "has" -> Ret(s, [t |-> "bool", b |-> IF StreamOf(s, op.c, op.n) = 0 THEN 0 ELSE 1])
    [] op.o = "flag" -> LET fl == s.ctxs[op.c].fl IN
         Ret(s, [t |-> "flag", has |-> IF op.n \in DOMAIN fl THEN 1 ELSE 0, v |-> IF op.n \in DOMAIN fl THEN fl[op.n] ELSE 2])
    [] op.o = "enter" ->
         LET forked == IF op.c = 0 THEN [s |-> s, p |-> [ks |-> <<>>, fl |-> <<>>]] ELSE ForkCtx(s, op.c)
             s1 == forked.s
             fr == [lv |-> NewLevel(s1, op.k), k |-> op.k, m |-> op.m, inner |-> IF op.k \in WithModule THEN Len(s1.mods) + 1 ELSE 0, st |-> op.st,
                    id |-> IF op.k \in Transparent THEN Frame(s1) ELSE s1.nxt]
             s2 == [s1 EXCEPT !.stk = Append(@, fr), !.nxt = @ + 1]
             s3 == IF op.k \in WithModule THEN AddMod(s2, [s.mods[op.m] EXCEPT !.own = fr.lv, !.fr = fr.id]) ELSE s2
         IN IF op.c # 0 /\ ~OwnC(s, op.c) THEN Ret(s, TraceErr)
            ELSE Ret(IF op.c = 0 THEN s3 ELSE MergeCtx(s3, forked.p, fr.id), None)
    [] op.o = "exit" ->
         IF op.how # "ret" THEN Ret([s EXCEPT !.stk = SubSeq(@, 1, Len(@) - op.d)], None)
         ELSE LET f == Last(s.stk)
                  s1 == [s EXCEPT !.stk = Front(@)]
                  prop == f.k \in WithModule /\ f.st = 1
              IN IF ~prop THEN Ret(s1, None)
                 ELSE IF Own(s1, f.m) THEN Ret(Propagate(s1, f), None) ELSE Ret(s1, TraceErr)

(* which operations a history may contain (the others are undefined, see DESIGN) *)
Childless(s, m) == s.mods[m].c = 0
Enabled(s, op) ==
  CASE op.o \in {"clone", "part"} -> Childless(s, op.m)
    [] op.o = "enter" -> (op.k \in WithModule => Childless(s, op.m) /\ Alive(s, s.mods[op.m].fr))
                         /\ (op.c # 0 => op.k \in {"nnx.jit", "nnx.remat", "nnx.scan"} /\ CtxAlive(s, op.c))
    [] op.o = "adopt" -> \A i \in 1..Len(s.stk) : s.stk[i].inner # op.m
    [] op.o = "exit" -> op.d \in 1..Depth(s)
    [] op.o = "pop" -> LET R == { Own(s, x) : x \in { y \in ReachL(s, {op.m}) : s.mods[y].s # <<>> } } IN R # {TRUE, FALSE}
    [] op.o = "ctx" -> \A i \in 1..Len(op.args) :
          CASE op.args[i][2] = "stream" -> op.args[i][3] \in 1..Len(s.strs) /\ Alive(s, s.strs[op.args[i][3]].fr)
            [] op.args[i][2] = "drawn" -> op.args[i][3] \in 1..Len(s.keys) /\ Alive(s, s.keys[op.args[i][3]].fr)
            [] OTHER -> TRUE
    [] op.o \in {"draw", "fork", "many"} -> ~OwnC(s, op.c) \/ CtxAlive(s, op.c)
    [] op.o = "ccopy" -> CtxAlive(s, op.c)
    [] op.o = "cmerge" -> CpAlive(s, op.p)
    [] OTHER -> TRUE

(* what is observed of every module and context *)
ModObs(m) == [a |-> m.a, w |-> m.w, s |-> m.s, d |-> m.d, c |-> m.c]
=============================================================================
