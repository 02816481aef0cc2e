----------------------------- MODULE TraceLevels -----------------------------
(* Judges recorded traces against Levels.tla.  Observed numbers of -1 are      *)
(* unreadable inside a trace and match anything.  Keys are observed up to      *)
(* equality: kid is the number of the first draw with the same bytes (0: the   *)
(* bytes stayed inside a trace), and must correspond one to one to key terms.  *)
EXTENDS Levels, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, s, kids
Evs == Traces[tid].evs
Init == tid \in 1..Len(Traces) /\ pos = 1 /\ s = S0 /\ kids = {}

SameNum(e, o) == o = -1 \/ e = o
SameMod(e, o) == /\ e.a = o.a /\ SameNum(e.w, o.w) /\ e.d = o.d /\ e.c = o.c
                 /\ Len(e.s) = Len(o.s) /\ \A i \in 1..Len(e.s) : SameNum(e.s[i], o.s[i])
SameState(t, ev) == /\ Len(t.mods) = Len(ev.mods)
                    /\ \A i \in 1..Len(ev.mods) : SameMod(t.mods[i], ev.mods[i])
SameRes(t, e, o) ==
  CASE e.t = "key" -> /\ o.t = "key"
                      /\ IF o.kid = 0 THEN Depth(t) > 0
                         ELSE \A k \in kids : (k[1] = e.term) <=> (k[2] = o.kid)
    [] e.t = "err" -> o.t = "err" /\ (e.e = "any" \/ o.e = e.e)
    [] OTHER -> e = o
Next ==
  /\ pos <= Len(Evs)
  /\ LET ev == Evs[pos]
         e == Apply(s, ev.op)
         clauses == (IF SameRes(s, e.res, ev.res) THEN {} ELSE {"result"}) \cup (IF SameState(e.s, ev) THEN {} ELSE {"state"})
     IN /\ (clauses # {} => PrintT(<<"VERDICT", ToJson([trace |-> Traces[tid].id, event |-> pos, op |-> ev.op.o,
              clauses |-> SetToSeq(clauses), expected |-> [res |-> e.res, mods |-> [ i \in 1..Len(e.s.mods) |-> ModObs(e.s.mods[i]) ]],
              observed |-> [res |-> ev.res, mods |-> ev.mods]])>>))
        /\ s' = e.s
        /\ kids' = IF e.res.t = "key" /\ ev.res.t = "key" /\ ev.res.kid # 0 THEN kids \cup {<<e.res.term, ev.res.kid>>} ELSE kids
        /\ pos' = IF clauses = {} THEN pos + 1 ELSE Len(Evs) + 1
        /\ (pos' = Len(Evs) + 1 => PrintT(<<"DONE", Traces[tid].id>>))
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, pos, s, kids>>
=============================================================================
