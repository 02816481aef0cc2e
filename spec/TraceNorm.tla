------------------------------- MODULE TraceNorm -------------------------------
(* Judges recorded traces of normalisation layers.                                        *)
EXTENDS Norm, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, s, ok
Evs == Traces[tid].evs
Init == tid \in 1..Len(Traces) /\ pos = 1 /\ s = Start /\ ok = TRUE
Next ==
  /\ pos <= Len(Evs)
  /\ LET ev == Evs[pos]
         e == Apply(s, ev.op)
         clauses == (IF Matches(e.res, ev.res) THEN {} ELSE {"result"}) \cup (IF Seen(e.s) = ev.obs THEN {} ELSE {"layers"})
     IN /\ ok' = (clauses = {})
        /\ (clauses # {} => PrintT(<<"VERDICT", ToJson([trace |-> Traces[tid].id, event |-> pos, op |-> ev.op.o,
              clauses |-> SetToSeq(clauses), expected |-> <<e.res, Seen(e.s)>>, observed |-> <<ev.res, ev.obs>>])>>))
        /\ s' = e.s
        /\ pos' = IF clauses = {} THEN pos + 1 ELSE Len(Evs) + 1
        /\ (pos' = Len(Evs) + 1 => PrintT(<<"DONE", Traces[tid].id>>))
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, pos, s, ok>>
=============================================================================
