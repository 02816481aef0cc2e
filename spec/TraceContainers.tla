--------------------------- MODULE TraceContainers ---------------------------
(* Judges recorded traces: result of each operation, and that no container     *)
(* created earlier changed (ev.chg).                                           *)
EXTENDS Containers, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, regs, ok
Evs == Traces[tid].evs
Init == tid \in 1..Len(Traces) /\ pos = 1 /\ regs = <<>> /\ ok = TRUE
Next ==
  /\ pos <= Len(Evs)
  /\ LET ev == Evs[pos]
         e == Apply(regs, ev.op)
         clauses == (IF e = ev.res THEN {} ELSE {"result"}) \cup (IF ev.chg = <<>> THEN {} ELSE {"operand"})
     IN /\ ok' = (clauses = {})
        /\ (clauses # {} => PrintT(<<"VERDICT", ToJson([trace |-> Traces[tid].id, event |-> pos, op |-> ev.op.o,
              clauses |-> SetToSeq(clauses), expected |-> e, observed |-> ev.res])>>))
        /\ regs' = IF e.t = "cont" THEN Append(regs, e.c) ELSE regs
        /\ pos' = IF clauses = {} THEN pos + 1 ELSE Len(Evs) + 1
        /\ (pos' = Len(Evs) + 1 => PrintT(<<"DONE", Traces[tid].id>>))
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, pos, regs, ok>>
=============================================================================
