------------------------------ MODULE TraceGraph ------------------------------
(* Validates recorded traces of the real library against Graph.tla.            *)
(* Every event carries the operation, its projected result and the changes of  *)
(* all tracked objects.  The specification is re-synchronised with the observed *)
(* state after every event, so every event is judged on its own; the verdict   *)
(* names the failing clauses.                                                  *)
EXTENDS Graph, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, pos, heap, regs, bad

Observe(h, ev) ==
  LET h1 == Fold(LAMBDA hh, c : IF c[3].k = "none" THEN DelAttr(hh, c[1], c[2])
                               ELSE [hh EXCEPT ![c[1]].a = With(@, c[2], c[3])], h, ev.chg)
      h2 == Fold(LAMBDA hh, c : [hh EXCEPT ![c[1]].i = c[2]], h1, ev.ichg)
  IN h2 \o ev.new
ObserveRegs(rs, ev) ==
  Fold(LAMBDA q, c : [q EXCEPT ![c[1]] = c[2]], rs, ev.regchg) \o PushOf(ev.res)

SameResult(exp, obs) ==
  IF exp.t = "deq"
  THEN obs.t = "deq" /\ obs.eq = exp.eq /\ obs.ne = ~exp.eq /\ (exp.eq => obs.h)
  ELSE exp.t = obs.t /\ exp = obs

Judge(h, rs, ev) ==
  LET e == Apply(h, rs, ev.op)
      o == Observe(h, ev)
      partial == e.res.t = "err" /\ ev.op.o = "upd"
  IN (IF SameResult(e.res, ev.res) THEN {} ELSE {"result"})
     \cup (IF e.h = o \/ partial THEN {} ELSE {"state"})
     \cup (IF ev.alias = <<>> THEN {} ELSE {"alias"})
     \cup (IF ev.regchg = <<>> THEN {} ELSE {"snapshot"})

Report(ev, clauses) ==
  LET e == Apply(heap, regs, ev.op)
  IN PrintT(<<"VERDICT", ToJson([ trace |-> Traces[tid].id, event |-> pos, op |-> ev.op.o,
                                  clauses |-> SetToSeq(clauses), expected |-> e.res,
                                  observed |-> ev.res, heap_same |-> (e.h = Observe(heap, ev)) ])>>)

Init == /\ tid \in 1..Len(Traces)
        /\ pos = 1
        /\ heap = <<>>
        /\ regs = <<>>
        /\ bad = {}

Next ==
  /\ pos <= Len(Traces[tid].evs)
  /\ LET ev == Traces[tid].evs[pos]
         clauses == IF ev.j = 1 THEN Judge(heap, regs, ev) ELSE {}
     IN /\ bad' = clauses
        /\ (clauses # {} => Report(ev, clauses))
        /\ heap' = Observe(heap, ev)
        /\ regs' = ObserveRegs(regs, ev)
        /\ pos' = pos + 1
        /\ (pos = Len(Traces[tid].evs) => PrintT(<<"DONE", Traces[tid].id>>))
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_<<tid, pos, heap, regs, bad>>
=============================================================================
