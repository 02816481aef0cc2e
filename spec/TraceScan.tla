------------------------------ MODULE TraceScan ------------------------------
(* Judges recorded traces against Scan.tla; re-synchronised after every event.  *)
EXTENDS Scan, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, heap, cxs

Observe(h, ev) ==
  LET h1 == Fold(LAMBDA hh, c : IF c[3].k = "none" THEN DelAttr(hh, c[1], c[2])
                               ELSE [hh EXCEPT ![c[1]].a = With(@, c[2], c[3])], h, ev.chg)
  IN h1 \o ev.new
Judge(e, ev) ==
  (IF e.res = ev.res THEN {} ELSE {"result"})
  \cup (IF e.h = Observe(heap, ev) \/ (e.res.t = "err" /\ ev.op.o = "sinit") THEN {} ELSE {"state"})
  \cup (IF ev.alias = <<>> THEN {} ELSE {"alias"})
Init == tid \in 1..Len(Traces) /\ pos = 1 /\ heap = <<>> /\ cxs = <<>>
Next ==
  /\ pos <= Len(Traces[tid].evs)
  /\ LET ev == Traces[tid].evs[pos]
         e == ApplyS(heap, cxs, ev.op)
         clauses == IF ev.j = 1 THEN Judge(e, ev) ELSE {}
     IN /\ (clauses # {} => PrintT(<<"VERDICT", ToJson([trace |-> Traces[tid].id, event |-> pos, op |-> ev.op.o, clauses |-> SetToSeq(clauses),
              expected |-> [res |-> e.res, h |-> e.h], observed |-> [res |-> ev.res, chg |-> ev.chg, new |-> ev.new]])>>))
        /\ heap' = Observe(heap, ev)
        /\ cxs' = e.cxs
        /\ pos' = pos + 1
        /\ (pos = Len(Traces[tid].evs) => PrintT(<<"DONE", Traces[tid].id>>))
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, pos, heap, cxs>>
=============================================================================
