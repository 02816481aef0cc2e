---------------------------- MODULE TraceTransforms ----------------------------
(* Judges recorded traces against Transforms.tla (and Graph.tla for the graph   *)
(* operations among them); the state is re-synchronised after every event.      *)
EXTENDS Transforms, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, heap, regs, caches

Observe(h, ev) ==
  LET h1 == Fold(LAMBDA hh, c : IF c[3].k = "none" THEN DelAttr(hh, c[1], c[2])
                               ELSE [hh EXCEPT ![c[1]].a = With(@, c[2], c[3])], h, ev.chg)
      h2 == Fold(LAMBDA hh, c : [hh EXCEPT ![c[1]].i = c[2]], h1, ev.ichg)
  IN h2 \o ev.new
ObserveRegs(rs, ev) ==
  Fold(LAMBDA q, c : [q EXCEPT ![c[1]] = c[2]], rs, ev.regchg) \o PushOf(ev.res)
Expect(ev) == IF Applies(ev.op) THEN ApplyT(heap, regs, caches, ev.op) ELSE Apply(heap, regs, ev.op)
Judge(e, ev) == IF e.res = Unjudged THEN {} ELSE
  (IF e.res = ev.res THEN {} ELSE {"result"})
  \cup (IF e.h = Observe(heap, ev) \/ (e.res.t = "err" /\ ev.op.o = "upd") THEN {} ELSE {"state"})
  \cup (IF ev.alias = <<>> THEN {} ELSE {"alias"})
  \cup (IF ev.regchg = <<>> THEN {} ELSE {"snapshot"})
Init == tid \in 1..Len(Traces) /\ pos = 1 /\ heap = <<>> /\ regs = <<>> /\ caches = <<>>
Next ==
  /\ pos <= Len(Traces[tid].evs)
  /\ LET ev == Traces[tid].evs[pos]
         e == IF ev.j = 1 THEN Expect(ev) ELSE [h |-> Observe(heap, ev), res |-> ev.res]
         clauses == IF ev.j = 1 THEN Judge(e, ev) ELSE {}
     IN /\ (clauses # {} => PrintT(<<"VERDICT", ToJson([trace |-> Traces[tid].id, event |-> pos, op |-> ev.op.o, clauses |-> SetToSeq(clauses),
              expected |-> [res |-> e.res, h |-> e.h], observed |-> [res |-> ev.res, chg |-> ev.chg, new |-> ev.new], heap_same |-> (e.h = Observe(heap, ev))])>>))
        /\ heap' = Observe(heap, ev)
        /\ regs' = ObserveRegs(regs, ev)
        /\ caches' = Cached(heap, caches, ev.op, ev.res)
        /\ pos' = pos + 1
        /\ (pos = Len(Traces[tid].evs) => PrintT(<<"DONE", Traces[tid].id>>))
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, pos, heap, regs, caches>>
=============================================================================
