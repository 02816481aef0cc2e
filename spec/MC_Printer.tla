------------------------------- MODULE MC_Printer -------------------------------
(* The mechanism behind printing - per thread, a set of modules seen in the current *)
(* print and a stack of indentations - refines the texts of Printing, whatever the  *)
(* interleaving of threads and wherever a print fails.                        *)
(* With Shared the threads use one set and one stack (the mechanism of old), and   *)
(* the refinement fails.                                                      *)
EXTENDS Printing
CONSTANTS NT, Shared, Rounds
VARIABLES h, thr, seen, ind, bad, left
Slot(t) == IF Shared THEN 1 ELSE t
V1 == { <<"i", 7>>, <<"p", 1>>, <<"r", 1>>, <<"r", 2>> }
Idle1 == [root |-> 0, fr |-> <<>>, own |-> FALSE]
Init ==
  /\ \E v, w, x \in V1 : h = << [ty |-> "A", a |-> << <<"a", v>>, <<"b", w>> >>], [ty |-> "B", a |-> << <<"a", x>> >>] >>
  /\ thr = [ t \in 1..NT |-> Idle1 ]
  /\ seen = [ t \in 1..NT |-> [on |-> FALSE, s |-> {}] ]
  /\ ind = [ t \in 1..NT |-> <<0>> ]
  /\ bad = FALSE /\ left = Rounds
(* thread t starts to print module m: a frame and its indentation, or the short form *)
Frame(m) == [m |-> m, i |-> 1, tx |-> <<>>]
Last1(q) == q[Len(q)]
Front1(q) == SubSeq(q, 1, Len(q) - 1)
Begin(t, m) ==
  /\ thr[t].root = 0 /\ left > 0 /\ left' = left - 1
  /\ IF m \in seen[Slot(t)].s
     THEN bad' = TRUE /\ UNCHANGED <<thr, seen, ind>>         \* a fresh print finds its module seen
     ELSE /\ thr' = [thr EXCEPT ![t] = [root |-> m, fr |-> <<Frame(m)>>, own |-> ~seen[Slot(t)].on]]
          /\ seen' = [seen EXCEPT ![Slot(t)] = [on |-> TRUE, s |-> @.s \cup {m}]]
          /\ ind' = [ind EXCEPT ![Slot(t)] = Append(@, Last1(@) + 1)]
          /\ UNCHANGED bad
  /\ UNCHANGED h
AddLine(f, ls) == [f EXCEPT !.tx = IF @ = <<>> THEN ls ELSE Glue(@, <<",">>) \o ls, !.i = @ + 1]
Step(t) ==
  /\ thr[t].root # 0
  /\ LET f == Last1(thr[t].fr)
         nv == h[f.m].a[f.i]
         v == nv[2]
         d == Last1(ind[Slot(t)])
         line(tx) == Wrap(Pad(d) \o nv[1] \o "=", tx, "")
     IN IF f.i > Len(h[f.m].a)
        THEN (* the module is done: close its frame *)
          LET ind1 == Front1(ind[Slot(t)])
              text == IF f.tx = <<>> THEN <<h[f.m].ty \o "()">> ELSE <<h[f.m].ty \o "(">> \o f.tx \o <<Pad(Last1(ind1)) \o ")">>
          IN /\ ind' = [ind EXCEPT ![Slot(t)] = ind1]
             /\ IF Len(thr[t].fr) = 1
                THEN /\ bad' = (bad \/ text # Render(h, <<"r", f.m>>).tx)
                     /\ thr' = [thr EXCEPT ![t] = Idle1]
                     /\ seen' = IF thr[t].own THEN [seen EXCEPT ![Slot(t)] = [on |-> FALSE, s |-> {}]] ELSE seen
                ELSE LET p == thr[t].fr[Len(thr[t].fr) - 1]
                         n == h[p.m].a[p.i][1]
                     IN /\ thr' = [thr EXCEPT ![t].fr = Append(SubSeq(@, 1, Len(@) - 2), AddLine(p, Wrap(Pad(Last1(ind1)) \o n \o "=", text, "")))]
                        /\ UNCHANGED <<seen, bad>>
        ELSE /\ UNCHANGED bad
             /\ CASE v[1] = "i" -> thr' = [thr EXCEPT ![t].fr = Append(Front1(@), AddLine(f, line(<<ToString(v[2])>>)))] /\ UNCHANGED <<seen, ind>>
                  [] v[1] = "p" -> thr' = [thr EXCEPT ![t].fr = Append(Front1(@), AddLine(f, line(<<"P" \o ToString(v[2])>>)))] /\ UNCHANGED <<seen, ind>>
                  [] v[1] = "r" -> IF v[2] \in seen[Slot(t)].s
                                   THEN thr' = [thr EXCEPT ![t].fr = Append(Front1(@), AddLine(f, line(<<h[v[2]].ty \o "(...)">>)))] /\ UNCHANGED <<seen, ind>>
                                   ELSE /\ thr' = [thr EXCEPT ![t].fr = Append(@, Frame(v[2]))]
                                        /\ seen' = [seen EXCEPT ![Slot(t)].s = @ \cup {v[2]}]
                                        /\ ind' = [ind EXCEPT ![Slot(t)] = Append(@, Last1(@) + 1)]
  /\ UNCHANGED <<h, left>>
(* printing an object fails: every frame is left, in order *)
Fails(t) ==
  /\ thr[t].root # 0
  /\ LET f == Last1(thr[t].fr) IN f.i <= Len(h[f.m].a) /\ h[f.m].a[f.i][2][1] = "p"
  /\ ind' = [ind EXCEPT ![Slot(t)] = SubSeq(@, 1, Len(@) - Len(thr[t].fr))]
  /\ seen' = IF thr[t].own THEN [seen EXCEPT ![Slot(t)] = [on |-> FALSE, s |-> {}]] ELSE seen
  /\ thr' = [thr EXCEPT ![t] = Idle1]
  /\ UNCHANGED <<h, bad, left>>
Next == \E t \in 1..NT : Step(t) \/ Fails(t) \/ \E m \in 1..2 : Begin(t, m)
Spec == Init /\ [][Next]_<<h, thr, seen, ind, bad, left>>
Correct == ~bad
Clean == \A t \in 1..NT : thr[t].root = 0 => Shared \/ (ind[t] = <<0>> /\ seen[t] = [on |-> FALSE, s |-> {}])
=============================================================================
