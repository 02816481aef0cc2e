------------------------------ MODULE Printing ------------------------------
(* The identities of modules and the texts they, their definitions and states   *)
(* are printed as, by any number of threads.                                    *)
(* heap    << module, ... >>, module [ty, a |-> << <<name, value>>, ... >>] with the *)
(*         attributes in the order they were first assigned                     *)
(* value   <<"i", n>> number | <<"s", lines>> string | <<"p", k>> an object that pauses or  *)
(*         fails while it is printed | <<"r", m>> submodule | <<"n", m>> an object that prints *)
(*         module m | <<"c", v>> static container | <<"l", id, vs>> list object | <<"t", vs>>  *)
(*         tuple | <<"v", n>> variable | <<"a", n>> array                                *)
(* text    a sequence of lines                                                  *)
EXTENDS Base

RECURSIVE Pad(_)
Pad(n) == IF n = 0 THEN "" ELSE "  " \o Pad(n - 1)
Hidden == {"_g", "_h"}
IsRef(v) == v[1] = "r"
IsNode(v) == v[1] \in {"v", "a"}
Visible(nv) == IsRef(nv[2]) \/ (~IsNode(nv[2]) /\ nv[1] \notin Hidden)

Glue(a, b) == SubSeq(a, 1, Len(a) - 1) \o << a[Len(a)] \o b[1] >> \o Tail(b)
Wrap(pre, tx, post) == Glue(Glue(<<pre>>, tx), <<post>>)
Shift(tx, d) == [ i \in 1..Len(tx) |-> IF i = 1 THEN tx[1] ELSE Pad(d) \o tx[i] ]
RECURSIVE JoinText(_, _)
JoinText(ss, sep) == IF Len(ss) = 0 THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o JoinText(Tail(ss), sep)
Quote(lines) == "'" \o JoinText(lines, "\\n") \o "'"

(* definitions: [ty, ix, subs |-> << <<name, <<"D", definition>> or <<"i", index>>>>, ... >>, st |-> statics by name] *)
RECURSIVE DefWalk(_, _, _)
DefWalk(h, m, ids) ==        \* [d, ids]: ids lists the modules in the order of their indices
  LET at(n) == (CHOOSE j \in 1..Len(h[m].a) : h[m].a[j][1] = n)
      names == SortedNames({ h[m].a[j][1] : j \in 1..Len(h[m].a) })
      sub(acc, n) ==
        LET v == h[m].a[at(n)][2] IN
        IF ~IsRef(v) THEN acc
        ELSE IF Member(v[2], acc.ids) THEN [acc EXCEPT !.subs = Append(@, <<n, <<"i", IndexOf(v[2], acc.ids) - 1>> >>)]
        ELSE LET e == DefWalk(h, v[2], acc.ids) IN [ids |-> e.ids, subs |-> Append(acc.subs, <<n, <<"D", e.d>> >>)]
      e == FoldLeft(sub, [ids |-> Append(ids, m), subs |-> <<>>], names)
      isStatic(n) == LET v == h[m].a[at(n)][2] IN ~IsRef(v) /\ ~IsNode(v)
  IN [d |-> [ty |-> h[m].ty, ix |-> Len(ids), subs |-> e.subs,
             st |-> [ j \in 1..Len(SelectSeq(names, isStatic)) |-> LET n == SelectSeq(names, isStatic)[j] IN <<n, h[m].a[at(n)][2]>> ]],
      ids |-> e.ids]
DefTree(h, m) == DefWalk(h, m, <<>>).d

(* rendering: [tx |-> text, sn |-> modules seen so far in this print, pr |-> objects that can pause, in order] *)
Off == [on |-> FALSE, s |-> {}]
R(tx, sn, pr) == [tx |-> tx, sn |-> sn, pr |-> pr]
RECURSIVE Val(_, _, _, _, _)
(* an object: its items each on a line of their own; rep: the value indents its own lines *)
Object(h, head, tail, empty, items, sn, op, d) ==
  LET add(acc, it) ==
        LET r == Val(h, it.v, acc.sn, op, d + 1)
            ln == Wrap(Pad(d + 1) \o it.pre, IF it.rep THEN r.tx ELSE Shift(r.tx, d + 1), it.post)
        IN R(IF acc.tx = <<>> THEN ln ELSE Glue(acc.tx, <<",">>) \o ln, r.sn, acc.pr \o r.pr)
      e == FoldLeft(add, R(<<>>, sn, <<>>), items)
  IN IF items = <<>> THEN R(<<head \o empty \o tail>>, sn, <<>>)
     ELSE R(<<head>> \o e.tx \o <<Pad(d) \o tail>>, e.sn, e.pr)
Item(pre, v, post, rep) == [pre |-> pre, v |-> v, post |-> post, rep |-> rep]
Rep(v) == v[1] \in {"r", "c", "D"}
ModText(h, m, sn, op, d) ==
  IF m \in sn.s THEN R(<<h[m].ty \o "(...)">>, sn, <<>>)
  ELSE LET vis == SelectSeq(h[m].a, Visible)
           e == Object(h, h[m].ty \o "(", ")", "", [ j \in 1..Len(vis) |-> Item(vis[j][1] \o "=", vis[j][2], "", Rep(vis[j][2])) ],
                       [on |-> TRUE, s |-> sn.s \cup {m}], op, d)
       IN IF sn.on THEN e ELSE [e EXCEPT !.sn = Off]      \* the outermost module forgets what was seen
Raw(v) == IF v[1] = "s" THEN <<"q", v[2]>> ELSE v       \* as Python shows it
Elems(h, vs, sn, op, d) ==      \* comma-separated on one line
  FoldLeft(LAMBDA acc, v : LET r == Val(h, Raw(v), acc.sn, op, d) IN
             R(IF acc.tx = <<>> THEN r.tx ELSE Glue(Glue(acc.tx, <<", ">>), r.tx), r.sn, acc.pr \o r.pr), R(<<>>, sn, <<>>), vs)
Val(h, v, sn, op, d) ==
  CASE v[1] = "i" -> R(<<ToString(v[2])>>, sn, <<>>)
    [] v[1] = "s" -> R(v[2], sn, <<>>)
    [] v[1] = "q" -> R(<<Quote(v[2])>>, sn, <<>>)
    [] v[1] = "p" -> R(<<"P" \o ToString(v[2])>>, sn, <<v[2]>>)
    [] v[1] \in {"r", "n"} -> ModText(h, v[2], sn, op, d)
    [] v[1] = "c" -> Object(h, "Static(", ")", "", << Item("value=", Raw(v[2]), "", FALSE) >>, sn, op, d)
    [] v[1] = "k" -> Object(h, v[2] \o "(", ")", "", (IF v[2] = "Node" THEN <<>> ELSE << Item("sharding=", <<"s", <<"None">> >>, "", FALSE) >>)
                                                    \o << Item("value=", Raw(v[3]), "", FALSE) >>, sn, op, d)
    [] v[1] = "l" -> IF v[2] \in op THEN R(<<"[...]">>, sn, <<>>)
                     ELSE IF v[3] = <<>> THEN R(<<"[]">>, sn, <<>>)
                     ELSE LET e == Elems(h, v[3], sn, op \cup {v[2]}, d) IN [e EXCEPT !.tx = Wrap("[", @, "]")]
    [] v[1] = "t" -> IF v[2] = <<>> THEN R(<<"()">>, sn, <<>>)
                     ELSE LET e == Elems(h, v[2], sn, op, d) IN [e EXCEPT !.tx = Wrap("(", @, IF Len(v[2]) = 1 THEN ",)" ELSE ")")]
    [] v[1] = "S" -> Object(h, "State({", "})", "", [ j \in 1..Len(v[2]) |-> Item(Quote(<<JoinText(v[2][j].p, "/")>>) \o ": ", <<"k", v[2][j].k, v[2][j].v>>, "", TRUE) ], sn, op, d)
    [] v[1] = "subs" -> Object(h, "(", ")", "", [ j \in 1..Len(v[2]) |-> Item("(" \o Quote(<<v[2][j][1]>>) \o ", ", v[2][j][2], ")", Rep(v[2][j][2])) ], sn, op, d)
    [] v[1] = "D" -> Object(h, "ModuleDef(", ")", "",
                       << Item("type=", <<"s", <<v[2].ty>> >>, "", FALSE), Item("index=", <<"i", v[2].ix>>, "", FALSE), Item("submodules=", <<"subs", v[2].subs>>, "", TRUE),
                          Item("static_fields=", <<"t", [ j \in 1..Len(v[2].st) |-> <<"t", << <<"q", <<v[2].st[j][1]>> >>, v[2].st[j][2]>> >> ]>>, "", FALSE) >>, sn, op, d)
Render(h, v) == Val(h, v, Off, {}, 0)

(* ------------------------------------------------------------------ copies *)
RECURSIVE Reach(_, _, _)
Refs(v) == CASE v[1] \in {"r", "n"} -> <<v[2]>>
             [] v[1] = "l" -> [ j \in 1..Len(SelectSeq(v[3], LAMBDA x : x[1] = "r")) |-> SelectSeq(v[3], LAMBDA x : x[1] = "r")[j][2] ]
             [] OTHER -> <<>>
Reach(h, m, ids) ==
  IF Member(m, ids) THEN ids
  ELSE FoldLeft(LAMBDA acc, r : Reach(h, r, acc), Append(ids, m), ConcatAll([ j \in 1..Len(h[m].a) |-> Refs(h[m].a[j][2]) ]))
RECURSIVE Renamed(_, _, _, _)
Renamed(v, ids, n0, nl) ==
  CASE v[1] \in {"r", "n"} -> <<v[1], n0 + IndexOf(v[2], ids)>>
    [] v[1] = "l" -> <<"l", v[2] + nl, [ j \in 1..Len(v[3]) |-> Renamed(v[3][j], ids, n0, nl) ]>>
    [] OTHER -> v
DeepCopy(s, m) ==
  LET ids == Reach(s.h, m, <<>>)
      n0 == Len(s.h)
  IN [s EXCEPT !.h = @ \o [ i \in 1..Len(ids) |-> [ty |-> s.h[ids[i]].ty, a |-> [ j \in 1..Len(s.h[ids[i]].a) |->
                                <<s.h[ids[i]].a[j][1], Renamed(s.h[ids[i]].a[j][2], ids, n0, s.nl)>> ]] ],
               !.nl = @ + @]

(* -------------------------------------------------------------- operations *)
Err == [t |-> "err"]
Ok == [t |-> "ok"]
Idle == [on |-> FALSE, tx |-> <<>>, pr |-> <<>>]
(* nl exceeds the identifiers of all lists; u counts identifiers; g are printed states and definitions *)
Start == [h |-> <<>>, nl |-> 16, u |-> 0, g |-> <<>>, thr |-> [ t \in 1..3 |-> Idle ]]
Text(tx) == [t |-> "text", x |-> tx]
Thing(s, w) == IF w[1] = "m" THEN <<"r", w[2]>> ELSE s.g[w[2]]
AttrIx(h, m, n) == { j \in 1..Len(h[m].a) : h[m].a[j][1] = n }
Proceed(p) == IF p.pr = <<>> THEN [p |-> Idle, res |-> Text(p.tx)] ELSE [p |-> [p EXCEPT !.pr = Tail(@)], res |-> [t |-> "wait", at |-> Head(p.pr)]]
RECURSIVE Apply(_, _)
Apply(s, op) ==
  CASE op.o = "mk" ->
         (CASE op.how = "new" -> [s |-> [s EXCEPT !.h = Append(@, [ty |-> op.ty, a |-> <<>>])], res |-> Ok]
           [] op.how = "copy" -> [s |-> [s EXCEPT !.h = Append(@, s.h[op.m])], res |-> Ok]
           [] op.how \in {"deep", "pickle"} -> [s |-> DeepCopy(s, op.m), res |-> Ok])
    [] op.o = "uid" -> [s |-> [s EXCEPT !.u = @ + 1], res |-> Ok]      \* new, copied, deep-copied or unpickled: always another one
    (* many identifiers used and discarded, then more of them and more modules: all distinct *)
    [] op.o = "fresh" -> [s |-> s, res |-> [t |-> "num", x |-> Len(s.h) + op.n, y |-> s.u + op.n]]
    [] op.o = "set" ->
         LET j == AttrIx(s.h, op.m, op.n) IN
         [s |-> [s EXCEPT !.h[op.m].a = IF j = {} THEN Append(@, <<op.n, op.v>>) ELSE [@ EXCEPT ![CHOOSE i \in j : TRUE] = <<op.n, op.v>>],
                          !.nl = IF op.v[1] = "l" /\ op.v[2] >= @ THEN op.v[2] + 1 ELSE @], res |-> Ok]
    [] op.o = "del" -> [s |-> [s EXCEPT !.h[op.m].a = SelectSeq(@, LAMBDA nv : nv[1] # op.n)], res |-> IF AttrIx(s.h, op.m, op.n) = {} THEN Err ELSE Ok]
    [] op.o = "state" -> [s |-> [s EXCEPT !.g = Append(@, <<"S", op.x>>)], res |-> Ok]
    [] op.o = "def" -> [s |-> [s EXCEPT !.g = Append(@, <<"D", DefTree(s.h, op.m)>>)], res |-> Ok]
    [] op.o = "print" -> [s |-> s, res |-> Text(Render(s.h, Thing(s, op.w)).tx)]
    [] op.o = "start" ->
         LET r == Render(s.h, Thing(s, op.w))
             e == Proceed([on |-> TRUE, tx |-> r.tx, pr |-> r.pr])
         IN [s |-> [s EXCEPT !.thr[op.t] = e.p], res |-> e.res]
    [] op.o = "step" -> LET e == Proceed(s.thr[op.t]) IN [s |-> [s EXCEPT !.thr[op.t] = e.p], res |-> e.res]
    [] op.o = "raise" -> [s |-> [s EXCEPT !.thr[op.t] = Idle], res |-> Err]
    (* operation b takes place at some point inside operation a *)
    [] op.o = "pre" -> LET e1 == Apply(s, op.a)
                           e2 == Apply(e1.s, op.b)
                       IN [s |-> e2.s, res |-> [t |-> "two", x |-> e1.res, y |-> e2.res]]
(* every module and every identifier is distinct from all others *)
Seen(s) == [m |-> [ i \in 1..Len(s.h) |-> i ], u |-> [ i \in 1..s.u |-> i ]]
=============================================================================
