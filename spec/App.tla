-------------------------------- MODULE App ----------------------------------
(* Applications as programs: scopes and routes are values, every operation
   yields a new one.  A route value carries the middlewares around its handler
   (outermost first) and the states it can see (innermost level first).      *)
EXTENDS Integers, Sequences, FiniteSets
Types == 1..3
NewScope(p) == [k |-> "s", p |-> <<p>>, mw |-> << >>, st |-> {}, rs |-> << >>]
NewRoute(h, kind) == [k |-> "r", p |-> <<h>>, h |-> h, hk |-> kind, mw |-> << >>, st |-> << {} >>]
\* a level maps a type to the identity of the state object registered last
Put(m, t, id) == {e \in m : e[1] # t} \cup {<<t, id>>}
Use(x, m) == [x EXCEPT !.mw = Append(@, m)]
UseState(x, t, id) == IF x.k = "s" THEN [x EXCEPT !.st = Put(@, t, id)] ELSE [x EXCEPT !.st = <<Put(@[1], t, id)>> \o Tail(@)]
Under(s, r) == [r EXCEPT !.p = s.p \o @, !.mw = s.mw \o @, !.st = Append(@, s.st)]
RoutesOf(x) == IF x.k = "r" THEN <<x>> ELSE x.rs
Serve(s, x) == [s EXCEPT !.rs = @ \o [i \in DOMAIN RoutesOf(x) |-> Under(s, RoutesOf(x)[i])]]
\* the state of a type: the innermost level that has one; 0 if there is none
Look(r, t) == LET at == {i \in DOMAIN r.st : \E e \in r.st[i] : e[1] = t} IN
  IF at = {} THEN 0 ELSE (CHOOSE e \in r.st[CHOOSE i \in at : \A j \in at : i <= j] : e[1] = t)[2]
\* one request: what is logged, the states' counters, how it ends
RECURSIVE Exec(_, _, _)
Exec(r, i, cnt) ==
  IF i > Len(r.mw) THEN
    LET seen == {t \in Types : Look(r, t) # 0}
        c2 == [id \in DOMAIN cnt |-> cnt[id] + Cardinality({t \in seen : Look(r, t) = id})]
        tok(t) == IF t \in seen THEN <<Look(r, t), c2[Look(r, t)]>> ELSE <<0, 0>> IN
    [log |-> << <<"h", r.h, tok(1), tok(2), tok(3)>> >>, cnt |-> c2, end |-> IF r.hk = "throw" THEN "exc" ELSE "ok", status |-> 200, tr |-> << >>]
  ELSE LET m == r.mw[i] IN
    IF m.kind = "stop" THEN [log |-> << <<"+", m.id>>, <<"!", m.id>> >>, cnt |-> cnt, end |-> "ok", status |-> 202, tr |-> <<m.id>>]
    ELSE LET a == Exec(r, i + 1, cnt)
             b == IF m.kind = "twice" /\ a.end = "ok" THEN [Exec(r, i + 1, a.cnt) EXCEPT !.log = a.log \o @] ELSE a IN
      IF m.kind = "late" THEN [b EXCEPT !.log = << <<"+", m.id>> >> \o @, !.end = "exc", !.tr = << >>]
      ELSE IF m.kind = "eh" THEN (IF a.end = "exc" THEN [a EXCEPT !.end = "ok", !.status = 500, !.tr = << >>] ELSE a)
      ELSE [b EXCEPT !.log = << <<"+", m.id>> >> \o @ \o (IF b.end = "ok" THEN << <<"-", m.id>> >> ELSE << >>),
                     !.tr = IF b.end = "ok" THEN Append(@, m.id) ELSE @]
\* a route with no layer that stops, repeats or catches: the plain onion
Plain(r) == \A i \in DOMAIN r.mw : r.mw[i].kind = "pass"
Onion(r, cnt) == LET e == Exec(r, 1, cnt) n == Len(r.mw) IN
  (Plain(r) /\ r.hk = "ok") => /\ Len(e.log) = 2 * n + 1
                               /\ \A i \in 1..n : e.log[i] = <<"+", r.mw[i].id>> /\ e.log[2 * n + 2 - i] = <<"-", r.mw[i].id>> /\ e.tr[i] = r.mw[n + 1 - i].id
                               /\ e.log[n + 1][1] = "h"
Served(tops) == LET RECURSIVE Cat(_) Cat(s) == IF s = << >> THEN << >> ELSE RoutesOf(s[1]) \o Cat(Tail(s)) IN Cat(tops)
Distinct(rs) == \A i \in DOMAIN rs : \A j \in DOMAIN rs : i # j => SelectSeq(rs[i].p, LAMBDA x : x # 0) # SelectSeq(rs[j].p, LAMBDA x : x # 0)
=============================================================================
