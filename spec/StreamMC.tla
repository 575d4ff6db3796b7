------------------------------ MODULE StreamMC -------------------------------
(* every small program; what is delivered is the contents, in order, once *)
EXTENDS Stream, Emit, TLC
CONSTANTS MaxOps, MaxItems, Sizes
VARIABLES v, ops, out, ended
vars == <<v, ops, out, ended>>
Plans == UNION {[1..n -> {-1} \cup Sizes] : n \in 0..MaxItems}
Op(o, i, j) == [o |-> o, i |-> i, j |-> j, n |-> 0, items |-> << >>, off |-> 0, size |-> 0]
Made == {<<Plan(p), [Op("P", 0, 0) EXCEPT !.items = p]>> : p \in Plans}
        \cup {<<Vec(n), [Op(k, 0, 0) EXCEPT !.n = n]>> : n \in {0, 1, 3}, k \in {"V", "S"}}
        \cup {<<Vec(0), Op("D", 0, 0)>>}
        \cup {<<File(n, f, z), [Op("F", 0, 0) EXCEPT !.n = n, !.off = f, !.size = z]>> : n \in {0, 3}, f \in {-1, 0, 1, 3, 5}, z \in {-1, 0, 1, 2, 9}}
Init == /\ \E m \in Made : v = [s \in {0, 1} |-> IF s = 0 THEN m[1] ELSE None] /\ ops = <<m[2]>>
        /\ out = [s \in {0, 1} |-> v[s].lo] /\ ended = [s \in {0, 1} |-> FALSE]
Live(s) == v[s].k # "none"
\* what a stream may answer to a read
Answers(s) == IF s.k = "plan" THEN (IF s.items = << >> THEN {[k |-> "n", code |-> "", from |-> << >>, len |-> 0]}
                                    ELSE IF s.items[1] < 0 THEN {[k |-> "e", code |-> "plan", from |-> << >>, len |-> 0]}
                                    ELSE {[k |-> "c", code |-> "", from |-> <<s.lo>>, len |-> s.items[1]]})
              ELSE IF s.lo = s.hi THEN {[k |-> "n", code |-> "", from |-> << >>, len |-> 0]}
              ELSE {[k |-> "c", code |-> "", from |-> <<s.lo>>, len |-> n] : n \in 1..(s.hi - s.lo)}
Reading == \E s \in {0, 1} : Live(s) /\ \E o \in Answers(v[s]) : LET r == Read(v[s], o, FALSE) IN
   /\ r.ok /\ v' = [v EXCEPT ![s] = r.s] /\ ops' = Append(ops, Op("R", s, 0))
   /\ out' = [out EXCEPT ![s] = IF o.k = "c" THEN @ + o.len ELSE @] /\ ended' = [ended EXCEPT ![s] = o.k = "n"]
Draining == \E s \in {0, 1} : Live(s) /\ \E k \in {"U", "O", "T"} :
   LET e == IF v[s].k = "plan" THEN FirstErr(v[s].items) ELSE 0
       n == IF e > 0 THEN Sum(SubSeq(v[s].items, 1, e)) ELSE v[s].hi - v[s].lo
       o == [k |-> IF e > 0 THEN "e" ELSE "o", code |-> IF e > 0 THEN "plan" ELSE "", from |-> <<v[s].lo>>, len |-> n, closed |-> e = 0]
       r == IF k = "U" THEN Drain(v[s], o, FALSE) ELSE Pump(v[s], o, FALSE) IN
   /\ r.ok /\ v' = [v EXCEPT ![s] = r.s] /\ ops' = Append(ops, Op(k, s, 0))
   /\ out' = [out EXCEPT ![s] = @ + n] /\ ended' = [ended EXCEPT ![s] = e = 0]
Wrapping == \E s \in {0, 1} : Live(s) /\ v' = v /\ ops' = Append(ops, Op("W", s, 0)) /\ UNCHANGED <<out, ended>>
Moving == \E s \in {0, 1} : Live(s) /\ v' = [v EXCEPT ![s] = None, ![1 - s] = v[s]] /\ ops' = Append(ops, Op("M", s, 1 - s))
             /\ out' = [out EXCEPT ![1 - s] = out[s]] /\ ended' = [ended EXCEPT ![1 - s] = ended[s]]
Copying == \E s \in {0, 1} : v[s].k = "vec" /\ ~(\E i \in DOMAIN ops : ops[i].o = "W") /\ v' = [v EXCEPT ![1 - s] = v[s]] /\ ops' = Append(ops, Op("C", s, 1 - s))
             /\ out' = [out EXCEPT ![1 - s] = out[s]] /\ ended' = [ended EXCEPT ![1 - s] = ended[s]]
Next == Len(ops) <= MaxOps /\ (Reading \/ Draining \/ Wrapping \/ Moving \/ Copying)
EmitInv == Len(ops) = MaxOps + 1 => Emit(ops)
\* nothing is lost, repeated or invented: what came out ends where the rest begins
Conserved == \A s \in {0, 1} : Live(s) => out[s] = v[s].lo /\ v[s].lo <= v[s].hi
\* the end is reported exactly when nothing is left
Ends == \A s \in {0, 1} : Live(s) /\ ended[s] => v[s].lo = v[s].hi /\ v[s].items = << >>
=============================================================================
