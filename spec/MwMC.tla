---- MODULE MwMC ----
(* what the decompress middleware does with each list of codings *)
EXTENDS Codec, Emit, FiniteSets
CONSTANTS Tokens, MaxLen
VARIABLE l
Init == l = << >> /\ Emit([l |-> << >>, has |-> FALSE, v |-> Mw(FALSE, << >>)])
Next == /\ Len(l) < MaxLen
        /\ \E t \in Tokens : l' = Append(l, t) /\ Emit([l |-> l', has |-> TRUE, v |-> Mw(TRUE, l')])
\* one coding that is not known is enough, wherever it stands
Sane == \A i \in 1..Len(l) : l[i] \notin Known => ~Mw(TRUE, l).run
====
