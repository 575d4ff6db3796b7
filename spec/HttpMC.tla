------------------------------- MODULE HttpMC --------------------------------
(* every version, number, status, factory and method, one case per state *)
EXTENDS Http, Emit
CONSTANTS MaxNum, Statuses
VARIABLE x
Next == FALSE /\ x' = x
Init == \/ \E i \in DOMAIN Versions : x = [k |-> "ver", a |-> i - 1, want |-> <<Versions[i].text, Versions[i].num>>]
        \/ \E n \in 0..MaxNum : x = [k |-> "num", a |-> n, want |-> <<VerOf(n) - 1>>]
        \/ \E n \in Statuses : x = [k |-> "st", a |-> n, want |-> <<Class(n)>>]
        \/ \E i \in DOMAIN Factories : x = [k |-> "fac", a |-> Factories[i][1], want |-> <<Factories[i][2], Class(Factories[i][2])>>]
        \/ \E m \in Methods : \E p \in {"m", "any"} : x = [k |-> "srv", a |-> m, p |-> p, want |-> <<m, IF p = "any" THEN "any" ELSE RouteOf(m)>>]
        \/ \E i \in DOMAIN Named : x = [k |-> "mk", a |-> Named[i][1], want |-> <<Named[i][2], Named[i][1]>>]
EmitInv == Emit(x)
\* a version survives the way to the wire and back; its text is its number
RoundTrip == \A i \in Known : VerOf(Versions[i].num) = i
ClassByDigit == \A n \in 0..999 : Class(n) = (IF n \div 100 \in 1..5 THEN n \div 100 ELSE 0)
=============================================================================
