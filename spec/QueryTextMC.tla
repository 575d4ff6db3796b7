---------------------------- MODULE QueryTextMC ------------------------------
EXTENDS QueryText, GenStr, Emit
VARIABLES m, ok
Init == InitG /\ m = Meaning(p) /\ ok = WellFormed(p)
Next == NextG /\ m' = Meaning(p') /\ ok' = WellFormed(p')
EmitInv == Emit([t |-> p, m |-> IF ok THEN m ELSE {}, ok |-> ok, may |-> MayRefuse(p)])
\* encoded pairs stand for themselves, whatever bytes they hold
Half == Len(p) \div 2
RoundTrip == LET a == SubSeq(p, 1, Half) b == From(p, Half + 1) t == Enc(a) \o <<61>> \o Enc(b) IN
           WellFormed(t) /\ Meaning(t) = {<<a, b>>} /\ ~MayRefuse(t)
Unique == \A x \in m : \A y \in m : x[1] = y[1] => x = y
\* texts are judged piece by piece: appending a pair sets that name and leaves the others
Local == ok => LET t == p \o <<38, 97, 61, 98>> IN
           Meaning(t) = {e \in m : e[1] # <<97>>} \cup {<< <<97>>, <<98>> >>}
=============================================================================
