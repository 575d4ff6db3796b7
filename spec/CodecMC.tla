---- MODULE CodecMC ----
(* Every way of cutting, ending and damaging a small encoding, in units that
   the replay maps to byte positions of real encodings. *)
EXTENDS Codec, Emit
CONSTANTS Good,      \* units of one complete encoding
          Extra,     \* units of junk that may follow
          Empties    \* TRUE: chunks of no bytes are inserted too
VARIABLES case, s
vars == <<case, s>>
(* cut positions -> chunk lengths *)
RECURSIVE Lens(_, _, _)
Lens(D, cuts, from) == IF from = D THEN << >>
  ELSE LET nxt == CHOOSE x \in (cuts \cup {D}) : x > from /\ \A y \in (cuts \cup {D}) : y > from => x <= y
       IN <<nxt - from>> \o Lens(D, cuts, nxt)
WithEmpty(l) == {l} \cup (IF Empties THEN {SubSeq(l, 1, k) \o <<0>> \o SubSeq(l, k + 1, Len(l)) : k \in 0..Len(l)} ELSE {})
Cases == {[good |-> Good, bad |-> FALSE, chunks |-> l, fin |-> f] :
            l \in UNION {WithEmpty(Lens(D, cuts, 0)) : cuts \in SUBSET (1..(Good + Extra)), D \in 0..(Good + Extra)}, f \in {"eof", "src"}}
Norm(c) == TRUE
Init == /\ case \in Cases /\ s = DStart
Next == /\ s.st = "run" /\ s' = DPull(case, s) /\ UNCHANGED case
        /\ (s'.st # "run" => Emit([chunks |-> case.chunks, fin |-> case.fin, st |-> s'.st]))
(* what the machine may say *)
Sane == /\ s.st = "end" => Sum(case.chunks) \in {0, case.good}
        /\ s.st = "src" => case.fin = "src"
        /\ (s.st # "run" => s.st \in DOutcomes(case))
        /\ (Sum(case.chunks) > case.good => "end" \notin DOutcomes(case))
        /\ DOutcomes(case) # {}
====
