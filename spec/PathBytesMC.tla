---- MODULE PathBytesMC ----
(* Every byte in every state of the pattern automaton. *)
EXTENDS PathParserMC
InitB == \E q \in { <<>>, <<47>>, <<47, 97>>, <<47, 123>>, <<47, 123, 97>>, <<47, 123, 97, 125>>,
                    <<47, 35>>, <<47, 35, 97>>, <<47, 37>>, <<47, 37, 65>>, <<47, 123, 37>>,
                    <<47, 123, 37, 65>>, <<47, 35, 37>>, <<47, 35, 37, 65>>, <<47, 123, 97, 125, 47>> } :
           \E ch \in Alphabet : LET r == Append(q, ch) IN
              /\ p = r
              /\ sw = FoldLeft(LAMBDA s, x : PStep(s, x, TRUE), PInit, r)
              /\ sn = FoldLeft(LAMBDA s, x : PStep(s, x, FALSE), PInit, r)
NextB == /\ Len(p) < MaxLen /\ p[Len(p)] \notin {123, 125, 35, 37, 47}
         /\ \E ch \in {125, 47, 97} : /\ p' = Append(p, ch)
                                /\ sw' = PStep(sw, ch, TRUE)
                                /\ sn' = PStep(sn, ch, FALSE)
====
