---- MODULE PathParserMC ----
(* Every string over Alphabet up to MaxLen: the parser automaton accepts
   exactly the grammar, and the tokens spell the pattern. *)
EXTENDS Paths, Emit
CONSTANTS Alphabet, MaxLen
VARIABLES p, sw, sn
Init == p = <<>> /\ sw = PInit /\ sn = PInit
Next == /\ Len(p) < MaxLen
        /\ \E ch \in Alphabet : /\ p' = Append(p, ch)
                                /\ sw' = PStep(sw, ch, TRUE)
                                /\ sn' = PStep(sn, ch, FALSE)
w == PEnd(sw)
n == PEnd(sn)
Accepts == (w.ok <=> Grammatical(p, TRUE)) /\ (n.ok <=> Grammatical(p, FALSE))
Spells == (w.ok => Spell(w.toks) = p) /\ (n.ok => Spell(n.toks) = p)
NoWildStronger == n.ok => w.ok /\ w.toks = n.toks
(* static texts alternate with names: never two statics in a row, no empty
   static except before a leading name *)
Alternates == w.ok => \A i \in 1..(Len(w.toks) - 1) : w.toks[i].k # "s" \/ w.toks[i + 1].k # "s"
(* once rejected, every extension is rejected: the automaton has no recovery *)
EmitInv == Emit([p |-> p, w |-> w, n |-> n.ok])
====
