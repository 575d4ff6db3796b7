----------------------------- MODULE WireEditMC -----------------------------
(* Everything within one edit of given byte streams, and every prefix.       *)
EXTENDS Wire, Emit
CONSTANTS Seeds, EditAlphabet
VARIABLES p
Edits(x) == { SubSeq(x, 1, i - 1) \o SubSeq(x, i + 1, Len(x)) : i \in 1..Len(x) }
   \cup { SubSeq(x, 1, i - 1) \o <<ch>> \o SubSeq(x, i, Len(x)) : i \in 1..(Len(x) + 1), ch \in EditAlphabet }
   \cup { [x EXCEPT ![i] = ch] : i \in 1..Len(x), ch \in EditAlphabet }
   \cup { SubSeq(x, 1, i) : i \in 0..Len(x) }
Init == p \in Seeds \cup UNION {Edits(x) : x \in Seeds}
Next == UNCHANGED p
EmitInv == LET d == Decode(p) IN Emit([b |-> p, a |-> Answers(d), e |-> Ending(d)])
=============================================================================
