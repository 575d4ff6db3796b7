---- MODULE GenStr ----
(* Inputs of the text properties: all strings over an alphabet up to a length,
   with a fixed prefix, and everything within some edits of given seeds. *)
EXTENDS Integers, Sequences
CONSTANTS Alphabet, EditAlphabet, MaxLen, Prefix, Seeds, MaxEdits
VARIABLES p, g
InitG == \/ p = Prefix /\ g = -1
         \/ p \in Seeds /\ g = MaxEdits
Edits(s) == { SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) : i \in 1..Len(s) }
   \cup { SubSeq(s, 1, i - 1) \o <<ch>> \o SubSeq(s, i, Len(s)) : i \in 1..(Len(s) + 1), ch \in EditAlphabet }
   \cup { [s EXCEPT ![i] = ch] : i \in 1..Len(s), ch \in EditAlphabet }
NextG == \/ g = -1 /\ Len(p) < MaxLen + Len(Prefix) /\ \E ch \in Alphabet : p' = Append(p, ch) /\ g' = -1
         \/ g > 0 /\ g' = g - 1 /\ p' \in Edits(p)
====
