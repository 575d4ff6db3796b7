---- MODULE Settings ----
(* The settings of a server: the last value set, else the default *)
EXTENDS Integers, Sequences, TLC, Emit
CONSTANTS Choices, MaxSets        \* Choices: set of [f, v]
Defaults == [max |-> "4096", hs |-> "3000", req |-> "5000", hdr |-> "8192", body |-> "1048576"]
VARIABLES st, hist
InitS == st = Defaults /\ hist = <<>>
NextS == /\ Len(hist) < MaxSets
         /\ \E c \in Choices : st' = [st EXCEPT ![c.f] = c.v] /\ hist' = Append(hist, [f |-> c.f, v |-> c.v])
LastSet == \A f \in DOMAIN st : LET is == {i \in DOMAIN hist : hist[i].f = f} IN
  st[f] = IF is = {} THEN Defaults[f] ELSE hist[CHOOSE i \in is : \A j \in is : j <= i].v
EmitS == Emit([h |-> hist, st |-> st])
====
