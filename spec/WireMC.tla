------------------------------- MODULE WireMC -------------------------------
(* Well-formed requests: every one decodes to itself, alone and pipelined.   *)
EXTENDS Wire, Emit
CONSTANTS Reqs,     \* requests
          Tails     \* requests that may follow on the same connection (or none)
VARIABLES r, s
Init == r \in Reqs /\ s \in Tails
Next == UNCHANGED <<r, s>>
Bytes == Render(r) \o FlattenSeq([i \in DOMAIN s |-> Render(s[i])])
All == <<r>> \o s
\* framing is unambiguous: the decoder finds exactly the requests that were encoded
RoundTrip == LET d == Decode(Bytes) want == [i \in DOMAIN All |-> AsMsg(All[i])]
                 n == IF \E i \in DOMAIN All : ~Keeps(want[i].v, want[i].hs) THEN CHOOSE i \in DOMAIN All : ~Keeps(want[i].v, want[i].hs) /\ \A j \in 1..(i - 1) : Keeps(want[j].v, want[j].hs) ELSE Len(All)
             IN d.msgs = SubSeq(want, 1, n) /\ d.ph = IF Keeps(want[n].v, want[n].hs) THEN "line" ELSE "end"
EmitInv == LET d == Decode(Bytes) IN Emit([b |-> Bytes, a |-> Answers(d), e |-> Ending(d)])
=============================================================================
