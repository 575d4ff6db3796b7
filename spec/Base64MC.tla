---- MODULE Base64MC ----
EXTENDS Base64, Emit
CONSTANTS EncBytes,   \* bytes fed to the encoder
          MaxEnc, MaxDec, Mode
VARIABLES a, dir, inp, st
vars == <<a, dir, inp, st>>
Init == /\ a \in {"s", "u"} /\ inp = <<>>
        /\ \/ dir = "enc" /\ st = EncInit
           \/ dir = "dec" /\ st = DecInit
(* decoder exploration: every automaton state (phase x remembered value) is
   reached through a canonical prefix and from it every byte is tried *)
DecPrefixes == { <<>>, <<65>>, <<65, 65>>, <<65, 65, 65>>, <<65, 65, 65, 65>>,
              <<65, 65, PAD>>, <<65, 65, PAD, PAD>>, <<65, 65, 65, PAD>> }
Canonical == Len(inp) <= 1 \/ (SubSeq(inp, 1, Len(inp) - 1) \in DecPrefixes)
Interesting == {0, 43, 45, 47, 61, 65, 95, 128, 255}
FeedDec == /\ dir = "dec" /\ Len(inp) < MaxDec /\ Canonical
           /\ \E ch \in IF IsErr(st) THEN Interesting ELSE 0..255 :
                inp' = Append(inp, ch) /\ st' = DecStep(a, st, ch)
FeedEnc == /\ dir = "enc" /\ Len(inp) < MaxEnc /\ (\A i \in 1..Len(inp) : inp[i] \in EncBytes)
           /\ \E b \in EncBytes : inp' = Append(inp, b) /\ st' = EncStep(a, st, b)
FeedEncAll == /\ dir = "enc" /\ Len(inp) < 3 /\ (Len(inp) = 2 => inp[1] = 165)
              /\ \E b \in 0..255 : inp' = Append(inp, b) /\ st' = EncStep(a, st, b)
Next == (FeedDec \/ FeedEnc \/ FeedEncAll) /\ UNCHANGED <<a, dir>>

(* ---- properties of the specification ---- *)
EncoderMeans == dir = "enc" => \A pad \in BOOLEAN :
   EncRest(a, st, pad).out = EncodeMeaning(a, inp, pad)
RoundTrip == dir = "enc" => \A pad \in BOOLEAN :
   LET d == DecRun(a, EncRest(a, st, pad).out) IN IsDone(d) /\ d.out = inp
DecoderMeans == dir = "dec" =>
   /\ IsDone(st) <=> WellFormed(a, inp)
   /\ IsDone(st) => st.out = DecodeMeaning(a, inp)
   /\ IsErr(st) => ~WellFormed(a, inp)
Sticky == [][dir = "dec" /\ IsErr(st) => IsErr(st') /\ st'.out = st.out]_vars
EmitInv == Emit(IF dir = "enc"
   THEN [d |-> "enc", a |-> a, i |-> inp, p |-> EncRest(a, st, TRUE).out, n |-> EncRest(a, st, FALSE).out]
   ELSE [d |-> "dec", a |-> a, i |-> inp, err |-> IsErr(st), done |-> IsDone(st), out |-> st.out])
====
