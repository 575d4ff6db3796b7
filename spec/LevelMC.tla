---- MODULE LevelMC ----
(* L01: a filter variable that is assigned again and again, from every kind of
   source; what it admits is what its last source says. *)
EXTENDS LogText, Emit, TLC, Sequences
CONSTANTS EnvTexts, Lists, MaxSteps
VARIABLES flt, hist
InitF == flt = All /\ hist = <<>>
Say(tag, arg, new) == flt' = new /\ hist' = Append(hist, [a |-> tag, x |-> arg, r |-> [l \in 1..7 |-> (l - 1) \in new]])
NextF == /\ Len(hist) < MaxSteps
         /\ \/ \E l \in Levels : Say("at_least", <<l>>, AtLeast(l))
            \/ Say("all", <<>>, All)
            \/ \E i \in DOMAIN Lists : Say("list", Lists[i], Listed(Lists[i]))
            \/ Say("unset", <<>>, FromEnv(FALSE, <<>>))
            \/ \E i \in DOMAIN EnvTexts : Say("env", EnvTexts[i], FromEnv(TRUE, EnvTexts[i]))
EmitInv == Len(hist) = MaxSteps => Emit(hist)
(* ---- laws ---- *)
NeverOff == Off \notin flt
UpperSet == \A l \in Levels : AtLeast(l) = UNION { {k} : k \in { j \in 0..5 : j >= l } }
Nested == \A a, b \in Levels : a <= b => AtLeast(b) \subseteq AtLeast(a)
RoundTrip == \A l \in Levels : LevelOf(LevelText(l)) = l
====
