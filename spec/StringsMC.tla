---- MODULE StringsMC ----
(* The helpers of strings.hpp: case-insensitive comparison, trimming and
   splitting, with the laws that make them an equality, an order, a
   projection and an inverse of joining. *)
EXTENDS Text, GenStr, Emit, TLC
CONSTANTS Mode, Others, Delims
Upper(s) == [i \in DOMAIN s |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE s[i]]
EmitInv ==
  CASE Mode = "cmp" -> Emit([s |-> p, r |-> [i \in DOMAIN Others |-> CmpCi(p, Others[i])]])
    [] Mode = "trim" -> Emit([s |-> p, l |-> LTrim(p), r |-> RTrim(p), t |-> Trim(p),
                              ql |-> LTrimBy(p, LAMBDA ch : ch \in {97, 32}), qr |-> RTrimBy(p, LAMBDA ch : ch \in {97, 32}),
                              qt |-> TrimBy(p, LAMBDA ch : ch \in {97, 32})])
    [] Mode = "split" -> Emit([s |-> p, r |-> [i \in DOMAIN Delims |-> SplitOf(p, Delims[i])]])
(* ---- laws ---- *)
OrderLaws == Mode = "cmp" => \A i \in DOMAIN Others :
   /\ CmpCi(p, Others[i]) = -CmpCi(Others[i], p)
   /\ (CmpCi(p, Others[i]) = 0) = EqCi(p, Others[i])
   /\ CmpCi(Upper(p), Others[i]) = CmpCi(p, Others[i])
Transitive == Mode = "cmp" => \A i \in DOMAIN Others : i % 5 = 0 => \A j \in DOMAIN Others : j % 7 = 0 =>
   (CmpCi(p, Others[i]) <= 0 /\ CmpCi(Others[i], Others[j]) <= 0 => CmpCi(p, Others[j]) <= 0)
TrimLaws == Mode = "trim" =>
   /\ Trim(Trim(p)) = Trim(p) /\ LTrim(RTrim(p)) = RTrim(LTrim(p))
   /\ Trim(p) # <<>> => ~IsSpace(Trim(p)[1]) /\ ~IsSpace(Trim(p)[Len(Trim(p))])
   /\ \E i, j \in 0..Len(p) : i + j <= Len(p) /\ SubSeq(p, i + 1, Len(p) - j) = Trim(p)
SplitLaws == Mode = "split" => \A k \in DOMAIN Delims :
   LET r == SplitRaw(p, Delims[k]) IN
   /\ Len(r) = CountIn(p, Delims[k]) + 1
   /\ Cardinality(Delims[k]) = 1 => \A d \in Delims[k] : Join(r, <<d>>) = p
====
