---- MODULE FromString ----
(* from_string<T>: what a text denotes.  Result: k = "v" value (sign, digits),
   "i" invalid_argument, "r" result_out_of_range, "x" either error. *)
EXTENDS Text
V(neg, d) == [k |-> "v", neg |-> neg /\ d # <<0>>, d |-> d]
Err(e) == [k |-> e, neg |-> FALSE, d |-> <<0>>]
\* bounds of the integral types: [signed, greatest magnitude below zero, above]
Bound(bits, sgn) ==
  CASE bits = 8  -> IF sgn THEN <<<<1,2,8>>, <<1,2,7>>>> ELSE <<<<0>>, <<2,5,5>>>>
    [] bits = 16 -> IF sgn THEN <<<<3,2,7,6,8>>, <<3,2,7,6,7>>>> ELSE <<<<0>>, <<6,5,5,3,5>>>>
    [] bits = 32 -> IF sgn THEN <<<<2,1,4,7,4,8,3,6,4,8>>, <<2,1,4,7,4,8,3,6,4,7>>>>
                    ELSE <<<<0>>, <<4,2,9,4,9,6,7,2,9,5>>>>
    [] bits = 64 -> IF sgn THEN <<<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>,
                                  <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>>>
                    ELSE <<<<0>>, MaxU64>>
IntOf(s, bits, sgn) ==
  LET neg == sgn /\ s # <<>> /\ s[1] = 45
      body == IF neg THEN Tail(s) ELSE s
      b == Bound(bits, sgn)
  IN IF IsNumber(body)
     THEN LET d == Digits(body) IN
          IF CmpN(d, IF neg THEN b[1] ELSE b[2]) > 0 THEN Err("r") ELSE V(neg, d)
     ELSE IF body # <<>> /\ IsDigit(body[1]) THEN Err("x") ELSE Err("i")
BoolOf(s) ==
  LET l == Lower(s) IN
  IF l \in {<<49>>, <<116>>, <<116,114,117,101>>, <<121>>, <<121,101,115>>} THEN V(FALSE, <<1>>)
  ELSE IF l \in {<<48>>, <<102>>, <<102,97,108,115,101>>, <<110>>, <<110,111>>} THEN V(FALSE, <<0>>)
  ELSE Err("i")
(* floating point: [-] digits [. digits] [e [sign] digits] with at least one
   digit before the exponent.  The value is m * 10^e with m free of zeros at
   both ends; p10 is the exponent of its first digit. *)
RECURSIVE StripR(_)
StripR(d) == IF Len(d) > 1 /\ d[Len(d)] = 0 THEN StripR(SubSeq(d, 1, Len(d) - 1)) ELSE d
RECURSIVE ToInt(_, _)
ToInt(d, acc) == IF d = <<>> THEN acc ELSE IF acc > 99999 THEN acc ELSE ToInt(Tail(d), acc * 10 + d[1])
Pos(s, S) == LET w == { i \in DOMAIN s : s[i] \in S } IN IF w = {} THEN 0 ELSE CHOOSE i \in w : \A j \in w : i <= j
RawDigits(s) == [i \in DOMAIN s |-> s[i] - 48]
DecText(s) == IsNumber(s) \/ LET k == Pos(s, {46}) IN
   /\ k > 0
   /\ AllIn(SubSeq(s, 1, k - 1), IsDigit) /\ AllIn(From(s, k + 1), IsDigit) /\ Len(s) > 1
ExpText(s) == IsNumber(s) \/ (s # <<>> /\ s[1] \in {43, 45} /\ IsNumber(Tail(s)))
FloatParts(s) ==          \* [ok, neg, m, p10]
  LET neg == s # <<>> /\ s[1] = 45
      body == IF neg THEN Tail(s) ELSE s
      k == Pos(body, {101, 69})
      dec == IF k = 0 THEN body ELSE SubSeq(body, 1, k - 1)
      ex == IF k = 0 THEN <<48>> ELSE From(body, k + 1)
  IN IF ~DecText(dec) \/ ~ExpText(ex) THEN [ok |-> FALSE, neg |-> FALSE, m |-> <<0>>, p10 |-> 0]
     ELSE LET pt == Pos(dec, {46})
              ip == RawDigits(IF pt = 0 THEN dec ELSE SubSeq(dec, 1, pt - 1))
              fp == RawDigits(IF pt = 0 THEN <<>> ELSE From(dec, pt + 1))
              all == ip \o fp
              lead == { i \in DOMAIN all : all[i] # 0 }
              e == IF ex[1] = 45 THEN -ToInt(RawDigits(Tail(ex)), 0)
                   ELSE IF ex[1] = 43 THEN ToInt(RawDigits(Tail(ex)), 0) ELSE ToInt(RawDigits(ex), 0)
          IN IF lead = {} THEN [ok |-> TRUE, neg |-> neg, m |-> <<0>>, p10 |-> 0]
             ELSE LET f == CHOOSE i \in lead : \A j \in lead : i <= j
                  IN [ok |-> TRUE, neg |-> neg, m |-> StripR(From(all, f)), p10 |-> Len(ip) - f + e]
\* precision and exponent range in which every text of that precision is kept
FloatKind(t) == CASE t = "f" -> [dig |-> 6, lo |-> -36, hi |-> 37, under |-> -47, over |-> 39]
                  [] t = "d" -> [dig |-> 15, lo |-> -306, hi |-> 307, under |-> -326, over |-> 309]
                  [] t = "l" -> [dig |-> 18, lo |-> -4930, hi |-> 4931, under |-> -4953, over |-> 4933]
Special(s) == LET b == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s IN b # <<>> /\ LowerC(b[1]) \in {105, 110}
\* k = "?" leaves the outcome open (rounding, denormals, inf and nan)
FloatOf(s, t) ==
  LET q == FloatParts(s) fk == FloatKind(t) IN
  IF Special(s) THEN [k |-> "?", neg |-> FALSE, m |-> <<0>>, p10 |-> 0]
  ELSE IF ~q.ok THEN [k |-> IF \E i \in DOMAIN s : IsDigit(s[i]) THEN "x" ELSE "i", neg |-> FALSE, m |-> <<0>>, p10 |-> 0]
  ELSE IF q.m = <<0>> THEN [k |-> "v", neg |-> FALSE, m |-> <<0>>, p10 |-> 0]
  ELSE IF q.p10 >= fk.over \/ q.p10 <= fk.under THEN [k |-> "r", neg |-> FALSE, m |-> <<0>>, p10 |-> 0]
  ELSE IF Len(q.m) > fk.dig \/ q.p10 < fk.lo \/ q.p10 > fk.hi THEN [k |-> "?", neg |-> FALSE, m |-> <<0>>, p10 |-> 0]
  ELSE [k |-> "v", neg |-> q.neg, m |-> q.m, p10 |-> q.p10]
====
