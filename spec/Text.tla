---- MODULE Text ----
(* Byte strings as sequences of 0..255, and the helpers of strings.hpp. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
IsDigit(c) == c \in 48..57
IsAlpha(c) == c \in 65..90 \/ c \in 97..122
IsAlnum(c) == IsDigit(c) \/ IsAlpha(c)
IsSpace(c) == c = 32 \/ c \in 9..13
LowerC(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lower(s) == [i \in DOMAIN s |-> LowerC(s[i])]
EqCi(a, b) == Lower(a) = Lower(b)
(* one total order: lexicographic on the lower-cased bytes *)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE LET x == LowerC(a[i]) y == LowerC(b[i]) IN
       IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE CmpFrom(a, b, i + 1)
CmpCi(a, b) == CmpFrom(a, b, 1)
LTrimBy(s, P(_)) ==
  LET keep == { i \in DOMAIN s : ~P(s[i]) }
  IN IF keep = {} THEN <<>> ELSE SubSeq(s, CHOOSE i \in keep : \A j \in keep : i <= j, Len(s))
RTrimBy(s, P(_)) ==
  LET keep == { i \in DOMAIN s : ~P(s[i]) }
  IN IF keep = {} THEN <<>> ELSE SubSeq(s, 1, CHOOSE i \in keep : \A j \in keep : i >= j)
TrimBy(s, P(_)) == LTrimBy(RTrimBy(s, P), P)
LTrim(s) == LTrimBy(s, IsSpace)
RTrim(s) == RTrimBy(s, IsSpace)
Trim(s) == TrimBy(s, IsSpace)
(* cut at every byte of D, nothing trimmed *)
SplitRaw(s, D) ==
  FoldLeft(LAMBDA acc, ch : IF ch \in D THEN Append(acc, <<>>)
                            ELSE [acc EXCEPT ![Len(acc)] = Append(@, ch)],
           << <<>> >>, s)
SplitOf(s, D) == LET r == SplitRaw(s, D) IN [i \in DOMAIN r |-> Trim(r[i])]
RECURSIVE Join(_, _)
Join(parts, sep) == IF Len(parts) = 1 THEN parts[1]
                    ELSE parts[1] \o sep \o Join(Tail(parts), sep)
StartsWith(s, q) == Len(s) >= Len(q) /\ SubSeq(s, 1, Len(q)) = q
From(s, i) == SubSeq(s, i, Len(s))
CountIn(s, D) == Cardinality({ i \in DOMAIN s : s[i] \in D })
AllIn(s, P(_)) == \A i \in DOMAIN s : P(s[i])
(* ---- natural numbers of any size: decimal digits, no leading zeros ---- *)
RECURSIVE Norm(_)
Norm(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Norm(Tail(d)) ELSE d
IsNumber(s) == s # <<>> /\ AllIn(s, IsDigit)
Digits(s) == Norm([i \in DOMAIN s |-> s[i] - 48])
RECURSIVE CmpD(_, _, _)
CmpD(a, b, i) == IF i > Len(a) THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpD(a, b, i + 1)
CmpN(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpD(a, b, 1)
DigitAt(a, k) == IF k < Len(a) THEN a[Len(a) - k] ELSE 0     \* k-th from the right
RECURSIVE SubK(_, _, _, _, _)
SubK(a, b, k, borrow, acc) == IF k = Len(a) THEN acc
  ELSE LET d == DigitAt(a, k) - DigitAt(b, k) - borrow IN
       IF d < 0 THEN SubK(a, b, k + 1, 1, <<d + 10>> \o acc) ELSE SubK(a, b, k + 1, 0, <<d>> \o acc)
SubN(a, b) == Norm(SubK(a, b, 0, 0, <<>>))                   \* a >= b
RECURSIVE AddK(_, _, _, _, _)
AddK(a, b, k, carry, acc) == IF k >= Len(a) /\ k >= Len(b) THEN (IF carry = 1 THEN <<1>> \o acc ELSE acc)
  ELSE LET d == DigitAt(a, k) + DigitAt(b, k) + carry IN
       IF d > 9 THEN AddK(a, b, k + 1, 1, <<d - 10>> \o acc) ELSE AddK(a, b, k + 1, 0, <<d>> \o acc)
AddN(a, b) == Norm(AddK(a, b, 0, 0, <<>>))
MinN(a, b) == IF CmpN(a, b) < 0 THEN a ELSE b
MaxU64 == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
====
