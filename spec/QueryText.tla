------------------------------ MODULE QueryText ------------------------------
(* application/x-www-form-urlencoded text and what it stands for.            *)
EXTENDS Text
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 16
\* percent-decoding; <<ok, bytes>>
RECURSIVE Dec(_, _, _)
Dec(t, i, acc) == IF i > Len(t) THEN <<TRUE, acc>>
  ELSE IF t[i] = 43 THEN Dec(t, i + 1, Append(acc, 32))
  ELSE IF t[i] # 37 THEN Dec(t, i + 1, Append(acc, t[i]))
  ELSE IF i + 2 > Len(t) \/ HexVal(t[i + 1]) > 15 \/ HexVal(t[i + 2]) > 15 THEN <<FALSE, << >> >>
  ELSE Dec(t, i + 3, Append(acc, HexVal(t[i + 1]) * 16 + HexVal(t[i + 2])))
Cut(p) == LET at == {i \in DOMAIN p : p[i] = 61} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j
\* the pairs of a text; a piece without '=' carries no value and is left out
Pieces(t) == SelectSeq(SplitRaw(t, {38}), LAMBDA p : Cut(p) # 0)
Pairs(t) == LET ps == Pieces(t) IN [i \in DOMAIN ps |-> LET c == Cut(ps[i]) IN
              <<Dec(SubSeq(ps[i], 1, c - 1), 1, << >>)[2], Dec(From(ps[i], c + 1), 1, << >>)[2]>>]
\* the map: the last pair of a name
Meaning(t) == LET ps == Pairs(t) IN {ps[i] : i \in {i \in DOMAIN ps : \A j \in DOMAIN ps : j > i => ps[j][1] # ps[i][1]}}
\* escapes must be complete; bytes outside the alphabet of a query may be refused
WellFormed(t) == Dec(t, 1, << >>)[1]
QChar(c) == IsAlnum(c) \/ c \in {33, 36, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 58, 59, 61, 63, 64, 95, 126, 37}
MayRefuse(t) == ~WellFormed(t) \/ \E i \in DOMAIN t : ~QChar(t[i])
MustRefuse(t) == ~WellFormed(t)
\* encoding: the inverse, for the laws and for generating texts
Hex(n) == IF n < 10 THEN 48 + n ELSE 55 + n
EncC(c) == IF IsAlnum(c) \/ c \in {45, 46, 95, 126} THEN <<c>> ELSE IF c = 32 THEN <<43>> ELSE <<37, Hex(c \div 16), Hex(c % 16)>>
Enc(s) == FoldLeft(LAMBDA acc, c : acc \o EncC(c), << >>, s)
=============================================================================
