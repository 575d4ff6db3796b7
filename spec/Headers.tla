---- MODULE Headers ----
(* Range, ETag and If-None-Match field values (RFC 9110). *)
EXTENDS Text
EQ == 61  COMMA == 44  DASH == 45  QUOTE == 34  STAR == 42
No == [ok |-> FALSE]
(* ---------------- Range ---------------- *)
(* An interval is (offset, length), numbers as digits.  strict: blanks only
   around commas; otherwise they may also stand around '=' and '-' (what a
   recipient does with those is left open). *)
IsU64(s) == IsNumber(s) /\ CmpN(Digits(s), MaxU64) <= 0
One == <<1>>
Item(s, total, strict) ==        \* a-b or a-
  LET t == IF strict THEN SplitRaw(Trim(s), {DASH}) ELSE SplitOf(s, {DASH}) IN
  IF Len(t) # 2 \/ ~IsU64(t[1]) THEN No
  ELSE LET a == Digits(t[1]) IN
    IF t[2] = <<>> THEN IF CmpN(a, total) < 0 THEN [ok |-> TRUE, o |-> a, n |-> SubN(total, a)] ELSE No
    ELSE IF ~IsU64(t[2]) THEN No
    ELSE LET b == Digits(t[2]) IN
      IF CmpN(a, b) > 0 \/ CmpN(SubN(b, a), MaxU64) = 0 THEN No
      ELSE [ok |-> TRUE, o |-> a, n |-> AddN(SubN(b, a), One)]
Suffix(s, total) ==              \* -n : the last n bytes, all of them if fewer
  IF s # <<>> /\ s[1] = DASH /\ IsU64(Tail(s)) /\ Digits(Tail(s)) # <<0>> /\ total # <<0>>
  THEN LET n == MinN(Digits(Tail(s)), total) IN [ok |-> TRUE, o |-> SubN(total, n), n |-> n]
  ELSE No
RangeOf(s, total, strict) ==
  LET u == IF strict THEN SplitRaw(s, {EQ}) ELSE SplitOf(s, {EQ}) IN
  IF Len(u) # 2 \/ (strict /\ u[1] # Trim(u[1])) THEN [ok |-> FALSE, unit |-> <<>>, items |-> <<>>]
  ELSE IF u[2] # <<>> /\ u[2][1] = DASH
  THEN LET x == Suffix(u[2], total) IN
       IF x.ok THEN [ok |-> TRUE, unit |-> u[1], items |-> <<x>>] ELSE [ok |-> FALSE, unit |-> <<>>, items |-> <<>>]
  ELSE LET it == SplitRaw(u[2], {COMMA})
           r == [i \in DOMAIN it |-> Item(it[i], total, strict)]
       IN IF \A i \in DOMAIN r : r[i].ok THEN [ok |-> TRUE, unit |-> u[1], items |-> r]
          ELSE [ok |-> FALSE, unit |-> <<>>, items |-> <<>>]
(* ---------------- entity tags ---------------- *)
EtagC(ch) == ch = 33 \/ ch \in 35..126 \/ ch \in 128..255
OpaqueOk(s) == Len(s) >= 2 /\ s[1] = QUOTE /\ s[Len(s)] = QUOTE /\ AllIn(SubSeq(s, 2, Len(s) - 1), EtagC)
NoTag == [ok |-> FALSE, strong |-> FALSE, v |-> <<>>]
EtagOf(s) ==
  LET weak == StartsWith(s, <<87, 47>>)
      b == IF weak THEN From(s, 3) ELSE s
  IN IF OpaqueOk(b) THEN [ok |-> TRUE, strong |-> ~weak, v |-> SubSeq(b, 2, Len(b) - 1)] ELSE NoTag
EtagText(t) == (IF t.strong THEN <<>> ELSE <<87, 47>>) \o <<QUOTE>> \o t.v \o <<QUOTE>>
WeakEq(a, b) == a.v = b.v
StrongEq(a, b) == a.v = b.v /\ a.strong = b.strong
(* ---------------- If-None-Match ---------------- *)
(* cut at the commas that stand outside of quotes *)
QSplit(s) ==
  LET f == FoldLeft(LAMBDA acc, ch :
        IF ch = COMMA /\ ~acc.q THEN [acc EXCEPT !.r = Append(@, <<>>)]
        ELSE [r |-> [acc.r EXCEPT ![Len(acc.r)] = Append(@, ch)], q |-> IF ch = QUOTE THEN ~acc.q ELSE acc.q],
        [r |-> << <<>> >>, q |-> FALSE], s) IN [i \in DOMAIN f.r |-> Trim(f.r[i])]
InmOf(s) ==
  IF Trim(s) = <<STAR>> THEN [ok |-> TRUE, any |-> TRUE, tags |-> <<>>]
  ELSE LET el == QSplit(s)
           t == [i \in DOMAIN el |-> EtagOf(el[i])]
       IN IF \A i \in DOMAIN t : t[i].ok THEN [ok |-> TRUE, any |-> FALSE, tags |-> t]
          ELSE [ok |-> FALSE, any |-> FALSE, tags |-> <<>>]
\* RFC 9110 5.6.1: a recipient may also skip empty list elements
InmSkipping(s) ==
  LET el == SelectSeq(QSplit(s), LAMBDA e : e # <<>>)
      t == [i \in DOMAIN el |-> EtagOf(el[i])]
  IN IF el # <<>> /\ \A i \in DOMAIN t : t[i].ok THEN [ok |-> TRUE, any |-> FALSE, tags |-> t]
     ELSE [ok |-> FALSE, any |-> FALSE, tags |-> <<>>]
====
