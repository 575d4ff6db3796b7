---- MODULE Base64 ----
(* RFC 4648 base64: the incremental encoder and decoder as state machines, and
   the declarative meaning of the encoding they have to implement.
   Bytes are 0..255.  Alphabets: "s" standard, "u" url-safe. *)
EXTENDS Integers, Sequences, SequencesExt, TLC

PAD == 61
Bad == 255

EncChar(a, v) == CASE v < 26 -> 65 + v
                   [] v < 52 -> 71 + v
                   [] v < 62 -> v - 4
                   [] v = 62 -> IF a = "u" THEN 45 ELSE 43
                   [] OTHER -> IF a = "u" THEN 95 ELSE 47
(* inverse of EncChar (checked by ASSUME below) *)
DecChar(a, ch) == CASE ch >= 65 /\ ch <= 90 -> ch - 65
                    [] ch >= 97 /\ ch <= 122 -> ch - 71
                    [] ch >= 48 /\ ch <= 57 -> ch + 4
                    [] ch = (IF a = "u" THEN 45 ELSE 43) -> 62
                    [] ch = (IF a = "u" THEN 95 ELSE 47) -> 63
                    [] OTHER -> Bad
ASSUME \A a \in {"s", "u"} : /\ \A v \in 0..63 : DecChar(a, EncChar(a, v)) = v
                            /\ \A ch \in 0..255 : DecChar(a, ch) # Bad => EncChar(a, DecChar(a, ch)) = ch

(* ---- encoder automaton: phase 0..2, rest = previous byte ---- *)
EncInit == [ph |-> 0, rest |-> 0, out |-> <<>>]
EncStep(a, s, b) ==
  CASE s.ph = 0 -> [ph |-> 1, rest |-> b, out |-> Append(s.out, EncChar(a, b \div 4))]
    [] s.ph = 1 -> [ph |-> 2, rest |-> b,
                    out |-> Append(s.out, EncChar(a, (s.rest % 4) * 16 + b \div 16))]
    [] OTHER    -> [ph |-> 0, rest |-> 0,
                    out |-> s.out \o << EncChar(a, (s.rest % 16) * 4 + b \div 64),
                                        EncChar(a, b % 64) >>]
EncRest(a, s, pad) ==
  CASE s.ph = 0 -> s
    [] s.ph = 1 -> [EncInit EXCEPT !.out = Append(s.out, EncChar(a, (s.rest % 4) * 16))
                                     \o (IF pad THEN <<PAD, PAD>> ELSE <<>>)]
    [] OTHER -> [EncInit EXCEPT !.out = Append(s.out, EncChar(a, (s.rest % 16) * 4))
                                     \o (IF pad THEN <<PAD>> ELSE <<>>)]
EncRun(a, bs) == FoldLeft(LAMBDA s, b : EncStep(a, s, b), EncInit, bs)
Encode(a, bs, pad) == EncRest(a, EncRun(a, bs), pad).out

(* ---- decoder automaton ---- *)
DecInit == [ph |-> "s0", rest |-> 0, out |-> <<>>]
DecStep(a, s, ch) ==
  LET v == DecChar(a, ch)
      Err == [s EXCEPT !.ph = "err"]
  IN CASE s.ph = "err" -> s
       [] s.ph = "s0" -> IF v = Bad THEN Err ELSE [s EXCEPT !.ph = "s1", !.rest = v]
       [] s.ph = "s1" -> IF v = Bad THEN Err
                         ELSE [ph |-> "s2", rest |-> v,
                               out |-> Append(s.out, s.rest * 4 + v \div 16)]
       [] s.ph = "s2" -> IF ch = PAD THEN [s EXCEPT !.ph = "end1"]
                         ELSE IF v = Bad THEN Err
                         ELSE [ph |-> "s3", rest |-> v,
                               out |-> Append(s.out, (s.rest % 16) * 16 + v \div 4)]
       [] s.ph = "s3" -> IF ch = PAD THEN [s EXCEPT !.ph = "end0"]
                         ELSE IF v = Bad THEN Err
                         ELSE [ph |-> "s0", rest |-> 0,
                               out |-> Append(s.out, (s.rest % 4) * 64 + v)]
       [] s.ph = "end1" -> IF ch = PAD THEN [s EXCEPT !.ph = "end0"] ELSE Err
       [] OTHER -> Err
DecRun(a, cs) == FoldLeft(LAMBDA s, ch : DecStep(a, s, ch), DecInit, cs)
IsErr(s) == s.ph = "err"
(* complete quanta only: not in the middle of a quantum or of its padding *)
IsDone(s) == s.ph \in {"s0", "s2", "s3", "end0"}

(* ---- declarative meaning ---- *)
Pow2 == [i \in 0..8 |-> 2^i]
BitsOf(x, n) == [i \in 1..n |-> (x \div Pow2[n - i]) % 2]
Bits(seq, n) == FlattenSeq([i \in 1..Len(seq) |-> BitsOf(seq[i], n)])
ValOf(bits) == FoldLeft(LAMBDA acc, b : acc * 2 + b, 0, bits)
Group(bits, n) == [i \in 1..(Len(bits) \div n) |-> ValOf(SubSeq(bits, (i - 1) * n + 1, i * n))]
EncodeMeaning(a, bs, pad) ==
  LET b == Bits(bs, 8)
      fill == (6 - (Len(b) % 6)) % 6
      full == b \o [i \in 1..fill |-> 0]
      body == [i \in 1..(Len(full) \div 6) |-> EncChar(a, Group(full, 6)[i])]
      np == (4 - (Len(body) % 4)) % 4
  IN body \o (IF pad THEN [i \in 1..np |-> PAD] ELSE <<>>)
(* texts denoting a byte string: quanta, with the last one possibly short and
   then either fully padded or not padded at all *)
Body(cs) == SelectSeq(cs, LAMBDA ch : ch # PAD)
WellFormed(a, cs) ==
  LET n == Len(Body(cs)) p == Len(cs) - n IN
    /\ \A i \in 1..n : cs[i] # PAD /\ DecChar(a, cs[i]) # Bad
    /\ n % 4 # 1
    /\ p = 0 \/ (p = (4 - (n % 4)) % 4)
DecodeMeaning(a, cs) ==
  LET b == Bits([i \in 1..Len(Body(cs)) |-> DecChar(a, Body(cs)[i])], 6)
  IN Group(b, 8)
====
