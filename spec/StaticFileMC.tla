---- MODULE StaticFileMC ----
(* Every Range value, every If-None-Match value beside some ranges, dates and
   names of files. *)
EXTENDS StaticFile, GenStr, Emit, TLC
CONSTANTS Mode, Totals, Beside, Stamps, Names
\* in values, T stands for the opaque tag of the file as it is now
Tag == [ok |-> TRUE, strong |-> TRUE, v |-> <<84>>]
With(total, as) == { [a |-> a, cr |-> IF a.st \in {206, 416} THEN ContentRange(a, total) ELSE <<>>] : a \in as }
EmitInv ==
  CASE Mode = "range" -> \A i \in DOMAIN Totals :
         Emit([t |-> Totals[i], inm |-> <<>>, rng |-> <<p>>, as |-> With(Totals[i], Answers(Totals[i], Tag, <<>>, <<p>>))])
    [] Mode = "inm" -> \A i \in DOMAIN Totals : \A k \in DOMAIN Beside :
         Emit([t |-> Totals[i], inm |-> <<p>>, rng |-> Beside[k], as |-> With(Totals[i], Answers(Totals[i], Tag, <<p>>, Beside[k]))])
    [] Mode = "stamp" -> \A i \in DOMAIN Stamps : \A k \in DOMAIN Names :
         Emit([day |-> Stamps[i][1], sec |-> Stamps[i][2], name |-> Names[k][1], ct |-> Names[k][2],
               date |-> HttpDate(Stamps[i][1], Stamps[i][2]), cd |-> Disposition(Names[k][2], Names[k][1])])
(* no byte outside of the file, none invented, and a refusal has its reason *)
Inside == Mode = "range" => \A i \in DOMAIN Totals : LET t == Totals[i] as == Answers(t, Tag, <<>>, <<p>>) IN
  /\ as # {}
  /\ \A a \in as : CmpN(AddN(a.o, a.n), t) <= 0 \/ a.st = 416
  /\ \A a \in as : a.st = 206 => a.n # <<0>>
  /\ \A a \in as : a.st \in {200, 206, 416}
  /\ t = <<0>> => \A a \in as : a.st # 206
  /\ (RangeOf(p, t, TRUE).ok /\ EqCi(RangeOf(p, t, TRUE).unit, Bytes) /\ Len(RangeOf(p, t, TRUE).items) = 1) =>
       LET it == RangeOf(p, t, TRUE).items[1] IN
       as = {IF CmpN(it.o, t) < 0 THEN Clamp(it, t) ELSE Empty(416)}
\* only a value that names the tag (or any) keeps the file back
Validators == Mode = "inm" => \A i \in DOMAIN Totals : \A k \in DOMAIN Beside : LET as == Answers(Totals[i], Tag, <<p>>, Beside[k]) IN
  /\ as # {}
  /\ (\E a \in as : a.st = 304) => 84 \in { p[j] : j \in DOMAIN p } \/ STAR \in { p[j] : j \in DOMAIN p }
  /\ (\E a \in as : a.st \in {200, 206}) => as = RangeAnswers(Beside[k], Totals[i]) \/ Empty(400) \in as
====
