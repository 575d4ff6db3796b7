---- MODULE StaticFile ----
(* What a file server answers: validators first, then the range (RFC 9110
   13.2.2, 14.1.2).  Sizes and offsets are numbers as digits.  An answer is a
   status with the interval of the file that makes the body. *)
EXTENDS Headers, LogText
Huge == <<1>> \o [i \in 1..30 |-> 0]
Whole(total) == [st |-> 200, o |-> <<0>>, n |-> total]
Part(o, n) == [st |-> 206, o |-> o, n |-> n]
Empty(st) == [st |-> st, o |-> <<0>>, n |-> <<0>>]
Bytes == <<98,121,116,101,115>>
(* ---- one Range value ---- *)
Clamp(it, total) == Part(it.o, MinN(it.n, SubN(total, it.o)))
Reading(s, total, strict) ==     \* the answers one reading of the value allows
  LET u == IF strict THEN SplitRaw(s, {EQ}) ELSE SplitOf(s, {EQ})
      bad == {Empty(416), Whole(total)}      \* malformed or foreign: refused or ignored
      suffix == Len(u) = 2 /\ u[2] # <<>> /\ u[2][1] = DASH
      r == RangeOf(s, Huge, strict)
  IN IF Len(u) # 2 THEN bad
     ELSE IF ~EqCi(u[1], Bytes) THEN bad
     ELSE IF suffix THEN
       IF ~IsU64(Tail(u[2])) THEN bad
       ELSE LET x == Suffix(u[2], total) IN IF x.ok THEN {Part(x.o, x.n)} ELSE {Empty(416)}
     ELSE IF ~r.ok THEN bad
     ELSE LET sat == { i \in DOMAIN r.items : CmpN(r.items[i].o, total) < 0 } IN
          \* of several ranges the first; with one of them unsatisfiable it is open
          IF sat = DOMAIN r.items THEN {Clamp(r.items[1], total)}
          ELSE {Empty(416)} \cup { Clamp(r.items[i], total) : i \in sat }
RangeAnswers(rng, total) ==
  IF rng = <<>> THEN {Whole(total)}
  ELSE LET s == rng[1] IN Reading(s, total, TRUE) \cup (IF RangeOf(s, Huge, TRUE).ok THEN {} ELSE Reading(s, total, FALSE))
(* ---- If-None-Match ---- *)
InmAnswers(r, tag, rest) ==
  IF ~r.ok THEN {Empty(400)}
  ELSE IF r.any \/ (\E i \in DOMAIN r.tags : WeakEq(r.tags[i], tag)) THEN {Empty(304)}
  ELSE rest
Answers(total, tag, inm, rng) ==
  LET rest == RangeAnswers(rng, total) IN
  IF inm = <<>> THEN rest ELSE InmAnswers(InmOf(inm[1]), tag, rest) \cup InmAnswers(InmSkipping(inm[1]), tag, rest)
(* ---- header fields ---- *)
Text10(d) == [i \in DOMAIN d |-> d[i] + 48]
ContentRange(a, total) ==
  Bytes \o <<32>> \o (IF a.st = 206 THEN Text10(a.o) \o <<DASH>> \o Text10(SubN(AddN(a.o, a.n), One)) ELSE <<STAR>>)
        \o <<47>> \o Text10(total)
DayName(d) == LET k == (d + 4) % 7 IN \* 1970-01-01 was a Thursday
  <<<<83,117,110>>, <<77,111,110>>, <<84,117,101>>, <<87,101,100>>, <<84,104,117>>, <<70,114,105>>, <<83,97,116>>>>[k + 1]
MonthName(m) == <<<<74,97,110>>, <<70,101,98>>, <<77,97,114>>, <<65,112,114>>, <<77,97,121>>, <<74,117,110>>, <<74,117,108>>,
  <<65,117,103>>, <<83,101,112>>, <<79,99,116>>, <<78,111,118>>, <<68,101,99>>>>[m]
HttpDate(day, sec) ==            \* IMF-fixdate
  LET c == Civil(day) IN DayName(day) \o <<44, 32>> \o Num2(c[3]) \o <<32>> \o MonthName(c[2]) \o <<32>>
    \o PadLeft(Dec(c[1]), 4, 48) \o <<32>> \o Hms(sec) \o <<32, 71, 77, 84>>
\* shown in place, or offered as a download under its own name
Begins(s, q) == Len(s) >= Len(q) /\ SubSeq(s, 1, Len(q)) = q
Shown(ct) == \/ \E q \in {"audio/", "image/", "text/", "video/"} : Begins(ct, q)
             \/ ct \in {"application/javascript", "application/json", "application/wasm"}
Disposition(ct, name) == IF Shown(ct) THEN "inline" ELSE "attachment; filename=\"" \o name \o "\""
====
