---- MODULE Paths ----
(* Path patterns: grammar, tokens, matching and route precedence.
   Strings are sequences of byte values.  A token is [k, v]: k = "s" static
   text, "p" parameter name, "w" wildcard name. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

SLASH == 47  LB == 123  RB == 125  HASH == 35  PCT == 37

Unreserved(ch) == \/ ch \in 97..122 \/ ch \in 65..90 \/ ch \in 48..57
                  \/ ch \in {45, 46, 95, 126}
SubDelim(ch) == ch \in {33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61}
Hex(ch) == ch \in 48..57 \/ ch \in 97..102 \/ ch \in 65..70
PlainChar(ch) == Unreserved(ch) \/ SubDelim(ch) \/ ch \in {58, 64}

(* ------------------------------------------------------------------ *)
(* the parser as an automaton                                          *)
(* mode: "s" static, "p" parameter, "w" wildcard, "e" after '}', "X" error;
   esc: hex digits still due after '%'; cur: text collected so far;
   prev: last character consumed (0 = none) *)
PInit == [mode |-> "s", esc |-> 0, cur |-> <<>>, prev |-> 0, toks |-> <<>>]
Fail(s) == [s EXCEPT !.mode = "X"]
Take(s, ch) == [s EXCEPT !.cur = Append(@, ch), !.prev = ch]
Names(toks) == { toks[i].v : i \in { j \in DOMAIN toks : toks[j].k # "s" } }
PChar(s, ch) == IF PlainChar(ch) THEN Take(s, ch)
                ELSE IF ch = PCT THEN [Take(s, ch) EXCEPT !.esc = 2]
                ELSE Fail(s)
StaticStep(s, ch, wild) ==
  IF ch = LB THEN IF s.prev # SLASH THEN Fail(s)
                  ELSE [s EXCEPT !.mode = "p", !.prev = ch, !.cur = <<>>,
                                 !.toks = Append(@, [k |-> "s", v |-> s.cur])]
  ELSE IF ch = HASH THEN IF ~wild THEN Fail(s)
                  ELSE [s EXCEPT !.mode = "w", !.prev = ch, !.cur = <<>>,
                                 !.toks = Append(@, [k |-> "s", v |-> s.cur])]
  ELSE IF ch = SLASH THEN Take(s, ch) ELSE PChar(s, ch)
PStep(s, ch, wild) ==
  IF s.mode = "X" THEN s
  ELSE IF s.esc > 0 THEN IF Hex(ch) THEN [Take(s, ch) EXCEPT !.esc = @ - 1] ELSE Fail(s)
  ELSE CASE s.mode = "s" -> StaticStep(s, ch, wild)
         [] s.mode = "p" -> IF ch = RB
              THEN IF s.cur = <<>> \/ s.cur \in Names(s.toks) THEN Fail(s)
                   ELSE [s EXCEPT !.mode = "e", !.prev = ch, !.cur = <<>>,
                                  !.toks = Append(@, [k |-> "p", v |-> s.cur])]
              ELSE PChar(s, ch)
         [] s.mode = "w" -> PChar(s, ch)
         [] s.mode = "e" -> IF ch = SLASH THEN [Take(s, ch) EXCEPT !.mode = "s"] ELSE Fail(s)
PEnd(s) ==
  IF s.mode \in {"X", "p"} \/ s.esc > 0 THEN [ok |-> FALSE, toks |-> <<>>]
  ELSE IF s.mode = "w" THEN
         IF s.cur = <<>> \/ s.cur \in Names(s.toks) THEN [ok |-> FALSE, toks |-> <<>>]
         ELSE [ok |-> TRUE, toks |-> Append(s.toks, [k |-> "w", v |-> s.cur])]
  ELSE [ok |-> TRUE,
        toks |-> IF s.cur = <<>> THEN s.toks ELSE Append(s.toks, [k |-> "s", v |-> s.cur])]
ParsePath(p, wild) == PEnd(FoldLeft(LAMBDA s, ch : PStep(s, ch, wild), PInit, p))

(* ------------------------------------------------------------------ *)
(* the grammar, declaratively                                          *)
IsPChars(t) == \A i \in DOMAIN t :
   \/ PlainChar(t[i])
   \/ /\ t[i] = PCT /\ i + 2 <= Len(t) /\ Hex(t[i + 1]) /\ Hex(t[i + 2])
Count(t, ch) == Cardinality({ i \in DOMAIN t : t[i] = ch })
Segments(p) ==   \* texts between slashes
  LET cuts == SetToSortSeq({ i \in DOMAIN p : p[i] = SLASH } \cup {0, Len(p) + 1}, <)
  IN [i \in 1..(Len(cuts) - 1) |-> SubSeq(p, cuts[i] + 1, cuts[i + 1] - 1)]
IsParamSeg(g) == /\ Len(g) > 2 /\ g[1] = LB /\ g[Len(g)] = RB
                 /\ IsPChars(SubSeq(g, 2, Len(g) - 1))
HashAt(g) == CHOOSE i \in DOMAIN g : g[i] = HASH
IsWildSeg(g) == /\ Count(g, HASH) = 1
                /\ LET h == HashAt(g) IN
                     /\ IsPChars(SubSeq(g, 1, h - 1)) /\ h < Len(g)
                     /\ IsPChars(SubSeq(g, h + 1, Len(g)))
SegName(g) == IF IsParamSeg(g) THEN SubSeq(g, 2, Len(g) - 1)
              ELSE SubSeq(g, HashAt(g) + 1, Len(g))
Grammatical(p, wild) ==
  LET gs == Segments(p)  n == Len(gs)
      named == { i \in 1..n : IsParamSeg(gs[i]) \/ IsWildSeg(gs[i]) }
  IN /\ \A i \in 1..n : \/ IsPChars(gs[i])
                        \/ i > 1 /\ IsParamSeg(gs[i])
                        \/ wild /\ i = n /\ IsWildSeg(gs[i])
     /\ \A i, j \in named : i # j => SegName(gs[i]) # SegName(gs[j])
Spell(toks) == FlattenSeq([i \in DOMAIN toks |->
   CASE toks[i].k = "s" -> toks[i].v
     [] toks[i].k = "p" -> <<LB>> \o toks[i].v \o <<RB>>
     [] OTHER -> <<HASH>> \o toks[i].v])

(* ------------------------------------------------------------------ *)
(* matching                                                            *)
NoMatch == [ok |-> FALSE, ps |-> <<>>]
SegLen(path) == IF \E i \in DOMAIN path : path[i] = SLASH
                THEN (CHOOSE i \in DOMAIN path : path[i] = SLASH /\ \A j \in 1..(i - 1) : path[j] # SLASH) - 1
                ELSE Len(path)
From(s, i) == SubSeq(s, i, Len(s))
RECURSIVE MatchFrom(_, _, _)
MatchFrom(toks, i, path) ==
  IF i > Len(toks) THEN IF path = <<>> THEN [ok |-> TRUE, ps |-> <<>>] ELSE NoMatch
  ELSE LET t == toks[i] IN
    CASE t.k = "s" -> IF IsPrefix(t.v, path) THEN MatchFrom(toks, i + 1, From(path, Len(t.v) + 1))
                      ELSE NoMatch
      [] t.k = "p" -> LET n == SegLen(path) IN
           IF n = 0 THEN NoMatch
           ELSE LET r == MatchFrom(toks, i + 1, From(path, n + 1)) IN
                IF r.ok THEN [r EXCEPT !.ps = << [n |-> t.v, v |-> SubSeq(path, 1, n)] >> \o @]
                ELSE NoMatch
      [] OTHER -> [ok |-> TRUE, ps |-> << [n |-> t.v, v |-> path] >>]
Match(toks, path) == MatchFrom(toks, 1, path)

(* ------------------------------------------------------------------ *)
(* routes: [m, toks]; m = "any" matches every method                    *)
PARAM == 1000  WILD == 2000
Shape(toks) == FlattenSeq([i \in DOMAIN toks |->
   CASE toks[i].k = "s" -> toks[i].v [] toks[i].k = "p" -> <<PARAM>> [] OTHER -> <<WILD>>])
Rank(sh, i) == IF i > Len(sh) THEN 0 ELSE IF sh[i] = PARAM THEN 1 ELSE IF sh[i] = WILD THEN 2 ELSE 0
At(sh, i) == IF i > Len(sh) THEN -1 ELSE sh[i]
FirstDiff(a, b) == CHOOSE i \in 1..(Len(a) + Len(b) + 1) :
                      At(a, i) # At(b, i) /\ \A j \in 1..(i - 1) : At(a, j) = At(b, j)
(* a is preferred to b, both matching the same path *)
PreferShape(a, b) == LET i == FirstDiff(a, b) IN Rank(a, i) < Rank(b, i)
Equivalent(r, q) == r.m = q.m /\ Shape(r.toks) = Shape(q.toks)
Prefer(r, q, m) == IF Shape(r.toks) = Shape(q.toks) THEN r.m = m /\ q.m # m
                   ELSE PreferShape(Shape(r.toks), Shape(q.toks))
Candidates(R, m, path) == { r \in R : (r.m = m \/ r.m = "any") /\ Match(r.toks, path).ok }
Best(R, m, path) == LET C == Candidates(R, m, path) IN
   { r \in C : \A q \in C : q = r \/ Prefer(r, q, m) }
====
