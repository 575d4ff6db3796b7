---- MODULE PathsTrace ----
(* Judges records of the real parser and matcher. *)
EXTENDS Paths, TLC
VARIABLE c
ParseOk(r) == LET w == ParsePath(r.p, TRUE) n == ParsePath(r.p, FALSE) IN
   /\ r.w.ok = w.ok /\ r.w.toks = w.toks /\ r.n = n.ok
MatchOk(r) == LET pp == ParsePath(r.p, TRUE) m == Match(pp.toks, r.path) IN
   /\ pp.ok /\ r.ok = m.ok /\ r.ps = m.ps
RecOk(r) == IF r.t = "parse" THEN ParseOk(r) ELSE MatchOk(r)
INSTANCE TraceCheck WITH Ok <- RecOk
====
