---- MODULE MatchMC ----
(* All short paths against a set of patterns: the recursive matcher agrees with
   the declarative meaning, and the captured texts reassemble the path. *)
EXTENDS Paths, Emit
CONSTANTS Pats, Alphabet, MaxLen
VARIABLE path
Init == path = <<>>
Next == Len(path) < MaxLen /\ \E ch \in Alphabet : path' = Append(path, ch)
T == [k \in DOMAIN Pats |-> ParsePath(Pats[k], TRUE).toks]
(* declarative: cut points 0 = e0 <= e1 <= .. <= en = Len(path), token i
   stands for path[e(i-1)+1 .. ei] *)
RECURSIVE Cuts(_, _)
Stands(t, x) == CASE t.k = "s" -> x = t.v
                  [] t.k = "p" -> Len(x) > 0 /\ \A j \in DOMAIN x : x[j] # SLASH
                  [] OTHER -> TRUE
(* set of end positions reachable after the first i tokens *)
Cuts(toks, i) == IF i = 0 THEN {0}
   ELSE UNION { { e \in s..Len(path) : Stands(toks[i], SubSeq(path, s + 1, e)) } : s \in Cuts(toks, i - 1) }
Agree == \A k \in DOMAIN Pats : Match(T[k], path).ok <=> Len(path) \in Cuts(T[k], Len(T[k]))
RECURSIVE Fill(_, _)
Fill(toks, ps) == IF toks = <<>> THEN <<>>
   ELSE IF toks[1].k = "s" THEN toks[1].v \o Fill(Tail(toks), ps)
   ELSE ps[1].v \o Fill(Tail(toks), Tail(ps))
Reassemble == \A k \in DOMAIN Pats : LET m == Match(T[k], path) IN
   m.ok => Fill(T[k], m.ps) = path
EmitInv == Emit([path |-> path, m |-> [k \in DOMAIN Pats |-> Match(T[k], path)]])
====
