---- MODULE Logger ----
(* L03: what a logger owes to its writers, judged on one finished history.
   r.calls[i] = [lv, b, e] with b < e the logical times at which the call began
   and returned; r.writers[w] = [since, out]: since when it was attached, and
   the indices of the records it was handed, in order; r.min is the lowest
   admitted level. *)
EXTENDS Integers, Sequences, FiniteSets
Accepted(r) == { i \in DOMAIN r.calls : r.calls[i].lv >= r.min /\ r.calls[i].lv # 6 }
Got(w) == { w.out[k] : k \in DOMAIN w.out }
ExactlyOnce(r, w) == /\ Got(w) \subseteq Accepted(r)
                     /\ Cardinality(Got(w)) = Len(w.out)
                     /\ \A i \in Accepted(r) : r.calls[i].b > w.since => i \in Got(w)
(* a record whose call returned before another was made comes before it *)
InCallOrder(r, w) == \A j \in DOMAIN w.out : \A k \in 1..(j - 1) : ~(r.calls[w.out[j]].e < r.calls[w.out[k]].b)
Keep(s, keep) == SelectSeq(s, LAMBDA x : x \in keep)
Agree(u, w) == LET both == Got(u) \cap Got(w) IN Keep(u.out, both) = Keep(w.out, both)
Judge(r) == /\ \A w \in DOMAIN r.writers : ExactlyOnce(r, r.writers[w]) /\ InCallOrder(r, r.writers[w])
            /\ \A u \in DOMAIN r.writers : \A w \in DOMAIN r.writers : u < w => Agree(r.writers[u], r.writers[w])
====
