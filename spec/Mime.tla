---- MODULE Mime ----
(* MIME types: type "/" subtype ["+" suffix] *(";" name "=" value).
   Names are restricted names (RFC 6838 4.2). *)
EXTENDS Text
NameChar(ch) == IsAlnum(ch) \/ ch \in {33, 35, 36, 38, 45, 94, 95, 46}
ValidName(s) == s # <<>> /\ IsAlnum(s[1]) /\ AllIn(s, NameChar)
NoMime == [ok |-> FALSE]
(* strict: blanks only around ';'.  Otherwise they may also surround '/', '+'
   and '=' (what a recipient does with those is left open). *)
Cut(s, d, strict) == IF strict THEN SplitRaw(s, {d}) ELSE SplitOf(s, {d})
MimeOf(s, strict) ==
  LET parts == SplitOf(s, {59})
      prim == Cut(parts[1], 47, strict)
  IN IF Len(prim) # 2 THEN NoMime
     ELSE LET sub == Cut(prim[2], 43, strict)
              pr == [i \in 1..(Len(parts) - 1) |-> Cut(parts[i + 1], 61, strict)]
          IN IF /\ ValidName(prim[1])
                /\ Len(sub) <= 2 /\ \A i \in DOMAIN sub : ValidName(sub[i])
                /\ \A i \in DOMAIN pr : Len(pr[i]) = 2 /\ ValidName(pr[i][1]) /\ ValidName(pr[i][2])
             THEN [ok |-> TRUE, essence |-> parts[1], type |-> prim[1], subtype |-> sub[1],
                   suffix |-> IF Len(sub) = 2 THEN sub[2] ELSE <<>>, params |-> pr]
             ELSE NoMime
HasDup(pr) == \E i, j \in DOMAIN pr : i < j /\ EqCi(pr[i][1], pr[j][1])
====
