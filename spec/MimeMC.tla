---- MODULE MimeMC ----
EXTENDS Mime, GenStr, Emit, TLC
Rec(r) == IF r.ok THEN [ok |-> TRUE, e |-> r.essence, t |-> r.type, s |-> r.subtype, x |-> r.suffix,
                        p |-> r.params, dup |-> HasDup(r.params)]
          ELSE [ok |-> FALSE]
EmitInv == Emit([s |-> p, r |-> Rec(MimeOf(p, TRUE)), l |-> Rec(MimeOf(p, FALSE))])
(* the parts spell the essence; the parse does not depend on case, nor on
   blanks at the ends *)
Spells == LET r == MimeOf(p, TRUE) IN r.ok =>
   /\ r.essence = r.type \o <<47>> \o r.subtype \o (IF r.suffix = <<>> THEN <<>> ELSE <<43>> \o r.suffix)
   /\ MimeOf(p, FALSE) = r
   /\ MimeOf(Lower(p), TRUE).ok
   /\ MimeOf(<<32>> \o p \o <<9>>, TRUE) = r
====
